#define MC_MAIN
#include "../lib/tiered_sys.hpp"
int main(int argc, char** argv)
{
	using namespace mc;
#if !defined(PART) || PART == 1
	add_seq<tv::Sys<Thr, 4, 4>>("tiered_vector<throwing copy> buckets of 4", 1, 2, true);
#endif
#if !defined(PART) || PART == 2
	add_seq<tv::Sys<ThrMove, 2, 8>>("tiered_vector<throwing move> buckets 2-8", 1, 2, true);
#endif
#if !defined(PART) || PART == 3
	add_seq<tv::Sys<OwnThr, 2, 8>>("tiered_vector<relocatable owner, throwing copy> buckets 2-8", 1, 2, true);
#endif
	return main_(argc, argv);
}
