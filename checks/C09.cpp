#define MC_MAIN
#include "../lib/tiered_sys.hpp"
int main(int argc, char** argv)
{
	using namespace mc;
#if !defined(PART) || PART == 1
	add_seq<tv::Sys<int, 2, 8>>("tiered_vector<int> buckets 2-8", 2, 3);
#endif
#if !defined(PART) || PART == 2
	add_seq<tv::Sys<Trk, 4, 4>>("tiered_vector<tracked> buckets of 4", 2, 3);
#endif
#if !defined(PART) || PART == 3
	add_seq<tv::Sys<Own, 2, 8>>("tiered_vector<relocatable owner> buckets 2-8", 2, 3);
#endif
#if !defined(PART) || PART == 4
	add_seq<tv::Sys<MoveOnly, 2, 16>>("tiered_vector<move only> buckets 2-16", 2, 3);
#endif
#if !defined(PART) || PART == 5
	add_seq<tv::Sys<int, 64, 65536, true>>("tiered_vector<int> default buckets", 1, 2);
#endif
	return main_(argc, argv);
}
