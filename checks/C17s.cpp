#define MC_MAIN
#include "../lib/sequence_sys.hpp"
int main(int argc, char** argv)
{
	using namespace mc;
#if !defined(PART) || PART == 1
	add_seq<sq::Sys<sq::Big<Thr>, false>>("sequence<throwing copy> chunks of 4", 1, 2, true);
#endif
#if !defined(PART) || PART == 2
	add_seq<sq::Sys<sq::Big<ThrMove>, true>>("sequence<throwing move> aligned chunks of 4", 1, 2, true);
#endif
#if !defined(PART) || PART == 3
	add_seq<sq::Sys<sq::Big<OwnThr>, false>>("sequence<relocatable owner, throwing copy> chunks of 4", 1, 2, true);
#endif
	return main_(argc, argv);
}
