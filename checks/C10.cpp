#define MC_MAIN
#include "../lib/sequence_sys.hpp"
int main(int argc, char** argv)
{
	using namespace mc;
#if !defined(PART) || PART == 1
	add_seq<sq::Sys<sq::BigInt, false>>("sequence<big trivial> chunks of 4", 2, 3);
#endif
#if !defined(PART) || PART == 2
	add_seq<sq::Sys<sq::Big<Trk>, true>>("sequence<big tracked> aligned chunks of 4", 2, 3);
#endif
#if !defined(PART) || PART == 3
	add_seq<sq::Sys<sq::Big<Own>, false>>("sequence<big owner> chunks of 4", 2, 3);
#endif
#if !defined(PART) || PART == 4
	add_seq<sq::Sys<MoveOnly, false>>("sequence<move only> chunks of 16", 2, 3);
#endif
#if !defined(PART) || PART == 5
	add_seq<sq::Sys<int, true, true>>("sequence<int> aligned chunks of 64", 1, 2);
#endif
#if !defined(PART) || PART == 6
	add_seq<sq::Sys<Own, false, true>>("sequence<owner> chunks of 64", 1, 2);
#endif
	return main_(argc, argv);
}
