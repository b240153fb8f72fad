#define MC_MAIN
#include "../lib/radix_sys.hpp"
int main(int argc, char** argv)
{
	using namespace mc;
	using namespace rx;
#if !defined(PART) || PART == 1
	add_seq<Sys<Ints<int>, Trk, true>>("radix_map<int,tracked>", 2, 2, false, 0, 1);
#endif
#if !defined(PART) || PART == 2
	add_seq<Sys<TInts<Trk>, int, false>>("radix_set<tracked by its int>", 2, 2, false, 0, 1);
#endif
#if !defined(PART) || PART == 3
	add_seq<Sys<Strs, Own, true>>("radix_map<string,owner>", 2, 2, false, 0, 1);
#endif
#if !defined(PART) || PART == 4
	add_seq<Sys<TInts<MoveOnly>, MoveOnly, true>>("radix_map<move only>", 2, 2, false, 0, 1);
#endif
	return main_(argc, argv);
}
