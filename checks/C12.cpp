#define MC_MAIN
#include "../lib/ordered_sys.hpp"
int main(int argc, char** argv)
{
	using namespace mc;
#if !defined(PART) || PART == 1
	add_seq<od::Sys<Trk, false, od::SMALL>>("ordered_set<tracked>", 2, 3, false, 0, 2);
#endif
#if !defined(PART) || PART == 2
	add_seq<od::Sys<od::Big<Own>, true, od::SMALL, Trk>>("ordered_map<owner,tracked> chunks of 4", 2, 3, false, 0, 2);
#endif
#if !defined(PART) || PART == 3
	add_seq<od::Sys<int, false, od::COLLIDE>>("ordered_set<int> colliding keys", 2, 3, false, 0, 2);
#endif
#if !defined(PART) || PART == 4
	add_seq<od::Sys<MoveOnly, true, od::SMALL, MoveOnly>>("ordered_map<move only>", 2, 3, false, 0, 2);
#endif
#if !defined(PART) || PART == 5
	add_seq<od::Sys<Own, true, od::COLLIDE, Own>>("ordered_map<owner> colliding keys", 2, 3, false, 0, 2);
#endif
	return main_(argc, argv);
}
