#define MC_MAIN
#include "../lib/chash_sys.hpp"
int main(int argc, char** argv)
{
	using namespace mc;
	using namespace seq;
#if !defined(PART) || PART == 1
	add_seq<ch::Sys<int, false, int, medium_concurrency>>("concurrent_set<int> medium", 2, 3, false, 0, 2);
#endif
#if !defined(PART) || PART == 2
	add_seq<ch::Sys<Own, true, Trk, low_concurrency>>("concurrent_map<owner,tracked> low", 2, 3, false, 0, 2);
#endif
#if !defined(PART) || PART == 3
	add_seq<ch::Sys<Trk, false, int, no_concurrency>>("concurrent_set<tracked> not concurrent", 2, 3, false, 2, 2);
#endif
#if !defined(PART) || PART == 4
	add_seq<ch::Sys<MoveOnly, true, MoveOnly, low_concurrency_shared, false>>("concurrent_map<move only> low shared, not transparent", 2, 3, false, 2, 2);
#endif
#if !defined(PART) || PART == 5
	add_seq<ch::Sys<int, true, Own, medium_concurrency_shared, true, 1>>("concurrent_map<int,owner> medium shared", 2, 3, false, 0, 2);
#endif
#if !defined(PART) || PART == 6
	add_seq<ch::Sys<int, true, int, high_concurrency, true, 1>>("concurrent_map<int,int> high", 2, 3, false, 0, 2);
#endif
#if !defined(PART) || PART == 7
	add_seq<ch::Sys<ThrMove, true, ThrMove, medium_concurrency, true, 1>>("concurrent_map<copied on rehash> medium", 2, 3, false, 0, 2);
#endif
	return main_(argc, argv);
}
