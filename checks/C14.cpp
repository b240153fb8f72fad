#define MC_MAIN
#include "../lib/radix_sys.hpp"
struct KeyLess
{
	template<class A, class B>
	bool operator()(const A& a, const B& b) const
	{
		return mc::get(a) < mc::get(b);
	}
};
int main(int argc, char** argv)
{
	using namespace mc;
	using namespace rx;
#if !defined(PART) || PART == 1
	add_seq<Sys<HInts<Trk>, Trk, true>>("radix_hash_map<tracked,tracked>", 2, 2, false, 0, 1);
#endif
#if !defined(PART) || PART == 2
	add_seq<Sys<HInts<Own, HT, ET>, int, false>>("radix_hash_set<owner>, transparent functors", 2, 2, false, 0, 1);
#endif
#if !defined(PART) || PART == 3
	add_seq<Sys<HInts<int, H, E, KeyLess>, Own, true>>("radix_hash_map<int,owner>, keys with an order", 2, 2, false, 0, 1);
#endif
#if !defined(PART) || PART == 4
	add_seq<Sys<HInts<MoveOnly>, MoveOnly, true>>("radix_hash_map<move only>", 2, 2, false, 0, 1);
#endif
	return main_(argc, argv);
}
