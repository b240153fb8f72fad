// Failing allocations, element constructors and functors inside the concurrent tables, under interleavings.
#define MC_NO_NEW
#define MC_MAIN
#include "cmap_sys.hpp"
using namespace cm;

namespace
{
	typedef std::vector<std::string> V;
	enum { ALL = F_ALLOC | F_ELEM | F_FUNC };
	// one thread: every fault of every operation from every seed, followed by the use of the table
	template<class Cfg>
	void solo(Enum& e, const char* name)
	{
		const V seeds = { "", "x", "1", "r32", "r32 1", "r32 1 x", "1 2 3 r32", "f15 1", "f16", "f16 1", "r32 f15 1", "r32 f16 1", "p r32 f16" };
		const char* ops = "ietTavwWcuUEFVCfNKXMAYDLlSG";
		for (auto& s : seeds) {
			for (const char* c = ops; *c; ++c) {
				std::string op(1, *c);
				if (is_point(*c))
					op += "1";
				for (auto& sb : { "", "1 2", "r32 1 2", "f16 2" }) {
					if (!strchr("MAYSG", *c) && sb[0])
						continue;
					Prog<Cfg>::scenario(e, name, 0, s, sb, { op }, 0, ALL);
				}
			}
			for (auto op : { "R1", "R32", "R64", "R200", "Q40", "P", "i3", "E100", "F114", "V100" })
				for (int mode : { 0, 2 })
					Prog<Cfg>::scenario(e, name, mode, s, "", { op }, 0, ALL);
		}
		// failing operation followed by another one of the same thread
		for (auto& s : V{ "", "f16", "r32 1", "p r32 f16", "f15 1" })
			for (auto& a : V{ "i1", "e3", "R64", "R200", "X", "V1", "D" })
				for (auto& b : V{ "i1", "i2", "E1", "C1", "R64", "X", "L" })
					Prog<Cfg>::scenario(e, name, 0, s, "", { a + " " + b }, 0, ALL);
	}
	template<class Cfg>
	void pairs(Enum& e, const char* name, int mode, int bound)
	{
		for (auto& s : V{ "", "x", "1", "r32 1 x", "r32 1" })
			for (auto a : { "i1", "e1", "a1", "R64", "V1", "F1", "v1", "X", "D", "L", "l", "Y", "M", "A" })
				for (auto b : { "i1", "E1", "C1", "V1", "R64" })
					Prog<Cfg>::scenario(e, name, mode, s, "2", { a, b }, bound, ALL);
		for (auto& s : V{ "f15", "f16", "r32 f15 1", "p r32 f16" })
			for (auto a : { "i1", "v1", "R200", "D", "E100" })
				for (auto b : { "i1", "V100", "E100", "C1" })
					Prog<Cfg>::scenario(e, name, mode, s, "2", { a, b }, s[0] == 'p' || s == "f16" ? bound - 1 : bound, ALL);
	}
}

int main(int argc, char** argv)
{
	using M = MapCfg<seq::low_concurrency>;
	using MC = MapCfg<seq::low_concurrency, false>;
	using SS = SetCfg<seq::low_concurrency_shared>;
	using M2 = MapCfg<1, false>;
	using M0 = MapCfg<seq::no_concurrency, false>;
	add_enum("one thread", [](Enum& e) {
		solo<M>(e, "map");
		solo<MC>(e, "map copy");
		solo<SS>(e, "set shared");
		solo<M2>(e, "map copy 2 shards");
		solo<M0>(e, "map no concurrency");
	});
	add_enum("two threads", [](Enum& e) {
		int b = e.thorough() ? 2 : 1;
		pairs<M>(e, "map", 0, b);
		pairs<MC>(e, "map copy", 0, b);
		pairs<SS>(e, "set shared", 0, b);
		if (e.thorough())
			pairs<M2>(e, "map copy 2 shards", 3, b);
	});
	return main_(argc, argv);
}
