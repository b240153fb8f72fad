// Whole-table operations of the concurrent tables running against point operations: no element is lost, duplicated,
// resurrected, skipped or visited twice.
#define MC_NO_NEW
#define MC_MAIN
#include "cmap_sys.hpp"
using namespace cm;

namespace
{
	typedef std::vector<std::string> V;
	template<class Cfg>
	void single(Enum& e, const char* name, int mode, const V& seeds, int bound)
	{
		const V whole = { "X", "R1", "R64", "R200", "Q40", "P", "D", "L", "l", "Y" };
		const V point = { "i3", "i4", "a1", "v2", "E1", "E2", "F2", "V1", "C2", "E100", "V115", "i1 E2", "E1 i1", "E100 i100", "E2 i4" };
		for (auto& s : seeds) {
			for (auto& a : whole)
				for (auto& b : point)
					Prog<Cfg>::scenario(e, name, mode, s, "", { a, b }, b.size() > 4 && bound > 2 ? bound - 1 : bound);
			for (size_t i = 0; i < whole.size(); ++i)
				for (size_t j = 0; j <= i; ++j)
					Prog<Cfg>::scenario(e, name, mode, s, "", { whole[i], whole[j] }, bound);
		}
	}
	template<class Cfg>
	void two_tables(Enum& e, const char* name, int mode, int bound)
	{
		const V ops = { "M", "~M", "A", "~A", "Y", "S", "G" };
		const V others = { "i1", "i2", "i3", "~i1", "~i4", "E1", "E2", "~E2", "~E3", "V1", "~V2", "C2", "~C3", "a2", "~a1", "F2", "D", "~D", "L", "~L", "l", "~l", "X", "~X", "R64", "~R64" };
		const std::pair<const char*, const char*> seeds[] = { { "1 2", "2 3" }, { "r32 1 2", "r32 2 3" }, { "f15 1", "f14 2 3" }, { "", "1 2 3" }, { "r32 1 2", "f16 2" } };
		for (auto& s : seeds)
			for (size_t i = 0; i < ops.size(); ++i) {
				for (auto& o : others)
					Prog<Cfg>::scenario(e, name, mode, s.first, s.second, { ops[i], o }, strchr(s.second, 'f') && strchr(ops[i].c_str(), 'A') ? bound - 1 : bound);
				for (size_t j = 0; j <= i; ++j)
					Prog<Cfg>::scenario(e, name, mode, s.first, s.second, { ops[i], ops[j] }, strchr(s.first, 'f') || strchr(s.second, 'f') ? bound - 1 : bound);
			}
	}
	template<class Cfg>
	void three(Enum& e, const char* name, int mode, const V& seeds, const char* seedB, const V& w, const V& t, int bound)
	{
		for (auto& s : seeds)
			for (auto& a : w)
				for (size_t j = 0; j < t.size(); ++j)
					for (size_t k = 0; k <= j; ++k)
						Prog<Cfg>::scenario(e, name, mode, s, seedB, { a, t[j], t[k] }, bound);
	}
}

int main(int argc, char** argv)
{
	using M = MapCfg<seq::low_concurrency>;
	using MS = MapCfg<seq::low_concurrency_shared>;
	using S2 = SetCfg<1>;
	using M2S = MapCfg<1 | seq::shared_concurrency, false>;
	add_enum("single", [](Enum& e) {
		int b = e.thorough() ? 3 : 2;
		const V seeds = { "1 2", "r32 1 2", "f15 1 2", "r32 f16 1 2", "f16" };
		single<M>(e, "map", 0, seeds, b);
		single<MS>(e, "map shared", 0, seeds, b);
		single<M>(e, "map", 2, { "r32 1 2", "f40 1 2" }, b);
		single<S2>(e, "set 2 shards", 3, { "1 2", "r64 1 2", "r64 f32 1 2" }, b);
		single<M2S>(e, "map copy 2 shards shared", 2, { "1 2", "r64 f16 1 2" }, b);
	});
	add_enum("two", [](Enum& e) {
		int b = e.thorough() ? 3 : 2;
		two_tables<M>(e, "map", 0, b);
		two_tables<MS>(e, "map shared", 2, b);
		two_tables<S2>(e, "set 2 shards", 3, b);
	});
	add_enum("three", [](Enum& e) {
		int b = e.thorough() ? 2 : 1;
		const V t = { "i3", "E1", "V2", "C2", "E100", "R64" };
		three<M>(e, "map", 0, { "r32 1 2", "f15 1" }, "2 3", { "X", "R64", "D", "L", "l", "Y" }, t, b);
		three<MS>(e, "map shared", 0, { "r32 1 2", "f16 1 2" }, "2 3", { "X", "R200", "D", "L", "l", "M", "~M" }, t, b);
	});
	return main_(argc, argv);
}
