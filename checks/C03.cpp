// Completion of every operation of the concurrent tables, and no lock left held.
#define MC_NO_NEW
#define MC_MAIN
#include "cmap_sys.hpp"
using namespace cm;

namespace
{
	typedef std::vector<std::string> V;
	template<class Cfg>
	void combos(Enum& e, const char* name, int mode, const V& seeds, const char* seedB, const V& A, const V& B, int bound)
	{
		for (auto& s : seeds)
			for (auto& a : A)
				for (auto& b : B)
					Prog<Cfg>::scenario(e, name, mode, s, seedB, { a, b }, bound);
	}
	// operations on the whole table against everything, from tables in every stage of their life
	template<class Cfg>
	void whole(Enum& e, const char* name, int mode, int bound)
	{
		combos<Cfg>(e,
			    name,
			    mode,
			    { "", "x", "1", "r32", "r32 1", "r32 1 x", "1 e1", "r32 1 e1" },
			    "",
			    { "X", "R1", "R32", "R64", "Q40", "P" },
			    { "i1", "i1 i2", "a1", "v1", "E1", "F1", "V1", "C1", "K1", "X", "R1", "R32", "R64", "Q40", "P", "L", "l", "D", "Y", "Z" },
			    bound);
	}
	// operations on two tables, in both directions, from two threads
	template<class Cfg>
	void binary(Enum& e, const char* name, int mode, int bound)
	{
		const V ops = { "S", "~S", "M", "~M", "A", "~A", "G", "~G", "Y", "~Y" };
		const V others = { "i1", "~i1", "E1", "~E1", "V1", "C1", "X", "~X", "R64", "~R64", "L", "l", "D", "~D", "Z" };
		const std::pair<const char*, const char*> seeds[] = { { "", "" }, { "1", "1 2" }, { "r32 1", "r32 2" }, { "r32 1 x", "2" }, { "f15 1", "r32 2 3" } };
		for (auto& s : seeds) {
			for (size_t i = 0; i < ops.size(); ++i) {
				for (size_t j = 0; j <= i; ++j)
					Prog<Cfg>::scenario(e, name, mode, s.first, s.second, { ops[i], ops[j] }, s.first[0] == 'f' ? bound - 1 : bound);
				for (auto& o : others)
					Prog<Cfg>::scenario(e, name, mode, s.first, s.second, { ops[i], o }, bound);
			}
		}
	}
	template<class Cfg>
	void three(Enum& e, const char* name, int mode, const V& seeds, const char* seedB, const V& t, int bound)
	{
		for (auto& s : seeds)
			for (size_t i = 0; i < t.size(); ++i)
				for (size_t j = 0; j <= i; ++j)
					for (size_t k = 0; k <= j; ++k)
						Prog<Cfg>::scenario(e, name, mode, s, seedB, { t[i], t[j], t[k] }, bound);
	}
}

int main(int argc, char** argv)
{
	using M = MapCfg<seq::low_concurrency>;
	using MS = MapCfg<seq::low_concurrency_shared>;
	using S2 = SetCfg<1>;
	using M2S = MapCfg<1 | seq::shared_concurrency, false>;
	add_enum("whole", [](Enum& e) {
		int b = e.thorough() ? 4 : 3;
		whole<M>(e, "map", 0, b);
		whole<MS>(e, "map shared", 0, b);
		whole<S2>(e, "set 2 shards", 3, 2);
		whole<M2S>(e, "map copy 2 shards shared", 3, 2);
	});
	add_enum("binary", [](Enum& e) {
		int b = e.thorough() ? 3 : 2;
		binary<M>(e, "map", 0, b);
		binary<MS>(e, "map shared", 2, b);
		binary<S2>(e, "set 2 shards", 3, b);
	});
	add_enum("three", [](Enum& e) {
		int b = e.thorough() ? 2 : 1;
		three<M>(e, "map", 0, { "", "r32 1", "1 x" }, "2", { "X", "R32", "R64", "i1", "E1", "L", "V1" }, 2);
		three<MS>(e, "map shared", 0, { "", "r32 1 e1" }, "2", { "X", "R32", "i1", "C1", "l", "V1", "D" }, 2);
		three<M>(e, "map", 0, { "1" }, "2", { "S", "~S", "M", "~M", "A", "~A", "i3", "R64" }, b);
		three<MS>(e, "map shared", 0, { "r32 1" }, "r32 2", { "S", "M", "~M", "~A", "G", "~G", "E1" }, b);
	});
	add_enum("self", [](Enum& e) {
		(void)e;
		// a table combined with itself, by one thread while another one works
		auto self = [&](auto* cfg, const char* name) {
			using P = Prog<std::remove_pointer_t<decltype(cfg)>>;
			for (auto& s : { "", "1", "r32 1", "f15 1" })
				for (auto& a : { "s", "m", "g", "q" })
					for (auto& b : { "i1", "E1", "X", "S", "M", "~M", "G" })
						P::scenario(e, name, 0, s, "2", { a, b }, 2);
		};
		self(static_cast<M*>(nullptr), "map");
		self(static_cast<MS*>(nullptr), "map shared");
	});
	return main_(argc, argv);
}
