// Point operations of the concurrent tables under every interleaving up to the preemption bound: linearizability.
#define MC_NO_NEW
#define MC_MAIN
#include "cmap_sys.hpp"
using namespace cm;

namespace
{
	typedef std::vector<std::string> V;
	V on(const char* letters, int key)
	{
		V v;
		for (const char* c = letters; *c; ++c)
			v.push_back(std::string(1, *c) + std::to_string(key));
		return v;
	}
	V operator+(V a, const V& b)
	{
		a.insert(a.end(), b.begin(), b.end());
		return a;
	}

	// every pair of operations on the same key, from tables in every stage of their life
	template<class Cfg>
	void same_key(Enum& e, const char* name, int mode, const V& seeds, const char* alpha, int bound)
	{
		V a = on(alpha, 1);
		for (auto& s : seeds)
			for (size_t i = 0; i < a.size(); ++i)
				for (size_t j = 0; j <= i; ++j)
					Prog<Cfg>::scenario(e, name, mode, s, "", { a[i], a[j] }, bound);
	}
	// operations that relocate elements (erase moves the last element of the bucket or of the chain into the hole)
	template<class Cfg>
	void relocation(Enum& e, const char* name, int mode, int bound)
	{
		for (auto& s : V{ "f15 1", "r32 f16 1 2", "r32 f29 1 2", "r32 f15 1" })
			for (auto& a : V{ "E100", "E107", "F114", "E115", "E1" })
				for (auto& b : on("CViaEKW", 1) + on("CiE", 100) + on("CVE", 114) + on("CE", 115) + on("Ci", 2) + V{ "i3" })
					Prog<Cfg>::scenario(e, name, mode, s, "", { a, b }, bound);
	}
	// operations during the growth of the table
	template<class Cfg>
	void growth(Enum& e, const char* name, int mode, int bound)
	{
		for (auto& s : V{ "f16", "p r32 f16", "1 2 p" })
			for (auto& a : V{ "i1", "v3", "e4" })
				for (auto& b : on("CViEaKF", 100) + on("CViEaKWe", 1) + on("iE", 2) + on("CE", 115))
					Prog<Cfg>::scenario(e, name, mode, s, "", { a, b }, bound);
		for (auto& s : V{ "f3 1", "r32 f16 1", "f16 1" })
			for (auto& a : V{ "R64", "R200", "Q100", "P", "R1", "X" })
				for (auto& b : on("ietTavwWcuUEFfVCNK", 1) + on("iea", 2))
					Prog<Cfg>::scenario(e, name, mode, s, "", { a, b }, bound);
	}
	// longer programs
	template<class Cfg>
	void longer(Enum& e, const char* name, int mode, const V& seeds, const V& toks, const V& other, int bound)
	{
		for (auto& s : seeds)
			for (auto& a : toks)
				for (auto& b : toks)
					for (auto& c : other)
						Prog<Cfg>::scenario(e, name, mode, s, "", { a + " " + b, c }, bound);
	}
	template<class Cfg>
	void two_by_two(Enum& e, const char* name, int mode, const V& seeds, const V& toks, int bound)
	{
		for (auto& s : seeds)
			for (size_t i = 0; i < toks.size() * toks.size(); ++i)
				for (size_t j = 0; j <= i; ++j)
					Prog<Cfg>::scenario(e,
							    name,
							    mode,
							    s,
							    "",
							    { toks[i / toks.size()] + " " + toks[i % toks.size()], toks[j / toks.size()] + " " + toks[j % toks.size()] },
							    bound);
	}
	template<class Cfg>
	void three(Enum& e, const char* name, int mode, const V& seeds, const V& toks, int bound)
	{
		for (auto& s : seeds)
			for (size_t i = 0; i < toks.size(); ++i)
				for (size_t j = 0; j <= i; ++j)
					for (size_t k = 0; k <= j; ++k)
						Prog<Cfg>::scenario(e, name, mode, s, "", { toks[i], toks[j], toks[k] }, bound);
	}
}

int main(int argc, char** argv)
{
	using M = MapCfg<seq::low_concurrency>;
	using MS = MapCfg<seq::low_concurrency_shared>;
	using S = SetCfg<seq::low_concurrency>;
	using S2 = SetCfg<1 | seq::shared_concurrency>;
	using M2 = MapCfg<1, false>;
	static const V seeds = { "", "x", "1", "r32", "r32 1", "r32 1 x" };
	static const V full = { "f15", "f15 1", "r32 f15", "r32 f16 1" };
	static const V few = { "", "r32 1" };
	add_enum("same", [](Enum& e) {
		int b = e.thorough() ? 4 : 3;
		same_key<M>(e, "map", 0, seeds, "ietTavwWcuUEFfVCNK", b);
		same_key<MS>(e, "map shared", 0, seeds, "iavceEFVCK", b);
		same_key<M>(e, "map", 0, full, "ietTavwWcuUEFfVCNK", b - 1);
		same_key<MS>(e, "map shared", 0, full, "iavceEFVCK", b - 1);
		same_key<S>(e, "set", 1, full, "ivcEFVC", b - 1);
		same_key<S>(e, "set", 1, seeds, "ivcEFVC", b);
		same_key<S2>(e, "set 2 shards shared", 3, few, "ivcEFVCKwu", b);
		same_key<M2>(e, "map copy 2 shards", 2, few, "ietavEFVCK", b);
	});
	add_enum("relocation", [](Enum& e) {
		int b = e.thorough() ? 3 : 2;
		relocation<M>(e, "map", 0, b);
		relocation<MS>(e, "map shared", 1, b);
		relocation<M2>(e, "map copy 2 shards", 0, b);
	});
	add_enum("growth", [](Enum& e) {
		int b = e.thorough() ? 3 : 2;
		growth<M>(e, "map", 0, b);
		growth<MS>(e, "map shared", 0, b);
		growth<S>(e, "set", 2, b);
		growth<S2>(e, "set 2 shards shared", 3, b);
	});
	add_enum("programs", [](Enum& e) {
		int b = e.thorough() ? 3 : 2;
		longer<M>(e, "map", 0, { "", "r32 1", "f15" }, { "i1", "E1", "a1", "C1", "i2" }, { "i1", "E1", "v1", "C1", "F1" }, b);
		two_by_two<M>(e, "map", 0, { "r32" }, { "i1", "E1", "C1" }, b);
		two_by_two<MS>(e, "map shared", 0, { "1" }, { "a1", "E1", "V1" }, b);
		three<M>(e, "map", 0, { "", "r32 1", "x" }, { "i1", "E1", "C1", "V1", "a1" }, b);
		three<MS>(e, "map shared", 0, { "f15", "f16" }, { "i1", "E1", "C1", "V100", "i2" }, e.thorough() ? 2 : 1);
		three<S2>(e, "set 2 shards shared", 3, { "", "r32 1 2" }, { "i1", "E1", "C1", "i2", "E2" }, b);
		if (e.thorough()) {
			two_by_two<M>(e, "map", 0, { "", "f15", "r32 1" }, { "i1", "E1", "C1", "a1", "i2", "V2" }, 2);
			three<M>(e, "map", 0, { "r32 f16 1" }, { "i1", "E1", "C1", "V100", "E100", "R64", "X" }, 2);
		}
	});
	return main_(argc, argv);
}
