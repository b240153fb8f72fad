// Exclusive access of the functors to the elements they visit, and happens-before between visits.
#define MC_NO_NEW
#define MC_MAIN
#include "cmap_sys.hpp"
using namespace cm;

namespace
{
	// every pair (and, in the small states, triple) of visiting operations
	template<class Cfg>
	void all(Enum& e, const char* name, int mode, bool full)
	{
		const std::vector<std::string> seeds = { "1 2", "r32 1 2", "f15 1 2", "r32 f15 1 2" };
		const std::vector<std::string> visits = { "V1", "v1", "F1", "L", "w1", "W1", "a1", "D", "f1" };
		const std::vector<std::string> others = { "V1", "v1", "F1", "L", "C1", "c1", "l", "D", "E1", "E2", "K1", "i3", "R64", "X", "a1", "Y", "M", "u1", "U1" };
		int b = e.thorough() ? 4 : 3;
		for (size_t q = 0; q < seeds.size(); ++q)
			for (size_t i = 0; i < visits.size(); ++i)
				for (size_t j = 0; j < others.size(); ++j) {
					if (j < i && visits[i] == others[j])
						continue;
					if (!full && q >= 2 && j % 2 != i % 2)
						continue;
					Prog<Cfg>::scenario(e, name, mode, seeds[q], "", { visits[i], others[j] }, b);
				}
		// three threads
		for (size_t q = 0; q < 2; ++q)
			for (auto& x : { "V1", "L", "v1", "F1" })
				for (auto& y : { "V1", "C1", "l", "E1", "K1" })
					for (auto& z : { "C1", "l", "E2", "R64", "v1" })
						if (e.thorough() || (full && q == 1))
							Prog<Cfg>::scenario(e, name, mode, seeds[q], "", { x, y, z }, e.thorough() ? 2 : 1);
		// growing by one of the threads
		for (auto& x : visits)
			Prog<Cfg>::scenario(e, name, mode, "f16", "", { x == "L" || x == "D" ? x : std::string(1, x[0]) + "100", "i1" }, b);
		for (auto& x : visits)
			Prog<Cfg>::scenario(e, name, mode, "p r32 f16", "", { x == "L" || x == "D" ? x : std::string(1, x[0]) + "100", "i1" }, b);
	}
}

int main(int argc, char** argv)
{
	add_enum("visit", [](Enum& e) {
		all<MapCfg<seq::low_concurrency_shared>>(e, "map shared", 0, true);
		all<MapCfg<seq::low_concurrency>>(e, "map", 0, true);
		all<SetCfg<seq::low_concurrency_shared>>(e, "set shared", 2, false);
		all<SetCfg<1>>(e, "set 2 shards", 3, false);
		all<MapCfg<1 | seq::shared_concurrency, false>>(e, "map copy 2 shards shared", 3, false);
	});
	return main_(argc, argv);
}
