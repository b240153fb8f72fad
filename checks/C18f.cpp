#define MC_MAIN
#include "../lib/flat_sys.hpp"
#ifndef FULL
static constexpr int W = fl::FAULTS;
#else
static constexpr int W = fl::ALLFAULTS;
#endif
int main(int argc, char** argv)
{
	using namespace mc;
	using fl::Sys;
	using fl::KLess;
	using fl::KTrans;
#if !defined(PART) || PART == 1
	add_seq<Sys<Thr, int, false, false, false, KTrans, W>>("flat_set<throwing copy>", 1, 1, true);
#endif
#if !defined(PART) || PART == 2
	add_seq<Sys<OwnThr, Thr, true, false, true, KLess, W>>("flat_map<owner, throwing copy> stable", 1, 1, true);
#endif
#if !defined(PART) || PART == 3
	add_seq<Sys<int, OwnThr, true, true, false, KTrans, W>>("flat_multimap<int, owner>", 1, 1, true);
#endif
#if !defined(PART) || PART == 4
	add_seq<Sys<OwnThr, int, false, true, true, KTrans, W>>("flat_multiset<owner> stable", 1, 1, true);
#endif
	return main_(argc, argv);
}
