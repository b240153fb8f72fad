#define MC_MAIN
#include "../lib/ordered_sys.hpp"
int main(int argc, char** argv)
{
	using namespace mc;
#if !defined(PART) || PART == 1
	add_seq<od::Sys<Thr, false, od::SMALLF>>("ordered_set<throwing copy>", 1, 2, true);
#endif
#if !defined(PART) || PART == 2
	add_seq<od::Sys<od::Big<OwnThr>, true, od::SMALLF, Thr>>("ordered_map<owner, throwing copy> chunks of 4", 1, 2, true);
#endif
#if !defined(PART) || PART == 3
	add_seq<od::Sys<OwnThr, false, od::COLLIDEF>>("ordered_set<owner, throwing copy> colliding keys", 1, 1, true);
#endif
#if !defined(PART) || PART == 4
	add_seq<od::Sys<ThrMove, true, od::SMALLF, ThrMove>>("ordered_map<throwing move>", 1, 1, true);
#endif
	return main_(argc, argv);
}
