#define MC_MAIN
#include "../lib/devector_sys.hpp"
int main(int argc, char** argv)
{
	using namespace mc;
#if !defined(PART) || PART == 1
	add_seq<dv::Sys<Thr>>("devector<throwing copy>", 2, 3, true);
#endif
#if !defined(PART) || PART == 2
	add_seq<dv::Sys<ThrMove>>("devector<throwing move>", 2, 3, true);
#endif
#if !defined(PART) || PART == 3
	add_seq<dv::Sys<OwnThr>>("devector<relocatable throwing>", 2, 3, true);
#endif
	return main_(argc, argv);
}
