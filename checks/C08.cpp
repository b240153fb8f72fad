#define MC_MAIN
#include "../lib/devector_sys.hpp"
int main(int argc, char** argv)
{
	using namespace mc;
#if !defined(PART) || PART == 1
	add_seq<dv::Sys<int>>("devector<int>", 3, 4);
#endif
#if !defined(PART) || PART == 2
	add_seq<dv::Sys<Trk>>("devector<tracked>", 3, 4);
#endif
#if !defined(PART) || PART == 3
	add_seq<dv::Sys<Own>>("devector<relocatable owner>", 3, 4);
#endif
#if !defined(PART) || PART == 4
	add_seq<dv::Sys<MoveOnly>>("devector<move only>", 3, 4);
#endif
	return main_(argc, argv);
}
