#define MC_MAIN
#if defined(PART) && PART == 1
#define TS_OPS 1
#elif defined(PART) && PART == 2
#define TS_OPS 2
#elif defined(PART) && PART == 3
#define TS_OPS 4
#elif defined(PART) && PART == 4
#define TS_OPS 8
#elif defined(PART) && PART == 5
#define TS_OPS 16
#else
#define TS_OPS 31
#endif
#include "../lib/tstring_sys.hpp"
int main(int argc, char** argv)
{
	using namespace mc;
	add_seq<ts::Sys<char, 0>>("tiny_string<char,0>", 2, 2, true, 0, 1);
#ifndef ONE
	add_seq<ts::Sys<char, 40>>("tiny_string<char,40>", 1, 2, true, 0, 1);
	add_seq<ts::Sys<wchar_t, 0>>("tiny_string<wchar_t,0>", 1, 2, true, 0, 1);
	add_seq<ts::Sys<char16_t, 20>>("tiny_string<char16_t,20>", 1, 2, true, 0, 1);
#endif
	return main_(argc, argv);
}
