#define MC_MAIN
#if !defined(PART) || PART >= 5
#include "../lib/any_values.hpp"
#else
#include "../lib/any_sys.hpp"
#endif
int main(int argc, char** argv)
{
	using namespace mc;
	using Any32 = seq::hold_any<seq::any_default_interface, 32, 16>;
	(void)sizeof(Any32);
#if !defined(PART) || PART == 1
	add_seq<an::Sys<seq::any>>("any", 2, 2, true, 0, 2);
	add_seq<an::Sys<seq::any>>("any without failures", 2, 2, false, 0, 2);
#endif
#if !defined(PART) || PART == 2
	add_seq<an::Sys<seq::r_any>>("r_any", 2, 2, true, 0, 2);
	add_seq<an::Sys<seq::r_any>>("r_any without failures", 2, 2, false, 0, 2);
#endif
#if !defined(PART) || PART == 3
	add_seq<an::Sys<Any32>>("any of 32 bytes", 2, 2, true, 0, 2);
	add_seq<an::Sys<Any32>>("any of 32 bytes without failures", 2, 2, false, 0, 2);
#endif
#if !defined(PART) || PART == 4
	add_seq<an::Sys<seq::nh_any>>("nh_any", 1, 2, false, 2, 2);
	add_seq<an::Sys<seq::r_nh_any>>("r_nh_any", 1, 2, false, 2, 2);
#endif
#if !defined(PART) || PART == 5
	add_enum("comparisons of any", an::compare_anys<seq::any>);
	add_enum("comparisons of any with values", an::compare_plain<seq::any>);
#endif
#if !defined(PART) || PART == 6
	add_enum("casts of any", an::casts<seq::any>);
#endif
#if !defined(PART) || PART == 7
	add_enum("other functions of any", an::cast_others<seq::any>);
	add_enum("other functions of r_any", an::cast_others<seq::r_any>);
	add_enum("other functions of any of 32 bytes", an::cast_others<Any32>);
	add_enum("unassignable objects in nh_any", an::unassignable<seq::nh_any>);
	add_enum("unassignable objects in r_nh_any", an::unassignable<seq::r_nh_any>);
	add_enum("unassignable objects in nh_any of 32 bytes", an::unassignable<seq::hold_any<seq::any_no_hash_interface, 32, 16>>);
#endif
#if !defined(PART) || PART == 8
	add_enum("comparisons of r_any", an::compare_anys<seq::r_any>);
	add_enum("comparisons of any of 32 bytes", an::compare_anys<Any32>);
	add_enum("comparisons of r_any with values", an::compare_plain<seq::r_any>);
#endif
#if !defined(PART) || PART == 9
	add_enum("casts of r_any", an::casts<seq::r_any>);
#endif
	return main_(argc, argv);
}
