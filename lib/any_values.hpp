// C25, second half: what an any of every type answers to casts, comparisons, hashing, streams and formatting.
// All pairs of a list of values of all the types an any treats specially (arithmetic types, strings), pointers, user
// types and the empty any are compared with a model that only knows numbers and texts.
#pragma once
#include "any_sys.hpp"
#include <cmath>
#include <iomanip>
#include <limits>
#include <sstream>
#include <string_view>
namespace an
{
	enum Group
	{
		G_EMPTY,
		G_NUM,
		G_STR,
		G_ORD,
		G_PTR
	};
	struct Ord
	{
		int v;
		bool operator==(const Ord& o) const { return v == o.v; }
		bool operator<(const Ord& o) const { return v < o.v; }
	};
	struct ConvA
	{
		int v;
		explicit operator std::string() const { return "A" + std::to_string(v); }
		friend bool operator<(const ConvA& a, int b) { return a.v < b; }
		friend bool operator==(const ConvA& a, int b) { return a.v == b; }
	};
	struct ConvB
	{
		int v = 0;
	};
	struct NoOps
	{
		int v;
	};
	struct Meaning
	{
		Group g = G_EMPTY;
		long double num = 0; // exact for all 64 bits integers
		std::string text;
		int id = 0;	  // order of the types of unrelated values
		bool isint = false;
	};
	inline bool m_equal(const Meaning& a, const Meaning& b)
	{
		if (a.g != b.g)
			return false;
		if (a.g == G_EMPTY)
			return true;
		if (a.g == G_STR)
			return a.text == b.text;
		return a.num == b.num;
	}
	inline bool m_less(const Meaning& a, const Meaning& b)
	{
		if (a.g != b.g) {
			if (a.g == G_EMPTY || b.g == G_EMPTY)
				return a.g == G_EMPTY;
			return a.id < b.id;
		}
		if (a.g == G_EMPTY)
			return false;
		if (a.g == G_STR)
			return a.text < b.text;
		return a.num < b.num;
	}
	inline const char* cstr() { return "m"; }
	inline char* mcstr()
	{
		static char b[] = "mn";
		return b;
	}
	inline int* ptr()
	{
		static int i[2];
		return i;
	}
	template<class T>
	const char* tname()
	{
#define N(X) if (std::is_same_v<T, X>) return #X;
		N(bool) N(char) N(signed char) N(unsigned char) N(wchar_t) N(char16_t) N(char32_t) N(short) N(unsigned short) N(int) N(unsigned) N(long) N(unsigned long) N(long long)
		N(unsigned long long) N(float) N(double) N(long double) N(std::string) N(seq::tstring) N(seq::tstring_view) N(std::string_view) N(const char*) N(char*) N(int*) N(Ord)
#undef N
		return "?";
	}
	inline std::string quoted(std::string_view s) { return "\"" + std::string(s) + "\""; }

	// f(value, meaning, name) for all the values of the arithmetic types
	template<class T, class F>
	void values_of(F f)
	{
		Meaning m;
		m.id = seq::get_type_id<T>();
		auto put = [&](auto v) {
			std::ostringstream o;
			o << tname<T>() << " " << std::setprecision(20) << m.num << m.text;
			f(T(v), m, o.str());
		};
		if constexpr (std::is_arithmetic_v<T>) {
			m.g = G_NUM;
			m.isint = std::is_integral_v<T>;
			std::vector<T> l{ T(0), T(1) };
			auto more = [&](T v) {
				for (T x : l)
					if (x == v)
						return;
				l.push_back(v);
			};
			if (std::is_signed_v<T>) {
				more(T(-1));
				more(T(-100));
			}
			if (!std::is_same_v<T, bool>) {
				more(T(65));
				more(T(100));
			}
			if constexpr (std::is_integral_v<T>) {
				more(std::numeric_limits<T>::max());
				more(std::numeric_limits<T>::min());
				if (sizeof(T) >= 8)
					more(T(std::numeric_limits<T>::max() - 1));
			}
			else {
				more(T(0.5));
				more(T(-2.25));
				more(T(9223372036854775808.));
				more(T(-9223372036854775808.));
				more(T(18446744073709551616.));
				more(T(-18446744073709551616.));
				more(T(1e30));
				more(std::numeric_limits<T>::infinity());
				more(-std::numeric_limits<T>::infinity());
				more(std::numeric_limits<T>::max());
				more(std::numeric_limits<T>::lowest());
				more(T(std::numeric_limits<T>::min()));
				if (sizeof(T) > 8)
					more(T(18446744073709551615.L));
			}
			for (T v : l) {
				m.num = static_cast<long double>(v);
				put(v);
			}
			if constexpr (std::is_floating_point_v<T>) {
				m.num = 0;
				put(-T(0));
			}
		}
		else if constexpr (std::is_same_v<T, const char*>) {
			m.g = G_STR;
			m.text = cstr();
			put(cstr());
		}
		else if constexpr (std::is_same_v<T, char*>) {
			m.g = G_STR;
			m.text = mcstr();
			put(mcstr());
		}
		else if constexpr (std::is_same_v<T, int*>) {
			m.g = G_PTR;
			for (int i = 0; i < 2; ++i) {
				m.num = i;
				put(ptr() + i);
			}
		}
		else if constexpr (std::is_same_v<T, Ord>) {
			m.g = G_ORD;
			for (int i = 0; i < 3; ++i) {
				m.num = i;
				f(Ord{ i }, m, "Ord " + std::to_string(i));
			}
		}
		else {
			m.g = G_STR;
			static const char* const l[] = { "", "1", "m", "mn", "m\x80", "a rather long string, not in place", "a rather long string, not in place!" };
			for (const char* x : l) {
				m.text = x;
				put(x);
			}
			static const std::string z("m\0z", 3);
			m.text = z;
			put(T(z.data(), z.size()));
		}
	}
	template<class F>
	void numeric_values(F f)
	{
		values_of<bool>(f);
		values_of<char>(f);
		values_of<signed char>(f);
		values_of<unsigned char>(f);
		values_of<wchar_t>(f);
		values_of<char16_t>(f);
		values_of<char32_t>(f);
		values_of<short>(f);
		values_of<unsigned short>(f);
		values_of<int>(f);
		values_of<unsigned>(f);
		values_of<long>(f);
		values_of<unsigned long>(f);
		values_of<long long>(f);
		values_of<unsigned long long>(f);
		values_of<float>(f);
		values_of<double>(f);
		values_of<long double>(f);
	}
	template<class F>
	void string_values(F f)
	{
		values_of<std::string>(f);
		values_of<seq::tstring>(f);
		values_of<seq::tstring_view>(f);
		values_of<std::string_view>(f);
		values_of<const char*>(f);
		values_of<char*>(f);
	}
	template<class F>
	void all_values(F f)
	{
		numeric_values(f);
		string_values(f);
		values_of<int*>(f);
		values_of<Ord>(f);
	}
	template<class Any>
	struct Named
	{
		Any a;
		Meaning m;
		std::string name;
	};
	template<class Any>
	std::vector<Named<Any>> every()
	{
		std::vector<Named<Any>> r;
		r.push_back(Named<Any>{ Any(), Meaning(), "empty" });
		all_values([&](const auto& v, const Meaning& m, const std::string& n) { r.push_back(Named<Any>{ Any(v), m, n }); });
		return r;
	}
	template<class F>
	bool bad_cast_from(F f)
	{
		try {
			f();
		}
		catch (const std::bad_cast&) {
			return true;
		}
		return false;
	}
	template<class F>
	bool bad_call_from(F f)
	{
		try {
			f();
		}
		catch (const std::bad_function_call&) {
			return true;
		}
		return false;
	}
#define AN_CMP(A, B, EQ, LT, GT, ...)                                                                                                                                                                     \
	do {                                                                                                                                                                                                   \
		CHECK((A == B) == (EQ), "== of " __VA_ARGS__);                                                                                                                                                 \
		CHECK((A != B) == !(EQ), "!= of " __VA_ARGS__);                                                                                                                                                \
		CHECK((A < B) == (LT), "< of " __VA_ARGS__);                                                                                                                                                   \
		CHECK((A > B) == (GT), "> of " __VA_ARGS__);                                                                                                                                                   \
		CHECK((A <= B) == !(GT), "<= of " __VA_ARGS__);                                                                                                                                                \
		CHECK((A >= B) == !(LT), ">= of " __VA_ARGS__);                                                                                                                                                \
	} while (0)

	template<class Any>
	void compare_anys(mc::Enum& e)
	{
		auto l = every<Any>();
		for (size_t i = 0; i < l.size(); ++i)
			if (e.begin("compare %s", l[i].name.c_str())) {
				for (auto& o : l) {
					const Any &a = l[i].a, &b = o.a;
					AN_CMP(a, b, m_equal(l[i].m, o.m), m_less(l[i].m, o.m), m_less(o.m, l[i].m), "%s and %s", l[i].name.c_str(), o.name.c_str());
					if (m_equal(l[i].m, o.m)) {
						CHECK(a.hash() == b.hash(), "hashes of the equal %s and %s", l[i].name.c_str(), o.name.c_str());
						CHECK(seq::hasher<Any>{}(a) == std::hash<Any>{}(b), "hashes of the equal %s and %s", l[i].name.c_str(), o.name.c_str());
					}
				}
				e.evals(l.size());
			}
	}
	template<class Any>
	void compare_plain(mc::Enum& e)
	{
		auto l = every<Any>();
		all_values([&](const auto& v, const Meaning& m, const std::string& n) {
			if (!e.begin("compare with plain %s", n.c_str()))
				return;
			for (auto& o : l) {
				const Any& a = o.a;
				AN_CMP(a, v, m_equal(o.m, m), m_less(o.m, m), m_less(m, o.m), "%s and plain %s", o.name.c_str(), n.c_str());
				AN_CMP(v, a, m_equal(o.m, m), m_less(m, o.m), m_less(o.m, m), "plain %s and %s", n.c_str(), o.name.c_str());
				CHECK(a.equal_to(v) == m_equal(o.m, m) && a.less_than(v) == m_less(o.m, m) && a.greater_than(v) == m_less(m, o.m), "equal_to, less_than or greater_than of %s and %s",
				      o.name.c_str(), n.c_str());
				if (m_equal(o.m, m))
					CHECK(seq::hasher<Any>{}(v) == a.hash() && std::hash<Any>{}(v) == a.hash(), "hashes of plain %s and %s", n.c_str(), o.name.c_str());
			}
			e.evals(l.size() * 15);
		});
		if (e.begin("compare with a string literal"))
			for (auto& o : l)
				if (o.name.compare(0, 4, "char") || o.m.g != G_STR) {
					if (o.name.compare(0, 10, "const char") == 0)
						continue; // pointers
					Meaning m;
					m.g = G_STR;
					m.text = "mn";
					m.id = seq::get_type_id<const char*>();
					AN_CMP(o.a, "mn", m_equal(o.m, m), m_less(o.m, m), m_less(m, o.m), "%s and a literal", o.name.c_str());
					AN_CMP("mn", o.a, m_equal(o.m, m), m_less(m, o.m), m_less(o.m, m), "a literal and %s", o.name.c_str());
				}
		if (e.begin("pointer to a literal")) {
			static const char* const lit = "some text";
			char copy[] = "some text";
			Any a(lit);
			CHECK(a == lit && !(a != lit) && !(a < lit) && !(a > lit), "compare a pointer with itself");
			CHECK(!(a == static_cast<const char*>(copy)), "pointers are compared, not texts");
			const char(&arr)[10] = "some text";
			const char ab[3] = "ab";
			CHECK(!(a == ab) && a != ab, "compare a pointer with another array");
			CHECK((a < arr) == std::less<const char*>()(lit, arr) && (a > arr) == std::less<const char*>()(arr, lit), "order of a pointer and an array");
			CHECK(a.hash() == Any(std::string(lit)).hash() && seq::hasher<Any>{}(lit) == a.hash(), "hash of a text");
		}
	}

	template<class T, class U>
	bool fits(U v)
	{
		if constexpr (std::is_floating_point_v<T>)
			return sizeof(T) >= sizeof(U) || std::is_integral_v<U> || std::isinf(v) || std::abs(static_cast<long double>(v)) <= static_cast<long double>(std::numeric_limits<T>::max());
		else if constexpr (std::is_integral_v<U>)
			return true;
		else
			return static_cast<long double>(v) > static_cast<long double>(std::numeric_limits<T>::min()) - 1.0L && static_cast<long double>(v) < static_cast<long double>(std::numeric_limits<T>::max()) + 1.0L;
	}
	// cast to an arithmetic type
	template<class T, class Any>
	void cast_to_number(mc::Enum& e)
	{
		if (e.begin("numbers to %s", tname<T>())) {
			numeric_values([&](auto v, const Meaning&, const std::string& n) {
				using U = decltype(v);
				if (std::is_same_v<T, bool> || fits<T>(v)) {
					Any a(v);
					const Any& c = a;
					T r = a.template cast<T>(), r2 = c.template cast<T>(), r3 = seq::any_cast<T>(a), r4 = seq::any_cast<T>(c);
					const T want = static_cast<T>(v);
					CHECK(r == want && r2 == want && r3 == want && r4 == want, "%s to %s", n.c_str(), tname<T>());
					if constexpr (std::is_same_v<T, U>) {
						CHECK(&a.template cast<T&>() == a.data() && seq::any_cast<T>(&a) == a.data() && seq::any_cast<T>(&c) == c.data(), "reference to the object");
						CHECK(a.sizeof_type() == sizeof(T) && a.type_id() == seq::get_type_id<T>(), "size and id of the type");
					}
					else {
						CHECK(bad_cast_from([&] { (void)a.template cast<T&>(); }), "reference to another type (%s to %s)", n.c_str(), tname<T>());
						CHECK(!seq::any_cast<T>(&a) && !seq::any_cast<T>(&c), "pointer to another type (%s to %s)", n.c_str(), tname<T>());
					}
				}
				e.evals(4);
			});
		}
		if (e.begin("texts to %s", tname<T>())) {
			// texts that can be read as numbers by all the types
			static const struct
			{
				const char* t;
				long double v;
				bool ok;
			} l[] = { { "0", 0, true },   { "1", 1, true },	 { "12", 12, true },  { "100", 100, true }, { "-7", -7, std::is_signed_v<T> }, { "1.5", std::is_floating_point_v<T> ? 1.5L : 1.L, true },
				  { "", 0, false },   { "x", 0, false }, { "-", 0, false },   { "one two three four five six", 0, false } };
			for (auto& x : l) {
				if (x.v < 0 && !x.ok)
					continue;
				auto one = [&](auto s) {
					Any a(s);
					if (x.ok)
						CHECK(a.template cast<T>() == static_cast<T>(x.v) && static_cast<const Any&>(a).template cast<T>() == static_cast<T>(x.v), "\"%s\" to %s", x.t, tname<T>());
					else
						CHECK(bad_cast_from([&] { (void)a.template cast<T>(); }), "\"%s\" to %s", x.t, tname<T>());
				};
				std::string keep(x.t);
				one(std::string(x.t));
				one(seq::tstring(x.t));
				one(seq::tstring_view(x.t));
				one(std::string_view(x.t));
				one(x.t);
				one(keep.data());
				e.evals(6);
			}
		}
		if (e.begin("others to %s", tname<T>())) {
			Any a;
			CHECK(bad_cast_from([&] { (void)a.template cast<T>(); }) && bad_cast_from([&] { (void)static_cast<const Any&>(a).template cast<T>(); }), "empty to a number");
			CHECK(!seq::any_cast<T>(&a) && !seq::any_cast<T>(static_cast<Any*>(nullptr)), "pointer to the object of an empty any");
			a = Ord{ 3 };
			CHECK(bad_cast_from([&] { (void)a.template cast<T>(); }), "a user type to a number");
			a = ptr();
			CHECK(bad_cast_from([&] { (void)a.template cast<T>(); }), "a pointer to a number");
			e.evals(4);
		}
	}
	template<class S>
	std::string text_of(const S& s)
	{
		return std::string(s.data(), s.size());
	}
	inline std::string text_of(const char* s) { return s; }
	inline std::string text_of(char* s) { return s; }
	template<class T, class Any>
	void cast_to_text(mc::Enum& e)
	{
		constexpr bool owner = std::is_same_v<T, std::string> || std::is_same_v<T, seq::tstring>;
		if (e.begin("texts to %s", tname<T>()))
			string_values([&](const auto& v, const Meaning& m, const std::string& n) {
				using U = std::decay_t<decltype(v)>;
				if (std::is_pointer_v<T> && m.text.find('\0') != std::string::npos)
					return;
				Any a(v);
				const Any& c = a;
				CHECK(text_of(a.template cast<T>()) == m.text && text_of(c.template cast<T>()) == m.text && text_of(seq::any_cast<T>(c)) == m.text, "%s to %s", n.c_str(), tname<T>());
				if (!owner && !std::is_same_v<T, U>) {
					const void* from = nullptr;
					if constexpr (std::is_pointer_v<U>)
						from = v;
					else
						from = a.template cast<U&>().data();
					const T r = a.template cast<T>();
					const void* to = nullptr;
					if constexpr (std::is_pointer_v<T>)
						to = r;
					else
						to = r.data();
					CHECK(from == to, "a view of something else (%s to %s)", n.c_str(), tname<T>());
				}
				if constexpr (std::is_same_v<T, U>)
					CHECK(&a.template cast<T&>() == a.data() && seq::any_cast<T>(&a) == a.data(), "reference to the object");
				else {
					CHECK(bad_cast_from([&] { (void)a.template cast<T&>(); }), "reference to another type (%s to %s)", n.c_str(), tname<T>());
					CHECK(!seq::any_cast<T>(&a), "pointer to another type (%s to %s)", n.c_str(), tname<T>());
				}
				e.evals(4);
			});
		if (e.begin("numbers to %s", tname<T>()))
			numeric_values([&](auto v, const Meaning& m, const std::string& n) {
				if (!m.isint && !(std::abs(m.num) < 1000 && std::abs(m.num) > 0.01L) && (m.num != 0 || std::signbit(static_cast<long double>(v))))
					return;
				Any a(v);
				if (!owner) {
					CHECK(bad_cast_from([&] { (void)a.template cast<T>(); }), "a view of the text of %s", n.c_str());
					return;
				}
				std::ostringstream o;
				o << std::setprecision(20) << m.num;
				CHECK(text_of(a.template cast<T>()) == o.str() && text_of(static_cast<const Any&>(a).template cast<T>()) == o.str(), "%s to %s gave %s", n.c_str(), tname<T>(),
				      text_of(a.template cast<T>()).c_str());
				e.evals(2);
			});
		if (e.begin("others to %s", tname<T>())) {
			Any a;
			CHECK(bad_cast_from([&] { (void)a.template cast<T>(); }) && bad_cast_from([&] { (void)static_cast<const Any&>(a).template cast<T>(); }), "empty to a text");
			a = Ord{ 3 };
			CHECK(bad_cast_from([&] { (void)a.template cast<T>(); }), "a user type to a text");
			e.evals(2);
		}
	}
	template<class Any>
	void cast_others(mc::Enum& e)
	{
		if (e.begin("to void*"))
			all_values([&](const auto& v, const Meaning&, const std::string& n) {
				using U = std::decay_t<decltype(v)>;
				Any a(v);
				if constexpr (std::is_pointer_v<U>) {
					CHECK(a.template cast<void*>() == static_cast<const void*>(v) && a.template cast<const void*>() == static_cast<const void*>(v), "%s to void*", n.c_str());
				}
				else
					CHECK(bad_cast_from([&] { (void)a.template cast<void*>(); }) && bad_cast_from([&] { (void)a.template cast<const void*>(); }), "%s to void*", n.c_str());
				e.evals(2);
			});
		if (e.begin("to a user type"))
			all_values([&](const auto& v, const Meaning&, const std::string& n) {
				using U = std::decay_t<decltype(v)>;
				Any a(v);
				if constexpr (std::is_same_v<U, Ord>)
					CHECK(a.template cast<Ord>() == v && a.template cast<Ord&>() == v && a.template cast<const Ord&>() == v);
				else
					CHECK(bad_cast_from([&] { (void)a.template cast<Ord>(); }) && bad_cast_from([&] { (void)a.template cast<std::vector<int>>(); }), "%s to a user type", n.c_str());
				e.evals(2);
			});
		if (e.begin("registered functions")) {
			Any a(ConvA{ 5 });
			CHECK(bad_cast_from([&] { (void)a.template cast<ConvB>(); }), "conversion that does not exist");
			CHECK(!(a == 5) && !(a == Any(5)) && (a < Any(7)) == (seq::get_type_id<ConvA>() < seq::get_type_id<int>()), "comparison of unrelated types");
			seq::register_any_conversion<ConvA, std::string>();
			seq::register_any_conversion<ConvA, ConvB>([](const ConvA& x) { return ConvB{ x.v + 1 }; });
			seq::register_any_less_comparison<ConvA, int>();
			seq::register_any_less_comparison<int, ConvA>([](int x, const ConvA& y) { return x < y.v; });
			seq::register_any_equal_comparison<ConvA, int>();
			seq::register_any_equal_comparison<int, ConvA>([](int x, const ConvA& y) { return x == y.v; });
			CHECK(a.template cast<std::string>() == "A5" && a.template cast<ConvB>().v == 6 && static_cast<const Any&>(a).template cast<ConvB>().v == 6, "registered conversions");
			CHECK(bad_cast_from([&] { (void)a.template cast<int>(); }) && bad_cast_from([&] { (void)a.template cast<Ord>(); }) && bad_cast_from([&] { (void)Any(ConvB()).template cast<ConvA>(); }),
			      "conversions that were not registered");
			for (int i = 3; i < 8; ++i) {
				Any b(i);
				AN_CMP(a, b, 5 == i, 5 < i, i < 5, "%d", i);
				AN_CMP(b, a, 5 == i, i < 5, 5 < i, "%d", i);
				AN_CMP(a, i, 5 == i, 5 < i, i < 5, "plain %d", i);
				AN_CMP(i, a, 5 == i, i < 5, 5 < i, "plain %d", i);
				e.evals(24);
			}
		}
		if (e.begin("operations that a type does not have")) {
			Any a(NoOps{ 1 }), b(NoOps{ 1 });
			CHECK(!(a == b) && a != b, "equality of objects without ==");
			CHECK(bad_call_from([&] { (void)(a < b); }), "order of objects without <");
			CHECK(bad_call_from([&] { (void)a.hash(); }), "hash of an object that has none");
			std::ostringstream o;
			CHECK(bad_call_from([&] { o << a; }), "stream of an object that has no <<");
			std::istringstream in("5");
			CHECK(bad_call_from([&] { in >> a; }), "stream to an object that has no >>");
			std::string s;
			CHECK(bad_call_from([&] { s = seq::fmt(a).str(); }), "format of an object that cannot be formatted");
			a.reset();
			CHECK(a.hash() == 0 && !a && !a.has_value() && a.type() == nullptr && a.sizeof_type() == 0 && a.type_id() == 0, "empty");
			CHECK(bad_call_from([&] { o << a; }) && bad_call_from([&] { in >> a; }), "stream of an empty any");
			CHECK(seq::fmt(a).str() == "", "format of an empty any");
		}
		if (e.begin("streams and formats"))
			all_values([&](const auto& v, const Meaning&, const std::string& n) {
				using U = std::decay_t<decltype(v)>;
				Any a(v);
				if constexpr (std::is_same_v<U, Ord>)
					return;
				else {
					if constexpr (!std::is_same_v<U, wchar_t> && !std::is_same_v<U, char16_t> && !std::is_same_v<U, char32_t>) {
						std::ostringstream o1, o2;
						o1 << std::setw(9) << v;
						o2 << std::setw(9) << a;
						CHECK(o1.str() == o2.str(), "stream of %s", n.c_str());
					}
					std::string f;
					if constexpr (std::is_same_v<U, int*>)
						f = seq::fmt(static_cast<const void*>(v)).str();
					else if constexpr (std::is_pointer_v<U>)
						f = seq::fmt(static_cast<const char*>(v)).str();
					else
						f = seq::fmt(v).str();
					std::string g = seq::fmt(a).str();
					if (std::is_floating_point_v<U>) // the default format of an any is not the one of floating point numbers
						for (auto* x : { &f, &g })
							for (char& ch : *x)
								ch = static_cast<char>(std::toupper(ch));
					if (!std::is_pointer_v<U>)
						CHECK(f == g, "format of %s gave %s", n.c_str(), seq::fmt(a).str().c_str());
					e.evals(2);
				}
			});
		if (e.begin("stream to an any")) {
			std::istringstream in("12 text 1.5");
			Any a(3), b(std::string("x")), c(0.0);
			in >> a >> b >> c;
			CHECK(a.template cast<int&>() == 12 && b.template cast<std::string&>() == "text" && c.template cast<double&>() == 1.5, "objects read from a stream");
		}
		if (e.begin("make_any and emplace")) {
			auto a = seq::make_any<Any, std::string>(3, 'x');
			CHECK(a.template cast<std::string&>() == "xxx");
			auto b = seq::make_any<Any, std::string>({ 'a', 'b' });
			CHECK(b.template cast<std::string&>() == "ab");
			std::string& r = a.template emplace<std::string>({ 'z', 'y' });
			CHECK(r == "zy" && &r == a.data());
			int& i = a.template emplace<int>(7);
			CHECK(i == 7 && &i == a.data());
			auto c = std::unique_ptr<int>(new int(3));
			Any d(std::move(c));
			CHECK(!c && *d.template cast<std::unique_ptr<int>&>() == 3);
			Any f(std::move(d));
			CHECK(bad_call_from([&] { Any g(f); }) && bad_call_from([&] { a = f; }) && a.template cast<int>() == 7, "copy of a move only object");
			CHECK(*f.template cast<std::unique_ptr<int>&>() == 3);
		}
	}
	// types that cannot be assigned (and are not hashable)
	template<class Any>
	void unassignable(mc::Enum& e)
	{
		for (int how = 0; how < 6; ++how)
			if (e.begin("objects that cannot be assigned %d", how)) {
				struct Const
				{
					const std::string s;
					const int i;
				};
				std::string t1(40, 'a'), t2(40, 'b');
				auto f1 = [t1] { return t1; };
				using F = decltype(f1);
				auto build = [](const std::string& t) { return [t] { return t; }; };
				auto g1 = build(t1), g2 = build(t2);
				using G = decltype(g1);
				(void)sizeof(F);
				Any a(g1), b(g2), c(Const{ t1, 1 }), d(Const{ t2, 2 });
				if (how == 0) {
					a = static_cast<const Any&>(b);
					c = static_cast<const Any&>(d);
					CHECK(b.template cast<G&>()() == t2 && d.template cast<Const&>().s == t2);
				}
				else if (how == 1) {
					a = std::move(b);
					c = std::move(d);
				}
				else if (how == 2) {
					a = g2;
					c = Const{ t2, 2 };
				}
				else if (how == 3) {
					a.swap(b);
					swap(c, d);
					CHECK(b.template cast<G&>()() == t1 && d.template cast<Const&>().s == t1);
				}
				else if (how == 4) {
					a.template emplace<G>(g2);
					c = d;
					c = static_cast<const Any&>(c);
				}
				else {
					a = 5;
					a = g2;
					c = 5;
					c = Const{ t2, 2 };
					a = static_cast<const Any&>(a);
				}
				CHECK(a.template cast<G&>()() == t2 && c.template cast<Const&>().s == t2, "assigned an object without assignment operator");
				CHECK(a.template cast<G>()() == t2 && static_cast<const Any&>(c).template cast<Const>().s == t2, "cast to a type without default constructor");
			}
	}
	template<class Any>
	void casts(mc::Enum& e)
	{
		cast_to_number<bool, Any>(e);
		cast_to_number<char, Any>(e);
		cast_to_number<signed char, Any>(e);
		cast_to_number<unsigned char, Any>(e);
		cast_to_number<wchar_t, Any>(e);
		cast_to_number<char16_t, Any>(e);
		cast_to_number<char32_t, Any>(e);
		cast_to_number<short, Any>(e);
		cast_to_number<unsigned short, Any>(e);
		cast_to_number<int, Any>(e);
		cast_to_number<unsigned, Any>(e);
		cast_to_number<long, Any>(e);
		cast_to_number<unsigned long, Any>(e);
		cast_to_number<long long, Any>(e);
		cast_to_number<unsigned long long, Any>(e);
		cast_to_number<float, Any>(e);
		cast_to_number<double, Any>(e);
		cast_to_number<long double, Any>(e);
		cast_to_text<std::string, Any>(e);
		cast_to_text<seq::tstring, Any>(e);
		cast_to_text<seq::tstring_view, Any>(e);
		cast_to_text<std::string_view, Any>(e);
		cast_to_text<const char*, Any>(e);
		cast_to_text<char*, Any>(e);
	}
}
namespace std
{
	template<>
	struct hash<an::Ord>
	{
		size_t operator()(const an::Ord& o) const { return hash<int>()(o.v); }
	};
}
namespace seq
{
	template<>
	struct is_hashable<an::NoOps> : std::false_type
	{
	};
	template<>
	struct is_hashable<an::ConvA> : std::false_type
	{
	};
	template<>
	struct is_hashable<an::ConvB> : std::false_type
	{
	};
}
