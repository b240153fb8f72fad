#define MC_MAIN
#include "../lib/elems.hpp"
#include <seq/tiny_string.hpp>
#include <sstream>
#include <iomanip>
using namespace mc;
using seq::basic_tstring_view;
template<class Char, size_t N>
using Tiny = seq::tiny_string<Char, std::char_traits<Char>, std::allocator<Char>, N>;
template<class Char>
using Std = std::basic_string<Char>;
template<class Char>
using SV = std::basic_string_view<Char>;
static constexpr size_t npos = size_t(-1);
static int sg(int v) { return v < 0 ? -1 : v > 0; }
template<class Char>
static std::string txt(const Std<Char>& s)
{
	std::string r;
	char b[16];
	for (Char c : s) {
		if (c > 32 && c < 127)
			r += char(c);
		else {
			snprintf(b, sizeof b, "\\%llx", (unsigned long long)c & (sizeof(Char) == 1 ? 0xffu : 0xffffffffu));
			r += b;
		}
	}
	return r;
}
// all strings over 'a','b' (and 'c') of a length
template<class Char>
static std::vector<Std<Char>> words(int letters, int maxlen)
{
	std::vector<Std<Char>> r;
	for (int l = 0; l <= maxlen; ++l) {
		int n = 1;
		for (int i = 0; i < l; ++i)
			n *= letters;
		for (int v = 0; v < n; ++v) {
			Std<Char> s;
			for (int i = 0, x = v; i < l; ++i, x /= letters)
				s.push_back(Char('a' + x % letters));
			r.push_back(s);
		}
	}
	return r;
}

#define SAME(expr, exp)                                                                                                                                                            \
	do {                                                                                                                                                                       \
		size_t got_ = (expr), exp_ = (exp);                                                                                                                                \
		CHECK(got_ == exp_, #expr " = %zd expected %zd; string \"%s\" needle \"%s\" pos %zd", (ssize_t)got_, (ssize_t)exp_, txt(h).c_str(), txt(n).c_str(), (ssize_t)pos);   \
	} while (0)

// every overload of the find family of haystack type C
template<class Char, class C>
static uint64_t finds(const C& c, const Std<Char>& h, const Std<Char>& n, const std::vector<size_t>& positions)
{
	using Tn = Tiny<Char, 0>;
	using To = Tiny<Char, 30>;
	using Vw = basic_tstring_view<Char>;
	const Tn tn(n);
	const To to(n);
	const Vw vw(n);
	const SV<Char> sv(n);
	const Char* cs = n.c_str();
	const size_t ln = n.size();
	uint64_t evals = 0;
	for (size_t pos : positions) {
		SAME(c.find(cs, pos, ln), h.find(cs, pos, ln));
		SAME(c.find(cs, pos), h.find(cs, pos));
		SAME(c.find(n, pos), h.find(n, pos));
		SAME(c.find(sv, pos), h.find(n, pos));
		SAME(c.find(tn, pos), h.find(n, pos));
		SAME(c.find(to, pos), h.find(n, pos));
		SAME(c.find(vw, pos), h.find(n, pos));
		SAME(c.rfind(cs, pos, ln), h.rfind(cs, pos, ln));
		SAME(c.rfind(cs, pos), h.rfind(cs, pos));
		SAME(c.rfind(n, pos), h.rfind(n, pos));
		SAME(c.rfind(sv, pos), h.rfind(n, pos));
		SAME(c.rfind(tn, pos), h.rfind(n, pos));
		SAME(c.rfind(vw, pos), h.rfind(n, pos));
#define FAM(f)                                                                                                                                                                     \
	SAME(c.f(cs, pos, ln), h.f(cs, pos, ln));                                                                                                                                      \
	SAME(c.f(cs, pos), h.f(cs, pos));                                                                                                                                              \
	SAME(c.f(tn, pos), h.f(n, pos));                                                                                                                                               \
	SAME(c.f(to, pos), h.f(n, pos));                                                                                                                                               \
	SAME(c.f(vw, pos), h.f(n, pos));
		FAM(find_first_of)
		FAM(find_last_of)
		FAM(find_first_not_of)
		FAM(find_last_not_of)
		evals += 33;
		if (ln == 1) {
			Char ch = n[0];
			SAME(c.find(ch, pos), h.find(ch, pos));
			SAME(c.rfind(ch, pos), h.rfind(ch, pos));
			SAME(c.find_first_of(ch, pos), h.find_first_of(ch, pos));
			SAME(c.find_last_of(ch, pos), h.find_last_of(ch, pos));
			SAME(c.find_first_not_of(ch, pos), h.find_first_not_of(ch, pos));
			SAME(c.find_last_not_of(ch, pos), h.find_last_not_of(ch, pos));
			evals += 6;
		}
	}
	size_t pos = 0;
	SAME(c.find(n), h.find(n));
	SAME(c.find(cs), h.find(cs));
	SAME(c.rfind(n), h.rfind(n));
	SAME(c.rfind(cs), h.rfind(cs));
	SAME(c.find_first_of(cs), h.find_first_of(cs));
	SAME(c.find_last_of(cs), h.find_last_of(cs));
	SAME(c.find_first_not_of(cs), h.find_first_not_of(cs));
	SAME(c.find_last_not_of(cs), h.find_last_not_of(cs));
	SAME(c.find_last_of(tn), h.find_last_of(n));
	SAME(c.find_last_not_of(tn), h.find_last_not_of(n));
	if (ln) {
		for (size_t start : { size_t(0), h.size() / 2, h.size() }) {
			size_t cnt = 0;
			for (size_t p = h.find(n, start); p != npos; p = h.find(n, p + ln))
				++cnt;
			SAME(c.count(n, start), cnt);
			if (n.find(Char(0)) == npos)
				SAME(c.count(cs, start), cnt);
			SAME(c.count(cs, ln, start), cnt);
			SAME(c.count(sv, start), cnt);
			SAME(c.count(vw, start), cnt);
			if (ln == 1)
				SAME(c.count(n[0], start), cnt);
		}
	}
	return evals + 20;
}
// every relational operator and compare of two strings, all type pairs
template<class A, class B>
static void rel(const A& a, const B& b, int e, const std::string& what)
{
	CHECK((a == b) == (e == 0) && (a != b) == (e != 0) && (a < b) == (e < 0) && (a <= b) == (e <= 0) && (a > b) == (e > 0) && (a >= b) == (e >= 0),
	      "expected %d: == %d != %d < %d <= %d > %d >= %d; %s", e, a == b, a != b, a < b, a <= b, a > b, a >= b, what.c_str());
	CHECK((b == a) == (e == 0) && (b != a) == (e != 0) && (b < a) == (e > 0) && (b <= a) == (e >= 0) && (b > a) == (e < 0) && (b >= a) == (e <= 0),
	      "swapped, expected %d; %s", -e, what.c_str());
}
template<class Char>
static void compares(const Std<Char>& x, const Std<Char>& y)
{
	using T0 = Tiny<Char, 0>;
	using T1 = Tiny<Char, 30>;
	using Vw = basic_tstring_view<Char>;
	const int e = sg(x.compare(y));
	std::string what = "\"" + txt(x) + "\" with \"" + txt(y) + "\"";
	const T0 a(x), b(y);
	const T1 d(y);
	const Vw v(x), w(y);
	const SV<Char> sy(y);
	rel(a, b, e, what);
	rel(a, d, e, what);
	rel(a, w, e, what);
	rel(a, y, e, what);
	rel(a, sy, e, what);
	rel(v, w, e, what);
	rel(v, y, e, what);
	rel(v, sy, e, what);
	CHECK(sg(a.compare(b)) == e && sg(a.compare(d)) == e && sg(a.compare(w)) == e && sg(a.compare(y)) == e && sg(a.compare(sy)) == e, "%s", what.c_str());
	CHECK(sg(v.compare(b)) == e && sg(v.compare(d)) == e && sg(v.compare(w)) == e && sg(v.compare(y)) == e && sg(v.compare(sy)) == e, "%s", what.c_str());
	if (y.find(Char(0)) == npos) {
		rel(a, y.c_str(), e, what);
		rel(v, y.c_str(), e, what);
		CHECK(sg(a.compare(y.c_str())) == e && sg(v.compare(y.c_str())) == e, "%s", what.c_str());
	}
	CHECK((std::hash<T0>()(a) == std::hash<T0>()(b)) || e != 0);
	CHECK(std::hash<T0>()(a) == std::hash<T0>()(v) && std::hash<T0>()(a) == std::hash<T1>()(T1(x)) && std::hash<Vw>()(v) == std::hash<T0>()(a));
}
template<class Char>
static void compare_parts(const Std<Char>& x, const Std<Char>& y, uint64_t& evals)
{
	using T0 = Tiny<Char, 0>;
	using Vw = basic_tstring_view<Char>;
	const T0 a(x), b(y);
	const Vw v(x), w(y);
	const SV<Char> sy(y);
	for (size_t pos = 0; pos <= x.size(); ++pos)
		for (size_t len : { size_t(0), size_t(1), size_t(2), x.size() - pos, x.size(), x.size() + 3, npos - 1, npos }) {
			int e = sg(x.compare(pos, len, y));
			std::string what = "\"" + txt(x) + "\" at " + std::to_string(pos) + "," + std::to_string(len) + " with \"" + txt(y) + "\"";
			CHECK(sg(a.compare(pos, len, b)) == e && sg(a.compare(pos, len, y)) == e && sg(a.compare(pos, len, sy)) == e && sg(a.compare(pos, len, y.c_str())) == e &&
				sg(a.compare(pos, len, y.data(), y.size())) == e && sg(a.compare(pos, len, w)) == e,
			      "%s", what.c_str());
			CHECK(sg(v.compare(pos, len, y)) == e && sg(v.compare(pos, len, sy)) == e && sg(v.compare(pos, len, y.c_str())) == e && sg(v.compare(pos, len, y.data(), y.size())) == e, "%s",
			      what.c_str());
			for (size_t p2 : { size_t(0), y.size() / 2, y.size() })
				for (size_t l2 : { size_t(0), size_t(1), y.size(), npos - 1, npos }) {
					int e2 = sg(x.compare(pos, len, y, p2, l2));
					CHECK(sg(a.compare(pos, len, b, p2, l2)) == e2 && sg(v.compare(pos, len, b, p2, l2)) == e2 && sg(a.compare(pos, len, w, p2, l2)) == e2, "%s", what.c_str());
				}
			evals += 20;
		}
}

template<class Char>
static void add_finds(const std::string& name)
{
	add_enum("find family, " + name, [](Enum& e) {
		// every haystack and needle over 2 letters, every position
		auto hay = words<Char>(2, e.thorough() ? 10 : 8);
		auto needles = words<Char>(2, e.thorough() ? 5 : 4);
		needles.push_back(Std<Char>(1, Char('z')));
		needles.push_back({ Char('z'), Char('b') });
		needles.push_back({ Char('a'), Char(0), Char('b') });
		for (size_t i = 0; i < hay.size(); i += 16)
			if (e.begin("small %zu", i)) {
				uint64_t ev = 0;
				for (size_t j = i; j < std::min(hay.size(), i + 16); ++j) {
					const auto& h = hay[j];
					std::vector<size_t> pos;
					for (size_t p = 0; p <= h.size() + 2; ++p)
						pos.push_back(p);
					pos.push_back(npos - 1);
					pos.push_back(npos);
					Tiny<Char, 0> t(h);
					Tiny<Char, 25> u(h);
					basic_tstring_view<Char> v(h);
					for (const auto& n : needles) {
						ev += finds<Char>(t, h, n, pos);
						ev += finds<Char>(u, h, n, pos);
						ev += finds<Char>(v, h, n, pos);
					}
				}
				e.evals(ev);
			}
		// needles with a near match, all alignments: a^i b a^j in prefixes with a^k b a^l
		const int M = e.thorough() ? 20 : 11;
		for (int i = 0; i <= M + 8; ++i)
			if (e.begin("near %d", i)) {
				uint64_t ev = 0;
				for (int j = 0; j <= M; ++j) {
					Std<Char> h = Std<Char>(size_t(i), Char('a')) + Char('b') + Std<Char>(size_t(j), Char('a'));
					Tiny<Char, 0> t(h);
					basic_tstring_view<Char> v(h);
					for (int k = 0; k <= M; ++k)
						for (int l = 0; l <= M; ++l) {
							Std<Char> n = Std<Char>(size_t(k), Char('a')) + Char('b') + Std<Char>(size_t(l), Char('a'));
							for (size_t pos : { size_t(0), h.size() / 2, npos }) {
								SAME(t.find(n, pos), h.find(n, pos));
								SAME(t.rfind(n, pos), h.rfind(n, pos));
								SAME(v.find(n, pos), h.find(n, pos));
								SAME(v.rfind(n, pos), h.rfind(n, pos));
								ev += 4;
							}
						}
				}
				e.evals(ev);
			}
		// a single different character at each place of long strings
		if (e.begin("long")) {
			uint64_t ev = 0;
			for (size_t L : { 17u, 40u, 70u })
				for (size_t d = 0; d < L; ++d) {
					Std<Char> h(L, Char('a'));
					h[d] = Char('b');
					std::vector<size_t> pos = { 0, d ? d - 1 : 0, d, d + 1, L - 1, L, npos };
					Tiny<Char, 0> t(h);
					basic_tstring_view<Char> v(h);
					for (const auto& n : { Std<Char>(1, Char('a')), Std<Char>(1, Char('b')), Std<Char>(9, Char('a')), h.substr(d / 2, 12), h.substr(L / 2), h + h }) {
						ev += finds<Char>(t, h, n, pos);
						ev += finds<Char>(v, h, n, pos);
					}
				}
			e.evals(ev);
		}
	});
}
template<class Char>
static std::vector<Char> letters()
{
	using U = std::make_unsigned_t<Char>;
	return { Char('a'), Char(1), Char(U(U(~U(0)) / 2)), Char(U(U(~U(0)) / 2 + 1)), Char(U(~U(0))), Char(0) };
}
template<class Char>
static void add_compare(const std::string& name)
{
	add_enum("comparison, " + name, [](Enum& e) {
		const size_t M = e.thorough() ? 36 : 19;
		auto ab = letters<Char>();
		// common prefix p, one different character, tails that would decide the other way
		for (size_t p = 0; p <= M; ++p)
			if (e.begin("prefix %zu", p)) {
				uint64_t ev = 0;
				Std<Char> base;
				for (size_t i = 0; i < p; ++i)
					base.push_back(i % 5 == 4 ? ab[3] : Char('c'));
				for (size_t t1 = 0; t1 <= 9; ++t1)
					for (size_t t2 = 0; t2 <= 9; ++t2) {
						compares<Char>(base + Std<Char>(t1, Char('d')), base + Std<Char>(t2, Char('d')));
						for (Char x : ab)
							for (Char y : ab) {
								compares<Char>(base + x + Std<Char>(t1, Char('z')), base + y + Std<Char>(t2, Char('b')));
								++ev;
							}
					}
				e.evals(ev * 60);
			}
		auto w = words<Char>(2, e.thorough() ? 4 : 3);
		w.push_back(Std<Char>(17, Char('a')));
		w.push_back(Std<Char>(9, Char('b')));
		for (size_t i = 0; i < w.size(); ++i)
			if (e.begin("parts %zu", i)) {
				uint64_t ev = 0;
				for (const auto& y : w)
					compare_parts<Char>(w[i], y, ev);
				e.evals(ev);
			}
		if (e.begin("default views")) {
			using Vw = basic_tstring_view<Char>;
			Vw v, v2;
			Tiny<Char, 0> t, u(3, Char('x'));
			rel(v, v2, 0, "two default views");
			rel(v, t, 0, "default view and string");
			rel(v, u, -1, "default view and xxx");
			rel(v, Vw(u), -1, "default view and view of xxx");
			rel(t, u, -1, "empty and xxx");
			CHECK(v.empty() && v.size() == 0 && v.begin() == v.end() && std::hash<Vw>()(v) == std::hash<Vw>()(Vw(t)));
			CHECK(v.compare(t) == 0 && sg(v.compare(u)) == -1 && sg(u.compare(v)) == 1);
			CHECK((Tiny<Char, 0>(v).size()) == 0 && (Tiny<Char, 0>(v).c_str()[0]) == 0);
			CHECK(v.find(u) == npos && v.rfind(u) == npos && v.find(Char('a')) == npos && v.rfind(Char('a')) == npos && v.find_first_of(u) == npos && v.find_last_not_of(u) == npos);
		}
	});
}
template<class Char, class A, class B>
static void plus1(const A& a, const B& b, const Std<Char>& e)
{
	auto r = a + b;
	CHECK(r.size() == e.size() && Std<Char>(r.data(), r.size()) == e && r.c_str()[r.size()] == Char(0), "\"%s\" expected \"%s\"", txt(Std<Char>(r.data(), r.size())).c_str(), txt(e).c_str());
}
template<class Char>
static void add_plus(const std::string& name)
{
	add_enum("concatenation, construction, views, " + name, [](Enum& e) {
		std::vector<size_t> lens = { 0, 1, 3, 6, 7, 8, 14, 15, 16, 31, 40, 41, 90 };
		for (size_t la : lens)
			if (e.begin("a %zu", la)) {
				uint64_t ev = 0;
				for (size_t lb : lens) {
					Std<Char> x, y;
					for (size_t i = 0; i < la; ++i)
						x.push_back(Char('a' + i % 20));
					for (size_t i = 0; i < lb; ++i)
						y.push_back(Char('A' + i % 20));
					Std<Char> r = x + y;
					Tiny<Char, 0> a0(x), b0(y);
					Tiny<Char, 30> a1(x), b1(y);
					basic_tstring_view<Char> av(x), bv(y);
					plus1<Char>(a0, b0, r);
					plus1<Char>(a0, b1, r);
					plus1<Char>(a1, b0, r);
					plus1<Char>(a1, b1, r);
					plus1<Char>(a0, bv, r);
					plus1<Char>(av, b1, r);
					plus1<Char>(av, bv, r);
					plus1<Char>(a0, y, r);
					plus1<Char>(a1, SV<Char>(y), r);
					plus1<Char>(a1, y.c_str(), r);
					plus1<Char>(x, b0, r);
					plus1<Char>(SV<Char>(x), b1, r);
					plus1<Char>(x.c_str(), b1, r);
					plus1<Char>(a0, Char('!'), x + Char('!'));
					plus1<Char>(Char('!'), a1, Char('!') + x);
					plus1<Char>(av, y, r);
					plus1<Char>(x.c_str(), bv, r);
					Tiny<Char, 30> c(a0), d;
					d = a0;
					Tiny<Char, 0> f(av), g;
					g = bv;
					CHECK(c == x && d == x && f == x && g == y && Std<Char>(g) == y && c.c_str()[la] == 0 && d.c_str()[la] == 0);
					d = y;
					CHECK(d == y);
					d = SV<Char>(x);
					CHECK(d == x);
					d = y.c_str();
					CHECK(d == y && d.c_str()[lb] == 0);
					basic_tstring_view<Char> v;
					v = a0;
					CHECK(v == x && v.data() == a0.data());
					v = y;
					CHECK(v == y && v.data() == y.data());
					v = SV<Char>(x);
					CHECK(v == x);
					v = y.c_str();
					CHECK(v == y);
					v = av;
					CHECK(v == x && v.data() == x.data() && v.size() == la && v.length() == la && v.empty() == (la == 0));
					basic_tstring_view<Char> v2(y.c_str()), v3(y.data(), lb);
					CHECK(v2 == y && v3 == y);
					v.swap(v2);
					CHECK(v == y && v2 == x);
					CHECK(Std<Char>(v.begin(), v.end()) == y && Std<Char>(v.cbegin(), v.cend()) == y && Std<Char>(v.rbegin(), v.rend()) == Std<Char>(y.rbegin(), y.rend()) &&
					      Std<Char>(v.crbegin(), v.crend()) == Std<Char>(y.rbegin(), y.rend()));
					if (lb)
						CHECK(v.front() == y.front() && v.back() == y.back() && v[lb / 2] == y[lb / 2] && v.at(lb - 1) == y[lb - 1]);
					Tiny<Char, 0> s1(a0), s2(b0);
					swap(s1, s2);
					CHECK(s1 == y && s2 == x);
					std::swap(s1, s2);
					CHECK(s1 == x && s2 == y);
					ev += 45;
				}
				e.evals(ev);
			}
	});
}
template<class Char>
static void add_streams(const std::string& name)
{
	add_enum("streams, " + name, [](Enum& e) {
		using Os = std::basic_ostringstream<Char>;
		using Is = std::basic_istringstream<Char>;
		for (size_t l : { 0, 1, 5, 15, 16, 40 })
			if (e.begin("out %zu", l)) {
				uint64_t ev = 0;
				Std<Char> x(l, Char('q'));
				for (int width : { 0, 1, 5, 6, 20, 41, -2 })
					for (int adj = 0; adj < 4; ++adj)
						for (Char fill : { Char(' '), Char('*') })
							for (int bad = 0; bad < 2; ++bad) {
								auto put = [&](auto& s) {
									Os o;
									if (adj == 1)
										o << std::left;
									if (adj == 2)
										o << std::right;
									if (adj == 3)
										o << std::internal;
									o.fill(fill);
									o.width(width);
									if (bad)
										o.setstate(std::ios::failbit);
									o << s;
									long w = long(o.width());
									o.clear(o.rdstate());
									auto st = o.rdstate();
									o.clear();
									o << s;
									return std::make_tuple(o.str(), bad ? 0 : int(st), bad ? 0L : w);
								};
								Tiny<Char, 0> t(x);
								Tiny<Char, 30> u(x);
								basic_tstring_view<Char> v(x);
								auto r = put(x);
								CHECK(put(t) == r && put(u) == r && put(v) == r, "length %zu width %d adjust %d bad %d: \"%s\" expected \"%s\"", l, width, adj, bad, txt(std::get<0>(put(t))).c_str(),
								      txt(std::get<0>(r)).c_str());
								++ev;
							}
				e.evals(ev);
			}
		// every text over {blank, x, newline} of length 0..6 and longer words
		std::vector<Std<Char>> texts;
		for (int len = 0; len <= (e.thorough() ? 8 : 5); ++len) {
			int n = 1;
			for (int i = 0; i < len; ++i)
				n *= 3;
			for (int v = 0; v < n; ++v) {
				Std<Char> s;
				for (int i = 0, x = v; i < len; ++i, x /= 3)
					s.push_back(x % 3 == 0 ? Char(' ') : x % 3 == 1 ? Char('x') : Char('\n'));
				texts.push_back(s);
			}
		}
		for (size_t l : { 14, 15, 16, 17, 40, 200 })
			texts.push_back(Std<Char>(2, Char(' ')) + Std<Char>(l, Char('w')) + Std<Char>(1, Char('\t')) + Std<Char>(l, Char('v')));
		for (size_t i = 0; i < texts.size(); i += 64)
			if (e.begin("in %zu", i)) {
				uint64_t ev = 0;
				for (size_t j = i; j < std::min(i + 64, texts.size()); ++j)
					for (int width : { 0, 1, 2, 15, 16, 100 })
						for (int skip = 0; skip < 2; ++skip) {
							auto get = [&](auto s) {
								Is is(texts[j]);
								if (skip)
									is >> std::noskipws;
								std::vector<Std<Char>> got;
								std::vector<int> st;
								for (int k = 0; k < 3; ++k) {
									is.width(width);
									is >> s;
									got.push_back(Std<Char>(s.data(), s.size()));
									st.push_back(int(is.rdstate()));
									st.push_back(is.fail() ? 0 : int(is.width()));
									if (k == 1)
										is.clear();
								}
								return std::make_pair(got, st);
							};
							auto r = get(Std<Char>(3, Char('i')));
							auto a = get(Tiny<Char, 0>(3, Char('i')));
							auto b = get(Tiny<Char, 30>(50, Char('i')));
							auto r50 = get(Std<Char>(50, Char('i')));
							CHECK(a == r && b == r50, "text \"%s\" width %d skip %d: \"%s\"(%d) \"%s\"(%d) expected \"%s\"(%d) \"%s\"(%d)", txt(texts[j]).c_str(), width, skip, txt(a.first[0]).c_str(),
							      a.second[0], txt(a.first[1]).c_str(), a.second[2], txt(r.first[0]).c_str(), r.second[0], txt(r.first[1]).c_str(), r.second[2]);
							ev += 3;
						}
				e.evals(ev);
			}
	});
}
int main(int argc, char** argv)
{
#if !defined(PART) || PART == 1
	add_finds<char>("char");
	add_streams<char>("char");
#endif
#if !defined(PART) || PART == 2
	add_finds<wchar_t>("wchar_t");
	add_streams<wchar_t>("wchar_t");
#endif
#if !defined(PART) || PART == 3
	add_compare<char>("char");
	add_plus<char>("char");
	add_compare<char16_t>("char16_t");
#endif
#if !defined(PART) || PART == 4
	add_finds<char16_t>("char16_t");
	add_compare<wchar_t>("wchar_t");
	add_plus<wchar_t>("wchar_t");
	add_plus<char32_t>("char32_t");
#endif
	return main_(argc, argv);
}
