// C24: formatted output is exactly the arguments laid out as requested; split() and replace() are its inverse.
#ifndef PART
#define PART 1
#endif
#define MC_MAIN
#include "mc.hpp"
#include <seq/format.hpp>
#include <string>
#include <string_view>
#include <sstream>
#include <vector>
#include <list>
#include <memory>
#include <limits>
#include <tuple>
#include <stdio.h>

namespace
{
	using mc::Enum;
	using seq::fmt;
	using seq::join;
	using seq::tstring;
	using seq::tstring_view;

	// ---- specification -------------------------------------------------------------------------
	template<class S>
	S lay(const S& s, char al, unsigned w, typename S::value_type fill, bool truncate)
	{
		if (al == 0)
			return s;
		if (s.size() < w) {
			size_t n = w - s.size(), left = al == 'l' ? 0 : (al == 'r' ? n : n / 2);
			return S(left, fill) + s + S(n - left, fill);
		}
		if (s.size() > w && truncate) {
			size_t n = s.size() - w;
			return s.substr(al == 'l' ? 0 : (al == 'r' ? n : n / 2), w);
		}
		return s;
	}
	template<class F>
	F& set(F& f, char al, unsigned w, char32_t fill)
	{
		if (fill) f.fill(fill);
		if (al == 'l') f.left(int(w));
		if (al == 'r') f.right(int(w));
		if (al == 'c') f.center(int(w));
		return f;
	}
	std::string show(const std::string& s)
	{
		std::string r;
		for (char c : s)
			if (c >= 32 && c < 127) r += c;
			else {
				char b[8];
				snprintf(b, sizeof b, "\\x%02x", (unsigned char)c);
				r += b;
			}
		return r;
	}
	template<class C>
	std::string show(const std::basic_string<C>& s)
	{
		std::string r;
		for (C c : s) r += c >= C(32) && c < C(127) ? std::string(1, char(c)) : "\\u" + std::to_string(unsigned(c));
		return r;
	}
#define WANT(got, want, what) \
	do { \
		const auto g_ = (got); \
		CHECK(g_ == (want), "%s: '%s' instead of '%s' (%s)", what, show(g_).c_str(), show(want).c_str(), info.c_str()); \
	} while (0)

	// every way of delivering the text of a formatting object
	template<class F, class S = std::string>
	void deliver(F f, const S& want, const std::string& info, bool str_default = true)
	{
		using C = typename S::value_type;
		using T = seq::tiny_string<C, std::char_traits<C>, std::allocator<C>, 0>;
		for (int twice = 0; twice < 2; ++twice) {
			std::basic_ostringstream<C> os;
			os << C('<') << f << C('>');
			WANT(os.str(), S(1, C('<')) + want + S(1, C('>')), "stream");
			WANT(f.template str<S>(), want, "str<std::string>()");
			{
				T t = f.template str<T>();
				WANT(S(t.data(), t.size()), want, "str<tstring>()");
			}
			{
				S s = f;
				WANT(s, want, "conversion to std::string");
				T t = f;
				WANT(S(t.data(), t.size()), want, "conversion to tstring");
			}
			{
				S s(3, C('x'));
				f.append(s);
				WANT(s, S(3, C('x')) + want, "append to std::string");
				T t(20, C('y'));
				f.append(t);
				WANT(S(t.data(), t.size()), S(20, C('y')) + want, "append to tstring");
			}
			{
				std::unique_ptr<C[]> buf(new C[want.size()]);
				C* end = f.to_chars(buf.get());
				CHECK(end == buf.get() + want.size(), "to_chars(buffer): wrote %ld characters instead of %zu (%s)", long(end - buf.get()), want.size(), info.c_str());
				WANT(S(buf.get(), want.size()), want, "to_chars(buffer)");
			}
			for (size_t max = 0; max <= want.size() + 1; ++max) {
				if (want.size() > 8 && max > 2 && max + 2 < want.size())
					continue;
				std::unique_ptr<C[]> buf(new C[max]);
				auto r = f.to_chars(buf.get(), max);
				const size_t n = std::min(max, want.size());
				CHECK(r.second == want.size(), "to_chars(buffer, %zu): reports %zu characters instead of %zu (%s)", max, r.second, want.size(), info.c_str());
				CHECK(r.first == buf.get() + n, "to_chars(buffer, %zu): wrote %ld characters instead of %zu (%s)", max, long(r.first - buf.get()), n, info.c_str());
				WANT(S(buf.get(), n), want.substr(0, n), "to_chars(buffer, max)");
			}
			{
				std::vector<C> v(want.size());
				auto end = f.to_iter(v.begin());
				CHECK(end == v.end(), "to_iter: wrote %ld characters instead of %zu (%s)", long(end - v.begin()), want.size(), info.c_str());
				WANT(S(v.begin(), v.end()), want, "to_iter");
			}
			auto copy = *f;
			WANT(copy.template str<S>(), want, "copy");
		}
	}
	std::string lay_info(char al, unsigned w, char32_t fill)
	{
		return std::string("alignment ") + (al ? al : '-') + " width " + std::to_string(w) + " fill " + std::to_string(unsigned(fill));
	}
	// calls fn(alignment, width, fill): widths around a length
	template<class Fn>
	void layouts(size_t len, Fn fn)
	{
		fn(char(0), 0u, U' ');
		for (char al : { 'l', 'r', 'c' })
			for (char32_t fill : { U' ', U'*', U'0' }) {
				unsigned ws[] = { 0, 1, 2, unsigned(len) - (len > 0), unsigned(len), unsigned(len) + 1, unsigned(len) + 2, unsigned(len) + 3, 40 };
				for (size_t i = 0; i < sizeof ws / sizeof *ws; ++i) {
					bool dup = false;
					for (size_t j = 0; j < i; ++j) dup |= ws[j] == ws[i];
					if (!dup) fn(al, ws[i], fill);
				}
			}
	}

	// ---- numbers ---------------------------------------------------------------------------------
	using u128 = unsigned __int128;
	template<class T>
	std::string int_text(T v, unsigned base, bool prefix, bool upper)
	{
		__int128 x = v;
		u128 m = x < 0 ? u128(-x) : u128(x);
		std::string d;
		do {
			unsigned k = unsigned(m % base);
			d.insert(d.begin(), char(k < 10 ? '0' + k : (upper ? 'A' : 'a') + (k - 10)));
			m /= base;
		} while (m);
		if (base == 16 && prefix) d = "0x" + d;
		return (x < 0 ? "-" : "") + d;
	}
	template<class T>
	void ints(Enum& e, const char* name)
	{
		std::vector<T> vals{ T(0), T(1), T(7), T(42), T(100), T(-1), T(-42), std::numeric_limits<T>::max(), std::numeric_limits<T>::min() };
		if (sizeof(T) == 1 && std::is_same<T, bool>::value) vals = { T(0), T(1) };
		for (int base : { 10, 16, 2, 8, 36 })
			if (e.begin("%s base %d", name, base))
				for (T v : vals)
					for (int opt = 0; opt < (std::is_same<T, bool>::value ? 1 : 4); ++opt) {
						if (opt && base < 11) continue;
						if ((opt & 1) && v == T(0)) continue; // "0" or "0x0"
						const std::string t = int_text(v, unsigned(base), opt & 1, opt & 2);
						layouts(t.size(), [&](char al, unsigned w, char32_t fill) {
							if (opt && (fill == U'0' || w == 40) && !e.thorough()) return;
							auto f = fmt(v);
							if (base != 10) f.base(char(base));
							if (opt & 1) f.hex_prefix();
							if (opt & 2) f.upper();
							set(f, al, w, fill);
							const std::string info = "value " + t + " " + lay_info(al, w, fill), want = lay(t, al, w, char(fill), false);
							deliver(f, want, info);
							// the same options given before the value, and a wide text
							auto g = fmt<T>();
							set(g, al, w, fill);
							if (opt & 2) g.u();
							if (opt & 1) g.h();
							if (base != 10) g.b(char(base));
							WANT(g(v).str(), want, "options before the value");
							WANT(fmt(T()).set_numeric_format(f.numeric_fmt()).set_width_format(f.width_fmt())(v).str(), want, "copied options");
							WANT(f.template str<std::wstring>(), std::wstring(want.begin(), want.end()), "wide text");
							WANT(f.no_align().str(), t, "no_align()");
							e.evals(1);
						});
					}
		if (e.begin("%s width without alignment", name))
			for (T v : vals)
				for (unsigned w : { 0u, 1u, 3u, 30u }) {
					const std::string info = "value " + int_text(v, 10, false, false);
					WANT(fmt(v).set_width_format(seq::width_format((unsigned short)w)).str(), int_text(v, 10, false, false), "width without alignment");
				}
	}
	template<class T>
	void chars(Enum& e, const char* name)
	{
		if (e.begin("%s as character", name))
			for (int c : { int(117), 32, 48, 10, 127, 0 })
				layouts(1, [&](char al, unsigned w, char32_t fill) {
					const std::string want = lay(std::string(1, char(c)), al, w, char(fill), false), info = "character " + std::to_string(c) + " " + lay_info(al, w, fill);
					auto f = seq::ch(T(c));
					deliver(set(f, al, w, fill), want, info);
					auto g = fmt(T(c)).as_char();
					WANT(set(g, al, w, fill).str(), want, "as_char()");
					auto h = fmt<T>().c();
					WANT(set(h, al, w, fill)(T(c)).str(), want, "c()");
					e.evals(1);
				});
	}
	// printf's text without the trailing zeros of the mantissa
	std::string float_text(double v, char type, int prec, char dot)
	{
		char f[16], b[512];
		snprintf(f, sizeof f, "%%.%d%c", prec, type);
		snprintf(b, sizeof b, f, v);
		std::string s = b;
		size_t ex = s.find_first_of("eE");
		std::string mant = s.substr(0, ex), tail = ex == std::string::npos ? "" : s.substr(ex);
		if (mant.find('.') != std::string::npos) {
			while (mant.back() == '0') mant.pop_back();
			if (mant.back() == '.') mant.pop_back();
			size_t p = mant.find('.');
			if (p != std::string::npos) mant[p] = dot;
		}
		return mant + tail;
	}
	template<class T>
	void floats(Enum& e, const char* name)
	{
		// few significant digits: the text does not depend on how the last digit is rounded
		const double vals[] = { 0, 1.5, -2.25, 100, 0.125, -7, 1234.5, 65536, 1e10, -0.5, 3e-5 };
		for (char type : { 'g', 'G', 'e', 'E', 'f', 'F' })
			for (int prec : { 6, 1, 3, 10 })
				if (e.begin("%s format %c precision %d", name, type, prec))
					for (double v : vals)
						for (char dot : { '.', ',' }) {
							if (prec != 10 && (v == 1234.5 || v == 65536 || v == 3e-5) && prec < 5) continue;
							if (v == 3e-5 && sizeof(T) < 8) continue;
							// exactly halfway cases are rounded to either side
							if (prec == 1 && (v == -2.25 || v == 0.125 || v == 1.5 || v == -0.5)) continue;
							std::string t = float_text(v, type, prec, dot);
							layouts(t.size(), [&](char al, unsigned w, char32_t fill) {
								if ((dot == ',' || prec != 6) && (fill == U'0' || w == 40) && !e.thorough()) return;
								auto f = fmt(T(v), type);
								if (prec != 6) f.precision(prec);
								if (dot != '.') f.dot(dot);
								set(f, al, w, fill);
								const std::string info = std::string(name) + " value " + t + " " + lay_info(al, w, fill), want = lay(t, al, w, char(fill), false);
								deliver(f, want, info);
								auto g = fmt<T>().t(type).p(prec).d(dot);
								WANT(set(g, al, w, fill)(T(v)).str(), want, "options before the value");
								WANT(f.template str<std::wstring>(), std::wstring(want.begin(), want.end()), "wide text");
								if (type == 'g' && prec == 6 && dot == '.') {
									auto h = fmt(T(v));
									WANT(set(h, al, w, fill).str(), want, "default format");
								}
								e.evals(1);
							});
						}
		if (e.begin("%s width without alignment", name))
			for (double v : vals) {
				const std::string info = float_text(v, 'g', 6, '.');
				WANT(fmt(T(v)).set_width_format(seq::width_format(20)).str(), info, "width without alignment");
			}
	}
	template<class T>
	void shortcuts(Enum& e, const char* name)
	{
		if (e.begin("shortcuts %s", name))
			for (int v : { 0, 1, 100, 255, 12345 }) {
				const T x = T(v);
				const std::string info = std::to_string(v);
				WANT(seq::dec(x).str(), int_text(x, 10, false, false), "dec");
				WANT(seq::d(x).str(), int_text(x, 10, false, false), "d");
				WANT(seq::u(x).str(), int_text(x, 10, false, false), "u");
				WANT(seq::hex(x).str(), int_text(x, 16, false, false), "hex");
				WANT(seq::x(x).str(), int_text(x, 16, false, false), "x");
				WANT(seq::X(x).str(), int_text(x, 16, false, true), "X");
				WANT(seq::oct(x).str(), int_text(x, 8, false, false), "oct");
				WANT(seq::o(x).str(), int_text(x, 8, false, false), "o");
				WANT(seq::bin(x).str(), int_text(x, 2, false, false), "bin");
				WANT(seq::_d(x).str(), int_text(x, 10, false, false), "_d");
				WANT(seq::_u(x).str(), int_text(x, 10, false, false), "_u");
				WANT(seq::_hex(x).str(), int_text(x, 16, false, false), "_hex");
				WANT(seq::_x(x).str(), int_text(x, 16, false, false), "_x");
				WANT(seq::_X(x).str(), int_text(x, 16, false, true), "_X");
				WANT(seq::_oct(x).str(), int_text(x, 8, false, false), "_oct");
				WANT(seq::_bin(x).str(), int_text(x, 2, false, false), "_bin");
			}
	}

	// ---- texts -----------------------------------------------------------------------------------
	template<class C, class Make>
	void texts(Enum& e, const char* name, Make make)
	{
		using S = std::basic_string<C>;
		for (size_t len = 0; len <= 6; ++len)
			if (e.begin("%s of %zu characters", name, len)) {
				const char* src[] = { "abcdef", "\xe9 \n-*\x80" };
				for (const char* s0 : src) {
					const S t(s0, s0 + len);
					for (char al : { char(0), 'l', 'r', 'c' })
						for (unsigned w = 0; w <= 9; ++w)
							for (char32_t fill : { U' ', U'*' }) {
								if (al == 0 && (w || fill != U' ')) continue;
								// no width: the text is complete
								const S want = w == 0 ? t : lay(t, al, w, C(fill), true);
								const std::string info = "'" + show(t) + "' " + lay_info(al, w, fill);
								make(t, [&](auto f) {
									set(f, al, w, fill);
									deliver(f, want, info);
								});
								e.evals(1);
							}
				}
			}
	}
	struct Point
	{
		int x, y;
	};
	inline std::ostream& operator<<(std::ostream& os, const Point& p) { return os << '(' << p.x << ',' << p.y << ')'; }
	struct Nested // its stream operator uses fmt()
	{
		int x, y;
	};
	inline std::ostream& operator<<(std::ostream& os, const Nested& p) { return os << fmt("[", p.x, "|", fmt(p.y).r(3), "]"); }
	struct Nested1
	{
		int x;
	};
	inline std::ostream& operator<<(std::ostream& os, const Nested1& p)
	{
		char b[32];
		auto r = fmt("<", p.x).to_chars(b, sizeof b);
		os.write(b, r.first - b);
		fmt(p.x).to_chars(b);
		return os << fmt(p.x).r(4) << fmt(">");
	}
	struct Custom
	{
		int x, y;
	};
}
namespace seq
{
	template<>
	class ostream_format<Custom> : public base_ostream_format<Custom, ostream_format<Custom>>
	{
		using base_type = base_ostream_format<Custom, ostream_format<Custom>>;

	public:
		ostream_format() = default;
		ostream_format(const Custom& v)
		  : base_type(v)
		{
		}
		template<class String>
		size_t to_string(String& out) const
		{
			size_t prev = out.size();
			out.append("{");
			ostream_format<int>(this->value().x, this->numeric_fmt()).append(out);
			out.append(":");
			fmt(this->value().y).set_numeric_format(this->numeric_fmt()).append(out);
			out.append("}");
			return out.size() - prev;
		}
	};
}
namespace
{
	template<class T>
	void objects(Enum& e, const char* name, const std::vector<std::pair<T, std::string>>& vals)
	{
		if (e.begin("%s", name))
			for (auto& v : vals)
				layouts(v.second.size(), [&](char al, unsigned w, char32_t fill) {
					const std::string want = lay(v.second, al, w, char(fill), true), info = v.second + " " + lay_info(al, w, fill);
					auto f = fmt(v.first);
					set(f, al, w, fill);
					deliver(f, want, info);
					// within a list, nested, and several times
					auto g = fmt("before ", f, " after ", v.first);
					deliver(g, "before " + want + " after " + v.second, info);
					auto h = fmt(f);
					h.c(20).f('+');
					deliver(h, lay(want, 'c', 20, '+', true), info);
					for (auto& o : vals) {
						WANT(f(o.first).str(), lay(o.second, al, w, char(fill), true), "another object");
					}
					e.evals(1);
				});
	}

	// ---- lists of arguments ------------------------------------------------------------------------
	// Items: formatting objects with their text, each of another kind
	template<class F>
	struct Item
	{
		F make;
		std::string text;
	};
	template<class F>
	Item<F> item(F f, const std::string& t)
	{
		return Item<F>{ f, t };
	}
	template<class Fn>
	void each_item(Fn fn)
	{
		fn(item([] { return 42; }, "42"));
		fn(item([] { return fmt(-7).r(4).f('_'); }, "__-7"));
		fn(item([] { return "text"; }, "text"));
		fn(item([] { return fmt("truncated").c(3); }, "nca"));
		fn(item([] { return fmt(1.5, 'e'); }, "1.5e+00"));
		fn(item([] { return fmt("in", 3).r(5).f('.'); }, "..in3"));
		fn(item([] { return Point{ 1, -2 }; }, "(1,-2)"));
	}
	template<class Fn>
	void each_item4(Fn fn)
	{
		fn(item([] { return 42; }, "42"));
		fn(item([] { return fmt("truncated").c(3); }, "nca"));
		fn(item([] { return fmt(fmt("in").l(4), 3).r(7).f('.'); }, "..in  3"));
		fn(item([] { return Nested{ 1, -2 }; }, "[1| -2]"));
	}
	template<class F>
	void whole(Enum& e, const F& f, const std::string& t)
	{
		deliver(f, t, t);
		for (char al : { 'l', 'r', 'c' })
			for (size_t w : { size_t(1), t.size() - 1, t.size(), t.size() + 1, t.size() + 4 }) {
				auto g = f;
				set(g, al, unsigned(w), w & 1 ? U'#' : U' ');
				const std::string want = lay(t, al, unsigned(w), w & 1 ? '#' : ' ', true), info = t + " " + lay_info(al, unsigned(w), w & 1 ? U'#' : U' ');
				WANT(g.template str<std::string>(), want, "str()");
				std::ostringstream os;
				os << g;
				WANT(os.str(), want, "stream");
				WANT(fmt("(", g, ")").template str<std::string>(), "(" + want + ")", "nested");
				if (al == 'c') deliver(g, want, info);
				e.evals(1);
			}
	}
	void pairs(Enum& e)
	{
		int i = 0;
		each_item([&](auto a) {
			int j = 0;
			each_item([&](auto b) {
				if (e.begin("list %d %d", i, j)) {
					auto va = a.make();
					auto vb = b.make();
					whole(e, fmt(va, vb), a.text + b.text);
				}
				if (e.begin("join %d %d", i, j)) {
					auto va = a.make();
					auto vb = b.make();
					for (std::string sep : { "", ",", " - " }) {
						auto f = join(sep, va, vb);
						deliver(f, a.text + sep + b.text, sep);
						f.r(12);
						deliver(f, lay(a.text + sep + b.text, 'r', 12, ' ', true), sep);
						e.evals(1);
					}
				}
				++j;
			});
			++i;
		});
	}
	void triples(Enum& e)
	{
		int i = 0;
		each_item4([&](auto a) {
			int j = 0;
			each_item4([&](auto b) {
				int k = 0;
				each_item4([&](auto c) {
					if (e.begin("list %d %d %d", i, j, k)) {
						auto va = a.make();
						auto vb = b.make();
						auto vc = c.make();
						whole(e, fmt(va, vb, vc), a.text + b.text + c.text);
						for (std::string sep : { "", ", " })
							deliver(join(sep, va, vb, vc), a.text + sep + b.text + sep + c.text, sep);
					}
					++k;
				});
				++j;
			});
			++i;
		});
	}
	template<class C>
	void ranges(Enum& e, const char* name)
	{
		using S = std::basic_string<C>;
		auto W = [](const std::string& s) { return S(s.begin(), s.end()); };
		for (size_t n = 0; n <= 4; ++n)
			if (e.begin("join a range of %zu, %s", n, name))
				for (std::string sep0 : { "", ",", " - " }) {
					const S sep = W(sep0);
					std::vector<int> v;
					std::list<double> d;
					S want, want2, wantd;
					for (size_t i = 0; i < n; ++i) {
						v.push_back(int(i * i * 37) - 3);
						d.push_back(double(i) + 0.5);
						if (i) want += sep, want2 += sep, wantd += sep;
						want += W(int_text(v.back(), 10, false, false));
						want2 += W(lay(int_text(v.back(), 16, true, true), 'c', 6, '*', false));
						wantd += W(lay(float_text(d.back(), 'e', 6, '.'), 'r', 10, ' ', false));
					}
					const std::string info = std::to_string(n) + " elements, separator '" + sep0 + "'";
					deliver(join(sep, v), want, info);
					deliver(join(sep, v, fmt(int()).base(16).h().u().c(6).f('*')), want2, info);
					deliver(join(sep, d, fmt<double>().t('e').r(10)), wantd, info);
					auto f = join(sep, v);
					for (char al : { 'l', 'r', 'c' })
						for (unsigned w : { 1u, 5u, 10u, 30u }) {
							set(f, al, w, U'.');
							deliver(f, lay(want, al, w, C('.'), true), info);
						}
					e.evals(1);
				}
	}
	void ranges_list(Enum& e)
	{
		if (e.begin("join lists"))
			for (std::string sep : { "", ",", " - " }) {
				const std::string info = sep;
				const std::string want = "1" + sep + "20" + sep + "-3", wantw = "1  " + sep + "20 " + sep + "-3 ";
				for (int k = 0; k < 3; ++k) {
					WANT(join(sep, { 1, 20, -3 }).str(), want, "list to text");
					WANT(join(sep, { 1, 20, -3 }, fmt(int()).l(3)).str(), wantw, "list with a format to text");
					std::ostringstream os;
					os << join(sep, { 1, 20, -3 }) << fmt(";", join(sep, { 1, 20, -3 }, fmt(int()).l(3)));
					WANT(os.str(), want + ";" + wantw, "list to stream");
					WANT(join(sep, { tstring_view("a"), tstring_view(""), tstring_view("bcd") }).str(), "a" + sep + sep + "bcd", "list of texts");
					WANT(join(sep, std::initializer_list<int>{}).str(), std::string(), "empty list");
				}
				std::vector<std::string> v{ "", "a", "bcd" };
				WANT(join(sep, std::vector<tstring_view>(v.begin(), v.end())).str(), sep + "a" + sep + "bcd", "vector of views");
				WANT(join(sep, std::vector<tstring_view>(v.begin(), v.end()), fmt<tstring_view>().l(2).f('~')).str(), "~~" + sep + "a~" + sep + "bc", "vector of views, format");
			}
	}

	// ---- nested text formats ----------------------------------------------------------------------
	void nested(Enum& e)
	{
		const std::string t = "abcde";
		for (char a1 : { 'l', 'r', 'c' })
			for (char a2 : { 'l', 'r', 'c' })
				if (e.begin("nested %c %c", a1, a2))
					for (unsigned w1 = 1; w1 <= 8; ++w1)
						for (unsigned w2 = 1; w2 <= 9; ++w2) {
							auto f = fmt(t);
							set(f, a1, w1, U'*');
							auto g = fmt(f);
							set(g, a2, w2, U'#');
							const std::string in = lay(t, a1, w1, '*', true), mid = lay(in, a2, w2, '#', true), info = lay_info(a1, w1, '*') + " in " + lay_info(a2, w2, '#');
							deliver(g, mid, info);
							deliver(fmt(fmt(g).c(7).f('-')).r(8).f('+'), lay(lay(mid, 'c', 7, '-', true), 'r', 8, '+', true), info);
							auto n = fmt(-12345).b(10);
							set(n, a1, w1, U'0');
							auto m = fmt(n);
							set(m, a2, w2, U'#');
							// another value, then another format inside
							WANT(g(std::string("xyz")).str(), lay(lay(std::string("xyz"), a1, w1, '*', true), a2, w2, '#', true), "another inner value");
							auto in2 = fmt(t);
							set(in2, a2, 3, U'!');
							deliver(g(in2), lay(lay(t, a2, 3, '!', true), a2, w2, '#', true), info + ", another inner format");
							deliver(m, lay(lay(std::string("-12345"), a1, w1, '0', false), a2, w2, '#', true), info);
							e.evals(1);
						}
		for (char al : { '-', 'l', 'r', 'c' })
			if (e.begin("layout of a part of a text %c", al)) {
				const std::string all = "0123456789";
				for (size_t n = 0; n <= all.size(); ++n)
					for (size_t from = 0; from <= n; ++from)
						for (size_t to = from; to <= n; ++to)
							for (unsigned w = 0; w <= 12; ++w) {
								std::string s = all.substr(0, n);
								tstring ts(s.data(), s.size());
								seq::width_format wf;
								if (al != '-') set(wf, al, w, U'*');
								seq::width_format::format(s, from, to, wf);
								seq::width_format::format(ts, from, to, wf);
								const std::string want = all.substr(0, from) + (al == '-' ? all.substr(from, to - from) : lay(all.substr(from, to - from), al, w, '*', true)) + all.substr(to, n - to);
								const std::string info = "characters " + std::to_string(from) + " to " + std::to_string(to) + " of " + std::to_string(n) + " " + lay_info(al, w, '*');
								WANT(s, want, "width_format::format(std::string)");
								WANT(std::string(ts.data(), ts.size()), want, "width_format::format(tstring)");
								e.evals(1);
							}
			}
		if (e.begin("rep"))
			for (int n = 1; n < 5; ++n) {
				deliver(seq::rep('-', n), std::string(size_t(n), '-'), "rep");
			}
	}

	// ---- histories of one formatting object ---------------------------------------------------------
	struct Layout
	{
		char al = 0;
		unsigned w = 0;
		char fill = ' ';
		std::string operator()(const std::string& s, bool trunc) const { return lay(s, al, w, fill, trunc); }
	};
	struct Model
	{
		int i = 0;
		bool hex = false;
		Layout il;
		std::string t1 = " + ";
		Layout l1;
		double d = 0;
		char dt = 'g';
		Layout dl;
		std::string t3 = " = ";
		Layout l3;
		std::string t4;
		Layout l4{ 'c', 6, ' ' };
		Layout whole;
		std::string text(const char* sep = nullptr) const
		{
			const std::string s = sep ? sep : "";
			return whole(il(int_text(i, hex ? 16 : 10, hex && i, hex), false) + s + l1(t1, true) + s + dl(float_text(d, dt, 6, '.'), false) + s + l3(t3, true) + s + l4(t4, true), true);
		}
	};
	constexpr int NOPS = 18;
	template<class F>
	std::string apply(F& f, Model& m, int op)
	{
		using seq::null;
		using seq::pos;
		switch (op) {
			case 0: f(12, null, 2.5, null, "abc"), m.i = 12, m.d = 2.5, m.t4 = "abc"; return "f(12, null, 2.5, null, \"abc\")";
			case 1: f(null, null, null, null, "abcdefgh"), m.t4 = "abcdefgh"; return "f(null.., \"abcdefgh\")";
			case 2: f(pos<0, 2>(), -3, 0.5), m.i = -3, m.d = 0.5; return "f(pos<0,2>(), -3, 0.5)";
			case 3: f(pos<4, 0>(), "xy", 99), m.i = 99, m.t4 = "xy"; return "f(pos<4,0>(), \"xy\", 99)";
			case 4: f.template set<0>(fmt<int>().base(16).h().u()), m.i = 0, m.hex = true, m.il = Layout(); return "f.set<0>(fmt<int>().base(16).h().u())";
			case 5: f.template get<2>().format('e'), m.dt = 'e'; return "f.get<2>().format('e')";
			case 6: f.reset(), m.i = 0, m.d = 0, m.t1 = m.t3 = m.t4 = ""; return "f.reset()";
			case 7:
				f.reset('#'), m.i = 0, m.d = 0, m.t1 = m.t3 = m.t4 = "";
				m.il.fill = m.l1.fill = m.dl.fill = m.l3.fill = m.l4.fill = '#';
				return "f.reset('#')";
			case 8: f.c(25).f('.'), m.whole = Layout{ 'c', 25, '.' }; return "f.c(25).f('.')";
			case 9: f.r(9), m.whole.al = 'r', m.whole.w = 9; return "f.r(9)";
			case 10: f.no_align(), m.whole = Layout(); return "f.no_align()";
			case 11: f.template set<1>(" - "), f.template set<0>(7), m.t1 = " - ", m.i = 7; return "f.set<1>(\" - \"); f.set<0>(7)";
			case 12: f.template get<0>().l(5).f('_'), m.il = Layout{ 'l', 5, '_' }; return "f.get<0>().l(5).f('_')";
			case 13: f.template get<1>().r(5), m.l1.al = 'r', m.l1.w = 5; return "f.get<1>().r(5)";
			case 14: f(pos<4>(), seq::fill('-')), m.t4 = "", m.l4.fill = '-'; return "f(pos<4>(), fill('-'))";
			case 15: // the items have the same types: they are replaced together with their options
			{
				const auto src = fmt(5, " * ", fmt(1.5, 'f').r(6), " == ", fmt("q").l(3));
				f(src);
			}
				m.i = 5, m.hex = false, m.il = Layout(), m.t1 = " * ", m.l1 = Layout(), m.d = 1.5, m.dt = 'f', m.dl = Layout{ 'r', 6, ' ' }, m.t3 = " == ", m.l3 = Layout(), m.t4 = "q", m.l4 = Layout{ 'l', 3, ' ' };
				return "f(fmt(5, ...))";
			case 16: {
				const auto src = fmt(3, -4);
				f(pos<2, 0>(), src);
			}
				m.d = 3, m.i = -4, m.hex = false, m.il = Layout(); return "f(pos<2,0>(), fmt(3, -4))";
			case 17: f(-12.0, "T", 7, std::string(" is "), tstring("tiny")), m.i = -12, m.t1 = "T", m.d = 7, m.t3 = " is ", m.t4 = "tiny"; return "";
		}
		return "";
	}
	template<class F>
	void history(Enum& e, const char* name, F start, const char* sep)
	{
		for (int o1 = 0; o1 < NOPS - 1; ++o1)
			for (int o2 = 0; o2 < NOPS - 1; ++o2)
				if (e.begin("%s %d %d", name, o1, o2)) {
					uint64_t n = 0;
					for (int o3 = -1; o3 < NOPS - 1; ++o3)
						for (int o4 = -1; o4 < (e.thorough() && o3 >= 0 ? NOPS - 1 : 0); ++o4) {
							F f = start;
							Model m;
							std::string info = apply(f, m, o1) + "; ";
							info += apply(f, m, o2);
							F g = f;
							Model mg = m;
							if (o3 >= 0) info += "; ", info += apply(f, m, o3);
							if (o4 >= 0) info += "; ", info += apply(f, m, o4);
							if (o4 < 0) deliver(f, m.text(sep), info);
							else WANT(f.template str<std::string>(), m.text(sep), "history");
							WANT(g.template str<std::string>(), mg.text(sep), "copy made before the last operation");
							++n;
						}
					e.evals(n);
				}
	}

	// ---- slots and nested replacement ----------------------------------------------------------------
	void slots(Enum& e)
	{
		const char* ts[] = { "", "x", "Tiger", "A. melanoleuca" };
		if (e.begin("slots"))
			for (int v : { 0, 7, -1234 })
				for (const char* t : ts)
					for (int twice = 0; twice < 2; ++twice) {
						const std::string i = std::to_string(v), s = t, info = i + " " + s;
						auto f = fmt("a", seq::_d().r(4), "b", seq::_str().c(5).f('*'), "c");
						if (twice) f(99, "old");
						deliver(f(v, t), "a" + lay(i, 'r', 4, ' ', false) + "b" + lay(s, 'c', 5, '*', true) + "c", info);
						auto g = join("|", seq::_str().l(4), 5, seq::_fmt<int>().l(3), "");
						if (twice) g("old", 1);
						deliver(g(t, v), lay(s, 'l', 4, ' ', true) + "|5|" + lay(i, 'l', 3, ' ', false) + "|", info);
						auto h = fmt(seq::_d(), "ms");
						deliver(h(v), i + "ms", info);
						auto k = fmt(seq::_g().c(8), " <- ", seq::_x(), seq::_ch());
						deliver(k(v, unsigned(v), 'z'), lay(float_text(v, 'g', 6, '.'), 'c', 8, ' ', false) + " <- " + int_text(size_t(unsigned(v)), 16, false, false) + "z", info);
						e.evals(4);
					}
		if (e.begin("positions in nested formats"))
			for (const char* a : ts)
				for (const char* b : ts)
					for (const char* c : ts) {
						const std::string info = std::string(a) + "," + b + "," + c;
						using seq::pos;
						auto f = fmt(pos<1, 3>(), "We have: ", fmt(pos<0, 2>(), "", "/", "").c(14).f('.'), "\nand: ", fmt(pos<0, 2>(), "", "/", "").r(10));
						const std::string want = "We have: " + lay(std::string(a) + "/" + b, 'c', 14, '.', true) + "\nand: " + lay(std::string(c) + "/" + a, 'r', 10, ' ', true);
						for (int twice = 0; twice < 2; ++twice) {
							deliver(f(fmt(a, b), fmt(c, a)), want, info);
							deliver(fmt("[", f, "]"), "[" + want + "]", info);
						}
						f(pos<3>(), fmt(b, c));
						deliver(f, "We have: " + lay(std::string(a) + "/" + b, 'c', 14, '.', true) + "\nand: " + lay(std::string(b) + "/" + c, 'r', 10, ' ', true), info);
						e.evals(5);
					}
	}

	// ---- split and replace ---------------------------------------------------------------------------
	template<class C, class Fn>
	void each_text(const std::string& letters, size_t maxlen, Fn fn)
	{
		std::vector<size_t> idx;
		std::basic_string<C> s;
		for (;;) {
			fn(s);
			size_t i = 0;
			while (i < idx.size() && ++idx[i] == letters.size()) idx[i++] = 0;
			if (i == idx.size()) {
				if (idx.size() == maxlen) return;
				idx.assign(idx.size() + 1, 0);
			}
			s.resize(idx.size());
			for (size_t k = 0; k < idx.size(); ++k) s[k] = C((unsigned char)letters[idx[k]]);
		}
	}
	// match: returns the length of the separator that begins at s[i], or 0
	template<class S, class M>
	std::vector<S> cut(const S& s, M match)
	{
		std::vector<S> r(1);
		for (size_t i = 0; i < s.size();)
			if (size_t n = match(s, i)) r.emplace_back(), i += n;
			else r.back() += s[i++];
		return r;
	}
	template<class S>
	std::vector<S> filter(std::vector<S> v, int skip)
	{
		std::vector<S> r;
		for (auto& s : v) {
			bool drop = skip > 0;
			for (auto c : s)
				if (skip == 1 || (skip == 2 && c != ' ') || (skip == 3 && c != ' ' && !(c >= 9 && c <= 13))) drop = false;
			if (!drop) r.push_back(s);
		}
		return r;
	}
	template<class S, class R>
	void same_parts(const S& src, R range, const std::vector<S>& want, const char* how)
	{
		std::vector<S> got;
		for (auto it = range.begin(); it != range.end() && got.size() <= src.size() + 2; ++it) got.push_back(S((*it).data(), it->size()));
		std::string info = show(src) + ", " + how, g, w;
		for (auto& x : got) g += "[" + show(x) + "]";
		for (auto& x : want) w += "[" + show(x) + "]";
		CHECK(got == want, "split %s: %s instead of %s", info.c_str(), g.c_str(), w.c_str());
		auto it = range.begin();
		for (size_t i = 0; i < want.size(); ++i) {
			auto old = it++;
			CHECK(S(old->data(), old->size()) == want[i] && old != it && (it == range.end()) == (i + 1 == want.size()), "split %s: post-increment", info.c_str());
		}
	}
	template<class S, class M, class F>
	void split_by(const S& s, M matcher, F match, const char* how)
	{
		using C = typename S::value_type;
		auto parts = cut(s, match);
		same_parts(s, seq::split(s, matcher), parts, how);
		same_parts(s, seq::split(s, matcher, seq::no_skip()), parts, how);
		same_parts(s, seq::split(s, matcher, seq::skip_empty()), filter(parts, 1), how);
		same_parts(s, seq::split(s, matcher, seq::skip_whitespace()), filter(parts, 2), how);
		same_parts(s, seq::split(s, matcher, seq::skip_space()), filter(parts, 3), how);
		same_parts(s, seq::split(s.c_str(), matcher), parts, how);
		same_parts(s, seq::split(std::basic_string_view<C>(s), matcher), parts, how);
		seq::basic_tstring_view<C> view(s.data(), s.size());
		same_parts(s, seq::split(view, matcher), parts, how);
	}
	template<class C>
	void splits(Enum& e, const char* name, size_t maxlen)
	{
		using S = std::basic_string<C>;
		auto W = [](const char* s) { return S(s, s + strlen(s)); };
		for (const char* sep : { ",", ",,", ", ", ",a,", " " })
			if (e.begin("%s split by string '%s'", name, sep)) {
				const S m = W(sep);
				uint64_t n = 0;
				each_text<C>("a, \t", maxlen, [&](const S& s) {
					split_by(s, seq::by_string(m), [&](const S& x, size_t i) { return x.compare(i, m.size(), m) == 0 ? m.size() : 0; }, sep);
					// the inverse
					S back = join(m, seq::split(s, seq::by_string(m)));
					CHECK(back == s, "join(split('%s', '%s')): '%s'", show(s).c_str(), sep, show(back).c_str());
					for (const char* nw : { "", "-", ",", "<>", ",a" }) {
						S want, w = W(nw);
						for (size_t i = 0; i < s.size();)
							if (s.compare(i, m.size(), m) == 0) want += w, i += m.size();
							else want += s[i++];
						S got = seq::replace<S>(s, m, w);
						CHECK(got == want, "replace('%s', '%s', '%s'): '%s' instead of '%s'", show(s).c_str(), sep, nw, show(got).c_str(), show(want).c_str());
					}
					n += 14;
				});
				e.evals(n);
			}
		if (e.begin("%s split by characters", name)) {
			uint64_t n = 0;
			each_text<C>("a, \t", maxlen, [&](const S& s) {
				const S set = W(", "), only = W("a\t");
				split_by(s, seq::by_char(C(',')), [&](const S& x, size_t i) { return size_t(x[i] == ','); }, "by_char");
				split_by(s, seq::by_any_char(set), [&](const S& x, size_t i) { return size_t(x[i] == ',' || x[i] == ' '); }, "by_any_char");
				split_by(s, seq::by_not_any_char(only), [&](const S& x, size_t i) { return size_t(x[i] == ',' || x[i] == ' '); }, "by_not_any_char");
				split_by(s, seq::by_word(), [&](const S& x, size_t i) { return size_t(x[i] == ' ' || x[i] == '\t'); }, "by_word");
				std::vector<S> all;
				for (C c : s) all.push_back(S(1, c));
				same_parts(s, seq::split(s, seq::by_string(S())), all, "by an empty string");
				n += 33;
			});
			e.evals(n);
		}
	}
}

int main(int argc, char** argv)
{
	using namespace mc;
#if PART == 1
	add_enum("signed integers", [](Enum& e) {
		ints<int>(e, "int");
		ints<long long>(e, "long long");
		ints<signed char>(e, "signed char");
		ints<short>(e, "short");
	});
	add_enum("characters", [](Enum& e) {
		chars<char>(e, "char");
		chars<int>(e, "int");
	});
#elif PART == 2
	add_enum("unsigned integers", [](Enum& e) {
		ints<unsigned>(e, "unsigned");
		ints<unsigned long>(e, "unsigned long");
		ints<unsigned char>(e, "unsigned char");
		ints<bool>(e, "bool");
		shortcuts<int>(e, "int");
		shortcuts<unsigned long>(e, "unsigned long");
	});
#elif PART == 3
	add_enum("floating point", [](Enum& e) {
		floats<double>(e, "double");
		floats<float>(e, "float");
	});
	add_enum("nested", [](Enum& e) { nested(e); });
#elif PART == 4
	add_enum("texts", [](Enum& e) {
		texts<char>(e, "const char*", [](const std::string& s, auto fn) { fn(fmt(s.c_str())); });
		texts<char>(e, "std::string", [](const std::string& s, auto fn) { fn(fmt(s)); });
		texts<char>(e, "tstring", [](const std::string& s, auto fn) {
			tstring t(s.data(), s.size());
			fn(fmt(t));
			fn(fmt(s.data(), s.size()));
		});
		texts<char>(e, "string_view, format first", [](const std::string& s, auto fn) {
			auto f = fmt<std::string>();
			fn(f(std::string_view(s)));
			fn(seq::str()(s));
		});
		texts<wchar_t>(e, "wide", [](const std::wstring& s, auto fn) { fn(fmt(s)); });
	});
	add_enum("objects", [](Enum& e) {
		objects<Point>(e, "streamable", { { { 1, 2 }, "(1,2)" }, { { -100, 7 }, "(-100,7)" } });
		objects<Nested>(e, "streamable with a list of formats", { { { 1, 2 }, "[1|  2]" }, { { -100, 7 }, "[-100|  7]" } });
		objects<Nested1>(e, "streamable with formats", { { { 1 }, "<1   1>" }, { { -100 }, "<-100-100>" } });
		objects<Custom>(e, "specialised", { { { 1, 2 }, "{1:2}" }, { { -100, 7 }, "{-100:7}" } });
		if (e.begin("numeric options of a specialised type"))
			for (int v : { 10, 255 }) {
				const std::string info = "hex", want = "{" + int_text(v, 16, true, true) + ":" + int_text(1, 16, true, true) + "}";
				Custom c{ v, 1 };
				deliver(fmt(c).base(16).h().u().c(14).f('*'), lay(want, 'c', 14, '*', true), info);
			}
	});
#elif PART == 5
	add_enum("two arguments", [](Enum& e) { pairs(e); });
#elif PART == 6
	add_enum("three arguments", [](Enum& e) { triples(e); });
#elif PART == 7
	add_enum("join", [](Enum& e) {
		ranges<char>(e, "char");
		ranges<wchar_t>(e, "wchar_t");
		ranges_list(e);
	});
	add_enum("histories", [](Enum& e) {
		history(e, "fmt", fmt(int(), " + ", fmt<double>().format('g'), " = ", fmt<tstring_view>().c(6)), nullptr);
		history(e, "join", join(", ", int(), " + ", fmt<double>().format('g'), " = ", fmt<tstring_view>().c(6)), ", ");
	});
	add_enum("slots", [](Enum& e) { slots(e); });
#elif PART == 8
	add_enum("split", [](Enum& e) {
		splits<char>(e, "char", e.thorough() ? 7 : 5);
		splits<wchar_t>(e, "wchar_t", e.thorough() ? 5 : 4);
	});
#endif
	return main_(argc, argv);
}
