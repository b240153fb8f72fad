// C22: integer text conversion is exact in both directions.
#define MC_MAIN
#include "mc.hpp"
#include <seq/charconv.hpp>
#include <string>
#include <sstream>
#include <memory>
#include <limits>
#include <type_traits>
#include <stdio.h>

namespace
{
	using mc::Enum;
	using u128 = unsigned __int128;
	using Digits = std::basic_string<char>;

	template<class T>
	const char* tname()
	{
		if (std::is_same<T, char>::value) return "char";
		if (std::is_same<T, signed char>::value) return "schar";
		if (std::is_same<T, unsigned char>::value) return "uchar";
		if (std::is_same<T, short>::value) return "short";
		if (std::is_same<T, unsigned short>::value) return "ushort";
		if (std::is_same<T, int>::value) return "int";
		if (std::is_same<T, unsigned>::value) return "uint";
		if (std::is_same<T, long>::value) return "long";
		if (std::is_same<T, unsigned long>::value) return "ulong";
		if (std::is_same<T, long long>::value) return "llong";
		if (std::is_same<T, unsigned long long>::value) return "ullong";
		if (std::is_same<T, wchar_t>::value) return "wchar_t";
		if (std::is_same<T, char16_t>::value) return "char16_t";
		if (std::is_same<T, char32_t>::value) return "char32_t";
		return "?";
	}

	// ---- specification -------------------------------------------------------------------------
	// digits of |v|, most significant first
	Digits digits_of(u128 v, unsigned base, bool upper)
	{
		Digits r;
		do {
			unsigned d = unsigned(v % base);
			r.insert(r.begin(), char(d < 10 ? '0' + d : (upper ? 'A' : 'a') + (d - 10)));
			v /= base;
		} while (v);
		return r;
	}
	template<class T>
	u128 magnitude(T v)
	{
		return v < 0 ? u128(0) - u128(__int128(v)) : u128(v);
	}
	template<class T>
	Digits printed(T v, unsigned base, const seq::integral_chars_format& f)
	{
		Digits d = digits_of(magnitude(v), base, f.upper_case);
		while (d.size() < f.integral_min_width)
			d.insert(d.begin(), '0');
		if (base == 16 && f.hex_prefix)
			d = "0x" + d;
		if (v < 0)
			d = "-" + d;
		return d;
	}

	struct Parsed
	{
		bool ok;
		bool hexnodigit; // "0x" not followed by a digit: unspecified, an error or the value 0 ending before the 'x'
		size_t end;
		u128 mag;
		bool neg;
	};
	template<class Char>
	bool blank(Char c)
	{
		return c == Char(' ') || c == Char('\t') || c == Char('\n') || c == Char('\v') || c == Char('\f') || c == Char('\r');
	}
	template<class Char>
	unsigned digit(Char c)
	{
		if (c >= Char('0') && c <= Char('9')) return unsigned(c - Char('0'));
		if (c >= Char('a') && c <= Char('z')) return unsigned(c - Char('a')) + 10;
		if (c >= Char('A') && c <= Char('Z')) return unsigned(c - Char('A')) + 10;
		return 99;
	}
	template<class Char>
	Parsed parse(const Char* s, size_t n, unsigned base, bool is_signed)
	{
		Parsed r{ false, false, 0, 0, false };
		size_t i = 0;
		while (i < n && blank(s[i]))
			++i;
		if (i < n && (s[i] == Char('+') || s[i] == Char('-'))) {
			r.neg = s[i] == Char('-');
			if (r.neg && !is_signed)
				return r;
			++i;
		}
		if (base == 16 && i + 1 < n && s[i] == Char('0') && (s[i + 1] == Char('x') || s[i + 1] == Char('X'))) {
			if (i + 2 < n && digit(s[i + 2]) < 16)
				i += 2;
			else {
				r.hexnodigit = true;
				r.end = i + 1;
				return r;
			}
		}
		size_t st = i;
		while (i < n && digit(s[i]) < base) {
			r.mag = r.mag * base + digit(s[i]); // modulo 2^128
			++i;
		}
		r.ok = i > st;
		r.end = i;
		return r;
	}
	template<class T>
	T value_of(const Parsed& p)
	{
		u128 v = p.neg ? u128(0) - p.mag : p.mag;
		return T(typename std::make_unsigned<T>::type(v)); // modulo 2^N
	}

	// ---- writing -------------------------------------------------------------------------------
	template<class Char>
	std::string narrow(const Char* b, const Char* e)
	{
		std::string r;
		for (; b < e; ++b)
			r += (*b > Char(31) && *b < Char(127)) ? char(*b) : '?';
		return r;
	}
	template<class Char, class T>
	void write_one(T v, unsigned base, const seq::integral_chars_format& f, bool every_length, uint64_t& n)
	{
		Digits exp = printed(v, base, f);
		Digits alt = exp; // a null value may be printed without its prefix
		if (v == 0 && base == 16 && f.hex_prefix)
			alt = exp.substr(2);
		size_t need = exp.size();
		// buffer lengths: everything up to the length, or the ones around it
		for (size_t len = every_length ? 0 : (need ? need - 1 : 0); len <= need + 1; ++len, ++n) {
			Char store[340];
			const Char guard = Char('#');
			for (size_t i = 0; i < need + 1 + 16; ++i)
				store[i] = guard;
			Char* b = store + 8;
			auto r = seq::to_chars(b, b + len, v, int(base), f);
			bool ok = r.ec == std::errc();
			const Digits& e = (ok && size_t(r.ptr - b) == alt.size()) ? alt : exp;
			if (len >= exp.size() || (ok && len >= alt.size())) {
				CHECK(ok && r.ptr == b + e.size(), "to_chars(%s %lld, base %u, width %u%s%s) in %zu characters: error %d, %td characters, expected %s", tname<T>(), (long long)v, base, f.integral_min_width,
				      f.hex_prefix ? " prefix" : "", f.upper_case ? " upper" : "", len, int(r.ec), r.ptr - b, exp.c_str());
				for (size_t i = 0; i < e.size(); ++i)
					CHECK(b[i] == Char(e[i]), "to_chars(%s %lld, base %u, width %u) wrote %s expected %s", tname<T>(), (long long)v, base, f.integral_min_width, narrow(b, r.ptr).c_str(), e.c_str());
			}
			else
				CHECK(!ok && r.ec == std::errc::value_too_large && r.ptr == b + len, "to_chars(%s %lld, base %u, width %u) in %zu characters does not report value_too_large: error %d at %td", tname<T>(), (long long)v,
				      base, f.integral_min_width, len, int(r.ec), r.ptr - b);
			for (size_t i = 0; i < 8; ++i)
				CHECK(store[i] == guard && (len + i >= need + 9 || b[len + i] == guard), "to_chars(%s %lld, base %u, width %u) wrote outside of its %zu characters", tname<T>(), (long long)v, base, f.integral_min_width, len);
		}
		// reading back
		std::unique_ptr<Char[]> t(new Char[need]);
		for (size_t i = 0; i < need; ++i)
			t[i] = Char(exp[i]);
		T back = T(77);
		auto r = seq::from_chars(static_cast<const Char*>(t.get()), static_cast<const Char*>(t.get() + need), back, int(base));
		CHECK(r.ec == std::errc() && r.ptr == t.get() + need && back == v, "reading back %s in base %u as %s: error %d after %td characters, value %lld", exp.c_str(), base, tname<T>(), int(r.ec), r.ptr - t.get(), (long long)back);
	}

	template<class T>
	std::vector<T> boundary(unsigned base)
	{
		std::vector<T> r;
		auto add = [&](u128 m) {
			for (int d = -1; d <= 1; ++d) {
				u128 x = m + u128(__int128(d));
				if (x <= u128(std::numeric_limits<T>::max()))
					r.push_back(T(x));
				if (std::is_signed<T>::value && x <= u128(std::numeric_limits<T>::max()) + 1)
					r.push_back(T(u128(0) - x));
			}
		};
		for (u128 p = 1; p <= u128(std::numeric_limits<T>::max()); p *= base) {
			add(p);
			add(p * (base / 2 + 1));
		}
		for (unsigned s = 0; s < sizeof(T) * 8; ++s)
			add(u128(1) << s);
		add(u128(std::numeric_limits<T>::max()));
		r.push_back(0);
		r.push_back(std::numeric_limits<T>::min());
		r.push_back(std::numeric_limits<T>::max());
		std::sort(r.begin(), r.end());
		r.erase(std::unique(r.begin(), r.end()), r.end());
		return r;
	}

	template<class Char, class T>
	void writes(Enum& e)
	{
		for (unsigned base = 2; base <= 36; ++base) {
			if (!e.begin("%s to %s base %u", tname<T>(), tname<Char>(), base))
				continue;
			uint64_t n = 0;
			auto vals = boundary<T>(base);
			for (T v : vals) {
				write_one<Char>(v, base, seq::integral_chars_format(), true, n);
				for (unsigned w : std::vector<unsigned>{ 0, 1, 2, 5, 19, 20, 21, 62, 63, 64, 65, 66, 67, 68, 255 }) {
					if (!e.thorough() && w > 21 && (v > 1000) && (v & 1))
						continue;
					for (unsigned o = 0; o < 4; ++o)
						if (base == 10 || base == 16 || base == 36 || base == 2 || (o == (base & 3)))
							write_one<Char>(v, base, seq::integral_chars_format(static_cast<unsigned char>(w), o & 1, o & 2), false, n);
				}
			}
			// every value of the narrow types
			if (sizeof(T) == 1 || (sizeof(T) == 2 && (e.thorough() || base == 10 || base == 16)))
				for (long v = long(std::numeric_limits<T>::min()); v <= long(std::numeric_limits<T>::max()); ++v)
					write_one<Char>(T(v), base, seq::integral_chars_format(), false, n);
			e.evals(n);
		}
	}
	template<class Char>
	void writes_all(Enum& e)
	{
		writes<Char, char>(e);
		writes<Char, signed char>(e);
		writes<Char, unsigned char>(e);
		writes<Char, short>(e);
		writes<Char, unsigned short>(e);
		writes<Char, int>(e);
		writes<Char, unsigned>(e);
		writes<Char, long>(e);
		writes<Char, unsigned long>(e);
		writes<Char, long long>(e);
		writes<Char, unsigned long long>(e);
	}

	// ---- reading -------------------------------------------------------------------------------
	template<class T, class Char>
	void read_one(const Char* s, size_t n, unsigned base)
	{
		Parsed p = parse(s, n, base, std::is_signed<T>::value);
		T v = T(85);
		auto r = seq::from_chars(s, s + n, v, int(base));
		auto msg = [&] { return narrow(s, s + n); };
		if (p.ok)
			CHECK(r.ec == std::errc() && r.ptr == s + p.end && v == value_of<T>(p), "from_chars(\"%s\" (%zu characters), %s, base %u): error %d after %td characters, value %lld, expected %lld after %zu", msg().c_str(), n,
			      tname<T>(), base, int(r.ec), r.ptr - s, (long long)v, (long long)value_of<T>(p), p.end);
		else if (p.hexnodigit && r.ec == std::errc())
			CHECK(r.ptr == s + p.end && v == 0, "from_chars(\"%s\" (%zu characters), %s, base %u): %td characters, value %lld", msg().c_str(), n, tname<T>(), base, r.ptr - s, (long long)v);
		else
			CHECK(r.ec == std::errc::invalid_argument && r.ptr == s && v == 0, "from_chars(\"%s\" (%zu characters), %s, base %u): no error, or not at the start: error %d at %td, value %lld", msg().c_str(), n, tname<T>(),
			      base, int(r.ec), r.ptr - s, (long long)v);
	}

	template<class Char>
	void read_types(const std::basic_string<Char>& text, uint64_t& n)
	{
		std::unique_ptr<Char[]> t(new Char[text.size()]); // exactly sized
		std::copy(text.begin(), text.end(), t.get());
		static const unsigned bases[] = { 10, 16, 2, 8, 36, 11 };
		for (unsigned b : bases) {
			read_one<int>(t.get(), text.size(), b);
			read_one<unsigned long long>(t.get(), text.size(), b);
			if (b == 10 || b == 16) {
				read_one<signed char>(t.get(), text.size(), b);
				read_one<unsigned short>(t.get(), text.size(), b);
				read_one<long>(t.get(), text.size(), b);
			}
		}
		n += 18;
	}

	template<class Char>
	std::vector<Char> alphabet()
	{
		std::vector<Char> a;
		for (char c : { '0', '1', '7', '9', 'a', 'F', 'g', 'Z', 'x', 'X', '+', '-', ' ', '\n', '/', ':', '@', '[', '`', '{', '\0', '.' })
			a.push_back(Char(c));
		a.push_back(Char(-1)); // same representation as EOF
		if (sizeof(Char) > 1) {
			a.push_back(Char(0x100 + '5'));
			a.push_back(Char(0x2078)); // 'x' in its low byte
		}
		return a;
	}
	template<class Char>
	void short_texts(Enum& e, size_t len)
	{
		auto a = alphabet<Char>();
		for (size_t i = 0; i < a.size(); ++i)
			for (size_t j = 0; j < a.size(); ++j) {
				if (!e.begin("every %s text of %zu characters or less beginning with %zu %zu", tname<Char>(), len, i, j))
					continue;
				uint64_t n = 0;
				std::basic_string<Char> t;
				std::function<void()> rec = [&] {
					read_types(t, n);
					if (t.size() < len)
						for (Char c : a) {
							t.push_back(c);
							rec();
							t.pop_back();
						}
				};
				if (j == 0) {
					if (i == 0)
						read_types(t, n);
					t.assign(1, a[i]);
					read_types(t, n);
				}
				t = std::basic_string<Char>{ a[i], a[j] };
				rec();
				e.evals(n);
			}
	}

	// texts of many digits: leading zeros, limits and overflows
	template<class Char, class T>
	void long_texts(Enum& e)
	{
		for (unsigned base = 2; base <= 36; ++base) {
			if (!e.begin("long texts of %s read as %s base %u", tname<Char>(), tname<T>(), base))
				continue;
			uint64_t n = 0;
			std::vector<Digits> nums;
			u128 max = u128(std::numeric_limits<typename std::make_unsigned<T>::type>::max());
			for (u128 m : { max, max / 2, max / 2 + 1, max + 1, max + 2, max * 2, max * base, (max + 1) * base + 1, max - 1 })
				for (int up = 0; up < 2; ++up)
					nums.push_back(digits_of(m, base, up));
			for (size_t z : { 0, 1, 2, 30, 70 })
				for (auto& d : nums)
					for (const char* pre : { "", "-", "+", " ", "\t\n\v\f\r -" })
						for (const char* hex : { "", "0x", "0X" })
							for (const char* post : { "", " ", "x", "~", "-1" }) {
								std::string t = pre;
								t += hex;
								t += std::string(z, '0') + d + post;
								std::unique_ptr<Char[]> w(new Char[t.size()]);
								for (size_t i = 0; i < t.size(); ++i)
									w[i] = Char(t[i]);
								read_one<T>(w.get(), t.size(), base);
								++n;
							}
			e.evals(n);
		}
	}

	// ---- streams -------------------------------------------------------------------------------
	struct Ref // a text and a position
	{
		std::string t;
		size_t pos = 0;
	};
	// read integers, words and lines from a stream until its end, against the specification
	template<class Stream>
	void drain(Stream& st, const std::string& text, int what, const char* name)
	{
		size_t pos = 0;
		for (int k = 0; k < 12; ++k) {
			CHECK(size_t(st.tell()) == pos, "%s: position %zu instead of %zu in \"%s\" (operation %d of kind %d)", name, size_t(st.tell()), pos, narrow(text.data(), text.data() + text.size()).c_str(), k, what);
			size_t b = pos;
			while (b < text.size() && blank(text[b]))
				++b;
			int w = what == 3 ? k % 3 : what;
			if (w == 0) {
				int v = 85;
				seq::from_stream(st, v);
				Parsed p = parse(text.data() + pos, text.size() - pos, 10, true);
				CHECK(bool(st) == p.ok && (p.ok ? v == value_of<int>(p) : v == 0), "%s: integer %d of \"%s\": state %d value %d expected %s %d", name, k, narrow(text.data(), text.data() + text.size()).c_str(), int(st.state()), v,
				      p.ok ? "ok" : "an error", value_of<int>(p));
				if (b == text.size()) {
					CHECK(st.state() == seq::EndOfFile, "%s: no end of file when reading an integer", name);
					return;
				}
				if (!p.ok) {
					CHECK(size_t(st.tell()) == pos, "%s: a failed reading moves from %zu to %zu in \"%s\"", name, pos, size_t(st.tell()), narrow(text.data(), text.data() + text.size()).c_str());
					if (what == 0)
						return;
					continue;
				}
				pos += p.end;
			}
			else {
				std::string s = "old";
				size_t end = b;
				if (w == 1) {
					seq::from_stream(st, s);
					while (end < text.size() && !blank(text[end]))
						++end;
				}
				else {
					seq::read_line_from_stream(st, s);
					while (end < text.size() && text[end] != '\n' && text[end] != '\r')
						++end;
				}
				CHECK(s == text.substr(b, end - b), "%s: %s %d of \"%s\" is \"%s\" instead of \"%s\"", name, w == 1 ? "word" : "line", k, narrow(text.data(), text.data() + text.size()).c_str(), narrow(s.data(), s.data() + s.size()).c_str(),
				      narrow(text.data() + b, text.data() + end).c_str());
				if (b == text.size()) {
					CHECK(!st && st.state() == seq::EndOfFile, "%s: no end of file when reading a %s", name, w == 1 ? "word" : "line");
					return;
				}
				CHECK(bool(st), "%s: reading a %s sets the state %d", name, w == 1 ? "word" : "line", int(st.state()));
				pos = end;
			}
		}
	}
	// histories of the low level operations
	template<class Stream>
	void history(Stream& st, const std::string& text, const std::vector<int>& ops, const char* name)
	{
		size_t pos = 0, N = text.size();
		std::string h;
		for (int op : ops) {
			h += char('a' + op);
			if (op == 0) { // getc
				st.set_state(seq::Ok);
				int c = int(st.getc());
				if (pos < N) {
					CHECK(char(c) == text[pos] && st, "%s history %s: getc at %zu returns %d state %d", name, h.c_str(), pos, c, int(st.state()));
					++pos;
				}
				else
					CHECK(char(c) == char(EOF) && st.state() == seq::EndOfFile, "%s history %s: getc at the end returns %d, state %d", name, h.c_str(), c, int(st.state()));
			}
			else if (op == 1) {
				if (pos) {
					st.back();
					--pos;
				}
			}
			else if (op < 5) { // read 1..3
				char b[4] = { '#', '#', '#', '#' };
				size_t k = size_t(op) - 1, m = std::min(k, N - pos);
				st.set_state(seq::Ok);
				size_t r = size_t(st.read(b, k));
				CHECK(r == m && std::string(b, m) == text.substr(pos, m) && b[m] == '#', "%s history %s: read(%zu) at %zu returns %zu", name, h.c_str(), k, pos, r);
				CHECK(bool(st) == (k == m), "%s history %s: state %d after reading %zu of %zu", name, h.c_str(), int(st.state()), m, k);
				pos += m;
			}
			else { // seek
				size_t p = std::min(size_t(op - 5), N);
				CHECK(size_t(st.seek(p)) == p, "%s history %s: seek(%zu)", name, h.c_str(), p);
				pos = p;
			}
			CHECK(size_t(st.tell()) == pos, "%s history %s: position %zu instead of %zu", name, h.c_str(), size_t(st.tell()), pos);
		}
		for (; pos < N; ++pos) {
			int c = int(st.getc());
			CHECK(char(c) == text[pos], "%s history %s: then getc at %zu returns %d", name, h.c_str(), pos, c);
		}
	}
	struct MemFile
	{
		FILE* f;
		std::string store;
		explicit MemFile(const std::string& s)
		  : store(s)
		{
			f = store.empty() ? fopen("/dev/null", "rb") : fmemopen(&store[0], store.size(), "rb");
		}
		~MemFile() { fclose(f); }
	};
	template<unsigned B, class F>
	void std_and_file(const std::string& text, F f)
	{
		char nm[64];
		{
			snprintf(nm, sizeof nm, "std_input_stream<%u>", B);
			std::istringstream iss(text);
			seq::std_input_stream<char, B> st(iss);
			f(st, nm);
			size_t at = st.tell();
			st.close();
			CHECK(size_t(iss.tellg()) == at, "%s: the standard stream is left at %zd instead of %zu", nm, ssize_t(iss.tellg()), at);
		}
		{
			snprintf(nm, sizeof nm, "file_input_stream<%u>", B);
			MemFile mf(text);
			seq::file_input_stream<B> st(mf.f, false);
			f(st, nm);
			size_t at = st.tell();
			st.close();
			if (!text.empty())
				CHECK(size_t(ftell(mf.f)) == at, "%s: the file is left at %ld instead of %zu", nm, ftell(mf.f), at);
		}
	}
	template<class F>
	void each_stream(const std::string& text, F f)
	{
		{
			std::unique_ptr<char[]> t(new char[text.size()]);
			std::copy(text.begin(), text.end(), t.get());
			seq::buffer_input_stream<char> st(t.get(), text.size());
			f(st, "buffer_input_stream");
		}
		std_and_file<1>(text, f);
		std_and_file<2>(text, f);
		std_and_file<3>(text, f);
		std_and_file<32>(text, f);
	}
	struct Drain
	{
		const std::string& t;
		int what;
		template<class S>
		void operator()(S& st, const char* n) const
		{
			drain(st, t, what, n);
		}
	};
	struct History
	{
		const std::string& t;
		const std::vector<int>& ops;
		template<class S>
		void operator()(S& st, const char* n) const
		{
			history(st, t, ops, n);
		}
	};
	template<class F>
	void texts(const std::vector<char>& a, size_t len, std::string& t, F f)
	{
		f(t);
		if (t.size() < len)
			for (char c : a) {
				t.push_back(c);
				texts(a, len, t, f);
				t.pop_back();
			}
	}
}

int main(int argc, char** argv)
{
	using namespace mc;
#if PART == 1
	add_enum("writing char", [](Enum& e) { writes_all<char>(e); });
#elif PART == 2
	add_enum("writing wide", [](Enum& e) {
		writes<wchar_t, int>(e);
		writes<wchar_t, unsigned long long>(e);
		writes<char16_t, long>(e);
		writes<char16_t, unsigned char>(e);
		writes<char32_t, long long>(e);
		writes<char32_t, short>(e);
	});
	add_enum("reading", [](Enum& e) {
		short_texts<char>(e, e.thorough() ? 5 : 4);
		short_texts<wchar_t>(e, e.thorough() ? 4 : 3);
		short_texts<char16_t>(e, e.thorough() ? 4 : 3);
		short_texts<char32_t>(e, e.thorough() ? 4 : 3);
	});
	add_enum("reading long texts", [](Enum& e) {
		long_texts<char, char>(e);
		long_texts<char, signed char>(e);
		long_texts<char, unsigned char>(e);
		long_texts<char, short>(e);
		long_texts<char, unsigned short>(e);
		long_texts<char, int>(e);
		long_texts<char, unsigned>(e);
		long_texts<char, long>(e);
		long_texts<char, unsigned long>(e);
		long_texts<char, long long>(e);
		long_texts<char, unsigned long long>(e);
		long_texts<wchar_t, int>(e);
		long_texts<char16_t, unsigned long>(e);
		long_texts<char32_t, long long>(e);
	});
#elif PART == 3
	add_enum("streams", [](Enum& e) {
		std::vector<char> a{ '1', '-', ' ', '\n', 'x', '\xff' };
		for (char c1 : a)
			for (char c2 : a) {
				if (!e.begin("texts beginning with %02x %02x", c1 & 255, c2 & 255))
					continue;
				std::string t;
				uint64_t n = 0;
				auto all = [&](const std::string& s) {
					for (int what = 0; what < 4; ++what)
						each_stream(s, Drain{ s, what });
					n += 36;
				};
				if (c2 == a[0]) {
					if (c1 == a[0])
						all("");
					all(std::string(1, c1));
				}
				t = { c1, c2 };
				texts(a, e.thorough() ? 6 : 5, t, all);
				e.evals(n);
			}
		// texts longer than the buffers
		for (unsigned sep = 0; sep < 4; ++sep)
			if (e.begin("long lists %u", sep)) {
				uint64_t n = 0;
				for (size_t pad = 0; pad < 70; ++pad) {
					std::string s(pad, " 0\n "[sep]);
					s += "12345 -987654321\n+42 word and line\r\n 7";
					for (int what = 0; what < 4; ++what)
						each_stream(s, Drain{ s, what });
					n += 36;
				}
				e.evals(n);
			}
	});
	add_enum("stream positions", [](Enum& e) {
		std::string text = "ab\xff" "de";
		for (int o1 = 0; o1 < 11; ++o1)
			for (int o2 = 0; o2 < 11; ++o2)
				if (e.begin("histories beginning with %d %d", o1, o2)) {
					std::vector<int> ops{ o1, o2 };
					uint64_t n = 0;
					size_t len = e.thorough() ? 6 : 5;
					std::function<void()> rec = [&] {
						each_stream(text, History{ text, ops });
						++n;
						if (ops.size() < len)
							for (int o = 0; o < 11; ++o) {
								ops.push_back(o);
								rec();
								ops.pop_back();
							}
					};
					rec();
					e.evals(n * 9);
				}
	});
#endif
	return main_(argc, argv);
}
