// C26: equal keys hash equally and hashes depend only on the value.
#define MC_MAIN
#include "mc.hpp"
#include <seq/hash.hpp>
#include <seq/tiny_string.hpp>
#include <seq/ordered_map.hpp>
#include <seq/concurrent_map.hpp>
#include <seq/radix_hash_map.hpp>
#include <seq/radix_map.hpp>
#include <seq/flat_map.hpp>
#include <string>
#include <string_view>
#include <memory>

namespace
{
	using mc::Enum;
	using Bytes = std::vector<unsigned char>;

	// contents of n bytes: a set of patterns
	Bytes pattern(size_t n, int p)
	{
		Bytes b(n);
		for (size_t i = 0; i < n; ++i)
			switch (p) {
				case 0: b[i] = 0; break;
				case 1: b[i] = 0xFF; break;
				case 2: b[i] = static_cast<unsigned char>(i * 7 + 1); break;
				case 3: b[i] = static_cast<unsigned char>(i + 1 == n ? 0x80 : 'a'); break;
				case 4: b[i] = static_cast<unsigned char>(i == 0 ? 0x81 : 'z' - int(i % 20)); break;
				default: b[i] = static_cast<unsigned char>(i == n / 2 ? 0 : 0x41 + i % 13); break;
			}
		return b;
	}
	constexpr int NPAT = 6;

	struct Fun
	{
		const char* name;
		size_t (*f)(const void*, size_t);
	};
	const Fun funs[] = { { "hash_bytes_murmur64", [](const void* p, size_t n) -> size_t { return seq::hash_bytes_murmur64(p, n); } },
			     { "hash_bytes_fnv1a", [](const void* p, size_t n) -> size_t { return seq::hash_bytes_fnv1a(p, n); } },
			     { "hash_bytes_komihash", [](const void* p, size_t n) -> size_t { return seq::hash_bytes_komihash(p, n); } } };

	void bytes_at_every_place(const Fun& f, size_t n, int p)
	{
		Bytes b = pattern(n, p);
		// exactly sized block: reading one byte outside is caught by the address sanitizer
		std::unique_ptr<unsigned char[]> ex(new unsigned char[n]);
		if (n)
			memcpy(ex.get(), b.data(), n);
		size_t ref = f.f(ex.get(), n);
		CHECK(f.f(ex.get(), n) == ref, "%s of %zu bytes differs from one call to the next", f.name, n);
		if (n == 0)
			CHECK(f.f(nullptr, 0) == ref, "%s of an empty null range differs", f.name);
		for (unsigned char bg : { 0x00, 0xFF, 0x5A })
			for (size_t off = 0; off < 17; ++off) {
				std::unique_ptr<unsigned char[]> g(new unsigned char[n + off + 16]);
				memset(g.get(), bg, n + off + 16);
				if (n)
					memcpy(g.get() + off, b.data(), n);
				CHECK(f.f(g.get() + off, n) == ref, "%s of %zu bytes (pattern %d) at offset %zu among bytes 0x%02x differs", f.name, n, p, off, bg);
				// the end of the block coincides with the end of the key
				std::unique_ptr<unsigned char[]> t(new unsigned char[n + off]);
				memset(t.get(), bg, n + off);
				if (n)
					memcpy(t.get() + off, b.data(), n);
				CHECK(f.f(t.get() + off, n) == ref, "%s of %zu bytes (pattern %d) at the end of a block, offset %zu differs", f.name, n, p, off);
			}
	}

	// ---- every string representation through every hasher
	template<class H, class Char>
	void by_hasher(const char* hn, size_t ref, const std::basic_string<Char>& s, const Char* ptr, bool nul, const char* what)
	{
		H h;
		const H& ch = h;
		auto chk = [&](size_t v, const char* rep) { CHECK(v == ref, "%s of a %s of %zu characters (%s) is not the hash of the equal std string", hn, rep, s.size(), what); };
		chk(ch(s), "basic_string");
		chk(ch(std::basic_string_view<Char>(ptr, s.size())), "basic_string_view");
		chk(ch(seq::tiny_string<Char>(ptr, s.size())), "tiny_string");
		chk(ch(seq::tiny_string<Char, std::char_traits<Char>, std::allocator<Char>, 32 / sizeof(Char)>(ptr, s.size())), "tiny_string with 32 bytes");
		chk(ch(seq::tiny_string<Char, std::char_traits<Char>, std::allocator<Char>, 8>(ptr, s.size())), "tiny_string 8");
		chk(ch(seq::basic_tstring_view<Char>(ptr, s.size())), "tstring_view");
		if (!nul)
			chk(ch(s.c_str()), "pointer");
	}
	template<class Char>
	void strings(Enum& e, const char* cname)
	{
		size_t maxn = e.thorough() ? 330 : 150;
		for (size_t n = 0; n <= maxn; ++n) {
			if (!e.begin("%s strings of length %zu", cname, n))
				continue;
			for (int p = 0; p < NPAT; ++p) {
				Bytes b = pattern(n, p);
				std::basic_string<Char> s;
				bool nul = false;
				for (unsigned char c : b) {
					s.push_back(Char(c));
					nul |= c == 0;
				}
				size_t ref = seq::hasher<std::basic_string<Char>>{}(s);
				char what[32];
				snprintf(what, sizeof(what), "%s pattern %d", cname, p);
				for (size_t off = 0; off < 9; ++off) {
					std::unique_ptr<Char[]> g(new Char[n + off]);
					for (size_t i = 0; i < off; ++i)
						g[i] = Char(0x55 + off);
					std::copy(s.begin(), s.end(), g.get() + off);
					const Char* ptr = g.get() + off;
					by_hasher<seq::hasher<std::basic_string<Char>>>("hasher<basic_string>", ref, s, ptr, nul, what);
					by_hasher<seq::hasher<std::basic_string_view<Char>>>("hasher<basic_string_view>", ref, s, ptr, nul, what);
					by_hasher<seq::hasher<seq::tiny_string<Char>>>("hasher<tiny_string>", ref, s, ptr, nul, what);
					by_hasher<seq::hasher<seq::tiny_string<Char, std::char_traits<Char>, std::allocator<Char>, 8>>>("hasher<tiny_string 8>", ref, s, ptr, nul, what);
					by_hasher<seq::hasher<seq::basic_tstring_view<Char>>>("hasher<tstring_view>", ref, s, ptr, nul, what);
					by_hasher<std::hash<seq::tiny_string<Char>>>("std::hash<tiny_string>", ref, s, ptr, nul, what);
					by_hasher<std::hash<seq::basic_tstring_view<Char>>>("std::hash<tstring_view>", ref, s, ptr, nul, what);
				}
				// the same characters reached by another history
				std::basic_string<Char> s2(n + 40, Char('x'));
				s2.assign(s);
				seq::tiny_string<Char> t(n + 40, Char('x'));
				t.assign(s.data(), s.size());
				CHECK(seq::hasher<std::basic_string<Char>>{}(s2) == ref && seq::hasher<seq::tiny_string<Char>>{}(t) == ref, "strings shrunk to %zu characters", n);
				seq::tiny_string<Char> u;
				for (Char c : s)
					u.push_back(c);
				CHECK(seq::hasher<seq::tiny_string<Char>>{}(u) == ref, "tiny_string grown to %zu characters", n);
			}
			e.evals(NPAT * 9 * 7 * 7);
		}
	}

	// ---- two independently built copies of each value of a domain: equal values hash equally
	template<class T>
	size_t H(const T& v)
	{
		return seq::hasher<T>{}(v);
	}
	template<class T>
	void domain(const char* name, const std::vector<T>& a, const std::vector<T>& b)
	{
		for (size_t i = 0; i < a.size(); ++i)
			for (size_t j = 0; j < b.size(); ++j) {
				if (a[i] == b[j]) {
					CHECK(H(a[i]) == H(b[j]), "%s: equal values %zu and %zu hash differently", name, i, j);
					CHECK(seq::hash_value(seq::hasher<T>{}, a[i]) == seq::hash_value(seq::hasher<T>{}, b[j]), "%s: hash_value of equal values %zu and %zu differ", name, i, j);
				}
			}
	}
	std::vector<double> doubles()
	{
		return { 0.0, -0.0, 1.0, -1.0, 5e-324, -5e-324, 2.2250738585072014e-308, 1e308, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity() };
	}
	std::vector<float> floats()
	{
		return { 0.0f, -0.0f, 1.0f, -1.0f, 1e-45f, -1e-45f, 1.17549435e-38f, 3e38f, std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity() };
	}
	std::vector<std::string> strs(int how)
	{
		std::vector<std::string> r{ "", "a", "b", std::string(1, '\0'), "abcdefg", std::string(15, 'q'), std::string(16, 'q'), std::string(33, 'r') };
		if (how)
			for (auto& s : r) {
				std::string t(s.size() + 50, 'z');
				t = s;
				s.swap(t);
			}
		return r;
	}
	template<class A, class B>
	std::vector<std::pair<A, B>> pairs(const std::vector<A>& a, const std::vector<B>& b)
	{
		std::vector<std::pair<A, B>> r;
		for (auto& x : a)
			for (auto& y : b)
				r.emplace_back(x, y);
		return r;
	}
	template<class A, class B, class C>
	std::vector<std::tuple<A, B, C>> tuples(const std::vector<A>& a, const std::vector<B>& b, const std::vector<C>& c)
	{
		std::vector<std::tuple<A, B, C>> r;
		for (auto& x : a)
			for (auto& y : b)
				for (auto& z : c)
					r.emplace_back(x, y, z);
		return r;
	}
	template<class T>
	void narrow(const char* name)
	{
		for (long v = long(std::numeric_limits<T>::min()); v <= long(std::numeric_limits<T>::max()); ++v) {
			volatile T x = T(v);
			CHECK(seq::hasher<T>{}(T(x)) == seq::hasher<T>{}(T(v)), "hasher<%s>(%ld) differs from one call to the next", name, v);
			CHECK(seq::hasher<T>{}(T(v)) == seq::hash_value(seq::hasher<T>{}, T(v)), "hash_value of %s %ld", name, v);
		}
	}
	template<class U>
	void enums(const char* name, std::vector<long long> vals)
	{
		enum class E : U
		{
		};
		for (long long v : vals) {
			E e = E(U(v));
			size_t h = seq::hasher<E>{}(e);
			CHECK(h == seq::hasher<E>{}(E(U(v))), "enum of %s", name);
			CHECK(h == seq::hasher<E>{}(U(v)), "hasher of an enum of %s: the underlying value %lld hashes differently", name, v);
			if (v == static_cast<long long>(U(v))) {
				CHECK(h == seq::hasher<E>{}(v), "hasher of an enum of %s: the equal long long %lld hashes differently", name, v);
				if (v >= INT_MIN && v <= INT_MAX)
					CHECK(h == seq::hasher<E>{}(int(v)), "hasher of an enum of %s: the equal int %lld hashes differently", name, v);
				if (v >= 0 && v <= 0xFFFF)
					CHECK(h == seq::hasher<E>{}(static_cast<unsigned short>(v)), "hasher of an enum of %s: the equal unsigned short %lld hashes differently", name, v);
			}
		}
	}
	struct Base
	{
		int x;
	};

	// ---- heterogeneous lookup finds what homogeneous lookup finds
	template<class S>
	void lookups(const char* name, S& set, const std::vector<std::string>& all)
	{
		using K = typename S::key_type;
		for (size_t i = 0; i < all.size(); i += 2)
			set.insert(K(all[i].data(), all[i].size()));
		for (size_t i = 0; i < all.size(); ++i) {
			const std::string& s = all[i];
			size_t want = (i % 2 == 0);
			auto chk = [&](size_t n, const char* rep) { CHECK(n == want, "%s: count(%s of length %zu) = %zu, not %zu", name, rep, s.size(), n, want); };
			std::unique_ptr<char[]> g(new char[s.size() + 3]);
			std::copy(s.begin(), s.end(), g.get() + 3);
			chk(set.count(K(s.data(), s.size())), "key type");
			chk(set.count(s), "std::string");
			chk(set.count(std::string_view(g.get() + 3, s.size())), "string_view");
			chk(set.count(seq::tstring_view(g.get() + 3, s.size())), "tstring_view");
			chk(set.count(seq::tstring(s.data(), s.size())), "tstring");
			chk(set.count(seq::tiny_string<char, std::char_traits<char>, std::allocator<char>, 40>(s.data(), s.size())), "tiny_string 40");
			if (s.find('\0') == std::string::npos)
				chk(set.count(s.c_str()), "const char*");
		}
	}
	std::vector<std::string> lookup_keys(int which)
	{
		std::vector<std::string> r;
		for (size_t n = size_t(which * 16); n < size_t(which * 16 + 34); ++n)
			for (int p = 2; p < 5; ++p)
				if (n || p == 2) {
					Bytes b = pattern(n, p);
					std::string s(b.begin(), b.end());
					if (std::find(r.begin(), r.end(), s) == r.end())
						r.push_back(s);
				}
		r.push_back(std::string(3, '\0'));
		r.push_back(std::string("a\0b", 3));
		r.push_back(std::string("a\0", 2));
		r.push_back("a");
		std::vector<std::string> u;
		for (auto& s : r)
			if (std::find(u.begin(), u.end(), s) == u.end())
				u.push_back(s);
		return u;
	}
}

int main(int argc, char** argv)
{
	using namespace mc;
	add_enum("byte hashes", [](Enum& e) {
		for (auto& f : funs) {
			for (size_t n = 0; n <= (e.thorough() ? 600u : 260u); ++n)
				if (e.begin("%s of %zu bytes", f.name, n)) {
					for (int p = 0; p < NPAT; ++p)
						bytes_at_every_place(f, n, p);
					e.evals(NPAT * 3 * 17 * 2);
				}
			// every content of one and two bytes
			for (unsigned blk = 0; blk < 8; ++blk)
				if (e.begin("%s of two bytes, block %u", f.name, blk)) {
					for (unsigned v = blk * 8192; v < (blk + 1) * 8192; ++v) {
						unsigned char a[2] = { static_cast<unsigned char>(v), static_cast<unsigned char>(v >> 8) };
						unsigned char b[6] = { 9, 9, 9, a[0], a[1], 9 };
						std::unique_ptr<unsigned char[]> x(new unsigned char[2]{ a[0], a[1] });
						CHECK(f.f(x.get(), 2) == f.f(b + 3, 2), "%s of 2 bytes 0x%04x", f.name, v);
						CHECK(f.f(x.get(), 1) == f.f(b + 3, 1), "%s of 1 byte 0x%02x", f.name, v & 255);
					}
					e.evals(8192);
				}
		}
	});
	add_enum("strings", [](Enum& e) {
		strings<char>(e, "char");
		strings<wchar_t>(e, "wchar_t");
		strings<char16_t>(e, "char16_t");
		strings<char32_t>(e, "char32_t");
	});
	add_enum("values", [](Enum& e) {
		if (e.begin("narrow integers")) {
			narrow<bool>("bool");
			narrow<char>("char");
			narrow<signed char>("signed char");
			narrow<unsigned char>("unsigned char");
			narrow<short>("short");
			narrow<unsigned short>("unsigned short");
			narrow<char16_t>("char16_t");
			e.evals(3 * 65536 + 4 * 256);
		}
		if (e.begin("integers")) {
			std::vector<long long> v;
			for (int s = 0; s < 64; ++s)
				for (int d = -1; d <= 1; ++d)
					v.push_back(static_cast<long long>((1ull << s) + static_cast<unsigned long long>(static_cast<long long>(d))));
			auto conv = [&](auto x) {
				std::vector<decltype(x)> r;
				for (long long k : v)
					r.push_back(static_cast<decltype(x)>(k));
				return r;
			};
			domain("int", conv(int()), conv(int()));
			domain("unsigned", conv(0u), conv(0u));
			domain("long", conv(0l), conv(0l));
			domain("unsigned long", conv(0ul), conv(0ul));
			domain("long long", conv(0ll), conv(0ll));
			domain("unsigned long long", conv(0ull), conv(0ull));
			domain("wchar_t", conv(L'a'), conv(L'a'));
			domain("char32_t", conv(U'a'), conv(U'a'));
			e.evals(8 * v.size() * v.size());
		}
		if (e.begin("floating point")) {
			domain("double", doubles(), doubles());
			domain("float", floats(), floats());
			domain("long double", std::vector<long double>{ 0.0L, -0.0L, 1.0L, 1e300L }, std::vector<long double>{ 0.0L, -0.0L, 1.0L, 1e300L });
			e.evals(216);
		}
		if (e.begin("enumerations")) {
			std::vector<long long> small;
			for (long long k = -128; k < 256; ++k)
				small.push_back(k);
			enums<signed char>("signed char", small);
			enums<unsigned char>("unsigned char", small);
			std::vector<long long> med{ -32768, -1, 0, 1, 255, 256, 32767, 65535, INT_MAX, INT_MIN, static_cast<long long>(UINT_MAX), LLONG_MAX, LLONG_MIN };
			enums<short>("short", med);
			enums<unsigned short>("unsigned short", med);
			enums<int>("int", med);
			enums<unsigned>("unsigned", med);
			enums<long>("long", med);
			enums<unsigned long>("unsigned long", med);
			e.evals(600);
		}
		if (e.begin("pointers")) {
			Base arr[64];
			for (auto& b : arr) {
				Base* p = &b;
				const Base* cp = &b;
				size_t h = H(p);
				CHECK(h == H(static_cast<Base*>(&b)) && h == H(cp), "pointers to the same object");
				std::unique_ptr<Base> u(p);
				std::shared_ptr<Base> s(p, [](Base*) {});
				std::shared_ptr<Base> s2(s);
				std::shared_ptr<Base> s3(std::make_shared<int>(1), p);
				CHECK(seq::hasher<std::unique_ptr<Base>>{}(u) == seq::hasher<std::unique_ptr<Base>>{}(cp), "unique_ptr and pointer to the same object");
				CHECK(seq::hasher<std::unique_ptr<Base>>{}(u) == h, "unique_ptr and pointer to the same object");
				CHECK(seq::hasher<std::shared_ptr<Base>>{}(s) == seq::hasher<std::shared_ptr<Base>>{}(cp), "shared_ptr and pointer to the same object");
				CHECK(H(s) == H(s2) && H(s) == H(s3) && H(s) == h, "shared_ptr to the same object");
				u.release();
			}
			CHECK(seq::hasher<std::unique_ptr<Base>>{}(std::unique_ptr<Base>()) == H(static_cast<Base*>(nullptr)), "null unique_ptr");
			CHECK(seq::hasher<std::shared_ptr<Base>>{}(std::shared_ptr<Base>()) == H(static_cast<Base*>(nullptr)), "null shared_ptr");
			e.evals(320);
		}
		if (e.begin("pairs")) {
			domain("pair<string,double>", pairs(strs(0), doubles()), pairs(strs(1), doubles()));
			domain("pair<float,float>", pairs(floats(), floats()), pairs(floats(), floats()));
			domain("pair<double,string>", pairs(doubles(), strs(0)), pairs(doubles(), strs(1)));
			domain("pair<pair<double,int>,string>", pairs(pairs(doubles(), std::vector<int>{ 1, -1 }), strs(0)), pairs(pairs(doubles(), std::vector<int>{ 1, -1 }), strs(1)));
			e.evals(50000);
		}
		if (e.begin("tuples")) {
			std::vector<int> is{ 0, -1 };
			domain("tuple<double,int,string>", tuples(doubles(), is, strs(0)), tuples(doubles(), is, strs(1)));
			domain("tuple<string,float,int>", tuples(strs(0), floats(), is), tuples(strs(1), floats(), is));
			std::vector<std::tuple<double>> one;
			for (double d : doubles())
				one.emplace_back(d);
			domain("tuple<double>", one, one);
			e.evals(60000);
		}
		if (e.begin("unowned strings")) {
			auto a = strs(0), b = strs(1);
			std::vector<std::pair<std::string_view, double>> va, vb;
			for (auto& s : a)
				for (double d : doubles())
					va.emplace_back(s, d);
			for (auto& s : b)
				for (double d : doubles())
					vb.emplace_back(s, d);
			domain("pair<string_view,double>", va, vb);
			e.evals(va.size() * vb.size());
		}
		if (e.begin("combination and finalization")) {
			for (size_t a = 0; a < 300; ++a)
				for (size_t b = 0; b < 50; ++b) {
					size_t s1 = a * 0x9E3779B97F4A7C15ull, s2 = s1;
					seq::hash_combine(s1, b);
					seq::hash_combine(s2, b);
					CHECK(s1 == s2 && seq::hash_finalize(s1) == seq::hash_finalize(s2), "hash_combine");
				}
			e.evals(15000);
		}
	});
	add_enum("heterogeneous lookup", [](Enum& e) {
		for (int w = 0; w < (e.thorough() ? 8 : 5); ++w) {
			auto keys = lookup_keys(w);
			uint64_t n = keys.size() * 7;
#define LOOK(NAME, ...)                                                                                                                                                                                \
	if (e.begin(NAME " lengths %d..", w * 16)) {                                                                                                                                                   \
		__VA_ARGS__ set;                                                                                                                                                                       \
		lookups(NAME, set, keys);                                                                                                                                                              \
		e.evals(n);                                                                                                                                                                            \
	}
			using namespace seq;
			LOOK("ordered_set<string>", ordered_set<std::string, hasher<std::string>, std::equal_to<>>)
			LOOK("ordered_set<tstring>", ordered_set<tstring, hasher<tstring>, std::equal_to<>>)
			LOOK("ordered_set<tstring, std::hash>", ordered_set<tstring, std::hash<tstring>, std::equal_to<>>)
			LOOK("concurrent_set<string>", concurrent_set<std::string, hasher<std::string>, std::equal_to<>>)
			LOOK("concurrent_set<tstring>", concurrent_set<tstring, hasher<tstring>, std::equal_to<>>)
			LOOK("radix_hash_set<string>", radix_hash_set<std::string, hasher<std::string>, std::equal_to<>>)
			LOOK("radix_hash_set<tstring>", radix_hash_set<tstring, hasher<tstring>, std::equal_to<>>)
			LOOK("radix_set<string>", radix_set<std::string>)
			LOOK("radix_set<tstring>", radix_set<tstring>)
			LOOK("flat_set<string>", flat_set<std::string, std::less<>>)
			LOOK("flat_set<tstring>", flat_set<tstring, std::less<>>)
#undef LOOK
		}
	});
	return main_(argc, argv);
}
