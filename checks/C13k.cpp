// Every supported kind of key: all insertion orders of up to three tricky keys, and large key sets in several orders through growth, level merging, erasure and
// rebalancing, against std::set with the natural order of the key.
#define MC_MAIN
#include "../lib/mc.hpp"
#include <seq/radix_map.hpp>
#include <seq/tiny_string.hpp>
#include <algorithm>
#include <array>
#include <limits>
#include <set>
#include <string>
#include <tuple>
#include <vector>
using namespace mc;
template<class K>
std::string show(const K& k)
{
	if constexpr (std::is_arithmetic<K>::value)
		return std::to_string(k);
	else if constexpr (std::is_pointer<K>::value)
		return std::to_string(uintptr_t(k));
	else
		return "#" + std::to_string(sizeof(K));
}
template<class K>
using Ref = std::set<K>;
template<class C, class K>
void lookups(const C& c, const Ref<K>& m, const std::vector<K>& probes, const char* when)
{
	CHECK(c.size() == m.size(), "%s: size %zu, expected %zu", when, c.size(), m.size());
	auto a = c.begin();
	auto b = m.begin();
	for (size_t n = 0; b != m.end(); ++a, ++b, ++n) {
		CHECK(a != c.end(), "%s: iteration ends after %zu of %zu keys", when, n, m.size());
		CHECK(*a == *b, "%s: key %zu is %s, expected %s", when, n, show(*a).c_str(), show(*b).c_str());
	}
	CHECK(a == c.end(), "%s: iteration does not end", when);
	if (!m.empty()) {
		auto r = c.end();
		auto q = m.end();
		for (size_t n = 0; n < m.size(); ++n)
			CHECK(*--r == *--q, "%s: backward iteration", when);
		CHECK(r == c.begin(), "%s: backward iteration", when);
	}
	for (size_t i = 0; i < probes.size(); ++i) {
		const K& p = probes[i];
		auto f = m.find(p);
		auto g = c.find(p);
		CHECK((f == m.end()) == (g == c.end()), "%s: find(probe %zu = %s) %s", when, i, show(p).c_str(), g == c.end() ? "misses a key" : "finds an absent key");
		if (f != m.end())
			CHECK(*g == *f, "%s: find gives another key", when);
		CHECK(c.count(p) == m.count(p) && c.contains(p) == (m.count(p) != 0), "%s: count", when);
		auto l = m.lower_bound(p);
		auto lc = c.lower_bound(p);
		CHECK((l == m.end()) == (lc == c.end()) && (l == m.end() || *l == *lc), "%s: lower_bound(probe %zu = %s) gives %s, expected %s", when, i, show(p).c_str(), lc == c.end() ? "end" : show(*lc).c_str(), l == m.end() ? "end" : show(*l).c_str());
		auto u = m.upper_bound(p);
		auto uc = c.upper_bound(p);
		CHECK((u == m.end()) == (uc == c.end()) && (u == m.end() || *u == *uc), "%s: upper_bound(probe %zu = %s)", when, i, show(p).c_str());
	}
}
template<class K>
void small(const char* name, std::vector<K> v, size_t deep)
{
	add_enum(std::string(name) + ", small sets", [v, deep](Enum& e) {
		using C = seq::radix_set<K>;
		size_t n = v.size();
		size_t third = e.thorough() ? n : std::min(n, deep);
		for (size_t i = 0; i < n; ++i)
			if (e.begin("first %zu", i)) {
				for (size_t j = 0; j < n; ++j)
					for (size_t k = 0; k <= third; ++k) {
						C c;
						Ref<K> m;
						auto put = [&](const K& x) {
							auto r = c.insert(x);
							CHECK(r.second == m.insert(x).second && *r.first == x, "insert(%s)", show(x).c_str());
						};
						put(v[i]);
						put(v[j]);
						if (k < third)
							put(v[k]);
						lookups(c, m, v, "inserted");
						CHECK(c.erase(v[j]) == m.erase(v[j]), "erase");
						lookups(c, m, v, "erased");
						e.evals(2);
					}
			}
	});
}
template<class K>
void large(const char* name, std::vector<K> g, std::vector<K> extra, bool input = true)
{
	add_enum(std::string(name) + ", large sets", [g, extra, input](Enum& e) {
		using C = seq::radix_set<K>;
		auto probes = g;
		probes.insert(probes.end(), extra.begin(), extra.end());
		size_t n = g.size();
		for (int order = 0; order < 6; ++order)
			for (size_t m1 : std::vector<size_t>{ n / 4, n * 2 / 3, n })
				for (int er = 0; er < (e.thorough() ? 6 : 4); ++er)
					if (e.begin("order %d, %zu keys, erasure %d", order, m1, er)) {
						auto perm = [&](int how, size_t cnt) {
							std::vector<size_t> p(cnt);
							for (size_t i = 0; i < cnt; ++i)
								p[i] = how == 1 ? cnt - 1 - i : i;
							if (how >= 2) {
								size_t s = how == 2 ? 37 : how == 3 ? 101 : 7;
								while (std::__gcd(s, cnt) != 1)
									++s;
								for (size_t i = 0; i < cnt; ++i)
									p[i] = (i * s) % cnt;
							}
							return p;
						};
						// the keys used: spread over the list
						std::vector<K> ks;
						for (size_t i = 0; i < m1; ++i)
							ks.push_back(g[i * n / m1]);
						C c;
						Ref<K> m(ks.begin(), ks.end());
						std::vector<K> seq;
						for (size_t i : perm(order < 4 ? order : 0, ks.size()))
							seq.push_back(ks[i]);
						if (order == 5)
							c.insert(seq.begin(), seq.end());
						else
							for (auto& x : seq) {
								auto r = order == 4 ? std::make_pair(c.emplace_hint(c.size() ? --c.end() : c.end(), x), true) : c.insert(x);
								CHECK(*r.first == x, "insert returns another key");
							}
						lookups(c, m, probes, "filled");
						C copy(c);
						lookups(copy, m, extra, "copy");
						// erase
						size_t done = 0;
						for (size_t i : perm(er < 4 ? er : 4, ks.size())) {
							if (er == 5 && done == ks.size() / 2) {
								auto f = c.begin(), l = c.begin();
								auto mf = m.begin(), ml = m.begin();
								for (size_t q = 0; q < m.size() - m.size() / 4; ++q) {
									if (q < m.size() / 4)
										++f, ++mf;
									++l, ++ml;
								}
								c.erase(f, l);
								m.erase(mf, ml);
							}
							CHECK(c.erase(ks[i]) == m.erase(ks[i]), "erase(%s)", show(ks[i]).c_str());
							++done;
							if (done == ks.size() / 3 || done == ks.size() * 3 / 4 || done + 3 == ks.size())
								lookups(c, m, probes, done == ks.size() / 3 ? "a third erased" : "most erased");
						}
						lookups(c, m, extra, "emptied");
						for (auto& x : extra) {
							c.insert(x);
							m.insert(x);
						}
						lookups(c, m, extra, "refilled");
						e.evals(6);
					}
	});
}
template<class T>
std::vector<T> tricky()
{
	std::vector<T> v;
	using L = std::numeric_limits<T>;
	using U = long double;
	auto put = [&](U x) {
		if (x >= U(L::lowest()) && x <= U(L::max()))
			v.push_back(T(x));
	};
	put(U(L::lowest()));
	put(U(L::max()));
	put(0);
	put(1);
	put(-1);
	put(2);
	put(-2);
	for (int b = 3; b < 64; b += sizeof(T) == 1 ? 2 : sizeof(T) == 2 ? 4 : 9) {
		U p = std::ldexp(U(1), b);
		put(p);
		put(-p);
		put(p - 1);
	}
	put(U(L::max()) - 1);
	std::sort(v.begin(), v.end());
	v.erase(std::unique(v.begin(), v.end()), v.end());
	// not sorted insertion order
	std::rotate(v.begin(), v.begin() + ptrdiff_t(v.size() / 3), v.end());
	return v;
}
template<class T>
std::vector<T> many(size_t cnt)
{
	std::set<T> s;
	using U = typename std::make_unsigned<T>::type;
	for (size_t i = 0; i < cnt; ++i)
		s.insert(T(U(U(~U(0)) / U(cnt < size_t(U(~U(0))) ? cnt : size_t(U(~U(0)))) * i)));
	for (int i = 0; i < 300; ++i)
		s.insert(T(i - 100));
	for (int i = 0; i < 80; ++i)
		s.insert(T(T(L"\x12"[0]) * 4096 + i * 3));
	return std::vector<T>(s.begin(), s.end());
}
template<class T>
std::vector<T> reals(bool big)
{
	using L = std::numeric_limits<T>;
	std::vector<T> v{ T(0), -T(0), T(1), T(-1), L::min(), -L::min(), L::denorm_min(), -L::denorm_min(), L::max(), L::lowest(), L::infinity(), -L::infinity(), T(1.5), T(-1.5), L::epsilon(), T(3.25), T(1e10), T(-1e10), T(1) + L::epsilon() };
	if (big) {
		std::set<T> s(v.begin(), v.end());
		for (int i = -400; i < 400; ++i)
			s.insert(T(i) * T(0.37));
		for (int i = -120; i < 120; ++i) {
			s.insert(std::ldexp(T(1.0), i));
			s.insert(-std::ldexp(T(1.3), i));
		}
		v.assign(s.begin(), s.end());
	}
	return v;
}
template<class S>
std::vector<S> words(bool big)
{
	using Ch = typename S::value_type;
	std::vector<S> v;
	auto put = [&](std::vector<unsigned> c) {
		std::vector<Ch> d;
		for (unsigned x : c)
			d.push_back(Ch(sizeof(Ch) == 1 ? (x > 255 ? 255 : x) : x));
		v.push_back(S(d.data(), d.data() + d.size()));
	};
	put({});
	put({ 0 });
	put({ 0, 0 });
	put({ 'a' });
	put({ 'a', 0 });
	put({ 'a', 'b' });
	put({ 'b' });
	put({ 255 });
	put({ 255, 255 });
	put({ 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h' });
	put({ 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 0 });
	put({ 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i' });
	put({ 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'i' });
	put({ 0, 1 });
	put({ 127 });
	put({ 128 });
	put({ 0x1234 });
	put({ 'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 0, 0, 0, 0, 0, 0, 0, 1 });
	if (big) {
		for (unsigned i = 0; i < 90; ++i)
			put({ 'p', 'r', 'e', 'f', 'i', 'x', '_', '0' + i / 10, '0' + i % 10 });
		for (unsigned i = 0; i < 150; ++i)
			put(std::vector<unsigned>(i % 75, i < 75 ? 0u : 'z'));
		for (unsigned i = 0; i < 260; ++i)
			put({ i, 'x' });
		for (unsigned i = 0; i < 70; ++i)
			put({ 'q', i * 3, i, 'w', 200 - i });
		for (unsigned i = 0; i < 130; ++i) {
			std::vector<unsigned> w(30, 'L');
			w.push_back(i);
			put(w);
		}
		std::set<S> s(v.begin(), v.end());
		v.assign(s.begin(), s.end());
	}
	return v;
}
template<class T, class U>
std::vector<std::vector<T>> vecs(bool big, std::vector<U> base)
{
	std::vector<std::vector<T>> v;
	v.push_back({});
	for (size_t i = 0; i < base.size(); ++i) {
		v.push_back({ T(base[i]) });
		v.push_back({ T(base[i]), T(0) });
		v.push_back({ T(base[i]), T(base[(i * 3 + 1) % base.size()]) });
		if (big || i < 3) {
			v.push_back({ T(0), T(base[i]), T(1) });
			v.push_back({ T(1), T(2), T(base[i]), T(3), T(base[i]) });
		}
	}
	if (big)
		for (int i = 0; i < 400; ++i) {
			v.push_back({ T(7), T(i * 5), T(i % 3) });
			v.push_back({ T(i) });
			v.push_back(std::vector<T>(size_t(i % 90), T(0)));
		}
	std::set<std::vector<T>> s(v.begin(), v.end());
	v.assign(s.begin(), s.end());
	return v;
}
template<class T>
void ints(const char* name)
{
	small<T>(name, tricky<T>(), 12);
	large<T>(name, many<T>(sizeof(T) == 1 ? 256 : 1100), tricky<T>());
}
template<class Tup>
std::vector<Tup> tuples(bool big)
{
	std::vector<Tup> v;
	using A = typename std::tuple_element<0, Tup>::type;
	using B = typename std::tuple_element<1, Tup>::type;
	constexpr size_t N = std::tuple_size<Tup>::value;
	auto as = tricky<A>();
	auto bs = tricky<B>();
	std::set<Tup> s;
	for (size_t i = 0; i < as.size(); ++i)
		for (size_t j = 0; j < bs.size(); j += big ? 1 : 4) {
			if (!big && (i + j) % 3)
				continue;
			Tup t{};
			std::get<0>(t) = as[i];
			std::get<1>(t) = bs[j];
			if constexpr (N > 2)
				std::get<2>(t) = typename std::tuple_element<2, Tup>::type(i * 17 + j);
			s.insert(t);
		}
	if (big)
		for (int i = 0; i < 600; ++i) {
			Tup t{};
			std::get<0>(t) = A(i / 70);
			std::get<1>(t) = B(i);
			s.insert(t);
		}
	v.assign(s.begin(), s.end());
	if (!big && v.size() > 24)
		v.resize(24);
	return v;
}
template<class S>
void prefixes(const char* name)
{
	add_enum(std::string(name) + ", prefixes", [](Enum& e) {
		auto w = words<S>(true);
		auto q = words<S>(false);
		using C = seq::radix_set<S>;
		for (size_t step : std::vector<size_t>{ 1, 2, 7, 50 })
			if (e.begin("step %zu", step)) {
				C c;
				Ref<S> m;
				for (size_t i = 0; i < w.size(); i += step) {
					c.insert(w[i]);
					m.insert(w[i]);
				}
				auto probes = w;
				for (auto& x : w)
					for (size_t l : std::vector<size_t>{ 1, 2, 8 })
						if (x.size() > l)
							probes.push_back(S(x.data(), x.data() + l));
				for (auto& p : probes) {
					std::vector<S> want, got;
					for (auto& x : m)
						if (x.size() >= p.size() && std::equal(p.begin(), p.end(), x.begin()))
							want.push_back(x);
					auto f = c.prefix(p);
					CHECK((f == c.end()) == want.empty() && (want.empty() || *f == want[0]), "prefix(): %s", want.empty() ? "something found" : "not the first key");
					auto r = c.prefix_range(p);
					for (auto it = r.first; it != r.second; ++it) {
						got.push_back(*it);
						CHECK(got.size() <= want.size(), "prefix_range() goes past the keys with that prefix");
					}
					CHECK(got == want, "prefix_range() gives %zu keys, expected %zu", got.size(), want.size());
					e.evals(2);
				}
			}
	});
}
static int anchor[64];
enum Letters : unsigned
{
	zero
};
int main(int argc, char** argv)
{
#if !defined(PART) || PART == 1
	ints<signed char>("signed char");
	ints<unsigned char>("unsigned char");
	ints<char>("char");
	ints<short>("short");
	ints<unsigned short>("unsigned short");
	small<bool>("bool", { false, true }, 2);
	ints<char16_t>("char16_t");
#endif
#if !defined(PART) || PART == 2
	ints<int>("int");
	ints<unsigned>("unsigned");
	ints<long>("long");
	ints<unsigned long long>("unsigned long long");
	{
		std::vector<int*> p;
		for (auto& x : anchor)
			p.push_back(&x);
		std::vector<int*> s(p.begin(), p.begin() + 12);
		s.push_back(nullptr);
		small<int*>("int*", s, 12);
		auto far = p;
		far.push_back(nullptr);
		for (uintptr_t i = 1; i < 900; ++i)
			far.push_back(reinterpret_cast<int*>(i * 0x5e3fff8010ull));
		std::sort(far.begin(), far.end());
		large<int*>("int*", far, s);
	}
#endif
#if !defined(PART) || PART == 3
	small<float>("float", reals<float>(false), 19);
	large<float>("float", reals<float>(true), reals<float>(false));
	small<double>("double", reals<double>(false), 19);
	large<double>("double", reals<double>(true), reals<double>(false));
	prefixes<std::string>("string");
	prefixes<std::u16string>("u16string");
	prefixes<seq::tstring>("tstring");
#endif
#if !defined(PART) || PART == 4
	small<std::string>("string", words<std::string>(false), 12);
	large<std::string>("string", words<std::string>(true), words<std::string>(false));
	small<std::wstring>("wstring", words<std::wstring>(false), 12);
	large<std::wstring>("wstring", words<std::wstring>(true), words<std::wstring>(false));
	small<std::u16string>("u16string", words<std::u16string>(false), 12);
	large<std::u16string>("u16string", words<std::u16string>(true), words<std::u16string>(false));
#endif
#if !defined(PART) || PART == 5
	small<std::u32string>("u32string", words<std::u32string>(false), 12);
	large<std::u32string>("u32string", words<std::u32string>(true), words<std::u32string>(false));
	small<seq::tstring>("tstring", words<seq::tstring>(false), 12);
	large<seq::tstring>("tstring", words<seq::tstring>(true), words<seq::tstring>(false));
	small<std::vector<unsigned char>>("vector of bytes", vecs<unsigned char>(false, std::vector<int>{ 0, 1, 127, 128, 255 }), 12);
	large<std::vector<unsigned char>>("vector of bytes", vecs<unsigned char>(true, std::vector<int>{ 0, 1, 127, 128, 255 }), {});
#endif
#if !defined(PART) || PART == 6
	small<std::vector<int>>("vector of int", vecs<int>(false, std::vector<int>{ 0, 1, -1, INT32_MIN, INT32_MAX, 65536 }), 12);
	large<std::vector<int>>("vector of int", vecs<int>(true, tricky<int>()), {});
	small<std::vector<uint64_t>>("vector of uint64_t", vecs<uint64_t>(false, std::vector<uint64_t>{ 0, 1, ~0ull, 1ull << 63, 1ull << 32, 65536 }), 12);
	large<std::vector<uint64_t>>("vector of uint64_t", vecs<uint64_t>(true, tricky<uint64_t>()), {});
	small<std::vector<int64_t>>("vector of int64_t", vecs<int64_t>(false, std::vector<int64_t>{ 0, 1, -1, INT64_MIN, 1ll << 32, INT64_MAX }), 12);
	large<std::vector<int64_t>>("vector of int64_t", vecs<int64_t>(true, tricky<int64_t>()), {});
#endif
#if !defined(PART) || PART == 7
	small<std::vector<short>>("vector of short", vecs<short>(false, std::vector<int>{ 0, 1, -1, INT16_MIN, INT16_MAX, 255 }), 12);
	large<std::vector<short>>("vector of short", vecs<short>(true, tricky<short>()), {});
	small<std::vector<double>>("vector of double", vecs<double>(false, std::vector<double>{ 0, 1, -1, 1e300, -1e300, 0.5 }), 12);
	large<std::vector<double>>("vector of double", vecs<double>(true, std::vector<double>{ 0, 1, -1, 1e300, -1e300, 0.5, 1e-300, 3, 4 }), {});
	{
		using A = std::array<unsigned, 3>;
		std::vector<A> a;
		for (unsigned x : { 0u, 1u, ~0u, 1u << 31, 77u, 256u, 65535u })
			for (unsigned y : { 0u, 5u, ~0u, 1u << 16 })
				a.push_back(A{ x, y, x ^ y });
		small<A>("array of three unsigned", a, 12);
		for (unsigned i = 0; i < 700; ++i)
			a.push_back(A{ i / 100 + 2, i * 3, i });
		std::set<A> s(a.begin(), a.end());
		large<A>("array of three unsigned", std::vector<A>(s.begin(), s.end()), {});
	}
#endif
#if !defined(PART) || PART == 8
	{
		using T1 = std::tuple<int, short>;
		using T2 = std::tuple<unsigned char, unsigned char>;
		using T3 = std::tuple<short, unsigned short>;
		small<T1>("tuple<int,short>", tuples<T1>(false), 12);
		large<T1>("tuple<int,short>", tuples<T1>(true), tuples<T1>(false));
		small<T2>("tuple<bytes>", tuples<T2>(false), 12);
		large<T2>("tuple<bytes>", tuples<T2>(true), tuples<T2>(false));
		small<T3>("tuple<short,unsigned short>", tuples<T3>(false), 12);
		large<T3>("tuple<short,unsigned short>", tuples<T3>(true), tuples<T3>(false));
	}
#endif
#if !defined(PART) || PART == 9
	{
		using T4 = std::tuple<int, unsigned>;
		using T5 = std::tuple<long, signed char, double>;
		using T6 = std::tuple<short, long, char>;
		small<T4>("tuple<int,unsigned>", tuples<T4>(false), 12);
		large<T4>("tuple<int,unsigned>", tuples<T4>(true), tuples<T4>(false));
		small<T5>("tuple<long,char,double>", tuples<T5>(false), 12);
		large<T5>("tuple<long,char,double>", tuples<T5>(true), tuples<T5>(false));
		small<T6>("tuple<short,long,char>", tuples<T6>(false), 12);
		large<T6>("tuple<short,long,char>", tuples<T6>(true), tuples<T6>(false));
	}
#endif
	return main_(argc, argv);
}
