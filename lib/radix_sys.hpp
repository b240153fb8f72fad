#pragma once
// Radix sets/maps (ordered by the natural order of the key) and radix hash sets/maps against a map index -> value, the keys being members of a finite sorted
// universe that a key domain (KD) provides.
#include "elems.hpp"
#include <seq/radix_map.hpp>
#include <seq/radix_hash_map.hpp>
#include <algorithm>
#include <map>
#include <memory>
#include <set>
#include <sstream>
namespace rx
{
	using namespace mc;
	enum Which { NORMAL, FAULTS, BIG, ALLFAULTS };
	struct Shape
	{
		const char* name;
		const char* prog;
	};
	// ------------------------------------------------------------------ hash functors
	// modes: 0 spread, 1 all equal, 2 four values, 3 only the high byte, 4 identity, 5 equal up to the last bits
	struct H
	{
		int mode = 0;
		H(int m = 0) : mode(m) {}
		template<class K>
		size_t operator()(const K& k) const
		{
			point(F_FUNC);
			uint64_t v = uint64_t(unsigned(get(k)));
			switch (mode) {
				case 1: return 0;
				case 2: return v & 3;
				case 3: return v << 56;
				case 4: return v;
				case 5: return 0xABCDABCDABCD0000ull | (v & 0xff);
				default: v *= 0x9E3779B97F4A7C15ull; return v ^ (v >> 29);
			}
		}
	};
	struct HT : H
	{
		using is_transparent = int;
		HT(int m = 0) : H(m) {}
	};
	struct E
	{
		int tag = 0;
		E(int t = 0) : tag(t) {}
		template<class A, class B>
		bool operator()(const A& a, const B& b) const
		{
			if (acc().count < 150)
				point(F_FUNC);
			return get(a) == get(b);
		}
	};
	struct ET : E
	{
		using is_transparent = int;
		ET(int t = 0) : E(t) {}
	};
	// ------------------------------------------------------------------ key domains
	inline std::vector<long long>& sorted(std::vector<long long>& v)
	{
		std::sort(v.begin(), v.end());
		v.erase(std::unique(v.begin(), v.end()), v.end());
		return v;
	}
	// groups of integers: d dense from 0, n dense below 0, s evenly spread over the 32 bit range, p around powers of two, c clusters with common prefixes
	struct IntBase
	{
		static std::vector<long long> gen(char g)
		{
			std::vector<long long> v;
			switch (g) {
				case 'd': for (int i = 0; i < 90; ++i) v.push_back(i); break;
				case 'n': for (int i = 1; i <= 20; ++i) v.push_back(-i); break;
				case 's': for (int i = 0; i < 272; ++i) v.push_back(-2147483648ll + i * 15790320ll); break;
				case 'p': for (int b = 7; b < 31; b += 4) for (int s = -1; s <= 1; ++s) { v.push_back((1ll << b) + s); v.push_back(-(1ll << b) + s); } v.push_back(2147483647ll); break;
				case 'c': for (int i = 0; i < 24; ++i) v.push_back(0x1234500 + i); for (int i = 0; i < 8; ++i) v.push_back(0x1235000 + i); break;
			}
			return sorted(v);
		}
		static const std::vector<int>& ints()
		{
			static const std::vector<int> u = [] {
				std::vector<long long> v;
				for (char g : { 'd', 'n', 's', 'p', 'c' })
					for (auto x : gen(g))
						v.push_back(x);
				sorted(v);
				return std::vector<int>(v.begin(), v.end());
			}();
			return u;
		}
		static int at(int x) { return int(std::lower_bound(ints().begin(), ints().end(), x) - ints().begin()); }
		static std::vector<int> group(char g)
		{
			std::vector<int> r;
			if (g == 'u')
				for (size_t i = 0; i < ints().size(); ++i)
					r.push_back(int(i));
			else
				for (auto x : gen(g))
					r.push_back(at(int(x)));
			return r;
		}
		static int size() { return int(ints().size()); }
		static std::string text(int i) { return std::to_string(ints()[size_t(i)]); }
		static constexpr bool strings = false;
	};
	struct XInt // extracts the integer of a tracked key
	{
		template<class T>
		int operator()(const T& t) const { return get(t); }
	};
	static const Shape int_shapes[] = {
		{ "new", "" }, { "one", "+d0:1" }, { "cleared", "+d0:5 c" }, { "emptied", "+d3:4 -d3:4" }, { "both ends", "+s0:1 +p36:37" }, { "five descending", "<d0:5" },
		{ "64", "+d0:64" }, { "65", "+d0:65" }, { "65 descending and negative", "<d0:65 +n0:20" }, { "clusters", "+d0:70 +c0:32 +p0:37" }, { "spread 66", "#s0:272/4" },
		{ "spread 272", "#s0:272" }, { "spread, erased to a few", "+s0:272 -s10:270" }, { "spread, a quarter left", "R s0:272 -s0:200" }, { "all, some erased", "#u0:999 -d10:60 -s3:272/3" }, { "range", "R d0:90 R s0:272/7" },
		{ "clusters alone", "+c0:32 +n0:20 +d0:14" },
	};
	static const Shape int_shapes_f[] = { { "new", "" }, { "one", "+d0:1" }, { "four", "+d0:4" }, { "16", "+d0:16" }, { "64", "+d0:64" }, { "65 and clusters", "+d0:65 +c0:3" }, { "spread, one leaf full", "#s0:272/2 +s0:129" }, { "spread, before the merge", "+s0:255 " } };
	// plain keys
	template<class K>
	struct Ints : IntBase
	{
		using Key = K;
		using Extract = seq::default_key;
		static constexpr bool hashed = false;
		static K mk(int i) { return K(ints()[size_t(i)]); }
		static int idx(const K& k) { return at(int(k)); }
	};
	template<class K>
	struct TInts : IntBase
	{
		using Key = K;
		using Extract = XInt;
		static constexpr bool hashed = false;
		static K mk(int i) { return K(ints()[size_t(i)]); }
		static int idx(const K& k) { return at(get(k)); }
	};
	template<class K, class H_ = H, class E_ = E, class L_ = seq::default_less>
	struct HInts : TInts<K>
	{
		static constexpr bool hashed = true;
		using Hash = H_;
		using Equal = E_;
		using Less = L_;
	};
	// hash: the shape name begins with the hash mode
	static const Shape hash_shapes[] = {
		{ "0 new", "" }, { "0 one", "+d0:1" }, { "0 cleared", "+d0:5 c" }, { "0 emptied", "+d3:4 -d3:4" }, { "0 seven", "+d0:7" }, { "0 90", "+d0:90" }, { "0 390", "#u0:999" }, { "0 390 halved", "#u0:999 -u3:390/2" },
		{ "0 reserved", "r300 +d0:10" }, { "0 shrunk", "+u0:999 -u4:999 h" }, { "0 390 range", "R u0:999" },
		{ "1 97 equal hashes", "+u0:97" }, { "1 130 equal hashes", "#u0:130" }, { "1 96 equal hashes", "+u0:96" }, { "2 four hashes", "+u0:390" }, { "3 high byte", "+u0:390" }, { "4 identity", "+d0:90 +s0:272" }, { "5 low byte", "+u0:300" },
		{ "1 erased to one", "+u0:120 -u1:120" },
	};
	static const Shape hash_shapes_f[] = {
		{ "0 new", "" }, { "0 one", "+d0:1" }, { "0 eight", "+d0:8" }, { "1 96 equal hashes", "+u0:96" }, { "1 98 equal hashes", "+u0:98" }, { "2 four hashes", "+u0:100" }, { "4 96 of an identity hash", "+u0:96" },
	};
	// strings
	struct Strs
	{
		using Key = std::string;
		using Extract = seq::default_key;
		static constexpr bool hashed = false;
		static constexpr bool strings = true;
		static std::vector<std::string> gen(char g)
		{
			std::vector<std::string> v;
			switch (g) {
				case 'd': for (int i = 0; i < 80; ++i) { char b[32]; snprintf(b, 32, "common_prefix_%02d", i); v.push_back(b); } break;
				case 'z': for (int i = 0; i < 70; ++i) v.push_back(std::string(size_t(i), '\0')); break;
				case 's': for (int i = 0; i < 256; i += 3) v.push_back(std::string(1, char(i))); break;
				case 'p': for (int i = 1; i < 40; ++i) v.push_back(std::string(size_t(i), 'a')); break;
				case 'm': for (int i = 0; i < 12; ++i) { v.push_back("ab" + std::string(size_t(i), '\xff')); v.push_back("ab" + std::string(size_t(i), '\0') + "c"); v.push_back("b" + std::string(size_t(i), char('a' + i)) + "\x80"); } break;
			}
			std::sort(v.begin(), v.end());
			v.erase(std::unique(v.begin(), v.end()), v.end());
			return v;
		}
		static const std::vector<std::string>& U()
		{
			static const std::vector<std::string> u = [] {
				std::vector<std::string> v;
				for (char g : { 'd', 'z', 's', 'p', 'm' })
					for (auto& x : gen(g))
						v.push_back(x);
				std::sort(v.begin(), v.end());
				v.erase(std::unique(v.begin(), v.end()), v.end());
				return v;
			}();
			return u;
		}
		static std::string mk(int i) { return U()[size_t(i)]; }
		static int idx(const std::string& k) { return int(std::lower_bound(U().begin(), U().end(), k) - U().begin()); }
		static std::vector<int> group(char g)
		{
			std::vector<int> r;
			if (g == 'u')
				for (size_t i = 0; i < U().size(); ++i)
					r.push_back(int(i));
			else
				for (auto& x : gen(g))
					r.push_back(idx(x));
			return r;
		}
		static int size() { return int(U().size()); }
		static std::string text(int i)
		{
			std::string r = "\"";
			for (char c : U()[size_t(i)]) {
				char b[8];
				snprintf(b, 8, c >= 32 && c < 127 ? "%c" : "\\x%02x", c & 255);
				r += b;
			}
			return r + "\"";
		}
	};
	static const Shape str_shapes[] = {
		{ "new", "" }, { "one", "+p0:1" }, { "cleared", "+d0:5 c" }, { "emptied", "+z0:1 -z0:1" }, { "64", "+d0:64" }, { "65", "+d0:65" }, { "nulls 64", "+z0:64" }, { "nulls 70", "+z0:70" }, { "nulls 70 descending", "<z0:70" },
		{ "prefixes", "+p0:39 +d0:80" }, { "spread", "#s0:86 +m0:36" }, { "all", "#u0:999" }, { "all, some erased", "+u0:999 -d5:75 -z3:70 -s1:86/2" }, { "range", "R d0:80 R z0:70" }, { "nulls erased", "+z0:70 -z1:69" },
	};
	static const Shape str_shapes_f[] = { { "new", "" }, { "one", "+p0:1" }, { "64", "+d0:64" }, { "65", "+d0:65" }, { "nulls 64", "+z0:64" }, { "nulls 65", "+z0:65" }, { "prefixes", "+p0:39 +d0:40" } };

	template<class KD, class Val, bool Map, int W = NORMAL>
	struct Sys
	{
		using Key = typename KD::Key;
		static constexpr bool hashed = KD::hashed;
		static constexpr bool few = W == FAULTS;
		using V = std::conditional_t<Map, std::pair<Key, Val>, Key>;
		using Al = TAlloc<V>;
		template<bool Hd, class D = KD>
		struct cont
		{
			using type = std::conditional_t<Map, seq::radix_map<Key, Val, typename KD::Extract, Al>, seq::radix_set<Key, typename KD::Extract, Al>>;
		};
		template<class D>
		struct cont<true, D>
		{
			using type = std::conditional_t<Map, seq::radix_hash_map<Key, Val, typename D::Hash, typename D::Equal, Al, typename D::Less>, seq::radix_hash_set<Key, typename D::Hash, typename D::Equal, Al, typename D::Less>>;
		};
		using C = typename cont<hashed>::type;
		static constexpr bool copyable = std::is_copy_constructible<Key>::value && std::is_copy_constructible<Val>::value;
		static const Key& key(const V& v)
		{
			if constexpr (Map)
				return v.first;
			else
				return v;
		}
		static int val(const V& v)
		{
			if constexpr (Map)
				return get(v.second);
			else
				return 0;
		}
		static Key mkk(int i)
		{
			Disarmed d;
			return KD::mk(i);
		}
		static V mkv(int i, int v)
		{
			Disarmed d;
			if constexpr (Map)
				return V(KD::mk(i), Val(v));
			else
				return KD::mk(i);
		}
		using M = std::map<int, int>;
		C c;
		M m;
		int uid = 1;
		int mode = 0;
		static const std::vector<Shape>& shapes()
		{
			static const std::vector<Shape> s = [] {
				std::vector<Shape> r;
				auto put = [&](auto& a) {
					for (auto& x : a)
						r.push_back(x);
				};
				constexpr bool f = W == FAULTS || W == ALLFAULTS;
				if constexpr (hashed)
					f ? put(hash_shapes_f) : put(hash_shapes);
				else if constexpr (KD::strings)
					f ? put(str_shapes_f) : put(str_shapes);
				else
					f ? put(int_shapes_f) : put(int_shapes);
				return r;
			}();
			return s;
		}
		static int nseeds() { return int(shapes().size()); }
		static std::string seed_name(int i) { return shapes()[size_t(i)].name; }
		static int seed_depth(int i, bool thorough) { return KD::strings && !thorough && i != 0 && i != 4 && i != 6 && i != 8 && i != 9 && i != 14 ? 1 : -1; }
		static C make_c(int mode, const Al& al = Al())
		{
			if constexpr (hashed)
				return C(typename KD::Hash(mode), typename KD::Equal(mode), al);
			else
				return C(al);
		}
		static int seed_mode(int seed)
		{
			if (hashed)
				return shapes()[size_t(seed)].name[0] - '0';
			return 0;
		}
		void put1(int i)
		{
			int v = uid++;
			c.insert(mkv(i, v));
			m.emplace(i, Map ? v : 0);
		}
		Sys(int seed) : c(make_c(seed_mode(seed)))
		{
			mode = seed_mode(seed);
			std::istringstream is(shapes()[size_t(seed)].prog);
			std::string t;
			while (is >> t) {
				char o = t[0];
				if (o == 'c') {
					c.clear();
					m.clear();
					continue;
				}
				if constexpr (hashed) {
					if (o == 'r') {
						c.reserve(size_t(atoi(t.c_str() + 1)));
						continue;
					}
					if (o == 'h') {
						c.rehash();
						continue;
					}
				}
				if (o == 'R')
					is >> t, t = "R" + t;
				int a = 0, b = 0, step = 1;
				sscanf(t.c_str() + 2, "%d:%d/%d", &a, &b, &step);
				auto g = KD::group(t[1]);
				std::vector<int> l;
				for (int i = a; i < b && i < int(g.size()); i += step)
					l.push_back(g[size_t(i)]);
				if (o == '<')
					std::reverse(l.begin(), l.end());
				if (o == '#') {
					std::vector<int> s;
					size_t k = 0, p = l.size() % 37 ? 37 : 41;
					for (size_t i = 0; i < l.size(); ++i, k = (k + p) % l.size())
						s.push_back(l[k]);
					l = s;
				}
				if (o == '-') {
					for (int i : l)
						if (m.erase(i))
							c.erase(mkk(i));
				}
				else if (o == 'R') {
					if constexpr (copyable) {
						std::vector<std::pair<int, int>> r;
						for (int i : l)
							r.push_back({ i, uid++ });
						auto v = values(r);
						c.insert(v.begin(), v.end());
						for (auto& e : r)
							m.emplace(e.first, Map ? e.second : 0);
					}
					else
						for (int i : l)
							put1(i);
				}
				else
					for (int i : l)
						put1(i);
			}
		}
		std::vector<V> values(const std::vector<std::pair<int, int>>& r)
		{
			Disarmed d;
			std::vector<V> v;
			v.reserve(r.size());
			for (auto& e : r)
				v.push_back(mkv(e.first, e.second));
			return v;
		}
		static bool same(const Key& k, int i)
		{
			if constexpr (KD::strings)
				return k == KD::U()[size_t(i)];
			else
				return KD::idx(k) == i;
		}
		static std::pair<int, int> ent(const V& v) { return { KD::idx(key(v)), val(v) }; }
		std::vector<std::pair<int, int>> content() const
		{
			std::vector<std::pair<int, int>> r;
			const C& cc = c;
			for (auto it = cc.begin(); it != cc.end(); ++it) {
				r.push_back(ent(*it));
				CHECK(r.size() <= 100000, "iteration does not end");
			}
			return r;
		}
		std::string dump() const
		{
			std::string r = "model=[";
			int n = 0;
			for (auto& i : m)
				if (n++ < 60)
					r += KD::text(i.first) + " ";
			return r + "](" + std::to_string(m.size()) + ")";
		}
		// the iterator designates the element of key i
		template<class X, class It>
		static void points(X& x, It it, int i, const char* what)
		{
			if (i < 0) {
				CHECK(it == x.end(), "%s: expected the end", what);
				return;
			}
			CHECK(it != x.end(), "%s: end instead of key %s", what, KD::text(i).c_str());
			CHECK(same(key(*it), i), "%s: key %s instead of %s", what, KD::text(KD::idx(key(*it))).c_str(), KD::text(i).c_str());
		}
		template<class X, class It>
		static void walks(X& x, const M& mm, It it, int i, const char* what)
		{
			// the neighbours of the iterator are those of the model
			if (hashed || i < 0)
				return;
			auto f = mm.find(i);
			auto n = it;
			++n;
			auto nx = std::next(f);
			points(x, n, nx == mm.end() ? -1 : nx->first, what);
			if (f != mm.begin()) {
				--it;
				points(x, it, std::prev(f)->first, what);
			}
		}
		template<class K>
		static void look(C& x, const M& mm, const K& k, int i, bool full)
		{
			const C& cx = x;
			bool has = mm.count(i) != 0;
			int fi = has ? i : -1;
			points(x, x.find(k), fi, "find");
			CHECK(x.contains(k) == has && cx.contains(k) == has && cx.count(k) == size_t(has), "contains/count of %s", KD::text(i).c_str());
			if constexpr (!hashed) {
				auto* p = cx.find_ptr(k);
				CHECK((p != nullptr) == has && (!has || KD::idx(key(*p)) == i), "find_ptr of %s", KD::text(i).c_str());
				auto l = mm.lower_bound(i), u = mm.upper_bound(i);
				int li = l == mm.end() ? -1 : l->first, ui = u == mm.end() ? -1 : u->first;
				auto itl = cx.lower_bound(k);
				points(cx, itl, li, "lower_bound");
				points(cx, cx.upper_bound(k), ui, "upper_bound");
				if (full) {
					points(cx, cx.find(k), fi, "const find");
					points(x, x.lower_bound(k), li, "lower_bound");
					points(x, x.upper_bound(k), ui, "upper_bound");
					auto r = x.equal_range(k);
					auto cr = cx.equal_range(k);
					if (has) {
						points(x, r.first, i, "equal_range");
						points(x, r.second, ui, "equal_range");
						points(cx, cr.first, i, "equal_range");
						points(cx, cr.second, ui, "equal_range");
					}
					else
						CHECK(r.first == r.second && cr.first == cr.second, "equal_range of the absent %s", KD::text(i).c_str());
					walks(cx, mm, itl, li, "neighbour of lower_bound");
				}
			}
			else if (full) {
				points(cx, cx.find(k), fi, "const find");
			}
		}
		static void lookups(C& x, const M& mm, bool full)
		{
			const C& cx = x;
			int n = KD::size();
			for (int i = 0; i < n; ++i) {
				// all present keys, their neighbours and every third
				bool near = mm.count(i) || mm.count(i - 1) || mm.count(i + 1);
				if (!near && i % (KD::strings ? 11 : 5))
					continue;
				if (KD::strings && !full && i % 3)
					continue;
				Key k = mkk(i);
				bool f = full && (i % 7 == 0 || (!mm.empty() && (i == mm.begin()->first || i == mm.rbegin()->first)));
				look(x, mm, k, i, f);
				if constexpr (Map) {
					auto p = mm.find(i);
					if (p != mm.end()) {
						CHECK(get(cx.find(k)->second) == p->second, "value of %s is %d, expected %d", KD::text(i).c_str(), get(cx.find(k)->second), p->second);
						if (f)
							CHECK(get(x.at(k)) == p->second && get(cx.at(k)) == p->second, "at");
					}
					else if (f) {
						try {
							(void)(i % 2 ? get(x.at(k)) : get(cx.at(k)));
							fail("at of an absent key does not throw");
						}
						catch (const std::out_of_range&) {
						}
					}
				}
				if constexpr (KD::strings) {
					if (f) {
						look(x, mm, std::string_view(k), i, false);
						if (k.find('\0') == std::string::npos)
							look(x, mm, k.c_str(), i, false);
					}
				}
				if constexpr (!std::is_same<Key, int>::value && !KD::strings && !hashed)
					if (f)
						look(x, mm, IntBase::ints()[size_t(i)], i, false);
			}
			if constexpr (KD::strings)
				for (int i = 0; i < n; i += full ? 7 : 43)
					for (size_t l : { size_t(0), KD::U()[size_t(i)].size() / 2, KD::U()[size_t(i)].size() }) {
						std::string p = KD::U()[size_t(i)].substr(0, l);
						std::vector<int> want;
						for (auto q = mm.lower_bound(KD::idx(p)); q != mm.end() && KD::U()[size_t(q->first)].compare(0, p.size(), p) == 0; ++q)
							want.push_back(q->first);
						points(x, x.prefix(p), want.empty() ? -1 : want[0], "prefix");
						points(cx, cx.prefix(p), want.empty() ? -1 : want[0], "const prefix");
						auto r = cx.prefix_range(p);
						size_t j = 0;
						for (auto it = r.first; it != r.second; ++it, ++j)
							CHECK(j < want.size() && KD::idx(key(*it)) == want[j], "prefix_range element %zu", j);
						CHECK(j == want.size(), "prefix_range gives %zu keys, expected %zu", j, want.size());
					}
		}
		void expect(C& x, const M& mm, const char* what, bool full) const
		{
			const C& cx = x;
			CHECK(x.size() == mm.size() && x.empty() == mm.empty(), "%s: size is %zu, expected %zu; %s", what, x.size(), mm.size(), dump().c_str());
			std::vector<int> order;
			auto mi = mm.begin();
			for (auto it = cx.begin(); it != cx.end(); ++it) {
				CHECK(order.size() < mm.size(), "%s: iteration gives more elements than the size %zu", what, mm.size());
				auto e = KD::strings && mi != mm.end() && same(key(*it), mi->first) ? std::make_pair(mi->first, val(*it)) : ent(*it);
				order.push_back(e.first);
				if (!hashed) {
					CHECK(e.first == mi->first, "%s: position %zu holds %s, expected %s; %s", what, order.size() - 1, KD::text(e.first).c_str(), KD::text(mi->first).c_str(), dump().c_str());
					CHECK(!Map || e.second == mi->second, "%s: value of %s is %d, expected %d", what, KD::text(e.first).c_str(), e.second, mi->second);
					++mi;
				}
				else {
					auto f = mm.find(e.first);
					CHECK(f != mm.end(), "%s: iteration gives %s, which is absent", what, KD::text(e.first).c_str());
					CHECK(!Map || e.second == f->second, "%s: value of %s is %d, expected %d", what, KD::text(e.first).c_str(), e.second, f->second);
				}
			}
			CHECK(order.size() == mm.size(), "%s: iteration gives %zu elements, expected %zu", what, order.size(), mm.size());
			if (hashed) {
				auto s = order;
				std::sort(s.begin(), s.end());
				for (size_t i = 1; i < s.size(); ++i)
					CHECK(s[i] != s[i - 1], "%s: iteration gives %s twice", what, KD::text(s[i]).c_str());
			}
			if (!order.empty()) {
				size_t i = order.size();
				auto it = cx.end();
				while (i-- > 0) {
					--it;
					CHECK(same(key(*it), order[i]), "%s: backward iteration at %zu", what, i);
				}
				CHECK(it == cx.begin(), "%s: backward iteration does not end at the beginning", what);
				if constexpr (!hashed) {
					i = order.size();
					for (auto r = cx.rbegin(); r != cx.rend() && i-- > 0; ++r)
						CHECK(same(key(*r), order[i]), "%s: reverse iteration at %zu", what, i);
				}
			}
			else
				CHECK(cx.begin() == cx.end() && x.begin() == x.end());
			lookups(x, mm, full);
		}
		void check() { expect(c, m, "content", true); }
		void resync()
		{
			auto ct = content();
			m.clear();
			for (auto& e : ct) {
				CHECK(e.first >= 0 && e.first < KD::size(), "an element which was never inserted");
				CHECK(m.emplace(e.first, e.second).second, "key %s twice after the exception", KD::text(e.first).c_str());
			}
			if (!hashed)
				for (size_t i = 1; i < ct.size(); ++i)
					CHECK(ct[i - 1].first < ct[i].first, "not sorted after the exception");
		}
		uint64_t fingerprint()
		{
			Fp f;
			f.add(uint64_t(mode));
			f.add(uint64_t(acc().live_blocks));
			for (auto& e : content()) {
				f.add(uint64_t(e.first));
				f.add(uint64_t(e.second));
			}
			return f.h;
		}
		static const char* where_name(int w)
		{
			static const char* n[] = { "lowest", "highest", "absent middle", "absent 1/4", "present first", "present middle", "present last", "absent neighbour" };
			return n[w];
		}
		int target(int w) const
		{
			int n = KD::size();
			int nth = 0;
			switch (w) {
				case 0:
					for (int i = 0; i < n; ++i)
						if (!m.count(i))
							return i;
					return -1;
				case 1:
					for (int i = n - 1; i >= 0; --i)
						if (!m.count(i))
							return i;
					return -1;
				case 2:
				case 3:
					for (int k = 0, i = w == 2 ? n / 2 : n / 4; k < n; ++k, i = (i + 1) % n)
						if (!m.count(i))
							return i;
					return -1;
				case 4: nth = 0; break;
				case 5: nth = int(m.size() / 2); break;
				case 6: nth = int(m.size()) - 1; break;
				case 7: {
					if (m.empty())
						return -1;
					int i = std::next(m.begin(), long(m.size() / 3))->first;
					for (int k = 0; k < n; ++k, i = (i + 1) % n)
						if (!m.count(i))
							return i;
					return -1;
				}
			}
			if (m.empty() || (w == 5 && m.size() < 3) || (w == 6 && m.size() < 2))
				return -1;
			return std::next(m.begin(), nth)->first;
		}
		// result of an insertion
		template<class It>
		void inserted(It it, bool ok, int i, int v)
		{
			bool fresh = !m.count(i);
			CHECK(ok == fresh, "insertion of %s reports %d", KD::text(i).c_str(), int(ok));
			if (fresh)
				m.emplace(i, Map ? v : 0);
			points(c, it, i, "insertion");
			if constexpr (Map)
				CHECK(get(it->second) == m[i], "insertion: value %d, expected %d", get(it->second), m[i]);
			walks(c, m, it, i, "neighbour of the inserted");
		}
		template<class P>
		void result(const P& r, int i, int v)
		{
			inserted(r.first, r.second, i, v);
		}
		typename C::const_iterator nth_it(size_t n) const
		{
			const C& cc = c;
			auto it = cc.begin();
			while (n--)
				++it;
			return it;
		}
		static void ops(std::vector<Op<Sys>>& o)
		{
			using S = Sys;
			auto add = [&](std::string n, std::function<bool(S&)> f, int fl = 0) { o.push_back(Op<S>{ n, f, fl }); };
			auto addk = [&](std::string n, int w, std::function<void(S&, int, int)> f, int fl = 0) {
				add(n + " " + where_name(w), [w, f](S& s) {
					int k = s.target(w);
					if (k < 0)
						return false;
					f(s, k, s.uid++);
					return true;
				}, fl);
			};
			for (int w = 0; w < 8; ++w) {
				if (few && (w == 1 || w == 3 || w == 4 || w == 6))
					continue;
				int deep = w == 0 || w == 2 || w == 7 ? DEEP : 0;
				addk("insert(&&)", w, [](S& s, int k, int v) {
					V x = mkv(k, v);
					bool had = s.m.count(k) != 0;
					auto r = A([&] { return s.c.insert(std::move(x)); });
					s.result(r, k, v);
					CHECK(!had || KD::idx(key(x)) == k, "the argument was moved from although the key is present");
				}, deep | FOLLOWUP);
				addk("emplace", w, [](S& s, int k, int v) {
					Key kk = mkk(k);
					auto r = A([&] {
						if constexpr (Map)
							return s.c.emplace(std::move(kk), v);
						else
							return s.c.emplace(std::move(kk));
					});
					s.result(r, k, v);
				});
				if constexpr (copyable)
					addk("insert(const&)", w, [](S& s, int k, int v) {
						V x = mkv(k, v);
						auto r = A([&] { return s.c.insert(x); });
						s.result(r, k, v);
						CHECK(KD::idx(key(x)) == k, "the argument changed");
					}, w == 7 ? FOLLOWUP : 0);
				// hints: 0 begin, 1 end, 2 lower bound, 3 before it, 4 middle
				for (int h = 0; h < 5; ++h) {
					if ((few && h != 2 && h != 4) || (hashed && h > 1))
						continue;
					auto hint = [h](S& s, int k) -> typename C::const_iterator {
						const C& cc = s.c;
						if (h == 0)
							return cc.begin();
						if (h == 1)
							return cc.end();
						if (h == 4)
							return s.nth_it(s.m.size() / 2);
						size_t p = size_t(std::distance(s.m.begin(), s.m.lower_bound(k)));
						return s.nth_it(h == 3 && p ? p - 1 : p);
					};
					std::string hn = h == 0 ? "(begin)" : h == 1 ? "(end)" : h == 2 ? "(lower)" : h == 3 ? "(before lower)" : "(middle)";
					addk("emplace_hint" + hn, w, [hint](S& s, int k, int v) {
						auto hh = hint(s, k);
						Key kk = mkk(k);
						auto r = A([&] {
							if constexpr (Map)
								return s.c.emplace_hint(hh, std::move(kk), v);
							else
								return s.c.emplace_hint(hh, std::move(kk));
						});
						s.inserted(r, !s.m.count(k), k, v);
					});
					addk("insert" + hn, w, [hint](S& s, int k, int v) {
						V x = mkv(k, v);
						auto hh = hint(s, k);
						auto r = A([&] { return s.c.insert(hh, std::move(x)); });
						s.inserted(r, !s.m.count(k), k, v);
					});
					if constexpr (copyable)
						addk("insert" + hn + " const&", w, [hint](S& s, int k, int v) {
							V x = mkv(k, v);
							auto hh = hint(s, k);
							auto r = A([&] { return s.c.insert(hh, x); });
							s.inserted(r, !s.m.count(k), k, v);
						});
					if constexpr (Map) {
						addk("try_emplace" + hn, w, [hint](S& s, int k, int v) {
							auto hh = hint(s, k);
							Key kk = mkk(k);
							auto r = A([&] { return s.c.try_emplace(hh, std::move(kk), v); });
							s.inserted(r, !s.m.count(k), k, v);
						});
						addk("insert_or_assign" + hn, w, [hint](S& s, int k, int v) {
							auto hh = hint(s, k);
							Key kk = mkk(k);
							Val x = make<Val>(v);
							auto r = A([&] { return s.c.insert_or_assign(hh, std::move(kk), std::move(x)); });
							bool had = s.m.count(k) != 0;
							if (had)
								s.m[k] = v;
							s.inserted(r, !had, k, v);
						});
					}
				}
				if constexpr (Map) {
					addk("try_emplace(&&)", w, [](S& s, int k, int v) {
						Key kk = mkk(k);
						bool had = s.m.count(k) != 0;
						auto r = A([&] { return s.c.try_emplace(std::move(kk), v); });
						s.result(r, k, v);
						CHECK(!had || KD::idx(kk) == k, "key moved from although present");
					});
					addk("operator[](&&)", w, [](S& s, int k, int) {
						Key kk = mkk(k);
						auto& r = A([&]() -> Val& { return s.c[std::move(kk)]; });
						s.m.emplace(k, 0);
						CHECK(get(r) == s.m[k], "operator[] gives %d, expected %d", get(r), s.m[k]);
						Key k2 = mkk(k);
						CHECK(&r == &s.c.find(k2)->second, "operator[]");
					});
					addk("insert_or_assign(&&)", w, [](S& s, int k, int v) {
						Key kk = mkk(k);
						Val x = make<Val>(v);
						auto r = A([&] { return s.c.insert_or_assign(std::move(kk), std::move(x)); });
						bool had = s.m.count(k) != 0;
						if (had)
							s.m[k] = v;
						CHECK(r.second == !had);
						s.inserted(r.first, !had, k, v);
					}, w == 5 ? DEEP : 0);
					if constexpr (copyable) {
						addk("try_emplace(const&)", w, [](S& s, int k, int v) {
							Key kk = mkk(k);
							auto r = A([&] { return s.c.try_emplace(kk, v); });
							s.result(r, k, v);
							CHECK(KD::idx(kk) == k);
						});
						addk("operator[](const&) =", w, [](S& s, int k, int v) {
							Key kk = mkk(k);
							Val x = make<Val>(v);
							A([&] { s.c[kk] = std::move(x); });
							s.m[k] = v;
						});
						addk("insert_or_assign(const&)", w, [](S& s, int k, int v) {
							Key kk = mkk(k);
							Val x = make<Val>(v);
							auto r = A([&] { return s.c.insert_or_assign(kk, x); });
							bool had = s.m.count(k) != 0;
							if (had)
								s.m[k] = v;
							s.inserted(r.first, r.second, k, v);
							CHECK(get(x) == v);
						});
						// the value is an element of the container
						addk("try_emplace(own value)", w, [](S& s, int k, int) {
							if (s.m.empty())
								return;
							Key kk = mkk(k);
							int p = s.target(5) >= 0 ? s.target(5) : s.target(4);
							Key pk = mkk(p);
							int pv = s.m[p];
							auto& ref = s.c.find(pk)->second;
							auto r = A([&] { return s.c.try_emplace(kk, ref); });
							s.result(r, k, pv);
						});
					}
				}
				addk("erase(key)", w, [](S& s, int k, int) {
					Key kk = mkk(k);
					size_t r = A([&] { return s.c.erase(kk); });
					CHECK(r == s.m.erase(k), "erase(key) returns %zu", r);
				}, w == 5 ? DEEP : w == 4 ? FOLLOWUP : 0);
			}
			for (int p = 0; p < 5; ++p) {
				auto pos = [p](S& s) -> int {
					int n = int(s.m.size());
					if (p >= n)
						return -1;
					return p == 0 ? 0 : p == 1 ? n - 1 : p == 2 ? n / 2 : p == 3 ? n / 4 : n - 2;
				};
				std::string pn = p == 0 ? "(first)" : p == 1 ? "(last)" : p == 2 ? "(1/2)" : p == 3 ? "(1/4)" : "(last but one)";
				add("erase" + pn, [pos](S& s) {
					int i = pos(s);
					if (i < 0)
						return false;
					auto it = s.nth_it(size_t(i));
					int k = KD::idx(key(*it));
					auto n = it;
					++n;
					const C& cc = s.c;
					int nk = n == cc.end() ? -1 : KD::idx(key(*n));
					auto r = A([&] { return s.c.erase(it); });
					s.m.erase(k);
					points(s.c, r, nk, "erase returns");
					walks(s.c, s.m, r, nk, "neighbour of the iterator erase returned");
					return true;
				}, p < 3 ? DEEP | (p ? 0 : FOLLOWUP) : 0);
			}
			for (int q = 0; q < 6; ++q) {
				static const char* qn[] = { " low half", " high half", " middle", " empty range", " all", " all but two" };
				if (few && (q == 0 || q == 3))
					continue;
				add(std::string("erase") + qn[q], [q](S& s) {
					size_t n = s.m.size();
					if (q == 5 && n < 3)
						return false;
					auto ab = q == 0 ? std::make_pair(size_t(0), n / 2) : q == 1 ? std::make_pair(n / 2, n) : q == 2 ? std::make_pair(n / 4, n - n / 4) : q == 3 ? std::make_pair(n / 2, n / 2) : q == 4 ? std::make_pair(size_t(0), n) : std::make_pair(size_t(1), n - 1);
					auto ct = s.content();
					auto b = s.nth_it(ab.first), e = s.nth_it(ab.second);
					auto r = A([&] { return s.c.erase(b, e); });
					for (size_t i = ab.first; i < ab.second; ++i)
						s.m.erase(ct[i].first);
					points(s.c, r, ab.second < n ? ct[ab.second].first : -1, "erase returns");
					return true;
				}, q == 2 || q == 5 ? DEEP : 0);
			}
			for (int q = 0; q < 4; ++q)
				add("erase_if" + std::string(q == 0 ? " none" : q == 1 ? " every other" : q == 2 ? " low" : " all"), [q](S& s) {
					std::set<int> gone;
					size_t i = 0;
					for (auto& e : s.m) {
						if (q == 3 || (q == 1 && i % 2) || (q == 2 && i < s.m.size() / 2))
							gone.insert(e.first);
						++i;
					}
					size_t r = A([&] {
						return erase_if(s.c, [&](const V& v) {
							point(F_FUNC);
							return gone.count(KD::idx(key(v))) != 0;
						});
					});
					CHECK(r == gone.size(), "erase_if returns %zu, expected %zu", r, gone.size());
					for (int k : gone)
						s.m.erase(k);
					return true;
				}, q == 1 ? DEEP : 0);
			add("clear", [](S& s) {
				s.c.clear();
				s.m.clear();
				return true;
			}, STRONG);
			if constexpr (hashed) {
				for (int n : std::vector<int>{ 0, 1, 100, 2000 })
					add("reserve(" + std::to_string(n) + ")", [n](S& s) {
						A([&] { s.c.reserve(size_t(n)); });
						return true;
					}, n == 100 ? DEEP : 0);
				add("rehash()", [](S& s) {
					A([&] { s.c.rehash(); });
					return true;
				});
			}
			else if constexpr (!Map)
				add("shrink_to_fit", [](S& s) {
					A([&] { s.c.shrink_to_fit(); });
					return true;
				});
			if constexpr (!hashed) {
			for (int q = 0; q < 4; ++q)
				add("merge " + std::string(q == 0 ? "empty" : q == 1 ? "absent" : q == 2 ? "same keys" : "mixed"), [q](S& s) {
					C src = make_c(s.mode, s.c.get_allocator());
					M sm;
					int n = KD::size();
					for (int i = 0, k = 0; q && k < (W == NORMAL ? 80 : 9) && i < n; i += q == 3 ? 3 : 1)
						if (q == 3 || (q == 1) == !s.m.count(i)) {
							int v = s.uid++;
							Disarmed d;
							src.insert(mkv(i, v));
							sm.emplace(i, Map ? v : 0);
							++k;
						}
					A([&] { s.c.merge(src); });
					M rest;
					for (auto& e : sm)
						if (!s.m.emplace(e.first, e.second).second)
							rest.insert(e);
					s.expect(src, rest, "source of the merge", false);
					int a = s.target(0) >= 0 ? s.target(0) : 0;
					if (!rest.count(a)) {
						src.insert(mkv(a, 7));
						rest.emplace(a, Map ? 7 : 0);
						s.expect(src, rest, "source of the merge after an insertion", false);
					}
					return true;
				});
			add("merge itself", [](S& s) {
				A([&] { s.c.merge(s.c); });
				return true;
			});
			}
			if constexpr (copyable) {
				add("copy", [](S& s) {
					A([&] {
						C x(s.c);
						Disarmed d;
						CHECK(x == s.c && !(x != s.c), "copy compares different");
						s.expect(x, s.m, "copy", false);
						if (!s.m.empty()) {
							auto mm = s.m;
							int k = s.target(4);
							x.erase(mkk(k));
							mm.erase(k);
							CHECK(x != s.c && !(s.c == x), "different sizes compare equal");
							s.expect(x, mm, "erased copy", false);
						}
					});
					return true;
				});
				add("compare", [](S& s) {
					if (s.m.empty() || s.target(2) < 0)
						return false;
					for (int w : std::vector<int>{ 4, 5, 6 }) {
						int k = s.target(w), a = s.target(2);
						if (k < 0)
							continue;
						C x(s.c);
						x.erase(mkk(k));
						x.insert(mkv(a, s.m[k]));
						CHECK(x != s.c && !(x == s.c) && s.c != x, "containers with another element compare equal");
						if constexpr (Map) {
							C y(s.c);
							y.find(mkk(k))->second = Val(-5);
							CHECK(y != s.c && !(y == s.c) && s.c != y, "containers with another value compare equal");
						}
					}
					return true;
				}, NOFAULT);
				range_ops(o);
			}
			add("swap", [](S& s) {
				C x = make_c(5, s.c.get_allocator());
				int a = 3, b = KD::size() - 3;
				{
					Disarmed d;
					x.insert(mkv(b, 2));
					x.insert(mkv(a, 1));
				}
				A([&] { s.c.swap(x); });
				s.expect(x, s.m, "swapped", false);
				s.mode = 5;
				s.m.clear();
				s.m[a] = Map ? 1 : 0;
				s.m[b] = Map ? 2 : 0;
				return true;
			}, STRONG);
		}
		static std::vector<std::pair<int, int>> range(Sys& s, int shape, int n)
		{
			std::vector<std::pair<int, int>> r;
			int N = KD::size();
			std::vector<int> abs, pre;
			for (int i = 0; i < N; ++i)
				(s.m.count(i) ? pre : abs).push_back(i);
			for (int i = 0; i < n && i < N; ++i) {
				int k;
				switch (shape) {
					case 0: k = abs.empty() ? i : abs[size_t(i) % abs.size()]; break;
					case 1: k = N - 1 - i; break;
					case 2: k = (i * 101 + 7) % N; break;
					case 3: k = pre.empty() ? i : pre[size_t(i * 3) % pre.size()]; break;
					case 4: k = i; break;
					default: k = (i / 3) * 2 % N; break;
				}
				r.push_back({ k, s.uid++ });
			}
			return r;
		}
		static void range_ops(std::vector<Op<Sys>>& o)
		{
			using S = Sys;
			static const char* shn[] = { "ascending absent", "descending", "strided", "present", "all of the universe", "repeated" };
			auto add = [&](std::string n, std::function<bool(S&)> f, int fl = 0) { o.push_back(Op<S>{ n, f, fl }); };
			for (int shape = 0; shape < 6; ++shape)
				for (int n : std::vector<int>{ 0, 1, 5, 70, 999 }) {
					if ((n == 0 && shape) || (n == 999) != (shape == 4) || (few && (n == 999 || n == 1)) || (shape == 5 && n == 1))
						continue;
					std::string nn = " " + std::to_string(n) + " " + shn[shape];
					for (int cat = 0; cat < 4; ++cat) {
						static const char* cn[] = { "", " (forward)", " (input)", " (moved)" };
						if (cat && (n == 999 || n == 70))
							continue;
						if (few && cat == 2)
							continue;
						add("insert range" + nn + cn[cat], [shape, n, cat](S& s) {
							auto r = range(s, shape, n);
							auto v = s.values(r);
							A([&] { give(v, cat, [&](auto a, auto b) { s.c.insert(a, b); }); });
							s.merge_range(r);
							return true;
						}, shape == 2 && n == 70 ? DEEP : 0);
						if constexpr (!hashed)
							add("assign range" + nn + cn[cat], [shape, n, cat](S& s) {
								auto r = range(s, shape, n);
								auto v = s.values(r);
								A([&] { give(v, cat, [&](auto a, auto b) { s.c.assign(a, b); }); });
								s.m.clear();
								s.merge_range(r);
								return true;
							});
					}
					add("construct from range" + nn, [shape, n](S& s) {
						auto r = range(s, shape, n);
						auto v = s.values(r);
						std::unique_ptr<C> x;
						A([&] {
							give(v, s.m.size() % 4, [&](auto a, auto b) {
								if constexpr (hashed)
									x.reset(new C(a, b, typename KD::Hash(4), typename KD::Equal(4), s.c.get_allocator()));
								else
									x.reset(new C(a, b, s.c.get_allocator()));
							});
						});
						s.c.swap(*x);
						s.mode = 4;
						s.m.clear();
						s.merge_range(r);
						return true;
					});
				}
			add("insert initializer list", [](S& s) {
				auto r = range(s, 2, 3);
				auto v = s.values(r);
				A([&] { s.c.insert({ v[0], v[1], v[2] }); });
				s.merge_range(r);
				return true;
			});
			if constexpr (!hashed)
				add("= initializer list", [](S& s) {
					auto r = range(s, 2, 3);
					auto v = s.values(r);
					A([&] { s.c = { v[0], v[1], v[2] }; });
					s.m.clear();
					s.merge_range(r);
					return true;
				});
			for (int p = 4; p < 7; ++p)
				add("insert an own element " + std::to_string(p), [p](S& s) {
					int k = s.target(p);
					if (k < 0)
						return false;
					const C& cc = s.c;
					auto r = A([&] { return s.c.insert(*cc.find(mkk(k))); });
					s.result(r, k, s.m[k]);
					return true;
				});
			add("erase by an own key", [](S& s) {
				int k = s.target(5);
				if (k < 0)
					return false;
				const C& cc = s.c;
				size_t r = A([&] { return s.c.erase(key(*cc.find(mkk(k)))); });
				CHECK(r == 1);
				s.m.erase(k);
				return true;
			});
		}
		void merge_range(const std::vector<std::pair<int, int>>& r)
		{
			for (auto& e : r)
				m.emplace(e.first, Map ? e.second : 0);
		}
		template<class F>
		static void give(std::vector<V>& v, size_t cat, F f)
		{
			const V* p = v.data();
			switch (cat) {
				case 0: f(v.begin(), v.end()); break;
				case 1: f(FwdIt<V>(p), FwdIt<V>(p + v.size())); break;
				case 2: f(InIt<V>(p), InIt<V>(p + v.size())); break;
				default: f(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end())); break;
			}
		}
	};
}
