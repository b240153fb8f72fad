#pragma once
// Operation sequences on concurrent_map / concurrent_set, from one thread, against std::map.
#include "elems.hpp"
#include <seq/concurrent_map.hpp>
#include <map>
#include <memory>
#include <set>
namespace ch
{
	using namespace mc;
	struct Look // heterogeneous key
	{
		int v;
		int get() const { return v; }
	};
	// 0 spread, 1 all equal, 2 four values, 3 one bucket but distinct stored bytes, 4 identity, 5 one bucket of every shard
	struct H
	{
		using is_avalanching = void;
		using is_transparent = void;
		int mode = 0;
		H(int m = 0) noexcept : mode(m) {}
		template<class K>
		size_t operator()(const K& k) const noexcept
		{
			uint64_t v = uint64_t(unsigned(get(k)));
			switch (mode) {
				case 1: return 7;
				case 2: return (v & 3) * 0x0001800100010001ull;
				case 3: return v << 56;
				case 4: return v;
				case 5: return v << 47;
				default: v *= 0x9E3779B97F4A7C15ull; return v ^ (v >> 29);
			}
		}
	};
	struct E
	{
		using is_transparent = void;
		int tag = 0;
		E(int t = 0) noexcept : tag(t) {}
		template<class A, class B>
		bool operator()(const A& a, const B& b) const
		{
			return get(a) == get(b);
		}
	};
	// not transparent, not avalanching, stateless
	struct H0
	{
		template<class K>
		size_t operator()(const K& k) const noexcept
		{
			return size_t(unsigned(get(k)));
		}
	};
	struct E0
	{
		template<class K>
		bool operator()(const K& a, const K& b) const
		{
			return get(a) == get(b);
		}
	};
	// i<n> insert fresh keys, e<n> erase the n oldest, E<n> the n newest, o every other key, c clear, R<n> reserve, N<n> rehash, L<n> max_load_factor n/100
	struct Shape
	{
		const char* name;
		int mode;
		const char* prog;
	};
	template<class Key, bool Map, class Val, unsigned Shards, bool Stateful = true, int Which = 0>
	struct Sys
	{
		using V = std::conditional_t<Map, std::pair<Key, Val>, Key>;
		using Al = TAlloc<V>;
		using Hh = std::conditional_t<Stateful, H, H0>;
		using Ee = std::conditional_t<Stateful, E, E0>;
		using C = std::conditional_t<Map, seq::concurrent_map<Key, Val, Hh, Ee, Al, Shards>, seq::concurrent_set<Key, Hh, Ee, Al, Shards>>;
		using M = std::map<int, int>;
		static constexpr bool copyable = std::is_copy_constructible<Key>::value && std::is_copy_constructible<Val>::value;
		static const Key& key(const V& v)
		{
			if constexpr (Map)
				return v.first;
			else
				return v;
		}
		static int val(const V& v)
		{
			if constexpr (Map)
				return get(v.second);
			else
				return 0;
		}
		static V mkv(int k, int v)
		{
			Disarmed d;
			if constexpr (Map)
				return V(Key(k), Val(v));
			else
				return V(Key(k));
		}
		static Hh mkh(int mode)
		{
			if constexpr (Stateful)
				return H(mode);
			else
				return H0();
		}
		static Ee mke(int mode)
		{
			if constexpr (Stateful)
				return E(mode);
			else
				return E0();
		}
		int mode;
		C c;
		M m;
		int next = 100;
		int gone = 99;
		static const std::vector<Shape>& shapes()
		{
			static const std::vector<Shape> v = {
				{ "new", 0, "" },		{ "1", 0, "i1" },		 { "5", 4, "i5" },		{ "cleared", 4, "i20 c" },     { "reserved", 0, "R10" },
				{ "13", 4, "i13" },		{ "15", 4, "i15" },		 { "15 identical", 1, "i15" },	{ "16 identical", 1, "i16" },  { "30 identical", 1, "i30" },
				{ "31 identical", 1, "i31" },	{ "46 identical", 1, "i46" },	 { "46 one bucket", 3, "i46" }, { "40 four hashes", 2, "i40" }, { "shrunk chain", 1, "i40 e10" },
				{ "halved chain", 1, "i46 o" }, { "24", 4, "i24" },		 { "70", 4, "i70" },		{ "70 spread", 0, "i70" },     { "emptied", 0, "i40 e40" },
				{ "rehashed", 4, "i30 N200" },	{ "packed", 4, "i60 L400" },	 { "shards", 5, "i40" },	{ "cleared chain", 1, "i40 c i3" }, { "shrunk table", 4, "i70 e60 N1" },
			};
			static const std::vector<Shape> few = { { "new", 0, "" }, { "1", 0, "i1" }, { "cleared", 4, "i20 c" }, { "16 identical", 1, "i16" }, { "40 four hashes", 2, "i40" }, { "70", 4, "i70" }, { "rehashed", 4, "i30 N200" } };
			return Which ? few : v;
		}
		static int nseeds() { return int(shapes().size()); }
		static std::string seed_name(int i) { return shapes()[size_t(i)].name; }
		static int seed_depth(int, bool) { return -1; }
		Sys(int seed)
		  : mode(Stateful ? shapes()[size_t(seed)].mode : 0)
		  , c(0, mkh(Stateful ? shapes()[size_t(seed)].mode : 0), mke(Stateful ? shapes()[size_t(seed)].mode : 0), Al(1))
		{
			const char* p = shapes()[size_t(seed)].prog;
			while (*p) {
				char o = *p++;
				if (o == ' ')
					continue;
				int n = 0;
				while (*p >= '0' && *p <= '9')
					n = n * 10 + *p++ - '0';
				if (o == 'c') {
					c.clear();
					m.clear();
				}
				else if (o == 'R')
					c.reserve(size_t(n));
				else if (o == 'N')
					c.rehash(size_t(n));
				else if (o == 'L')
					c.max_load_factor(float(n) / 100.f);
				else if (o == 'i')
					while (n--)
						put();
				else if (o == 'e')
					while (n-- && !m.empty())
						take(m.begin()->first);
				else if (o == 'E')
					while (n-- && !m.empty())
						take(m.rbegin()->first);
				else if (o == 'o')
					for (int k = 100; k < next; k += 2)
						take(k);
			}
		}
		void put()
		{
			int k = next++;
			CHECK(c.insert(mkv(k, -k)), "insertion of the absent key %d", k);
			m[k] = Map ? -k : 0;
		}
		void take(int k)
		{
			CHECK(c.erase(make<Key>(k)) == m.erase(k), "erase %d", k);
			gone = k;
		}
		static std::string str(const M& x)
		{
			std::string r = "{";
			for (auto& p : x)
				r += std::to_string(p.first) + ":" + std::to_string(p.second) + " ";
			return r + "}";
		}
		static void expect(const C& x, const M& mm, int hm, const char* what, int absent)
		{
			M seen;
			C& nx = const_cast<C&>(x);
			CHECK(x.size() == mm.size() && x.empty() == mm.empty(), "%s: size %zu expected %zu", what, x.size(), mm.size());
			bool r = x.visit_all([&](const V& v) {
				CHECK(seen.emplace(get(key(v)), val(v)).second, "%s: key %d is visited twice", what, get(key(v)));
				return true;
			});
			CHECK(r && seen == mm, "%s: content %s expected %s", what, str(seen).c_str(), str(mm).c_str());
			for (auto& p : mm) {
				Key k = make<Key>(p.first);
				int got = -1, calls = 0;
				CHECK(x.visit(k, [&](const V& v) { got = val(v); calls += get(key(v)) == p.first; }) == 1 && got == p.second && calls == 1, "%s: visit(%d): value %d expected %d, %d calls", what, p.first, got, p.second, calls);
				CHECK(x.contains(k) && x.count(k) == 1);
				if constexpr (Stateful) {
					Look l{ p.first };
					CHECK(x.contains(l) && x.count(l) == 1);
					CHECK(nx.visit(l, [&](V& v) { got = val(v) + 1; }) == 1 && got == p.second + 1, "%s: visit by heterogeneous key", what);
					CHECK(x.cvisit(l, [&](const V& v) { got = val(v); }) == 1 && got == p.second, "%s: cvisit by heterogeneous key", what);
				}
			}
			for (int k : { absent, -3, 5, 1000 })
				if (!mm.count(k)) {
					Key kk = make<Key>(k);
					int calls = 0;
					CHECK(!x.contains(kk) && x.count(kk) == 0 && x.visit(kk, [&](const V&) { ++calls; }) == 0 && nx.visit(kk, [&](V&) { ++calls; }) == 0 && x.cvisit(kk, [&](const V&) { ++calls; }) == 0 && !calls,
					      "%s: absent key %d is found", what, k);
					if constexpr (Stateful)
						CHECK(!x.contains(Look{ k }) && !x.count(Look{ k }) && !nx.visit(Look{ k }, [&](V&) { ++calls; }) && !calls);
				}
			if constexpr (Stateful)
				CHECK(x.hash_function().mode == hm && x.key_eq().tag == hm, "%s: functors of mode %d and %d, expected %d", what, x.hash_function().mode, x.key_eq().tag, hm);
			(void)hm;
			float lf = x.load_factor();
			CHECK(lf >= 0.f && (mm.empty() ? lf == 0.f : lf > 0.f) && x.max_load_factor() > 0.f, "%s: load factor %g", what, double(lf));
		}
		void check()
		{
			expect(c, m, mode, "table", next);
			expect(c, m, mode, "table", gone);
			CHECK(c.get_allocator().id == 1);
			CHECK(c == c && !(c != c), "not equal to itself");
			// visits: every element once, stop on false
			size_t n = 0;
			CHECK(c.visit_all([&](V&) { ++n; return true; }) && n == m.size());
			n = 0;
			CHECK(c.cvisit_all([&](const V&) { ++n; return true; }) && n == m.size());
			n = 0;
			CHECK(c.visit_all(std::execution::seq, [&](V&) { ++n; return true; }) && n == m.size(), "%zu elements visited with an execution policy, expected %zu", n, m.size());
			n = 0;
			CHECK(static_cast<const C&>(c).visit_all(std::execution::seq, [&](const V&) { ++n; return true; }) && n == m.size());
			n = 0;
			CHECK(c.cvisit_all(std::execution::seq, [&](const V&) { ++n; return true; }) && n == m.size());
			for (size_t stop : { size_t(1), m.size() / 2, m.size() })
				if (stop && stop <= m.size()) {
					n = 0;
					CHECK(!c.visit_all([&](V&) { return ++n < stop; }) && n == stop, "%zu elements visited although the visitor stopped at %zu", n, stop);
					n = 0;
					CHECK(!static_cast<const C&>(c).visit_all([&](const V&) { return ++n < stop; }) && n == stop);
				}
		}
		uint64_t fingerprint()
		{
			Fp f;
			f.add(uint64_t(mode));
			f.add(uint64_t(double(c.max_load_factor()) * 1000) + uint64_t(double(c.load_factor()) * 1000000) * 1000);
			// the layout, by the order of the visit; the stored values separately
			c.visit_all([&](V& v) {
				f.add(uint64_t(unsigned(get(key(v)))));
				f.add(uint64_t(unsigned(val(v))));
				return true;
			});
			f.add(uint64_t(acc().live_blocks));
			f.add(uint64_t(acc().live_bytes));
			return f.h;
		}
		void resync() {}
		// keys an operation is applied to
		enum K { FRESH, GONE, FIRST, LAST, MID };
		static const char* kname(int k)
		{
			static const char* const n[] = { "(absent)", "(erased)", "(first)", "(last)", "(middle)" };
			return n[k];
		}
		int pick(int k)
		{
			switch (k) {
				case FRESH: return next++;
				case GONE: return m.count(gone) ? -1 : gone;
				case FIRST: return m.empty() ? -1 : m.begin()->first;
				case LAST: return m.size() < 2 ? -1 : m.rbegin()->first;
				default: return m.size() < 3 ? -1 : std::next(m.begin(), ptrdiff_t(m.size() / 2))->first;
			}
		}
		// result of an insertion of key k
		void inserted(bool r, int k, int v, const char* what)
		{
			bool absent = !m.count(k);
			CHECK(r == absent, "%s of the %s key %d returns %d", what, absent ? "absent" : "present", k, int(r));
			if (absent)
				m[k] = Map ? v : 0;
		}
		static void fill(C& o, M& mo, int n, int first, int v)
		{
			for (int i = 0; i < n; ++i) {
				CHECK(o.insert(mkv(first + i, v - i)), "insertion of the absent key %d", first + i);
				mo[first + i] = Map ? v - i : 0;
			}
		}
		static void ops(std::vector<Op<Sys>>& o)
		{
			using S = Sys;
			auto add = [&](std::string n, std::function<bool(S&)> f, int fl = 0) { o.push_back(Op<S>{ n, f, fl | NOFAULT }); };
			for (int w : std::vector<int>{ FRESH, GONE, FIRST, LAST, MID }) {
				std::string ws = kname(w);
				int deep = w == FRESH || w == MID ? DEEP : 0;
#define KEYOP(name, flags, ...)                                                                                                                                                              \
	add(                                                                                                                                                                                 \
	  std::string(name) + ws, [w](S& s) {                                                                                                                                                \
		  int k = s.pick(w);                                                                                                                                                         \
		  if (k < 0)                                                                                                                                                                 \
			  return false;                                                                                                                                                      \
		  __VA_ARGS__;                                                                                                                                                               \
		  return true;                                                                                                                                                               \
	  },                                                                                                                                                                                 \
	  flags)
				KEYOP("insert(&&)", deep | (w == GONE ? FOLLOWUP : 0), {
					V x = mkv(k, 8);
					bool present = s.m.count(k);
					bool r = A([&] { return s.c.insert(std::move(x)); });
					if (present)
						CHECK(get(key(x)) == k && val(x) == (Map ? 8 : 0), "the value refused was moved from");
					s.inserted(r, k, 8, "insert(&&)");
				});
				KEYOP("emplace", deep, {
					bool r = A([&] {
						if constexpr (Map)
							return s.c.emplace(k, 9);
						else
							return s.c.emplace(k);
					});
					s.inserted(r, k, 9, "emplace");
				});
				for (int cv = 0; cv < 2; ++cv) {
					auto eov = [w, cv](S& s) {
						int k = s.pick(w);
						if (k < 0)
							return false;
						int calls = 0;
						auto f = [&](auto& v) {
							CHECK(get(key(v)) == k && s.m.count(k) && val(v) == s.m[k], "the visitor receives another element");
							++calls;
							if constexpr (Map && !std::is_const<std::remove_reference_t<decltype(v)>>::value) {
								v.second = Val(-77);
								s.m[k] = -77;
							}
						};
						bool present = s.m.count(k);
						bool r = A([&] {
							if constexpr (Map)
								return cv ? s.c.emplace_or_cvisit(k, 9, f) : s.c.emplace_or_visit(k, 9, f);
							else
								return cv ? s.c.emplace_or_cvisit(k, f) : s.c.emplace_or_visit(k, f);
						});
						CHECK(calls == int(present), "%d calls of the visitor", calls);
						s.inserted(r, k, 9, "emplace_or_visit");
						return true;
					};
					add((cv ? "emplace_or_cvisit" : "emplace_or_visit") + ws, eov);
					auto iov = [w, cv](S& s) {
						int k = s.pick(w);
						if (k < 0)
							return false;
						int calls = 0;
						auto f = [&](auto& v) {
							CHECK(get(key(v)) == k && s.m.count(k) && val(v) == s.m[k], "the visitor receives another element");
							++calls;
							if constexpr (Map && !std::is_const<std::remove_reference_t<decltype(v)>>::value) {
								v.second = Val(-78);
								s.m[k] = -78;
							}
						};
						bool present = s.m.count(k);
						V x = mkv(k, 6);
						bool r = A([&] { return cv ? s.c.insert_or_cvisit(std::move(x), f) : s.c.insert_or_visit(std::move(x), f); });
						CHECK(calls == int(present), "%d calls of the visitor", calls);
						if (present)
							CHECK(get(key(x)) == k && val(x) == (Map ? 6 : 0), "the value refused was moved from");
						s.inserted(r, k, 6, "insert_or_visit");
						return true;
					};
					add((cv ? "insert_or_cvisit" : "insert_or_visit") + ws, iov);
					if constexpr (Map) {
						auto teov = [w, cv](S& s) {
							int k = s.pick(w);
							if (k < 0)
								return false;
							int calls = 0;
							auto f = [&](auto& v) {
								CHECK(get(key(v)) == k && s.m.count(k) && val(v) == s.m[k], "the visitor receives another element");
								++calls;
							};
							bool present = s.m.count(k);
							Key kk = make<Key>(k);
							bool r = A([&] { return cv ? s.c.try_emplace_or_cvisit(std::move(kk), 4, f) : s.c.try_emplace_or_visit(std::move(kk), 4, f); });
							CHECK(calls == int(present), "%d calls of the visitor", calls);
							if (present)
								CHECK(get(kk) == k, "the key refused was moved from");
							s.inserted(r, k, 4, "try_emplace_or_visit");
							return true;
						};
						add((cv ? "try_emplace_or_cvisit" : "try_emplace_or_visit") + ws, teov);
					}
				}
				if constexpr (Map) {
					KEYOP("try_emplace(&&)", 0, {
						Key kk = make<Key>(k);
						Val vv = make<Val>(3);
						bool present = s.m.count(k);
						bool r = A([&] { return s.c.try_emplace(std::move(kk), std::move(vv)); });
						if (present)
							CHECK(get(kk) == k && get(vv) == 3, "arguments moved from although the key is present");
						s.inserted(r, k, 3, "try_emplace");
					});
					KEYOP("insert_or_assign(&&)", 0, {
						Key kk = make<Key>(k);
						Val vv = make<Val>(5);
						bool absent = !s.m.count(k);
						bool r = A([&] { return s.c.insert_or_assign(std::move(kk), std::move(vv)); });
						CHECK(r == absent);
						s.m[k] = 5;
					});
					if constexpr (Stateful)
						KEYOP("insert_or_assign(transparent)", 0, {
							bool absent = !s.m.count(k);
							bool r = A([&] { return s.c.insert_or_assign(k, 51); });
							CHECK(r == absent);
							s.m[k] = 51;
						});
					if constexpr (Stateful)
						KEYOP("try_emplace(transparent)", 0, { s.inserted(A([&] { return s.c.try_emplace(k, 31); }), k, 31, "try_emplace"); });
					if constexpr (copyable) {
						KEYOP("try_emplace(const&)", 0, {
							const Key kk = make<Key>(k);
							const Val vv = make<Val>(32);
							s.inserted(A([&] { return s.c.try_emplace(kk, vv); }), k, 32, "try_emplace");
							CHECK(get(kk) == k && get(vv) == 32);
						});
						KEYOP("insert_or_assign(const&)", 0, {
							const Key kk = make<Key>(k);
							const Val vv = make<Val>(52);
							bool absent = !s.m.count(k);
							CHECK(A([&] { return s.c.insert_or_assign(kk, vv); }) == absent);
							CHECK(get(kk) == k && get(vv) == 52);
							s.m[k] = 52;
						});
						KEYOP("insert(pair of int)", 0, { s.inserted(A([&] { return s.c.insert(std::make_pair(k, 41)); }), k, 41, "insert(P&&)"); });
					}
					KEYOP("visit and modify", 0, {
						Key kk = make<Key>(k);
						size_t present = s.m.count(k);
						CHECK(A([&] { return s.c.visit(kk, [&](V& v) { v.second = Val(-5); }); }) == present);
						if (present)
							s.m[k] = -5;
					});
				}
				if constexpr (copyable)
					KEYOP("insert(const&)", 0, {
						const V x = mkv(k, 81);
						s.inserted(A([&] { return s.c.insert(x); }), k, 81, "insert(const&)");
						CHECK(get(key(x)) == k);
					});
				KEYOP("erase(key)", deep | (w == FIRST ? FOLLOWUP : 0), {
					Key kk = make<Key>(k);
					CHECK(A([&] { return s.c.erase(kk); }) == s.m.erase(k), "erase of %d", k);
					s.gone = k;
				});
				if constexpr (Stateful)
					KEYOP("erase(heterogeneous key)", 0, {
						CHECK(A([&] { return s.c.erase(Look{ k }); }) == s.m.erase(k), "erase of %d", k);
						s.gone = k;
					});
				for (int yes = 0; yes < 2; ++yes)
					add("erase_if(key," + std::string(yes ? "true)" : "false)") + ws, [w, yes](S& s) {
						int k = s.pick(w);
						if (k < 0)
							return false;
						Key kk = make<Key>(k);
						int calls = 0;
						auto f = [&](const V& v) {
							CHECK(get(key(v)) == k && s.m.count(k) && val(v) == s.m[k]);
							++calls;
							return yes == 1;
						};
						size_t r = A([&] { return s.c.erase_if(kk, f); });
						CHECK(size_t(calls) == s.m.count(k) && r == (yes ? s.m.count(k) : 0), "erase_if returned %zu after %d calls", r, calls);
						if (r)
							s.m.erase(k);
						return true;
					});
			}
			// predicates
			struct Pr
			{
				const char* n;
				int d, r;
			};
			for (Pr pr : std::vector<Pr>{ { "all", 1, 0 }, { "none", 1, 1 }, { "even", 2, 0 }, { "one of 8", 8, 3 }, { "seven of 8", -8, 3 } })
				for (int how = 0; how < 3; ++how)
					add(std::string(how == 0 ? "erase_if(" : how == 1 ? "erase_if(policy," : "free erase_if(") + pr.n + ")", [pr, how](S& s) {
						std::set<int> seen;
						auto in = [pr](int k) { return pr.d > 0 ? k % pr.d == pr.r : k % -pr.d != pr.r; };
						auto f = [&](auto& v) {
							int k = get(key(v));
							CHECK(seen.insert(k).second, "key %d is presented twice to the predicate", k);
							CHECK(s.m.count(k) && s.m[k] == val(v), "key %d is presented to the predicate with another value", k);
							return in(k);
						};
						size_t r = A([&]() -> size_t { return how == 0 ? s.c.erase_if(f) : how == 1 ? s.c.erase_if(std::execution::seq, f) : erase_if(s.c, f); });
						CHECK(seen.size() == s.m.size(), "the predicate saw %zu elements of %zu", seen.size(), s.m.size());
						size_t n = 0;
						for (auto it = s.m.begin(); it != s.m.end();)
							if (in(it->first)) {
								++n;
								s.gone = it->first;
								it = s.m.erase(it);
							}
							else
								++it;
						CHECK(r == n, "erase_if returned %zu, expected %zu", r, n);
						return true;
					}, how == 0 && (pr.d == 2 || pr.d == -8) ? DEEP : 0);
			add("clear", [](S& s) {
				A([&] { s.c.clear(); });
				s.m.clear();
				return true;
			}, DEEP);
			for (int n : { 0, 1, 16, 17, 200, 5000 }) {
				if (n != 5000)
					add("rehash(" + std::to_string(n) + ")", [n](S& s) {
						A([&] { s.c.rehash(size_t(n)); });
						return true;
					}, n == 1 || n == 200 ? DEEP : 0);
				add("reserve(" + std::to_string(n) + ")", [n](S& s) {
					A([&] { s.c.reserve(size_t(n)); });
					return true;
				});
			}
			for (int n : { 10, 70, 300 })
				add("max_load_factor(" + std::to_string(n) + "%)", [n](S& s) {
					A([&] { s.c.max_load_factor(float(n) / 100.f); });
					CHECK(s.c.max_load_factor() == float(n) / 100.f);
					return true;
				}, n == 300 ? DEEP : 0);
			for (int n : { 3, 14, 60 })
				add("insert x" + std::to_string(n), [n](S& s) {
					for (int i = 0; i < n; ++i)
						s.put();
					return true;
				}, n == 14 ? DEEP : 0);
			add("erase all but one", [](S& s) {
				while (s.m.size() > 1)
					s.take(s.m.begin()->first);
				return true;
			});
			if constexpr (Map)
				add("modify all", [](S& s) {
					CHECK(A([&] { return s.c.visit_all([](V& v) { v.second = Val(get(v.first) / 2); return true; }); }));
					for (auto& p : s.m)
						p.second = p.first / 2;
					return true;
				});
			// ranges
			if constexpr (copyable)
				for (int how = 0; how < 6; ++how) {
					static const char* const names[] = { "insert(range)", "insert(forward range)", "insert(list)", "insert_or_visit(range)", "insert_or_cvisit(range)", "insert_or_visit(list)" };
					add(names[how], [how](S& s) {
						std::vector<V> v;
						{
							Disarmed d;
							int base = s.m.empty() ? 100 : s.m.begin()->first;
							v.push_back(mkv(s.next, 1));
							v.push_back(mkv(base, 2));
							v.push_back(mkv(s.next, 3));
							for (int i = 1; i < 18; ++i)
								v.push_back(mkv(s.next + i, 10 + i));
						}
						s.next += 20;
						std::initializer_list<V> il{ v[0], v[1], v[2] };
						std::vector<std::pair<int, int>> visited, expected;
						auto f = [&](auto& x) { visited.emplace_back(get(key(x)), val(x)); };
						const V* b = v.data();
						const V* e = b + v.size();
						size_t n = v.size();
						A([&] {
							switch (how) {
								case 0: s.c.insert(b, e); break;
								case 1: s.c.insert(FwdIt<V>{ b }, FwdIt<V>{ e }); break;
								case 2: s.c.insert(il); n = 3; break;
								case 3: s.c.insert_or_visit(b, e, f); break;
								case 4: s.c.insert_or_cvisit(b, e, f); break;
								case 5: s.c.insert_or_visit(il, f); n = 3; break;
							}
						});
						for (size_t i = 0; i < n; ++i) {
							auto r = s.m.emplace(get(key(v[i])), val(v[i]));
							if (!r.second)
								expected.emplace_back(*r.first);
						}
						if (how >= 3)
							CHECK(visited == expected, "%zu elements visited, expected %zu", visited.size(), expected.size());
						return true;
					}, how == 0 ? DEEP : 0);
				}
			// another table
			for (int n : { 0, 1, 20, 50 }) {
				std::string ns = "(" + std::to_string(n) + ")";
				int hm = n == 20 ? 1 : n == 50 ? 4 : 0;
				auto other = [n, hm](S& s, M& mo) {
					auto* t = new C(0, mkh(hm), mke(hm), Al(1));
					std::unique_ptr<C> p(t);
					if (n)
						fill(*p, mo, n, s.m.empty() ? 90 : s.m.begin()->first + int(s.m.size()) / 2, 1000);
					s.next += 60;
					return p;
				};
				for (int rv = 0; rv < 3; ++rv)
					add(std::string(rv == 0 ? "merge" : rv == 1 ? "merge(&&)" : "merge(policy)") + ns, [other, hm, rv](S& s) {
						M mo;
						auto p = other(s, mo);
						size_t r = A([&] { return rv == 0 ? s.c.merge(*p) : rv == 1 ? s.c.merge(std::move(*p)) : s.c.merge(std::execution::seq, *p); });
						size_t cnt = 0;
						for (auto it = mo.begin(); it != mo.end();)
							if (s.m.insert(*it).second) {
								++cnt;
								it = mo.erase(it);
							}
							else
								++it;
						CHECK(r == cnt, "merge returned %zu, expected %zu", r, cnt);
						expect(*p, mo, hm, "source of merge", 5);
						return true;
					}, rv == 0 && n == 20 ? DEEP : 0);
				add("swap" + ns, [other, hm](S& s) {
					M mo;
					auto p = other(s, mo);
					A([&] { s.c.swap(*p); });
					std::swap(s.m, mo);
					expect(*p, mo, s.mode, "swapped", 5);
					if (Stateful)
						s.mode = hm;
					return true;
				}, n == 20 ? DEEP : 0);
				add("move assign" + ns, [other, hm](S& s) {
					M mo;
					auto p = other(s, mo);
					A([&] { s.c = std::move(*p); });
					s.m = mo;
					if (Stateful)
						s.mode = hm;
					p->clear();
					CHECK(p->insert(mkv(3, 3)) && p->size() == 1, "moved-from table reused");
					return true;
				});
				add("move construct" + ns, [other, hm](S& s) {
					M mo;
					auto p = other(s, mo);
					C d(A([&] { return C(std::move(*p)); }));
					expect(d, mo, Stateful ? hm : 0, "move constructed", 5);
					p->clear();
					CHECK(p->insert(mkv(3, 3)) && p->size() == 1 && p->contains(make<Key>(3)), "moved-from table reused");
					s.c.swap(d);
					std::swap(s.m, mo);
					if (Stateful)
						s.mode = hm;
					return true;
				});
				if constexpr (copyable) {
					add("copy assign" + ns, [other, hm](S& s) {
						M mo;
						auto p = other(s, mo);
						A([&] { s.c = *p; });
						s.m = mo;
						if (Stateful)
							s.mode = hm;
						CHECK(s.c == *p && !(s.c != *p));
						p->insert(mkv(3, 3));
						CHECK(!s.c.contains(make<Key>(3)));
						return true;
					}, n == 20 ? DEEP : 0);
					add("== with" + ns, [other](S& s) {
						M mo;
						auto p = other(s, mo);
						bool same = s.m == mo;
						CHECK((s.c == *p) == same && (*p == s.c) == same && (s.c != *p) == !same, "comparison of different tables");
						return true;
					});
				}
			}
			add("move to self", [](S& s) {
				C& x = s.c;
				A([&] { s.c = std::move(x); });
				A([&] { s.c.swap(x); });
				return true;
			});
			add("merge with self", [](S& s) {
				C& x = s.c;
				CHECK(A([&] { return s.c.merge(x); }) == 0);
				CHECK(A([&] { return s.c.merge(std::execution::seq, x); }) == 0);
				return true;
			});
			if constexpr (copyable) {
				add("copies", [](S& s) {
					C d(A([&] { return C(s.c); }));
					expect(d, s.m, s.mode, "copy", s.next);
					CHECK(d == s.c && s.c == d && !(d != s.c));
					C e(A([&] { return C(s.c, Al(1)); }));
					expect(e, s.m, s.mode, "copy with allocator", s.next);
					if (s.m.empty()) {
						CHECK(d.insert(mkv(3, 3)) && !(d == s.c) && d != s.c);
						return true;
					}
					int k = s.m.rbegin()->first;
					if constexpr (Map) {
						// same keys, another value
						d.visit(make<Key>(k), [](V& v) { v.second = Val(4242); });
						CHECK(!(d == s.c) && !(s.c == d) && d != s.c, "tables with different values compare equal");
						d.visit(make<Key>(k), [&](V& v) { v.second = Val(s.m[k]); });
						CHECK(d == s.c && s.c == d);
					}
					d.erase(make<Key>(k));
					CHECK(!(d == s.c) && !(s.c == d) && d != s.c);
					CHECK(d.insert(mkv(s.next, s.m[k])) && !(d == s.c) && !(s.c == d), "tables with different keys compare equal");
					C& self = s.c;
					A([&] { s.c = self; });
					return true;
				});
				add("equal tables of another layout", [](S& s) {
					C d(0, mkh(0), mke(0), Al(1));
					for (auto it = s.m.rbegin(); it != s.m.rend(); ++it)
						d.insert(mkv(it->first, it->second));
					CHECK(d == s.c && s.c == d && !(d != s.c), "tables of the same elements do not compare equal");
					return true;
				});
				add("constructors", [](S& s) {
					std::vector<V> v;
					M mo;
					{
						Disarmed d;
						for (int i = 0; i < 17; ++i)
							v.push_back(mkv(i % 12, i));
						for (auto& x : v)
							mo.emplace(get(key(x)), val(x));
					}
					std::initializer_list<V> il{ v[0], v[1], v[0] };
					M ml{ mo.find(0), std::next(mo.find(0), 2) };
					int df = 0;
					const V* b = v.data();
					const V* e = b + v.size();
					Al al(1);
					expect(C(b, e), mo, df, "C(range)", 77);
					expect(C(b, e, 30, mkh(2), mke(2), al), mo, 2, "C(range,n,h,e,a)", 77);
					expect(C(b, e, al), mo, df, "C(range,a)", 77);
					expect(C(b, e, 5, al), mo, df, "C(range,n,a)", 77);
					expect(C(b, e, 5, mkh(0), al), mo, df, "C(range,n,h,a)", 77);
					expect(C(FwdIt<V>{ b }, FwdIt<V>{ e }), mo, df, "C(forward range)", 77);
					expect(C(il), ml, df, "C(list)", 77);
					expect(C(il, 40, mkh(1), mke(1), al), ml, 1, "C(list,n,h,e,a)", 77);
					expect(C(il, al), ml, df, "C(list,a)", 77);
					expect(C(il, 7, al), ml, df, "C(list,n,a)", 77);
					expect(C(il, 7, mkh(0), al), ml, df, "C(list,n,h,a)", 77);
					expect(C(), M(), df, "C()", 77);
					expect(C(100), M(), df, "C(n)", 77);
					expect(C(al), M(), df, "C(a)", 77);
					expect(C(100, al), M(), df, "C(n,a)", 77);
					expect(C(100, mkh(0), al), M(), df, "C(n,h,a)", 77);
					return true;
				});
			}
		}
#undef KEYOP
	};
}
