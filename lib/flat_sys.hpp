#pragma once
// Flat sets and maps against a sorted vector of (key, tag, value). Keys are ints v = key*1024 + tag, the order only looks at the key, so equivalent elements
// can be told apart.
#include "elems.hpp"
#ifndef FL_DEFAULT_BUCKETS
#define SEQ_MIN_BUCKET_SIZE(T) 4
#endif
#include <seq/flat_map.hpp>
#include <algorithm>
#include <memory>
namespace fl
{
	using namespace mc;
	inline int kof(int v) { return v >> 10; }
	struct KLess
	{
		int id = 0;
		KLess(int i = 0) : id(i) {}
		template<class A, class B>
		bool operator()(const A& a, const B& b) const
		{
			point(F_FUNC);
			return kof(get(a)) < kof(get(b));
		}
	};
	struct KTrans : KLess
	{
		using is_transparent = int;
		KTrans(int i = 0) : KLess(i) {}
	};
	struct Ent
	{
		int k, v;
		bool operator==(const Ent& o) const { return k == o.k && v == o.v; }
		bool operator<(const Ent& o) const { return k != o.k ? k < o.k : v < o.v; }
	};
	// seed language: b<n> ascending at the back, f<n> descending at the front, i<n> inside, g<n> equivalents of the middle key (multi), e<n> erase the n-th,
	// z erase the middle half, c clear, R<n> range of n interleaved keys
	struct Shape
	{
		const char* name;
		const char* prog;
		bool multi;
	};
	enum Which { NORMAL, FAULTS, BIG, ALLFAULTS };
	template<class Key_, class Val, bool Map, bool Multi, bool Stable, class Less = KTrans, int W = NORMAL>
	struct Sys
	{
		using Key = Key_;
		using V = std::conditional_t<Map, std::pair<Key, Val>, Key>;
		using Al = TAlloc<V>;
		template<bool M>
		using Cont = std::conditional_t<Map,
						std::conditional_t<M, seq::flat_multimap<Key, Val, Less, Al, Stable>, seq::flat_map<Key, Val, Less, Al, Stable>>,
						std::conditional_t<M, seq::flat_multiset<Key, Less, Al, Stable>, seq::flat_set<Key, Less, Al, Stable>>>;
		using C = Cont<Multi>;
		static constexpr bool copyable = std::is_copy_constructible<Key>::value && std::is_copy_constructible<Val>::value;
		static constexpr bool few = W == FAULTS;
		static constexpr bool trans = std::is_same<Less, KTrans>::value;
		static const Key& key(const V& v)
		{
			if constexpr (Map)
				return v.first;
			else
				return v;
		}
		static int val(const V& v)
		{
			if constexpr (Map)
				return get(v.second);
			else
				return 0;
		}
		static V mkv(int k, int v)
		{
			Disarmed d;
			if constexpr (Map)
				return V(Key(k), Val(v));
			else
				return V(k);
		}
		static Ent ent(const V& v) { return Ent{ get(key(v)), val(v) }; }
		C c;
		std::vector<Ent> m;
		int tag = 0;
		int uid = 1;
		std::vector<Ent> loose; // elements whose fate is not specified by the last operation
		static const std::vector<Shape>& shapes()
		{
			static const std::vector<Shape> all = {
				{ "new", "", 0 }, { "one", "b1", 0 }, { "cleared", "b5 c", 0 }, { "emptied", "b1 e0", 0 }, { "two", "f2", 0 }, { "four", "b4", 0 }, { "five descending", "f5", 0 }, { "eight inside", "b2 i6", 0 },
				{ "nine", "b5 f4", 0 }, { "range 12", "R12", 0 }, { "13 erased", "b10 f8 e3 e3 e7 e0 e13", 0 }, { "16", "b16", 0 }, { "17 inside", "f9 i8", 0 }, { "40 halved", "b40 z", 0 },
				{ "36 range", "b20 R16", 0 }, { "70 descending", "f70", 0 }, { "70", "b35 f35", 0 },
				{ "three equal", "b1 g2", 1 }, { "six of nine equal", "b3 g6", 1 }, { "33 equal", "b2 g31", 1 }, { "groups", "b3 g5 b4 g6 f3 g4", 1 }, { "all equal 17", "b1 g16", 1 },
			};
			static const std::vector<Shape> f = {
				{ "new", "", 0 }, { "one", "b1", 0 }, { "four", "b4", 0 }, { "five descending", "f5", 0 }, { "nine", "b5 f4", 0 }, { "17 inside", "f9 i8", 0 }, { "six of nine equal", "b3 g6", 1 },
			};
			static const std::vector<Shape> b = {
				{ "300", "b150 f150", 0 }, { "260 inside", "b10 i250", 0 }, { "1000 range", "b100 R900", 0 }, { "700 halved", "b700 z", 0 }, { "500 equal", "b10 g490", 1 },
			};
			auto filter = [](const std::vector<Shape>& x) {
				std::vector<Shape> r;
				for (auto& s : x)
					if (Multi || !s.multi)
						r.push_back(s);
				return r;
			};
			static const std::vector<Shape> r = filter(W == FAULTS || W == ALLFAULTS ? f : W == BIG ? b : all);
			return r;
		}
		static int nseeds() { return int(shapes().size()); }
		static std::string seed_name(int i) { return shapes()[size_t(i)].name; }
		static int seed_depth(int, bool) { return -1; }
		int mk(int k) { return k * 1024 + (tag++ & 1023); }
		int lb(int k) const
		{
			int i = 0;
			while (size_t(i) < m.size() && kof(m[size_t(i)].k) < k)
				++i;
			return i;
		}
		int ub(int k) const
		{
			int i = lb(k);
			while (size_t(i) < m.size() && kof(m[size_t(i)].k) == k)
				++i;
			return i;
		}
		bool has(int k) const { return lb(k) != ub(k); }
		// Where: 0 below all, 1 above all, 2 in a gap around the first quarter, 3 gap middle, 4 gap last; 5,6,7 present first, middle, last
		static const char* where_name(int w)
		{
			static const char* n[] = { "lowest", "highest", "gap 1/4", "gap 1/2", "gap last", "present first", "present middle", "present last" };
			return n[w];
		}
		int target(int w) const
		{
			size_t n = m.size();
			if (w == 0)
				return n ? kof(m[0].k) - 2 : 1000;
			if (w == 1)
				return n ? kof(m[n - 1].k) + 2 : -1;
			if (n == 0)
				return -1;
			if (w <= 4) {
				if (n < 2 || (w == 2 && n < 4) || (w == 4 && n < 3))
					return -1;
				size_t p = w == 2 ? n / 4 : w == 3 ? n / 2 - 1 : n - 2;
				int k = kof(m[p].k) + 1;
				return has(k) ? -1 : k;
			}
			size_t p = w == 5 ? 0 : w == 6 ? n / 2 : n - 1;
			if ((w == 6 && n < 3) || (w == 7 && n < 2))
				return -1;
			return kof(m[p].k);
		}
		void put(int pos, int k, int v) { m.insert(m.begin() + pos, Ent{ k, Map ? v : 0 }); }
		Sys(int seed) : c(Less(seed))
		{
			id = seed;
			const char* p = shapes()[size_t(seed)].prog;
			while (*p) {
				char o = *p++;
				if (o == ' ')
					continue;
				int n = 0;
				while (*p >= '0' && *p <= '9')
					n = n * 10 + *p++ - '0';
				if (o == 'c') {
					c.clear();
					m.clear();
				}
				else if (o == 'e') {
					c.erase_pos(size_t(n));
					m.erase(m.begin() + n);
				}
				else if (o == 'z') {
					size_t a = m.size() / 4, b = m.size() - a;
					c.erase(c.begin() + ptrdiff_t(a), c.begin() + ptrdiff_t(b));
					m.erase(m.begin() + ptrdiff_t(a), m.begin() + ptrdiff_t(b));
				}
				else if (o == 'R') {
					std::vector<Ent> r;
					for (int i = 0; i < n; ++i)
						r.push_back(Ent{ mk(4000 + (i * 7 % n) * 2 + (m.empty() ? 0 : -3 * n)), uid++ });
					if constexpr (copyable) {
						auto v = values(r);
						c.insert(v.begin(), v.end());
					}
					else
						for (auto& e : r)
							c.insert(mkv(e.k, e.v));
					merge_range(r);
				}
				else
					for (int i = 0; i < n; ++i) {
						int k, pos;
						if (o == 'b')
							k = m.empty() ? 4000 : kof(m.back().k) + 4;
						else if (o == 'f')
							k = m.empty() ? 4000 : kof(m[0].k) - 4;
						else if (o == 'g')
							k = kof(m[m.size() / 2].k);
						else {
							// widen: a free key around the middle
							int q = int(m.size() / 2);
							k = kof(m[size_t(q)].k) + 1;
							while (has(k))
								++k;
						}
						int x = mk(k), v = uid++;
						pos = ub(k);
						c.insert(mkv(x, v));
						put(pos, x, v);
					}
			}
		}
		int id = 0;
		std::vector<V> values(const std::vector<Ent>& r)
		{
			Disarmed d;
			std::vector<V> v;
			v.reserve(r.size());
			for (auto& e : r)
				v.push_back(mkv(e.k, e.v));
			return v;
		}
		// the model of a range insertion. alts: elements that may stand for one another
		void merge_range(const std::vector<Ent>& r)
		{
			if (Multi) {
				for (auto& e : r)
					put(ub(kof(e.k)), e.k, e.v);
				if (!Stable)
					regroup(m, "range");
			}
			else {
				std::vector<Ent> old = m;
				for (auto& e : r)
					if (!has(kof(e.k)))
						put(lb(kof(e.k)), e.k, e.v);
				if (!Stable)
					regroup_unique(old, r);
			}
		}
		std::vector<Ent> content()
		{
			std::vector<Ent> r;
			const C& cc = c;
			for (auto it = cc.begin(); it != cc.end(); ++it)
				r.push_back(ent(*it));
			return r;
		}
		// the order of equivalent elements is unspecified: adopt the actual one if it is a permutation within every group
		void regroup(const std::vector<Ent>& expect, const char* what)
		{
			auto got = content();
			CHECK(got.size() == expect.size(), "%s: size %zu expected %zu; %s", what, got.size(), expect.size(), dump().c_str());
			auto a = got, b = expect;
			for (size_t i = 0; i < a.size(); ++i)
				CHECK(kof(a[i].k) == kof(b[i].k), "%s: position %zu holds key %d, expected %d; %s", what, i, kof(a[i].k), kof(b[i].k), dump().c_str());
			std::sort(a.begin(), a.end());
			std::sort(b.begin(), b.end());
			CHECK(a == b, "%s: elements lost or duplicated; %s", what, dump().c_str());
			m = got;
		}
		// unique, not stable: an existing element stays, of several new equivalent ones any is kept
		void regroup_unique(const std::vector<Ent>& old, const std::vector<Ent>& r)
		{
			auto got = content();
			CHECK(got.size() == m.size(), "size %zu expected %zu; %s", got.size(), m.size(), dump().c_str());
			for (size_t i = 0; i < got.size(); ++i) {
				CHECK(kof(got[i].k) == kof(m[i].k), "position %zu holds key %d, expected %d; %s", i, kof(got[i].k), kof(m[i].k), dump().c_str());
				bool existed = false;
				for (auto& e : old)
					if (kof(e.k) == kof(got[i].k)) {
						existed = true;
						CHECK(e == got[i], "the existing element of key %d was replaced by an equivalent one", kof(e.k));
					}
				if (!existed)
					CHECK(std::find_if(r.begin(), r.end(), [&](const Ent& e) { return e.k == got[i].k && (!Map || e.v == got[i].v); }) != r.end(), "element %d comes from nowhere", got[i].k);
			}
			m = got;
		}
		std::string dump()
		{
			std::string r = "model=[";
			for (auto& i : m)
				r += std::to_string(kof(i.k)) + "." + std::to_string(i.k & 1023) + " ";
			r += "] content=[";
			for (auto& i : content())
				r += std::to_string(kof(i.k)) + "." + std::to_string(i.k & 1023) + " ";
			return r + "]";
		}
		static size_t idx(const C& x, typename C::const_iterator it) { return size_t(it - x.cbegin()); }
		void expect(C& x, const std::vector<Ent>& mm, const char* what, bool full)
		{
			const C& cx = x;
			CHECK(x.size() == mm.size() && x.empty() == mm.empty(), "%s: size is %zu, expected %zu; %s", what, x.size(), mm.size(), dump().c_str());
			size_t i = 0;
			for (auto it = cx.begin(); it != cx.end(); ++it, ++i) {
				CHECK(i < mm.size());
				Ent e = ent(*it);
				CHECK(e.k == mm[i].k && (!Map || e.v == mm[i].v), "%s: position %zu holds %d.%d(%d), expected %d.%d(%d); %s", what, i, kof(e.k), e.k & 1023, e.v, kof(mm[i].k), mm[i].k & 1023, mm[i].v,
				      dump().c_str());
				CHECK(&cx.pos(i) == &*it, "pos(%zu)", i);
			}
			CHECK(i == mm.size());
			for (auto it = cx.rbegin(); it != cx.rend(); ++it) {
				--i;
				CHECK(ent(*it).k == mm[i].k, "%s: backward iteration at %zu", what, i);
			}
			CHECK(i == 0);
			if (full)
				lookups(x, mm, what);
		}
		template<class K>
		static void look(C& x, const K& k, size_t lo, size_t hi, int kk)
		{
			const C& cx = x;
			size_t n = x.size();
			CHECK(idx(x, x.lower_bound(k)) == lo && idx(x, cx.lower_bound(k)) == lo && cx.lower_bound_pos(k) == lo, "lower_bound(%d) is %zu, expected %zu of %zu", kk, cx.lower_bound_pos(k), lo, n);
			CHECK(idx(x, x.upper_bound(k)) == hi && idx(x, cx.upper_bound(k)) == hi && cx.upper_bound_pos(k) == hi, "upper_bound(%d) is %zu, expected %zu of %zu", kk, cx.upper_bound_pos(k), hi, n);
			size_t f = lo == hi ? n : lo, fp = cx.find_pos(k);
			CHECK(Multi && lo != hi ? fp >= lo && fp < hi : fp == f, "find_pos(%d) is %zu, expected %zu of %zu", kk, cx.find_pos(k), f, n);
			f = fp;
			CHECK(idx(x, x.find(k)) == f && idx(x, cx.find(k)) == f, "find(%d)", kk);
			CHECK(cx.contains(k) == (lo != hi), "contains(%d)", kk);
			CHECK(cx.count(k) == hi - lo, "count(%d) is %zu, expected %zu", kk, cx.count(k), hi - lo);
			auto r = x.equal_range(k);
			auto cr = cx.equal_range(k);
			auto pr = cx.equal_range_pos(k);
			CHECK(idx(x, r.first) == lo && idx(x, r.second) == hi, "equal_range(%d) is [%zu,%zu), expected [%zu,%zu)", kk, idx(x, r.first), idx(x, r.second), lo, hi);
			CHECK(idx(x, cr.first) == lo && idx(x, cr.second) == hi, "const equal_range(%d)", kk);
			CHECK(pr.first == lo && pr.second == hi, "equal_range_pos(%d)", kk);
		}
		static void lookups(C& x, const std::vector<Ent>& mm, const char*)
		{
			std::vector<int> ks;
			ks.push_back(mm.empty() ? 7 : kof(mm[0].k) - 1);
			for (auto& e : mm)
				if (ks.back() != kof(e.k)) {
					if (ks.back() != kof(e.k) - 1)
						ks.push_back(kof(e.k) - 1);
					ks.push_back(kof(e.k));
				}
			if (!mm.empty())
				ks.push_back(kof(mm.back().k) + 1);
			size_t lo = 0;
			for (int k : ks) {
				while (lo < mm.size() && kof(mm[lo].k) < k)
					++lo;
				size_t hi = lo;
				while (hi < mm.size() && kof(mm[hi].k) == k)
					++hi;
				int full = k * 1024 + 512;
				{
					Key kk = make<Key>(full);
					look(x, kk, lo, hi, k);
				}
				if constexpr (trans)
					look(x, full, lo, hi, k);
				if constexpr (Map && !Multi) {
					const C& cx = x;
					Key kk = make<Key>(full);
					if (lo != hi)
						CHECK(get(x.at(kk)) == mm[lo].v && get(cx.at(kk)) == mm[lo].v, "at");
					else
						try {
							(void)(k % 2 ? get(x.at(kk)) : get(cx.at(kk)));
							fail("at of an absent key does not throw");
						}
						catch (const std::out_of_range&) {
						}
				}
			}
		}
		void check()
		{
			expect(c, m, "content", true);
			CHECK(c.key_comp().id == id, "comparator changed");
		}
		void resync()
		{
			id = c.key_comp().id;
			m = content();
			for (size_t i = 1; i < m.size(); ++i)
				CHECK(Multi ? kof(m[i - 1].k) <= kof(m[i].k) : kof(m[i - 1].k) < kof(m[i].k), "not sorted after the exception: %s", dump().c_str());
		}
		uint64_t fingerprint()
		{
			Fp f;
			f.add(uint64_t(id));
			auto* mg = c.container().manager();
			f.add(mg != nullptr);
			if (mg) {
				f.add(uint64_t(mg->d_bucket_size));
				for (auto& b : mg->buckets()) {
					f.add(uint64_t(b.bucket->begin));
					f.add(uint64_t(b.bucket->size));
				}
			}
			for (auto& e : m) {
				f.add(uint64_t(e.k));
				f.add(uint64_t(e.v));
			}
			return f.h;
		}
		// result of an unhinted single insertion
		void inserted(size_t pos, bool ok, int k, int v)
		{
			int kk = kof(k);
			bool fresh = Multi || !has(kk);
			CHECK(ok == fresh, "insertion of key %d reports %d", kk, int(ok));
			if (!fresh) {
				CHECK(pos == size_t(lb(kk)), "the element returned for the present key %d is number %zu, expected %d", kk, pos, lb(kk));
				return;
			}
			CHECK(pos == size_t(ub(kk)), "key %d inserted at %zu, expected %d; %s", kk, pos, ub(kk), dump().c_str());
			put(ub(kk), k, v);
		}
		void inserted_hint(size_t pos, int k, int v)
		{
			int kk = kof(k);
			if (!Multi && has(kk)) {
				CHECK(pos == size_t(lb(kk)), "hinted insertion of a present key returns number %zu, expected %d", pos, lb(kk));
				return;
			}
			CHECK(pos >= size_t(lb(kk)) && pos <= size_t(ub(kk)), "hinted insertion of key %d at %zu, expected %d..%d", kk, pos, lb(kk), ub(kk));
			put(int(pos), k, v);
		}
		template<class P>
		void result(const P& r, int k, int v)
		{
			if constexpr (std::is_same<P, size_t>::value)
				inserted(r, true, k, v);
			else if constexpr (std::is_same<P, std::pair<size_t, bool>>::value)
				inserted(r.first, r.second, k, v);
			else if constexpr (Multi)
				inserted(idx(c, r), true, k, v);
			else
				inserted(idx(c, r.first), r.second, k, v);
		}
		static void ops(std::vector<Op<Sys>>& o)
		{
			using S = Sys;
			auto add = [&](std::string n, std::function<bool(S&)> f, int fl = 0) { o.push_back(Op<S>{ n, f, fl }); };
			auto addk = [&](std::string n, int w, std::function<void(S&, int, int)> f, int fl = 0) {
				add(n + " " + where_name(w), [w, f](S& s) {
					int k = s.target(w);
					if (k < 0)
						return false;
					f(s, s.mk(k), s.uid++);
					return true;
				}, fl);
			};
			for (int w = 0; w < 8; ++w) {
				if (few && (w == 2 || w == 4 || w == 5 || w == 7))
					continue;
				int deep = w == 0 || w == 1 || w == 3 || w == 6 ? DEEP : 0;
				addk("insert(&&)", w, [](S& s, int k, int v) {
					V x = mkv(k, v);
					auto r = A([&] { return s.c.insert(std::move(x)); });
					s.result(r, k, v);
				}, deep | FOLLOWUP);
				addk("emplace", w, [](S& s, int k, int v) {
					auto r = A([&] {
						if constexpr (Map)
							return s.c.emplace(k, v);
						else
							return s.c.emplace(k);
					});
					s.result(r, k, v);
				});
				addk("insert_pos(&&)", w, [](S& s, int k, int v) {
					V x = mkv(k, v);
					auto r = A([&] { return s.c.insert_pos(std::move(x)); });
					s.result(r, k, v);
				});
				addk("emplace_pos", w, [](S& s, int k, int v) {
					auto r = A([&] {
						if constexpr (Map)
							return s.c.emplace_pos(k, v);
						else
							return s.c.emplace_pos(k);
					});
					s.result(r, k, v);
				});
				if constexpr (copyable) {
					addk("insert(const&)", w, [](S& s, int k, int v) {
						V x = mkv(k, v);
						auto r = A([&] { return s.c.insert(x); });
						s.result(r, k, v);
						CHECK(ent(x).k == k, "the argument changed");
					}, FOLLOWUP);
					addk("insert_pos(const&)", w, [](S& s, int k, int v) {
						V x = mkv(k, v);
						auto r = A([&] { return s.c.insert_pos(x); });
						s.result(r, k, v);
					});
				}
				// hinted: 0 begin, 1 end, 2 lower bound, 3 upper bound, 4 middle, 5 inside the group
				for (int h = 0; h < 6; ++h) {
					if (few && h != 2)
						continue;
					auto hint = [h](S& s, int k) {
						k = kof(k);
						size_t p = h == 0 ? 0 : h == 1 ? s.m.size() : h == 2 ? size_t(s.lb(k)) : h == 3 ? size_t(s.ub(k)) : h == 4 ? s.m.size() / 2 : size_t(s.lb(k) + s.ub(k)) / 2;
						return s.c.cbegin() + ptrdiff_t(p);
					};
					std::string hn = h == 0 ? "(begin)" : h == 1 ? "(end)" : h == 2 ? "(lower)" : h == 3 ? "(upper)" : h == 4 ? "(middle)" : "(in group)";
					addk("emplace_hint" + hn, w, [hint](S& s, int k, int v) {
						auto hh = hint(s, k);
						auto r = A([&] {
							if constexpr (Map)
								return s.c.emplace_hint(hh, k, v);
							else
								return s.c.emplace_hint(hh, k);
						});
						s.inserted_hint(idx(s.c, r), k, v);
					});
					addk("insert" + hn, w, [hint](S& s, int k, int v) {
						V x = mkv(k, v);
						auto hh = hint(s, k);
						auto r = A([&] { return s.c.insert(hh, std::move(x)); });
						s.inserted_hint(idx(s.c, r), k, v);
					});
					if constexpr (Map && !Multi) {
						addk("try_emplace" + hn, w, [hint](S& s, int k, int v) {
							auto hh = hint(s, k);
							Key kk = make<Key>(k);
							auto r = A([&] { return s.c.try_emplace(hh, std::move(kk), v); });
							s.inserted_hint(idx(s.c, r), k, v);
						});
						addk("try_emplace_pos" + hn, w, [hint](S& s, int k, int v) {
							auto hh = hint(s, k);
							Key kk = make<Key>(k);
							auto r = A([&] { return s.c.try_emplace_pos(hh, std::move(kk), v); });
							s.inserted_hint(r, k, v);
						});
					}
				}
				if constexpr (Map && !Multi) {
					addk("try_emplace(&&)", w, [](S& s, int k, int v) {
						Key kk = make<Key>(k);
						bool had = s.has(kof(k));
						auto r = A([&] { return s.c.try_emplace(std::move(kk), v); });
						s.result(r, k, v);
						CHECK(!had || get(kk) == k, "key moved from although present");
					}, w == 6 ? DEEP : 0);
					addk("try_emplace_pos(&&)", w, [](S& s, int k, int v) {
						Key kk = make<Key>(k);
						auto r = A([&] { return s.c.try_emplace_pos(std::move(kk), v); });
						s.result(r, k, v);
					});
					addk("operator[](&&)", w, [](S& s, int k, int) {
						Key kk = make<Key>(k);
						bool had = s.has(kof(k));
						auto& r = A([&]() -> Val& { return s.c[std::move(kk)]; });
						size_t p = size_t(s.lb(kof(k)));
						CHECK(&r == &s.c.pos(p).second, "operator[]");
						if (!had)
							s.put(int(p), k, 0);
					});
					auto assigned = [](S& s, size_t pos, bool ok, int k, int v) {
						int p = s.lb(kof(k));
						bool had = s.has(kof(k));
						CHECK(ok == !had && pos == size_t(p), "insert_or_assign");
						if (had)
							s.m[size_t(p)].v = v;
						else
							s.put(p, k, v);
					};
					addk("insert_or_assign(&&)", w, [assigned](S& s, int k, int v) {
						Key kk = make<Key>(k);
						Val x = make<Val>(v);
						auto r = A([&] { return s.c.insert_or_assign(std::move(kk), std::move(x)); });
						assigned(s, idx(s.c, r.first), r.second, k, v);
					}, w == 6 ? DEEP : 0);
					addk("insert_or_assign_pos(&&)", w, [assigned](S& s, int k, int v) {
						Key kk = make<Key>(k);
						Val x = make<Val>(v);
						auto r = A([&] { return s.c.insert_or_assign_pos(std::move(kk), std::move(x)); });
						assigned(s, r.first, r.second, k, v);
					});
					if constexpr (copyable) {
						addk("try_emplace(const&)", w, [](S& s, int k, int v) {
							Key kk = make<Key>(k);
							auto r = A([&] { return s.c.try_emplace(kk, v); });
							s.result(r, k, v);
						});
						addk("try_emplace_pos(const&)", w, [](S& s, int k, int v) {
							Key kk = make<Key>(k);
							auto r = A([&] { return s.c.try_emplace_pos(kk, v); });
							s.result(r, k, v);
						});
						addk("operator[](const&) =", w, [](S& s, int k, int v) {
							Key kk = make<Key>(k);
							bool had = s.has(kof(k));
							Val x = make<Val>(v);
							A([&] { s.c[kk] = std::move(x); });
							int p = s.lb(kof(k));
							if (had)
								s.m[size_t(p)].v = v;
							else
								s.put(p, k, v);
						});
						addk("insert_or_assign(hint, const&)", w, [assigned](S& s, int k, int v) {
							Key kk = make<Key>(k);
							Val x = make<Val>(v);
							bool had = s.has(kof(k));
							auto r = A([&] { return s.c.insert_or_assign(s.c.cend(), kk, x); });
							assigned(s, idx(s.c, r), !had, k, v);
						});
						addk("insert_or_assign_pos(const&)", w, [assigned](S& s, int k, int v) {
							Key kk = make<Key>(k);
							Val x = make<Val>(v);
							auto r = A([&] { return s.c.insert_or_assign_pos(kk, x); });
							assigned(s, r.first, r.second, k, v);
						});
					}
				}
				// erase by key
				addk("erase(key)", w, [](S& s, int k, int) {
					Key kk = make<Key>(k);
					int a = s.lb(kof(k)), b = s.ub(kof(k));
					size_t r = A([&] { return s.c.erase(kk); });
					CHECK(r == size_t(b - a), "erase(key) returns %zu, expected %d", r, b - a);
					s.m.erase(s.m.begin() + a, s.m.begin() + b);
				}, w == 6 ? DEEP : w == 5 ? FOLLOWUP : 0);
				if constexpr (trans)
					addk("erase(int key)", w, [](S& s, int k, int) {
						int a = s.lb(kof(k)), b = s.ub(kof(k));
						size_t r = A([&] { return s.c.erase(k); });
						CHECK(r == size_t(b - a), "erase(key) returns %zu, expected %d", r, b - a);
						s.m.erase(s.m.begin() + a, s.m.begin() + b);
					});
			}
			// erase by position
			for (int p = 0; p < 5; ++p) {
				auto pos = [p](S& s) -> int {
					int n = int(s.m.size());
					if (p >= n)
						return -1;
					return p == 0 ? 0 : p == 1 ? n - 1 : p == 2 ? n / 2 : p == 3 ? n / 4 : n - 2;
				};
				std::string pn = p == 0 ? "(first)" : p == 1 ? "(last)" : p == 2 ? "(1/2)" : p == 3 ? "(1/4)" : "(last but one)";
				add("erase" + pn, [pos](S& s) {
					int i = pos(s);
					if (i < 0)
						return false;
					auto r = A([&] { return s.c.erase(s.c.cbegin() + i); });
					CHECK(idx(s.c, r) == size_t(i), "returned iterator");
					s.m.erase(s.m.begin() + i);
					return true;
				}, p < 3 ? DEEP : 0);
				add("erase_pos" + pn, [pos](S& s) {
					int i = pos(s);
					if (i < 0)
						return false;
					A([&] { s.c.erase_pos(size_t(i)); });
					s.m.erase(s.m.begin() + i);
					return true;
				});
			}
			for (int q = 0; q < 5; ++q) {
				auto rg = [q](S& s) {
					int n = int(s.m.size());
					return q == 0 ? std::make_pair(0, n / 2) : q == 1 ? std::make_pair(n / 2, n) : q == 2 ? std::make_pair(n / 4, n - n / 4) : q == 3 ? std::make_pair(n / 2, n / 2) : std::make_pair(0, n);
				};
				std::string qn = q == 0 ? " low half" : q == 1 ? " high half" : q == 2 ? " middle" : q == 3 ? " empty range" : " all";
				add("erase" + qn, [rg](S& s) {
					auto ab = rg(s);
					auto r = A([&] { return s.c.erase(s.c.cbegin() + ab.first, s.c.cbegin() + ab.second); });
					CHECK(idx(s.c, r) == size_t(ab.first), "returned iterator");
					s.m.erase(s.m.begin() + ab.first, s.m.begin() + ab.second);
					return true;
				}, q == 2 ? DEEP : 0);
				add("erase positions" + qn, [rg](S& s) {
					auto ab = rg(s);
					A([&] { s.c.erase(size_t(ab.first), size_t(ab.second)); });
					s.m.erase(s.m.begin() + ab.first, s.m.begin() + ab.second);
					return true;
				});
			}
			for (int q = 0; q < 4; ++q)
				add("erase_if" + std::string(q == 0 ? " none" : q == 1 ? " odd position" : q == 2 ? " low" : " all"), [q](S& s) {
					std::vector<Ent> keep;
					std::vector<int> gone;
					for (size_t i = 0; i < s.m.size(); ++i) {
						bool rem = q == 3 || (q == 1 && i % 2) || (q == 2 && i < s.m.size() / 2);
						if (rem)
							gone.push_back(s.m[i].k);
						else
							keep.push_back(s.m[i]);
					}
					size_t r = A([&] {
						return erase_if(s.c, [&](const V& v) {
							point(F_FUNC);
							int k = get(key(v));
							return std::find(gone.begin(), gone.end(), k) != gone.end();
						});
					});
					CHECK(r == gone.size(), "erase_if returns %zu, expected %zu", r, gone.size());
					s.m = keep;
					return true;
				});
			add("clear", [](S& s) {
				s.c.clear();
				s.m.clear();
				return true;
			}, STRONG);
			add("extract, insert, replace", [](S& s) {
				auto d = s.c.extract();
				CHECK(d.size() == s.m.size());
				s.c = C(Less(s.id), s.c.get_allocator());
				V x = mkv(s.mk(9000), 1);
				s.c.insert(std::move(x));
				s.c.replace(std::move(d));
				return true;
			}, NOFAULT);
			add("extract, use the emptied", [](S& s) {
				auto d = s.c.extract();
				CHECK(s.c.size() == 0 && s.c.begin() == s.c.end());
				int k = s.mk(700);
				V x = mkv(k, 1);
				s.c.insert(std::move(x));
				s.m.clear();
				s.put(0, k, 1);
				return true;
			}, NOFAULT);
			// merge
			for (int q = 0; q < 6; ++q)
				for (int sm = few && q != 5 ? 2 : 0; sm < 2; ++sm)
					add("merge " + std::string(q == 0 ? "empty" : q == 1 ? "below" : q == 2 ? "above" : q == 3 ? "interleaved" : q == 4 ? "same keys" : "mixed") + (sm ? " multi source" : " unique source"), [q, sm](S& s) {
						auto run = [&](auto& src) {
							std::vector<Ent> r;
							for (int i = 0; q != 0 && i < 9; ++i) {
								int n = int(s.m.size());
								int k = q == 1 ? (n ? kof(s.m[0].k) : 1000) - 2 - i : q == 2 ? (n ? kof(s.m.back().k) : 1000) + 2 + i : q == 3 ? (n ? kof(s.m[size_t(i * n / 9)].k) + 1 : i)
									      : q == 4 ? (n ? kof(s.m[size_t(i % n)].k) : i) : (n ? kof(s.m[size_t(i * n / 9)].k) + (i % 2) : i);
								if (sm && i % 3 == 2 && !r.empty())
									k = kof(r.back().k);
								r.push_back(Ent{ s.mk(k), Map ? s.uid++ : 0 });
							}
							std::stable_sort(r.begin(), r.end(), [](const Ent& a, const Ent& b) { return kof(a.k) < kof(b.k); });
							if (!sm)
								r.erase(std::unique(r.begin(), r.end(), [](const Ent& a, const Ent& b) { return kof(a.k) == kof(b.k); }), r.end());
							{
								Disarmed d;
								for (auto& e : r)
									src.insert(mkv(e.k, e.v));
							}
							A([&] { s.c.merge(src); });
							std::vector<Ent> rest;
							for (auto& e : r)
								if (Multi || !s.has(kof(e.k)))
									s.put(s.ub(kof(e.k)), e.k, e.v);
								else
									rest.push_back(e);
							CHECK(src.size() == rest.size(), "merge leaves %zu elements in the source, expected %zu", src.size(), rest.size());
							size_t i = 0;
							for (auto it = src.begin(); it != src.end(); ++it, ++i) {
								CHECK(ent(*it) == rest[i], "element %zu left in the source", i);
								CHECK(src.contains(key(*it)), "an element left in the source is not found");
							}
							V x = mkv(s.mk(20000), 1);
							src.insert(std::move(x));
							CHECK(src.size() == rest.size() + 1 && src.contains(make<Key>(20000 * 1024)), "insertion in the source");
						};
						if (sm) {
							Cont<true> src(Less(77), s.c.get_allocator());
							run(src);
						}
						else {
							Cont<false> src(Less(77), s.c.get_allocator());
							run(src);
						}
						return true;
					});
			add("merge itself", [](S& s) {
				A([&] { s.c.merge(s.c); });
				return true;
			});
			add("copy", [](S& s) {
				if constexpr (copyable) {
					A([&] {
						C x(s.c);
						Disarmed d;
						CHECK(x == s.c && !(x != s.c), "copy compares different");
						s.expect(x, s.m, "copy", true);
						if (!s.m.empty()) {
							x.erase_pos(s.m.size() / 2);
							CHECK(x != s.c && !(s.c == x), "different sizes compare equal");
							CHECK(s.c.size() == s.m.size());
						}
					});
					return true;
				}
				else
					return false;
			});
			add("compare", [](S& s) {
				if constexpr (copyable) {
					for (size_t i : { size_t(0), s.m.size() / 2, s.m.size() - 1 }) {
						if (i >= s.m.size())
							continue;
						C x(s.c);
						x.erase_pos(i);
						if (!Multi || !s.has(kof(s.m[i].k) + 1)) {
							V v = mkv(s.mk(kof(s.m[i].k) + 1), s.m[i].v);
							x.insert(std::move(v));
							if (x.size() == s.c.size())
								CHECK(x != s.c && !(x == s.c), "containers with another element %zu compare equal", i);
						}
						if constexpr (Map) {
							C y(s.c);
							y.pos(i).second = Val(-5);
							CHECK(y != s.c && !(y == s.c), "containers with another value %zu compare equal", i);
						}
					}
					return true;
				}
				else
					return false;
			}, NOFAULT);
			add("swap", [](S& s) {
				C x{ Less(55), s.c.get_allocator() };
				int a = s.mk(500), b = s.mk(501);
				{
					Disarmed d;
					x.insert(mkv(b, 2));
					x.insert(mkv(a, 1));
				}
				A([&] { s.c.swap(x); });
				s.expect(x, s.m, "swapped", true);
				CHECK(x.key_comp().id == s.id);
				s.id = 55;
				s.m.clear();
				s.put(0, a, 1);
				s.put(1, b, 2);
				return true;
			}, STRONG);
			if constexpr (copyable)
				range_ops(o);
		}
		// ranges: shape x size x iterator category, insertion and assignment
		static std::vector<Ent> range(Sys& s, int shape, int n)
		{
			std::vector<Ent> r;
			int sz = int(s.m.size());
			int lo = sz ? kof(s.m[0].k) : 3000, hi = sz ? kof(s.m.back().k) : 3000;
			for (int i = 0; i < n; ++i) {
				int k;
				switch (shape) {
					case 0: k = hi + 2 + i; break;					     // above, sorted
					case 1: k = lo - 2 - i; break;					     // below, descending
					case 2: k = sz ? kof(s.m[size_t((i * 5 % n) * sz / n)].k) + 1 : i * 5 % n; break; // interleaved, unsorted, with repetitions
					case 3: k = sz ? kof(s.m[size_t(i % sz)].k) : 3000 + i % 3; break;	     // same keys
					case 4: k = (lo + hi) / 2 + (i / 4); break;			     // groups of equivalents
					case 5: k = lo - 1 + (i * 7 % n) * (hi - lo + 3) / n; break;		     // all over
					case 6: k = hi + 5; break;					     // all equivalent
					default: k = lo - 3 + i * (hi - lo + 7) / n; break;			     // all over, ascending
				}
				r.push_back(Ent{ s.mk(k), Map ? s.uid++ : 0 });
			}
			return r;
		}
		static void range_ops(std::vector<Op<Sys>>& o)
		{
			using S = Sys;
			static const char* shn[] = { "above", "below descending", "interleaved", "same keys", "groups", "all over", "all equivalent", "ascending" };
			auto add = [&](std::string n, std::function<bool(S&)> f, int fl = 0) { o.push_back(Op<S>{ n, f, fl }); };
			for (int shape = 0; shape < 8; ++shape)
				for (int n : std::vector<int>{ 0, 1, 3, 20, 65 }) {
					if (few && (n == 65 || (shape != 0 && shape != 2 && shape != 5)))
						continue;
					if ((n == 0 && shape) || (n == 65 && (shape == 0 || shape == 6)))
						continue;
					std::string nn = " " + std::to_string(n) + " " + shn[shape];
					bool deep = n == 3 && (shape == 2 || shape == 5);
					for (int cat = 0; cat < 5; ++cat) {
						static const char* cn[] = { "", " (forward)", " (input)", " (moved)", " (list)" };
						if (cat && n == 65)
							continue;
						if (few && (cat == 2 || cat == 4))
							continue;
						add("insert range" + nn + cn[cat], [shape, n, cat](S& s) {
							auto r = range(s, shape, n);
							auto v = s.values(r);
							A([&] { give(v, cat, [&](auto a, auto b) { s.c.insert(a, b); }); });
							s.merge_range(r);
							return true;
						}, deep && cat == 0 ? DEEP : 0);
						add("assign range" + nn + cn[cat], [shape, n, cat](S& s) {
							auto r = range(s, shape, n);
							auto v = s.values(r);
							A([&] { give(v, cat, [&](auto a, auto b) { s.c.assign(a, b); }); });
							s.m.clear();
							s.merge_range(r);
							return true;
						});
					}
					add("construct from range" + nn, [shape, n](S& s) {
						auto r = range(s, shape, n);
						auto v = s.values(r);
						std::unique_ptr<C> x;
						A([&] { give(v, s.m.size() % 5, [&](auto a, auto b) { x.reset(new C(a, b, Less(33), s.c.get_allocator())); }); });
						s.c.swap(*x);
						s.id = 33;
						s.m.clear();
						s.merge_range(r);
						return true;
					});
					if (shape == 0 || shape == 7 || shape == 4) {
						add("insert sorted range" + nn, [shape, n](S& s) {
							auto r = range(s, shape, n);
							if (!Multi)
								r.erase(std::unique(r.begin(), r.end(), [](const Ent& a, const Ent& b) { return kof(a.k) == kof(b.k); }), r.end());
							auto v = s.values(r);
							A([&] {
								if constexpr (Multi)
									s.c.insert(seq::sorted_equivalent, v.begin(), v.end());
								else
									s.c.insert(seq::sorted_unique, v.begin(), v.end());
							});
							s.merge_range(r);
							return true;
						});
					}
				}
			add("insert initializer list", [](S& s) {
				std::vector<Ent> r = range(s, 2, 3);
				auto v = s.values(r);
				A([&] { s.c.insert({ v[0], v[1], v[2] }); });
				s.merge_range(r);
				return true;
			});
			add("insert sorted initializer list", [](S& s) {
				std::vector<Ent> r = range(s, 0, 3);
				auto v = s.values(r);
				A([&] {
					if constexpr (Multi)
						s.c.insert(seq::sorted_equivalent, { v[0], v[1], v[2] });
					else
						s.c.insert(seq::sorted_unique, { v[0], v[1], v[2] });
				});
				s.merge_range(r);
				return true;
			});
			add("= initializer list", [](S& s) {
				std::vector<Ent> r = range(s, 2, 3);
				auto v = s.values(r);
				A([&] { s.c = { v[0], v[1], v[2] }; });
				s.m.clear();
				s.merge_range(r);
				return true;
			});
			add("construct from initializer list", [](S& s) {
				std::vector<Ent> r = range(s, 5, 3);
				auto v = s.values(r);
				A([&] {
					C x({ v[0], v[1], v[2] }, Less(44), s.c.get_allocator());
					Disarmed d;
					s.c.swap(x);
				});
				s.id = 44;
				s.m.clear();
				s.merge_range(r);
				return true;
			});
			// an element of the container as argument
			for (int p = 0; p < 3; ++p)
				add("insert an own element " + std::to_string(p), [p](S& s) {
					if (s.m.empty())
						return false;
					size_t i = p == 0 ? 0 : p == 1 ? s.m.size() / 2 : s.m.size() - 1;
					Ent e = s.m[i];
					const C& cc = s.c;
					auto r = A([&] { return s.c.insert(cc.pos(i)); });
					s.result(r, e.k, e.v);
					return true;
				});
			add("erase by an own key", [](S& s) {
				if (s.m.empty())
					return false;
				size_t i = s.m.size() / 2;
				int k = kof(s.m[i].k), a = s.lb(k), b = s.ub(k);
				const C& cc = s.c;
				size_t r = A([&] { return s.c.erase(key(cc.pos(i))); });
				CHECK(r == size_t(b - a));
				s.m.erase(s.m.begin() + a, s.m.begin() + b);
				return true;
			});
		}
		template<class F>
		static void give(std::vector<V>& v, size_t cat, F f)
		{
			const V* p = v.data();
			switch (cat) {
				case 0: f(v.begin(), v.end()); break;
				case 1: f(FwdIt<V>(p), FwdIt<V>(p + v.size())); break;
				case 2: f(InIt<V>(p), InIt<V>(p + v.size())); break;
				case 3: f(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end())); break;
				default: f(BidIt<V>(p), BidIt<V>(p + v.size())); break;
			}
		}
	};
}
