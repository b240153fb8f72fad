#pragma once
#include "sequence_sys.hpp"
#include <seq/ordered_map.hpp>
namespace od
{
	using namespace mc;
	using sq::Big;
	using sq::NP;
	using sq::P;
	using sq::distinct;
	// hash modes: 0 spread, 1 all equal, 2 four values, 3 same bucket but distinct stored bytes, 4 identity
	struct H
	{
		using is_avalanching = void;
		int mode = 0;
		H(int m = 0) : mode(m) {}
		template<class K>
		size_t operator()(const K& k) const
		{
			point(F_FUNC);
			uint64_t v = uint64_t(unsigned(get(k)));
			switch (mode) {
				case 1: return 0;
				case 2: return v & 3;
				case 3: return v << 56;
				case 4: return v;
				default: v *= 0x9E3779B97F4A7C15ull; return v ^ (v >> 29);
			}
		}
	};
	struct E
	{
		int tag = 0;
		E(int t = 0) : tag(t) {}
		template<class A, class B>
		bool operator()(const A& a, const B& b) const
		{
			// with colliding keys, only the first comparisons of an operation are fault points
			if (acc().count < 120)
				point(F_FUNC);
			return get(a) == get(b);
		}
	};
	// seed language: b<n> / f<n> push back / front fresh keys, i<n> insert anywhere, e<p>/<m>x<c> erase positions, z range erase of the middle half,
	// c clear, r rehash(), R<n> reserve, N<n> rehash(n), L low load factor, U high load factor
	struct Shape
	{
		const char* name;
		int mode;
		const char* prog;
	};
	enum Set { SMALL = 1, COLLIDE = 2, SMALLF = 3, COLLIDEF = 4 };
	template<class Key, bool Map, int Which, class Val = Key>
	struct Sys
	{
		using V = std::conditional_t<Map, std::pair<Key, Val>, Key>;
		using Al = TAlloc<V>;
		using C = std::conditional_t<Map, seq::ordered_map<Key, Val, H, E, Al>, seq::ordered_set<Key, H, E, Al>>;
		using Base = seq::detail::SparseFlatNodeHashTable<Key, V, H, E, Al>;
		static const Key& key(const V& v)
		{
			if constexpr (Map)
				return v.first;
			else
				return v;
		}
		static int val(const V& v)
		{
			if constexpr (Map)
				return get(v.second);
			else
				return 0;
		}
		static V mkv(int k, int v)
		{
			Disarmed d;
			if constexpr (Map)
				return V(Key(k), Val(v));
			else
				return V(k);
		}
		struct Ent
		{
			int k, v;
			const V* addr = nullptr;
			typename C::const_iterator it{};
		};
		int mode;
		C c;
		std::vector<Ent> m;
		int next = 100;
		int gone = 50;
		static const std::vector<Shape>& shapes()
		{
			static const std::vector<Shape> s = {
				{ "new", 0, "" },	  { "one", 0, "b1" },		 { "one rehashed", 0, "b1 r" }, { "cleared", 0, "b3 c" }, { "two", 4, "f2" },
				{ "five", 4, "b3 f2" },	  { "five same hash", 1, "b5" }, { "nine four hashes", 2, "b6 f3 e2/9" }, { "nine one bucket", 3, "b9 e4/9" }, { "reserved", 4, "R100 b4" },
				{ "low load", 0, "L b6" }, { "62", 4, "b31 f31" },	 { "63", 4, "b63" },		{ "63 spread", 0, "b70 e3/9x7" }, { "40 of 80", 0, "b80 e1/2x40" },
				{ "20 of 80 rehashed", 4, "b80 e1/4x20 e0/3x20 e0/2x20 r" }, { "ranged", 4, "b20 z" }, { "full 127", 4, "R76 b127" }, { "high load", 0, "U b62" }, { "eight", 4, "b8" },
				{ "eight rehashed", 4, "b8 r" },
			};
			static const std::vector<Shape> l = {
				{ "125 same", 1, "b125" },	  { "126 same", 1, "b126" },	       { "127 same", 1, "b127" },	{ "128 same", 1, "b128" },
				{ "130 same", 1, "b130" },	  { "200 same", 1, "b200" },	       { "200 one bucket", 3, "b200" }, { "tombstones", 1, "b130 e3/1x2 e60/5x10" },
				{ "tombstones first", 1, "b130 e0/1x3" }, { "almost emptied", 1, "b130 e1/1x127" }, { "emptied", 1, "b129 e0/1x129" }, { "tombstones rehashed", 1, "b130 e1/2x20 r" },
				{ "back to robin", 1, "b130 e1/1x60 r" }, { "reserved 130", 1, "R300 b130" },	       { "four hashes 520", 2, "b520" }, { "linear full", 1, "b130 N130" },
			};
			// subsets for fault injection
			static const std::vector<Shape> sf = { { "new", 0, "" }, { "one", 0, "b1" }, { "five", 4, "b3 f2" }, { "five same hash", 1, "b5" }, { "nine one bucket", 3, "b9 e4/9" }, { "reserved", 4, "R100 b4" },
							       { "low load", 0, "L b6" }, { "63", 4, "b63" }, { "eight rehashed", 4, "b8 r" } };
			static const std::vector<Shape> lf = { { "tombstones", 1, "b130 e3/1x2 e60/5x10" }, { "126 same", 1, "b126" }, { "128 same", 1, "b128" }, { "back to robin", 1, "b130 e1/1x60 r" } };
			return Which == COLLIDE ? l : Which == SMALLF ? sf : Which == COLLIDEF ? lf : s;
		}
		static int nseeds() { return int(shapes().size()); }
		static std::string seed_name(int i) { return shapes()[size_t(i)].name; }
		static int seed_depth(int i, bool thorough) { return Which == COLLIDEF && !thorough && i >= 1 ? 0 : -1; }
		Base& base() { return (Base&)c; }
		bool dirty()
		{
			Disarmed d;
			try {
				int x = -7;
				(void)c.contains(make<Key>(x));
			}
			catch (const std::logic_error&) {
				return true;
			}
			return false;
		}
		size_t index_of(typename C::const_iterator x)
		{
			size_t i = 0;
			const C& cc = c;
			for (auto it = cc.begin(); it != cc.end(); ++it, ++i)
				if (it == x)
					return i;
			fail("iterator designates no element");
		}
		int find(int k)
		{
			for (size_t i = 0; i < m.size(); ++i)
				if (m[i].k == k)
					return int(i);
			return -1;
		}
		template<class It>
		void inserted_anywhere(std::pair<It, bool> r, int k, int v)
		{
			CHECK(r.second, "insertion of the absent key %d reports false", k);
			inserted_at(r.first, k, v);
		}
		void inserted_at(typename C::const_iterator it, int k, int v)
		{
			CHECK(c.size() == m.size() + 1, "size after insert");
			CHECK(get(key(*it)) == k && val(*it) == (Map ? v : 0), "inserted iterator");
			m.insert(m.begin() + ptrdiff_t(index_of(it)), Ent{ k, Map ? v : 0 });
		}
		template<class It>
		void inserted_back(std::pair<It, bool> r, int k, int v)
		{
			inserted_anywhere(r, k, v);
			CHECK(m.back().k == k, "inserted at the back");
		}
		template<class It>
		void inserted_front(std::pair<It, bool> r, int k, int v)
		{
			inserted_anywhere(r, k, v);
			CHECK(m.front().k == k, "inserted at the front");
		}
		template<class It>
		void present(std::pair<It, bool> r, size_t pos)
		{
			CHECK(!r.second, "insertion of the present key %d reports true", m[pos].k);
			CHECK(typename C::const_iterator(r.first) == m[pos].it, "the element returned for the present key %d is another element", m[pos].k);
		}
		void del(size_t i)
		{
			gone = m[i].k;
			m.erase(m.begin() + ptrdiff_t(i));
		}
		void forget()
		{
			for (auto& e : m)
				e.addr = nullptr;
		}
		Sys(int seed)
		  : mode(shapes()[size_t(seed)].mode)
		  , c(H(shapes()[size_t(seed)].mode), E(shapes()[size_t(seed)].mode))
		{
			const char* p = shapes()[size_t(seed)].prog;
			auto num = [&] {
				int n = 0;
				while (*p >= '0' && *p <= '9')
					n = n * 10 + *p++ - '0';
				return n;
			};
			while (*p) {
				char o = *p++;
				if (o == ' ')
					continue;
				int n = num();
				if (o == 'c') {
					c.clear();
					m.clear();
				}
				else if (o == 'r')
					c.rehash();
				else if (o == 'R')
					c.reserve(size_t(n));
				else if (o == 'N')
					c.rehash(size_t(n));
				else if (o == 'L')
					c.max_load_factor(0.1f);
				else if (o == 'U')
					c.max_load_factor(0.95f);
				else if (o == 'z') {
					size_t a = m.size() / 4, b = m.size() - m.size() / 4;
					auto ia = std::next(c.cbegin(), ptrdiff_t(a)), ib = std::next(c.cbegin(), ptrdiff_t(b));
					c.erase(ia, ib);
					m.erase(m.begin() + ptrdiff_t(a), m.begin() + ptrdiff_t(b));
				}
				else if (o == 'e') {
					++p;
					int step = num(), cnt = 1;
					if (*p == 'x') {
						++p;
						cnt = num();
					}
					int done = 0;
					auto it = c.begin();
					size_t cur = 0;
					for (int i = 0; i < cnt; ++i) {
						size_t pos = size_t(n + i * step - done);
						if (pos < m.size()) {
							while (cur < pos)
								++it, ++cur;
							it = decltype(it)(c.erase(it));
							del(pos);
							++done;
						}
					}
				}
				else
					for (int i = 0; i < n; ++i) {
						int k = next++;
						V x = mkv(k, -k);
						if (o == 'b') {
							c.push_back(std::move(x));
							m.push_back(Ent{ k, Map ? -k : 0 });
						}
						else if (o == 'f') {
							c.push_front(std::move(x));
							m.insert(m.begin(), Ent{ k, Map ? -k : 0 });
						}
						else
							inserted_at(c.insert(std::move(x)).first, k, -k);
					}
			}
			forget();
			learn();
		}
		std::string dump()
		{
			std::string r = "model=[";
			for (auto& i : m)
				r += std::to_string(i.k) + " ";
			r += "] content=[";
			for (auto it = c.cbegin(); it != c.cend(); ++it)
				r += std::to_string(get(key(*it))) + " ";
			return r + "]";
		}
		// the content, by iteration; records the address and iterator of the elements not seen yet and compares those of the others
		void learn()
		{
			const C& cc = c;
			CHECK(c.size() == m.size(), "size is %zu, expected %zu; %s", c.size(), m.size(), dump().c_str());
			CHECK(c.empty() == m.empty());
			size_t i = 0;
			auto it = cc.begin();
			for (; it != cc.end() && i < m.size(); ++it, ++i) {
				CHECK(get(key(*it)) == m[i].k && val(*it) == m[i].v, "position %zu holds %d, expected %d; %s", i, get(key(*it)), m[i].k, dump().c_str());
				if (m[i].addr) {
					CHECK(m[i].addr == &*it, "element %zu moved in memory", i);
					CHECK(m[i].it == it, "held iterator of element %zu", i);
				}
				else {
					m[i].addr = &*it;
					m[i].it = it;
				}
			}
			CHECK(i == m.size() && it == cc.end(), "walked %zu elements, expected %zu; %s", i, m.size(), dump().c_str());
		}
		// every key is found in its place, and no other
		void lookups(const C& x, const std::vector<Ent>& mm, bool places)
		{
			C& nx = const_cast<C&>(x);
			for (size_t i = 0; i < mm.size(); ++i) {
				Key k = make<Key>(mm[i].k);
				auto it = x.find(k);
				CHECK(it != x.end(), "key %d is not found; %s", mm[i].k, dump().c_str());
				CHECK(get(key(*it)) == mm[i].k);
				if (places)
					CHECK(&*it == mm[i].addr && it == mm[i].it, "key %d is found at another place", mm[i].k);
				if (i < 4 || i + 4 >= mm.size()) {
					CHECK(x.contains(k) && x.count(k) == 1 && nx.find(k) == it);
					if constexpr (Map)
						CHECK(get(nx.at(k)) == mm[i].v && get(x.at(k)) == mm[i].v, "at");
				}
			}
			for (int k : { next, next + 1, next + 2, next + 3, gone, -3, 99 })
				if (std::none_of(mm.begin(), mm.end(), [k](const Ent& e) { return e.k == k; })) {
					Key kk = make<Key>(k);
					CHECK(!x.contains(kk) && x.count(kk) == 0 && x.find(kk) == x.end(), "absent key %d is found", k);
					if constexpr (Map)
						if (k == next) {
							try {
								nx.at(kk);
								fail("at(absent) does not throw");
							}
							catch (const std::out_of_range&) {
							}
						}
				}
		}
		void check()
		{
			learn();
			if (dirty()) {
				CHECK(acc().fired, "the table reports itself dirty although sequence() was not called");
				c.rehash();
				learn();
			}
			lookups(c, m, true);
			CHECK(c.hash_function().mode == mode && c.key_eq().tag == mode, "hash or equality functor changed");
			const C& cc = c;
			size_t i = m.size();
			for (auto it = cc.rbegin(); it != cc.rend(); ++it)
				CHECK(get(key(*it)) == m[--i].k);
			CHECK(i == 0);
			CHECK(cc.begin() == c.begin() && cc.end() == c.end() && cc.cbegin() == cc.begin() && cc.cend() == cc.end());
		}
		uint64_t fingerprint()
		{
			Fp f;
			Base& b = base();
			f.add(b.d_hash_mask);
			f.add(uint64_t(b.d_max_dist) * 8 + uint64_t(mode));
			f.add(b.d_next_target);
			f.add(uint64_t(double(b.d_load_factor) * 1000));
			std::unordered_map<const void*, int> where;
			for (auto it = c.cbegin(); it != c.cend(); ++it)
				where[&*it] = get(key(*it));
			for (size_t i = 0; b.d_hash_mask && i <= b.d_hash_mask; ++i) {
				f.add(uint64_t(b.d_buckets[i].distance()));
				f.add(b.d_buckets[i].hash());
			}
			auto* d = b.d_seq.data();
			if (d) {
				for (auto* n = d->endNode()->next; n != d->endNode(); n = n->next)
					f.add(n->used);
				int lim = 4000;
				for (auto* n = d->endNode()->next_free; n != d->endNode() && lim--; n = n->next_free)
					f.add(n->used);
			}
			for (auto& e : m) {
				f.add(uint64_t(e.k));
				f.add(uint64_t(e.v));
			}
			return f.h;
		}
		// after a failed operation
		void resync()
		{
			if (dirty())
				c.rehash();
			m.clear();
			const C& cc = c;
			for (auto it = cc.begin(); it != cc.end(); ++it) {
				CHECK(find(get(key(*it))) < 0, "key %d twice after the exception", get(key(*it)));
				m.push_back(Ent{ get(key(*it)), val(*it) });
			}
			mode = c.hash_function().mode;
			CHECK(c.key_eq().tag == mode, "equality and hash functors of different containers");
			learn();
		}
		// a second container of n elements with hash mode hm, at keys first...
		static void fill(C& o, std::vector<Ent>& mo, int n, int first)
		{
			for (int i = 0; i < n; ++i) {
				V x = mkv(first + i, i);
				o.push_back(std::move(x));
				mo.push_back(Ent{ first + i, Map ? i : 0 });
			}
		}
		void expect(C& o, const std::vector<Ent>& mo, int hm, const char* what)
		{
			CHECK(o.size() == mo.size(), "%s: size %zu expected %zu", what, o.size(), mo.size());
			size_t i = 0;
			for (auto it = o.cbegin(); it != o.cend(); ++it, ++i)
				CHECK(get(key(*it)) == mo[i].k && val(*it) == mo[i].v, "%s: content", what);
			lookups(o, mo, false);
			CHECK(o.hash_function().mode == hm && o.key_eq().tag == hm, "%s: functors", what);
		}
		static void ops(std::vector<Op<Sys>>& o)
		{
			using S = Sys;
			constexpr bool copyable = std::is_copy_constructible<Key>::value && std::is_copy_constructible<Val>::value;
			auto add = [&](std::string n, std::function<bool(S&)> f, int fl = 0) { o.push_back(Op<S>{ n, f, fl }); };
			// insertions of an absent key
			for (int back = 0; back < 2; ++back) {
				std::string w = back ? "(erased key)" : "";
				auto kk = [back](S& s) {
					if (!back)
						return s.next++;
					return s.find(s.gone) < 0 ? s.gone : -1;
				};
				add("push_back(&&)" + w, [kk](S& s) {
					int k = kk(s);
					if (k < 0)
						return false;
					V x = mkv(k, 7);
					auto r = A([&] { return s.c.push_back(std::move(x)); });
					s.inserted_back(r, k, 7);
					return true;
				}, STRONG | (back ? FOLLOWUP : DEEP));
				add("insert(&&)" + w, [kk](S& s) {
					int k = kk(s);
					if (k < 0)
						return false;
					V x = mkv(k, 8);
					auto r = A([&] { return s.c.insert(std::move(x)); });
					s.inserted_anywhere(r, k, 8);
					return true;
				}, STRONG | DEEP | (back ? 0 : FOLLOWUP));
			}
			add("push_front(&&)", [](S& s) {
				int k = s.next++;
				V x = mkv(k, 7);
				auto r = A([&] { return s.c.push_front(std::move(x)); });
				s.inserted_front(r, k, 7);
				return true;
			}, STRONG | DEEP);
			add("insert x70", [](S& s) {
				for (int i = 0; i < 70; ++i) {
					int k = s.next++;
					V x = mkv(k, i);
					s.inserted_anywhere(s.c.insert(std::move(x)), k, i);
				}
				return true;
			}, NOFAULT);
			add("emplace", [](S& s) {
				int k = s.next++;
				auto r = A([&] {
					if constexpr (Map)
						return s.c.emplace(k, 3);
					else
						return s.c.emplace(k);
				});
				s.inserted_anywhere(r, k, 3);
				return true;
			}, STRONG);
			add("emplace_back", [](S& s) {
				int k = s.next++;
				auto r = A([&] {
					if constexpr (Map)
						return s.c.emplace_back(k, 3);
					else
						return s.c.emplace_back(k);
				});
				s.inserted_back(r, k, 3);
				return true;
			}, STRONG);
			add("emplace_front", [](S& s) {
				int k = s.next++;
				auto r = A([&] {
					if constexpr (Map)
						return s.c.emplace_front(k, 3);
					else
						return s.c.emplace_front(k);
				});
				s.inserted_front(r, k, 3);
				return true;
			}, STRONG);
			add("emplace_hint", [](S& s) {
				int k = s.next++;
				auto r = A([&] {
					if constexpr (Map)
						return s.c.emplace_hint(s.c.cbegin(), k, 3);
					else
						return s.c.emplace_hint(s.c.cbegin(), k);
				});
				s.inserted_at(r, k, 3);
				return true;
			}, STRONG);
			add("insert(hint,&&)", [](S& s) {
				int k = s.next++;
				V x = mkv(k, 8);
				auto r = A([&] { return s.c.insert(s.c.cend(), std::move(x)); });
				s.inserted_at(r, k, 8);
				return true;
			}, STRONG);
			// of a present key
			for (int p : { 0, 4, 7 }) {
				std::string ps = "(present " + std::to_string(p) + ")";
				auto pos = [p](S& s) {
					if (s.m.empty() || !distinct(p, s.m.size()))
						return -1;
					s.learn();
					return int(P(p, s.m.size()));
				};
				add("insert" + ps, [pos](S& s) {
					int i = pos(s);
					if (i < 0)
						return false;
					V x = mkv(s.m[size_t(i)].k, 8);
					auto r = A([&] { return s.c.insert(std::move(x)); });
					s.present(r, size_t(i));
					CHECK(get(key(x)) == s.m[size_t(i)].k, "the value refused was moved from");
					return true;
				}, STRONG | (p == 4 ? DEEP : 0));
				add("push_back" + ps, [pos](S& s) {
					int i = pos(s);
					if (i < 0)
						return false;
					V x = mkv(s.m[size_t(i)].k, 8);
					auto r = A([&] { return s.c.push_back(std::move(x)); });
					s.present(r, size_t(i));
					return true;
				}, STRONG);
				add("emplace_front" + ps, [pos](S& s) {
					int i = pos(s);
					if (i < 0)
						return false;
					auto r = A([&] {
						if constexpr (Map)
							return s.c.emplace_front(s.m[size_t(i)].k, 3);
						else
							return s.c.emplace_front(s.m[size_t(i)].k);
					});
					s.present(r, size_t(i));
					return true;
				}, STRONG);
				add("erase(key)" + ps, [pos](S& s) {
					int i = pos(s);
					if (i < 0)
						return false;
					Key k = make<Key>(s.m[size_t(i)].k);
					size_t r = A([&] { return s.c.erase(k); });
					CHECK(r == 1);
					s.del(size_t(i));
					return true;
				}, STRONG | DEEP);
				add("erase(it)" + ps, [pos](S& s) {
					int i = pos(s);
					if (i < 0)
						return false;
					s.learn();
					auto r = A([&] { return s.c.erase(s.m[size_t(i)].it); });
					s.del(size_t(i));
					CHECK(size_t(i) < s.m.size() ? typename C::const_iterator(r) == s.m[size_t(i)].it : r == s.c.end(), "returned iterator");
					return true;
				}, STRONG | (p == 4 ? FOLLOWUP : 0));
				for (int q : { 0, 4, 7, 8 })
					if (q >= p)
						add("erase" + ps + "-" + std::to_string(q), [pos, q](S& s) {
							int i = pos(s);
							if (i < 0)
								return false;
							size_t a = size_t(i), b = P(q, s.m.size());
							if (b < a)
								return false;
							s.learn();
							auto it2 = b < s.m.size() ? s.m[b].it : s.c.cend();
							auto r = A([&] { return s.c.erase(s.m[a].it, it2); });
							s.m.erase(s.m.begin() + ptrdiff_t(a), s.m.begin() + ptrdiff_t(b));
							CHECK(a < s.m.size() ? typename C::const_iterator(r) == s.m[a].it : r == s.c.end(), "returned iterator");
							return true;
						}, p == 0 && q == 4 ? DEEP : 0);
				if constexpr (Map) {
					add("[]" + ps, [pos](S& s) {
						int i = pos(s);
						if (i < 0)
							return false;
						Key k = make<Key>(s.m[size_t(i)].k);
						Val& r = A([&]() -> Val& { return s.c[std::move(k)]; });
						CHECK(&r == &s.m[size_t(i)].addr->second);
						{
							Disarmed d;
							r = Val(77);
						}
						s.m[size_t(i)].v = 77;
						return true;
					});
					add("try_emplace" + ps, [pos](S& s) {
						int i = pos(s);
						if (i < 0)
							return false;
						Key k = make<Key>(s.m[size_t(i)].k);
						auto r = A([&] { return s.c.try_emplace(std::move(k), 12); });
						s.present(r, size_t(i));
						CHECK(get(k) == s.m[size_t(i)].k, "try_emplace moved from the key");
						return true;
					}, STRONG);
					for (int w = 0; w < 3; ++w)
						add(std::string(w == 0 ? "insert_or_assign" : w == 1 ? "push_back_or_assign" : "push_front_or_assign") + ps, [pos, w](S& s) {
							int i = pos(s);
							if (i < 0)
								return false;
							Key k = make<Key>(s.m[size_t(i)].k);
							Val v = make<Val>(88);
							auto r = A([&] { return w == 0 ? s.c.insert_or_assign(std::move(k), std::move(v)) : w == 1 ? s.c.push_back_or_assign(std::move(k), std::move(v)) : s.c.push_front_or_assign(std::move(k), std::move(v)); });
							s.present(r, size_t(i));
							s.m[size_t(i)].v = 88;
							return true;
						}, STRONG);
				}
			}
			add("erase(absent)", [](S& s) {
				Key k = make<Key>(s.next);
				size_t r = A([&] { return s.c.erase(k); });
				CHECK(r == 0);
				return true;
			}, STRONG);
			if constexpr (Map) {
				add("[absent]", [](S& s) {
					int k = s.next++;
					Key kk = make<Key>(k);
					Val& r = A([&]() -> Val& { return s.c[std::move(kk)]; });
					{
						Disarmed d;
						CHECK(get(r) == 0);
						r = Val(5);
						auto it = s.c.find(make<Key>(k));
						s.inserted_at(it, k, 5);
						CHECK(&it->second == &r);
					}
					return true;
				}, STRONG);
				for (int w = 0; w < 3; ++w) {
					add(std::string("try_emplace") + (w == 0 ? "" : w == 1 ? "_back" : "_front"), [w](S& s) {
						int k = s.next++;
						Key kk = make<Key>(k);
						auto r = A([&] { return w == 0 ? s.c.try_emplace(std::move(kk), 4) : w == 1 ? s.c.try_emplace_back(std::move(kk), 4) : s.c.try_emplace_front(std::move(kk), 4); });
						if (w == 0)
							s.inserted_anywhere(r, k, 4);
						else if (w == 1)
							s.inserted_back(r, k, 4);
						else
							s.inserted_front(r, k, 4);
						return true;
					}, STRONG);
					add(std::string(w == 0 ? "insert_or_assign" : w == 1 ? "push_back_or_assign" : "push_front_or_assign"), [w](S& s) {
						int k = s.next++;
						Key kk = make<Key>(k);
						Val v = make<Val>(9);
						auto r = A([&] { return w == 0 ? s.c.insert_or_assign(std::move(kk), std::move(v)) : w == 1 ? s.c.push_back_or_assign(std::move(kk), std::move(v)) : s.c.push_front_or_assign(std::move(kk), std::move(v)); });
						if (w == 0)
							s.inserted_anywhere(r, k, 9);
						else if (w == 1)
							s.inserted_back(r, k, 9);
						else
							s.inserted_front(r, k, 9);
						return true;
					}, STRONG);
				}
			}
			// ranges: half of the keys are present, one is repeated
			if constexpr (copyable) {
				for (int kind = 0; kind < 3; ++kind)
					for (int n : { 0, 3, Which == SMALLF || Which == COLLIDEF ? 12 : 70 })
						add(std::string("insert range ") + (kind == 0 ? "ra" : kind == 1 ? "in" : "il") + std::to_string(n), [kind, n](S& s) {
							if (kind == 2 && n != 3)
								return false;
							std::vector<V> x;
							size_t before = s.m.size();
							std::vector<int> fresh;
							{
								Disarmed d;
								x.reserve(size_t(n) * 3);
								for (int i = 0; i < n; ++i) {
									if (size_t(i) < before)
										x.push_back(mkv(s.m[size_t(i)].k, 55));
									fresh.push_back(s.next);
									x.push_back(mkv(s.next++, i));
									if (i == 1)
										x.push_back(mkv(fresh[0], 66));
								}
								if (kind == 2)
									while (x.size() < 3)
										x.push_back(x.back());
							}
							if (kind == 0)
								A([&] { s.c.insert(x.begin(), x.end()); });
							else if (kind == 1)
								A([&] { s.c.insert(InIt<V>(x.data()), InIt<V>(x.data() + x.size())); });
							else {
								fresh.clear();
								std::initializer_list<V> il{ x[0], x[1], x[2] };
								A([&] { s.c.insert(il); });
								for (auto& e : il)
									if (s.find(get(key(e))) < 0 && std::find(fresh.begin(), fresh.end(), get(key(e))) == fresh.end())
										fresh.push_back(get(key(e)));
							}
							// new elements may be anywhere, the others keep their place; values of the first occurrence
							CHECK(s.c.size() == before + fresh.size(), "size after range insert: %zu", s.c.size());
							std::vector<Ent> nm;
							size_t old = 0, fr = 0;
							for (auto it = s.c.cbegin(); it != s.c.cend(); ++it) {
								int k = get(key(*it));
								if (old < s.m.size() && s.m[old].k == k)
									nm.push_back(s.m[old++]);
								else {
									auto f = std::find(fresh.begin(), fresh.end(), k);
									CHECK(f != fresh.end(), "unexpected key %d", k);
									int idx = int(f - fresh.begin());
									nm.push_back(Ent{ k, Map ? (kind == 2 ? S::val(*it) : idx) : 0 });
									++fr;
								}
							}
							CHECK(old == before && fr == fresh.size(), "range insert lost an element");
							s.m = nm;
							return true;
						}, kind == 2 ? NOFAULT : n == 3 ? DEEP : 0);
				add("insert(const&)", [](S& s) {
					int k = s.next++;
					V x = mkv(k, 8);
					auto r = A([&] { return s.c.insert(x); });
					s.inserted_anywhere(r, k, 8);
					CHECK(get(key(x)) == k);
					return true;
				}, STRONG);
				add("push_back(const&)", [](S& s) {
					int k = s.next++;
					V x = mkv(k, 8);
					auto r = A([&] { return s.c.push_back(x); });
					s.inserted_back(r, k, 8);
					return true;
				}, STRONG);
				add("push_front(const&)", [](S& s) {
					int k = s.next++;
					V x = mkv(k, 8);
					auto r = A([&] { return s.c.push_front(x); });
					s.inserted_front(r, k, 8);
					return true;
				}, STRONG);
				add("copy_ctor", [](S& s) {
					C x = A([&] { return C(s.c); });
					s.expect(x, s.m, s.mode, "copy");
					CHECK(x == s.c && !(x != s.c), "copy is not equal");
					int k = s.next++;
					V y = mkv(k, 1);
					x.push_back(std::move(y));
					CHECK(x != s.c && !(x == s.c));
					s.check();
					Key kk = make<Key>(k);
					CHECK(x.erase(kk) == 1);
					A([&] { s.c.swap(x); });
					s.forget();
					return true;
				}, STRONG | FOLLOWUP | DEEP);
				for (int n : Which == SMALLF || Which == COLLIDEF ? std::vector<int>{ 0, 1, 7 } : std::vector<int>{ 0, 1, 3, 70, 130, -1, -2 })
					for (int hm : { 0, 1 })
						add("copy_assign(" + std::to_string(n) + "," + std::to_string(hm) + ")", [n, hm](S& s) {
							C x{ H(hm), E(hm) };
							std::vector<Ent> mx;
							int cnt = n >= 0 ? n : n == -1 ? int(s.m.size()) : int(s.m.size()) * 2;
							if (n < 0 && (cnt == 0 || cnt == 1 || cnt == 3))
								return false;
							int first = s.next;
							s.next += cnt;
							fill(x, mx, cnt, first);
							A([&] { s.c = x; });
							s.m = mx;
							s.mode = hm;
							s.expect(x, mx, hm, "source of a copy assignment");
							CHECK(s.c == x);
							return true;
						}, n == 1 || n == 70 ? DEEP : 0);
				add("self_assign", [](S& s) {
					C& r = s.c;
					A([&] { s.c = r; });
					return true;
				});
				add("ctors", [](S& s) {
					std::vector<V> x;
					std::vector<Ent> mx;
					{
						Disarmed d;
						x.reserve(s.m.size() * 2);
						for (auto& e : s.m) {
							x.push_back(mkv(e.k, e.v));
							mx.push_back(Ent{ e.k, e.v });
						}
						for (size_t i = 0; i < s.m.size(); i += 2)
							x.push_back(mkv(s.m[i].k, 99));
					}
					{
						C a = A([&] { return C(x.begin(), x.end(), H(s.mode), E(s.mode), Al()); });
						s.expect(a, mx, s.mode, "range constructor");
					}
					{
						C a = A([&] { return C(InIt<V>(x.data()), InIt<V>(x.data() + x.size()), H(s.mode), E(s.mode), Al(3)); });
						s.expect(a, mx, s.mode, "input range constructor");
						C b = A([&] { return C(std::move(a), Al(4)); });
						s.expect(b, mx, s.mode, "move constructor with another allocator");
						C d = A([&] { return C(std::move(b), Al(4)); });
						s.expect(d, mx, s.mode, "move constructor with an equal allocator");
						C e = A([&] { return C(d, Al(5)); });
						s.expect(e, mx, s.mode, "copy constructor with another allocator");
					}
					return true;
				}, STRONG);
			}
			add("move_ctor", [](S& s) {
				C x = A([&] { return C(std::move(s.c)); });
				CHECK(s.c.size() == 0 && s.c.begin() == s.c.end());
				Key k = make<Key>(s.m.empty() ? 3 : s.m[0].k);
				CHECK(!s.c.contains(k));
				V y = mkv(1, 1);
				s.c.insert(std::move(y));
				s.c.clear();
				A([&] { s.c = std::move(x); });
				return true;
			});
			for (int n : { 0, 1, 5, 70, 130 })
				for (int hm : { 0, 1 })
					add("swap(" + std::to_string(n) + "," + std::to_string(hm) + ")", [n, hm](S& s) {
						C x{ H(hm), E(hm) };
						std::vector<Ent> mx;
						int first = s.next;
						s.next += n;
						fill(x, mx, n, first);
						s.learn();
						A([&] { s.c.swap(x); });
						std::vector<Ent> ms = s.m;
						int om = s.mode;
						s.m = mx;
						s.mode = hm;
						s.expect(x, ms, om, "swapped away");
						size_t i = 0;
						for (auto it = x.cbegin(); it != x.cend(); ++it, ++i)
							CHECK(it == ms[i].it && &*it == ms[i].addr, "elements keep their place");
						return true;
					}, NOFAULT);
			add("clear", [](S& s) {
				A([&] { s.c.clear(); });
				s.m.clear();
				return true;
			}, FOLLOWUP);
			add("rehash()", [](S& s) {
				A([&] { s.c.rehash(); });
				return true;
			}, FOLLOWUP | DEEP);
			for (int n : { 0, 1, 4, 64, 100, 200, 1000 }) {
				add("rehash(" + std::to_string(n) + ")", [n](S& s) {
					A([&] { s.c.rehash(size_t(n)); });
					return true;
				}, n == 1 || n == 200 ? DEEP : 0);
				add("reserve(" + std::to_string(n) + ")", [n](S& s) {
					A([&] { s.c.reserve(size_t(n)); });
					return true;
				}, n == 200 ? DEEP : 0);
			}
			add("rehash(size)", [](S& s) {
				A([&] { s.c.rehash(s.m.size()); });
				return true;
			});
			for (int f : { 10, 60, 95, 200 })
				add("max_load_factor(" + std::to_string(f) + ")", [f](S& s) {
					A([&] { s.c.max_load_factor(float(f) / 100.f); });
					return true;
				}, f == 10 ? DEEP : 0);
			add("shrink_to_fit", [](S& s) {
				A([&] { s.c.shrink_to_fit(); });
				s.forget();
				return true;
			});
			for (int k = 0; k < 3; ++k)
				add("sort" + std::to_string(k), [k](S& s) {
					auto kf = [k](int v) { return k == 0 ? v : k == 1 ? -v : (v * 7) % 3; };
					if constexpr (Map)
						A([&] { s.c.sort([&](const Key& a, const Key& b) { return kf(get(a)) < kf(get(b)); }); });
					else if (k == 0)
						A([&] { s.c.sort(); });
					else
						A([&] { s.c.sort([&](const Key& a, const Key& b) { return kf(get(a)) < kf(get(b)); }); });
					std::stable_sort(s.m.begin(), s.m.end(), [&](const Ent& a, const Ent& b) { return kf(a.k) < kf(b.k); });
					s.forget();
					return true;
				}, k == 1 ? DEEP : 0);
			for (int k = 0; k < 4; ++k)
				add("erase_if" + std::to_string(k), [k](S& s) {
					auto pr = [k](int v) { return k == 0 ? false : k == 1 ? v % 3 == 0 : k == 2 ? v % 3 != 0 : true; };
					size_t n = 0;
					size_t r = A([&] {
						return seq::erase_if(s.c, [&](const V& v) {
							point(F_FUNC);
							return pr(get(key(v)));
						});
					});
					for (size_t i = 0; i < s.m.size();)
						if (pr(s.m[i].k)) {
							s.del(i);
							++n;
						}
						else
							++i;
					CHECK(r == n, "erase_if returned %zu, expected %zu", r, n);
					return true;
				}, k == 1 ? DEEP : 0);
			// editing the sequence: append duplicates and new keys, drop some, then rehash
			for (int k = 0; k < 4; ++k)
				add("sequence edit" + std::to_string(k), [k](S& s) {
					s.learn();
					bool ok = A([&] {
						auto& q = s.c.sequence();
						CHECK(s.dirty(), "find does not report a table made dirty by sequence()");
						if (k == 0)
							return s.m.size() > 0;
						int cnt = k == 3 ? 140 : 3;
						for (int i = 0; i < cnt; ++i) {
							int dupk = s.m.empty() ? -1 : s.m[size_t(i * 5) % s.m.size()].k;
							if (k != 3 && dupk >= 0) {
								V x = mkv(dupk, 44);
								q.push_back(std::move(x));
							}
							int nk = s.next++;
							V y = mkv(nk, 45);
							q.push_back(std::move(y));
							V z = mkv(nk, 46);
							q.push_back(std::move(z));
							s.m.push_back(Ent{ nk, Map ? 45 : 0 });
						}
						if (k == 2) {
							// a duplicate in front wins over the one present
							int dupk = s.m.size() > 3 ? s.m[1].k : -1;
							if (dupk >= 0) {
								V x = mkv(dupk, 47);
								q.push_front(std::move(x));
								s.m.erase(s.m.begin() + 1);
								s.m.insert(s.m.begin(), Ent{ dupk, Map ? 47 : 0 });
							}
						}
						return true;
					});
					A([&] { s.c.rehash(); });
					return ok;
				}, (k == 1 || k == 2 ? DEEP : 0));
			add("== permuted", [](S& s) {
				C x{ H(0), E(0) };
				for (size_t i = s.m.size(); i-- > 0;) {
					V v = mkv(s.m[i].k, s.m[i].v);
					x.push_back(std::move(v));
				}
				CHECK(A([&] { return x == s.c; }) && A([&] { return s.c == x; }) && !(x != s.c), "== with another order");
				if (s.m.size() > 1) {
					Key k = make<Key>(s.m[0].k);
					CHECK(x.erase(k) == 1);
					V v = mkv(s.next, 1);
					x.push_back(std::move(v));
					CHECK(x != s.c && s.c != x, "== with one key changed");
				}
				return true;
			});
		}
	};
}
