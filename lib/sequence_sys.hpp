#pragma once
#include "elems.hpp"
#include <seq/sequence.hpp>
namespace sq
{
	using namespace mc;
	// padded to get chunks of 4 elements
	template<class B>
	struct Big : B
	{
		using B::B;
		char pad[72];
	};
	struct BigInt
	{
		int v;
		char pad[72];
		BigInt(int x = 0) : v(x) {}
		int get() const { return v; }
		friend bool operator<(const BigInt& a, const BigInt& b) { return a.v < b.v; }
	};
	enum { NP = 9 };
	inline size_t P(int p, size_t n)
	{
		switch (p) {
			case 0: return 0;
			case 1: return std::min<size_t>(1, n);
			case 2: return n / 4;
			case 3: return n / 2 ? n / 2 - 1 : 0;
			case 4: return n / 2;
			case 5: return n - n / 4;
			case 6: return n > 1 ? n - 2 : 0;
			case 7: return n ? n - 1 : 0;
			default: return n;
		}
	}
	inline bool distinct(int p, size_t n)
	{
		for (int q = 0; q < p; ++q)
			if (P(q, n) == P(p, n))
				return false;
		return true;
	}
	// seed language: b<n> f<n> push back/front, e<p>/<m> erase positions p, p+m, p+2m..., c clear, i<n> insert anywhere, s shrink_to_fit, B/F<n> pop back/front
	struct Shape
	{
		const char *name, *prog;
		int depth_q = -1;
	};
	template<class T, bool Align, bool Light = false>
	struct Sys
	{
		using C = seq::sequence<T, TAlloc<T>, Align>;
		static constexpr int K = int(seq::detail::list_chunk<T>::count);
		struct Ent
		{
			int v;
			const T* addr = nullptr;
			typename C::const_iterator it{};
		};
		C c;
		std::vector<Ent> m;
		int next = 100;
		static const std::vector<Shape>& shapes()
		{
			static const std::vector<Shape> v = {
				{ "new", "" },
				{ "cleared", "b3 c" },
				{ "b1", "b1" },
				{ "b3", "b3" },
				{ "b4", "b4" },
				{ "f4", "f4" },
				{ "b5", "b5" },
				{ "f5", "f5" },
				{ "f3b2", "f3 b2" },
				{ "b12", "b12" },
				{ "f2b9", "f2 b9" },
				{ "hole1", "b4 e1/9" },
				{ "hole2", "b4 e1/1x2" },
				{ "holefront", "b8 e0/9" },
				{ "holes3", "b12 e1/3x4" },
				{ "holes4", "b16 e2/2x7" },
				{ "midgone", "b12 e4/1x4" },
				{ "sparse", "b16 e1/1x3 e2/1x3 e3/1x3" },
				{ "refill", "b12 e1/3x4 i2" },
				{ "popb", "b9 B2 f3 F1" },
				{ "shrunk", "b12 e1/3x4 s" },
				{ "frontfree", "f4 F1 b3" },
				{ "twofree", "b12 e1/9x1 e5/9x1 e9/9x1" },
			};
			// scaled to chunks of 32 or 64
			static const std::vector<Shape> l = {
				{ "k-1", "bK B1" },	    { "k", "bK" },		  { "k+1", "bK b1" },	    { "fk", "fK" },	  { "fkb2k", "fK bK bK" },
				{ "holes", "bK bK bK e1/3x40" }, { "holes2", "bK bK f3 e5/2x50 e0/1x1" }, { "mid gone", "bK bK bK eK/1xK" }, { "last only", "bK e0/1x31" },
			};
			return Light ? l : v;
		}
		static int nseeds() { return int(shapes().size()); }
		static std::string seed_name(int i) { return shapes()[size_t(i)].name; }
		static int seed_depth(int, bool) { return -1; }
		void add_back(int v) { m.push_back(Ent{ v }); }
		void add_front(int v) { m.insert(m.begin(), Ent{ v }); }
		void del(size_t i) { m.erase(m.begin() + ptrdiff_t(i)); }
		typename C::iterator at(size_t i)
		{
			auto it = c.begin();
			while (i--)
				++it;
			return it;
		}
		// position of an iterator, by walking
		size_t index_of(typename C::const_iterator x)
		{
			size_t i = 0;
			const C& cc = c;
			for (auto it = cc.begin(); it != cc.end(); ++it, ++i)
				if (it == x)
					return i;
			fail("iterator designates no element");
		}
		void inserted(typename C::iterator it, int v)
		{
			CHECK(c.size() == m.size() + 1, "size after insert");
			CHECK(get(*it) == v, "inserted iterator holds %d", get(*it));
			m.insert(m.begin() + ptrdiff_t(index_of(it)), Ent{ v });
		}
		Sys(int seed)
		{
			const char* p = shapes()[size_t(seed)].prog;
			auto num = [&] {
				if (*p == 'K') {
					++p;
					return K;
				}
				int n = 0;
				while (*p >= '0' && *p <= '9')
					n = n * 10 + *p++ - '0';
				return n;
			};
			while (*p) {
				char o = *p++;
				if (o == ' ')
					continue;
				int n = o == 'c' || o == 's' ? 0 : num();
				if (o == 'c') {
					c.clear();
					m.clear();
				}
				else if (o == 's')
					c.shrink_to_fit();
				else if (o == 'e') {
					++p;
					int step = num(), cnt = 1;
					if (*p == 'x') {
						++p;
						cnt = num();
					}
					// positions n, n+step, ... of the sequence before the erasures
					int done = 0;
					for (int i = 0; i < cnt; ++i) {
						size_t pos = size_t(n + i * step - done);
						if (pos < m.size()) {
							c.erase(at(pos));
							del(pos);
							++done;
						}
					}
				}
				else
					for (int i = 0; i < n; ++i) {
						if (o == 'b') {
							c.emplace_back(next);
							add_back(next++);
						}
						else if (o == 'f') {
							c.emplace_front(next);
							add_front(next++);
						}
						else if (o == 'B') {
							c.pop_back();
							m.pop_back();
						}
						else if (o == 'F') {
							c.pop_front();
							del(0);
						}
						else if (o == 'i') {
							auto it = c.emplace(next);
							inserted(it, next++);
						}
					}
			}
			for (auto& e : m)
				e.addr = nullptr;
			learn();
		}
		// record addresses and iterators of the elements not seen yet, check the others
		void learn()
		{
			const C& cc = c;
			size_t i = 0;
			auto it = cc.begin();
			for (; it != cc.end() && i < m.size(); ++it, ++i) {
				CHECK(get(*it) == m[i].v, "position %zu holds %d, expected %d; %s", i, get(*it), m[i].v, dump().c_str());
				if (m[i].addr) {
					CHECK(m[i].addr == &*it, "element %zu moved in memory", i);
					CHECK(m[i].it == it, "held iterator of element %zu", i);
				}
				else {
					m[i].addr = &*it;
					m[i].it = it;
				}
			}
			CHECK(i == m.size() && it == cc.end(), "walked %zu elements, expected %zu; %s", i, m.size(), dump().c_str());
		}
		void forget()
		{
			for (auto& e : m)
				e.addr = nullptr;
		}
		std::string dump() const
		{
			std::string r = "model=[";
			for (auto& i : m)
				r += std::to_string(i.v) + " ";
			r += "] size=" + std::to_string(c.size());
			return r + "]";
		}
		template<class It>
		void walk(It b, It e, const char* what)
		{
			size_t n = m.size();
			size_t i = 0;
			for (It it = b; it != e; ++it, ++i)
				CHECK(i < n && get(*it) == m[i].v, "%s forward at %zu %s", what, i, dump().c_str());
			CHECK(i == n, "%s", what);
			for (It it = e; it != b;) {
				--it;
				--i;
				CHECK(get(*it) == m[i].v && &*it == m[i].addr, "%s backward at %zu", what, i);
			}
			if (!c.data())
				return;
			std::vector<It> its;
			for (It it = b;; ++it) {
				its.push_back(it);
				if (it == e)
					break;
			}
			for (size_t x = 0; x <= n; ++x) {
				if (n > 20) {
					bool in = false;
					for (int p = 0; p < NP; ++p)
						in |= P(p, n) == x;
					if (!in)
						continue;
				}
				for (size_t y = 0; y <= n; ++y) {
					It ix = its[x], iy = its[y];
					ptrdiff_t d = ptrdiff_t(y) - ptrdiff_t(x);
					CHECK(ix + d == iy, "%s %zu + %td", what, x, d);
					CHECK(iy - d == ix, "%s %zu - %td", what, y, d);
					It w = ix;
					w += d;
					It u = ix;
					u -= -d;
					CHECK(w == iy && u == iy, "%s += -= from %zu by %td", what, x, d);
					CHECK(iy - ix == d, "%s difference between %zu and %zu is %td", what, y, x, ptrdiff_t(iy - ix));
					CHECK((ix == iy) == (d == 0) && (ix != iy) == (d != 0));
					CHECK((iy < ix) == (d < 0) && (iy > ix) == (d > 0) && (iy <= ix) == (d <= 0) && (iy >= ix) == (d >= 0), "%s comparison of %zu and %zu of %zu", what, y, x, n);
				}
			}
		}
		void check()
		{
			const C& cc = c;
			size_t n = m.size();
			CHECK(c.size() == n, "size %zu expected %zu", c.size(), n);
			CHECK(c.empty() == m.empty());
			learn();
			walk(c.begin(), c.end(), "iterator");
			walk(cc.begin(), cc.end(), "const_iterator");
			CHECK(cc.cbegin() == cc.begin() && cc.cend() == cc.end());
			size_t i = n;
			for (auto it = cc.rbegin(); it != cc.rend(); ++it)
				CHECK(get(*it) == m[--i].v);
			CHECK(i == 0);
			i = n;
			for (auto it = c.rbegin(); it != c.rend(); ++it)
				CHECK(get(*it) == m[--i].v);
			// held iterators
			for (size_t k = 0; k < n; ++k) {
				CHECK(get(*m[k].it) == m[k].v);
				auto it = m[k].it;
				++it;
				CHECK(k + 1 < n ? it == m[k + 1].it : it == cc.end(), "increment of a held iterator at %zu", k);
				CHECK(c.iterator_at(k) == m[k].it && cc.iterator_at(k) == m[k].it, "iterator_at(%zu)", k);
			}
			CHECK(c.iterator_at(n) == c.end() && cc.iterator_at(n) == cc.end(), "iterator_at(size())");
			if (n) {
				CHECK(&c.front() == m.front().addr && &cc.front() == m.front().addr, "front");
				CHECK(&c.back() == m.back().addr && &cc.back() == m.back().addr, "back");
			}
		}
		template<class N>
		static int slot(const N* n, int i)
		{
			return int((n->used >> i) & 1);
		}
		uint64_t fingerprint()
		{
			Fp f;
			f.add(c.size());
			auto* d = c.data();
			if (d) {
				f.add(1);
				std::unordered_map<const void*, uint64_t> ids;
				int lim = 4000;
				for (auto* n = d->endNode()->next; n != d->endNode(); n = n->next) {
					f.add(n->used);
					f.add(uint64_t(n->start) * 100 + uint64_t(n->end));
					ids.emplace(n, ids.size() + 1);
				}
				for (auto* n = d->endNode()->next_free; n != d->endNode() && lim--; n = n->next_free)
					f.add(ids[n]);
			}
			for (auto& e : m)
				f.add(uint64_t(e.v));
			return f.h;
		}
		void resync()
		{
			m.clear();
			const C& cc = c;
			for (auto it = cc.begin(); it != cc.end(); ++it)
				m.push_back(Ent{ get(*it) });
		}
		static void ops(std::vector<Op<Sys>>& o)
		{
			using S = Sys;
			constexpr bool copyable = std::is_copy_constructible<T>::value;
			auto add = [&](std::string n, std::function<bool(S&)> f, int fl = 0) { o.push_back(Op<S>{ n, f, fl }); };
			add("emplace_back", [](S& s) {
				int v = s.next++;
				T& r = A([&]() -> T& { return s.c.emplace_back(v); });
				s.add_back(v);
				CHECK(&r == &s.c.back());
				return true;
			}, STRONG | FOLLOWUP | DEEP);
			add("emplace_front", [](S& s) {
				int v = s.next++;
				T& r = A([&]() -> T& { return s.c.emplace_front(v); });
				s.add_front(v);
				CHECK(&r == &s.c.front());
				return true;
			}, STRONG | FOLLOWUP | DEEP);
			add("emplace_back_iter", [](S& s) {
				int v = s.next++;
				auto it = A([&] { return s.c.emplace_back_iter(v); });
				s.add_back(v);
				CHECK(s.index_of(it) == s.m.size() - 1);
				return true;
			}, STRONG);
			add("emplace_front_iter", [](S& s) {
				int v = s.next++;
				auto it = A([&] { return s.c.emplace_front_iter(v); });
				s.add_front(v);
				CHECK(s.index_of(it) == 0);
				return true;
			}, STRONG);
			add("push_back(&&)", [](S& s) {
				int v = s.next++;
				T x = make<T>(v);
				A([&] { s.c.push_back(std::move(x)); });
				s.add_back(v);
				return true;
			}, STRONG);
			add("push_front(&&)", [](S& s) {
				int v = s.next++;
				T x = make<T>(v);
				A([&] { s.c.push_front(std::move(x)); });
				s.add_front(v);
				return true;
			}, STRONG);
			add("emplace", [](S& s) {
				int v = s.next++;
				auto it = A([&] { return s.c.emplace(v); });
				s.inserted(it, v);
				return true;
			}, STRONG | FOLLOWUP | DEEP);
			add("insert(&&)", [](S& s) {
				int v = s.next++;
				T x = make<T>(v);
				auto it = A([&] { return s.c.insert(std::move(x)); });
				s.inserted(it, v);
				return true;
			}, STRONG);
			add("insert x6", [](S& s) {
				for (int i = 0; i < 6; ++i) {
					int v = s.next++;
					auto it = s.c.emplace(v);
					s.inserted(it, v);
				}
				return true;
			}, NOFAULT);
			add("pop_back", [](S& s) {
				if (s.m.empty())
					return false;
				A([&] { s.c.pop_back(); });
				s.m.pop_back();
				return true;
			}, FOLLOWUP | DEEP);
			add("pop_front", [](S& s) {
				if (s.m.empty())
					return false;
				A([&] { s.c.pop_front(); });
				s.del(0);
				return true;
			}, FOLLOWUP | DEEP);
			add("clear", [](S& s) {
				A([&] { s.c.clear(); });
				s.m.clear();
				return true;
			}, FOLLOWUP);
			add("shrink_to_fit", [](S& s) {
				A([&] { s.c.shrink_to_fit(); });
				s.forget();
				return true;
			}, FOLLOWUP | DEEP);
			for (size_t n : { 0, 5, 100 })
				add("reserve(" + std::to_string(n) + ")", [n](S& s) {
					A([&] { s.c.reserve(n); });
					return true;
				}, n == 5 ? STRONG : 0);
			add("swap(other)", [](S& s) {
				C other;
				std::vector<Ent> mo;
				s.learn();
				for (int i = 0; i < 5; ++i) {
					other.emplace_back(s.next);
					mo.push_back(Ent{ s.next++ });
				}
				A([&] { s.c.swap(other); });
				CHECK(other.size() == s.m.size());
				size_t i = 0;
				for (auto it = other.begin(); it != other.end(); ++it, ++i)
					CHECK(get(*it) == s.m[i].v && &*it == s.m[i].addr && it == s.m[i].it, "elements keep their place");
				A([&] { other.emplace_back(1); });
				s.m = mo;
				return true;
			}, NOFAULT);
			add("move_ctor", [](S& s) {
				C other = A([&] { return C(std::move(s.c)); });
				CHECK(s.c.size() == 0 && s.c.begin() == s.c.end());
				CHECK(other.size() == s.m.size());
				A([&] { s.c = std::move(other); });
				return true;
			}, FOLLOWUP);
			for (int p = 0; p < NP; ++p) {
				std::string ps = "@" + std::to_string(p);
				add("erase" + ps, [p](S& s) {
					size_t n = s.m.size();
					if (!distinct(p, n) || P(p, n) >= n)
						return false;
					size_t pos = P(p, n);
					s.learn();
					auto it = A([&] { return s.c.erase(s.m[pos].it); });
					s.del(pos);
					CHECK(pos < s.m.size() ? it == s.m[pos].it : it == s.c.end(), "returned iterator");
					return true;
				}, DEEP | (p == 4 ? FOLLOWUP : 0));
				for (int q = p; q < NP; ++q)
					add("erase" + ps + "-" + std::to_string(q), [p, q](S& s) {
						size_t n = s.m.size();
						if (!distinct(p, n) || (q != p && !distinct(q, n)) || P(q, n) < P(p, n))
							return false;
						size_t a = P(p, n), b = P(q, n);
						s.learn();
						auto ia = s.c.cbegin(), ib = s.c.cend();
						if (a < n)
							ia = s.m[a].it;
						else
							ia = ib;
						if (b < n)
							ib = s.m[b].it;
						auto it = A([&] { return s.c.erase(ia, ib); });
						s.m.erase(s.m.begin() + ptrdiff_t(a), s.m.begin() + ptrdiff_t(b));
						CHECK(a < s.m.size() ? it == s.m[a].it : it == s.c.end(), "returned iterator");
						return true;
					}, q == p + 3 ? DEEP : 0);
			}
			if constexpr (std::is_default_constructible<T>::value) {
				for (int k : { 0, 1, 3, 5 }) {
					add("resize(" + std::to_string(k) + ")", [k](S& s) {
						A([&] { s.c.resize(size_t(k)); });
						s.m.resize(size_t(k), Ent{ 0 });
						return true;
					});
					add("resize_front(" + std::to_string(k) + ")", [k](S& s) {
						A([&] { s.c.resize_front(size_t(k)); });
						if (s.m.size() > size_t(k))
							s.m.erase(s.m.begin(), s.m.end() - k);
						else
							s.m.insert(s.m.begin(), size_t(k) - s.m.size(), Ent{ 0 });
						return true;
					});
				}
				for (int k : { 1, 2, 4, 6, 9 }) {
					add("resize-" + std::to_string(k), [k](S& s) {
						if (s.m.size() < size_t(k))
							return false;
						A([&] { s.c.resize(s.m.size() - size_t(k)); });
						s.m.resize(s.m.size() - size_t(k));
						return true;
					}, k == 2 ? DEEP : 0);
					add("resize_front-" + std::to_string(k), [k](S& s) {
						if (s.m.size() < size_t(k))
							return false;
						A([&] { s.c.resize_front(s.m.size() - size_t(k)); });
						s.m.erase(s.m.begin(), s.m.begin() + k);
						return true;
					}, k == 2 ? DEEP : 0);
				}
				for (int k : { 1, 4, 11, 30 }) {
					std::string ks = "+" + std::to_string(k);
					add("resize" + ks, [k](S& s) {
						A([&] { s.c.resize(s.m.size() + size_t(k)); });
						s.m.resize(s.m.size() + size_t(k), Ent{ 0 });
						return true;
					}, (k == 4 ? DEEP : 0));
					add("resize_front" + ks, [k](S& s) {
						A([&] { s.c.resize_front(s.m.size() + size_t(k)); });
						s.m.insert(s.m.begin(), size_t(k), Ent{ 0 });
						return true;
					}, (k == 4 ? DEEP : 0));
				}
			}
			if constexpr (copyable) {
				add("push_back(const&)", [](S& s) {
					int v = s.next++;
					T x = make<T>(v);
					A([&] { s.c.push_back(x); });
					s.add_back(v);
					CHECK(get(x) == v);
					return true;
				}, STRONG);
				add("push_front(const&)", [](S& s) {
					int v = s.next++;
					T x = make<T>(v);
					A([&] { s.c.push_front(x); });
					s.add_front(v);
					CHECK(get(x) == v);
					return true;
				}, STRONG);
				add("insert(const&)", [](S& s) {
					int v = s.next++;
					T x = make<T>(v);
					auto it = A([&] { return s.c.insert(x); });
					s.inserted(it, v);
					CHECK(get(x) == v);
					return true;
				}, STRONG);
				for (int q : { 0, 4, 7 }) {
					std::string qs = "(self[" + std::to_string(q) + "])";
					auto pick = [q](S& s, int& v) -> const T* {
						if (!distinct(q, s.m.size()) || s.m.empty())
							return nullptr;
						size_t i = P(q, s.m.size());
						s.learn();
						v = s.m[i].v;
						return s.m[i].addr;
					};
					add("push_back" + qs, [pick](S& s) {
						int v;
						const T* p = pick(s, v);
						if (!p)
							return false;
						A([&] { s.c.push_back(*p); });
						s.add_back(v);
						return true;
					}, STRONG);
					add("push_front" + qs, [pick](S& s) {
						int v;
						const T* p = pick(s, v);
						if (!p)
							return false;
						A([&] { s.c.push_front(*p); });
						s.add_front(v);
						return true;
					}, STRONG);
					add("resize+6" + qs, [pick](S& s) {
						int v;
						const T* p = pick(s, v);
						if (!p)
							return false;
						A([&] { s.c.resize(s.m.size() + 6, *p); });
						s.m.insert(s.m.end(), 6, Ent{ v });
						return true;
					});
					add("resize_front+6" + qs, [pick](S& s) {
						int v;
						const T* p = pick(s, v);
						if (!p)
							return false;
						A([&] { s.c.resize_front(s.m.size() + 6, *p); });
						s.m.insert(s.m.begin(), 6, Ent{ v });
						return true;
					});
				}
				for (int n : { 0, 2, 4, 5, 12, 33 }) {
					std::string ns = "(" + std::to_string(n) + ")";
					auto fin = [n](S& s) {
						s.m.clear();
						for (int i = 0; i < n; ++i)
							s.m.push_back(Ent{ s.next++ });
						return true;
					};
					add("assign_ra" + ns, [n, fin](S& s) {
						auto v = vec_range<T>(n, s.next);
						A([&] { s.c.assign(v.begin(), v.end()); });
						return fin(s);
					}, n == 5 ? DEEP : 0);
					add("assign_in" + ns, [n, fin](S& s) {
						auto v = vec_range<T>(n, s.next);
						A([&] { s.c.assign(InIt<T>(v.data()), InIt<T>(v.data() + n)); });
						return fin(s);
					});
					add("assign_n" + ns, [n](S& s) {
						int v = s.next++;
						T x = make<T>(v);
						A([&] { s.c.assign(size_t(n), x); });
						s.m.assign(size_t(n), Ent{ v });
						return true;
					});
					for (int holes = 0; holes < 2; ++holes)
						add("copy_assign" + ns + (holes ? "holes" : ""), [n, fin, holes](S& s) {
							C o;
							for (int i = 0; i < n; ++i) {
								if (holes)
									o.emplace_back(-5);
								o.emplace_back(s.next + i);
							}
							if (holes)
								for (auto it = o.begin(); it != o.end();)
									it = get(*it) == -5 ? o.erase(it) : ++it;
							A([&] { s.c = o; });
							CHECK(o.size() == size_t(n));
							int i = 0;
							for (auto it = o.begin(); it != o.end(); ++it, ++i)
								CHECK(get(*it) == s.next + i);
							return fin(s);
						}, n == 5 ? DEEP : 0);
					add("resize(m," + std::to_string(n) + ")", [n](S& s) {
						int v = s.next++;
						T x = make<T>(v);
						A([&] { s.c.resize(size_t(n), x); });
						s.m.resize(size_t(n), Ent{ v });
						return true;
					});
					add("resize_front(m," + std::to_string(n) + ")", [n](S& s) {
						int v = s.next++;
						T x = make<T>(v);
						A([&] { s.c.resize_front(size_t(n), x); });
						if (s.m.size() > size_t(n))
							s.m.erase(s.m.begin(), s.m.end() - n);
						else
							s.m.insert(s.m.begin(), size_t(n) - s.m.size(), Ent{ v });
						return true;
					});
				}
				add("assign_il", [](S& s) {
					int v = s.next;
					s.next += 2;
					std::initializer_list<T> il{ T(v), T(v + 1) };
					A([&] { s.c.assign(il); });
					s.m = { Ent{ v }, Ent{ v + 1 } };
					return true;
				}, NOFAULT);
				add("self_assign", [](S& s) {
					C& r = s.c;
					A([&] { s.c = r; });
					return true;
				});
				add("copy_ctor", [](S& s) {
					C o = A([&] { return C(s.c); });
					CHECK(o.size() == s.m.size());
					size_t i = 0;
					for (auto it = o.begin(); it != o.end(); ++it, ++i)
						CHECK(get(*it) == s.m[i].v);
					s.check();
					A([&] { s.c.swap(o); });
					s.forget();
					return true;
				}, STRONG | FOLLOWUP);
				add("ctors", [](S& s) {
					auto v = vec_range<T>(int(s.m.size()), 0);
					auto eq = [](C& a, int n, int first, int step) {
						CHECK(a.size() == size_t(n));
						int i = 0;
						for (auto it = a.begin(); it != a.end(); ++it, ++i)
							CHECK(get(*it) == first + i * step);
						CHECK(i == n);
					};
					{
						C a = A([&] { return C(v.begin(), v.end(), TAlloc<T>()); });
						eq(a, int(v.size()), 0, 1);
					}
					{
						C a = A([&] { return C(InIt<T>(v.data()), InIt<T>(v.data() + v.size()), TAlloc<T>()); });
						eq(a, int(v.size()), 0, 1);
					}
					{
						C a = A([&] { return C(size_t(5)); });
						eq(a, 5, 0, 0);
					}
					{
						T x = make<T>(9);
						C a = A([&] { return C(size_t(5), x, TAlloc<T>()); });
						eq(a, 5, 9, 0);
					}
					{
						C a = A([&] { return C(s.c, TAlloc<T>(7)); });
						CHECK(a.size() == s.m.size());
						C b = A([&] { return C(std::move(a), TAlloc<T>(8)); });
						CHECK(b.size() == s.m.size());
						size_t i = 0;
						for (auto it = b.begin(); it != b.end(); ++it, ++i)
							CHECK(get(*it) == s.m[i].v);
						C d = A([&] { return C(std::move(b), TAlloc<T>(8)); });
						CHECK(d.size() == s.m.size());
					}
					return true;
				}, STRONG);
			}
			// stable sorts: by value, reversed, and with many equivalent elements
			for (int k = 0; k < 3; ++k)
				add("sort" + std::to_string(k), [k](S& s) {
					auto key = [k](int v) { return k == 0 ? v : k == 1 ? -v : (v * 7) % 3; };
					if (k == 0)
						A([&] { s.c.sort([](const T& a, const T& b) { return get(a) < get(b); }); });
					else
						A([&] { s.c.sort([&](const T& a, const T& b) { return key(get(a)) < key(get(b)); }); });
					std::stable_sort(s.m.begin(), s.m.end(), [&](const Ent& a, const Ent& b) { return key(a.v) < key(b.v); });
					s.forget();
					return true;
				}, DEEP | FOLLOWUP);
		}
	};
}
