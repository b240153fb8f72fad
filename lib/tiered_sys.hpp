#pragma once
#include "elems.hpp"
#include <seq/tiered_vector.hpp>
#include <deque>
namespace tv
{
	using namespace mc;
	// NP positions that depend on the size only
	enum { NP = 8 };
	inline size_t P(int p, size_t n)
	{
		switch (p) {
			case 0:
				return 0;
			case 1:
				return std::min<size_t>(1, n);
			case 2:
				return n / 4;
			case 3:
				return n / 2 ? n / 2 - 1 : 0;
			case 4:
				return n / 2;
			case 5:
				return n - n / 4;
			case 6:
				return n ? n - 1 : 0;
			default:
				return n;
		}
	}
	inline bool distinct(int p, size_t n)
	{
		for (int q = 0; q < p; ++q)
			if (P(q, n) == P(p, n))
				return false;
		return true;
	}
	struct Shape
	{
		const char* name;
		int back, front, popb, popf, back2, mid;
	};
	template<class T, unsigned MinB, unsigned MaxB, bool Light = false>
	struct Sys
	{
		using C = seq::tiered_vector<T, TAlloc<T>, MinB, MaxB>;
		C c;
		std::vector<int> m;
		int next = 100;
		static const std::vector<Shape>& shapes()
		{
			static const std::vector<Shape> v = {
				{ "empty", 0, 0, 0, 0, 0, 0 },	 { "b1", 1, 0, 0, 0, 0, 0 },	  { "b2", 2, 0, 0, 0, 0, 0 },	 { "b4", 4, 0, 0, 0, 0, 0 },	{ "f5", 0, 5, 0, 0, 0, 0 },
				{ "b7", 7, 0, 0, 0, 0, 0 },	 { "b8", 8, 0, 0, 0, 0, 0 },	  { "f7b4", 4, 7, 0, 0, 0, 0 },	 { "b16", 16, 0, 0, 0, 0, 0 },	{ "f16", 0, 16, 0, 0, 0, 0 },
				{ "b9f9", 9, 9, 0, 0, 0, 0 },	 { "spin", 20, 0, 0, 14, 8, 0 },  { "spinf", 0, 20, 14, 0, 3, 0 }, { "drained", 9, 0, 0, 9, 0, 0 }, { "b31", 31, 0, 0, 0, 0, 0 },
				{ "b32", 32, 0, 0, 0, 0, 0 },	 { "down", 34, 0, 4, 0, 0, 0 },	  { "mid", 6, 6, 0, 0, 0, 9 },	 { "b37f5", 37, 5, 0, 3, 0, 2 },
			};
			static const std::vector<Shape> l = {
				{ "b60f3", 60, 3, 0, 0, 0, 0 }, { "f130b10", 10, 130, 0, 0, 0, 3 }, { "b200", 200, 0, 0, 70, 0, 0 }, { "b511", 511, 0, 0, 0, 0, 0 },
			};
			return Light ? l : v;
		}
		static int nseeds() { return int(shapes().size()); }
		static std::string seed_name(int i) { return shapes()[size_t(i)].name; }
		static int seed_depth(int, bool) { return -1; }
		Sys(int seed)
		{
			const Shape& s = shapes()[size_t(seed)];
			auto pb = [&] {
				c.emplace_back(next);
				m.push_back(next++);
			};
			auto pf = [&] {
				c.emplace_front(next);
				m.insert(m.begin(), next++);
			};
			for (int i = 0; i < s.back; ++i)
				pb();
			for (int i = 0; i < s.front; ++i)
				pf();
			for (int i = 0; i < s.popb; ++i) {
				c.pop_back();
				m.pop_back();
			}
			for (int i = 0; i < s.popf; ++i) {
				c.pop_front();
				m.erase(m.begin());
			}
			for (int i = 0; i < s.back2; ++i)
				pb();
			for (int i = 0; i < s.mid; ++i) {
				size_t p = m.size() * size_t(i + 1) / 11;
				c.emplace(p, next);
				m.insert(m.begin() + ptrdiff_t(p), next++);
			}
		}
		std::string dump() const
		{
			std::string r = "model=[";
			for (int i : m)
				r += std::to_string(i) + " ";
			r += "] size=" + std::to_string(c.size()) + " impl=[";
			for (size_t i = 0; i < c.size() && i < 64; ++i)
				r += std::to_string(get(c[i])) + " ";
			return r + "]";
		}
		template<class Cont, class It>
		void walk(Cont& cc, It b, It e, const char* what)
		{
			size_t n = m.size();
			CHECK(size_t(e - b) == n, "%s end-begin", what);
			size_t i = 0;
			for (It it = b; it != e; ++it, ++i)
				CHECK(i < n && get(*it) == m[i], "%s forward at %zu %s", what, i, dump().c_str());
			CHECK(i == n);
			for (It it = e; it != b;) {
				--it;
				--i;
				CHECK(get(*it) == m[i], "%s backward at %zu", what, i);
			}
			// arithmetic between the interesting positions
			for (int p = 0; p < NP; ++p) {
				if (!distinct(p, n))
					continue;
				size_t x = P(p, n);
				It ix = b + ptrdiff_t(x);
				It iy = e - ptrdiff_t(n - x);
				CHECK(ix == iy && !(ix != iy), "%s begin+%zu vs end-%zu", what, x, n - x);
				CHECK(size_t(ix - b) == x && e - ix == ptrdiff_t(n - x), "%s distance", what);
				CHECK((x == n) == (ix == e), "%s end", what);
				if (x < n)
					CHECK(get(*ix) == m[x], "%s *(begin+%zu)", what, x);
				for (int q = 0; q < NP; ++q) {
					if (!distinct(q, n))
						continue;
					size_t y = P(q, n);
					ptrdiff_t d = ptrdiff_t(y) - ptrdiff_t(x);
					It z = ix + d;
					It w = ix;
					w += d;
					It u = ix;
					u -= -d;
					It v = ix - (-d);
					CHECK(z == w && z == u && z == v, "%s + - += -= from %zu by %td", what, x, d);
					CHECK(z - ix == d && ix - z == -d, "%s difference from %zu to %zu is %td", what, x, y, ptrdiff_t(z - ix));
					CHECK(z - b == ptrdiff_t(y) && e - z == ptrdiff_t(n - y), "%s distance of a jump from %zu by %td", what, x, d);
					CHECK((z < ix) == (d < 0) && (z > ix) == (d > 0) && (z <= ix) == (d <= 0) && (z >= ix) == (d >= 0) && (z == ix) == (d == 0) && (z != ix) == (d != 0),
					      "%s comparison of %zu and %zu", what, y, x);
					if (y < n) {
						CHECK(get(*z) == m[y] && get(ix[d]) == m[y], "%s jump from %zu by %td", what, x, d);
						CHECK(&*z == &cc[y], "%s address at %zu", what, y);
						It t = z;
						CHECK(get(*t++) == m[y] && t - z == 1, "%s post increment at %zu", what, y);
						CHECK(t - b == ptrdiff_t(y + 1));
						if (y + 1 < n)
							CHECK(get(*t) == m[y + 1], "%s increment at %zu", what, y);
						else
							CHECK(t == e, "%s increment to end", what);
					}
					if (y > 0) {
						It t = z;
						--t;
						CHECK(get(*t) == m[y - 1], "%s decrement at %zu", what, y);
					}
				}
			}
		}
		void check()
		{
			const C& cc = c;
			size_t n = m.size();
			CHECK(c.size() == n, "size %zu expected %zu", c.size(), n);
			CHECK(c.empty() == m.empty());
			for (size_t i = 0; i < n; ++i) {
				CHECK(get(c[i]) == m[i], "position %zu: %d expected %d; %s", i, get(c[i]), m[i], dump().c_str());
				CHECK(&c.at(i) == &c[i] && &cc.at(i) == &c[i] && &cc[i] == &c[i]);
			}
			walk(c, c.begin(), c.end(), "iterator");
			walk(cc, cc.begin(), cc.end(), "const_iterator");
			size_t i = n;
			for (auto it = cc.rbegin(); it != cc.rend(); ++it)
				CHECK(get(*it) == m[--i]);
			CHECK(i == 0);
			for (int p = 0; p < NP; ++p) {
				size_t x = P(p, n);
				CHECK(c.iterator_at(x) == c.begin() + ptrdiff_t(x) && size_t(cc.iterator_at(x) - cc.begin()) == x, "iterator_at(%zu)", x);
				if (x < n)
					CHECK(get(*c.iterator_at(x)) == m[x] && get(*cc.iterator_at(x)) == m[x]);
				for (int q = p; q < NP; ++q) {
					size_t y = P(q, n);
					if (y < x || (n == 0))
						continue;
					size_t k = x;
					c.for_each(x, y, [&](T& v) {
						CHECK(k < y && get(v) == m[k], "for_each(%zu,%zu) at %zu", x, y, k);
						++k;
					});
					CHECK(k == y, "for_each(%zu,%zu) stopped at %zu", x, y, k);
					k = x;
					cc.for_each(x, y, [&](const T& v) {
						CHECK(k < y && get(v) == m[k], "const for_each(%zu,%zu) at %zu", x, y, k);
						++k;
					});
					CHECK(k == y);
				}
			}
			if (n) {
				CHECK(get(c.front()) == m.front() && get(cc.front()) == m.front());
				CHECK(get(c.back()) == m.back() && get(cc.back()) == m.back());
			}
			bool thrown = false;
			try {
				(void)cc.at(n);
			}
			catch (const std::out_of_range&) {
				thrown = true;
			}
			CHECK(thrown, "at(size())");
		}
		uint64_t fingerprint()
		{
			Fp f;
			f.add(c.size());
			f.add(c.bucket_count());
			f.add(c.bucket_size());
			if (c.manager())
				for (auto& b : c.manager()->buckets()) {
					f.add(uint64_t(b.bucket->begin));
					f.add(uint64_t(b.bucket->size));
				}
			for (int v : m)
				f.add(uint64_t(v));
			return f.h;
		}
		void resync()
		{
			m.clear();
			for (size_t i = 0; i < c.size(); ++i)
				m.push_back(get(c[i]));
		}
		template<class It>
		bool insert_range(int p, int n)
		{
			if (!distinct(p, m.size()))
				return false;
			size_t pos = P(p, m.size());
			auto v = vec_range<T>(n, next);
			auto it = A([&] { return c.insert(c.cbegin() + ptrdiff_t(pos), It(v.data()), It(v.data() + v.size())); });
			std::vector<int> ins;
			for (int i = 0; i < n; ++i)
				ins.push_back(next + i);
			next += n;
			m.insert(m.begin() + ptrdiff_t(pos), ins.begin(), ins.end());
			CHECK(size_t(it - c.begin()) == pos, "returned iterator");
			return true;
		}
		static void ops(std::vector<Op<Sys>>& o)
		{
			using S = Sys;
			constexpr bool copyable = std::is_copy_constructible<T>::value;
			constexpr bool nothrow = std::is_nothrow_move_constructible<T>::value && std::is_nothrow_move_assignable<T>::value;
			const int strong = nothrow && MinB == MaxB ? STRONG : 0;
			auto add = [&](std::string n, std::function<bool(S&)> f, int fl = 0) { o.push_back(Op<S>{ n, f, fl }); };

			add("emplace_back", [](S& s) {
				int v = s.next++;
				T& r = A([&]() -> T& { return s.c.emplace_back(v); });
				s.m.push_back(v);
				CHECK(&r == &s.c.back());
				return true;
			}, strong | FOLLOWUP | DEEP);
			add("emplace_front", [](S& s) {
				int v = s.next++;
				T& r = A([&]() -> T& { return s.c.emplace_front(v); });
				s.m.insert(s.m.begin(), v);
				CHECK(&r == &s.c.front());
				return true;
			}, strong | FOLLOWUP | DEEP);
			add("push_back(&&)", [](S& s) {
				int v = s.next++;
				T x = make<T>(v);
				A([&] { s.c.push_back(std::move(x)); });
				s.m.push_back(v);
				return true;
			}, strong);
			add("push_front(&&)", [](S& s) {
				int v = s.next++;
				T x = make<T>(v);
				A([&] { s.c.push_front(std::move(x)); });
				s.m.insert(s.m.begin(), v);
				return true;
			}, strong);
			add("pop_back", [](S& s) {
				if (s.m.empty())
					return false;
				A([&] { s.c.pop_back(); });
				s.m.pop_back();
				return true;
			}, FOLLOWUP | DEEP);
			add("pop_front", [](S& s) {
				if (s.m.empty())
					return false;
				A([&] { s.c.pop_front(); });
				s.m.erase(s.m.begin());
				return true;
			}, FOLLOWUP | DEEP);
			add("clear", [](S& s) {
				A([&] { s.c.clear(); });
				s.m.clear();
				return true;
			}, DEEP | FOLLOWUP);
			add("swap(other)", [](S& s) {
				C other;
				std::vector<int> mo;
				for (int i = 0; i < 3; ++i) {
					other.emplace_back(s.next);
					mo.push_back(s.next++);
				}
				A([&] { s.c.swap(other); });
				CHECK(other.size() == s.m.size());
				for (size_t i = 0; i < other.size(); ++i)
					CHECK(get(other[i]) == s.m[i]);
				s.m = mo;
				return true;
			});
			add("move_ctor", [](S& s) {
				C other = A([&] { return C(std::move(s.c)); });
				CHECK(s.c.size() == 0);
				CHECK(other.size() == s.m.size());
				A([&] { s.c = std::move(other); });
				return true;
			}, FOLLOWUP);
			for (int p = 0; p < NP; ++p) {
				std::string ps = "@" + std::to_string(p);
				add("emplace" + ps, [p](S& s) {
					if (!distinct(p, s.m.size()))
						return false;
					size_t pos = P(p, s.m.size());
					int v = s.next++;
					T& r = A([&]() -> T& { return s.c.emplace(pos, v); });
					s.m.insert(s.m.begin() + ptrdiff_t(pos), v);
					CHECK(&r == &s.c[pos], "returned reference");
					return true;
				}, p == 1 || p == 4 ? DEEP : 0);
				add("emplace(it)" + ps, [p](S& s) {
					if (!distinct(p, s.m.size()))
						return false;
					size_t pos = P(p, s.m.size());
					int v = s.next++;
					T& r = A([&]() -> T& { return s.c.emplace(s.c.cbegin() + ptrdiff_t(pos), v); });
					s.m.insert(s.m.begin() + ptrdiff_t(pos), v);
					CHECK(&r == &s.c[pos]);
					return true;
				});
				add("insert(&&)" + ps, [p](S& s) {
					if (!distinct(p, s.m.size()))
						return false;
					size_t pos = P(p, s.m.size());
					int v = s.next++;
					T x = make<T>(v);
					auto it = A([&] { return s.c.insert(s.c.cbegin() + ptrdiff_t(pos), std::move(x)); });
					s.m.insert(s.m.begin() + ptrdiff_t(pos), v);
					CHECK(size_t(it - s.c.begin()) == pos && get(*it) == v);
					return true;
				}, p == 2 ? DEEP : 0);
				add("erase" + ps, [p](S& s) {
					size_t n = s.m.size();
					if (!distinct(p, n) || P(p, n) >= n)
						return false;
					size_t pos = P(p, n);
					A([&] { s.c.erase(pos); });
					s.m.erase(s.m.begin() + ptrdiff_t(pos));
					return true;
				}, p == 1 || p == 4 ? DEEP : 0);
				add("erase(it)" + ps, [p](S& s) {
					size_t n = s.m.size();
					if (!distinct(p, n) || P(p, n) >= n)
						return false;
					size_t pos = P(p, n);
					auto it = A([&] { return s.c.erase(s.c.cbegin() + ptrdiff_t(pos)); });
					s.m.erase(s.m.begin() + ptrdiff_t(pos));
					CHECK(size_t(it - s.c.begin()) == pos, "returned iterator");
					if (pos < s.m.size())
						CHECK(get(*it) == s.m[pos], "returned iterator");
					return true;
				}, p == 2 || p == 5 ? DEEP : 0);
				if constexpr (std::is_default_constructible<T>::value)
				for (int q = p; q < NP; ++q) {
					add("erase" + ps + "-" + std::to_string(q), [p, q](S& s) {
						size_t n = s.m.size();
						if (!distinct(p, n) || (q != p && !distinct(q, n)) || P(q, n) < P(p, n))
							return false;
						size_t a = P(p, n), b = P(q, n);
						auto it = A([&] { return s.c.erase(s.c.cbegin() + ptrdiff_t(a), s.c.cbegin() + ptrdiff_t(b)); });
						s.m.erase(s.m.begin() + ptrdiff_t(a), s.m.begin() + ptrdiff_t(b));
						CHECK(size_t(it - s.c.begin()) == a);
						return true;
					});
				}
			}
			if constexpr (std::is_default_constructible<T>::value) {
				add("resize-down", [](S& s) {
					size_t n = s.m.size() / 2;
					if (s.m.empty())
						return false;
					A([&] { s.c.resize(n); });
					s.m.resize(n);
					return true;
				}, DEEP);
				add("resize_front-down", [](S& s) {
					size_t n = s.m.size() / 2;
					if (s.m.empty())
						return false;
					A([&] { s.c.resize_front(n); });
					s.m.erase(s.m.begin(), s.m.begin() + ptrdiff_t(s.m.size() - n));
					return true;
				}, DEEP);
				for (int k : { 0, 1, 3, 5 }) {
					// absolute and relative shrinking
					add("resize(" + std::to_string(k) + ")", [k](S& s) {
						A([&] { s.c.resize(size_t(k)); });
						s.m.resize(size_t(k));
						return true;
					});
					add("resize_front(" + std::to_string(k) + ")", [k](S& s) {
						A([&] { s.c.resize_front(size_t(k)); });
						if (s.m.size() > size_t(k))
							s.m.erase(s.m.begin(), s.m.end() - k);
						else
							s.m.insert(s.m.begin(), size_t(k) - s.m.size(), 0);
						return true;
					});
					if (k == 0)
						continue;
					add("resize-" + std::to_string(k), [k](S& s) {
						if (s.m.size() < size_t(k))
							return false;
						A([&] { s.c.resize(s.m.size() - size_t(k)); });
						s.m.resize(s.m.size() - size_t(k));
						return true;
					});
					add("resize_front-" + std::to_string(k), [k](S& s) {
						if (s.m.size() < size_t(k))
							return false;
						A([&] { s.c.resize_front(s.m.size() - size_t(k)); });
						s.m.erase(s.m.begin(), s.m.begin() + k);
						return true;
					});
				}
				for (int k : { 1, 4, 11, 30 }) {
					std::string ks = "+" + std::to_string(k);
					add("resize" + ks, [k](S& s) {
						A([&] { s.c.resize(s.m.size() + size_t(k)); });
						s.m.resize(s.m.size() + size_t(k));
						return true;
					}, (k == 4 ? DEEP : 0));
					add("resize_front" + ks, [k](S& s) {
						A([&] { s.c.resize_front(s.m.size() + size_t(k)); });
						s.m.insert(s.m.begin(), size_t(k), 0);
						return true;
					}, (k == 4 ? DEEP : 0));
				}
			}
			if constexpr (copyable) {
				add("push_back(const&)", [](S& s) {
					int v = s.next++;
					T x = make<T>(v);
					A([&] { s.c.push_back(x); });
					s.m.push_back(v);
					CHECK(get(x) == v);
					return true;
				}, strong);
				add("push_front(const&)", [](S& s) {
					int v = s.next++;
					T x = make<T>(v);
					A([&] { s.c.push_front(x); });
					s.m.insert(s.m.begin(), v);
					CHECK(get(x) == v);
					return true;
				}, strong);
				for (int q : { 0, 2, 4, 6 }) {
					std::string qs = "(self[" + std::to_string(q) + "])";
					add("push_back" + qs, [q](S& s) {
						if (!distinct(q, s.m.size()) || s.m.empty())
							return false;
						size_t i = P(q, s.m.size());
						int v = s.m[i];
						A([&] { s.c.push_back(s.c[i]); });
						s.m.push_back(v);
						return true;
					}, strong);
					add("push_front" + qs, [q](S& s) {
						if (!distinct(q, s.m.size()) || s.m.empty())
							return false;
						size_t i = P(q, s.m.size());
						int v = s.m[i];
						A([&] { s.c.push_front(s.c[i]); });
						s.m.insert(s.m.begin(), v);
						return true;
					}, strong);
					for (int p : { 0, 1, 2, 4, 5, 7 }) {
						add("insert@" + std::to_string(p) + qs, [p, q](S& s) {
							if (!distinct(q, s.m.size()) || !distinct(p, s.m.size()) || s.m.empty())
								return false;
							size_t i = P(q, s.m.size()), pos = P(p, s.m.size());
							int v = s.m[i];
							A([&] { s.c.insert(pos, s.c[i]); });
							s.m.insert(s.m.begin() + ptrdiff_t(pos), v);
							return true;
						});
					}
					add("resize+4" + qs, [q](S& s) {
						if (!distinct(q, s.m.size()) || s.m.empty())
							return false;
						size_t i = P(q, s.m.size());
						int v = s.m[i];
						A([&] { s.c.resize(s.m.size() + 4, s.c[i]); });
						s.m.insert(s.m.end(), 4, v);
						return true;
					});
					add("resize_front+4" + qs, [q](S& s) {
						if (!distinct(q, s.m.size()) || s.m.empty())
							return false;
						size_t i = P(q, s.m.size());
						int v = s.m[i];
						A([&] { s.c.resize_front(s.m.size() + 4, s.c[i]); });
						s.m.insert(s.m.begin(), 4, v);
						return true;
					});
				}
				for (int p = 0; p < NP; ++p)
					for (int n : { 0, 1, 3, 9 }) {
						std::string ps = "@" + std::to_string(p) + "x" + std::to_string(n);
						int d = n == 3 && (p == 1 || p == 5) ? DEEP : 0;
						add("insert_ra" + ps, [p, n](S& s) { return s.template insert_range<const T*>(p, n); }, d);
						if (n != 1 && (p == 0 || p == 2 || p == 4)) {
							add("insert_in" + ps, [p, n](S& s) { return s.template insert_range<InIt<T>>(p, n); });
							add("insert_fwd" + ps, [p, n](S& s) { return s.template insert_range<FwdIt<T>>(p, n); });
						}
						if (n == 0 || n == 3)
							add("insert_n" + ps, [p, n](S& s) {
								if (!distinct(p, s.m.size()))
									return false;
								size_t pos = P(p, s.m.size());
								int v = s.next++;
								T x = make<T>(v);
								auto it = A([&] { return s.c.insert(s.c.cbegin() + ptrdiff_t(pos), size_t(n), x); });
								s.m.insert(s.m.begin() + ptrdiff_t(pos), size_t(n), v);
								CHECK(size_t(it - s.c.begin()) == pos);
								return true;
							});
					}
				add("insert_il@1", [](S& s) {
					size_t pos = P(1, s.m.size());
					int v = s.next;
					s.next += 2;
					std::initializer_list<T> il{ T(v), T(v + 1) };
					A([&] { s.c.insert(pos, il); });
					s.m.insert(s.m.begin() + ptrdiff_t(pos), { v, v + 1 });
					return true;
				}, NOFAULT);
				for (int n : { 0, 2, 5, 12, 33 }) {
					std::string ns = "(" + std::to_string(n) + ")";
					auto fin = [n](S& s) {
						s.m.clear();
						for (int i = 0; i < n; ++i)
							s.m.push_back(s.next++);
						return true;
					};
					add("assign_ra" + ns, [n, fin](S& s) {
						auto v = vec_range<T>(n, s.next);
						A([&] { s.c.assign(v.begin(), v.end()); });
						return fin(s);
					}, n == 5 ? DEEP : 0);
					add("assign_in" + ns, [n, fin](S& s) {
						auto v = vec_range<T>(n, s.next);
						A([&] { s.c.assign(InIt<T>(v.data()), InIt<T>(v.data() + n)); });
						return fin(s);
					});
					add("assign_n" + ns, [n](S& s) {
						int v = s.next++;
						T x = make<T>(v);
						A([&] { s.c.assign(size_t(n), x); });
						s.m.assign(size_t(n), v);
						return true;
					});
					add("copy_assign" + ns, [n, fin](S& s) {
						C o;
						for (int i = 0; i < n; ++i)
							o.emplace_back(s.next + i);
						A([&] { s.c = o; });
						CHECK(o.size() == size_t(n));
						for (int i = 0; i < n; ++i)
							CHECK(get(o[size_t(i)]) == s.next + i);
						return fin(s);
					});
					add("resize(m," + std::to_string(n) + ")", [n](S& s) {
						int v = s.next++;
						T x = make<T>(v);
						A([&] { s.c.resize(size_t(n), x); });
						s.m.resize(size_t(n), v);
						return true;
					});
					add("resize_front(m," + std::to_string(n) + ")", [n](S& s) {
						int v = s.next++;
						T x = make<T>(v);
						A([&] { s.c.resize_front(size_t(n), x); });
						if (s.m.size() > size_t(n))
							s.m.erase(s.m.begin(), s.m.end() - n);
						else
							s.m.insert(s.m.begin(), size_t(n) - s.m.size(), v);
						return true;
					});
				}
				add("assign_il", [](S& s) {
					int v = s.next;
					s.next += 2;
					std::initializer_list<T> il{ T(v), T(v + 1) };
					A([&] { s.c.assign(il); });
					s.m = { v, v + 1 };
					return true;
				}, NOFAULT);
				add("self_assign", [](S& s) {
					C& r = s.c;
					A([&] { s.c = r; });
					return true;
				});
				add("copy_ctor", [](S& s) {
					C o = A([&] { return C(s.c); });
					CHECK(o.size() == s.m.size());
					for (size_t i = 0; i < o.size(); ++i)
						CHECK(get(o[i]) == s.m[i]);
					s.check();
					A([&] { s.c.swap(o); });
					return true;
				}, STRONG | FOLLOWUP);
				add("ctors", [](S& s) {
					auto v = vec_range<T>(int(s.m.size()), 0);
					{
						C a = A([&] { return C(v.begin(), v.end(), TAlloc<T>()); });
						CHECK(a.size() == v.size());
						for (size_t i = 0; i < v.size(); ++i)
							CHECK(a[i] == v[i]);
					}
					{
						C a = A([&] { return C(InIt<T>(v.data()), InIt<T>(v.data() + v.size()), TAlloc<T>()); });
						CHECK(a.size() == v.size());
						for (size_t i = 0; i < v.size(); ++i)
							CHECK(a[i] == v[i]);
					}
					{
						C a = A([&] { return C(size_t(5)); });
						CHECK(a.size() == 5 && get(a[4]) == 0);
					}
					{
						T x = make<T>(9);
						C a = A([&] { return C(size_t(5), x, TAlloc<T>()); });
						CHECK(a.size() == 5 && get(a[4]) == 9 && get(a[0]) == 9);
					}
					return true;
				}, STRONG);
			}
			add("algorithms", [](S& s) {
				// the iterators drive the standard algorithms
				A([&] { std::reverse(s.c.begin(), s.c.end()); });
				std::reverse(s.m.begin(), s.m.end());
				if (!s.m.empty()) {
					A([&] { std::rotate(s.c.begin(), s.c.begin() + ptrdiff_t(s.m.size() / 3), s.c.end()); });
					std::rotate(s.m.begin(), s.m.begin() + ptrdiff_t(s.m.size() / 3), s.m.end());
				}
				s.check();
				A([&] { std::sort(s.c.begin(), s.c.end(), [](const T& a, const T& b) { return get(a) < get(b); }); });
				std::sort(s.m.begin(), s.m.end());
				return true;
			}, NOFAULT);
		}
	};
}
