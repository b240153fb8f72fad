#pragma once
#include "elems.hpp"
#include <seq/devector.hpp>
#include <list>
namespace dv
{
	using namespace mc;
	template<class T>
	struct Sys
	{
		using C = seq::devector<T, TAlloc<T>>;
		C c;
		std::vector<int> m;
		int next = 100;

		struct Shape
		{
			const char* name;
			int back, front, reserve, reserve_front, reserve_back, popb, popf;
		};
		static const std::vector<Shape>& shapes()
		{
			static const std::vector<Shape> v = {
				{ "empty", 0, 0, 0, 0, 0, 0, 0 },      { "b1", 1, 0, 0, 0, 0, 0, 0 },	 { "b3", 3, 0, 0, 0, 0, 0, 0 },	   { "b4", 4, 0, 0, 0, 0, 0, 0 },
				{ "f3", 0, 3, 0, 0, 0, 0, 0 },	       { "f5", 0, 5, 0, 0, 0, 0, 0 },	 { "b4f4", 4, 4, 0, 0, 0, 0, 0 },  { "b7f2", 7, 2, 0, 0, 0, 0, 0 },
				{ "roomy", 3, 3, 0, 12, 12, 0, 0 },    { "front_room", 2, 0, 0, 9, 0, 0, 0 }, { "back_room", 2, 0, 0, 0, 9, 0, 0 }, { "lefthole", 10, 0, 0, 0, 0, 0, 8 },
				{ "righthole", 0, 10, 0, 0, 0, 8, 0 }, { "drained", 6, 0, 0, 0, 0, 6, 0 }, { "drainedf", 6, 0, 0, 0, 0, 0, 6 }, { "b20", 20, 0, 0, 0, 0, 0, 0 },
			};
			return v;
		}
		static int nseeds() { return int(shapes().size()); }
		static std::string seed_name(int i) { return shapes()[size_t(i)].name; }
		static int seed_depth(int, bool) { return -1; }
		Sys(int seed)
		{
			const Shape& s = shapes()[size_t(seed)];
			if (s.reserve)
				c.reserve(size_t(s.reserve));
			for (int i = 0; i < s.back; ++i)
				pb(next++);
			for (int i = 0; i < s.front; ++i)
				pf(next++);
			for (int i = 0; i < s.popb; ++i) {
				c.pop_back();
				m.pop_back();
			}
			for (int i = 0; i < s.popf; ++i) {
				c.pop_front();
				m.erase(m.begin());
			}
			if (s.reserve_front)
				c.reserve_front(size_t(s.reserve_front));
			if (s.reserve_back)
				c.reserve_back(size_t(s.reserve_back));
		}
		void pb(int v)
		{
			c.emplace_back(v);
			m.push_back(v);
		}
		void pf(int v)
		{
			c.emplace_front(v);
			m.insert(m.begin(), v);
		}
		std::string dump() const
		{
			std::string r = "model=[";
			for (int i : m)
				r += std::to_string(i) + " ";
			r += "] size=" + std::to_string(c.size()) + " impl=[";
			for (size_t i = 0; i < c.size() && i < 64; ++i)
				r += std::to_string(get(c.data()[i])) + " ";
			return r + "]";
		}
		void check()
		{
			const C& cc = c;
			CHECK(c.size() == m.size(), "size %zu expected %zu", c.size(), m.size());
			CHECK(c.empty() == m.empty());
			CHECK(c.capacity() == c.front_capacity() + c.size() + c.back_capacity());
			CHECK(size_t(c.end() - c.begin()) == m.size());
			for (size_t i = 0; i < m.size(); ++i)
				CHECK(get(c[i]) == m[i], "position %zu: %d expected %d; %s", i, get(c[i]), m[i], dump().c_str());
			size_t i = 0;
			for (auto it = cc.begin(); it != cc.end(); ++it, ++i)
				CHECK(get(*it) == m[i]);
			i = m.size();
			for (auto it = cc.rbegin(); it != cc.rend(); ++it)
				CHECK(get(*it) == m[--i]);
			if (!m.empty()) {
				CHECK(get(c.front()) == m.front() && get(cc.front()) == m.front());
				CHECK(get(c.back()) == m.back() && get(cc.back()) == m.back());
				CHECK(get(c.at(m.size() - 1)) == m.back() && get(cc.at(0)) == m.front());
				CHECK(c.data() == &c[0] && cc.data() == &cc[0]);
			}
			bool thrown = false;
			try {
				(void)cc.at(m.size());
			}
			catch (const std::out_of_range&) {
				thrown = true;
			}
			CHECK(thrown);
		}
		uint64_t fingerprint()
		{
			Fp f;
			f.add(c.size());
			f.add(c.front_capacity());
			f.add(c.back_capacity());
			for (int v : m)
				f.add(uint64_t(v));
			return f.h;
		}
		void resync()
		{
			m.clear();
			CHECK(c.capacity() >= c.size());
			for (size_t i = 0; i < c.size(); ++i)
				m.push_back(get(c[i]));
		}

		static size_t P(int p, size_t n)
		{
			// 0 begin, 1 second, 2 just before the middle, 3 middle, 4 last, 5 end
			switch (p) {
				case 0:
					return 0;
				case 1:
					return std::min<size_t>(1, n);
				case 2:
					return n / 2 ? n / 2 - 1 : 0;
				case 3:
					return n / 2;
				case 4:
					return n ? n - 1 : 0;
				default:
					return n;
			}
		}
		// false when this position duplicates one of lower rank
		static bool distinct(int p, size_t n)
		{
			for (int q = 0; q < p; ++q)
				if (P(q, n) == P(p, n))
					return false;
			return true;
		}
		template<class It>
		bool insert_range(int p, int n, const char*)
		{
			if (!distinct(p, m.size()))
				return false;
			size_t pos = P(p, m.size());
			auto v = vec_range<T>(n, next);
			auto it = A([&] { return c.insert(c.begin() + pos, It(v.data()), It(v.data() + v.size())); });
			std::vector<int> ins;
			for (int i = 0; i < n; ++i)
				ins.push_back(next + i);
			next += n;
			m.insert(m.begin() + ptrdiff_t(pos), ins.begin(), ins.end());
			CHECK(size_t(it - c.begin()) == pos);
			return true;
		}
		static void ops(std::vector<Op<Sys>>& o)
		{
			using S = Sys;
			constexpr bool copyable = std::is_copy_constructible<T>::value;
			constexpr bool nothrow = std::is_nothrow_move_constructible<T>::value && std::is_nothrow_move_assignable<T>::value;
			const int strong = nothrow ? STRONG : 0;
			auto add = [&](std::string n, std::function<bool(S&)> f, int fl = 0) { o.push_back(Op<S>{ n, f, fl }); };

			add("emplace_back", [](S& s) {
				int v = s.next++;
				T& r = A([&]() -> T& { return s.c.emplace_back(v); });
				s.m.push_back(v);
				CHECK(&r == &s.c.back());
				return true;
			}, strong | FOLLOWUP | DEEP);
			add("emplace_front", [](S& s) {
				int v = s.next++;
				T& r = A([&]() -> T& { return s.c.emplace_front(v); });
				s.m.insert(s.m.begin(), v);
				CHECK(&r == &s.c.front());
				return true;
			}, strong | FOLLOWUP | DEEP);
			add("push_back(&&)", [](S& s) {
				int v = s.next++;
				T x = make<T>(v);
				A([&] { s.c.push_back(std::move(x)); });
				s.m.push_back(v);
				return true;
			}, strong);
			add("push_front(&&)", [](S& s) {
				int v = s.next++;
				T x = make<T>(v);
				A([&] { s.c.push_front(std::move(x)); });
				s.m.insert(s.m.begin(), v);
				return true;
			}, strong);
			add("pop_back", [](S& s) {
				if (s.m.empty())
					return false;
				A([&] { s.c.pop_back(); });
				s.m.pop_back();
				return true;
			}, FOLLOWUP | DEEP);
			add("pop_front", [](S& s) {
				if (s.m.empty())
					return false;
				A([&] { s.c.pop_front(); });
				s.m.erase(s.m.begin());
				return true;
			}, FOLLOWUP | DEEP);
			add("clear", [](S& s) {
				A([&] { s.c.clear(); });
				s.m.clear();
				return true;
			}, DEEP | FOLLOWUP);
			add("shrink_to_fit", [](S& s) {
				A([&] { s.c.shrink_to_fit(); });
				CHECK(s.c.capacity() == s.m.size());
				return true;
			}, STRONG | FOLLOWUP | DEEP);
			for (int k : { 0, 5, 13 }) {
				add("reserve(n+" + std::to_string(k) + ")", [k](S& s) {
					size_t n = s.m.size() + size_t(k);
					A([&] { s.c.reserve(n); });
					CHECK(s.c.capacity() >= n);
					return true;
				}, STRONG | (k == 5 ? DEEP : 0));
				add("reserve_back(" + std::to_string(k) + ")", [k](S& s) {
					A([&] { s.c.reserve_back(size_t(k)); });
					CHECK(s.c.back_capacity() >= size_t(k));
					return true;
				}, (nothrow ? STRONG : 0) | (k == 5 ? DEEP : 0));
				add("reserve_front(" + std::to_string(k) + ")", [k](S& s) {
					A([&] { s.c.reserve_front(size_t(k)); });
					CHECK(s.c.front_capacity() >= size_t(k));
					return true;
				}, (nothrow ? STRONG : 0) | (k == 5 ? DEEP : 0));
			}
			add("swap(other)", [](S& s) {
				C other;
				std::vector<int> mo;
				for (int i = 0; i < 3; ++i) {
					other.emplace_back(s.next);
					mo.push_back(s.next++);
				}
				A([&] { s.c.swap(other); });
				CHECK(other.size() == s.m.size());
				for (size_t i = 0; i < other.size(); ++i)
					CHECK(get(other[i]) == s.m[i]);
				s.m = mo;
				return true;
			});
			add("move_ctor", [](S& s) {
				C other = A([&] { return C(std::move(s.c)); });
				CHECK(s.c.size() == 0);
				CHECK(other.size() == s.m.size());
				A([&] { s.c = std::move(other); });
				return true;
			}, FOLLOWUP);
			for (int p = 0; p < 6; ++p) {
				std::string ps = "@" + std::to_string(p);
				add("emplace" + ps, [p](S& s) {
					if (!distinct(p, s.m.size()))
						return false;
					size_t pos = P(p, s.m.size());
					int v = s.next++;
					auto it = A([&] { return s.c.emplace(s.c.begin() + pos, v); });
					s.m.insert(s.m.begin() + ptrdiff_t(pos), v);
					CHECK(size_t(it - s.c.begin()) == pos);
					return true;
				}, p == 1 || p == 3 ? DEEP : 0);
				add("insert(&&)" + ps, [p](S& s) {
					if (!distinct(p, s.m.size()))
						return false;
					size_t pos = P(p, s.m.size());
					int v = s.next++;
					T x = make<T>(v);
					auto it = A([&] { return s.c.insert(s.c.begin() + pos, std::move(x)); });
					s.m.insert(s.m.begin() + ptrdiff_t(pos), v);
					CHECK(size_t(it - s.c.begin()) == pos);
					return true;
				});
				add("erase" + ps, [p](S& s) {
					size_t n = s.m.size();
					if (!distinct(p, n) || P(p, n) >= n)
						return false;
					size_t pos = P(p, n);
					auto it = A([&] { return s.c.erase(s.c.begin() + pos); });
					s.m.erase(s.m.begin() + ptrdiff_t(pos));
					CHECK(size_t(it - s.c.begin()) == pos);
					return true;
				}, p == 1 || p == 3 ? DEEP : 0);
				for (int q = p; q < 6; ++q) {
					add("erase" + ps + "-" + std::to_string(q), [p, q](S& s) {
						size_t n = s.m.size();
						if (!distinct(p, n) || (q != p && !distinct(q, n)))
							return false;
						size_t a = P(p, n), b = P(q, n);
						auto it = A([&] { return s.c.erase(s.c.begin() + a, s.c.begin() + b); });
						s.m.erase(s.m.begin() + ptrdiff_t(a), s.m.begin() + ptrdiff_t(b));
						CHECK(size_t(it - s.c.begin()) == a);
						return true;
					});
				}
			}
			add("resize-down", [](S& s) {
				size_t n = s.m.size() / 2;
				if (s.m.empty())
					return false;
				if constexpr (std::is_default_constructible<T>::value && copyable) {
					A([&] { s.c.resize(n); });
					s.m.resize(n);
				}
				return true;
			}, STRONG | DEEP);
			add("resize_front-down", [](S& s) {
				size_t n = s.m.size() / 2;
				if (s.m.empty())
					return false;
				if constexpr (copyable) {
					A([&] { s.c.resize_front(n); });
					s.m.erase(s.m.begin(), s.m.begin() + ptrdiff_t(s.m.size() - n));
				}
				return true;
			}, STRONG | DEEP);
			add("resize(0)", [](S& s) {
				A([&] { s.c.resize(0); });
				s.m.clear();
				return true;
			});
			add("resize_front(0)", [](S& s) {
				A([&] { s.c.resize_front(0); });
				s.m.clear();
				return true;
			});
			for (int k : { 1, 4, 11 }) {
				std::string ks = "+" + std::to_string(k);
				add("resize" + ks, [k](S& s) {
					A([&] { s.c.resize(s.m.size() + size_t(k)); });
					s.m.resize(s.m.size() + size_t(k));
					return true;
				}, STRONG | (k == 4 ? DEEP : 0));
				add("resize_front" + ks, [k](S& s) {
					A([&] { s.c.resize_front(s.m.size() + size_t(k)); });
					s.m.insert(s.m.begin(), size_t(k), 0);
					return true;
				}, STRONG | (k == 4 ? DEEP : 0));
			}
			if constexpr (copyable) {
				add("push_back(const&)", [](S& s) {
					int v = s.next++;
					T x = make<T>(v);
					A([&] { s.c.push_back(x); });
					s.m.push_back(v);
					CHECK(get(x) == v);
					return true;
				}, strong);
				add("push_front(const&)", [](S& s) {
					int v = s.next++;
					T x = make<T>(v);
					A([&] { s.c.push_front(x); });
					s.m.insert(s.m.begin(), v);
					CHECK(get(x) == v);
					return true;
				}, strong);
				// arguments that refer to an element of the container
				for (int q : { 0, 3, 4 }) {
					std::string qs = "(self[" + std::to_string(q) + "])";
					add("push_back" + qs, [q](S& s) {
						if (!distinct(q, s.m.size()) || s.m.empty())
							return false;
						size_t i = P(q, s.m.size());
						int v = s.m[i];
						A([&] { s.c.push_back(s.c[i]); });
						s.m.push_back(v);
						return true;
					}, strong);
					add("push_front" + qs, [q](S& s) {
						if (!distinct(q, s.m.size()) || s.m.empty())
							return false;
						size_t i = P(q, s.m.size());
						int v = s.m[i];
						A([&] { s.c.push_front(s.c[i]); });
						s.m.insert(s.m.begin(), v);
						return true;
					}, strong);
					for (int p : { 0, 1, 3, 4, 5 }) {
						add("insert@" + std::to_string(p) + qs, [p, q](S& s) {
							if (!distinct(q, s.m.size()) || !distinct(p, s.m.size()) || s.m.empty())
								return false;
							size_t i = P(q, s.m.size()), pos = P(p, s.m.size());
							int v = s.m[i];
							A([&] { s.c.insert(s.c.begin() + pos, s.c[i]); });
							s.m.insert(s.m.begin() + ptrdiff_t(pos), v);
							return true;
						});
					}
					add("resize+4" + qs, [q](S& s) {
						if (!distinct(q, s.m.size()) || s.m.empty())
							return false;
						size_t i = P(q, s.m.size());
						int v = s.m[i];
						A([&] { s.c.resize(s.m.size() + 4, s.c[i]); });
						s.m.insert(s.m.end(), 4, v);
						return true;
					}, STRONG);
					add("resize_front+4" + qs, [q](S& s) {
						if (!distinct(q, s.m.size()) || s.m.empty())
							return false;
						size_t i = P(q, s.m.size());
						int v = s.m[i];
						A([&] { s.c.resize_front(s.m.size() + 4, s.c[i]); });
						s.m.insert(s.m.begin(), 4, v);
						return true;
					}, STRONG);
				}
				for (int p = 0; p < 6; ++p)
					for (int n : { 0, 1, 3, 9 }) {
						std::string ps = "@" + std::to_string(p) + "x" + std::to_string(n);
						int d = n == 3 && (p == 1 || p == 4) ? DEEP : 0;
						add("insert_ra" + ps, [p, n](S& s) { return s.template insert_range<const T*>(p, n, ""); }, d);
						if (n != 1 && (p == 0 || p == 3 || p == 4)) {
							add("insert_in" + ps, [p, n](S& s) { return s.template insert_range<InIt<T>>(p, n, ""); });
							add("insert_fwd" + ps, [p, n](S& s) { return s.template insert_range<FwdIt<T>>(p, n, ""); });
						}
						if (n == 0 || n == 3)
							add("insert_n" + ps, [p, n](S& s) {
								if (!distinct(p, s.m.size()))
									return false;
								size_t pos = P(p, s.m.size());
								int v = s.next++;
								T x = make<T>(v);
								auto it = A([&] { return s.c.insert(s.c.begin() + pos, size_t(n), x); });
								s.m.insert(s.m.begin() + ptrdiff_t(pos), size_t(n), v);
								CHECK(size_t(it - s.c.begin()) == pos);
								return true;
							});
					}
				add("insert_il@1", [](S& s) {
					size_t pos = P(1, s.m.size());
					int v = s.next;
					s.next += 2;
					std::initializer_list<T> il{ T(v), T(v + 1) };
					A([&] { s.c.insert(s.c.begin() + pos, il); });
					s.m.insert(s.m.begin() + ptrdiff_t(pos), { v, v + 1 });
					return true;
				}, NOFAULT);
				for (int n : { 0, 2, 5, 12 }) {
					std::string ns = "(" + std::to_string(n) + ")";
					auto fin = [n](S& s) {
						s.m.clear();
						for (int i = 0; i < n; ++i)
							s.m.push_back(s.next++);
						return true;
					};
					add("assign_ra" + ns, [n, fin](S& s) {
						auto v = vec_range<T>(n, s.next);
						A([&] { s.c.assign(v.begin(), v.end()); });
						return fin(s);
					}, n == 5 ? DEEP : 0);
					add("assign_in" + ns, [n, fin](S& s) {
						auto v = vec_range<T>(n, s.next);
						A([&] { s.c.assign(InIt<T>(v.data()), InIt<T>(v.data() + n)); });
						return fin(s);
					});
					add("assign_n" + ns, [n](S& s) {
						int v = s.next++;
						T x = make<T>(v);
						A([&] { s.c.assign(size_t(n), x); });
						s.m.assign(size_t(n), v);
						return true;
					});
					add("copy_assign" + ns, [n, fin](S& s) {
						C o;
						for (int i = 0; i < n; ++i)
							o.emplace_back(s.next + i);
						A([&] { s.c = o; });
						CHECK(o.size() == size_t(n));
						for (int i = 0; i < n; ++i)
							CHECK(get(o[size_t(i)]) == s.next + i);
						return fin(s);
					});
					add("resize(m," + std::to_string(n) + ")", [n](S& s) {
						int v = s.next++;
						T x = make<T>(v);
						A([&] { s.c.resize(size_t(n), x); });
						s.m.resize(size_t(n), v);
						return true;
					}, STRONG);
					add("resize_front(m," + std::to_string(n) + ")", [n](S& s) {
						int v = s.next++;
						T x = make<T>(v);
						A([&] { s.c.resize_front(size_t(n), x); });
						if (s.m.size() > size_t(n))
							s.m.erase(s.m.begin(), s.m.end() - n);
						else
							s.m.insert(s.m.begin(), size_t(n) - s.m.size(), v);
						return true;
					}, STRONG);
				}
				add("assign_il", [](S& s) {
					int v = s.next;
					s.next += 2;
					std::initializer_list<T> il{ T(v), T(v + 1) };
					A([&] { s.c.assign(il); });
					s.m = { v, v + 1 };
					return true;
				}, NOFAULT);
				add("self_assign", [](S& s) {
					C& r = s.c;
					A([&] { s.c = r; });
					return true;
				});
				add("copy_ctor", [](S& s) {
					C o = A([&] { return C(s.c); });
					CHECK(o.size() == s.m.size());
					for (size_t i = 0; i < o.size(); ++i)
						CHECK(get(o[i]) == s.m[i]);
					s.check();
					A([&] { s.c.swap(o); });
					return true;
				}, STRONG | FOLLOWUP);
				add("ctors", [](S& s) {
					auto v = vec_range<T>(int(s.m.size()), 0);
					{
						C a = A([&] { return C(v.begin(), v.end(), TAlloc<T>()); });
						CHECK(a.size() == v.size());
						for (size_t i = 0; i < v.size(); ++i)
							CHECK(a[i] == v[i]);
					}
					{
						C a = A([&] { return C(InIt<T>(v.data()), InIt<T>(v.data() + v.size()), TAlloc<T>()); });
						CHECK(a.size() == v.size());
						for (size_t i = 0; i < v.size(); ++i)
							CHECK(a[i] == v[i]);
					}
					{
						C a = A([&] { return C(size_t(5)); });
						CHECK(a.size() == 5 && get(a[4]) == 0);
					}
					{
						T x = make<T>(9);
						C a = A([&] { return C(size_t(5), x, TAlloc<T>()); });
						CHECK(a.size() == 5 && get(a[4]) == 9 && get(a[0]) == 9);
					}
					return true;
				}, STRONG);
			}
		}
	};
}
