#pragma once
// Operation sequences on tiny_string against std::basic_string.
#include "elems.hpp"
#include <seq/tiny_string.hpp>
#include <list>
#include <string>
#include <string_view>
namespace ts
{
	using namespace mc;

	// The source of a string argument
	enum Src
	{
		CSTR,  // null terminated pointer
		STR,   // std::basic_string
		VIEW,  // std::basic_string_view
		TINY,  // tiny_string of another static size and allocator
		TVIEW, // basic_tstring_view
		SAME   // the very type under test
	};
	static const char* const src_name[] = { "cstr", "string", "string_view", "tiny", "tview", "same" };

	template<class Char, size_t N>
	struct Sys
	{
		using Al = TAlloc<Char, true, true, true>;
		using C = seq::tiny_string<Char, std::char_traits<Char>, Al, N>;
		using Other = seq::tiny_string<Char, std::char_traits<Char>, std::allocator<Char>, N + 9>;
		using TView = seq::basic_tstring_view<Char>;
		using M = std::basic_string<Char>;
		using V = std::basic_string_view<Char>;
		static constexpr size_t CAP = C::max_static_size;
		C c;
		M m;
		int next = 0;

		struct Shape
		{
			const char* name;
			int size;    // -1000 - k: CAP + k
			int reserve; // first
			int pop;     // afterwards
		};
		static int L(int v) { return v >= 500 ? int(CAP) + v - 1000 : v; }
		static const std::vector<Shape>& shapes()
		{
			static const std::vector<Shape> v = { { "empty", 0, 0, 0 },	      { "1", 1, 0, 0 },		   { "2", 2, 0, 0 },	       { "6", 6, 0, 0 },
							      { "cap-1", 999, 0, 0 },	      { "cap", 1000, 0, 0 },	   { "cap+1", 1001, 0, 0 },    { "cap+9", 1009, 0, 0 },
							      { "heap,empty", 0, 1030, 0 },   { "heap,3", 3, 1030, 0 },	   { "heap,cap", 1000, 1030, 0 }, { "popped to cap", 1001, 0, 1 },
							      { "popped to 2", 1001, 0, -2 }, { "exact", 1020, -1, 0 },	   { "roomy", 1005, 1100, 0 } };
			return v;
		}
		static int nseeds() { return int(shapes().size()); }
		static std::string seed_name(int i) { return shapes()[size_t(i)].name; }
		static int seed_depth(int, bool) { return -1; }
		Sys(int seed)
		  : c(Al(1))
		{
			const Shape& s = shapes()[size_t(seed)];
			int n = L(s.size);
			if (s.reserve == -1) {
				m = gen(size_t(n));
				c.assign(m.data(), m.size());
				return;
			}
			if (s.reserve)
				c.reserve(size_t(L(s.reserve)));
			for (int i = 0; i < n; ++i) {
				Char ch = gen(1)[0];
				c.push_back(ch);
				m.push_back(ch);
			}
			int pop = s.pop < 0 ? n + s.pop : s.pop;
			while (pop-- > 0) {
				c.pop_back();
				m.pop_back();
			}
		}
		M gen(size_t n)
		{
			M r;
			while (n--)
				r.push_back(Char('a' + (next++) % 23));
			return r;
		}
		std::string txt(const M& s) const
		{
			std::string r;
			for (Char ch : s)
				r += ch >= 32 && ch < 127 ? char(ch) : '?';
			return r;
		}
		std::string dump() const { return "model \"" + txt(m) + "\" string \"" + txt(M(c.data(), std::min<size_t>(c.size(), 400))) + "\""; }

		void check()
		{
			const C& cc = c;
			CHECK(c.size() == m.size(), "size %zu expected %zu; %s", c.size(), m.size(), dump().c_str());
			CHECK(c.length() == m.size() && c.empty() == m.empty());
			CHECK(c.capacity() >= c.size(), "capacity %zu size %zu", c.capacity(), c.size());
			CHECK(c.max_size() > c.size());
			CHECK(c.get_allocator().id == 1 && cc.get_allocator().id == 1, "allocator %d", c.get_allocator().id);
			CHECK(c.data() == cc.data() && c.c_str() == c.data());
			for (size_t i = 0; i < m.size(); ++i)
				CHECK(cc.data()[i] == m[i], "position %zu; %s", i, dump().c_str());
			CHECK(c.data()[m.size()] == Char(0), "not null terminated; %s", dump().c_str());
			for (size_t i = 0; i < m.size(); ++i)
				CHECK(c[i] == m[i] && cc[i] == m[i] && c.at(i) == m[i] && cc.at(i) == m[i]);
			CHECK(M(c.begin(), c.end()) == m && M(cc.begin(), cc.end()) == m && M(cc.cbegin(), cc.cend()) == m);
			CHECK(M(c.rbegin(), c.rend()) == M(m.rbegin(), m.rend()) && M(cc.rbegin(), cc.rend()) == M(m.rbegin(), m.rend()) && M(cc.crbegin(), cc.crend()) == M(m.rbegin(), m.rend()));
			if (!m.empty())
				CHECK(c.front() == m.front() && cc.front() == m.front() && c.back() == m.back() && cc.back() == m.back());
			for (size_t p : { m.size(), m.size() + 1, size_t(-1) }) {
				int thrown = 0;
				try {
					(void)cc.at(p);
				}
				catch (const std::out_of_range&) {
					++thrown;
				}
				try {
					(void)c.at(p);
				}
				catch (const std::out_of_range&) {
					++thrown;
				}
				CHECK(thrown == 2);
			}
			CHECK(M(cc) == m);
			CHECK(cc == m && m == cc && !(cc != m) && !(cc < m) && cc <= m && cc.compare(m) == 0);
			Other o(cc);
			CHECK(o == cc && o.size() == m.size());
			CHECK(std::hash<C>()(cc) == std::hash<Other>()(o) && std::hash<C>()(cc) == std::hash<C>()(m));
			CHECK(seq::hasher<C>()(cc) == seq::hasher<M>()(m) && seq::hasher<C>()(cc) == seq::hasher<C>()(V(m)));
			if (m.find(Char(0)) == M::npos)
				CHECK(seq::hasher<C>()(cc) == seq::hasher<C>()(m.c_str()) && std::hash<C>()(cc) == std::hash<C>()(m.c_str()));
			TView v(cc);
			CHECK(v.size() == m.size() && v.data() == cc.data() && v == cc && v == m && std::hash<TView>()(v) == std::hash<C>()(cc));
			C copy(cc);
			CHECK(copy == m && copy.data()[m.size()] == Char(0) && copy.data() != cc.data());
			std::vector<Char> buf(m.size() + 2, Char('#'));
			CHECK(cc.copy(buf.data(), m.size()) == m.size());
			CHECK(M(buf.data(), m.size()) == m && buf[m.size()] == Char('#'));
		}
		uint64_t fingerprint()
		{
			Fp f;
			f.add(c.size());
			f.add(c.capacity());
			const char* d = reinterpret_cast<const char*>(c.data());
			const char* o = reinterpret_cast<const char*>(&c);
			f.add(d >= o && d < o + sizeof(c));
			for (Char v : m)
				f.add(uint64_t(v));
			return f.h;
		}
		void resync() { m.assign(c.data(), c.size()); }

		static size_t P(int p, size_t n)
		{
			// 0 begin, 1 second, 2 just before the middle, 3 just after the middle, 4 last, 5 end
			switch (p) {
				case 0:
					return 0;
				case 1:
					return std::min<size_t>(1, n);
				case 2:
					return n / 2 ? n / 2 - 1 : 0;
				case 3:
					return std::min<size_t>(n / 2 + 1, n);
				case 4:
					return n ? n - 1 : 0;
				default:
					return n;
			}
		}
		static bool distinct(int p, size_t n)
		{
			for (int q = 0; q < p; ++q)
				if (P(q, n) == P(p, n))
					return false;
			return true;
		}
		// argument lengths: 0 none, 1 one, 2 three, 3 all the remaining room, 4 one more, 5 many
		static constexpr int NL = 6;
		size_t len(int k) const
		{
			size_t room = c.capacity() - c.size();
			switch (k) {
				case 0:
					return 0;
				case 1:
					return 1;
				case 2:
					return 3;
				case 3:
					return room;
				case 4:
					return room + 1;
				default:
					return CAP + 20;
			}
		}
		bool distinct_len(int k) const
		{
			for (int q = 0; q < k; ++q)
				if (len(q) == len(k))
					return false;
			return true;
		}
		// f applied to both, same result
		template<class F>
		void both(F f)
		{
			if constexpr (std::is_void<decltype(f(m))>::value) {
				A([&] { f(c); });
				f(m);
			}
			else {
				auto a = A([&] { return f(c); });
				auto b = f(m);
				CHECK(a == b, "returned %lld expected %lld; %s", (long long)a, (long long)b, dump().c_str());
			}
		}
		static bool is_m(const M&) { return true; }
		static bool is_m(const C&) { return false; }
		// f(t, argument) with the argument in the form k for the tiny_string, a std::string for the model
		template<int K, class F>
		void with(const M& arg, F f)
		{
			auto fm = [&](M& t) { return f(t, arg); };
			auto go = [&](auto& x) {
				if constexpr (std::is_void<decltype(fm(m))>::value) {
					A([&] { f(c, x); });
					fm(m);
				}
				else {
					auto a = A([&] { return f(c, x); });
					auto b = fm(m);
					CHECK(a == b, "returned %lld expected %lld; %s", (long long)a, (long long)b, dump().c_str());
				}
			};
			if constexpr (K == CSTR) {
				const Char* x = arg.c_str();
				go(x);
			}
			else if constexpr (K == STR)
				go(arg);
			else if constexpr (K == VIEW) {
				V x(arg);
				go(x);
			}
			else if constexpr (K == TINY) {
				Other x(arg.data(), arg.size());
				go(x);
			}
			else if constexpr (K == TVIEW) {
				TView x(arg.data(), arg.size());
				go(x);
			}
			else {
				C x(arg.data(), arg.size(), Al(1));
				go(x);
			}
		}
		using S = Sys;
		using Ops = std::vector<Op<Sys>>;
		static void add(Ops& o, std::string n, std::function<bool(S&)> f, int fl = 0) { o.push_back(Op<S>{ n, f, fl | STRONG }); }

		// ------------------------------------------------------- basic modifiers, sizes
		static void ops_basic(Ops& o)
		{
			add(o, "push_back", [](S& s) {
				Char ch = s.gen(1)[0];
				s.both([&](auto& t) { t.push_back(ch); });
				return true;
			}, FOLLOWUP | DEEP);
			add(o, "+=c", [](S& s) {
				Char ch = s.gen(1)[0];
				s.both([&](auto& t) { t += ch; });
				return true;
			});
			add(o, "=c", [](S& s) {
				Char ch = s.gen(1)[0];
				s.both([&](auto& t) { t = ch; });
				return true;
			});
			add(o, "push_back(self.back())", [](S& s) {
				if (s.m.empty())
					return false;
				s.both([&](auto& t) { t.push_back(t.back()); });
				return true;
			});
			add(o, "pop_back", [](S& s) {
				if (s.m.empty())
					return false;
				s.both([&](auto& t) { t.pop_back(); });
				return true;
			}, FOLLOWUP | DEEP);
			add(o, "write [0], back, at", [](S& s) {
				if (s.m.empty())
					return false;
				M g = s.gen(3);
				s.both([&](auto& t) {
					t[0] = g[0];
					t.back() = g[1];
					t.at(t.size() / 2) = g[2];
				});
				return true;
			}, FOLLOWUP);
			add(o, "clear", [](S& s) {
				s.both([&](auto& t) { t.clear(); });
				return true;
			}, FOLLOWUP | DEEP);
			add(o, "shrink_to_fit", [](S& s) {
				A([&] { s.c.shrink_to_fit(); });
				return true;
			}, FOLLOWUP | DEEP);
			for (int k = 0; k < 5; ++k)
				add(o, "reserve(" + std::string(k == 0 ? "0" : k == 1 ? "size" : k == 2 ? "size+1" : k == 3 ? "cap+1" : "3cap") + ")", [k](S& s) {
					size_t n = k == 0 ? 0 : k == 1 ? s.m.size() : k == 2 ? s.m.size() + 1 : k == 3 ? s.c.capacity() + 1 : CAP * 3;
					A([&] { s.c.reserve(n); });
					CHECK(s.c.capacity() >= n);
					return true;
				}, k == 2 || k == 3 ? DEEP : 0);
			for (int k = 0; k < NL; ++k) {
				std::string ks = "+" + std::to_string(k);
				add(o, "resize" + ks, [k](S& s) {
					if (!s.distinct_len(k))
						return false;
					size_t n = s.m.size() + s.len(k);
					s.both([&](auto& t) { t.resize(n); });
					return true;
				});
				add(o, "resize(c)" + ks, [k](S& s) {
					if (!s.distinct_len(k))
						return false;
					size_t n = s.m.size() + s.len(k);
					Char ch = s.gen(1)[0];
					s.both([&](auto& t) { t.resize(n, ch); });
					return true;
				}, k == 2 || k == 4 ? DEEP : 0);
				add(o, "resize_front" + ks, [k](S& s) {
					if (!s.distinct_len(k))
						return false;
					size_t n = s.m.size() + s.len(k);
					A([&] { s.c.resize_front(n); });
					s.m.insert(0, n - s.m.size(), Char(0));
					return true;
				});
				add(o, "resize_front(c)" + ks, [k](S& s) {
					if (!s.distinct_len(k))
						return false;
					size_t n = s.m.size() + s.len(k);
					Char ch = s.gen(1)[0];
					A([&] { s.c.resize_front(n, ch); });
					s.m.insert(0, n - s.m.size(), ch);
					return true;
				});
				add(o, "append(n,c)" + ks, [k](S& s) {
					if (!s.distinct_len(k))
						return false;
					size_t n = s.len(k);
					Char ch = s.gen(1)[0];
					s.both([&](auto& t) { t.append(n, ch); });
					return true;
				});
				add(o, "assign(n,c)" + ks, [k](S& s) {
					if (!s.distinct_len(k))
						return false;
					size_t n = s.len(k);
					Char ch = s.gen(1)[0];
					s.both([&](auto& t) { t.assign(n, ch); });
					return true;
				}, k == 5 ? DEEP : 0);
			}
			for (int p = 0; p < 5; ++p) {
				std::string ps = "-@" + std::to_string(p);
				add(o, "resize" + ps, [p](S& s) {
					if (!distinct(p, s.m.size()))
						return false;
					size_t n = P(p, s.m.size());
					s.both([&](auto& t) { t.resize(n); });
					return true;
				}, p == 1 || p == 3 ? DEEP : 0);
				add(o, "resize_front" + ps, [p](S& s) {
					if (!distinct(p, s.m.size()))
						return false;
					size_t n = P(p, s.m.size());
					A([&] { s.c.resize_front(n); });
					s.m.erase(0, s.m.size() - n);
					return true;
				}, p == 3 ? DEEP : 0);
			}
			for (int p = 0; p < 6; ++p) {
				std::string ps = "@" + std::to_string(p);
				add(o, "erase it" + ps, [p](S& s) {
					if (!distinct(p, s.m.size()) || P(p, s.m.size()) == s.m.size())
						return false;
					size_t i = P(p, s.m.size());
					s.both([&](auto& t) { auto r = t.erase(t.begin() + ptrdiff_t(i)); return size_t(r - t.begin()); });
					return true;
				}, p == 1 ? DEEP : 0);
				add(o, "erase(pos)" + ps, [p](S& s) {
					if (!distinct(p, s.m.size()))
						return false;
					size_t i = P(p, s.m.size());
					s.both([&](auto& t) { t.erase(i); });
					return true;
				});
				add(o, "erase(pos,huge)" + ps, [p](S& s) {
					if (!distinct(p, s.m.size()))
						return false;
					size_t i = P(p, s.m.size());
					s.both([&](auto& t) { t.erase(i, size_t(-3)); });
					return true;
				});
				for (int q = p; q < 6; ++q) {
					add(o, "erase its" + ps + "-" + std::to_string(q), [p, q](S& s) {
						size_t n = s.m.size();
						if (!distinct(p, n) || (q != p && !distinct(q, n)))
							return false;
						ptrdiff_t a = ptrdiff_t(P(p, n)), b = ptrdiff_t(P(q, n));
						if (a > b)
							return false;
						s.both([&](auto& t) { auto r = t.erase(t.begin() + a, t.begin() + b); return size_t(r - t.begin()); });
						return true;
					});
					add(o, "erase" + ps + "-" + std::to_string(q), [p, q](S& s) {
						size_t n = s.m.size();
						if (!distinct(p, n) || (q != p && !distinct(q, n)))
							return false;
						size_t a = P(p, n), b = P(q, n);
						if (a > b)
							return false;
						s.both([&](auto& t) { t.erase(a, b - a); });
						return true;
					});
				}
			}
			for (int k : { 1, 4, 5 }) {
				std::string ks = "(" + std::to_string(k) + ")";
				add(o, "swap" + ks, [k](S& s) {
					M g = s.gen(s.len(k));
					C x(g.data(), g.size(), Al(1));
					if (k == 4)
						A([&] { s.c.swap(x); });
					else
						A([&] { swap(s.c, x); });
					CHECK(x == s.m && x.c_str()[x.size()] == Char(0));
					s.m = g;
					return true;
				}, k == 5 ? DEEP : 0);
				add(o, "move assign" + ks, [k](S& s) {
					M g = s.gen(s.len(k));
					C x(g.data(), g.size(), Al(1));
					if (k == 4)
						A([&] { s.c.assign(std::move(x)); });
					else
						A([&] { s.c = std::move(x); });
					s.m = g;
					x.push_back(Char('z'));
					CHECK(x.back() == Char('z') && x.c_str()[x.size()] == Char(0));
					return true;
				}, k == 5 ? DEEP : 0);
				add(o, "move to" + ks, [k](S& s) {
					M g = s.gen(s.len(k));
					C x(g.data(), g.size(), Al(1));
					A([&] { x = std::move(s.c); });
					CHECK(x == s.m && x.c_str()[x.size()] == Char(0));
					s.c.assign(g.data(), g.size());
					s.m = g;
					return true;
				});
			}
			add(o, "move ctor", [](S& s) {
				C x = A([&] { return C(std::move(s.c)); });
				CHECK(x == s.m && x.get_allocator().id == 1);
				CHECK(s.c.empty() && s.c.c_str()[0] == 0);
				s.c = C(Al(1));
				s.m.clear();
				return true;
			});
			add(o, "move ctor(alloc)", [](S& s) {
				C x = A([&] { return C(std::move(s.c), Al(2)); });
				CHECK(x == s.m && x.get_allocator().id == 2 && x.c_str()[x.size()] == Char(0));
				s.c.clear();
				s.m.clear();
				return true;
			});
			add(o, "move ctor(same alloc)", [](S& s) {
				C x = A([&] { return C(std::move(s.c), Al(1)); });
				CHECK(x == s.m && x.get_allocator().id == 1 && x.c_str()[x.size()] == Char(0));
				s.c.clear();
				s.m.clear();
				return true;
			});
			add(o, "copy ctor(alloc)", [](S& s) {
				C x = A([&] { return C(s.c, Al(2)); });
				CHECK(x == s.m && x.get_allocator().id == 2 && x.c_str()[x.size()] == Char(0));
				return true;
			});
			add(o, "self =", [](S& s) {
				C& r = s.c;
				A([&] { s.c = r; });
				return true;
			});
			add(o, "self = move", [](S& s) {
				C& r = s.c;
				A([&] { s.c = std::move(r); });
				return true;
			});
			add(o, "self assign", [](S& s) {
				C& r = s.c;
				A([&] { s.c.assign(r); });
				return true;
			});
			add(o, "self swap", [](S& s) {
				C& r = s.c;
				A([&] { s.c.swap(r); });
				return true;
			});
			for (int p = 0; p < 6; ++p)
				for (int q = p; q < 7; ++q)
					add(o, "substr@" + std::to_string(p) + "-" + std::to_string(q), [p, q](S& s) {
						size_t n = s.m.size();
						if (!distinct(p, n) || (q != p && q != 6 && !distinct(q, n)))
							return false;
						size_t a = P(p, n), b = q == 6 ? n + 5 : P(q, n);
						if (a > b)
							return false;
						M e = s.m.substr(a, b - a);
						CHECK(A([&] { return C(s.c, a, b - a, Al(1)); }) == e);
						if (q == 6) {
							CHECK(C(s.c, a, Al(1)) == e);
							CHECK(C(s.c, a, size_t(-1)) == e);
							CHECK(C(s.c, a, size_t(-3)) == e);
							CHECK(s.c.substr(a) == e);
							CHECK(s.c.substr(a, size_t(-3)) == e);
							CHECK(TView(s.c).substr(a) == e);
						}
						auto v = s.c.substr(a, b - a);
						CHECK(v == e && v.size() == e.size() && v.data() == s.c.data() + a);
						CHECK(TView(s.c).substr(a, b - a) == e);
						std::vector<Char> buf(n + 2, Char('#'));
						CHECK(s.c.copy(buf.data(), b - a, a) == e.size() && M(buf.data(), e.size()) == e && buf[e.size()] == Char('#'));
						CHECK(TView(s.c).copy(buf.data(), b - a, a) == e.size() && M(buf.data(), e.size()) == e && buf[e.size()] == Char('#'));
						int thrown = 0;
						auto th = [&](auto f) {
							try {
								f();
							}
							catch (const std::out_of_range&) {
								++thrown;
							}
						};
						th([&] { (void)s.c.substr(n + 1); });
						th([&] { (void)s.c.substr(n + 1, 2); });
						th([&] { (void)TView(s.c).substr(n + 1, 2); });
						th([&] { (void)s.c.copy(buf.data(), 1, n + 1); });
						th([&] { (void)TView(s.c).copy(buf.data(), 1, n + 1); });
						th([&] { (void)TView(s.c).at(n); });
						CHECK(thrown == 6);
						return true;
					}, NOFAULT);
		}
		// ------------------------------------------------------- forms of string arguments
		template<int K>
		static void ops_form(Ops& o)
		{
			std::string kn = std::string("(") + src_name[K] + ")";
			for (int k = 0; k < NL; ++k) {
				std::string ks = kn + "+" + std::to_string(k);
				auto arg = [k](S& s, M& g) {
					if (!s.distinct_len(k))
						return false;
					g = s.gen(s.len(k));
					return true;
				};
				add(o, "append" + ks, [arg](S& s) {
					M g;
					if (!arg(s, g))
						return false;
					s.with<K>(g, [](auto& t, auto& x) { t.append(x); });
					return true;
				}, K == STR && (k == 2 || k == 4) ? DEEP : 0);
				add(o, "+=" + ks, [arg](S& s) {
					M g;
					if (!arg(s, g))
						return false;
					s.with<K>(g, [](auto& t, auto& x) { t += x; });
					return true;
				});
				add(o, "assign" + ks, [arg](S& s) {
					M g;
					if (!arg(s, g))
						return false;
					s.with<K>(g, [](auto& t, auto& x) { t.assign(x); });
					return true;
				}, K == STR && k == 5 ? DEEP : 0);
				add(o, "=" + ks, [arg](S& s) {
					M g;
					if (!arg(s, g))
						return false;
					s.with<K>(g, [](auto& t, auto& x) { t = x; });
					return true;
				});
				for (int p = 0; p < 6; ++p) {
					std::string ps = "@" + std::to_string(p);
					add(o, "insert" + ps + ks, [arg, p](S& s) {
						M g;
						if (!distinct(p, s.m.size()) || !arg(s, g))
							return false;
						size_t i = P(p, s.m.size());
						s.with<K>(g, [i](auto& t, auto& x) { t.insert(i, x); });
						return true;
					});
					for (int q = p; q < 7; ++q) {
						add(o, "replace" + ps + "-" + std::to_string(q) + ks, [arg, p, q](S& s) {
							M g;
							size_t n = s.m.size();
							if (!distinct(p, n) || (q != p && q != 6 && !distinct(q, n)) || !arg(s, g))
								return false;
							size_t a = P(p, n), b = q == 6 ? n + 3 : P(q, n);
							if (a > b)
								return false;
							s.with<K>(g, [a, b](auto& t, auto& x) { t.replace(a, b - a, x); });
							return true;
						});
						if (q < 6)
							add(o, "replace its" + ps + "-" + std::to_string(q) + ks, [arg, p, q](S& s) {
								M g;
								size_t n = s.m.size();
								if (!distinct(p, n) || (q != p && !distinct(q, n)) || !arg(s, g))
									return false;
								ptrdiff_t a = ptrdiff_t(P(p, n)), b = ptrdiff_t(P(q, n));
								if (a > b)
									return false;
								s.with<K>(g, [a, b](auto& t, auto& x) { t.replace(t.begin() + a, t.begin() + b, x); });
								return true;
							});
					}
				}
			}
			// parts of the argument
			if constexpr (K != CSTR) {
				for (int p = 0; p < 4; ++p)
					for (int q = 0; q < 4; ++q) {
						std::string ks = kn + "part" + std::to_string(p) + std::to_string(q);
						auto part = [p, q](S& s, M& g, size_t& a, size_t& l) {
							g = s.gen(CAP + 4);
							a = p == 0 ? 0 : p == 1 ? 2 : p == 2 ? CAP : g.size();
							l = q == 0 ? 0 : q == 1 ? 3 : q == 2 ? CAP + 40 : size_t(-1);
						};
						if constexpr (K != TVIEW) {
							add(o, "append" + ks, [part](S& s) {
								M g;
								size_t a, l;
								part(s, g, a, l);
								s.with<K>(g, [a, l](auto& t, auto& x) { t.append(x, a, l); });
								return true;
							});
							for (int r = 0; r < 6; ++r)
								add(o, "replace@" + std::to_string(r) + ks, [part, r](S& s) {
									M g;
									size_t a, l;
									part(s, g, a, l);
									size_t n = s.m.size();
									if (!distinct(r, n))
										return false;
									size_t i = P(r, n);
									s.with<K>(g, [a, l, i](auto& t, auto& x) { t.replace(i, 2, x, a, l); });
									return true;
								});
						}
						if constexpr (K == SAME) {
							add(o, "assign" + ks, [part](S& s) {
								M g;
								size_t a, l;
								part(s, g, a, l);
								s.with<K>(g, [a, l](auto& t, auto& x) { t.assign(x, a, l); });
								return true;
							});
							for (int r = 0; r < 6; ++r)
								add(o, "insert@" + std::to_string(r) + ks, [part, r](S& s) {
									M g;
									size_t a, l;
									part(s, g, a, l);
									size_t n = s.m.size();
									if (!distinct(r, n))
										return false;
									size_t i = P(r, n);
									s.with<K>(g, [a, l, i](auto& t, auto& x) { t.insert(i, x, a, l); });
									return true;
								});
						}
					}
				if constexpr (K != CSTR) {
					for (int k = 0; k < 4; ++k)
						add(o, "replace all" + kn + std::to_string(k), [k](S& s) {
							if (s.m.empty())
								return false;
							M from = k == 0 ? s.m.substr(0, 1) : k == 1 ? s.m.substr(s.m.size() / 2, 2) : k == 2 ? s.m.substr(s.m.size() - 1) : M(1, s.m[0]);
							M to = k == 0 ? M() : k == 1 ? s.gen(1) : s.gen(4);
							if (k == 3)
								to = from + from;
							size_t start = k == 3 && s.m.size() > 1 ? 1 : 0;
							M e = s.m;
							size_t n = 0, pos = start;
							while ((pos = e.find(from, pos)) != M::npos) {
								e.replace(pos, from.size(), to);
								pos += to.size();
								++n;
							}
							if constexpr (K == STR)
								CHECK(s.c.replace(from, to, start) == n);
							else if constexpr (K == VIEW)
								CHECK(s.c.replace(V(from), V(to), start) == n);
							else if constexpr (K == TINY)
								CHECK(s.c.replace(Other(from), Other(to), start) == n);
							else if constexpr (K == TVIEW)
								CHECK(s.c.replace(TView(from), TView(to), start) == n);
							else
								CHECK(s.c.replace(from.c_str(), to.c_str(), start) == n);
							s.m = e;
							return true;
						}, NOFAULT);
				}
			}
		}
		// ------------------------------------------------------- buffers, ranges, fills
		template<class F>
		static void form(Ops& o, const std::string& kn, F range)
		{
			// range(string data, g): calls g(first, last)
			for (int k = 0; k < NL; ++k) {
				std::string ks = kn + "+" + std::to_string(k);
				auto arg = [k](S& s, M& g) {
					if (!s.distinct_len(k))
						return false;
					g = s.gen(s.len(k));
					return true;
				};
				add(o, "append" + ks, [arg, range](S& s) {
					M g;
					if (!arg(s, g))
						return false;
					range(g, [&](auto f, auto l) { s.both([&](auto& t) { t.append(f, l); }); });
					return true;
				});
				add(o, "assign" + ks, [arg, range](S& s) {
					M g;
					if (!arg(s, g))
						return false;
					range(g, [&](auto f, auto l) { s.both([&](auto& t) { t.assign(f, l); }); });
					return true;
				});
				add(o, "ctor" + ks, [arg, range](S& s) {
					M g;
					if (!arg(s, g))
						return false;
					range(g, [&](auto f, auto l) {
						C x = A([&] { return C(f, l, Al(1)); });
						CHECK(x == g && x.get_allocator().id == 1 && x.c_str()[x.size()] == Char(0));
					});
					return true;
				});
				for (int p = 0; p < 6; ++p) {
					std::string ps = "@" + std::to_string(p);
					add(o, "insert" + ps + ks, [arg, range, p](S& s) {
						M g;
						if (!distinct(p, s.m.size()) || !arg(s, g))
							return false;
						ptrdiff_t i = ptrdiff_t(P(p, s.m.size()));
						range(g, [&](auto f, auto l) { s.both([&](auto& t) { auto r = t.insert(t.begin() + i, f, l); return size_t(r - t.begin()); }); });
						return true;
					});
					for (int q = p; q < 6; ++q)
						add(o, "replace" + ps + "-" + std::to_string(q) + ks, [arg, range, p, q](S& s) {
							M g;
							size_t n = s.m.size();
							if (!distinct(p, n) || (q != p && !distinct(q, n)) || !arg(s, g))
								return false;
							ptrdiff_t a = ptrdiff_t(P(p, n)), b = ptrdiff_t(P(q, n));
							if (a > b)
								return false;
							range(g, [&](auto f, auto l) { s.both([&](auto& t) { t.replace(t.begin() + a, t.begin() + b, f, l); }); });
							return true;
						});
				}
			}
		}
		static void ops_ranges(Ops& o)
		{
			form(o, "(ptrs)", [](const M& g, auto f) { f(g.data(), g.data() + g.size()); });
			form(o, "(string iterators)", [](const M& g, auto f) { f(g.begin(), g.end()); });
			form(o, "(input iterators)", [](const M& g, auto f) { f(InIt<Char>(g.data()), InIt<Char>(g.data() + g.size())); });
			form(o, "(list iterators)", [](const M& g, auto f) {
				std::list<Char> l(g.begin(), g.end());
				f(l.begin(), l.end());
			});
		}
		static void ops_buffers(Ops& o)
		{
			for (int k = 0; k < NL; ++k) {
				std::string ks = "(buf,n)+" + std::to_string(k);
				auto arg = [k](S& s, M& g) {
					if (!s.distinct_len(k))
						return false;
					g = s.gen(s.len(k));
					if (g.size() > 1)
						g[1] = Char(0);
					return true;
				};
				add(o, "append" + ks, [arg](S& s) {
					M g;
					if (!arg(s, g))
						return false;
					s.both([&](auto& t) { t.append(g.data(), g.size()); });
					return true;
				});
				add(o, "assign" + ks, [arg](S& s) {
					M g;
					if (!arg(s, g))
						return false;
					s.both([&](auto& t) { t.assign(g.data(), g.size()); });
					return true;
				});
				add(o, "ctor" + ks, [arg](S& s) {
					M g;
					if (!arg(s, g))
						return false;
					C x = A([&] { return C(g.data(), g.size(), Al(1)); });
					CHECK(x == g && x.c_str()[x.size()] == Char(0));
					C y = A([&] { return C(g, Al(1)); });
					CHECK(y == g && y.c_str()[y.size()] == Char(0) && y.get_allocator().id == 1);
					C z = A([&] { return C(V(g), Al(1)); });
					CHECK(z == g && z.c_str()[z.size()] == Char(0) && z.get_allocator().id == 1);
					C w = A([&] { return C(g.size(), Char('w'), Al(1)); });
					CHECK(w == M(g.size(), Char('w')) && w.c_str()[w.size()] == Char(0) && w.get_allocator().id == 1);
					C u = A([&] { return C(g.c_str(), Al(1)); });
					CHECK(u == g.c_str() && u.size() == M(g.c_str()).size() && u.c_str()[u.size()] == Char(0));
					return true;
				});
				for (int p = 0; p < 6; ++p) {
					std::string ps = "@" + std::to_string(p);
					add(o, "insert" + ps + ks, [arg, p](S& s) {
						M g;
						if (!distinct(p, s.m.size()) || !arg(s, g))
							return false;
						size_t i = P(p, s.m.size());
						s.both([&](auto& t) { t.insert(i, g.data(), g.size()); });
						return true;
					});
					add(o, "insert" + ps + "(n,c)+" + std::to_string(k), [arg, p](S& s) {
						M g;
						if (!distinct(p, s.m.size()) || !arg(s, g))
							return false;
						size_t i = P(p, s.m.size());
						s.both([&](auto& t) { t.insert(i, g.size(), Char('y')); });
						return true;
					});
					add(o, "insert it" + ps + "(n,c)+" + std::to_string(k), [arg, p](S& s) {
						M g;
						if (!distinct(p, s.m.size()) || !arg(s, g))
							return false;
						ptrdiff_t i = ptrdiff_t(P(p, s.m.size()));
						s.both([&](auto& t) { auto r = t.insert(t.begin() + i, g.size(), Char('y')); return size_t(r - t.begin()); });
						return true;
					});
					for (int q = p; q < 7; ++q) {
						auto pq = [p, q](S& s, size_t& a, size_t& b) {
							size_t n = s.m.size();
							if (!distinct(p, n) || (q != p && q != 6 && !distinct(q, n)))
								return false;
							a = P(p, n), b = q == 6 ? n + 3 : P(q, n);
							return a <= b;
						};
						add(o, "replace" + ps + "-" + std::to_string(q) + ks, [arg, pq](S& s) {
							M g;
							size_t a, b;
							if (!pq(s, a, b) || !arg(s, g))
								return false;
							s.both([&](auto& t) { t.replace(a, b - a, g.data(), g.size()); });
							return true;
						});
						add(o, "replace" + ps + "-" + std::to_string(q) + "(n,c)+" + std::to_string(k), [arg, pq](S& s) {
							M g;
							size_t a, b;
							if (!pq(s, a, b) || !arg(s, g))
								return false;
							s.both([&](auto& t) { t.replace(a, b - a, g.size(), Char('x')); });
							return true;
						});
						if (q < 6) {
							add(o, "replace its" + ps + "-" + std::to_string(q) + ks, [arg, pq](S& s) {
								M g;
								size_t a, b;
								if (!pq(s, a, b) || !arg(s, g))
									return false;
								s.both([&](auto& t) { t.replace(t.begin() + ptrdiff_t(a), t.begin() + ptrdiff_t(b), g.data(), g.size()); });
								return true;
							});
							add(o, "replace its" + ps + "-" + std::to_string(q) + "(n,c)+" + std::to_string(k), [arg, pq](S& s) {
								M g;
								size_t a, b;
								if (!pq(s, a, b) || !arg(s, g))
									return false;
								s.both([&](auto& t) { t.replace(t.begin() + ptrdiff_t(a), t.begin() + ptrdiff_t(b), g.size(), Char('x')); });
								return true;
							});
						}
					}
				}
			}
			for (int p = 0; p < 6; ++p) {
				std::string ps = "@" + std::to_string(p);
				add(o, "insert it" + ps + "(c)", [p](S& s) {
					if (!distinct(p, s.m.size()))
						return false;
					ptrdiff_t i = ptrdiff_t(P(p, s.m.size()));
					Char ch = s.gen(1)[0];
					s.both([&](auto& t) { auto r = t.insert(t.begin() + i, ch); return size_t(r - t.begin()); });
					return true;
				}, p == 1 || p == 3 ? DEEP : 0);
				add(o, "insert it" + ps + "({})", [p](S& s) {
					if (!distinct(p, s.m.size()))
						return false;
					ptrdiff_t i = ptrdiff_t(P(p, s.m.size()));
					s.both([&](auto& t) { auto r = t.insert(t.begin() + i, { Char('A'), Char('B'), Char('C') }); return size_t(r - t.begin()); });
					return true;
				});
				add(o, "replace its" + ps + "({})", [p](S& s) {
					if (!distinct(p, s.m.size()))
						return false;
					ptrdiff_t i = ptrdiff_t(P(p, s.m.size()));
					s.both([&](auto& t) { t.replace(t.begin() + i, t.end(), { Char('A'), Char('B'), Char('C') }); });
					return true;
				});
			}
			add(o, "append({})", [](S& s) {
				s.both([&](auto& t) { t.append({ Char('A'), Char('B'), Char('C') }); });
				return true;
			});
			add(o, "+={}", [](S& s) {
				s.both([&](auto& t) { t += { Char('A'), Char('B'), Char('C') }; });
				return true;
			});
			add(o, "assign({})", [](S& s) {
				s.both([&](auto& t) { t.assign({ Char('A'), Char('B'), Char('C') }); });
				return true;
			});
			add(o, "={}", [](S& s) {
				s.both([&](auto& t) { t = { Char('A'), Char('B'), Char('C') }; });
				return true;
			});
			add(o, "ctor{}", [](S& s) {
				C x = A([&] { return C({ Char('A'), Char('B'), Char('C') }, Al(1)); });
				CHECK(x.size() == 3 && x[2] == Char('C') && x.c_str()[3] == 0);
				(void)s;
				return true;
			});
		}
		// ------------------------------------------------------- arguments that are part of the string
		static void ops_self(Ops& o)
		{
			// 0 all, 1 first, 2 second half, 3 around the middle, 4 last, 5 all but the last
			for (int r = 0; r < 6; ++r) {
				auto range = [r](S& s, size_t& a, size_t& l) {
					size_t n = s.m.size();
					if (!n)
						return false;
					size_t b;
					switch (r) {
						case 0:
							a = 0, b = n;
							break;
						case 1:
							a = 0, b = 1;
							break;
						case 2:
							a = n / 2, b = n;
							break;
						case 3:
							a = n / 4, b = n / 2 + 1;
							break;
						case 4:
							a = n - 1, b = n;
							break;
						default:
							a = 0, b = n - 1;
							break;
					}
					l = b - a;
					return !(r > 0 && n == 1) && !(r > 3 && n == 2);
				};
				std::string rs = " self" + std::to_string(r);
				for (int k = 0; k < 6; ++k) {
					// 0 pointer and size, 1 pointers, 2 the string with positions, 3 string_view, 4 tstring_view, 5 null terminated pointer
					static const char* const kn[] = { " ptr,n", " ptrs", " sub", " view", " tview", " cstr" };
					std::string ks = kn[k] + rs;
					auto src = [k](auto& t, size_t a, size_t l, auto f) {
						using T = std::decay_t<decltype(t)>;
						const Char* d = t.data();
						if (k == 0)
							f(d + a, l);
						else if (k == 3)
							f(V(d + a, l));
						else if (k == 4) {
							if constexpr (std::is_same<T, M>::value)
								f(V(d + a, l));
							else
								f(TView(d + a, l));
						}
						else if (k == 5)
							f(d + a);
					};
					add(o, "append" + ks, [range, src, k](S& s) {
						size_t a, l;
						if (!range(s, a, l))
							return false;
						s.both([&](auto& t) {
							if (k == 1)
								t.append(t.data() + a, t.data() + a + l);
							else if (k == 2)
								t.append(t, a, l);
							else
								src(t, a, l, [&](auto... x) { t.append(x...); });
						});
						return true;
					});
					add(o, "assign" + ks, [range, src, k](S& s) {
						size_t a, l;
						if (!range(s, a, l))
							return false;
						s.both([&](auto& t) {
							if (k == 1)
								t.assign(t.data() + a, t.data() + a + l);
							else if (k == 2)
								t.assign(t, a, l);
							else
								src(t, a, l, [&](auto... x) { t.assign(x...); });
						});
						return true;
					});
					for (int p = 0; p < 6; ++p) {
						std::string ps = "@" + std::to_string(p);
						add(o, "insert" + ps + ks, [range, src, k, p](S& s) {
							size_t a, l, n = s.m.size();
							if (!range(s, a, l) || !distinct(p, n))
								return false;
							size_t i = P(p, n);
							s.both([&](auto& t) {
								if (k == 1)
									t.insert(t.begin() + ptrdiff_t(i), t.data() + a, t.data() + a + l);
								else if (k == 2)
									t.insert(i, t, a, l);
								else
									src(t, a, l, [&](auto... x) { t.insert(i, x...); });
							});
							return true;
						});
						for (int q : { 0, 1, 3, 20 })
							add(o, "replace" + ps + "," + std::to_string(q) + ks, [range, src, k, p, q](S& s) {
								size_t a, l, n = s.m.size();
								if (!range(s, a, l) || !distinct(p, n))
									return false;
								size_t i = P(p, n);
								size_t j = std::min(n, i + size_t(q));
								if (j == n && q == 20 && n - i <= 3)
									return false;
								s.both([&](auto& t) {
									if (k == 1)
										t.replace(t.begin() + ptrdiff_t(i), t.begin() + ptrdiff_t(j), t.data() + a, t.data() + a + l);
									else if (k == 2)
										t.replace(i, j - i, t, a, l);
									else
										src(t, a, l, [&](auto... x) { t.replace(i, j - i, x...); });
								});
								return true;
							});
					}
				}
			}
			add(o, "append(self)", [](S& s) {
				s.both([](auto& t) { t.append(t); });
				return true;
			});
			add(o, "+=self", [](S& s) {
				s.both([](auto& t) { t += t; });
				return true;
			});
			for (int p = 0; p < 6; ++p)
				add(o, "insert@" + std::to_string(p) + "(self)", [p](S& s) {
					size_t n = s.m.size();
					if (!distinct(p, n))
						return false;
					size_t i = P(p, n);
					s.both([&](auto& t) { t.insert(i, t); });
					s.both([&](auto& t) { t.replace(i, 1, t); });
					return true;
				}, NOFAULT);
			add(o, "push_back(self[i]) all", [](S& s) {
				s.both([](auto& t) {
					for (size_t i = 0, n = t.size(); i < n; ++i)
						t.push_back(t[i]);
				});
				return true;
			}, NOFAULT);
		}
#ifndef TS_OPS
#define TS_OPS 0
#endif
		static void ops(Ops& o)
		{
			ops_basic(o);
#if TS_OPS & 1
			ops_form<CSTR>(o);
			ops_form<STR>(o);
			ops_form<VIEW>(o);
#endif
#if TS_OPS & 2
			ops_form<TINY>(o);
			ops_form<TVIEW>(o);
			ops_form<SAME>(o);
#endif
#if TS_OPS & 4
			ops_ranges(o);
#endif
#if TS_OPS & 16
			ops_buffers(o);
#endif
#if TS_OPS & 8
			ops_self(o);
#endif
		}
	};
}
