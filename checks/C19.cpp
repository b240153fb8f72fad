// C19: copy, move, swap and the allocator-extended constructors transfer values, functors, allocators and
// ownership exactly, between every pair of operand states.
#ifndef PART
#define PART 1
#endif
#define MC_MAIN
#include "elems.hpp"
#include <seq/devector.hpp>
#include <seq/tiered_vector.hpp>
#include <seq/sequence.hpp>
#include <seq/flat_map.hpp>
#include <seq/ordered_map.hpp>
#include <seq/radix_map.hpp>
#include <seq/radix_hash_map.hpp>
#include <seq/concurrent_map.hpp>
#include <seq/tiny_string.hpp>
#include <string>
#include <vector>
#include <list>
#include <set>

namespace
{
	using mc::Enum;
	using mc::fail;
	using mc::Trk;
	using Ints = std::vector<int>;

	// ---- stateful functors ---------------------------------------------------------------------
	// Two functors with different states organise the elements differently: an element organised by one
	// of them is not found by the other.
	constexpr int COLLIDING = 2000000;
	struct H
	{
		int id;
		H(int i = 7) noexcept : id(i) {}
		template<class T>
		size_t operator()(const T& v) const noexcept
		{
			if (mc::get(v) >= COLLIDING)
				return 12345;
			return (size_t(mc::get(v)) + 1) * 0x9E3779B97F4A7C15ull * size_t(2 * id + 1) ^ size_t(id) * 0xD1B54A32D192ED03ull;
		}
	};
	struct E
	{
		int id;
		E(int i = 7) noexcept : id(i) {}
		template<class T, class U>
		bool operator()(const T& a, const U& b) const noexcept
		{
			return mc::get(a) == mc::get(b);
		}
	};
	struct L
	{
		int id;
		L(int i = 7) noexcept : id(i) {}
		template<class T, class U>
		bool operator()(const T& a, const U& b) const noexcept
		{
			return (id & 1) ? mc::get(b) < mc::get(a) : mc::get(a) < mc::get(b);
		}
	};
	enum Kind
	{
		SEQ,   // a sequence
		ORD,   // unique, insertion order
		SORT,  // unique, order of the functor
		HASH   // unique, any order
	};

	// ---- adaptors ------------------------------------------------------------------------------
	template<bool A, bool B, bool C>
	struct Cfg
	{
		static constexpr bool cca = A, cma = B, cs = C;
		template<class T>
		using Al = mc::TAlloc<T, A, B, C>;
	};
	template<class C>
	int aid(const C& c)
	{
		return c.get_allocator().id;
	}
	template<class C_, class Al_, Kind K>
	struct Base
	{
		using C = C_;
		using Al = Al_;
		static constexpr Kind kind = K;
		static size_t size(const C& c) { return c.size(); }
		static int fid(const C&) { return 7; }
		static bool has(C&, int) { return true; }
		static void clear(C& c) { c.clear(); }
		static void swap(C& a, C& b) { a.swap(b); }
	};
	template<template<class, class> class V, class G, class T>
	struct Vec : Base<V<T, typename G::template Al<T>>, typename G::template Al<T>, SEQ>
	{
		using B = Base<V<T, typename G::template Al<T>>, typename G::template Al<T>, SEQ>;
		using C = typename B::C;
		static C make(int, int a) { return C(typename B::Al(a)); }
		static void put(C& c, int v) { c.push_back(T(v)); }
		static void del(C& c, int) { c.erase(c.begin()); }
		static Ints content(const C& c)
		{
			Ints r;
			for (auto it = c.begin(); it != c.end(); ++it)
				r.push_back(mc::get(*it));
			return r;
		}
	};
	template<class T, class A>
	using Tiered = seq::tiered_vector<T, A, 16, 64>;
	template<class T, class A>
	using Seq = seq::sequence<T, A>;

	inline int key(int v) { return v; }
	inline int key(const Trk& v) { return v.get(); }
	template<class A, class B>
	int key(const std::pair<A, B>& p)
	{
		if (mc::get(p.first) + 5 != mc::get(p.second) && mc::get(p.second) != -1)
			fail("the value of key %d is %d", mc::get(p.first), mc::get(p.second));
		return mc::get(p.first);
	}
	template<class Map, class Al, Kind K>
	struct Assoc : Base<Map, Al, K>
	{
		using C = Map;
		static void ins(C& c, int v, std::true_type) { c.emplace(v, v + 5); }
		static void ins(C& c, int v, std::false_type) { c.emplace(v); }
		template<class V>
		struct is_pair : std::false_type
		{
		};
		template<class V, class W>
		struct is_pair<std::pair<V, W>> : std::true_type
		{
		};
		static void put(C& c, int v) { ins(c, v, is_pair<typename C::value_type>()); }
		static void del(C& c, int v)
		{
			if (c.erase(mk(v)) != 1)
				fail("erase of a present key");
		}
		static auto mk(int v) { return typename C::key_type(v); }
		static bool has(C& c, int v) { return c.contains(mk(v)); }
		static Ints content(const C& c)
		{
			Ints r;
			for (auto it = c.begin(); it != c.end(); ++it)
				r.push_back(key(*it));
			return r;
		}
	};
	template<class G, bool Map, class T>
	struct Flat : Assoc<std::conditional_t<Map, seq::flat_map<T, T, L, typename G::template Al<std::pair<T, T>>>, seq::flat_set<T, L, typename G::template Al<T>>>,
			    typename G::template Al<std::conditional_t<Map, std::pair<T, T>, T>>, SORT>
	{
		using B = Assoc<std::conditional_t<Map, seq::flat_map<T, T, L, typename G::template Al<std::pair<T, T>>>, seq::flat_set<T, L, typename G::template Al<T>>>,
				typename G::template Al<std::conditional_t<Map, std::pair<T, T>, T>>, SORT>;
		using C = typename B::C;
		static C make(int f, int a) { return C(L(f), typename B::Al(a)); }
		static int fid(const C& c) { return c.key_comp().id; }
	};
	template<class G, bool Map, class T>
	struct Ordered : Assoc<std::conditional_t<Map, seq::ordered_map<T, T, H, E, typename G::template Al<std::pair<T, T>>>, seq::ordered_set<T, H, E, typename G::template Al<T>>>,
			       typename G::template Al<std::conditional_t<Map, std::pair<T, T>, T>>, ORD>
	{
		using B = Assoc<std::conditional_t<Map, seq::ordered_map<T, T, H, E, typename G::template Al<std::pair<T, T>>>, seq::ordered_set<T, H, E, typename G::template Al<T>>>,
				typename G::template Al<std::conditional_t<Map, std::pair<T, T>, T>>, ORD>;
		using C = typename B::C;
		static C make(int f, int a)
		{
			C c{ H(f), E(f), typename B::Al(a) };
			c.max_load_factor(f & 1 ? 0.3f : 0.8f); // travels with the hash function
			return c;
		}
		static int fid(const C& c) { return c.hash_function().id == c.key_eq().id && c.max_load_factor() == (c.hash_function().id & 1 ? 0.3f : 0.8f) ? c.hash_function().id : -1; }
		static void put(C& c, int v) // in insertion order
		{
			if constexpr (Map)
				c.push_back(std::make_pair(T(v), T(v + 5)));
			else
				c.push_back(T(v));
		}
	};
	template<class G, bool Map, class T>
	struct Radix : Assoc<std::conditional_t<Map, seq::radix_map<int, T, seq::default_key, typename G::template Al<std::pair<int, T>>>, seq::radix_set<int, seq::default_key, typename G::template Al<int>>>,
			     typename G::template Al<std::conditional_t<Map, std::pair<int, T>, int>>, SORT>
	{
		using B = Assoc<std::conditional_t<Map, seq::radix_map<int, T, seq::default_key, typename G::template Al<std::pair<int, T>>>, seq::radix_set<int, seq::default_key, typename G::template Al<int>>>,
				typename G::template Al<std::conditional_t<Map, std::pair<int, T>, int>>, SORT>;
		using C = typename B::C;
		static C make(int, int a) { return C(typename B::Al(a)); }
		static int fid(const C&) { return 0; } // even: ascending
	};
	template<class G, bool Map, class T>
	struct RadixHash : Assoc<std::conditional_t<Map, seq::radix_hash_map<T, T, H, E, typename G::template Al<std::pair<T, T>>>, seq::radix_hash_set<T, H, E, typename G::template Al<T>>>,
				 typename G::template Al<std::conditional_t<Map, std::pair<T, T>, T>>, HASH>
	{
		using B = Assoc<std::conditional_t<Map, seq::radix_hash_map<T, T, H, E, typename G::template Al<std::pair<T, T>>>, seq::radix_hash_set<T, H, E, typename G::template Al<T>>>,
				typename G::template Al<std::conditional_t<Map, std::pair<T, T>, T>>, HASH>;
		using C = typename B::C;
		static C make(int f, int a) { return C(H(f), E(f), typename B::Al(a)); }
		static int fid(const C& c) { return c.hash_function().id == c.key_eq().id ? c.hash_function().id : -1; }
	};
	template<class G, bool Map, unsigned Sh, class T>
	struct Conc : Assoc<std::conditional_t<Map, seq::concurrent_map<T, T, H, E, typename G::template Al<std::pair<T, T>>, Sh>, seq::concurrent_set<T, H, E, typename G::template Al<T>, Sh>>,
			    typename G::template Al<std::conditional_t<Map, std::pair<T, T>, T>>, HASH>
	{
		using B = Assoc<std::conditional_t<Map, seq::concurrent_map<T, T, H, E, typename G::template Al<std::pair<T, T>>, Sh>, seq::concurrent_set<T, H, E, typename G::template Al<T>, Sh>>,
				typename G::template Al<std::conditional_t<Map, std::pair<T, T>, T>>, HASH>;
		using C = typename B::C;
		static C make(int f, int a) { return C(0, H(f), E(f), typename B::Al(a)); }
		static int fid(const C& c) { return c.hash_function().id == c.key_eq().id ? c.hash_function().id : -1; }
		static Ints content(const C& c)
		{
			Ints r;
			c.visit_all([&](const auto& v) {
				r.push_back(key(v));
				return true;
			});
			return r;
		}
	};
	template<class G, class Ch, size_t SS>
	struct Str : Base<seq::tiny_string<Ch, std::char_traits<Ch>, typename G::template Al<Ch>, SS>, typename G::template Al<Ch>, SEQ>
	{
		using B = Base<seq::tiny_string<Ch, std::char_traits<Ch>, typename G::template Al<Ch>, SS>, typename G::template Al<Ch>, SEQ>;
		using C = typename B::C;
		static C make(int, int a) { return C(typename B::Al(a)); }
		static void put(C& c, int v) { c.push_back(Ch('a' + v % 26)); }
		static void del(C& c, int) { c.erase(size_t(0), 1); }
		static Ints content(const C& c)
		{
			Ints r;
			for (size_t i = 0; i < c.size(); ++i)
				r.push_back(c[i]);
			if (c.c_str()[c.size()])
				fail("the string is not terminated");
			return r;
		}
	};

	// ---- model ---------------------------------------------------------------------------------
	template<class A>
	Ints shaped(Ints v, int f)
	{
		if (A::kind == SORT)
			std::sort(v.begin(), v.end(), [f](int a, int b) { return (f & 1) ? b < a : a < b; });
		if (A::kind == HASH)
			std::sort(v.begin(), v.end());
		return v;
	}
	template<class A>
	Ints actual(const typename A::C& c)
	{
		Ints r = A::content(c);
		if (A::kind == HASH)
			std::sort(r.begin(), r.end());
		return r;
	}
	std::string text(const Ints& v)
	{
		std::string s = std::to_string(v.size()) + ":";
		for (size_t i = 0; i < v.size() && i < 12; ++i)
			s += " " + std::to_string(v[i]);
		return s;
	}
	// the state a container is expected to be in
	struct Model
	{
		Ints v;
		int f, a;
	};
	template<class A>
	void verify(typename A::C& c, const Model& m, const char* who)
	{
		const Ints want = shaped<A>(m.v, m.f), got = actual<A>(c);
		if (A::size(c) != want.size())
			fail("%s: size() is %zu, expected %s", who, A::size(c), text(want).c_str());
		if (got != want)
			fail("%s holds %s, expected %s", who, text(got).c_str(), text(want).c_str());
		if (c.empty() != want.empty())
			fail("%s: empty()", who);
		if (A::fid(c) != m.f)
			fail("%s: functor %d, expected %d", who, A::fid(c), m.f);
		if (aid(c) != m.a)
			fail("%s: allocator %d, expected %d", who, aid(c), m.a);
		if (A::kind != SEQ) {
			for (size_t i = 0; i < m.v.size(); i += (m.v.size() > 40 ? 13 : 1))
				if (!A::has(c, m.v[i]))
					fail("%s: key %d is not found", who, m.v[i]);
			if (A::has(c, 77777))
				fail("%s: an absent key is found", who);
		}
	}
	template<class A>
	void put(typename A::C& c, Model& m, int v)
	{
		A::put(c, v);
		m.v.push_back(std::is_same<typename A::C::value_type, char>::value || std::is_same<typename A::C::value_type, wchar_t>::value ? 'a' + v % 26 : v);
	}
	template<class A>
	void del(typename A::C& c, Model& m)
	{
		A::del(c, m.v.front());
		m.v.erase(m.v.begin());
	}
	enum State
	{
		UNUSED,
		CLEARED,
		ONE,
		SMALL,
		MEDIUM, // around the small string limits
		LARGE,
		SHRUNK, // large, then almost everything erased
		MOVED,  // moved from, then used again
		COLLIDE, // keys with a single hash value
		NSTATES
	};
	const char* const STATE[] = { "never used", "cleared", "one", "small", "medium", "large", "shrunk", "moved from and refilled", "colliding" };
	const char* const OPS[] = { "copy constructor",
				    "copy constructor with allocator 9",
				    "copy constructor with the same allocator",
				    "move constructor",
				    "move constructor with allocator 9",
				    "move constructor with the same allocator",
				    "copy assignment",
				    "move assignment",
				    "swap",
				    "std::swap",
				    "self copy assignment",
				    "self move assignment",
				    "self swap",
				    "move assignment of a moved-from container" };
	const int NOPS = int(sizeof(OPS) / sizeof(*OPS));

	template<class A>
	typename A::C build(int st, Model& m, int base)
	{
		typename A::C c = A::make(m.f, m.a);
		auto fill = [&](int n) {
			for (int i = 0; i < n; ++i)
				put<A>(c, m, base + (i * 7) % 1009);
		};
		if (st == CLEARED) {
			fill(20);
			A::clear(c);
			m.v.clear();
		}
		if (st == ONE)
			fill(1);
		if (st == SMALL)
			fill(5);
		if (st == MEDIUM)
			fill(14);
		if (st == LARGE)
			fill(300);
		if (st == SHRUNK) {
			fill(260);
			while (m.v.size() > 3)
				del<A>(c, m);
		}
		if (st == COLLIDE)
			for (int i = 0; i < 40; ++i)
				put<A>(c, m, COLLIDING + base + i);
		if (st == MOVED) {
			fill(30);
			typename A::C d(std::move(c));
			m.v = A::content(c);
			A::clear(c);
			m.v.clear();
			fill(2);
		}
		return c;
	}
	// use a container: it must behave as any other
	template<class A>
	void use(typename A::C& c, Model& m, const char* who)
	{
		verify<A>(c, m, who);
		std::set<const void*> old;
		for (auto& b : mc::blocks())
			old.insert(b.first);
		for (int i = 0; i < 3; ++i)
			put<A>(c, m, 50000 + i);
		verify<A>(c, m, who);
		del<A>(c, m);
		del<A>(c, m);
		verify<A>(c, m, who);
		for (int i = 0; i < 70; ++i)
			put<A>(c, m, 60000 + i);
		verify<A>(c, m, who);
		for (auto& b : mc::blocks())
			if (!old.count(b.first) && b.second.id != m.a)
				fail("%s allocates through allocator %d instead of %d", who, b.second.id, m.a);
		A::clear(c);
		m.v.clear();
		verify<A>(c, m, who);
		put<A>(c, m, 3);
		verify<A>(c, m, who);
	}
	// A container that has been moved from: any valid state will do, its own invariants hold
	template<class A>
	void adopt(typename A::C& c, Model& m, const char* who)
	{
		m.f = A::fid(c);
		m.a = aid(c);
		m.v = A::content(c);
		if (A::kind != SEQ) {
			std::set<int> s(m.v.begin(), m.v.end());
			if (s.size() != m.v.size())
				fail("%s, moved from, holds duplicate keys: %s", who, text(m.v).c_str());
			for (size_t i = 0; i < m.v.size(); i += (m.v.size() > 40 ? 13 : 1))
				if (!A::has(c, m.v[i]))
					fail("%s, moved from, holds key %d and does not find it", who, m.v[i]);
		}
		if (A::size(c) != m.v.size())
			fail("%s, moved from: size() is %zu and it holds %zu elements", who, A::size(c), m.v.size());
	}

	template<class A, class G>
	void one(int op, int sa, int sb, int fa, int fb, int ia, int ib)
	{
		using C = typename A::C;
		using Al = typename A::Al;
		if (A::fid(A::make(3, 1)) != 3)
			fa = fb = A::fid(A::make(3, 1));
		const size_t nblocks = mc::blocks().size();
		const auto live = mc::acc().live_elems;
		{
			Model ma{ {}, fa, ia }, mb{ {}, fb, ib };
			C a = build<A>(sa, ma, 1000), b = build<A>(sb, mb, 1300);
			verify<A>(a, ma, "the left operand before");
			verify<A>(b, mb, "the right operand before");
			if (op <= 2) {
				Model mc_ = mb;
				const Al x(op == 1 ? 9 : ib);
				if (op == 0)
					mc_.a = std::allocator_traits<Al>::select_on_container_copy_construction(Al(ib)).id;
				else
					mc_.a = x.id;
				C c = op == 0 ? C(static_cast<const C&>(b)) : C(static_cast<const C&>(b), x);
				verify<A>(b, mb, "the source");
				use<A>(c, mc_, "the copy");
				use<A>(b, mb, "the source after the copy has changed");
				verify<A>(c, mc_, "the copy after the source has changed");
			}
			else if (op <= 5) {
				Model mc_ = mb;
				const Al x(op == 4 ? 9 : ib);
				mc_.a = x.id;
				C c = op == 3 ? C(std::move(b)) : C(std::move(b), x);
				verify<A>(c, mc_, "the result");
				adopt<A>(b, mb, "the source");
				if (mb.a != ib)
					fail("the moved-from container has allocator %d instead of %d", mb.a, ib);
				use<A>(b, mb, "the source");
				use<A>(c, mc_, "the result after the source has changed");
				verify<A>(b, mb, "the source after the result has changed");
			}
			else if (op == 6) {
				ma.v = mb.v;
				ma.f = mb.f;
				if (G::cca)
					ma.a = mb.a;
				C& r = (a = static_cast<const C&>(b));
				if (&r != &a)
					fail("the assignment does not return its left operand");
				verify<A>(b, mb, "the source");
				use<A>(a, ma, "the target");
				use<A>(b, mb, "the source after the target has changed");
				verify<A>(a, ma, "the target after the source has changed");
			}
			else if (op == 7 || op == 13) {
				if (op == 13) {
					C d(std::move(b));
					adopt<A>(b, mb, "the source");
				}
				ma.v = mb.v;
				ma.f = mb.f;
				if (G::cma)
					ma.a = mb.a;
				C& r = (a = std::move(b));
				if (&r != &a)
					fail("the assignment does not return its left operand");
				verify<A>(a, ma, "the target");
				adopt<A>(b, mb, "the source");
				use<A>(b, mb, "the source");
				use<A>(a, ma, "the target after the source has changed");
				verify<A>(b, mb, "the source after the target has changed");
			}
			else if (op == 8 || op == 9) {
				std::swap(ma.v, mb.v);
				std::swap(ma.f, mb.f);
				if (op == 8 ? G::cs : true)
					std::swap(ma.a, mb.a);
				if (op == 8)
					A::swap(a, b);
				else {
					using std::swap;
					swap(a, b);
				}
				verify<A>(b, mb, "the right operand");
				use<A>(a, ma, "the left operand");
				use<A>(b, mb, "the right operand");
				verify<A>(a, ma, "the left operand after the right one has changed");
			}
			else {
				C* p = &a;
				if (op == 10)
					a = static_cast<const C&>(*p);
				else if (op == 11)
					a = std::move(*p);
				else
					A::swap(a, *p);
				use<A>(a, ma, "the container");
			}
		}
		if (mc::acc().live_elems != live)
			fail("%lld elements are not destroyed", static_cast<long long>(mc::acc().live_elems - live));
		if (mc::blocks().size() != nblocks)
			fail("%zu blocks are not freed", mc::blocks().size() - nblocks);
	}
	template<class A, class G>
	void pairs(Enum& e, const char* g)
	{
		static const int IDS[][2] = { { 1, 1 }, { 1, 2 }, { 100, 100 }, { 2, 100 } };
		for (int op = 0; op < NOPS; ++op)
			for (int k = 0; k < 4; ++k) {
				const int ia = IDS[k][0], ib = IDS[k][1];
				if (op == 8 && ia != ib && !G::cs)
					continue; // undefined, as for the standard containers
				if (op == 9 && ia != ib)
					continue;
				const bool binary = op >= 6 && !(op >= 10 && op <= 12);
				for (int sb = 0; sb < NSTATES; ++sb)
					for (int sa = 0; sa < NSTATES; ++sa) {
						if (!binary && (op <= 5 ? sa != 0 : sb != 0))
							continue;
						for (int f = 0; f < 2; ++f)
							if (e.begin("%s: %s, allocators %d and %d, left %s, right %s, functors %d", g, OPS[op], ia, ib, STATE[sa], STATE[sb], f))
								one<A, G>(op, sa, sb, f, 1 - f, ia, ib);
					}
			}
	}
	template<template<class> class A>
	void configs(Enum& e)
	{
		using F = Cfg<false, false, false>;
		using T = Cfg<true, true, true>;
		using C = Cfg<true, false, false>;
		using M = Cfg<false, true, false>;
		using S = Cfg<false, false, true>;
		pairs<A<F>, F>(e, "no propagation");
		pairs<A<T>, T>(e, "propagation");
		pairs<A<C>, C>(e, "propagation on copy assignment");
		pairs<A<M>, M>(e, "propagation on move assignment");
		pairs<A<S>, S>(e, "propagation on swap");
#ifdef FULL
		using CM = Cfg<true, true, false>;
		using CS = Cfg<true, false, true>;
		using MS = Cfg<false, true, true>;
		pairs<A<CM>, CM>(e, "propagation on copy and move assignment");
		pairs<A<CS>, CS>(e, "propagation on copy assignment and swap");
		pairs<A<MS>, MS>(e, "propagation on move assignment and swap");
#endif
	}
#define ALIAS(name, ...)                                                                                                                                               \
	template<class G>                                                                                                                                              \
	using name = __VA_ARGS__;
	ALIAS(DevT, Vec<seq::devector, G, Trk>)
	ALIAS(DevI, Vec<seq::devector, G, int>)
	ALIAS(TieT, Vec<Tiered, G, Trk>)
	ALIAS(TieI, Vec<Tiered, G, int>)
	ALIAS(SeqT, Vec<Seq, G, Trk>)
	ALIAS(SeqI, Vec<Seq, G, int>)
	ALIAS(FlatS, Flat<G, false, Trk>)
	ALIAS(FlatM, Flat<G, true, int>)
	ALIAS(OrdS, Ordered<G, false, Trk>)
	ALIAS(OrdM, Ordered<G, true, int>)
	ALIAS(RadS, Radix<G, false, int>)
	ALIAS(RadM, Radix<G, true, Trk>)
	ALIAS(RHaS, RadixHash<G, false, Trk>)
	ALIAS(RHaM, RadixHash<G, true, int>)
	ALIAS(ConS, Conc<G, false, 2, Trk>)
	ALIAS(ConM, Conc<G, true, 0, int>)
	ALIAS(NonS, Conc<G, false, seq::no_concurrency, int>)
	ALIAS(Str0, Str<G, char, 0>)
	ALIAS(Str2, Str<G, char, 30>)
	ALIAS(StrW, Str<G, wchar_t, 0>)
}
int main(int argc, char** argv)
{
	using namespace mc;
#define ADD(name, text) add_enum(text, [](Enum& e) { configs<name>(e); })
#if PART == 1
	ADD(DevT, "devector");
	ADD(DevI, "devector of int");
#elif PART == 2
	ADD(TieT, "tiered_vector");
	ADD(TieI, "tiered_vector of int");
#elif PART == 3
	ADD(SeqT, "sequence");
	ADD(SeqI, "sequence of int");
#elif PART == 4
	ADD(FlatS, "flat_set");
	ADD(FlatM, "flat_map");
#elif PART == 5
	ADD(OrdS, "ordered_set");
	ADD(OrdM, "ordered_map");
#elif PART == 6
	ADD(RadS, "radix_set");
	ADD(RadM, "radix_map");
#elif PART == 7
	ADD(RHaS, "radix_hash_set");
	ADD(RHaM, "radix_hash_map");
#elif PART == 8
	ADD(ConS, "concurrent_set");
	ADD(ConM, "concurrent_map");
	ADD(NonS, "concurrent_set without concurrency");
#elif PART == 9
	ADD(Str0, "tiny_string");
	ADD(Str2, "tiny_string of 30 characters in place");
	ADD(StrW, "wide tiny_string");
#endif
	return main_(argc, argv);
}
