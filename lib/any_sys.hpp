#pragma once
// Histories of two hold_any objects against a (kind, value) model.
#include "elems.hpp"
#include <seq/any.hpp>
#include <memory>
#include <string>
namespace an
{
	using namespace mc;
	// small and not relocatable
	template<bool CanThrow>
	struct Small
	{
		int v;
		uint32_t tag;
		uint32_t mine() const { return uint32_t(reinterpret_cast<uintptr_t>(this)) ^ 0x5a17u; }
		void born(int x)
		{
			v = x;
			tag = mine();
			++acc().live_elems;
		}
		void use(const char* what) const
		{
			if (tag != mine())
				fail("small element %s: object at %p is not alive", what, static_cast<const void*>(this));
		}
		Small(int x = 0)
		{
			if (CanThrow)
				point(F_ELEM);
			born(x);
		}
		Small(const Small& o)
		{
			o.use("copied");
			if (CanThrow)
				point(F_ELEM);
			born(o.v);
		}
		Small(Small&& o) noexcept(!CanThrow)
		{
			o.use("moved");
			if (CanThrow)
				point(F_ELEM);
			born(o.v);
			o.v = -1;
		}
		Small& operator=(const Small& o)
		{
			use("assigned");
			o.use("assigned from");
			if (CanThrow)
				point(F_ELEM);
			v = o.v;
			return *this;
		}
		Small& operator=(Small&& o) noexcept(!CanThrow)
		{
			use("assigned");
			o.use("assigned from");
			if (CanThrow)
				point(F_ELEM);
			int x = o.v;
			o.v = -1;
			v = x;
			return *this;
		}
		~Small()
		{
			use("destroyed");
			tag = ~mine();
			--acc().live_elems;
		}
		int get() const
		{
			use("read");
			return v;
		}
		friend bool operator==(const Small& a, const Small& b) { return a.get() == b.get(); }
		friend bool operator<(const Small& a, const Small& b) { return a.get() < b.get(); }
	};
	struct BigPod
	{
		int v;
		int pad[19];
		BigPod(int x = 0) : v(x)
		{
			for (int i = 0; i < 19; ++i)
				pad[i] = x + i;
		}
		int get() const
		{
			for (int i = 0; i < 19; ++i)
				CHECK(pad[i] == v + i, "torn copy of a plain object");
			return v;
		}
		friend bool operator==(const BigPod& a, const BigPod& b) { return a.get() == b.get(); }
	};
	using UPtr = std::unique_ptr<Trk>;
	// conversions between values and int
	template<class T>
	struct Kind
	{
		static T mk(int v) { return make<T>(v); }
		static int rd(const T& x) { return mc::get(x); }
	};
	template<class S>
	struct StrKind
	{
		static S mk(int v)
		{
			Disarmed d;
			std::string s = std::to_string(v);
			if (v & 1)
				s = std::string(50, '0') + s;
			return S(s.data(), s.size());
		}
		static int rd(const S& s) { return s.empty() ? -1 : atoi(std::string(s.data(), s.size()).c_str()); }
	};
	template<>
	struct Kind<std::string> : StrKind<std::string>
	{
	};
	template<>
	struct Kind<seq::tstring> : StrKind<seq::tstring>
	{
	};
	template<>
	struct Kind<const char*>
	{
		static const char* mk(int v)
		{
			static const char* const t[] = { "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17", "18", "19", "20" };
			return t[v];
		}
		static int rd(const char* s) { return atoi(s); }
	};
	template<>
	struct Kind<UPtr>
	{
		static UPtr mk(int v)
		{
			Disarmed d;
			return UPtr(new Trk(v));
		}
		static int rd(const UPtr& p) { return p ? p->get() : -1; }
	};
	struct Nothing
	{
	};
	template<class... Ts>
	struct List
	{
		static constexpr size_t size = sizeof...(Ts);
		template<class F>
		static void each(F&& f)
		{
			int i = 0;
			(f(i++, static_cast<Ts*>(nullptr)), ...);
		}
	};
	template<class T>
	constexpr bool cp = std::is_copy_constructible<T>::value;
	inline const char* nm(int i)
	{
		static const char* const n[] = { "int", "double", "string", "tstring", "tracked", "small", "owner", "move only", "char*", "big plain", "unique_ptr", "throwing", "small throwing", "short" };
		return n[i];
	}
	using Kinds = List<int, double, std::string, seq::tstring, Trk, Small<false>, Own, MoveOnly, const char*, BigPod, UPtr, ThrMove, Small<true>, short>;

	template<class Any>
	struct Sys
	{
		using S = Sys;
		static constexpr int EMPTY = int(Kinds::size);
		static constexpr int N = EMPTY + 1;
		Any a, b;
		int ka, va, kb, vb;
		int next = 9;
		static void put(Any& x, int k, int v)
		{
			Kinds::each([&](int i, auto* t) {
				using T = std::remove_pointer_t<decltype(t)>;
				if (i == k)
					x = Any(Kind<T>::mk(v));
			});
		}
		// quick: every kind with every kind
		static int nseeds() { return N * N; }
		static std::string seed_name(int i) { return std::string(i / N == EMPTY ? "empty" : nm(i / N)) + "," + (i % N == EMPTY ? "empty" : nm(i % N)); }
		static int seed_depth(int i, bool thorough) { return !thorough && !(i / N == i % N || i / N == EMPTY) ? 1 : -1; }
		Sys(int seed)
		{
			ka = seed / N;
			kb = seed % N;
			va = ka == EMPTY ? 0 : 3;
			vb = kb == EMPTY ? 0 : 4;
			put(a, ka, va);
			put(b, kb, vb);
		}
		void check_one(const Any& x, int k, int v, const char* w)
		{
			Any& mx = const_cast<Any&>(x);
			CHECK(x.empty() == (k == EMPTY) && x.has_value() == (k != EMPTY) && bool(x) == (k != EMPTY), "%s: has_value %d, expected a %s", w, int(x.has_value()), k == EMPTY ? "empty object" : nm(k));
			if (k == EMPTY) {
				CHECK(x.type() == nullptr && x.type_id() == 0 && x.sizeof_type() == 0 && x.hash() == 0);
				int thrown = 0;
				try {
					(void)x.template cast<int>();
				}
				catch (const std::bad_cast&) {
					++thrown;
				}
				try {
					(void)mx.template cast<int&>();
				}
				catch (const std::bad_cast&) {
					++thrown;
				}
				CHECK(thrown == 2, "cast of an empty object");
				CHECK(seq::any_cast<int>(&x) == nullptr && seq::any_cast<int>(&mx) == nullptr);
				return;
			}
			Kinds::each([&](int i, auto* t) {
				using T = std::remove_pointer_t<decltype(t)>;
				CHECK((x.type() == Any::template get_type<T>()) == (i == k), "%s: type", w);
				if (i == k) {
					CHECK(x.type_id() == seq::get_type_id<T>() && x.sizeof_type() == sizeof(T));
					const T& r = x.template cast<const T&>();
					T& m = mx.template cast<T&>();
					CHECK(&r == &m && static_cast<const void*>(&r) == x.data() && &seq::any_cast<T&>(mx) == &m && &seq::any_cast<const T&>(x) == &m, "%s: casts designate different objects", w);
					CHECK(seq::any_cast<T>(&x) == &m && seq::any_cast<T>(&mx) == &m, "%s: any_cast of a pointer to the object holding a %s", w, nm(k));
					CHECK(Kind<T>::rd(r) == v, "%s: holds the %s %d, expected %d", w, nm(k), Kind<T>::rd(r), v);
					CHECK(reinterpret_cast<uintptr_t>(&r) % alignof(T) == 0, "%s: misaligned", w);
					if constexpr (cp<T>) {
						T c = x.template cast<T>();
						CHECK(Kind<T>::rd(c) == v);
					}
				}
				else {
					// pointers and references to other types fail
					CHECK(seq::any_cast<T>(&x) == nullptr && seq::any_cast<T>(&mx) == nullptr);
					try {
						(void)mx.template cast<T&>();
						fail("cast of a %s to a reference to another type", nm(k));
					}
					catch (const std::bad_cast&) {
					}
				}
			});
			try {
				(void)x.template cast<Nothing>();
				fail("cast of a %s to an unrelated type", nm(k));
			}
			catch (const std::bad_cast&) {
			}
		}
		void check()
		{
			check_one(a, ka, va, "first");
			check_one(b, kb, vb, "second");
			const Any &ca = a, &cb = b;
			if (ka == EMPTY || kb == EMPTY) {
				CHECK((ca == cb) == (ka == kb) && (ca != cb) == (ka != kb), "equality with an empty object");
				CHECK((ca < cb) == (ka == EMPTY && kb != EMPTY) && (ca > cb) == (kb == EMPTY && ka != EMPTY) && (ca <= cb) == (ka == EMPTY) && (ca >= cb) == (kb == EMPTY), "order with an empty object");
			}
		}
		uint64_t fingerprint()
		{
			Fp f;
			f.add(uint64_t(ka * 64 + kb));
			f.add(uint64_t(va * 1000 + vb + 5));
			f.add(uint64_t(acc().live_blocks));
			return f.h;
		}
		static void observe(const Any& x, int& k, int& v)
		{
			k = EMPTY;
			v = 0;
			Kinds::each([&](int i, auto* t) {
				using T = std::remove_pointer_t<decltype(t)>;
				if (x.type() == Any::template get_type<T>()) {
					k = i;
					v = Kind<T>::rd(x.template cast<const T&>());
				}
			});
			CHECK(x.empty() == (k == EMPTY));
		}
		// after a failed operation, each object is as it was, empty, or holds a moved from value
		void resync()
		{
			int k, v;
			observe(a, k, v);
			CHECK(k == ka || k == EMPTY || k == kb, "after the exception, the first object holds a %s", nm(k));
			ka = k;
			va = v;
			observe(b, k, v);
			kb = k;
			vb = v;
		}
		template<class F>
		static void refused(F f, const char* what)
		{
			try {
				f();
			}
			catch (const std::bad_function_call&) {
				return;
			}
			fail("%s of a move only value does not throw", what);
		}
		static bool copyable(int k) { return k == EMPTY || (k != 7 && k != 10); }
		static void ops(std::vector<Op<Sys>>& o)
		{
			auto add = [&](std::string n, std::function<bool(S&)> f, int fl = 0) { o.push_back(Op<S>{ n, f, fl }); };
			Kinds::each([&](int i, auto* t) {
				using T = std::remove_pointer_t<decltype(t)>;
				using K = Kind<T>;
				int deep = i == 2 || i == 5 || i == 11 ? DEEP : 0;
				if (cp<T>)
					add(std::string("a = const ") + nm(i), [i](S& s) {
						if constexpr (cp<T>) {
							T x = K::mk(s.next);
							A([&] { s.a = static_cast<const T&>(x); });
							CHECK(K::rd(x) == s.next);
							s.ka = i;
							s.va = s.next++;
						}
						return true;
					}, deep);
				add(std::string("a = ") + nm(i) + "&&", [i](S& s) {
					T x = K::mk(s.next);
					A([&] { s.a = std::move(x); });
					s.ka = i;
					s.va = s.next++;
					return true;
				}, deep);
				add(std::string("a = Any(") + nm(i) + ")", [i](S& s) {
					T x = K::mk(s.next);
					A([&] { s.a = Any(std::move(x)); });
					s.ka = i;
					s.va = s.next++;
					return true;
				});
				if (cp<T>)
					add(std::string("a = const Any(") + nm(i) + ")", [i](S& s) {
						if constexpr (cp<T>) {
							T x = K::mk(s.next);
							const Any y = A([&] { return Any(static_cast<const T&>(x)); });
							A([&] { s.a = y; });
							s.check_one(y, i, s.next, "source of the assignment");
							s.ka = i;
							s.va = s.next++;
						}
						return true;
					});
				add(std::string("a.emplace<") + nm(i) + ">", [i](S& s) {
					T x = K::mk(s.next);
					T& r = A([&]() -> T& { return s.a.template emplace<T>(std::move(x)); });
					s.ka = i;
					s.va = s.next++;
					CHECK(&r == &s.a.template cast<T&>());
					return true;
				}, deep);
				add(std::string("make_any<") + nm(i) + ">", [i](S& s) {
					T x = K::mk(s.next);
					s.a = A([&] { return seq::make_any<Any, T>(std::move(x)); });
					s.ka = i;
					s.va = s.next++;
					return true;
				}, NOFAULT);
				add(std::string("modify a as ") + nm(i), [i](S& s) {
					if (s.ka != i)
						return false;
					s.a.template cast<T&>() = K::mk(s.next);
					s.va = s.next++;
					return true;
				}, NOFAULT);
				add(std::string("move out of a as ") + nm(i), [i](S& s) {
					if (s.ka != i)
						return false;
					T x = std::move(s.a.template cast<T&>());
					CHECK(K::rd(x) == s.va);
					s.a = std::move(x);
					return true;
				}, NOFAULT);
			});
			add("a.reset()", [](S& s) {
				A([&] { s.a.reset(); });
				s.ka = EMPTY;
				s.va = 0;
				return true;
			}, DEEP);
			add("b.reset()", [](S& s) {
				A([&] { s.b.reset(); });
				s.kb = EMPTY;
				s.vb = 0;
				return true;
			});
			add("a = b", [](S& s) {
				if (!copyable(s.kb)) {
					refused([&] { s.a = s.b; }, "copy");
					s.resync();
					return true;
				}
				A([&] { s.a = static_cast<const Any&>(s.b); });
				s.ka = s.kb;
				s.va = s.vb;
				return true;
			}, DEEP);
			add("b = a", [](S& s) {
				if (!copyable(s.ka)) {
					refused([&] { s.b = s.a; }, "copy");
					observe(s.b, s.kb, s.vb);
					return true;
				}
				A([&] { s.b = static_cast<const Any&>(s.a); });
				s.kb = s.ka;
				s.vb = s.va;
				return true;
			});
			add("a = move(b)", [](S& s) {
				A([&] { s.a = std::move(s.b); });
				s.ka = s.kb;
				s.va = s.vb;
				observe(s.b, s.kb, s.vb);
				return true;
			}, DEEP);
			add("b = move(a)", [](S& s) {
				A([&] { s.b = std::move(s.a); });
				s.kb = s.ka;
				s.vb = s.va;
				observe(s.a, s.ka, s.va);
				return true;
			});
			add("a = a", [](S& s) {
				if (!copyable(s.ka))
					return false;
				Any& x = s.a;
				A([&] { s.a = x; });
				return true;
			});
			add("a = move(a)", [](S& s) {
				Any& x = s.a;
				A([&] { s.a = std::move(x); });
				int k, v;
				observe(s.a, k, v);
				CHECK(k == s.ka, "type after a move to itself");
				s.va = v;
				return true;
			});
			for (int how = 0; how < 4; ++how)
				add(how == 0 ? "a.swap(b)" : how == 1 ? "swap(b,a)" : how == 2 ? "std::swap" : "a.swap(a)", [how](S& s) {
					if (how == 3) {
						Any& x = s.a;
						A([&] { s.a.swap(x); });
						return true;
					}
					A([&] {
						if (how == 0)
							s.a.swap(s.b);
						else if (how == 1)
							swap(s.b, s.a);
						else
							std::swap(s.a, s.b);
					});
					std::swap(s.ka, s.kb);
					std::swap(s.va, s.vb);
					return true;
				}, how == 0 ? DEEP : 0);
			add("copy construct", [](S& s) {
				if (!copyable(s.ka)) {
					refused([&] { Any x(static_cast<const Any&>(s.a)); }, "copy");
					return true;
				}
				Any x(A([&] { return Any(static_cast<const Any&>(s.a)); }));
				s.check_one(x, s.ka, s.va, "copy");
				x.reset();
				return true;
			});
			add("move construct", [](S& s) {
				Any x(A([&] { return Any(std::move(s.a)); }));
				s.check_one(x, s.ka, s.va, "moved");
				observe(s.a, s.ka, s.va);
				return true;
			});
			add("vector of objects", [](S& s) {
				std::vector<Any> v;
				A([&] {
					for (int i = 0; i < 5; ++i)
						v.push_back(Any(i));
					v.push_back(std::move(s.a));
					v.push_back(Any(std::string("x")));
					v.insert(v.begin(), std::move(s.b));
				});
				s.check_one(v[0], s.kb, s.vb, "in a vector");
				s.check_one(v[6], s.ka, s.va, "in a vector");
				s.a = std::move(v[6]);
				s.b = std::move(v[0]);
				return true;
			}, NOFAULT);
			// the source lives inside of the destination
			add("a = own part", [](S& s) {
				std::vector<std::string> v{ "zero", std::string(40, 'q') };
				Any x(v);
				A([&] { x = x.template cast<std::vector<std::string>&>()[1]; });
				CHECK(x.template cast<std::string&>() == v[1], "assigned a part of itself");
				Any y(v);
				A([&] { y = std::move(y.template cast<std::vector<std::string>&>()[1]); });
				CHECK(y.template cast<std::string&>() == v[1], "assigned a part of itself");
				(void)s;
				return true;
			}, NOFAULT);
			add("a = own object", [](S& s) {
				for (int how = 0; how < 2; ++how) {
					std::vector<Any> v;
					v.push_back(Any(1));
					v.push_back(Any(std::string(40, 'q')));
					Any x(std::move(v));
					A([&] {
						if (how)
							x = static_cast<const Any&>(x.template cast<std::vector<Any>&>()[1]);
						else
							x = std::move(x.template cast<std::vector<Any>&>()[1]);
					});
					CHECK(x.template cast<std::string&>() == std::string(40, 'q'), "assigned an object it holds");
				}
				(void)s;
				return true;
			}, NOFAULT);
		}
	};
}
namespace seq
{
	template<bool A, bool B, int T>
	struct is_hashable<mc::Tracked<A, B, T>> : std::false_type
	{
	};
	template<bool A>
	struct is_hashable<mc::Owner<A>> : std::false_type
	{
	};
	template<bool A>
	struct is_hashable<an::Small<A>> : std::false_type
	{
	};
	template<>
	struct is_hashable<mc::MoveOnly> : std::false_type
	{
	};
	template<>
	struct is_hashable<an::BigPod> : std::false_type
	{
	};
	template<>
	struct is_hashable<an::Nothing> : std::false_type
	{
	};
	template<class T>
	struct is_hashable<std::vector<T>> : std::false_type
	{
	};
	template<bool A>
	struct is_relocatable<an::Small<A>> : std::false_type
	{
	};
}
