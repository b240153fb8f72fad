// Instrumented element types and allocators.
#pragma once
#include "mc.hpp"
#include <seq/type_traits.hpp>
#include <type_traits>

namespace mc
{
	inline uint32_t& val_mask()
	{
		static uint32_t m = 0;
		return m;
	}
	// Not relocatable: remembers its own address; any bitwise move, double construction, double
	// destruction or use outside its lifetime is detected.
	// CanThrow: copy / value construction and assignment are fault points (moves never throw).
	// MoveThrow: moves are fault points as well.
	template<bool CanThrow, bool MoveThrow, int Tag = 0>
	struct Tracked
	{
		static constexpr uint32_t ALIVE = 0xA11FE000u, DEAD = 0xDEADDEADu;
		const void* self;
		uint32_t magic;
		int v;
		void born(int x)
		{
			v = x;
			magic = ALIVE;
			self = this;
			++acc().live_elems;
		}
		void use(const char* what) const
		{
			if (magic != ALIVE || self != this)
				fail("element %s: object at %p is not alive (magic %x, constructed at %p)", what, static_cast<const void*>(this), magic, self);
		}
		Tracked()
		{
			if (CanThrow)
				point(F_ELEM);
			born(0);
		}
		Tracked(int x)
		{
			if (CanThrow)
				point(F_ELEM);
			born(x);
		}
		Tracked(const Tracked& o)
		{
			o.use("copied from");
			if (CanThrow)
				point(F_ELEM);
			int x = o.v;
			born(x);
		}
		Tracked(Tracked&& o) noexcept(!MoveThrow)
		{
			o.use("moved from");
			if (MoveThrow)
				point(F_ELEM);
			int x = o.v;
			o.v = -1;
			born(x);
		}
		Tracked& operator=(const Tracked& o)
		{
			use("assigned");
			o.use("assigned from");
			if (CanThrow)
				point(F_ELEM);
			v = o.v;
			return *this;
		}
		Tracked& operator=(Tracked&& o) noexcept(!MoveThrow)
		{
			use("assigned");
			o.use("move-assigned from");
			if (MoveThrow)
				point(F_ELEM);
			int x = o.v;
			o.v = -1;
			v = x;
			return *this;
		}
		~Tracked()
		{
			use("destroyed");
			magic = DEAD;
			self = nullptr;
			--acc().live_elems;
		}
		int get() const
		{
			use("read");
			return v;
		}
		friend bool operator==(const Tracked& a, const Tracked& b) { return a.get() == b.get(); }
		friend bool operator!=(const Tracked& a, const Tracked& b) { return a.get() != b.get(); }
		friend bool operator<(const Tracked& a, const Tracked& b) { return a.get() < b.get(); }
		friend bool operator>(const Tracked& a, const Tracked& b) { return a.get() > b.get(); }
		friend bool operator<=(const Tracked& a, const Tracked& b) { return a.get() <= b.get(); }
		friend bool operator>=(const Tracked& a, const Tracked& b) { return a.get() >= b.get(); }
	};
	using Trk = Tracked<false, false>;
	using Thr = Tracked<true, false>;
	using ThrMove = Tracked<true, true>;

	// Bitwise relocatable but owning: a bitwise copy without giving up the source is a double free,
	// a forgotten one is a leak.
	template<bool CanThrow>
	struct Owner
	{
		int* p;
		static int* mk(int x)
		{
			if (CanThrow)
				point(F_ELEM);
			Disarmed d;
			++acc().live_elems;
			return new int(x);
		}
		Owner() : p(mk(0)) {}
		Owner(int x) : p(mk(x)) {}
		Owner(const Owner& o) : p(mk(o.get())) {}
		Owner(Owner&& o) noexcept : p(o.p) { o.p = nullptr; }
		Owner& operator=(const Owner& o)
		{
			if (this != &o) {
				int* n = mk(o.get());
				rel();
				p = n;
			}
			return *this;
		}
		Owner& operator=(Owner&& o) noexcept
		{
			if (this != &o) {
				rel();
				p = o.p;
				o.p = nullptr;
			}
			return *this;
		}
		void rel()
		{
			if (p) {
				--acc().live_elems;
				delete p;
			}
			p = nullptr;
		}
		~Owner()
		{
			rel();
			p = nullptr;
		}
		int get() const { return p ? *p : -1; }
		friend bool operator==(const Owner& a, const Owner& b) { return a.get() == b.get(); }
		friend bool operator!=(const Owner& a, const Owner& b) { return a.get() != b.get(); }
		friend bool operator<(const Owner& a, const Owner& b) { return a.get() < b.get(); }
		friend bool operator>(const Owner& a, const Owner& b) { return a.get() > b.get(); }
		friend bool operator<=(const Owner& a, const Owner& b) { return a.get() <= b.get(); }
		friend bool operator>=(const Owner& a, const Owner& b) { return a.get() >= b.get(); }
	};
	using Own = Owner<false>;
	using OwnThr = Owner<true>;

	// Move only
	struct MoveOnly
	{
		Trk t;
		MoveOnly(int x) : t(x) {}
		MoveOnly() : t(0) {}
		MoveOnly(MoveOnly&&) = default;
		MoveOnly& operator=(MoveOnly&&) = default;
		int get() const { return t.get(); }
		friend bool operator==(const MoveOnly& a, const MoveOnly& b) { return a.get() == b.get(); }
		friend bool operator<(const MoveOnly& a, const MoveOnly& b) { return a.get() < b.get(); }
	};

	inline int get(int v) { return v; }
	inline int get(short v) { return v; }
	inline int get(char v) { return v; }
	inline int get(unsigned char v) { return v; }
	inline int get(long long v) { return int(v); }
	inline int get(unsigned v) { return int(v); }
	inline int get(unsigned long v) { return int(v); }
	inline int get(double v) { return int(v); }
	template<class T>
	inline auto get(const T& v) -> decltype(v.get())
	{
		return v.get();
	}
	template<class T>
	T make(int v)
	{
		Disarmed d;
		return T(v);
	}

	// ------------------------------------------------------------------ allocator
	// Every block remembers its allocator id and size; deallocating through an unequal allocator or
	// with another size is reported.
	struct BlockInfo
	{
		size_t bytes;
		int id;
	};
	inline std::unordered_map<void*, BlockInfo>& blocks()
	{
		static std::unordered_map<void*, BlockInfo>* m = new std::unordered_map<void*, BlockInfo>();
		return *m;
	}
	inline void* blk_alloc(size_t bytes, size_t align, int id)
	{
		if (bytes > (size_t(1) << 31))
			throw std::bad_alloc();
		point(F_ALLOC);
		Disarmed d;
		void* p = align > 16 ? ::operator new(bytes ? bytes : 1, std::align_val_t(align)) : ::operator new(bytes ? bytes : 1);
		++acc().quiet;
		blocks()[p] = BlockInfo{ bytes, id };
		--acc().quiet;
		return p;
	}
	inline void blk_free(void* p, size_t bytes, size_t align, int id)
	{
		Disarmed d;
		++acc().quiet;
		auto it = blocks().find(p);
		if (it == blocks().end())
			fail("deallocate(%p,%zu) of a block that is not allocated", p, bytes);
		if (it->second.bytes != bytes)
			fail("deallocate with size %zu of a block allocated with size %zu", bytes, it->second.bytes);
		if (it->second.id != id)
			fail("block allocated by allocator %d deallocated by allocator %d", it->second.id, id);
		blocks().erase(it);
		--acc().quiet;
		if (align > 16)
			::operator delete(p, std::align_val_t(align));
		else
			::operator delete(p);
	}

	// Propagation flags are template parameters. Stateful.
	template<class T, bool POCCA = false, bool POCMA = false, bool POCS = false>
	struct TAlloc
	{
		using value_type = T;
		using size_type = size_t;
		using difference_type = ptrdiff_t;
		using propagate_on_container_copy_assignment = std::integral_constant<bool, POCCA>;
		using propagate_on_container_move_assignment = std::integral_constant<bool, POCMA>;
		using propagate_on_container_swap = std::integral_constant<bool, POCS>;
		using is_always_equal = std::false_type;
		template<class U>
		struct rebind
		{
			using other = TAlloc<U, POCCA, POCMA, POCS>;
		};
		int id;
		TAlloc(int i = 0) noexcept : id(i) {}
		TAlloc(const TAlloc&) noexcept = default;
		TAlloc& operator=(const TAlloc&) noexcept = default;
		template<class U>
		TAlloc(const TAlloc<U, POCCA, POCMA, POCS>& o) noexcept : id(o.id)
		{
		}
		TAlloc select_on_container_copy_construction() const { return TAlloc(id >= 100 ? id + 1000 : id); }
		T* allocate(size_t n) { return static_cast<T*>(blk_alloc(n * sizeof(T), alignof(T), id)); }
		void deallocate(T* p, size_t n) noexcept { blk_free(p, n * sizeof(T), alignof(T), id); }
		template<class U>
		friend bool operator==(const TAlloc& a, const TAlloc<U, POCCA, POCMA, POCS>& b) noexcept
		{
			return a.id == b.id;
		}
		template<class U>
		friend bool operator!=(const TAlloc& a, const TAlloc<U, POCCA, POCMA, POCS>& b) noexcept
		{
			return a.id != b.id;
		}
	};

	// A single pass input iterator / a forward iterator over a vector, to exercise the non random access paths
	template<class T, class Cat>
	struct WrapIter
	{
		using iterator_category = Cat;
		using value_type = T;
		using difference_type = ptrdiff_t;
		using pointer = const T*;
		using reference = const T&;
		const T* p;
		WrapIter(const T* q = nullptr) : p(q) {}
		const T& operator*() const { return *p; }
		const T* operator->() const { return p; }
		WrapIter& operator++()
		{
			++p;
			return *this;
		}
		WrapIter operator++(int)
		{
			WrapIter r = *this;
			++p;
			return r;
		}
		WrapIter& operator--()
		{
			--p;
			return *this;
		}
		bool operator==(const WrapIter& o) const { return p == o.p; }
		bool operator!=(const WrapIter& o) const { return p != o.p; }
	};
	template<class T>
	using InIt = WrapIter<T, std::input_iterator_tag>;
	template<class T>
	using FwdIt = WrapIter<T, std::forward_iterator_tag>;
	template<class T>
	using BidIt = WrapIter<T, std::bidirectional_iterator_tag>;

	template<class T>
	std::vector<T> vec(std::initializer_list<int> l)
	{
		Disarmed d;
		std::vector<T> r;
		r.reserve(l.size());
		for (int i : l)
			r.emplace_back(i);
		return r;
	}
	template<class T>
	std::vector<T> vec_range(int n, int first, int step = 1)
	{
		Disarmed d;
		std::vector<T> r;
		r.reserve(size_t(n));
		for (int i = 0; i < n; ++i)
			r.emplace_back(first + i * step);
		return r;
	}
}
namespace seq
{
	template<bool C>
	struct is_relocatable<mc::Owner<C>>
	{
		static constexpr bool value = true;
	};
	template<bool A, bool B, int T>
	struct is_relocatable<mc::Tracked<A, B, T>>
	{
		static constexpr bool value = false;
	};
	template<>
	struct is_relocatable<mc::MoveOnly>
	{
		static constexpr bool value = false;
	};
}
