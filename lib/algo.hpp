// Shared parts of the algorithm harnesses (C20, C21).
//
// An item is an int: key order and identity in one word, laid out so that operator< on the item is
// the REVERSE of the wanted order: an algorithm that ignores the predicate gives the wrong result.
// The wanted stable order of items numbered from left to right is the descending order of the word.
#pragma once
#include "elems.hpp"
#include <seq/algorithm.hpp>
#include <list>
#include <deque>

namespace alg
{
	using namespace mc;
	constexpr int MAXK = 16383;
	inline int enc(int key, int id) { return ((MAXK - key) << 16) | (0xffff - id); }
	inline int key_of(int v) { return MAXK - (v >> 16); }
	inline int id_of(int v) { return 0xffff - (v & 0xffff); }

	// what is being checked, for the failure report
	inline const int*& in_v()
	{
		static const int* p = nullptr;
		return p;
	}
	inline int& in_n()
	{
		static int n = 0;
		return n;
	}
	inline const char*& in_note()
	{
		static const char* p = "";
		return p;
	}
	[[noreturn]] inline void bad(const char* what)
	{
		std::string s;
		for (int i = 0; i < in_n() && i < 400; ++i) {
			s += std::to_string(key_of(in_v()[i]));
			s += ' ';
		}
		fail("%s; %s; n=%d keys: %.3500s", what, in_note(), in_n(), s.c_str());
	}

	template<class T>
	struct Cmp
	{
		bool operator()(const T& a, const T& b) const
		{
			point(F_FUNC);
			int x = get(a), y = get(b);
			if (x < 0 || y < 0)
				bad("the predicate was applied to a moved-from or foreign element");
			return (x >> 16) > (y >> 16);
		}
	};

	template<class T>
	struct Arr // exactly n elements on the heap
	{
		T* p;
		int n;
		Arr(const int* v, int count) : n(count)
		{
			Disarmed d;
			p = static_cast<T*>(::operator new(sizeof(T) * size_t(n)));
			for (int i = 0; i < n; ++i)
				new (static_cast<void*>(p + i)) T(v ? v[i] : -1);
		}
		~Arr()
		{
			Disarmed d;
			for (int i = 0; i < n; ++i)
				p[i].~T();
			::operator delete(p);
		}
		Arr(const Arr&) = delete;
		T* begin() { return p; }
		T* end() { return p + n; }
	};

	// ---- ranges of the different iterator kinds
	template<class T>
	struct RPtr
	{
		static constexpr const char* name = "ptr";
		Arr<T> a;
		RPtr(const int* v, int n) : a(v, n) {}
		T* begin() { return a.p; }
		T* end() { return a.p + a.n; }
	};
	template<class T>
	struct RRev
	{
		static constexpr const char* name = "rev";
		static std::vector<int> rv(const int* v, int n)
		{
			Disarmed d;
			std::vector<int> r(v, v + n);
			std::reverse(r.begin(), r.end());
			return r;
		}
		Arr<T> a;
		RRev(const int* v, int n) : a(rv(v, n).data(), n) {}
		std::reverse_iterator<T*> begin() { return std::reverse_iterator<T*>(a.p + a.n); }
		std::reverse_iterator<T*> end() { return std::reverse_iterator<T*>(a.p); }
	};
	template<class T>
	struct RDeq
	{
		static constexpr const char* name = "deque";
		std::deque<T> d;
		RDeq(const int* v, int n)
		{
			Disarmed x;
			for (int i = 0; i < n; ++i)
				d.emplace_back(v[i]);
		}
		~RDeq()
		{
			Disarmed x;
			d.clear();
		}
		auto begin() { return d.begin(); }
		auto end() { return d.end(); }
	};
	template<class T>
	struct RList
	{
		static constexpr const char* name = "list";
		std::list<T> d;
		RList(const int* v, int n)
		{
			Disarmed x;
			for (int i = 0; i < n; ++i)
				d.emplace_back(v[i]);
		}
		~RList()
		{
			Disarmed x;
			d.clear();
		}
		auto begin() { return d.begin(); }
		auto end() { return d.end(); }
	};

	enum : int { B_DEFAULT = -1, B_MEDIUM = -2, B_SMALL = -3, B_TINY = -4, B_OMIT = -5 };

	// calls f(buffer object) with a buffer of exactly `bufsize` elements or one of the predefined ones
	template<class T, class F>
	void with_buffer(int bufsize, F f)
	{
		switch (bufsize) {
			case B_DEFAULT:
				f(seq::default_buffer);
				break;
			case B_MEDIUM:
				f(seq::medium_buffer);
				break;
			case B_SMALL:
				f(seq::small_buffer);
				break;
			case B_TINY:
				f(seq::tiny_buffer);
				break;
			default: {
				Arr<T> b(nullptr, bufsize);
				f(seq::buffer<T*>{ b.p, size_t(bufsize) });
			}
		}
	}

	// the range must hold the items of v (numbered from left to right) in stable sorted order
	template<class It>
	void check_sorted(It b, It e, const int* v, int n)
	{
		int i = 0;
		int64_t prev = int64_t(1) << 40;
		for (; b != e; ++b, ++i) {
			int x = get(*b);
			if (x < 0)
				bad("the result holds a moved-from element");
			int id = id_of(x);
			if (id >= n || v[id] != x)
				bad("the result holds an element that was not in the range");
			if (x >= prev)
				bad((x >> 16) > (prev >> 16) ? "the result is not sorted" : (x == prev ? "an element is duplicated" : "equivalent elements changed their relative order"));
			prev = x;
		}
		if (i != n)
			bad("wrong number of elements");
	}
	inline void number(std::vector<int>& keys)
	{
		for (size_t i = 0; i < keys.size(); ++i)
			keys[i] = enc(keys[i], int(i));
	}
	inline void set_in(const int* v, int n, const char* note)
	{
		in_v() = v;
		in_n() = n;
		in_note() = note;
	}
}
