// C28: tagged_pointer stores its pointer and its tag independently.
#define MC_MAIN
#include "mc.hpp"
#include <seq/tagged_pointer.hpp>

namespace
{
	using mc::Enum;
	template<class T>
	struct is_void_ptr : std::false_type
	{
	};
	template<seq::TagPointerType K, size_t A>
	struct is_void_ptr<seq::tagged_pointer<void, K, A>> : std::true_type
	{
	};
	struct Model
	{
		uintptr_t p, t;
	};

	template<class TP>
	struct Run
	{
		using pointer = typename TP::pointer;
		size_t align; // documented alignment
		std::vector<uintptr_t> ptrs, tags;
		uint64_t n = 0;

		void verify(TP& tp, Model m, const char* op)
		{
			uintptr_t mask = align - 1;
			const TP& c = tp;
			uintptr_t P = reinterpret_cast<uintptr_t>(tp.ptr()), CP = reinterpret_cast<uintptr_t>(c.ptr());
			CHECK(P == m.p && CP == m.p, "after %s the pointer is 0x%zx, not 0x%zx (alignment %zu)", op, size_t(P), size_t(m.p), align);
			CHECK(c.tag() == m.t && tp.tag() == m.t, "after %s the tag is %zu, not %zu (alignment %zu)", op, size_t(c.tag()), size_t(m.t), align);
			CHECK(c.full() == (m.p | m.t), "after %s the word is 0x%zx, not 0x%zx", op, size_t(c.full()), size_t(m.p | m.t));
			CHECK(reinterpret_cast<uintptr_t>(pointer(tp)) == m.p, "after %s the conversion to a pointer is wrong", op);
			CHECK(reinterpret_cast<uintptr_t>(static_cast<typename TP::const_pointer>(c)) == m.p, "after %s the conversion to a const pointer is wrong", op);
			CHECK(reinterpret_cast<uintptr_t>(tp.operator->()) == m.p && reinterpret_cast<uintptr_t>(c.operator->()) == m.p, "operator-> after %s", op);
			auto s = tp.split();
			auto cs = c.split();
			CHECK(reinterpret_cast<uintptr_t>(s.first) == m.p && reinterpret_cast<uintptr_t>(cs.first) == m.p, "split() pointer after %s", op);
			CHECK(s.second == m.t && cs.second == m.t, "split() tag after %s", op);
			if constexpr (is_void_ptr<TP>::value)
				CHECK(tp.rfull() == (m.p | m.t), "rfull() after %s", op);
			else if (m.p) {
				if (std::find(real.begin(), real.end(), m.p) != real.end()) {
					CHECK(reinterpret_cast<uintptr_t>(&*tp) == m.p && reinterpret_cast<uintptr_t>(&*c) == m.p, "operator* after %s", op);
				}
			}
			CHECK(TP::mask_low == mask && TP::mask_high == ~mask && (uintptr_t(1) << TP::tag_bits) == align, "masks for alignment %zu", align);
			TP copy(c);
			CHECK(copy.full() == c.full(), "copy after %s", op);
			TP other;
			other = c;
			CHECK(other.full() == c.full(), "assignment after %s", op);
		}
		std::vector<uintptr_t> real;

		void go(TP tp, Model m, int depth)
		{
			if (depth == 0)
				return;
			uintptr_t mask = align - 1;
			for (uintptr_t p : ptrs) {
				TP x(tp);
				x.set_ptr(reinterpret_cast<pointer>(p));
				++n;
				verify(x, { p, m.t }, "set_ptr");
				go(x, { p, m.t }, depth - 1);
			}
			for (uintptr_t t : tags) {
				TP x(tp);
				x.set_tag(t);
				++n;
				verify(x, { m.p, t & mask }, "set_tag");
				go(x, { m.p, t & mask }, depth - 1);
			}
			for (uintptr_t p : ptrs)
				for (uintptr_t t : tags) {
					TP x(tp);
					x.set(reinterpret_cast<pointer>(p), t);
					++n;
					verify(x, { p, t & mask }, "set");
					TP y(reinterpret_cast<pointer>(p), t);
					verify(y, { p, t & mask }, "construction");
					TP z(tp);
					uintptr_t w = z.set_full(p | (t & mask));
					CHECK(w == (p | (t & mask)), "set_full result");
					verify(z, { p, t & mask }, "set_full");
					++n;
					if (depth > 1 && t == tags.back())
						go(x, { p, t & mask }, depth - 1);
				}
		}
		void start(int depth)
		{
			TP d;
			verify(d, { 0, 0 }, "default construction");
			for (uintptr_t p : ptrs) {
				TP x(reinterpret_cast<pointer>(p));
				verify(x, { p, 0 }, "construction from a pointer");
			}
			go(d, { 0, 0 }, depth);
		}
	};

	alignas(4096) unsigned char arena[4 * 4096];

	template<class TP>
	void one(Enum& e, const char* name, size_t align, size_t elem)
	{
		if (align == 1 && false)
			return;
		int depth = e.thorough() ? 4 : 3;
		if (!e.begin("%s alignment %zu", name, align))
			return;
		Run<TP> r;
		r.align = align;
		size_t step = std::max(align, elem);
		for (size_t i = 0; i < 3; ++i)
			r.ptrs.push_back(reinterpret_cast<uintptr_t>(arena) + step * (2 * i + 1) % (3 * 4096));
		for (auto& p : r.ptrs)
			p &= ~uintptr_t(align - 1);
		r.real = r.ptrs;
		r.ptrs.push_back(0);
		r.ptrs.push_back(uintptr_t(0x7FFFFFFFF000ull) & ~uintptr_t(align - 1));
		// every tag when there are few, else each bit, the ends and a few patterns
		if (align <= 8)
			for (size_t t = 0; t < align; ++t)
				r.tags.push_back(t);
		else {
			for (size_t b = 1; b < align; b *= 2)
				r.tags.push_back(b);
			r.tags.push_back(0);
			r.tags.push_back(align - 1);
			r.tags.push_back((align - 1) & 0x5555);
		}
		// larger than what fits: only the low bits can be kept
		r.tags.push_back(align);
		r.tags.push_back(~uintptr_t(0));
		r.start(align <= 64 ? depth : 2);
		// the whole range of tags, one by one
		for (size_t t = 0; t < align; ++t) {
			TP x(reinterpret_cast<typename TP::pointer>(r.real[0]));
			x.set_tag(t);
			r.verify(x, { r.real[0], t }, "set_tag");
			x.set_ptr(reinterpret_cast<typename TP::pointer>(r.real[1]));
			r.verify(x, { r.real[1], t }, "set_ptr");
		}
		e.evals(r.n + align * 2);
	}
	struct alignas(32) A32
	{
		char c[32];
	};
	struct Node
	{
		void* a;
		int b;
	};
}

int main(int argc, char** argv)
{
	using namespace mc;
	using namespace seq;
	add_enum("histories of pointers and tags", [](Enum& e) {
		one<tagged_pointer<char>>(e, "char stack", alignof(char), 1);
		one<tagged_pointer<short>>(e, "short stack", alignof(short), 2);
		one<tagged_pointer<int>>(e, "int stack", alignof(int), 4);
		one<tagged_pointer<const int>>(e, "const int stack", alignof(int), 4);
		one<tagged_pointer<double, StackPointer>>(e, "double stack", alignof(double), 8);
		one<tagged_pointer<Node>>(e, "struct stack", alignof(Node), 16);
		one<tagged_pointer<A32>>(e, "aligned struct stack", 32, 32);
		one<tagged_pointer<char, HeapPointer>>(e, "char heap", alignof(std::max_align_t), 1);
		one<tagged_pointer<Node, HeapPointer>>(e, "struct heap", alignof(std::max_align_t), 16);
		one<tagged_pointer<void>>(e, "void stack", alignof(std::max_align_t), 1);
		one<tagged_pointer<void, HeapPointer>>(e, "void heap", alignof(std::max_align_t), 1);
		one<tagged_pointer<char, CustomAlignment, 2>>(e, "char custom", 2, 1);
		one<tagged_pointer<char, CustomAlignment, 4>>(e, "char custom", 4, 1);
		one<tagged_pointer<Node, CustomAlignment, 8>>(e, "struct custom", 8, 16);
		one<tagged_pointer<char, CustomAlignment, 64>>(e, "char custom", 64, 1);
		one<tagged_pointer<char, CustomAlignment, 1024>>(e, "char custom", 1024, 1);
		one<tagged_pointer<char, CustomAlignment, 4096>>(e, "char custom", 4096, 1);
		one<tagged_pointer<void, CustomAlignment, 2>>(e, "void custom", 2, 1);
		one<tagged_pointer<void, CustomAlignment, 8>>(e, "void custom", 8, 1);
		one<tagged_pointer<void, CustomAlignment, 32>>(e, "void custom", 32, 1);
		one<tagged_pointer<void, CustomAlignment, 4096>>(e, "void custom", 4096, 1);
	});
	return main_(argc, argv);
}
