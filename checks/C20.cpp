// C20: net_sort and net_sort_size sort stably for every input, buffer and iterator kind.
#define MC_MAIN
#include "algo.hpp"
using namespace alg;

namespace
{
	template<class T, template<class> class R>
	void sort_one(const int* v, int n, int buf)
	{
		R<T> r(v, n);
		static char note[64];
		snprintf(note, sizeof(note), "%s buffer %d", R<T>::name, buf);
		set_in(v, n, note);
		if (buf == B_OMIT) {
			seq::net_sort(r.begin(), r.end(), Cmp<T>());
		}
		else
			with_buffer<T>(buf, [&](auto b) {
				if (n & 1)
					seq::net_sort(r.begin(), r.end(), Cmp<T>(), b);
				else
					seq::net_sort_size(r.begin(), size_t(n), Cmp<T>(), b);
			});
		check_sorted(r.begin(), r.end(), v, n);
	}
	using Fn = void (*)(const int*, int, int);
	struct Kind
	{
		const char* name;
		Fn f;
	};
	const Kind K_INT[] = { { "int ptr", sort_one<int, RPtr> }, { "int list", sort_one<int, RList> }, { "int rev", sort_one<int, RRev> } };
	const Kind K_ALL[] = { { "int ptr", sort_one<int, RPtr> },     { "int list", sort_one<int, RList> },      { "int rev", sort_one<int, RRev> },
			       { "int deque", sort_one<int, RDeq> },   { "Trk ptr", sort_one<Trk, RPtr> },	  { "Trk list", sort_one<Trk, RList> },
			       { "Own ptr", sort_one<Own, RPtr> },     { "MoveOnly ptr", sort_one<MoveOnly, RPtr> }, { "MoveOnly deque", sort_one<MoveOnly, RDeq> },
			       { "ThrMove ptr", sort_one<ThrMove, RPtr> } };

	// every sequence of length n over `a` letters
	template<size_t NK>
	void all_seqs(Enum& e, const Kind (&ks)[NK], int a, int n, const std::vector<int>& bufs)
	{
		int fixed = std::max(0, n - (a == 2 ? 9 : a == 3 ? 6 : 4));
		uint64_t blocks = 1;
		for (int i = 0; i < fixed; ++i)
			blocks *= uint64_t(a);
		std::vector<int> k(static_cast<size_t>(n)), v(static_cast<size_t>(n));
		for (auto& kd : ks)
			for (int b : bufs)
				for (uint64_t blk = 0; blk < blocks; ++blk) {
					if (!e.begin("%s %d^%d buf %d block %llu", kd.name, a, n, b, static_cast<unsigned long long>(blk)))
						continue;
					uint64_t x = blk;
					for (int i = 0; i < fixed; ++i) {
						k[size_t(i)] = int(x % uint64_t(a));
						x /= uint64_t(a);
					}
					for (int i = fixed; i < n; ++i)
						k[size_t(i)] = 0;
					uint64_t cnt = 0;
					for (;;) {
						for (int i = 0; i < n; ++i)
							v[size_t(i)] = enc(k[size_t(i)], i);
						kd.f(v.data(), n, b);
						++cnt;
						int i = n - 1;
						while (i >= fixed && ++k[size_t(i)] == a)
							k[size_t(i--)] = 0;
						if (i < fixed)
							break;
					}
					e.evals(cnt - 1);
				}
	}

	// ---- concatenations of runs
	enum { ASC, DESC, CONST_, ZIG, SAW };
	struct RunSpec
	{
		int kind, len, off;
	};
	void append_run(std::vector<int>& k, const RunSpec& r)
	{
		for (int i = 0; i < r.len; ++i) {
			int x = 0;
			switch (r.kind) {
				case ASC: x = i / 2; break;
				case DESC: x = (r.len - i) / 2; break;
				case CONST_: x = 3; break;
				case ZIG: x = (i * 37) % 11; break;
				case SAW: x = (i % 2) * 40 + i / 2; break;
			}
			k.push_back(x + r.off);
		}
	}
	template<size_t NK>
	void runs(Enum& e, const Kind (&ks)[NK], int nruns, const std::vector<int>& kinds, const std::vector<int>& lens, const std::vector<int>& offs, const std::vector<int>& bufs)
	{
		std::vector<RunSpec> sp;
		for (int kd : kinds)
			for (int l : lens)
				for (int o : offs)
					sp.push_back(RunSpec{ kd, l, o });
		uint64_t tot = 1;
		for (int i = 0; i < nruns; ++i)
			tot *= sp.size();
		const uint64_t chunk = 32;
		for (auto& kd : ks)
			for (int b : bufs)
				for (uint64_t c = 0; c < tot; c += chunk) {
					if (!e.begin("%s %d runs of %zu kinds buf %d from %llu", kd.name, nruns, sp.size(), b, static_cast<unsigned long long>(c)))
						continue;
					for (uint64_t q = c; q < std::min(tot, c + chunk); ++q) {
						std::vector<int> k;
						uint64_t x = q;
						for (int i = 0; i < nruns; ++i) {
							append_run(k, sp[x % sp.size()]);
							x /= sp.size();
						}
						number(k);
						int bs = b;
						if (b >= 1000) // fraction of the size
							bs = int(k.size()) / (b - 1000);
						kd.f(k.data(), int(k.size()), bs);
					}
					e.evals(chunk - 1);
				}
	}

	// ---- a sorted (or reverse sorted, or block ordered) range with one element moved from i to j
	template<size_t NK>
	void displaced(Enum& e, const Kind (&ks)[NK], int n, int base, int stride, const std::vector<int>& bufs)
	{
		for (auto& kd : ks)
			for (int b : bufs)
				for (int i = 0; i < n; i += stride) {
					if (!e.begin("%s displaced n=%d base %d buf %d i=%d", kd.name, n, base, b, i))
						continue;
					int bs = b >= 1000 ? n / (b - 1000) : b;
					for (int j = 0; j < n; j += stride) {
						std::vector<int> k;
						for (int x = 0; x < n; ++x)
							k.push_back(base == 0 ? x / 2 : base == 1 ? (n - x) / 3 : (x * 7) % n);
						int m = k[size_t(i)];
						k.erase(k.begin() + i);
						k.insert(k.begin() + j, m);
						number(k);
						kd.f(k.data(), n, bs);
					}
					e.evals(uint64_t(n / stride));
				}
	}

	// ---- blocks of 128: every assignment of a base and a pattern to each block
	template<size_t NK>
	void blocks128(Enum& e, const Kind (&ks)[NK], int nb, int nbase, int tail, const std::vector<int>& bufs)
	{
		int opts = nbase * 3;
		uint64_t tot = 1;
		for (int i = 0; i < nb; ++i)
			tot *= uint64_t(opts);
		for (auto& kd : ks)
			for (int b : bufs)
				for (uint64_t c = 0; c < tot; c += 16) {
					if (!e.begin("%s %d blocks of 128 + %d buf %d from %llu", kd.name, nb, tail, b, static_cast<unsigned long long>(c)))
						continue;
					for (uint64_t q = c; q < std::min(tot, c + 16); ++q) {
						std::vector<int> k;
						uint64_t x = q;
						for (int i = 0; i < nb + (tail ? 1 : 0); ++i) {
							int o = int(x % uint64_t(opts));
							x /= uint64_t(opts);
							int base = (o % nbase) * 64, pat = o / nbase;
							for (int t = 0; t < (i == nb ? tail : 128); ++t)
								k.push_back(base + (pat == 0 ? (t * 61) % 128 : pat == 1 ? (t * 37) % 19 : t));
						}
						number(k);
						int bs = b >= 1000 ? int(k.size()) / (b - 1000) : b;
						kd.f(k.data(), int(k.size()), bs);
					}
					e.evals(15);
				}
	}
	// ---- large ranges: several passes of the outer merge
	template<size_t NK>
	void large(Enum& e, const Kind (&ks)[NK], const std::vector<int>& sizes, const std::vector<int>& mul, const std::vector<int>& mod, const std::vector<int>& bufs)
	{
		for (auto& kd : ks)
			for (int n : sizes)
				for (int b : bufs)
					for (int a : mul)
						for (int m : mod) {
							if (!e.begin("%s large n=%d buf %d (i*%d)%%%d", kd.name, n, b, a, m))
								continue;
							std::vector<int> k;
							for (int i = 0; i < n; ++i)
								k.push_back(int((int64_t(i) * a + (int64_t(i) * i >> 3)) % m));
							number(k);
							kd.f(k.data(), n, b >= 1000 ? n / (b - 1000) : b);
						}
	}

	// ---- exceptions
	template<class T, template<class> class R>
	void faults(Enum& e, const char* name, const std::vector<int>& ns, int mask)
	{
		for (int n : ns)
			for (int pat = 0; pat < 6; ++pat)
				for (int buf : std::vector<int>{ 0, 1, 8, 1001, B_DEFAULT, B_TINY }) {
					if (!e.begin("%s faults n=%d pattern %d buf %d", name, n, pat, buf))
						continue;
					std::vector<int> k;
					for (int i = 0; i < n; ++i)
						k.push_back(pat == 0 ? n - i : pat == 1 ? (i * 7) % n : pat == 2 ? i : pat == 3 ? (i * 5) % 3 : pat == 4 ? (i + n / 2) % n : (i < n / 3 ? i : n - i));
					number(k);
					int bs = buf >= 1000 ? n : buf;
					static char note[64];
					for (int64_t f = 1;; ++f) {
						snprintf(note, sizeof(note), "%s buffer %d, fault point %d", R<T>::name, bs, int(f));
						set_in(k.data(), n, note);
						int64_t blocks = acc().live_blocks, elems = acc().live_elems;
						bool fired = false, caught = false;
						{
							R<T> r(k.data(), n);
							acc().count = 0;
							acc().fired = 0;
							acc().mask = mask;
							acc().fail_at = f;
							auto work = [&](auto b) {
								try {
									Armed a;
									if (n & 1)
										seq::net_sort(r.begin(), r.end(), Cmp<T>(), b);
									else
										seq::net_sort_size(r.begin(), size_t(n), Cmp<T>(), b);
								}
								catch (const Fault&) {
									caught = true;
								}
								catch (const std::bad_alloc&) {
									caught = true;
								}
							};
							with_buffer<T>(bs, work);
							fired = acc().fired != 0;
							acc().fail_at = 0;
							acc().mask = F_ALLOC | F_ELEM | F_FUNC;
							if (fired && !caught)
								bad("the exception did not reach the caller");
							if (!fired)
								check_sorted(r.begin(), r.end(), k.data(), n);
							else if (!std::is_same<T, int>::value) {
								// what remains in the range: every element at most once, nothing foreign
								std::vector<char> seen(size_t(n), 0);
								for (auto it = r.begin(); it != r.end(); ++it) {
									int x = get(*it);
									if (x < 0)
										continue;
									int id = id_of(x);
									if (id >= n || k[size_t(id)] != x)
										bad("after the exception the range holds a foreign element");
									if (seen[size_t(id)]++)
										bad("after the exception an element is duplicated");
								}
							}
							else if (acc().fired == F_ALLOC) {
								int i = 0;
								for (auto it = r.begin(); it != r.end(); ++it, ++i)
									if (get(*it) != k[size_t(i)])
										bad("the range changed although the buffer could not be allocated");
							}
						}
						if (acc().live_elems != elems)
							bad("elements leaked or destroyed twice after an exception");
						if (acc().live_blocks != blocks)
							bad("memory leaked after an exception");
						e.evals(1);
						sh()->faults += fired;
						if (!fired)
							break;
					}
				}
	}
}

#if !defined(PART) || PART == 1
static void exhaustive(Enum& e)
{
	const bool th = e.thorough();
	// below 16 elements: insertion sort, no buffer involved
	for (int n = 0; n <= 6; ++n)
		all_seqs(e, K_ALL, 4, n, { 0 });
	for (int n = 7; n <= (th ? 9 : 8); ++n)
		all_seqs(e, K_INT, 4, n, { 0 });
	for (int n = 9; n <= 15; ++n)
		all_seqs(e, K_INT, 2, n, { B_OMIT });
	// 16 and more: networks, runs and merges
	all_seqs(e, K_INT, 2, 16, { 0, 1, 3, 8, 16, B_DEFAULT });
	all_seqs(e, K_INT, 2, 17, { 0, 8, 9 });
	const Kind own[] = { { "Own ptr", sort_one<Own, RPtr> }, { "Trk ptr", sort_one<Trk, RPtr> } };
	if (!th)
		return;
	all_seqs(e, own, 2, 16, { 0, 4, 8, 16 });
	for (int n = 18; n <= 20; ++n)
		all_seqs(e, K_INT, 2, n, { 0, 2, 8, 10, 20, B_TINY });
	all_seqs(e, K_INT, 3, 13, { 0 });
	const Kind one[] = { { "int ptr", sort_one<int, RPtr> } };
	all_seqs(e, one, 3, 16, { 0, 8, 16 });
	all_seqs(e, one, 2, 24, { 0, 12 });
}
#endif
#if !defined(PART) || PART == 2
static void structured(Enum& e)
{
	const bool th = e.thorough();
	const std::vector<int> kinds = { ASC, DESC, CONST_, ZIG }, lens = { 1, 7, 8, 9, 30, 64, 130 }, offs = { 0, 3, 40 };
	runs(e, K_ALL, 1, { ASC, DESC, CONST_, ZIG, SAW }, { 1, 2, 15, 16, 17, 63, 64, 127, 128, 129, 255, 256, 257, 600 }, { 0 }, { 0, 1, 8, 1001, 1002, B_DEFAULT, B_MEDIUM, B_SMALL, B_TINY, B_OMIT });
	runs(e, K_ALL, 2, kinds, { 1, 8, 9, 30, 130 }, offs, { 0, 5, 1002, B_DEFAULT });
	runs(e, K_INT, 2, kinds, lens, offs, { 0, 1, 8, 1001, 1002, 1004, B_DEFAULT, B_MEDIUM, B_SMALL, B_TINY });
	const Kind two[] = { { "int ptr", sort_one<int, RPtr> }, { "int list", sort_one<int, RList> } };
	runs(e, two, 3, kinds, { 1, 8, 30 }, offs, { 0, 8, 1002 });
	runs(e, two, 4, { ASC, DESC }, { 1, 9, 30 }, { 0, 8 }, { 0, 1001, 1002 });
	runs(e, two, 5, { ASC, DESC }, { 1, 20 }, { 0, 6 }, { 0, 1002 });
	runs(e, two, 5, { ASC, DESC }, { 5, 40 }, { 0, 12 }, { 1001, 1004 });
	if (th) {
		runs(e, two, 3, kinds, lens, offs, { 0, 8, 1001, 1002, 1008 });
		runs(e, K_ALL, 4, { ASC, DESC, ZIG }, { 1, 9, 30 }, { 0, 8 }, { 0, 8, 1002 });
		runs(e, two, 6, { ASC, DESC }, { 1, 9, 40 }, { 0, 8 }, { 0, 1002 });
	}
	for (int n : { 16, 17, 24, 31, 33, 64, 100, 127, 128, 129, 150, 260 })
		for (int base = 0; base < 3; ++base)
			displaced(e, two, n, base, th ? 1 : n > 64 ? 3 : 1, { 0, 1002 });
	if (th)
		for (int n : { 20, 64, 128, 150 })
			for (int base = 0; base < 3; ++base)
				displaced(e, K_ALL, n, base, 2, { 0, 8, 1002, B_DEFAULT });
	blocks128(e, two, 2, 3, 0, { 0, 64, 128, 1001, 1002 });
	blocks128(e, two, 2, 3, 70, { 0, 128, 1002 });
	blocks128(e, two, 3, 2, 5, { 128, 1001, 1002 });
	if (th) {
		blocks128(e, two, 4, 2, 0, { 0, 128, 1001, 1002 });
		blocks128(e, two, 4, 2, 9, { 1002 });
		blocks128(e, two, 5, 2, 0, { 1002 });
	}
	const Kind big[] = { { "int ptr", sort_one<int, RPtr> }, { "Own ptr", sort_one<Own, RPtr> } };
	large(e, big, th ? std::vector<int>{ 8191, 8192, 8193, 8200, 8319, 8320, 8321, 12345, 16384, 16385, 16500, 24700 } : std::vector<int>{ 8192, 8193, 8321, 16500 }, { 1, 7, 97, 4001 }, { 2, 17, 1000, 8209 },
	      th ? std::vector<int>{ 0, 128, 1001, 1002, 1016, B_DEFAULT, B_SMALL } : std::vector<int>{ 0, 1016, B_DEFAULT });
	const Kind lst[] = { { "int list", sort_one<int, RList> }, { "MoveOnly deque", sort_one<MoveOnly, RDeq> } };
	large(e, lst, { 8193, 8321 }, { 7, 4001 }, { 17, 8209 }, { 200, 1002 });
}
#endif
#if !defined(PART) || PART == 3
static void throwing(Enum& e)
{
	std::vector<int> ns = { 3, 9, 16, 20, 40, 130 };
	if (e.thorough())
		ns.insert(ns.end(), { 17, 64, 128, 150, 300, 700 });
	faults<ThrMove, RPtr>(e, "ThrMove ptr", ns, F_ALLOC | F_ELEM | F_FUNC);
	faults<ThrMove, RList>(e, "ThrMove list", ns, F_ALLOC | F_ELEM | F_FUNC);
	faults<Trk, RPtr>(e, "Trk ptr", ns, F_ALLOC | F_FUNC);
	faults<MoveOnly, RDeq>(e, "MoveOnly deque", ns, F_ALLOC | F_FUNC);
	faults<Own, RPtr>(e, "Own ptr", ns, F_ALLOC | F_FUNC);
	faults<int, RPtr>(e, "int ptr", ns, F_ALLOC | F_FUNC);
	faults<int, RList>(e, "int list", ns, F_ALLOC | F_FUNC);
}
#endif
int main(int argc, char** argv)
{
#if !defined(PART) || PART == 1
	add_enum("every sequence", exhaustive);
#endif
#if !defined(PART) || PART == 2
	add_enum("structured", structured);
#endif
#if !defined(PART) || PART == 3
	add_enum("throwing", throwing);
#endif
	return main_(argc, argv);
}
