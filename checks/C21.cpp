// C21: merge, inplace_merge, unique and reverse_descending.
#define MC_MAIN
#include "algo.hpp"
using namespace alg;

namespace
{
	// every non-decreasing sequence over `a` letters of length <= maxlen
	std::vector<std::vector<int>> multisets(int a, int maxlen, int minlen = 0)
	{
		std::vector<std::vector<int>> r;
		std::function<void(std::vector<int>&, int)> rec = [&](std::vector<int>& cur, int from) {
			if (int(cur.size()) >= minlen)
				r.push_back(cur);
			if (int(cur.size()) == maxlen)
				return;
			for (int k = from; k < a; ++k) {
				cur.push_back(k);
				rec(cur, k);
				cur.pop_back();
			}
		};
		std::vector<int> c;
		rec(c, 0);
		return r;
	}
	char g_note[160];

	// ---------------------------------------------------------------- merge
	template<class T>
	const T* cp(const T* p)
	{
		return p;
	}
	// v holds first range then second range (numbered left to right); merge into different outputs
	template<class T>
	void merge_one(const std::vector<int>& v, int n1, int kind)
	{
		const int n = int(v.size());
		snprintf(g_note, sizeof(g_note), "merge first range %d elements, kind %d", n1, kind);
		set_in(v.data(), n, g_note);
		Arr<T> a(v.data(), n1), b(v.data() + n1, n - n1);
		auto same = [&](auto& r, const int* w, int c) {
			int i = 0;
			for (auto& x : r)
				if (get(x) != w[i++])
					bad("merge changed an input range");
			if (i != c)
				bad("merge changed an input range");
		};
		if (kind == 0) {
			Arr<T> o(nullptr, n);
			T* e = seq::merge(a.p, a.p + n1, b.p, b.p + (n - n1), o.p, Cmp<T>());
			if (e != o.p + n)
				bad("merge returned a wrong iterator");
			check_sorted(o.begin(), o.end(), v.data(), n);
		}
		else if (kind == 1) {
			Arr<T> o(nullptr, n);
			std::list<T> la(a.begin(), a.end());
			if (seq::merge(la.begin(), la.end(), b.p, b.p + (n - n1), o.p, Cmp<T>()) != o.p + n)
				bad("merge returned a wrong iterator");
			check_sorted(o.begin(), o.end(), v.data(), n);
			same(la, v.data(), n1);
		}
		else if (kind == 2) {
			std::deque<T> o(static_cast<size_t>(n)), db(b.begin(), b.end());
			if (seq::merge(a.p, a.p + n1, db.begin(), db.end(), o.begin(), Cmp<T>()) != o.end())
				bad("merge returned a wrong iterator");
			check_sorted(o.begin(), o.end(), v.data(), n);
			same(db, v.data() + n1, n - n1);
		}
		else if (kind == 3) { // const pointers
			Arr<T> o(nullptr, n);
			T* e = seq::merge(cp(a.p), cp(a.p) + n1, cp(b.p), cp(b.p) + (n - n1), o.p, Cmp<T>());
			if (e != o.p + n)
				bad("merge returned a wrong iterator");
			check_sorted(o.begin(), o.end(), v.data(), n);
		}
		else { // move iterators
			Arr<T> o(nullptr, n);
			T* e = seq::merge(std::make_move_iterator(a.p), std::make_move_iterator(a.p + n1), std::make_move_iterator(b.p), std::make_move_iterator(b.p + (n - n1)), o.p, Cmp<T>());
			if (e != o.p + n)
				bad("merge returned a wrong iterator");
			check_sorted(o.begin(), o.end(), v.data(), n);
			return;
		}
		same(a, v.data(), n1);
		same(b, v.data() + n1, n - n1);
	}
	void merge_kinds(const std::vector<int>& v, int n1, int part)
	{
		if (part == 0) {
			for (int k = 0; k < 5; ++k)
				merge_one<int>(v, n1, k);
		}
		else if (part == 1)
			for (int k = 0; k < 5; ++k)
				merge_one<Trk>(v, n1, k);
		else
			for (int k = 0; k < 5; k += 2)
				merge_one<Own>(v, n1, k);
	}
	std::vector<int> join(const std::vector<int>& a, const std::vector<int>& b)
	{
		std::vector<int> k(a);
		k.insert(k.end(), b.begin(), b.end());
		number(k);
		return k;
	}
	void merge_pairs(Enum& e, int a, int len)
	{
		auto ms = multisets(a, len);
		for (int part = 0; part < 3; ++part)
			for (size_t i = 0; i < ms.size(); ++i) {
				if (!e.begin("merge every pair a=%d len=%d part %d first %zu", a, len, part, i))
					continue;
				for (auto& s : ms)
					merge_kinds(join(ms[i], s), int(ms[i].size()), part);
				e.evals(ms.size());
			}
	}
	// one range more than 32 times longer than the other
	void merge_unbalanced(Enum& e)
	{
		const int cs[] = { 0, 1, 9, 70 };
		auto small = multisets(9, e.thorough() ? 4 : 2);
		for (int code = 0; code < 256; ++code) {
			if (!e.begin("merge unbalanced %d", code))
				continue;
			std::vector<int> big;
			for (int l = 0, c = code; l < 4; ++l, c /= 4)
				big.insert(big.end(), size_t(cs[c % 4]), 2 * l + 1);
			for (auto& s : small) {
				merge_one<int>(join(s, big), int(s.size()), 0);
				merge_one<int>(join(big, s), int(big.size()), 0);
				if (s.size() < 2) {
					merge_one<Trk>(join(s, big), int(s.size()), 0);
					merge_one<Own>(join(big, s), int(big.size()), 4);
				}
			}
			e.evals(small.size() * 2);
		}
	}

	// ---------------------------------------------------------------- inplace_merge of two ranges
	template<class T, template<class> class R>
	void inplace_one(const int* v, int n, int n1, int buf)
	{
		R<T> r(v, n);
		snprintf(g_note, sizeof(g_note), "inplace_merge %s first range %d elements buffer %d", R<T>::name, n1, buf);
		set_in(v, n, g_note);
		auto m = r.begin();
		std::advance(m, n1);
		if (buf == B_OMIT)
			seq::inplace_merge(r.begin(), m, r.end(), Cmp<T>());
		else
			with_buffer<T>(buf, [&](auto b) { seq::inplace_merge(r.begin(), m, r.end(), Cmp<T>(), b); });
		check_sorted(r.begin(), r.end(), v, n);
	}
	using Fn = void (*)(const int*, int, int, int);
	struct Kind
	{
		const char* name;
		Fn f;
	};
	const Kind KS[] = { { "int ptr", inplace_one<int, RPtr> }, { "int list", inplace_one<int, RList> }, { "int rev", inplace_one<int, RRev> }, { "Trk ptr", inplace_one<Trk, RPtr> },
			    { "Own deque", inplace_one<Own, RDeq> }, { "MoveOnly list", inplace_one<MoveOnly, RList> } };

	void inplace_pairs(Enum& e, int a, int len, size_t kinds, const std::vector<int>& bufs)
	{
		auto ms = multisets(a, len);
		for (size_t kd = 0; kd < kinds; ++kd)
			for (int b : bufs)
				for (size_t i = 0; i < ms.size(); ++i) {
					if (!e.begin("inplace_merge every pair %s a=%d len=%d buf %d first %zu", KS[kd].name, a, len, b, i))
						continue;
					for (auto& s : ms) {
						auto v = join(ms[i], s);
						KS[kd].f(v.data(), int(v.size()), int(ms[i].size()), b);
					}
					e.evals(ms.size());
				}
	}
	void inplace_patterns(Enum& e)
	{
		const int ns[] = { 1, 2, 7, 8, 9, 20, 33, 64, 65, 100, 200 };
		const int as[] = { 0, 1, 2, 3, 40 };
		const int cs[] = { -250, -50, -8, -1, 0, 1, 2, 50, 150, 2500 };
		for (auto& kd : KS)
			for (int b : std::vector<int>{ 0, 1, 5, 16, 64, B_DEFAULT, B_SMALL })
				for (int n0 : ns)
					for (int n1 : ns) {
						if (!e.thorough() && &kd >= KS + 2 && (n0 > 65 || n1 > 65))
							continue;
						if (!e.begin("inplace_merge patterns %s buf %d %d+%d", kd.name, b, n0, n1))
							continue;
						uint64_t c = 0;
						for (int x : as)
							for (int y : as)
								for (int o : cs)
									for (int grp = 1; grp <= (e.thorough() ? 5 : 2); ++grp) {
										std::vector<int> p, q;
										for (int i = 0; i < n0; ++i)
											p.push_back(3000 + i / grp * x);
										for (int i = 0; i < n1; ++i)
											q.push_back(3000 + o + i / grp * y);
										auto v = join(p, q);
										kd.f(v.data(), int(v.size()), n0, b);
										++c;
									}
						e.evals(c);
					}
	}

	// ---------------------------------------------------------------- inplace_merge of a list of ranges
	template<class T, template<class> class R>
	void list_one(const std::vector<int>& v, const std::vector<int>& lens, int buf)
	{
		const int n = int(v.size());
		R<T> r(v.data(), n);
		int o = snprintf(g_note, sizeof(g_note), "inplace_merge list %s buffer %d lengths", R<T>::name, buf);
		for (int l : lens)
			if (o < 140)
				o += snprintf(g_note + o, sizeof(g_note) - size_t(o), " %d", l);
		set_in(v.data(), n, g_note);
		using It = decltype(r.begin());
		std::vector<It> its;
		It it = r.begin();
		its.push_back(it);
		for (int l : lens) {
			std::advance(it, l);
			its.push_back(it);
		}
		if (buf == B_OMIT)
			seq::inplace_merge(its.data(), its.size(), Cmp<T>());
		else
			with_buffer<T>(buf, [&](auto b) { seq::inplace_merge(its.data(), its.size(), Cmp<T>(), b); });
		check_sorted(r.begin(), r.end(), v.data(), n);
	}
	using LFn = void (*)(const std::vector<int>&, const std::vector<int>&, int);
	struct LKind
	{
		const char* name;
		LFn f;
	};
	const LKind LS[] = { { "int ptr", list_one<int, RPtr> }, { "Trk deque", list_one<Trk, RDeq> }, { "int rev", list_one<int, RRev> }, { "Own ptr", list_one<Own, RPtr> } };

	// every choice of one of `parts` for each of the k ranges
	void lists(Enum& e, const char* what, const std::vector<std::vector<int>>& parts, int k, size_t kinds, const std::vector<int>& bufs)
	{
		uint64_t tot = 1;
		for (int i = 0; i < k; ++i)
			tot *= parts.size();
		for (size_t kd = 0; kd < kinds; ++kd)
			for (int b : bufs)
				for (uint64_t c = 0; c < tot; c += 64) {
					if (!e.begin("list of %d ranges %s %s buf %d from %llu", k, what, LS[kd].name, b, static_cast<unsigned long long>(c)))
						continue;
					for (uint64_t q = c; q < std::min(tot, c + 64); ++q) {
						std::vector<int> v, lens;
						uint64_t x = q;
						for (int i = 0; i < k; ++i) {
							auto& p = parts[x % parts.size()];
							x /= parts.size();
							v.insert(v.end(), p.begin(), p.end());
							lens.push_back(int(p.size()));
						}
						number(v);
						LS[kd].f(v, lens, b >= 1000 ? int(v.size()) / (b - 1000) : b);
					}
					e.evals(63);
				}
	}

	// ---------------------------------------------------------------- unique
	template<int HM>
	struct H
	{
		template<class T>
		size_t operator()(const T& t) const
		{
			int v = get(t);
			if (v < 0)
				bad("unique hashed a moved-from element");
			size_t k = size_t(key_of(v));
			return HM == 0 ? k * 0x9E3779B97F4A7C15ull : HM == 1 ? 7 : HM == 2 ? (k & 1) << 20 : k;
		}
	};
	struct Eq
	{
		template<class T>
		bool operator()(const T& a, const T& b) const
		{
			int x = get(a), y = get(b);
			if (x < 0 || y < 0)
				bad("unique compared a moved-from element");
			return key_of(x) == key_of(y);
		}
	};
	template<class T, template<class> class R, int HM>
	void unique_one(const int* v, int n)
	{
		R<T> r(v, n);
		snprintf(g_note, sizeof(g_note), "unique %s hash %d", R<T>::name, HM);
		set_in(v, n, g_note);
		auto e = seq::unique(r.begin(), r.end(), H<HM>(), Eq());
		std::vector<int> want;
		for (int i = 0; i < n; ++i) {
			bool dup = false;
			for (int w : want)
				dup = dup || key_of(w) == key_of(v[i]);
			if (!dup)
				want.push_back(v[i]);
		}
		size_t i = 0;
		for (auto it = r.begin(); it != e; ++it, ++i) {
			if (i >= want.size())
				bad("unique kept a duplicate");
			if (get(*it) != want[i])
				bad("unique kept a wrong element");
		}
		if (i != want.size())
			bad("unique removed too much");
	}
	template<class T, template<class> class R>
	void unique_hashes(const int* v, int n)
	{
		unique_one<T, R, 0>(v, n);
		unique_one<T, R, 1>(v, n);
		unique_one<T, R, 2>(v, n);
		unique_one<T, R, 3>(v, n);
	}
	using UFn = void (*)(const int*, int);
	const UFn US[] = { unique_hashes<int, RPtr>, unique_hashes<Trk, RPtr>, unique_hashes<Own, RList>, unique_hashes<MoveOnly, RDeq>, unique_hashes<int, RRev> };

	void each_seq(Enum& e, const char* what, int a, int n, int fix, const std::function<void(const std::vector<int>&)>& f)
	{
		uint64_t blocks = 1, inner = 1;
		fix = std::min(fix, n);
		for (int i = 0; i < fix; ++i)
			blocks *= uint64_t(a);
		for (int i = fix; i < n; ++i)
			inner *= uint64_t(a);
		for (uint64_t b = 0; b < blocks; ++b) {
			if (!e.begin("%s %d^%d block %llu", what, a, n, static_cast<unsigned long long>(b)))
				continue;
			for (uint64_t c = 0; c < inner; ++c) {
				std::vector<int> k;
				uint64_t x = b;
				for (int i = 0; i < fix; ++i, x /= uint64_t(a))
					k.push_back(int(x % uint64_t(a)));
				x = c;
				for (int i = fix; i < n; ++i, x /= uint64_t(a))
					k.push_back(int(x % uint64_t(a)));
				f(k);
			}
			e.evals(inner - 1);
		}
	}

	// ---------------------------------------------------------------- reverse_descending
	template<class T, template<class> class R>
	void rev_one(const int* v, int n)
	{
		R<T> r(v, n);
		snprintf(g_note, sizeof(g_note), "reverse_descending %s", R<T>::name);
		set_in(v, n, g_note);
		seq::reverse_descending(r.begin(), r.end(), Cmp<T>());
		check_sorted(r.begin(), r.end(), v, n);
	}

	void merges(Enum& e)
	{
		merge_pairs(e, 4, e.thorough() ? 7 : 5);
		merge_pairs(e, 3, e.thorough() ? 10 : 6);
		merge_unbalanced(e);
	}
	void inplaces(Enum& e)
	{
		const bool th = e.thorough();
		inplace_pairs(e, 4, 5, 6, { 0, 1, 2, 10, B_DEFAULT, B_TINY });
		inplace_pairs(e, 3, 8, 2, { 0, 1, 3 });
		if (th) {
			inplace_pairs(e, 4, 7, 6, { 0, 1, 2, 4, B_DEFAULT, B_OMIT, B_SMALL });
			inplace_pairs(e, 3, 12, 6, { 0, 1, 2, 4, B_MEDIUM });
		}
		inplace_patterns(e);
	}
	std::vector<std::vector<int>> big_parts(const std::vector<int>& lens, const std::vector<int>& offs)
	{
		std::vector<std::vector<int>> r;
		for (int l : lens)
			for (int o : offs) {
				std::vector<int> p;
				for (int i = 0; i < l; ++i)
					p.push_back(o + i / 2);
				r.push_back(p);
			}
		return r;
	}
	void range_lists(Enum& e)
	{
		const bool th = e.thorough();
		auto m3 = multisets(3, 2, 1), m2 = multisets(2, 2, 1), m2e = multisets(2, 2, 0);
		for (int k = 0; k <= 4; ++k)
			lists(e, "m3", m3, k, 4, { 0, 1, 2, 1001, 1002, B_DEFAULT });
		lists(e, "m3", m3, 5, 2, { 0, 1002, 1001 });
		// empty ranges among them
		for (int k = 1; k <= 4; ++k)
			lists(e, "with empty", m2e, k, 4, { 0, 1, 1001, 1002, B_OMIT });
		lists(e, "with empty", m2e, 5, 2, { 0, 1001, 1002 });
		for (int k = 6; k <= (th ? 9 : 8); ++k)
			lists(e, "single", { { 0 }, { 1, 2 }, { 2 } }, k, 2, { 0, 1001, 1002 });
		for (int k = 6; k <= 12; ++k)
			lists(e, "single2", { { 0, 1 }, { 0 } }, k, 2, { 0, 1001, 1002 });
		for (int k = 13; k <= (th ? 17 : 14); ++k)
			lists(e, "single2", { { 0, 1 }, { 0 } }, k, 1, { 1002 });
		lists(e, "big", big_parts({ 1, 5, 20, 90 }, { 0, 4, 30 }), 3, 4, { 0, 8, 1001, 1002, B_DEFAULT, B_MEDIUM });
		lists(e, "big", big_parts({ 1, 20, 90 }, { 0, 6 }), 4, 4, { 0, 1001, 1002, 1004 });
		lists(e, "big", big_parts({ 3, 40 }, { 0, 6 }), 5, 2, { 0, 1001, 1002 });
		if (th) {
			lists(e, "m3", m3, 6, 2, { 0, 1002 });
			lists(e, "big", big_parts({ 1, 5, 20, 90 }, { 0, 4, 30 }), 4, 4, { 0, 8, 1001, 1002, B_DEFAULT, B_MEDIUM });
			lists(e, "big", big_parts({ 2, 9, 40 }, { 0, 6 }), 6, 1, { 0, 1002 });
			lists(e, "with empty", m2e, 6, 4, { 0, 1001, 1002, B_OMIT });
		}
	}
	void uniques(Enum& e)
	{
		const bool th = e.thorough();
		auto f = [](const std::vector<int>& k) {
			auto v = k;
			number(v);
			for (auto u : US)
				u(v.data(), int(v.size()));
		};
		for (int n = 0; n <= (th ? 7 : 6); ++n)
			each_seq(e, "unique", 4, n, 2, f);
		for (int n = 7; n <= (th ? 10 : 8); ++n)
			each_seq(e, "unique", 3, n, 3, f);
		// larger tables: several rehashes while values are being moved
		for (int n : { 20, 60, 100, 300 })
			for (int m : { 1, 2, 7, 19, 64, 128, 150 })
				for (int a : { 1, 2, 5, 31 })
					for (int d = 0; d < (th ? 40 : 10); ++d) {
						if (!e.begin("unique n=%d (i*%d)%%%d shifted at %d", n, a, m, d))
							continue;
						std::vector<int> k;
						for (int i = 0; i < n; ++i)
							k.push_back(i >= d * n / (th ? 40 : 10) ? (i * a + 3) % m : i * 2 + 1000);
						f(k);
					}
	}
	void reverses(Enum& e)
	{
		auto ms = multisets(4, e.thorough() ? 14 : 10);
		auto m9 = multisets(9, e.thorough() ? 7 : 5);
		ms.insert(ms.end(), m9.begin(), m9.end());
		for (size_t c = 0; c < ms.size(); c += 16) {
			if (!e.begin("reverse_descending from %zu", c))
				continue;
			for (size_t i = c; i < std::min(ms.size(), c + 16); ++i) {
				std::vector<int> v(ms[i].rbegin(), ms[i].rend());
				number(v);
				rev_one<int, RPtr>(v.data(), int(v.size()));
				rev_one<Trk, RPtr>(v.data(), int(v.size()));
				rev_one<MoveOnly, RList>(v.data(), int(v.size()));
				rev_one<Own, RDeq>(v.data(), int(v.size()));
				rev_one<int, RRev>(v.data(), int(v.size()));
			}
			e.evals(15);
		}
	}
}

int main(int argc, char** argv)
{
#if !defined(PART) || PART == 1
	add_enum("merge", merges);
#endif
#if !defined(PART) || PART == 2
	add_enum("inplace_merge", inplaces);
#endif
#if !defined(PART) || PART == 3
	add_enum("inplace_merge of range lists", range_lists);
#endif
#if !defined(PART) || PART == 4
	add_enum("unique", uniques);
#endif
#if !defined(PART) || PART == 5
	add_enum("reverse_descending", reverses);
#endif
	return main_(argc, argv);
}
