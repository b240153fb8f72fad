#define MC_MAIN
#include "../lib/flat_sys.hpp"
#include <seq/tiny_string.hpp>
#include <set>
#include <map>
namespace fl
{
	// Every lookup, in containers of every size up to a bound built in every order of a list
	static const char* order_name[] = { "ascending", "descending", "alternating ends", "middle out", "strided", "range", "two ranges", "ascending, first half erased" };
	template<class Ref, class C, class Mk>
	void build(C& c, Ref& ref, int n, int order, Mk mk)
	{
		std::vector<int> ks;
		for (int i = 0; i < n; ++i)
			switch (order) {
				case 1: ks.push_back(n - 1 - i); break;
				case 2: ks.push_back(i % 2 ? n / 2 + i / 2 + (n % 2) : n / 2 - 1 - i / 2 + (n % 2)); break;
				case 3: ks.push_back(i % 2 ? n - 1 - i / 2 : i / 2); break;
				case 4: ks.push_back(int((int64_t(i) * 101) % n)); break;
				default: ks.push_back(i);
			}
		if (order == 4 && n % 101 == 0)
			for (int i = 0; i < n; ++i)
				ks[size_t(i)] = i;
		using V = typename C::value_type;
		std::vector<V> v;
		for (int k : ks)
			v.push_back(mk(k * 2));
		for (auto& x : v)
			ref.insert(x);
		if (order == 5 || order == 6) {
			size_t h = order == 6 ? v.size() / 2 : v.size();
			std::reverse(v.begin(), v.end());
			c.insert(v.begin(), v.begin() + ptrdiff_t(h));
			c.insert(v.begin() + ptrdiff_t(h), v.end());
		}
		else
			for (auto& x : v)
				c.insert(x);
		if (order == 7) {
			c.erase(c.begin(), c.begin() + n / 2);
			auto e = ref.begin();
			std::advance(e, n / 2);
			ref.erase(ref.begin(), e);
		}
	}
	template<class C, class Ref, class KeyT>
	uint64_t compare_all(C& c, Ref& ref, int n, KeyT mkk)
	{
		const C& cc = c;
		CHECK(c.size() == ref.size());
		std::vector<typename Ref::const_iterator> its;
		size_t i = 0;
		auto it = cc.begin();
		for (auto r = ref.begin(); r != ref.end(); ++r, ++it, ++i)
			CHECK(typename C::value_type(*r) == *it && &cc.pos(i) == &*it, "element %zu", i);
		CHECK(it == cc.end());
		size_t lo = 0;
		auto rlo = ref.begin();
		uint64_t evals = 0;
		for (int k = -1; k <= 2 * n; ++k) {
			auto key = mkk(k);
			while (rlo != ref.end() && rlo != ref.lower_bound(key))
				++rlo, ++lo;
			size_t cnt = ref.count(key), hi = lo + cnt;
			CHECK(cc.lower_bound_pos(key) == lo, "lower_bound_pos(%d) is %zu, expected %zu of %zu", k, cc.lower_bound_pos(key), lo, ref.size());
			CHECK(cc.upper_bound_pos(key) == hi, "upper_bound_pos(%d) is %zu, expected %zu of %zu", k, cc.upper_bound_pos(key), hi, ref.size());
			CHECK(size_t(c.lower_bound(key) - c.begin()) == lo && size_t(c.upper_bound(key) - c.begin()) == hi, "bounds of %d", k);
			CHECK(size_t(cc.find(key) - cc.begin()) == (cnt ? lo : ref.size()) && cc.find_pos(key) == (cnt ? lo : ref.size()), "find(%d)", k);
			CHECK(cc.contains(key) == (cnt != 0) && cc.count(key) == cnt, "count(%d)", k);
			auto r = cc.equal_range(key);
			CHECK(size_t(r.first - cc.begin()) == lo && size_t(r.second - cc.begin()) == hi, "equal_range(%d)", k);
			auto p = cc.equal_range_pos(key);
			CHECK(p.first == lo && p.second == hi, "equal_range_pos(%d)", k);
			++evals;
		}
		return evals;
	}
	template<class T>
	void sizes(const char* name, int maxq, int maxt)
	{
		mc::add_enum(name, [=](mc::Enum& e) {
			int max = e.thorough() ? maxt : maxq;
			for (int order = 0; order < 8; ++order)
				for (int n = 0; n <= max; ++n)
					if (e.begin("%d elements, %s", n, order_name[order])) {
						seq::flat_set<T> c;
						std::set<T> ref;
						build(c, ref, n, order, [](int k) { return T(k); });
						uint64_t ev = compare_all(c, ref, n, [](int k) { return T(k); });
						seq::flat_map<T, int> m;
						std::map<T, int> rm;
						build(m, rm, n, order, [](int k) { return std::pair<T, int>(T(k), k); });
						ev += compare_all(m, rm, n, [](int k) { return T(k); });
						// every other element leaves
						for (int k = 0; k < 2 * n; k += 4) {
							CHECK(c.erase(T(k)) == ref.erase(T(k)), "erase(%d)", k);
							CHECK(m.erase(T(k)) == rm.erase(T(k)), "erase(%d)", k);
						}
						ev += compare_all(c, ref, n, [](int k) { return T(k); });
						ev += compare_all(m, rm, n, [](int k) { return T(k); });
						e.evals(ev);
					}
		});
	}
	// string keys: the comparison shortcut of string types. All subsets of a set of strings.
	template<class Str>
	Str mkstr(const std::string& s)
	{
		return Str(s.data(), s.size());
	}
	template<class Str, bool Multi>
	void strings(const char* name)
	{
		mc::add_enum(name, [=](mc::Enum& e) {
			static const std::vector<std::string> u = { std::string(), std::string("a"), std::string("a\0", 2), std::string("a\0b", 3), std::string("aa"), std::string("ab"), std::string("b"), std::string("\x7f"),
								     std::string("\x80"), std::string("\xff\xff"), std::string("abcdefghijklmnopqrstuvwxyz"), std::string("abcdefghijklmnopqrstuvwxyzA") };
			size_t N = u.size();
			for (size_t mask = 0; mask < (size_t(1) << N); ++mask) {
				if (!e.begin("subset %zx", mask))
					continue;
				for (int order = 0; order < 3; ++order) {
					using C = std::conditional_t<Multi, seq::flat_multiset<Str>, seq::flat_set<Str>>;
					using M = std::conditional_t<Multi, seq::flat_multimap<Str, int>, seq::flat_map<Str, int>>;
					C c;
					M m;
					std::multiset<std::string> ref;
					std::vector<Str> rg;
					std::vector<std::pair<Str, int>> rm;
					for (size_t j = 0; j < N; ++j) {
						size_t i = order == 1 ? N - 1 - j : j * 5 % N;
						if (!(mask >> i & 1))
							continue;
						ref.insert(u[i]);
						if (Multi && i % 2)
							ref.insert(u[i]);
						for (int k = 0; k < 2; ++k) {
							rg.push_back(mkstr<Str>(u[i]));
							rm.emplace_back(mkstr<Str>(u[i]), int(i));
							if (Multi && i % 2 == 0)
								break;
						}
					}
					if (order == 2) {
						c.insert(rg.begin(), rg.end());
						m.insert(rm.begin(), rm.end());
					}
					else
						for (size_t i = 0; i < rg.size(); ++i) {
							c.insert(rg[i]);
							m.insert(rm[i]);
						}
					auto it = c.begin();
					auto im = m.begin();
					CHECK(c.size() == ref.size() && m.size() == ref.size(), "size %zu, %zu, expected %zu", c.size(), m.size(), ref.size());
					for (auto& r : ref) {
						CHECK(std::string(it->data(), it->size()) == r && std::string(im->first.data(), im->first.size()) == r, "order of elements");
						++it, ++im;
					}
					for (auto& k : u) {
						size_t lo = size_t(std::distance(ref.begin(), ref.lower_bound(k))), hi = lo + ref.count(k);
						auto one = [&](const auto& key, const char* what) {
							const C& cc = c;
							const M& cm = m;
							CHECK(cc.lower_bound_pos(key) == lo && cm.lower_bound_pos(key) == lo, "lower_bound(%s, %s) is %zu, expected %zu", k.c_str(), what, cc.lower_bound_pos(key), lo);
							CHECK(cc.upper_bound_pos(key) == hi && cm.upper_bound_pos(key) == hi, "upper_bound(%s, %s) is %zu, expected %zu", k.c_str(), what, cc.upper_bound_pos(key), hi);
							CHECK(cc.count(key) == hi - lo && cm.count(key) == hi - lo && cc.contains(key) == (hi != lo), "count(%s, %s)", k.c_str(), what);
							size_t f = cc.find_pos(key);
							CHECK(hi == lo ? f == c.size() : f >= lo && f < hi, "find_pos(%s, %s) is %zu, expected %zu..%zu", k.c_str(), what, f, lo, hi);
							auto er = cc.equal_range_pos(key);
							CHECK(er.first == lo && er.second == hi, "equal_range(%s, %s)", k.c_str(), what);
						};
						one(mkstr<Str>(k), "same type");
						one(k, "std::string");
						one(std::string_view(k), "std::string_view");
						one(seq::tstring(k.data(), k.size()), "tstring");
						one(seq::tstring_view(k.data(), k.size()), "tstring_view");
						if (k.find('\0') == std::string::npos)
							one(k.c_str(), "const char*");
					}
					// erase through another string type
					for (size_t i = 0; i < N; i += 3) {
						size_t n = ref.erase(u[i]);
						CHECK(c.erase(std::string_view(u[i])) == n && m.erase(u[i]) == n, "erase");
					}
					CHECK(c.size() == ref.size() && m.size() == ref.size());
				}
				e.evals(N * 18);
			}
		});
	}
}
int main(int argc, char** argv)
{
	using namespace mc;
	using fl::Sys;
	using fl::KLess;
	using fl::KTrans;
#if !defined(PART) || PART == 1
	add_seq<Sys<Trk, int, false, false, false>>("flat_set<tracked>", 2, 2, false, 0, 1);
#endif
#if !defined(PART) || PART == 2
	add_seq<Sys<int, Own, true, false, true, KLess>>("flat_map<int,owner> stable, plain comparator", 2, 2, false, 0, 1);
#endif
#if !defined(PART) || PART == 3
	add_seq<Sys<int, int, false, true, true>>("flat_multiset<int> stable", 2, 2, false, 0, 1);
#endif
#if !defined(PART) || PART == 4
	add_seq<Sys<Own, Trk, true, true, false>>("flat_multimap<owner,tracked>", 2, 2, false, 0, 1);
#endif
#if !defined(PART) || PART == 5
	add_seq<Sys<int, int, false, false, false, KLess>>("flat_set<int> plain comparator", 2, 2, false, 0, 1);
#endif
#if !defined(PART) || PART == 6
	add_seq<Sys<MoveOnly, MoveOnly, true, false, false>>("flat_map<move only>", 2, 2, false, 0, 1);
#endif
#if !defined(PART) || PART == 7
	add_seq<Sys<int, int, true, false, false, KTrans, fl::BIG>>("flat_map<int,int> large", 1, 2, false);
	add_seq<Sys<Own, int, false, true, true, KTrans, fl::BIG>>("flat_multiset<owner> stable, large", 1, 2, false);
#endif
#if !defined(PART) || PART == 8
	fl::sizes<int>("every size, int", 160, 700);
#endif
#if !defined(PART) || PART == 13
	fl::sizes<double>("every size, double", 100, 300);
#endif
#if !defined(PART) || PART == 9
	fl::strings<std::string, false>("unique std::string keys");
#endif
#if !defined(PART) || PART == 10
	fl::strings<seq::tstring, false>("unique tstring keys");
#endif
#if !defined(PART) || PART == 11
	fl::strings<std::string, true>("multiple std::string keys");
#endif
#if !defined(PART) || PART == 12
	fl::strings<seq::tstring, true>("multiple tstring keys");
#endif
	return main_(argc, argv);
}
