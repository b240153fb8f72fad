// Client programs of the concurrent table run under the controlled scheduler (lib/mcsched.hpp), and the
// oracle that judges every execution.
//
// A program is "seed / initial content / thread 0 | thread 1 | ..."; an operation is a letter and a key
// number, in table A, or in table B when prefixed with '~'.
//
// Oracle (keys are independent, so the histories are judged key by key):
//  - some sequential order of the (steps of the) operations touching the key, which respects the order of
//    non overlapping operations, explains every returned value, every value seen by a functor and the
//    final content of both tables;
//  - no functor runs while another thread touches the element, and all accesses to an element are ordered
//    by happens-before;
//  - no deadlock or livelock; after the threads ended, every key can be looked up, erased and inserted
//    again (no lock is left held), size() agrees, and destroying the tables releases every element and
//    every block.
#pragma once
#include "mcsched.hpp"
#include <seq/concurrent_map.hpp>
#include <map>

namespace cm
{
	using namespace mc;
	enum { DEAD = -7777, MOVED = -6666 };

	// accounting of the element objects (invisible to the scheduler)
	struct Acc
	{
		int64_t live_keys, live_vals;
	};
	inline Acc& acc()
	{
		static Acc a;
		return a;
	}

	// how keys are hashed; constant during an execution
	inline int& hash_mode()
	{
		static int m;
		return m;
	}
	inline uint64_t hash_of(int k)
	{
		uint64_t u = uint64_t(k);
		switch (hash_mode()) {
			case 0: // one bucket, one shard, distinct tiny hashes
				return (u + 1) << 56;
			case 1: // everything collides
				return 0x55ull << 56;
			case 2: // bucket chosen by the key number (fillers: bucket 0 of any table up to 16 buckets)
				return ((u + 1) << 56) | (k >= 100 ? 0u : u);
			case 3: // two shards
				return ((u + 1) << 56) | ((u & 1) << 47);
			default:
				return ((u & 3) << 56) | (u << 47) | (u >> 1);
		}
	}

	inline void fp(int kind) { mcs::fault_point(kind); }

	template<bool NM>
	struct KeyT
	{
		int k;
		KeyT(int x)
		{
			fp(F_ELEM);
			mcs::poke(&k, x);
			mcs::user_write(this, "construction of a key");
			cnt(1);
		}
		KeyT(const KeyT& o)
		{
			mcs::poke(&k, DEAD);
			fp(F_ELEM);
			mcs::user_read(&o, "copy of a key");
			mcs::user_write(this, "construction of a key");
			mcs::poke(&k, mcs::peek(&o.k));
			cnt(1);
		}
		KeyT(KeyT&& o) noexcept(NM)
		{
			mcs::poke(&k, DEAD);
			if (!NM)
				fp(F_ELEM);
			mcs::user_write(&o, "move of a key");
			mcs::user_write(this, "construction of a key");
			mcs::poke(&k, mcs::peek(&o.k));
			mcs::poke(&o.k, MOVED);
			cnt(1);
		}
		KeyT& operator=(const KeyT& o)
		{
			mcs::user_read(&o, "copy of a key");
			mcs::user_write(this, "assignment of a key");
			mcs::poke(&k, mcs::peek(&o.k));
			return *this;
		}
		KeyT& operator=(KeyT&& o) noexcept
		{
			mcs::user_write(&o, "move of a key");
			mcs::user_write(this, "assignment of a key");
			int x = mcs::peek(&o.k);
			mcs::poke(&o.k, MOVED);
			mcs::poke(&k, x);
			return *this;
		}
		~KeyT()
		{
			mcs::user_write(this, "destruction of a key");
			if (mcs::peek(&k) == DEAD)
				mcs::fail_sched("a key is destroyed twice");
			mcs::poke(&k, DEAD);
			cnt(-1);
		}
		static void cnt(int d)
		{
			mcs::Hidden h;
			acc().live_keys += d;
		}
		int get() const
		{
			mcs::user_read(this, "read of a key");
			int x = mcs::peek(&k);
			if (x == DEAD)
				mcs::fail_sched("a destroyed key is read");
			return x;
		}
		friend bool operator==(const KeyT& a, const KeyT& b) { return a.get() == b.get(); }
	};
	template<bool NM>
	struct ValT
	{
		int v;
		ValT(int x)
		{
			fp(F_ELEM);
			mcs::poke(&v, x);
			mcs::user_write(this, "construction of a value");
			cnt(1);
		}
		ValT(const ValT& o)
		{
			mcs::poke(&v, DEAD);
			fp(F_ELEM);
			mcs::user_read(&o, "copy of a value");
			mcs::user_write(this, "construction of a value");
			mcs::poke(&v, mcs::peek(&o.v));
			cnt(1);
		}
		ValT(ValT&& o) noexcept(NM)
		{
			mcs::poke(&v, DEAD);
			if (!NM)
				fp(F_ELEM);
			mcs::user_write(&o, "move of a value");
			mcs::user_write(this, "construction of a value");
			mcs::poke(&v, mcs::peek(&o.v));
			mcs::poke(&o.v, MOVED);
			cnt(1);
		}
		ValT& operator=(const ValT& o)
		{
			mcs::user_read(&o, "copy of a value");
			mcs::user_write(this, "assignment of a value");
			mcs::poke(&v, mcs::peek(&o.v));
			return *this;
		}
		ValT& operator=(ValT&& o) noexcept
		{
			mcs::user_write(&o, "move of a value");
			mcs::user_write(this, "assignment of a value");
			int x = mcs::peek(&o.v);
			mcs::poke(&o.v, MOVED);
			mcs::poke(&v, x);
			return *this;
		}
		~ValT()
		{
			mcs::user_write(this, "destruction of a value");
			if (mcs::peek(&v) == DEAD)
				mcs::fail_sched("a value is destroyed twice");
			mcs::poke(&v, DEAD);
			cnt(-1);
		}
		static void cnt(int d)
		{
			mcs::Hidden h;
			acc().live_vals += d;
		}
		int get() const
		{
			mcs::user_read(this, "read of a value");
			int x = mcs::peek(&v);
			if (x == DEAD)
				mcs::fail_sched("a destroyed value is read");
			return x;
		}
		void set(int x)
		{
			mcs::user_write(this, "write of a value");
			mcs::poke(&v, x);
		}
		friend bool operator==(const ValT& a, const ValT& b) { return a.get() == b.get(); }
	};
	// element of a set: a key with a payload that does not take part in comparisons
	template<bool NM>
	struct ElemT
	{
		KeyT<NM> first;
		ValT<NM> second;
		ElemT(int k, int v)
		  : first(k)
		  , second(v)
		{
		}
		friend bool operator==(const ElemT& a, const ElemT& b) { return a.first == b.first; }
	};
	struct Hash
	{
		using is_avalanching = void;
		template<bool NM>
		size_t operator()(const KeyT<NM>& k) const noexcept
		{
			return hash_of(k.get());
		}
		template<bool NM>
		size_t operator()(const ElemT<NM>& k) const noexcept
		{
			return hash_of(k.first.get());
		}
	};

	template<unsigned Shards, bool NM = true>
	struct MapCfg
	{
		static constexpr bool is_map = true;
		static constexpr unsigned shards = Shards;
		using Key = KeyT<NM>;
		using Val = ValT<NM>;
		using Elem = std::pair<Key, Val>;
		using Table = seq::concurrent_map<Key, Val, Hash, std::equal_to<>, std::allocator<Elem>, Shards>;
		static Key look(int k) { return Key(k); }
	};
	template<unsigned Shards, bool NM = true>
	struct SetCfg
	{
		static constexpr bool is_map = false;
		static constexpr unsigned shards = Shards;
		using Key = KeyT<NM>;
		using Val = ValT<NM>;
		using Elem = ElemT<NM>;
		using Table = seq::concurrent_set<Elem, Hash, std::equal_to<>, std::allocator<Elem>, Shards>;
		static Elem look(int k) { return Elem(k, -1); }
	};

	// ------------------------------------------------------------------ histories
	struct Obs
	{
		int k, v;
	};
	struct Rec
	{
		char c;
		int key, tbl, thr, tag;
		uint64_t call, ret;
		int r;    // returned value
		int seen; // value seen by the functor, -1 if not called
		bool done, threw;
		int nobs;
		Obs obs[64];
	};
	struct Hist
	{
		Rec rec[24];
		int n;
		int cnt[4];
		int ninit[2];
		Obs init[2][64];
		int nfin[2];
		Obs fin[2][64];
	};
	inline Hist& hist()
	{
		static Hist h;
		return h;
	}

	struct Op
	{
		char c;
		int key;
		int tbl;
	};
	inline std::vector<Op> parse_ops(const std::string& s)
	{
		std::vector<Op> v;
		for (size_t i = 0; i < s.size();) {
			if (s[i] == ' ') {
				++i;
				continue;
			}
			Op o{ 0, -1, 0 };
			if (s[i] == '~') {
				o.tbl = 1;
				++i;
			}
			o.c = s[i++];
			if (i < s.size() && isdigit(s[i])) {
				o.key = 0;
				while (i < s.size() && isdigit(s[i]))
					o.key = o.key * 10 + (s[i++] - '0');
			}
			v.push_back(o);
		}
		return v;
	}
	// operations on a single key
	inline bool is_point(char c) { return strchr("ietaTvcwWuUxEFfVCNK", c) != nullptr; }
	inline int key_mask(char c) { (void)c; return 0; }

	// ------------------------------------------------------------------ per key linearizability
	struct KState
	{
		int a[2]; // value in table A/B, -1 when absent
		bool operator==(const KState& o) const { return a[0] == o.a[0] && a[1] == o.a[1]; }
	};
	struct KOp
	{
		const Rec* r;
		int step, local; // progress of composite operations
		int flags;
		int expect; // observed value of this key for observing operations, -1 absent
	};

	struct Lin
	{
		int key;
		KOp op[24];
		int n = 0;
		KState fin;
		bool nofin = false;
		uint64_t nodes = 0;

		// try to apply the next step of o; returns the list of possible successors
		int steps(const KOp& o, const KState& s, KState* out, KOp* oo)
		{
			const Rec& r = *o.r;
			int t = r.tbl, u = 1 - t;
			KState x = s;
			KOp p = o;
			p.step = -1; // finished
			auto one = [&]() {
				out[0] = x;
				oo[0] = p;
				return 1;
			};
			bool present = s.a[t] >= 0;
			if (r.threw) {
				// a failed call has no effect, except merge and assignment that may have treated some keys
				int n = 0;
				out[n] = s;
				oo[n++] = p;
				if ((r.c == 'M') && s.a[u] >= 0 && s.a[t] < 0) {
					x.a[t] = s.a[u];
					x.a[u] = -1;
					out[n] = x;
					oo[n++] = p;
				}
				if (r.c == 'L' || r.c == 'D' || r.c == 'l') {
					// what it had visited before it failed
					if (o.expect < 0)
						return n;
					if (o.expect != s.a[t])
						return 0;
					if (r.c == 'L')
						x.a[t] = s.a[t] + r.tag;
					if (r.c == 'D')
						x.a[t] = -1;
					return one();
				}
				if (r.c == 'A' || r.c == 'X') {
					x.a[t] = -1;
					out[n] = x;
					oo[n++] = p;
					if (r.c == 'A' && s.a[u] >= 0) {
						x.a[t] = s.a[u];
						out[n] = x;
						oo[n++] = p;
					}
				}
				return n;
			}
			switch (r.c) {
				case 'i':
				case 'e':
				case 't':
				case 'T':
					if ((r.r != 0) == present)
						return 0;
					if (!present)
						x.a[t] = r.tag;
					return one();
				case 'a':
					if ((r.r != 0) == present)
						return 0;
					x.a[t] = r.tag;
					return one();
				case 'v':
				case 'w':
				case 'W':
				case 'c':
				case 'u':
				case 'U':
					if ((r.r != 0) == present)
						return 0;
					if (present) {
						if (r.seen != s.a[t])
							return 0;
						if (strchr("vwW", r.c))
							x.a[t] = s.a[t] + r.tag;
					}
					else {
						if (r.seen != -1)
							return 0;
						x.a[t] = r.tag;
					}
					return one();
				case 'E':
					if (r.r != (present ? 1 : 0))
						return 0;
					x.a[t] = -1;
					return one();
				case 'F': // erase_if(key, value is even)
				case 'f': // erase_if(key, always false)
					if (r.seen != s.a[t])
						return 0;
					if (r.r != (present && r.c == 'F' && s.a[t] % 2 == 0 ? 1 : 0))
						return 0;
					if (r.r)
						x.a[t] = -1;
					return one();
				case 'V':
					if (r.r != (present ? 1 : 0) || r.seen != s.a[t])
						return 0;
					if (present)
						x.a[t] = s.a[t] + r.tag;
					return one();
				case 'C':
					if (r.r != (present ? 1 : 0) || r.seen != s.a[t])
						return 0;
					return one();
				case 'N':
				case 'K':
					if (r.r != (present ? 1 : 0))
						return 0;
					return one();
				case 'X':
					x.a[t] = -1;
					return one();
				case 'D': // erase_if(even keys)
					if (o.expect != (key % 2 == 0 && present ? s.a[t] : -1))
						return 0;
					if (key % 2 == 0)
						x.a[t] = -1;
					return one();
				case 'L': // visit_all, adds the tag
					if (o.expect != s.a[t])
						return 0;
					if (present)
						x.a[t] = s.a[t] + r.tag;
					return one();
				case 'l':
				case 'Y': // cvisit_all, copy construction, reading both
					if (o.expect != s.a[t])
						return 0;
					return one();
				case 'M': // t.merge(u)
					if (s.a[u] >= 0 && s.a[t] < 0) {
						x.a[t] = s.a[u];
						x.a[u] = -1;
					}
					return one();
				case 'A': { // t = u: erase in t, read in u (in any order), insert if absent
					int n = 0;
					if (!(o.flags & 1)) {
						out[n] = s;
						out[n].a[t] = -1;
						oo[n] = o;
						oo[n].flags |= 1;
						++n;
					}
					if (!(o.flags & 2)) {
						out[n] = s;
						oo[n] = o;
						oo[n].flags |= 2;
						oo[n].local = s.a[u];
						++n;
					}
					if (o.flags == 3) {
						out[n] = s;
						if (o.local >= 0 && s.a[t] < 0)
							out[n].a[t] = o.local;
						oo[n] = o;
						oo[n].step = -1;
						++n;
					}
					return n;
				}
				default: // R Q P Z G: no effect on the content
					return one();
			}
		}
		bool search(KState s, unsigned done)
		{
			++nodes;
			if (done == (1u << n) - 1)
				return nofin || s == fin;
			// an operation can go first if no pending operation returned before it was called
			uint64_t minret = ~0ull;
			for (int i = 0; i < n; ++i)
				if (!(done >> i & 1))
					minret = std::min(minret, op[i].r->ret);
			for (int i = 0; i < n; ++i) {
				if ((done >> i & 1) || op[i].r->call > minret)
					continue;
				KState out[4];
				KOp oo[4];
				int k = steps(op[i], s, out, oo);
				KOp saved = op[i];
				for (int j = 0; j < k; ++j) {
					op[i] = oo[j];
					bool fin_op = oo[j].step == -1;
					if (search(out[j], fin_op ? (done | (1u << i)) : done))
						return true;
				}
				op[i] = saved;
			}
			return false;
		}
	};

	inline std::string show_hist(int key)
	{
		Hist& h = hist();
		std::string s;
		for (int i = 0; i < h.n; ++i) {
			const Rec& r = h.rec[i];
			if (key >= 0 && is_point(r.c) && r.key != key)
				continue;
			char b[200];
			snprintf(b, sizeof b, " T%d:%s%c", r.thr, r.tbl ? "~" : "", r.c);
			s += b;
			if (r.key >= 0)
				s += std::to_string(r.key);
			snprintf(b, sizeof b, "[%llu,%llu]", (unsigned long long)r.call, (unsigned long long)r.ret);
			s += b;
			if (r.threw)
				s += "=threw";
			else
				s += "=" + std::to_string(r.r);
			if (r.seen != -1)
				s += ",saw " + std::to_string(r.seen);
			if (r.nobs) {
				s += "{";
				for (int j = 0; j < r.nobs; ++j)
					if (key < 0 || r.obs[j].k == key)
						s += std::to_string(r.obs[j].k) + ":" + std::to_string(r.obs[j].v) + " ";
				s += "}";
			}
		}
		return s;
	}

	inline int lookup(const Obs* o, int n, int key, int* count = nullptr)
	{
		int v = -1, c = 0;
		for (int i = 0; i < n; ++i)
			if (o[i].k == key) {
				v = o[i].v;
				++c;
			}
		if (count)
			*count = c;
		return v;
	}

	// judge the finished execution
	inline void judge(bool has_swap)
	{
		Hist& h = hist();
		int keys[200];
		int nk = 0;
		auto addk = [&](int k) {
			for (int i = 0; i < nk; ++i)
				if (keys[i] == k)
					return;
			keys[nk++] = k;
		};
		bool whole = false;
		for (int t = 0; t < 2; ++t) {
			for (int i = 0; i < h.ninit[t]; ++i)
				addk(h.init[t][i].k);
			for (int i = 0; i < h.nfin[t]; ++i)
				addk(h.fin[t][i].k);
		}
		for (int i = 0; i < h.n; ++i) {
			if (is_point(h.rec[i].c))
				addk(h.rec[i].key);
			else
				whole = true;
			for (int j = 0; j < h.rec[i].nobs; ++j)
				addk(h.rec[i].obs[j].k);
		}
		(void)whole;
		for (int q = 0; q < nk; ++q) {
			int key = keys[q];
			int c[2];
			int f0 = lookup(h.fin[0], h.nfin[0], key, &c[0]);
			int f1 = lookup(h.fin[1], h.nfin[1], key, &c[1]);
			if (c[0] > 1 || c[1] > 1)
				mcs::fail_sched("key %d is %d times in a table:%s", key, std::max(c[0], c[1]), show_hist(key).c_str());
			int i0 = lookup(h.init[0], h.ninit[0], key), i1 = lookup(h.init[1], h.ninit[1], key);
			if (has_swap) {
				// swap is not atomic with respect to the operations on the elements: only the number of elements
				// is judged, unless a call erases or copies whichever elements its table has
				bool any = false;
				for (int i = 0; i < h.n; ++i)
					if (strchr("XAqD", h.rec[i].c))
						any = true;
				if (any)
					continue;
				int n = (i0 >= 0) + (i1 >= 0);
				for (int i = 0; i < h.n; ++i) {
					const Rec& r = h.rec[i];
					if (!is_point(r.c) || r.key != key || r.threw)
						continue;
					if (strchr("ietaTvcwWuU", r.c))
						n += r.r;
					else if (strchr("EFf", r.c))
						n -= r.r;
				}
				if (n != (f0 >= 0) + (f1 >= 0))
					mcs::fail_sched("key %d is in %d table(s) instead of %d:%s", key, (f0 >= 0) + (f1 >= 0), n, show_hist(key).c_str());
				continue;
			}
			Lin L;
			L.key = key;
			L.fin.a[0] = f0;
			L.fin.a[1] = f1;
			for (int i = 0; i < h.n; ++i) {
				const Rec& r = h.rec[i];
				if (is_point(r.c) && r.key != key)
					continue;
				KOp& o = L.op[L.n++];
				o.r = &r;
				o.step = 0;
				o.local = -1;
				o.flags = 0;
				int cnt = 0;
				o.expect = lookup(r.obs, r.nobs, key, &cnt);
				if (cnt > 1)
					mcs::fail_sched("key %d is visited %d times by one call:%s", key, cnt, show_hist(key).c_str());
			}
			KState s;
			s.a[0] = i0;
			s.a[1] = i1;
			if (!L.search(s, 0))
				mcs::fail_sched("no sequential order explains what happened to key %d: initially A:%d B:%d, then%s, finally A:%d B:%d",
						key, i0, i1, show_hist(key).c_str(), f0, f1);
		}
		// fingerprint of the outcome
		uint64_t x = 1469598103934665603ull;
		auto mix = [&](int64_t v) { x = (x ^ uint64_t(v + 10)) * 1099511628211ull; };
		for (int t = 0; t < 4; ++t)
			for (int i = 0; i < h.n; ++i)
				if (h.rec[i].thr == t) {
					mix(h.rec[i].r);
					mix(h.rec[i].seen);
					mix(h.rec[i].threw);
				}
		for (int t = 0; t < 2; ++t) {
			int64_t sum = 0;
			for (int i = 0; i < h.nfin[t]; ++i)
				sum += (int64_t(h.fin[t][i].k) * 100003 + h.fin[t][i].v) * 7919 % 1000000007;
			mix(sum);
		}
		mcs::outcome(x);
	}

	// ------------------------------------------------------------------ running programs
	template<class Cfg>
	struct Prog
	{
		using T = typename Cfg::Table;
		using Elem = typename Cfg::Elem;
		using Key = typename Cfg::Key;
		using Val = typename Cfg::Val;
		struct Tabs
		{
			T a, b;
		};
		static Tabs*& tabs()
		{
			static Tabs* t;
			return t;
		}
		static T& tab(int i) { return i ? tabs()->b : tabs()->a; }

		template<class F>
		static void excl(Elem& e, F f)
		{
			mcs::visit_enter(&e.first, true);
			mcs::visit_enter(&e.second, true);
			struct L
			{
				Elem& e;
				~L()
				{
					mcs::visit_leave(&e.first, true);
					mcs::visit_leave(&e.second, true);
				}
			} l{ e };
			f(e);
		}
		template<class F>
		static void shrd(const Elem& e, F f)
		{
			mcs::visit_enter(&e.first, false);
			mcs::visit_enter(&e.second, false);
			struct L
			{
				const Elem& e;
				~L()
				{
					mcs::visit_leave(&e.first, false);
					mcs::visit_leave(&e.second, false);
				}
			} l{ e };
			f(e);
		}

		static void exec(const Op& o, int thr)
		{
			Rec* r;
			int tag;
			{
				mcs::Hidden h;
				Hist& H = hist();
				r = &H.rec[H.n];
				r->c = o.c;
				r->key = o.key;
				r->tbl = o.tbl;
				r->thr = thr;
				r->tag = tag = (thr + 1) * 10000 + (H.cnt[thr]++ + 1) * 1000 + (o.key == 3 ? 1 : 0);
				r->r = 0;
				r->seen = -1;
				r->done = r->threw = false;
				r->nobs = 0;
				r->ret = ~0ull;
				++H.n;
				r->call = mcs::call_clock();
			}
			T& t = tab(o.tbl);
			T& u = tab(1 - o.tbl);
			const T& ct = t;
			int k = o.key;
			int res = 0;
			int seen = -1;
			auto obs = [&](const Elem& e, int v) {
				int kk = e.first.get();
				mcs::Hidden h;
				if (r->nobs < 64)
					r->obs[r->nobs++] = Obs{ kk, v };
			};
			auto mut = [&](Elem& e) {
				excl(e, [&](Elem& x) {
					fp(F_FUNC);
					int v = x.second.get();
					seen = v;
					x.second.set(v + tag);
				});
			};
			auto rd = [&](const Elem& e) {
				shrd(e, [&](const Elem& x) {
					fp(F_FUNC);
					seen = x.second.get();
				});
			};
			bool threw = false;
			mcs::fault_window(true);
			try {
				auto key = [&]() { return Cfg::look(k); };
				auto elem = [&]() { return Elem(k, tag); };
				switch (o.c) {
					case 'i':
						res = t.insert(elem());
						break;
					case 'I': { // range insertion is a sequence of insertions: not recorded as one operation
						break;
					}
					case 'e':
						res = t.emplace(k, tag);
						break;
					case 'T': {
						const Elem e(k, tag);
						res = t.insert(e);
						break;
					}
					case 't':
						if constexpr (Cfg::is_map)
							res = t.try_emplace(Key(k), tag);
						else
							res = t.insert(elem());
						break;
					case 'a':
						if constexpr (Cfg::is_map)
							res = t.insert_or_assign(Key(k), Val(tag));
						else
							res = t.insert_or_visit(elem(), [&](Elem& e) { excl(e, [&](Elem& x) { x.second.set(tag); }); });
						break;
					case 'v':
						res = t.insert_or_visit(elem(), mut);
						break;
					case 'w':
						res = t.emplace_or_visit(elem(), mut);
						break;
					case 'W':
						if constexpr (Cfg::is_map)
							res = t.try_emplace_or_visit(Key(k), tag, mut);
						else
							res = t.insert_or_visit(elem(), mut);
						break;
					case 'c':
						res = t.insert_or_cvisit(elem(), rd);
						break;
					case 'u':
						res = t.emplace_or_cvisit(elem(), rd);
						break;
					case 'U':
						if constexpr (Cfg::is_map)
							res = t.try_emplace_or_cvisit(Key(k), tag, rd);
						else
							res = t.insert_or_cvisit(elem(), rd);
						break;
					case 'E':
						res = int(t.erase(key()));
						break;
					case 'F':
						res = int(t.erase_if(key(), [&](Elem& e) {
							bool b = false;
							excl(e, [&](Elem& x) {
								fp(F_FUNC);
								seen = x.second.get();
								b = seen % 2 == 0;
							});
							return b;
						}));
						break;
					case 'f':
						res = int(t.erase_if(key(), [&](Elem& e) {
							excl(e, [&](Elem& x) {
								fp(F_FUNC);
								seen = x.second.get();
							});
							return false;
						}));
						break;
					case 'V':
						res = int(t.visit(key(), mut));
						break;
					case 'C':
						res = int(t.cvisit(key(), rd));
						break;
					case 'N':
						res = int(ct.count(key()));
						break;
					case 'K':
						res = int(ct.contains(key()));
						break;
					case 'X':
						t.clear();
						break;
					case 'R':
						t.rehash(size_t(k));
						break;
					case 'Q':
						t.reserve(size_t(k));
						break;
					case 'P':
						t.max_load_factor(0.1f);
						break;
					case 'S':
						t.swap(u);
						break;
					case 'M':
						t.merge(u);
						break;
					case 'A':
						t = u;
						break;
					case 's': // with itself
						t.swap(t);
						break;
					case 'm':
						t.merge(t);
						break;
					case 'q':
						t = ct;
						break;
					case 'g':
						if (!(ct == ct))
							mcs::fail_sched("a table is not equal to itself");
						break;
					case 'Y': {
						T c(t);
						mcs::fault_window(false);
						static_cast<const T&>(c).cvisit_all([&](const Elem& e) { obs(e, e.second.get()); });
						if (int(c.size()) != r->nobs)
							mcs::fail_sched("copy: size() is %d with %d elements", int(c.size()), r->nobs);
						break;
					}
					case 'D':
						t.erase_if([&](Elem& e) {
							bool b = false;
							excl(e, [&](Elem& x) {
								fp(F_FUNC);
								if (x.first.get() % 2 == 0) {
									obs(x, x.second.get());
									b = true;
								}
							});
							return b;
						});
						break;
					case 'L':
						t.visit_all([&](Elem& e) {
							excl(e, [&](Elem& x) {
								fp(F_FUNC);
								int v = x.second.get();
								obs(x, v);
								x.second.set(v + tag);
							});
						});
						break;
					case 'l':
						ct.cvisit_all([&](const Elem& e) {
							shrd(e, [&](const Elem& x) {
								fp(F_FUNC);
								obs(x, x.second.get());
							});
						});
						break;
					case 'Z':
						res = int(ct.size());
						break;
					case 'G':
						res = ct == u;
						break;
					default:
						mcs::fail_sched("HARNESS ERROR: unknown operation %c", o.c);
				}
			}
			catch (const Fault&) {
				threw = true;
			}
			catch (const std::bad_alloc&) {
				threw = true;
			}
			mcs::fault_window(false);
			mcs::progress();
			mcs::Hidden h;
			r->r = res;
			r->seen = seen;
			r->threw = threw;
			r->done = true;
			r->ret = mcs::ret_clock();
		}

		static void content(int t, Obs* o, int& n)
		{
			n = 0;
			int cap = 64;
			const T& ct = tab(t);
			ct.cvisit_all([&](const Elem& e) {
				int k = e.first.get(), v = e.second.get();
				mcs::Hidden h;
				if (k < 0 || v < 0)
					mcs::fail_sched("the table holds a moved-from element");
				if (n >= cap)
					mcs::fail_sched("table too large");
				o[n++] = Obs{ k, v };
			});
			if (int(ct.size()) != n)
				mcs::fail_sched("size() is %d but there are %d elements", int(ct.size()), n);
		}

		// (the content is not read back from the table: this would create its locks)
		static void seed(T& t, const std::string& s, Obs* init, int& ninit)
		{
			ninit = 0;
			auto add = [&](int k, int v) {
				for (int q = 0; q < ninit; ++q)
					if (init[q].k == k)
						return;
				init[ninit++] = Obs{ k, v };
			};
			// tokens: r<n> rehash, x clear, p load factor 0.1, f<n> n fillers (keys 100...), number: insert the key
			size_t i = 0;
			while (i < s.size()) {
				char c = s[i];
				if (c == ' ') {
					++i;
					continue;
				}
				int n = 0;
				size_t j = isdigit(c) ? i : i + 1;
				while (j < s.size() && isdigit(s[j]))
					n = n * 10 + (s[j++] - '0');
				i = j;
				if (c == 'r')
					t.rehash(size_t(n));
				else if (c == 'x') {
					t.clear();
					ninit = 0;
				}
				else if (c == 'e') {
					t.erase(Cfg::look(n));
					int m = 0;
					for (int q = 0; q < ninit; ++q)
						if (init[q].k != n)
							init[m++] = init[q];
					ninit = m;
				}
				else if (c == 'p')
					t.max_load_factor(0.1f);
				else if (c == 'f') {
					for (int k = 0; k < n; ++k)
						t.insert(Elem(100 + k, 500 + k)), add(100 + k, 500 + k);
				}
				else
					t.insert(Elem(n, 10 + n)), add(n, 10 + n);
			}
		}
		static void do_finish(bool has_swap)
		{
			Hist& H = hist();
			content(0, H.fin[0], H.nfin[0]);
			content(1, H.fin[1], H.nfin[1]);
			{
				mcs::Hidden h;
				int64_t n = H.nfin[0] + H.nfin[1];
				if (acc().live_vals != n || acc().live_keys != n)
					mcs::fail_sched("%lld values and %lld keys exist, the tables hold %lld", (long long)acc().live_vals, (long long)acc().live_keys, (long long)n);
				judge(has_swap);
			}
			// everything still works: no lock is held, every key is found where it is and nowhere else
			for (int t = 0; t < 2; ++t) {
				T& x = tab(t);
				for (int i = 0; i < H.nfin[t]; ++i) {
					int v = -1;
					if (x.visit(Cfg::look(H.fin[t][i].k), [&](Elem& e) { v = e.second.get(); }) != 1 || v != H.fin[t][i].v)
						mcs::fail_sched("key %d of the final content is not found", H.fin[t][i].k);
					if (x.insert(Elem(H.fin[t][i].k, 1)))
						mcs::fail_sched("key %d of the final content is inserted twice", H.fin[t][i].k);
				}
				for (int i = 0; i < H.nfin[t]; ++i)
					if (x.erase(Cfg::look(H.fin[t][i].k)) != 1)
						mcs::fail_sched("key %d of the final content cannot be erased", H.fin[t][i].k);
				if (x.size() != 0)
					mcs::fail_sched("size() is %d after erasing everything", int(x.size()));
				for (int k = 0; k < 3; ++k)
					if (!x.insert(Elem(k, k)))
						mcs::fail_sched("key %d cannot be inserted", k);
				x.rehash(64);
				if (x.size() != 3)
					mcs::fail_sched("size() is %d instead of 3", int(x.size()));
				x.clear();
			}
			delete tabs();
			mcs::Hidden h;
			if (acc().live_keys || acc().live_vals)
				mcs::fail_sched("%lld keys, %lld values leaked", (long long)acc().live_keys, (long long)acc().live_vals);
		}

		// returns false when the case belongs to another shard
		static bool scenario(Enum& e, const char* cfg, int mode, const std::string& seedA, const std::string& seedB, const std::vector<std::string>& thr, int bound, int faults = 0)
		{
			std::string d;
			for (auto& x : thr)
				d += (d.empty() ? "" : " | ") + x;
			if (!e.begin("%s h%d A{%s} B{%s} %s%s", cfg, mode, seedA.c_str(), seedB.c_str(), d.c_str(), faults ? " +faults" : ""))
				return false;
			mcs::Scenario s;
			bool has_swap = false;
			for (auto& x : thr)
				if (x.find('S') != std::string::npos)
					has_swap = true;
			s.setup = [=] {
				{
					mcs::Hidden h;
					acc() = Acc{ 0, 0 };
					hist().n = 0;
					memset(hist().cnt, 0, sizeof hist().cnt);
					hash_mode() = mode;
				}
				tabs() = new Tabs();
				seed(tabs()->a, seedA, hist().init[0], hist().ninit[0]);
				seed(tabs()->b, seedB, hist().init[1], hist().ninit[1]);
			};
			int t = 0;
			for (auto& x : thr) {
				auto ops = std::make_shared<std::vector<Op>>(parse_ops(x));
				int id = t++;
				s.threads.push_back([ops, id] {
					for (auto& o : *ops)
						exec(o, id);
				});
			}
			s.finish = [=] { do_finish(has_swap); };
			s.bound = bound;
			s.fault_mask = faults;
			mcs::Result r = mcs::explore(s);
			if (const char* vf = getenv("MC_VERBOSE")) {
				FILE* f = fopen(vf, "a");
				fprintf(f, "%8llu execs %3llu conflicts bound %d  %s\n", (unsigned long long)r.execs, (unsigned long long)r.conflicts, r.bound_done, sh()->kase);
				fclose(f);
			}
			return true;
		}
	};
}
