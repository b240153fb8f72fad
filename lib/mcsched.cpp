// Scheduler and __tsan_* callbacks. Compiled WITHOUT -fsanitize=thread.
#include "mcsched.hpp"
#include <pthread.h>
#include <stdlib.h>
#include <time.h>
#include <errno.h>
#include <cxxabi.h>
#include <dlfcn.h>

// ---------------------------------------------------------------- fibers (x86-64)
extern "C" void mcs_switch(void** save_sp, void* load_sp);
asm(R"(
.text
.globl mcs_switch
.type mcs_switch,@function
mcs_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
.size mcs_switch,.-mcs_switch
)");

namespace
{
	enum { MAXT = 6 };
	const size_t ARENA = size_t(192) << 20;
	const size_t STACK = size_t(512) << 10;
	typedef unsigned char u8;

	// One region: [stacks][arena]; 8-byte granules
	char* g_region = nullptr;
	size_t g_region_size = 0;
	char* g_arena = nullptr;
	char* g_arena_end = nullptr;
	u8* g_acc = nullptr;    // learned: low nibble readers, high nibble writers (per granule)
	u8* g_active = nullptr; // granule is a scheduling point in this pass
	u8* g_state = nullptr;  // 0 never allocated, 1 live, 2 freed (arena granules only)
	// The arena is split in slots, one for setup/finish and one per thread: the addresses a thread gets do not depend
	// on the allocations of the other threads
	enum { NSLOT = 5 };
	const size_t SLOT = size_t(32) << 20;
	size_t g_used[NSLOT]; // bytes used in this execution
	size_t g_used_max[NSLOT];

	// ---- fingerprints: an execution prefix is identified, up to the order of independent accesses, by the hash of
	// what each thread did, where each access includes the hash of the write (and, for writes, the reads) it depends on
	struct Cell
	{
		uint64_t wh, rh;
		uint32_t gen;
	};
	Cell* g_cell = nullptr;      // per granule of the region
	Cell g_gcell[4096];          // globals, same index as g_glob
	uint64_t g_retacc = 0;       // calls that returned
	uint64_t g_callacc = 0;
	bool g_cache = true;
	bool g_pruned = false;
	struct Seen
	{
		uint64_t key;
		uint32_t gen;
		uint32_t cost;
	};
	Seen* g_seen = nullptr;
	size_t g_seen_cap = 0, g_seen_n = 0;
	uint32_t g_seen_gen = 0;
	uint64_t g_pruned_n = 0;
	inline uint64_t mix64(uint64_t a, uint64_t b)
	{
		uint64_t x = (a ^ (b * 0x9E3779B97F4A7C15ull)) + 0x632BE59BD9B4E019ull;
		x = (x ^ (x >> 32)) * 0xD6E8FEB86659FD93ull;
		x = (x ^ (x >> 29)) * 0xBF58476D1CE4E5B9ull;
		return x ^ (x >> 32);
	}
	// remember that the state was reached with cost preemptions; true when it was already reached with as few
	bool seen(uint64_t key, unsigned cost)
	{
		if (!g_seen || g_seen_n * 2 >= g_seen_cap) {
			size_t nc = g_seen_cap ? g_seen_cap * 2 : 1 << 16;
			Seen* o = g_seen;
			size_t oc = g_seen_cap;
			g_seen = static_cast<Seen*>(calloc(nc, sizeof(Seen)));
			if (!g_seen)
				abort();
			g_seen_cap = nc;
			for (size_t i = 0; i < oc; ++i)
				if (o[i].gen == g_seen_gen) {
					size_t h = o[i].key & (nc - 1);
					while (g_seen[h].gen == g_seen_gen)
						h = (h + 1) & (nc - 1);
					g_seen[h] = o[i];
				}
			free(o);
		}
		for (size_t h = key & (g_seen_cap - 1);; h = (h + 1) & (g_seen_cap - 1)) {
			Seen& s = g_seen[h];
			if (s.gen != g_seen_gen) {
				s.gen = g_seen_gen;
				s.key = key;
				s.cost = cost;
				++g_seen_n;
				return false;
			}
			if (s.key == key) {
				if (s.cost <= cost)
					return true;
				s.cost = cost;
				return false;
			}
		}
	}
	void seen_reset()
	{
		++g_seen_gen;
		g_seen_n = 0;
	}
	// globals (data/bss of the executable): hashed
	struct GlobEntry
	{
		uintptr_t a;
		u8 acc, active;
	};
	GlobEntry g_glob[4096];
	bool g_learned_more = false;

	struct Ctl
	{
		std::vector<int> choices;
	};

	struct Point
	{
		u8 chosen;
		u8 ncand;
		u8 cand[MAXT];
		u8 preempt; // 1: switching away from cand[0] (the running thread) costs one preemption
		u8 cost_before;
		uint32_t sig;
		uint64_t key[MAXT]; // fingerprints of the states
	};

	struct Thread
	{
		void* sp = nullptr;
		bool done = false;
		bool yielded = false;
		uint64_t yield_stamp = 0; // changes by others when it yielded
		uint64_t own_changes = 0;
		uint32_t vc[MAXT + 1];
		void* eh[2] = { nullptr, nullptr };
		const void* blocked_on = nullptr; // condition variable without timeout
		bool window = false;
		// fairness: threads that must run before this one does (they were ready and never ran between two yields of it)
		u8 after = 0;
		u8 ran = 0xFF; // threads that ran since the last yield of this one
		uint64_t th = 0; // fingerprint of what it did
	};

	bool g_active_run = false; // callbacks live
	int g_busy = 0;            // inside the runtime: callbacks ignored
	bool g_in_exec = false;    // allocations go to the arena
	int g_cur = -1;
	int g_n = 0;
	bool g_solo = false; // setup/finish phase
	Thread g_t[MAXT + 1];
	void* g_main_sp = nullptr;
	const std::function<void()>* g_body[MAXT + 1];
	uint64_t g_changes = 0;
	uint64_t g_stuck = 0;
	uint64_t g_steps = 0;
	uint64_t g_clock = 0;
	uint32_t g_exec_no = 0;
	uint64_t g_vtime = 0;
	int64_t g_live = 0;
	int64_t g_fault_at = 0, g_fault_count = 0;
	int g_fault_mask = 0;
	bool g_fault_fired = false;
	bool g_no_preempt_more = false;
	bool g_ignore_leaks = false;

	Point* g_pts = nullptr;
	size_t g_npts = 0, g_cap_pts = 0;
	const u8* g_prefix = nullptr;
	const uint32_t* g_prefix_sig = nullptr;
	size_t g_prefix_len = 0;
	int g_bound = 0;
	int g_cost = 0;

	mcs::Result* g_res = nullptr;

	const uint64_t STUCK_LIMIT = 3000;
	const uint64_t STEP_LIMIT = 400000;

	// ---------------------------------------------------------------- happens-before
	struct SyncVar
	{
		uintptr_t a;
		uint32_t gen;
		uint32_t vc[MAXT + 1];
	};
	const size_t NSYNC = 1 << 14;
	SyncVar* g_sync = nullptr;
	struct UserVar
	{
		uintptr_t a;
		uint32_t gen;
		int wt;           // last writer
		uint32_t wc;      // its clock
		uint32_t rc[MAXT + 1];
		const char* wwhat;
		int excl;   // thread visiting exclusively (-1 none)
		u8 shared;  // mask of threads visiting shared
	};
	const size_t NUSER = 1 << 13;
	UserVar* g_user = nullptr;
	uint32_t g_gen = 0;
	SyncVar* sync_find(uintptr_t a, bool create)
	{
		size_t h = (a >> 0) * 0x9E3779B97F4A7C15ull >> 50;
		for (size_t i = 0; i < NSYNC; ++i) {
			SyncVar& s = g_sync[(h + i) & (NSYNC - 1)];
			if (s.gen != g_gen) {
				if (!create)
					return nullptr;
				s.gen = g_gen;
				s.a = a;
				memset(s.vc, 0, sizeof s.vc);
				return &s;
			}
			if (s.a == a)
				return &s;
		}
		return nullptr;
	}
	UserVar* user_find(uintptr_t a)
	{
		size_t h = (a >> 2) * 0x9E3779B97F4A7C15ull >> 51;
		for (size_t i = 0; i < NUSER; ++i) {
			UserVar& s = g_user[(h + i) & (NUSER - 1)];
			if (s.gen != g_gen) {
				s.gen = g_gen;
				s.a = a;
				s.wt = -1;
				s.wc = 0;
				s.excl = -1;
				s.shared = 0;
				s.wwhat = "";
				memset(s.rc, 0, sizeof s.rc);
				return &s;
			}
			if (s.a == a)
				return &s;
		}
		return nullptr;
	}
	inline uint32_t* myvc() { return g_t[g_cur].vc; }
	void acquire(uintptr_t a)
	{
		if (SyncVar* s = sync_find(a, false)) {
			uint32_t* v = myvc();
			for (int i = 0; i <= g_n; ++i)
				if (s->vc[i] > v[i])
					v[i] = s->vc[i];
		}
	}
	void release_store(uintptr_t a, bool rel)
	{
		SyncVar* s = sync_find(a, rel);
		if (!s)
			return;
		if (rel) {
			memcpy(s->vc, myvc(), sizeof s->vc);
			myvc()[g_cur]++;
		}
		else
			memset(s->vc, 0, sizeof s->vc);
	}
	void release_rmw(uintptr_t a)
	{
		SyncVar* s = sync_find(a, true);
		uint32_t* v = myvc();
		for (int i = 0; i <= g_n; ++i)
			if (v[i] > s->vc[i])
				s->vc[i] = v[i];
		v[g_cur]++;
	}
	inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
	inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

	// ---------------------------------------------------------------- scheduling
	std::string sched_string()
	{
		std::string r;
		int prev = -1;
		size_t run = 0;
		for (size_t i = 0; i < g_npts; ++i) {
			int c = g_pts[i].chosen;
			if (c != prev) {
				if (prev >= 0)
					r += "T" + std::to_string(prev) + "x" + std::to_string(run) + " ";
				prev = c;
				run = 0;
			}
			++run;
		}
		if (prev >= 0)
			r += "T" + std::to_string(prev) + "x" + std::to_string(run);
		if (r.size() > 1500)
			r = r.substr(0, 1500) + "...";
		return r;
	}
	void switch_to(int t);

	[[noreturn]] void die(const char* msg)
	{
		g_busy++;
		g_in_exec = false;
		g_active_run = false;
		mc::fail("%s [threads=%d preemptions=%d%s schedule: %s]", msg, g_n, g_cost, g_fault_at ? (" fault=" + std::to_string(g_fault_at)).c_str() : "", sched_string().c_str());
	}

	// is there a reason to run thread i: it is not finished or blocked, and not waiting for a change that did not happen
	bool ready(int i)
	{
		return !g_t[i].done && !g_t[i].blocked_on && !(g_t[i].yielded && g_changes - g_t[i].own_changes == g_t[i].yield_stamp);
	}
	bool may_run(int i)
	{
		if (!ready(i))
			return false;
		if (u8 m = g_t[i].after)
			for (int u = 0; u < g_n; ++u)
				if ((m >> u & 1) && u != i && ready(u))
					return false;
		return true;
	}

	// fingerprint of the state in which thread next runs next
	uint64_t state_key(int next)
	{
		uint64_t k = mix64(uint64_t(next) + 1, g_vtime);
		if (g_fault_mask)
			k = mix64(k, uint64_t(g_fault_count));
		for (int i = 0; i < g_n; ++i) {
			Thread& t = g_t[i];
			bool y = t.yielded && i != next;
			k = mix64(k, t.th);
			k = mix64(k, uint64_t(t.done) | uint64_t(y) << 1 | uint64_t(t.blocked_on != nullptr) << 2 | uint64_t(t.after & ~(1u << next)) << 8 | uint64_t(t.ran | (1u << next)) << 16 |
				       uint64_t(y && g_changes - t.own_changes == t.yield_stamp) << 24);
		}
		return k;
	}

	// Choose the next thread. kind: 0 access (running thread may continue), 1 yield, 2 finished/blocked
	void schedule(int kind, uint32_t sig)
	{
		++g_steps;
		if (g_steps > STEP_LIMIT)
			die("no termination: step limit reached");
		u8 cand[MAXT];
		int n = 0;
		if (kind == 0) {
			cand[n++] = u8(g_cur);
			if (!g_no_preempt_more) {
				for (int i = 0; i < g_n; ++i) {
					// a waiting thread is worth running again only if somebody changed something
					if (i != g_cur && may_run(i))
						cand[n++] = u8(i);
				}
			}
		}
		else {
			for (int i = 0; i < g_n; ++i) {
				if (i != g_cur && may_run(i))
					cand[n++] = u8(i);
			}
			if (n == 0) {
				// nobody has a reason to progress: round robin over the waiting threads
				++g_stuck;
				++g_vtime;
				int nlive = 0, nblocked = 0;
				for (int i = 0; i < g_n; ++i)
					if (!g_t[i].done) {
						++nlive;
						if (g_t[i].blocked_on)
							++nblocked;
					}
				if (nlive && nlive == nblocked)
					die("deadlock: every thread waits for a notification");
				if (g_stuck > STUCK_LIMIT)
					die("deadlock: no thread can make progress any more");
				int start = g_cur < 0 ? 0 : g_cur + 1;
				for (int k = 0; k < g_n; ++k) {
					int i = (start + k) % g_n;
					if (!g_t[i].done && !g_t[i].blocked_on) {
						cand[n++] = u8(i);
						break;
					}
				}
				if (n == 0)
					return; // all done (caller handles)
			}
			else
				g_stuck = 0;
		}
		int next = cand[0];
		if (n > 1) {
			size_t idx = g_npts;
			if (g_npts == g_cap_pts) {
				g_cap_pts = g_cap_pts ? g_cap_pts * 2 : 4096;
				g_pts = static_cast<Point*>(realloc(g_pts, g_cap_pts * sizeof(Point)));
			}
			Point& p = g_pts[g_npts++];
			p.ncand = u8(n);
			memcpy(p.cand, cand, size_t(n));
			p.preempt = kind == 0;
			p.cost_before = u8(g_cost);
			p.sig = sig * 31u + uint32_t(g_cur + 1) * 7u + uint32_t(n);
			for (int i = 0; i < n; ++i)
				p.key[i] = state_key(cand[i]);
			if (idx < g_prefix_len) {
				next = g_prefix[idx];
				if (g_prefix_sig[idx] != p.sig)
					die("HARNESS ERROR: replay of a schedule prefix diverged");
				bool ok = false;
				for (int i = 0; i < n; ++i)
					ok |= cand[i] == next;
				if (!ok)
					die("HARNESS ERROR: replayed choice is not enabled");
			}
			p.chosen = u8(next);
			if (kind == 0 && next != g_cur)
				++g_cost;
			// everything that can happen from here was already explored
			if (g_cache && idx >= g_prefix_len && seen(state_key(next), unsigned(g_cost))) {
				g_pruned = true;
				--g_npts;
				++g_pruned_n;
				void* d;
				mcs_switch(&d, g_main_sp);
				abort();
			}
		}
		if (next != g_cur)
			switch_to(next);
	}

	void eh_save(Thread& t)
	{
		void** g = reinterpret_cast<void**>(abi::__cxa_get_globals());
		t.eh[0] = g[0];
		t.eh[1] = g[1];
	}
	void eh_load(Thread& t)
	{
		void** g = reinterpret_cast<void**>(abi::__cxa_get_globals());
		g[0] = t.eh[0];
		g[1] = t.eh[1];
	}
	void switch_to(int t)
	{
		int from = g_cur;
		g_t[t].yielded = false;
		for (int i = 0; i < g_n; ++i) {
			g_t[i].ran = u8(g_t[i].ran | (1u << t));
			g_t[i].after = u8(g_t[i].after & ~(1u << t));
		}
		g_cur = t;
		void* dummy;
		if (from >= 0)
			eh_save(g_t[from]);
		eh_load(g_t[t]);
		mcs_switch(from >= 0 ? &g_t[from].sp : &dummy, g_t[t].sp);
		// back
	}

	void fiber_main()
	{
		g_busy = 0;
		int me = g_cur;
		{
			(*g_body[me])();
		}
		++g_busy;
		g_t[me].done = true;
		++g_changes;
		bool any = false;
		for (int i = 0; i < g_n; ++i)
			any |= !g_t[i].done;
		if (any && !g_solo) {
			schedule(2, 77);
			// never returns here
		}
		// all finished
		eh_save(g_t[me]);
		void* d;
		mcs_switch(&d, g_main_sp);
		abort();
	}

	void make_fiber(int i, char* stack_top)
	{
		uintptr_t top = reinterpret_cast<uintptr_t>(stack_top) & ~uintptr_t(15);
		void** sp = reinterpret_cast<void**>(top);
		*--sp = nullptr; // fake return address: entry must see rsp % 16 == 8
		*--sp = reinterpret_cast<void*>(&fiber_main);
		for (int k = 0; k < 6; ++k)
			*--sp = nullptr;
		g_t[i].sp = sp;
		g_t[i].done = false;
		g_t[i].yielded = false;
		g_t[i].yield_stamp = 0;
		g_t[i].own_changes = 0;
		g_t[i].after = 0;
		g_t[i].ran = 0xFF;
		g_t[i].eh[0] = g_t[i].eh[1] = nullptr;
		g_t[i].blocked_on = nullptr;
		g_t[i].window = false;
		g_t[i].th = 0;
	}

	// ---------------------------------------------------------------- accesses
	inline u8* glob_slot(uintptr_t a, bool active)
	{
		size_t h = (a >> 3) * 0x9E3779B97F4A7C15ull >> 52;
		for (size_t i = 0; i < 4096; ++i) {
			GlobEntry& e = g_glob[(h + i) & 4095];
			if (!e.a)
				e.a = a >> 3 << 3;
			if (e.a == (a >> 3 << 3))
				return active ? &e.active : &e.acc;
		}
		static u8 sink;
		sink = 0xff;
		return &sink;
	}
	inline bool conflicting(u8 a)
	{
		u8 w = u8(a >> 4), r = u8(a & 15);
		return w && (__builtin_popcount(unsigned(w | r)) >= 2);
	}
	void bad_access(uintptr_t a, bool write, int state)
	{
		char b[256];
		snprintf(b, sizeof b, "%s of %s memory at arena+%zu", write ? "write" : "read", state == 2 ? "freed" : "never allocated", size_t(a - uintptr_t(g_arena)));
		die(b);
	}
	inline Cell* cell_of(uintptr_t g)
	{
		uintptr_t x = g << 3;
		size_t off = size_t(x - uintptr_t(g_region)) >> 3;
		Cell* c;
		if (off < g_region_size >> 3)
			c = g_cell + off;
		else {
			size_t h = (x >> 3) * 0x9E3779B97F4A7C15ull >> 52;
			size_t i = 0;
			for (; i < 4095 && g_glob[(h + i) & 4095].a != x; ++i) {
			}
			c = g_gcell + ((h + i) & 4095);
		}
		if (c->gen != g_exec_no) {
			c->gen = g_exec_no;
			c->wh = c->rh = 0;
		}
		return c;
	}
	inline void event(uintptr_t a, size_t size, bool write)
	{
		Thread& t = g_t[g_cur];
		uintptr_t e = a + (size ? size : 1) - 1;
		for (uintptr_t g = a >> 3; g <= e >> 3; ++g) {
			Cell* c = cell_of(g);
			t.th = mix64(mix64(t.th, uint64_t(g) * 2 + (write ? 1 : 0)), c->wh);
			if (write) {
				t.th = mix64(t.th, c->rh);
				c->wh = t.th;
				c->rh = 0;
			}
			else
				c->rh += mix64(t.th, 99);
		}
	}
	// returns true when the location is a scheduling point
	inline bool note(uintptr_t a, size_t size, bool write)
	{
		bool pt = false;
		uintptr_t e = a + (size ? size : 1) - 1;
		for (uintptr_t g = a >> 3; g <= e >> 3; ++g) {
			uintptr_t x = g << 3;
			u8 *acc, *act;
			size_t off = size_t(x - uintptr_t(g_region)) >> 3;
			if (off < g_region_size >> 3) {
				acc = g_acc + off;
				act = g_active + off;
				if (x >= uintptr_t(g_arena) && g_state[off] != 1)
					bad_access(x, write, g_state[off]);
			}
			else {
				if (x < 4096)
					die(write ? "write through a null pointer" : "read through a null pointer");
				// ignore the main stack (setup code) and foreign memory except the executable's data
				acc = glob_slot(x, false);
				act = glob_slot(x, true);
			}
			if (!g_solo) {
				u8 bit = u8(1u << (g_cur & 3));
				u8 nv = u8(*acc | (write ? bit << 4 : bit));
				if (nv != *acc) {
					bool was = conflicting(*acc);
					*acc = nv;
					if (!was && conflicting(nv))
						g_learned_more = true;
				}
				pt |= *act != 0;
			}
		}
		return pt;
	}
	inline uint32_t sig_of(uintptr_t a, bool write)
	{
		return uint32_t((a * 0x9E3779B97F4A7C15ull) >> 40) * 2u + (write ? 1u : 0u);
	}
	inline void changed()
	{
		++g_changes;
		++g_t[g_cur].own_changes;
	}
	inline void access(void* p, size_t size, bool write)
	{
		if (!g_active_run || g_busy)
			return;
		++g_busy;
		uintptr_t a = reinterpret_cast<uintptr_t>(p);
		if (note(a, size, write)) {
			schedule(0, sig_of(a, write));
			event(a, size, write);
			if (write)
				changed();
		}
		--g_busy;
	}
	// atomic: returns after the scheduling decision
	inline void atomic_point(uintptr_t a, size_t size, bool write)
	{
		if (note(a, size, write))
		{
			schedule(0, sig_of(a, write) ^ 0x5555u);
			event(a, size, write);
		}
	}
	struct Atom
	{
		bool on;
		uintptr_t a;
		Atom(const volatile void* p, size_t size, bool write)
		  : on(g_active_run && !g_busy)
		  , a(uintptr_t(p))
		{
			if (on) {
				++g_busy;
				atomic_point(a, size, write);
			}
		}
		~Atom()
		{
			if (on)
				--g_busy;
		}
	};

	// ---------------------------------------------------------------- execution
	char* stack_top(int i) { return g_region + size_t(i + 1) * STACK; }

	void init_region()
	{
		if (g_region)
			return;
		size_t total = STACK * (MAXT + 1) + ARENA;
		// fixed address: executions, processes and replays see the same addresses
		g_region = static_cast<char*>(mmap(reinterpret_cast<void*>(0x600000000000ull), total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0));
		if (g_region == MAP_FAILED) {
			g_region = static_cast<char*>(mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
		}
		g_region_size = total;
		g_arena = g_region + STACK * (MAXT + 1);
		g_arena_end = g_region + total;
		auto sh = [&](size_t n) { return static_cast<u8*>(mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0)); };
		g_acc = sh(total / 8 + 64);
		g_active = sh(total / 8 + 64);
		g_state = sh(total / 8 + 64);
		g_cell = reinterpret_cast<Cell*>(sh((total / 8 + 64) * sizeof(Cell)));
		g_sync = reinterpret_cast<SyncVar*>(sh(NSYNC * sizeof(SyncVar)));
		g_user = reinterpret_cast<UserVar*>(sh(NUSER * sizeof(UserVar)));
	}

	inline char* slot(int i) { return g_arena + size_t(i) * SLOT; }
	void reset_arena()
	{
		for (int i = 0; i < NSLOT; ++i) {
			size_t base = size_t(slot(i) - g_region) >> 3;
			memset(g_state + base, 0, (g_used[i] >> 3) + 8);
			if (g_used[i] > g_used_max[i])
				g_used_max[i] = g_used[i];
			g_used[i] = 0;
		}
		g_live = 0;
	}

	void run_fibers(int n, bool solo)
	{
		g_n = n;
		g_solo = solo;
		g_active_run = true;
		g_busy = 1;
		g_stuck = 0;
		g_cur = -1;
		// first choice: free
		int first = 0;
		if (!solo && n > 1) {
			// model it as a point without preemption cost
			g_cur = -1;
			u8 save = 0;
			(void)save;
		}
		void* d;
		(void)d;
		if (solo || n == 1) {
			g_cur = first;
			eh_load(g_t[first]);
			mcs_switch(&g_main_sp, g_t[first].sp);
		}
		else {
			// emulate schedule(2) from no thread
			size_t idx = g_npts;
			if (g_npts == g_cap_pts) {
				g_cap_pts = g_cap_pts ? g_cap_pts * 2 : 4096;
				g_pts = static_cast<Point*>(realloc(g_pts, g_cap_pts * sizeof(Point)));
			}
			Point& p = g_pts[g_npts++];
			p.ncand = u8(n);
			for (int i = 0; i < n; ++i)
				p.cand[i] = u8(i);
			p.preempt = 0;
			p.cost_before = 0;
			p.sig = 4242;
			int next = 0;
			if (idx < g_prefix_len)
				next = g_prefix[idx];
			p.chosen = u8(next);
			for (int i = 0; i < n; ++i)
				p.key[i] = state_key(i);
			if (g_cache && idx >= g_prefix_len)
				seen(p.key[next], 0);
			g_cur = next;
			eh_load(g_t[next]);
			mcs_switch(&g_main_sp, g_t[next].sp);
		}
		g_active_run = false;
		g_busy = 0;
		g_cur = -1;
	}
	void* g_main_eh[2];

	struct ExecOut
	{
		bool fault_fired;
		int64_t fault_points;
	};

	ExecOut one_execution(const mcs::Scenario& s)
	{
		void** g = reinterpret_cast<void**>(abi::__cxa_get_globals());
		g_main_eh[0] = g[0];
		g_main_eh[1] = g[1];
		++g_gen;
		++g_exec_no;
		g_pruned = false;
		g_retacc = g_callacc = 0;
		reset_arena();
		g_changes = 0;
		g_steps = 0;
		g_clock = 0;
		g_vtime = 0;
		g_npts = 0;
		g_cost = 0;
		g_fault_count = 0;
		g_fault_fired = false;
		for (int i = 0; i <= MAXT; ++i)
			memset(g_t[i].vc, 0, sizeof g_t[i].vc);
		g_in_exec = true;
		int n = int(s.threads.size());
		// setup in a fiber (thread n), so that its stack is in the region too
		auto solo = [&](const std::function<void()>* f) {
			make_fiber(0, stack_top(MAXT));
			// accounted as thread index 0 with the clocks of "everything before/after"
			g_body[0] = f;
			run_fibers(1, true);
		};
		for (int i = 0; i <= MAXT; ++i)
			for (int j = 0; j <= MAXT; ++j)
				g_t[i].vc[j] = 1;
		solo(&s.setup);
		// threads start after the setup
		uint32_t base = 0;
		for (int i = 0; i <= MAXT; ++i)
			for (int j = 0; j <= MAXT; ++j)
				base = std::max(base, g_t[i].vc[j]);
		for (int i = 0; i <= MAXT; ++i)
			for (int j = 0; j <= MAXT; ++j)
				g_t[i].vc[j] = base + (i == j ? 1 : 0);
		for (int i = 0; i < n; ++i) {
			make_fiber(i, stack_top(i));
			g_body[i] = &s.threads[size_t(i)];
		}
		run_fibers(n, false);
		if (g_pruned) {
			g_in_exec = false;
			g[0] = g_main_eh[0];
			g[1] = g_main_eh[1];
			return ExecOut{ g_fault_fired, g_fault_count };
		}
		// join
		uint32_t top = 0;
		for (int i = 0; i <= MAXT; ++i)
			for (int j = 0; j <= MAXT; ++j)
				top = std::max(top, g_t[i].vc[j]);
		for (int i = 0; i <= MAXT; ++i)
			for (int j = 0; j <= MAXT; ++j)
				g_t[i].vc[j] = top + 1;
		g_n = n;
		size_t saved = g_npts;
		solo(&s.finish);
		g_npts = saved;
		g_in_exec = false;
		g[0] = g_main_eh[0];
		g[1] = g_main_eh[1];
		if (g_live && !g_ignore_leaks)
			die(("memory: " + std::to_string(g_live) + " block(s) not released").c_str());
		return ExecOut{ g_fault_fired, g_fault_count };
	}

	struct Node
	{
		std::vector<u8> choice;
		std::vector<uint32_t> sig;
	};
	struct Stop
	{
	};
	uint64_t g_execs_left = 0;

	void explore_rec(const mcs::Scenario& s, const std::vector<u8>& prefix, const std::vector<uint32_t>& psig, ExecOut* root)
	{
		if (g_execs_left-- == 0)
			throw Stop();
		g_prefix = prefix.data();
		g_prefix_sig = psig.data();
		g_prefix_len = prefix.size();
		ExecOut o = one_execution(s);
		if (root)
			*root = o;
		g_res->execs++;
		g_res->points += g_steps;
		g_res->nodes += g_npts > prefix.size() ? g_npts - prefix.size() : 0;
		mc::sh()->cases++;
		mc::sh()->nontrivial++;
		mc::sh()->progress = mc::sh()->progress + 1;
		if (g_npts < prefix.size())
			die("HARNESS ERROR: execution shorter than its prefix");
		if ((g_res->execs & 255) == 0 && mc::now() > mc::run().deadline) {
			mc::sh()->capped = 1;
			throw mc::StopBudget{};
		}
		// copy the points of this execution
		std::vector<Point> pts(g_pts, g_pts + g_npts);
		std::vector<u8> ch(pts.size());
		std::vector<uint32_t> sg(pts.size());
		for (size_t i = 0; i < pts.size(); ++i) {
			ch[i] = pts[i].chosen;
			sg[i] = pts[i].sig;
		}
		for (size_t i = prefix.size(); i < pts.size(); ++i) {
			const Point& p = pts[i];
			int cost = p.cost_before + (p.preempt ? 1 : 0);
			if (cost > g_bound)
				continue;
			for (int k = 0; k < p.ncand; ++k) {
				if (p.cand[k] == p.chosen)
					continue;
				if (g_cache && seen(p.key[k], unsigned(cost)))
					continue;
				std::vector<u8> np(ch.begin(), ch.begin() + ptrdiff_t(i));
				np.push_back(p.cand[k]);
				std::vector<uint32_t> ns(sg.begin(), sg.begin() + ptrdiff_t(i) + 1);
				explore_rec(s, np, ns, nullptr);
			}
		}
	}

	bool activate_learned()
	{
		bool more = false;
		auto range = [&](size_t from, size_t to) {
			for (size_t i = from; i < to; ++i)
				if (!g_active[i] && conflicting(g_acc[i])) {
					g_active[i] = 1;
					more = true;
					g_res->conflicts++;
				}
		};
		range(0, size_t(g_arena - g_region) >> 3);
		for (int k = 0; k < NSLOT; ++k) {
			size_t b = size_t(slot(k) - g_region) >> 3;
			range(b, b + ((std::max(g_used[k], g_used_max[k]) + 64) >> 3));
		}
		for (auto& e : g_glob)
			if (e.a && !e.active && conflicting(e.acc)) {
				e.active = 1;
				more = true;
				g_res->conflicts++;
			}
		g_learned_more = false;
		return more;
	}
}

namespace mcs
{
	Result explore(const Scenario& s)
	{
		init_region();
		Result r;
		g_res = &r;
		if (s.threads.size() > 4)
			mc::fail("HARNESS ERROR: at most 4 threads");
		// forget what was learned in the previous scenario
		memset(g_acc, 0, size_t(g_arena - g_region) >> 3);
		memset(g_active, 0, size_t(g_arena - g_region) >> 3);
		for (int k = 0; k < NSLOT; ++k) {
			size_t b = size_t(slot(k) - g_region) >> 3, n = (std::max(g_used[k], g_used_max[k]) + 128) >> 3;
			memset(g_acc + b, 0, n);
			memset(g_active + b, 0, n);
			g_used_max[k] = 0;
		}
		memset(g_glob, 0, sizeof g_glob);
		memset(g_gcell, 0, sizeof g_gcell);
		g_cache = !getenv("MC_NOCACHE");
		std::vector<u8> none;
		std::vector<uint32_t> nsig;
		g_execs_left = s.max_execs;
		std::string kase = mc::sh()->kase;
		// warm up: lazily built statics, and the number of fault points
		g_bound = -1;
		g_fault_mask = s.fault_mask;
		g_fault_at = 0;
		ExecOut root;
		// the first execution may build function-local statics: its leaks do not count
		{
			g_prefix_len = 0;
			g_ignore_leaks = true;
			seen_reset();
			try {
				explore_rec(s, none, nsig, &root);
			}
			catch (const Stop&) {
			}
			g_ignore_leaks = false;
		}
		// replay determinism: the same schedule twice gives the same points
		{
			seen_reset();
			explore_rec(s, none, nsig, &root);
			std::vector<uint32_t> a;
			for (size_t i = 0; i < g_npts; ++i)
				a.push_back(g_pts[i].sig);
			seen_reset();
			explore_rec(s, none, nsig, &root);
			bool same = a.size() == g_npts;
			for (size_t i = 0; same && i < g_npts; ++i)
				same = a[i] == g_pts[i].sig;
			if (!same)
				mc::fail("HARNESS ERROR: the same schedule does not replay identically");
		}
		int64_t nf = s.fault_mask ? 1000 : 0;
		bool stop = false;
		for (int64_t f = s.fault_mask ? 1 : 0; f <= nf && !stop; ++f) {
			g_fault_at = f;
			bool any_fired = f == 0;
			for (int b = 0; b <= s.bound && !stop; ++b) {
				g_bound = b;
				for (int pass = 0;; ++pass) {
					activate_learned();
					r.passes++;
					seen_reset();
					try {
						explore_rec(s, none, nsig, &root);
					}
					catch (const Stop&) {
						stop = true;
						r.capped = true;
						break;
					}
					any_fired |= root.fault_fired;
					if (!g_learned_more)
						break;
				}
				if (!stop)
					r.bound_done = b;
			}
			if (f && any_fired)
				r.faults++;
			if (f && !any_fired)
				break;
		}
		if (stop)
			mc::sh()->capped = 1;
		mc::sh()->transitions += r.points;
		mc::sh()->states += r.nodes;
		mc::sh()->faults += r.faults;
		(void)kase;
		return r;
	}
	int tid() { return g_solo ? -1 : g_cur; }
	// the order of all clock() events is part of the state
	uint64_t clock()
	{
		if (g_cur >= 0 && !g_solo) {
			Thread& t = g_t[g_cur];
			t.th = mix64(mix64(t.th, 77), g_retacc + g_callacc);
			g_callacc = g_retacc = mix64(t.th, 78);
		}
		return ++g_clock;
	}
	// only the order of calls with respect to earlier returns is part of the state
	uint64_t call_clock()
	{
		if (g_cur >= 0 && !g_solo) {
			Thread& t = g_t[g_cur];
			t.th = mix64(mix64(t.th, 79), g_retacc);
		}
		return ++g_clock;
	}
	uint64_t ret_clock()
	{
		if (g_cur >= 0 && !g_solo) {
			Thread& t = g_t[g_cur];
			t.th = mix64(t.th, 80);
			g_retacc += mix64(t.th, 81);
		}
		return ++g_clock;
	}
	int32_t peek(const void* p) { return *static_cast<const volatile int32_t*>(p); }
	void poke(void* p, int32_t v) { *static_cast<volatile int32_t*>(p) = v; }
	static void check_user(const void* p, bool write)
	{
		if (p >= g_arena && p < g_arena_end) {
			u8 st = g_state[size_t(static_cast<const char*>(p) - g_region) >> 3];
			if (st != 1)
				bad_access(uintptr_t(p), write, st);
		}
	}
	void user_write(const void* p, const char* what)
	{
		if (!g_active_run || g_busy || g_cur < 0)
			return;
		++g_busy;
		check_user(p, true);
		UserVar* u = user_find(uintptr_t(p));
		uint32_t* v = myvc();
		if (u) {
			char b[300];
			if (u->wt >= 0 && u->wt != g_cur && u->wc > v[u->wt]) {
				snprintf(b, sizeof b, "data race on an element: %s by T%d is not ordered after %s by T%d", what, g_cur, u->wwhat, u->wt);
				die(b);
			}
			for (int i = 0; i < MAXT; ++i)
				if (i != g_cur && u->rc[i] > v[i]) {
					snprintf(b, sizeof b, "data race on an element: %s by T%d is not ordered after a read by T%d", what, g_cur, i);
					die(b);
				}
			if (u->excl >= 0 && u->excl != g_cur) {
				snprintf(b, sizeof b, "%s by T%d while a functor of T%d is visiting the element", what, g_cur, u->excl);
				die(b);
			}
			if (u->shared & ~(1u << g_cur)) {
				snprintf(b, sizeof b, "%s by T%d while a read-only functor of another thread (mask %x) is visiting the element", what, g_cur, u->shared);
				die(b);
			}
			u->wt = g_solo ? -1 : g_cur;
			u->wc = v[g_cur];
			u->wwhat = what;
			memset(u->rc, 0, sizeof u->rc);
		}
		--g_busy;
	}
	void user_read(const void* p, const char* what)
	{
		if (!g_active_run || g_busy || g_cur < 0)
			return;
		++g_busy;
		check_user(p, false);
		UserVar* u = user_find(uintptr_t(p));
		uint32_t* v = myvc();
		if (u) {
			char b[300];
			if (u->wt >= 0 && u->wt != g_cur && u->wc > v[u->wt]) {
				snprintf(b, sizeof b, "data race on an element: %s by T%d is not ordered after %s by T%d", what, g_cur, u->wwhat, u->wt);
				die(b);
			}
			if (u->excl >= 0 && u->excl != g_cur) {
				snprintf(b, sizeof b, "%s by T%d while a functor of T%d is visiting the element", what, g_cur, u->excl);
				die(b);
			}
			if (!g_solo)
				u->rc[g_cur] = v[g_cur];
		}
		--g_busy;
	}
	void user_forget(const void*) {}
	void visit_enter(const void* p, bool exclusive)
	{
		if (!g_active_run || g_busy || g_cur < 0 || g_solo)
			return;
		++g_busy;
		if (UserVar* u = user_find(uintptr_t(p))) {
			char b[300];
			if (u->excl >= 0 && u->excl != g_cur) {
				snprintf(b, sizeof b, "functor of T%d enters an element while a functor of T%d is visiting it", g_cur, u->excl);
				die(b);
			}
			if (exclusive && (u->shared & ~(1u << g_cur))) {
				snprintf(b, sizeof b, "modifying functor of T%d enters an element while a read-only functor (mask %x) is visiting it", g_cur, u->shared);
				die(b);
			}
			if (exclusive)
				u->excl = g_cur;
			else
				u->shared = u8(u->shared | (1u << g_cur));
		}
		--g_busy;
	}
	void visit_leave(const void* p, bool exclusive)
	{
		if (!g_active_run || g_busy || g_cur < 0 || g_solo)
			return;
		++g_busy;
		if (UserVar* u = user_find(uintptr_t(p))) {
			if (exclusive)
				u->excl = -1;
			else
				u->shared = u8(u->shared & ~(1u << g_cur));
		}
		--g_busy;
	}
	void outcome(uint64_t h)
	{
		++g_busy;
		bool ie = g_in_exec;
		g_in_exec = false;
		mc::note_outcome(h);
		g_in_exec = ie;
		--g_busy;
	}
	void progress() { g_stuck = 0; }
	void fault_window(bool on)
	{
		if (g_cur >= 0)
			g_t[g_cur].window = on;
	}
	void fail_sched(const char* fmt, ...)
	{
		char b[3000];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(b, sizeof b, fmt, ap);
		va_end(ap);
		die(b);
	}
	Hidden::Hidden()
	{
		++g_busy;
	}
	Hidden::~Hidden() { --g_busy; }
	int64_t live_blocks() { return g_live; }

	// fault point used by element types and functors
	void fault_point(int kind)
	{
		if (!g_active_run || g_solo || g_cur < 0 || !(g_fault_mask & kind) || !g_t[g_cur].window)
			return;
		++g_fault_count;
		if (g_fault_at && g_fault_count == g_fault_at) {
			g_fault_fired = true;
			throw mc::Fault{ kind };
		}
	}
}

// ---------------------------------------------------------------- allocation
static void* mcs_alloc(size_t n, size_t al)
{
	if (!g_in_exec) {
		void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
		if (!p)
			throw std::bad_alloc();
		return p;
	}
	++g_busy;
	if (g_busy == 1) {
		try {
			mcs::fault_point(mc::F_ALLOC);
		}
		catch (...) {
			--g_busy;
			throw;
		}
	}
	if (al < 16)
		al = 16;
	int sl = g_solo || g_cur < 0 ? 0 : 1 + g_cur;
	uintptr_t base = (uintptr_t(slot(sl)) + g_used[sl] + 16 + al - 1) / al * al;
	if (n == 0)
		n = 1;
	if (n > SLOT || base + n + 32 > uintptr_t(slot(sl)) + SLOT) {
		--g_busy;
		throw std::bad_alloc();
	}
	*reinterpret_cast<size_t*>(base - 8) = n;
	size_t off = size_t(base - uintptr_t(g_region)) >> 3;
	memset(g_state + off, 1, (n + 7) >> 3);
	memset(reinterpret_cast<void*>(base), 0xA5, n);
	g_used[sl] = size_t(base - uintptr_t(slot(sl))) + ((n + 15) & ~size_t(15)) + 16;
	++g_live;
	--g_busy;
	return reinterpret_cast<void*>(base);
}
static void mcs_free(void* p)
{
	if (!p)
		return;
	if (p < g_arena || p >= g_arena_end || !g_arena) {
		free(p);
		return;
	}
	if (!g_in_exec)
		return;
	++g_busy;
	size_t off = size_t(static_cast<char*>(p) - g_region) >> 3;
	if (g_state[off] != 1)
		die("double free");
	size_t n = reinterpret_cast<size_t*>(p)[-1];
	memset(g_state + off, 2, (n + 7) >> 3);
	--g_live;
	--g_busy;
}
void* operator new(size_t n) { return mcs_alloc(n, 0); }
void* operator new[](size_t n) { return mcs_alloc(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return mcs_alloc(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return mcs_alloc(n, size_t(a)); }
void operator delete(void* p) noexcept { mcs_free(p); }
void operator delete[](void* p) noexcept { mcs_free(p); }
void operator delete(void* p, size_t) noexcept { mcs_free(p); }
void operator delete[](void* p, size_t) noexcept { mcs_free(p); }
void operator delete(void* p, std::align_val_t) noexcept { mcs_free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { mcs_free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { mcs_free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { mcs_free(p); }

// ---------------------------------------------------------------- waiting
static void do_yield(uint32_t sig)
{
	if (!g_active_run || g_cur < 0)
		return;
	++g_busy;
	if (g_solo) {
		if (++g_stuck > STUCK_LIMIT)
			die("an operation never returns although no other thread is running");
		++g_vtime;
	}
	else {
		Thread& t = g_t[g_cur];
		t.yielded = true;
		t.yield_stamp = g_changes - t.own_changes;
		for (int i = 0; i < g_n; ++i)
			if (i != g_cur && !(t.ran >> i & 1) && ready(i))
				t.after = u8(t.after | (1u << i));
		t.ran = u8(1u << g_cur);
		schedule(1, sig);
		g_t[g_cur].yielded = false;
	}
	--g_busy;
}
extern "C" int sched_yield()
{
	do_yield(11);
	return 0;
}
struct MtxState
{
	int owner_plus1;
};
extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
	if (!g_active_run || g_cur < 0)
		return 0;
	int* o = reinterpret_cast<int*>(m);
	while (true) {
		{
			Atom a(m, 8, true);
			if (!*o) {
				*o = g_cur + 1;
				if (a.on)
					changed();
				acquire(uintptr_t(m));
				return 0;
			}
		}
		do_yield(12);
	}
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m)
{
	if (!g_active_run || g_cur < 0)
		return 0;
	int* o = reinterpret_cast<int*>(m);
	Atom a(m, 8, true);
	if (*o)
		return EBUSY;
	*o = g_cur + 1;
	if (a.on)
		changed();
	acquire(uintptr_t(m));
	return 0;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m)
{
	if (!g_active_run || g_cur < 0)
		return 0;
	int* o = reinterpret_cast<int*>(m);
	Atom a(m, 8, true);
	*o = 0;
	if (a.on) {
		changed();
		release_rmw(uintptr_t(m));
	}
	return 0;
}
static int timed_wait(pthread_mutex_t* m)
{
	if (!g_active_run || g_cur < 0)
		return ETIMEDOUT;
	pthread_mutex_unlock(m);
	do_yield(13);
	g_vtime += 2;
	pthread_mutex_lock(m);
	return ETIMEDOUT;
}
extern "C" int pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t* m, clockid_t, const struct timespec*) { return timed_wait(m); }
extern "C" int pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t* m, const struct timespec*) { return timed_wait(m); }
extern "C" int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	if (!g_active_run || g_cur < 0)
		return 0;
	// the notification is consumed only if the thread is already waiting
	Thread& t = g_t[g_cur];
	t.blocked_on = c;
	pthread_mutex_unlock(m);
	if (g_t[g_cur].blocked_on) {
		++g_busy;
		if (g_solo)
			die("an operation waits for a notification although no other thread is running");
		schedule(2, 14);
		--g_busy;
	}
	pthread_mutex_lock(m);
	return 0;
}
static int notify(pthread_cond_t* c, bool all)
{
	if (!g_active_run)
		return 0;
	++g_busy;
	for (int i = 0; i < g_n; ++i)
		if (g_t[i].blocked_on == c) {
			g_t[g_cur].th = mix64(mix64(g_t[g_cur].th, 90), g_t[i].th);
			g_t[i].th = mix64(mix64(g_t[i].th, 91), g_t[g_cur].th);
			g_t[i].blocked_on = nullptr;
			++g_changes;
			if (!all)
				break;
		}
	--g_busy;
	return 0;
}
extern "C" int pthread_cond_broadcast(pthread_cond_t* c) { return notify(c, true); }
extern "C" int pthread_cond_signal(pthread_cond_t* c) { return notify(c, false); }
extern "C" int clock_gettime(clockid_t id, struct timespec* ts)
{
	if (g_active_run && g_cur >= 0) {
		// virtual time: every look at the clock takes one millisecond
		++g_vtime;
		ts->tv_sec = 1000000 + time_t(g_vtime / 1000);
		ts->tv_nsec = long(g_vtime % 1000) * 1000000;
		return 0;
	}
	typedef int (*fn)(clockid_t, struct timespec*);
	static fn real = reinterpret_cast<fn>(dlsym(RTLD_NEXT, "clock_gettime"));
	return real(id, ts);
}

// ---------------------------------------------------------------- __tsan_* callbacks
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N)                                                                                                                                                      \
	void __tsan_read##N(void* p) { access(p, N, false); }                                                                                                      \
	void __tsan_write##N(void* p) { access(p, N, true); }                                                                                                      \
	void __tsan_unaligned_read##N(void* p) { access(p, N, false); }                                                                                            \
	void __tsan_unaligned_write##N(void* p) { access(p, N, true); }                                                                                            \
	void __tsan_volatile_read##N(void* p) { access(p, N, false); }                                                                                             \
	void __tsan_volatile_write##N(void* p) { access(p, N, true); }                                                                                             \
	void __tsan_read##N##_pc(void* p, void*) { access(p, N, false); }                                                                                          \
	void __tsan_write##N##_pc(void* p, void*) { access(p, N, true); }                                                                                          \
	void __tsan_read_write##N(void* p) { access(p, N, true); }                                                                                                 \
	void __tsan_unaligned_read_write##N(void* p) { access(p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, true); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, true); }
void __tsan_vptr_read(void** p) { access(p, 8, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
	access(const_cast<void*>(s), n, false);
	access(d, n, true);
	return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
	access(const_cast<void*>(s), n, false);
	access(d, n, true);
	return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
	access(d, n, true);
	return memset(d, c, n);
}
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
#define ATOMICS(BITS, T)                                                                                                                                           \
	T __tsan_atomic##BITS##_load(const volatile T* p, int mo)                                                                                                  \
	{                                                                                                                                                          \
		Atom a(p, sizeof(T), false);                                                                                                                       \
		T v = *p;                                                                                                                                          \
		if (a.on && is_acq(mo))                                                                                                                            \
			acquire(a.a);                                                                                                                              \
		return v;                                                                                                                                          \
	}                                                                                                                                                          \
	void __tsan_atomic##BITS##_store(volatile T* p, T v, int mo)                                                                                               \
	{                                                                                                                                                          \
		Atom a(p, sizeof(T), true);                                                                                                                        \
		if (a.on && *p != v)                                                                                                                               \
			changed();                                                                                                                                 \
		*p = v;                                                                                                                                            \
		if (a.on)                                                                                                                                          \
			release_store(a.a, is_rel(mo));                                                                                                            \
	}                                                                                                                                                          \
	static inline T rmw##BITS(volatile T* p, int mo, T (*f)(T, T), T x)                                                                                        \
	{                                                                                                                                                          \
		Atom a(p, sizeof(T), true);                                                                                                                        \
		T o = *p;                                                                                                                                          \
		T n = f(o, x);                                                                                                                                     \
		if (a.on) {                                                                                                                                        \
			if (n != o)                                                                                                                                \
				changed();                                                                                                                         \
			if (is_acq(mo))                                                                                                                            \
				acquire(a.a);                                                                                                                      \
			if (is_rel(mo))                                                                                                                            \
				release_rmw(a.a);                                                                                                                  \
		}                                                                                                                                                  \
		*p = n;                                                                                                                                            \
		return o;                                                                                                                                          \
	}                                                                                                                                                          \
	T __tsan_atomic##BITS##_exchange(volatile T* p, T v, int mo) { return rmw##BITS(p, mo, [](T, T x) { return x; }, v); }                                     \
	T __tsan_atomic##BITS##_fetch_add(volatile T* p, T v, int mo) { return rmw##BITS(p, mo, [](T o, T x) { return T(o + x); }, v); }                           \
	T __tsan_atomic##BITS##_fetch_sub(volatile T* p, T v, int mo) { return rmw##BITS(p, mo, [](T o, T x) { return T(o - x); }, v); }                           \
	T __tsan_atomic##BITS##_fetch_and(volatile T* p, T v, int mo) { return rmw##BITS(p, mo, [](T o, T x) { return T(o & x); }, v); }                           \
	T __tsan_atomic##BITS##_fetch_or(volatile T* p, T v, int mo) { return rmw##BITS(p, mo, [](T o, T x) { return T(o | x); }, v); }                            \
	T __tsan_atomic##BITS##_fetch_xor(volatile T* p, T v, int mo) { return rmw##BITS(p, mo, [](T o, T x) { return T(o ^ x); }, v); }                           \
	T __tsan_atomic##BITS##_fetch_nand(volatile T* p, T v, int mo) { return rmw##BITS(p, mo, [](T o, T x) { return T(~(o & x)); }, v); }                       \
	int __tsan_atomic##BITS##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int fmo)                                                               \
	{                                                                                                                                                          \
		Atom a(p, sizeof(T), true);                                                                                                                        \
		T o = *p;                                                                                                                                          \
		if (o == *c) {                                                                                                                                     \
			if (a.on) {                                                                                                                                \
				if (v != o)                                                                                                                        \
					changed();                                                                                                                 \
				if (is_acq(mo))                                                                                                                    \
					acquire(a.a);                                                                                                              \
				if (is_rel(mo))                                                                                                                    \
					release_rmw(a.a);                                                                                                          \
			}                                                                                                                                          \
			*p = v;                                                                                                                                    \
			return 1;                                                                                                                                  \
		}                                                                                                                                                  \
		if (a.on && is_acq(fmo))                                                                                                                           \
			acquire(a.a);                                                                                                                              \
		*c = o;                                                                                                                                            \
		return 0;                                                                                                                                          \
	}                                                                                                                                                          \
	int __tsan_atomic##BITS##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int fmo) { return __tsan_atomic##BITS##_compare_exchange_strong(p, c, v, mo, fmo); } \
	T __tsan_atomic##BITS##_compare_exchange_val(volatile T* p, T c, T v, int mo, int fmo)                                                                     \
	{                                                                                                                                                          \
		T e = c;                                                                                                                                           \
		__tsan_atomic##BITS##_compare_exchange_strong(p, &e, v, mo, fmo);                                                                                  \
		return e;                                                                                                                                          \
	}
typedef unsigned char mcs_u8;
typedef unsigned short mcs_u16;
typedef unsigned mcs_u32;
typedef unsigned long mcs_u64;
ATOMICS(8, mcs_u8)
ATOMICS(16, mcs_u16)
ATOMICS(32, mcs_u32)
ATOMICS(64, mcs_u64)
}
