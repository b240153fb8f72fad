// Bounded exhaustive explorer for sequential code, working directly on the real implementation.
//
// A harness registers "systems".  A system is a set of seed states, a list of operations and a
// reference model.  The explorer runs EVERY sequence of operations up to a depth from EVERY seed,
// iterating the depth (0, 1, 2, ...), each time from a freshly constructed seed, and compares the
// implementation with the model after the last operation (shorter prefixes were compared by the
// previous depth).  In fault mode it additionally fails every fault point (allocation, element
// operation, functor call) of the last operation, one at a time.
//
// Isolation: the enumeration runs in a forked child; a crash, a sanitizer report, a failed check or
// a hang is attributed by the parent to the exact case, which is printed and can be replayed.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <new>
#include <string>
#include <vector>
#include <functional>
#include <memory>
#include <unordered_set>
#include <unordered_map>
#include <algorithm>
#include <chrono>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>

namespace mc
{
	// ------------------------------------------------------------------ shared state
	struct Shared
	{
		volatile uint64_t progress;   // number of executed cases (child)
		volatile uint64_t cursor;     // index of the current case
		uint64_t cases;               // executed sequences
		uint64_t transitions;         // executed operations
		uint64_t states;              // distinct fingerprints
		uint64_t faults;              // injected faults
		uint64_t nontrivial;          // cases whose last operation was enabled / fault that fired
		uint64_t outcomes;
		int done;
		int capped;                   // time budget reached
		int failed;
		int depth_done;
		char kase[8192];              // current case
		char msg[8192];
		char samples[8][512];
		int nsamples;
	};
	inline Shared*& sh()
	{
		static Shared* s = nullptr;
		return s;
	}

	[[noreturn]] inline void fail(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
	[[noreturn]] inline void fail(const char* fmt, ...)
	{
		va_list ap;
		va_start(ap, fmt);
		if (sh()) {
			vsnprintf(sh()->msg, sizeof(sh()->msg), fmt, ap);
			sh()->failed = 1;
		}
		else {
			vfprintf(stderr, fmt, ap);
			fputc('\n', stderr);
		}
		va_end(ap);
		_exit(77);
	}
#define MC_STR2(x) #x
#define MC_STR(x) MC_STR2(x)
#define CHECK(cond, ...)                                                                                                                                           \
	do {                                                                                                                                                       \
		if (!(cond))                                                                                                                                       \
			::mc::fail_at(#cond, __LINE__, "" __VA_ARGS__);                                                                                            \
	} while (0)
	[[noreturn]] inline void fail_at(const char* cond, int line, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
	[[noreturn]] inline void fail_at(const char* cond, int line, const char* fmt, ...)
	{
		char buf[4096];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(buf, sizeof(buf), fmt, ap);
		va_end(ap);
		fail("check failed: %s (harness line %d) %s", cond, line, buf);
	}

	// ------------------------------------------------------------------ fault injection and memory accounting
	struct Fault
	{
		int kind;
	};
	enum { F_ALLOC = 1, F_ELEM = 2, F_FUNC = 4 };
	struct Acc
	{
		int64_t live_blocks = 0;
		int64_t live_bytes = 0;
		int armed = 0;           // inside a container call
		int64_t count = 0;       // fault points seen while armed
		int64_t fail_at = 0;     // 1-based index of the point that fails, 0 = none
		int mask = F_ALLOC | F_ELEM | F_FUNC;
		int fired = 0;
		int64_t live_elems = 0;
		int quiet = 0; // >0: do not count blocks (harness bookkeeping)
		int64_t moves = 0, copies = 0;
	};
	inline Acc& acc()
	{
		static Acc a;
		return a;
	}
	inline void point(int kind)
	{
		Acc& a = acc();
		if (!a.armed || !(a.mask & kind))
			return;
		++a.count;
		if (a.count == a.fail_at) {
			a.fired = kind;
			throw Fault{ kind };
		}
	}
	// Run f as "inside the implementation": fault points are live.
	struct Armed
	{
		Armed() { ++acc().armed; }
		~Armed() { --acc().armed; }
	};
	struct Disarmed
	{
		int old;
		Disarmed() : old(acc().armed) { acc().armed = 0; }
		~Disarmed() { acc().armed = old; }
	};
	template<class F>
	auto A(F&& f) -> decltype(f())
	{
		Armed a;
		return f();
	}

	// ------------------------------------------------------------------ registry
	struct SystemBase
	{
		std::string name;
		virtual ~SystemBase() {}
		// Enumerate every case of this system for the given depth; calls run(case index) etc.
		virtual void explore(int depth) = 0;
		virtual void replay(const std::string& kase) = 0;
		int max_depth_quick = 2, max_depth_thorough = 3;
		bool fault_mode = false;
	};
	inline std::vector<std::unique_ptr<SystemBase>>& systems()
	{
		static std::vector<std::unique_ptr<SystemBase>> v;
		return v;
	}

	struct Run
	{
		int shard = 0, nshards = 1;
		uint64_t skip_until = 0; // do not execute cases with a smaller index (already executed)
		double deadline = 1e18;
		bool thorough = false;
		bool verbose = false;
		std::string only;
		std::string replay;
		std::vector<std::string> known; // case patterns already attributed to known findings
	};
	inline Run& run()
	{
		static Run r;
		return r;
	}
	inline double now()
	{
		struct timespec ts;
		clock_gettime(CLOCK_MONOTONIC, &ts);
		return double(ts.tv_sec) + 1e-9 * double(ts.tv_nsec);
	}
	struct StopBudget
	{
	};
	inline std::unordered_set<uint64_t>& state_set()
	{
		static std::unordered_set<uint64_t> s;
		return s;
	}
	inline std::unordered_set<uint64_t>& outcome_set()
	{
		static std::unordered_set<uint64_t> s;
		return s;
	}
	inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
	{
		const unsigned char* c = static_cast<const unsigned char*>(p);
		for (size_t i = 0; i < n; ++i) {
			h ^= c[i];
			h *= 1099511628211ull;
		}
		return h ^ (h >> 29);
	}
	struct Fp
	{
		uint64_t h = 88172645463325252ull;
		void add(uint64_t v)
		{
			h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
			h *= 0xff51afd7ed558ccdull;
			h ^= h >> 32;
		}
	};
	inline void note_state(uint64_t h)
	{
		Disarmed d;
		++acc().quiet;
		if (state_set().insert(h).second)
			sh()->states = state_set().size();
		--acc().quiet;
	}
	inline void note_outcome(uint64_t h)
	{
		Disarmed d;
		++acc().quiet;
		if (outcome_set().insert(h).second)
			sh()->outcomes = outcome_set().size();
		--acc().quiet;
	}
	inline void sample()
	{
		Shared* s = sh();
		// first, and a few spread over the run
		if (s->nsamples < 8 && (s->nsamples == 0 || s->cases >= (uint64_t(1) << (2 * s->nsamples + 4)))) {
			snprintf(s->samples[s->nsamples], sizeof(s->samples[0]), "%.500s", s->kase);
			s->nsamples++;
		}
	}
	// Returns true when the case with the next index must be executed by this process.
	inline uint64_t& next_index()
	{
		static uint64_t i = 0;
		return i;
	}
	inline bool take_case()
	{
		uint64_t i = next_index()++;
		if (int(i % uint64_t(run().nshards)) != run().shard)
			return false;
		if (i < run().skip_until)
			return false;
		Shared* s = sh();
		s->cursor = i;
		if ((s->cases & 63) == 0 && now() > run().deadline) {
			s->capped = 1;
			throw StopBudget{};
		}
		return true;
	}
	inline void begin_case() { sh()->progress = sh()->progress + 1; }

	// ------------------------------------------------------------------ systems made of operations
	template<class Sys>
	struct Op
	{
		std::string name;
		std::function<bool(Sys&)> f; // false: not enabled in this state
		int flags = 0;
	};
	enum {
		STRONG = 1,      // a fault leaves the content unchanged
		NOFAULT = 2,     // not used as the faulted operation
		MAYSWALLOW = 4,  // the call may absorb the fault (documented)
		FOLLOWUP = 8,    // used to exercise the container after a fault
		PREFIXONLY = 16, // only used before the last operation
		DEEP = 32        // used beyond depth "wide"
	};

	// Sys requirements:
	//   static int nseeds(); static std::string seed_name(int); Sys(int seed);
	//   static void ops(std::vector<Op<Sys>>&);
	//   void check();                      full comparison with the model
	//   uint64_t fingerprint();
	//   void resync();                     fault mode: validate and rebuild the model from the content
	//   ~Sys() destroys everything
	template<class Sys>
	struct SeqSystem : SystemBase
	{
		std::vector<Op<Sys>> ops;
		std::vector<int> narrow; // indices of the operations used when depth > wide_depth
		int wide_depth_quick = 1, wide_depth_thorough = 2;
		SeqSystem() { Sys::ops(ops); }

		void describe(int seed, const std::vector<int>& seq, int64_t fault, int followup)
		{
			char* p = sh()->kase;
			char* e = p + sizeof(sh()->kase);
			p += snprintf(p, size_t(e - p), "%s|%s|", name.c_str(), Sys::seed_name(seed).c_str());
			for (size_t i = 0; i < seq.size() && p < e - 200; ++i)
				p += snprintf(p, size_t(e - p), "%s%s", i ? ";" : "", ops[size_t(seq[i])].name.c_str());
			if (fault > 0)
				p += snprintf(p, size_t(e - p), "|fault=%lld", (long long)fault);
			if (followup >= 0)
				p += snprintf(p, size_t(e - p), "|then=%s", ops[size_t(followup)].name.c_str());
		}

		// One execution. Returns index of the first disabled operation or seq.size().
		// fault: 0 none. Sets fired.
		size_t once(int seed, const std::vector<int>& seq, int64_t fault, int64_t& points, bool& fired, int followup)
		{
			Acc& a = acc();
			a.fail_at = 0;
			a.count = 0;
			a.fired = 0;
			fired = false;
			int64_t elems0 = a.live_elems;
			int64_t blocks0 = a.live_blocks;
			size_t reached = 0;
			{
				Sys s(seed);
				bool stop = false;
				if (seq.empty()) {
					s.check();
					note_state(s.fingerprint());
				}
				for (size_t i = 0; i < seq.size(); ++i) {
					bool last = i + 1 == seq.size();
					bool ok;
					if (last && fault_mode) {
						a.count = 0;
						a.fail_at = fault;
						a.fired = 0;
						bool thrown = false;
						try {
							ok = ops[size_t(seq[i])].f(s);
						}
						catch (const Fault&) {
							thrown = true;
							ok = true;
						}
						points = a.count;
						a.fail_at = 0;
						fired = a.fired != 0;
						if (a.armed)
							fail("harness: armed left");
						int fl = ops[size_t(seq[i])].flags;
						if (fired && !thrown && !(fl & MAYSWALLOW))
							fail("the exception did not reach the caller");
						if (fired) {
							if (fl & STRONG)
								s.check(); // content must be unchanged
							s.resync();
							s.check();
							note_state(s.fingerprint());
							if (followup >= 0) {
								if (ops[size_t(followup)].f(s))
									s.check();
							}
						}
						else if (ok)
							s.check();
					}
					else {
						ok = ops[size_t(seq[i])].f(s);
						if (ok && last)
							s.check();
					}
					if (!ok) {
						stop = true;
						break;
					}
					++reached;
					sh()->transitions++;
				}
				if (!stop && !fired) {
					note_state(s.fingerprint());
				}
			}
			if (a.live_elems != elems0)
				fail("%lld element(s) %s after destruction of the container", (long long)(a.live_elems - elems0), a.live_elems > elems0 ? "leaked" : "over-destroyed");
			leaked = a.live_blocks - blocks0;
			return reached;
		}
		int64_t leaked = 0;
		size_t exec(int seed, const std::vector<int>& seq, int64_t fault, int64_t& points, bool& fired, int followup)
		{
			describe(seed, seq, fault, followup);
			begin_case();
			size_t r = once(seed, seq, fault, points, fired, followup);
			if (leaked) {
				// lazily built statics are legitimate: only a repeated leak counts
				r = once(seed, seq, fault, points, fired, followup);
				if (leaked)
					r = once(seed, seq, fault, points, fired, followup);
				if (leaked)
					fail("%lld memory block(s) leaked", (long long)leaked);
			}
			return r;
		}

		void explore_case(int seed, const std::vector<int>& seq)
		{
			int64_t points = 0;
			bool fired = false;
			if (!fault_mode) {
				size_t r = exec(seed, seq, 0, points, fired, -1);
				if (r == seq.size()) {
					sh()->cases++;
					sh()->nontrivial++;
					sample();
				}
				return;
			}
			if (seq.empty())
				return;
			int fl = ops[size_t(seq.back())].flags;
			if (fl & NOFAULT)
				return;
			size_t r = exec(seed, seq, 0, points, fired, -1);
			sh()->cases++;
			if (r != seq.size())
				return;
			int64_t n = points;
			int64_t lim = n;
			for (int64_t k = 1; k <= lim; ++k) {
				int64_t p2;
				exec(seed, seq, k, p2, fired, -1);
				sh()->cases++;
				if (fired) {
					sh()->faults++;
					sh()->nontrivial++;
				}
				sample();
				if (seq.size() == 1 || run().thorough)
					for (size_t f = 0; f < ops.size(); ++f)
						if (ops[f].flags & FOLLOWUP) {
							exec(seed, seq, k, p2, fired, int(f));
							sh()->cases++;
							sh()->nontrivial++;
						}
			}
		}

		void explore(int depth) override
		{
			// quick with wide_depth_quick == 0: already sequences of two operations begin with one of the subset
			int wide = run().thorough ? (depth <= 2 ? 2 : wide_depth_thorough) : wide_depth_quick == 0 ? 1 : depth <= 2 ? 2 : wide_depth_quick;
			std::vector<int> all;
			for (int i = 0; i < int(ops.size()); ++i)
				all.push_back(i);
			std::vector<int> deep;
			for (int i = 0; i < int(ops.size()); ++i)
				if (ops[size_t(i)].flags & DEEP)
					deep.push_back(i);
			// Sequences of length "depth". Beyond the wide depth, the operations before the last
			// "wide" ones are taken from the DEEP subset.
			std::vector<int> seq(static_cast<size_t>(depth));
			for (int seed = 0; seed < Sys::nseeds(); ++seed) {
				int sdepth = Sys::seed_depth(seed, run().thorough);
				if (sdepth >= 0 && depth > sdepth)
					continue;
				rec(seed, seq, 0, depth, wide, all, deep);
			}
		}
		void rec(int seed, std::vector<int>& seq, int pos, int depth, int wide, const std::vector<int>& all, const std::vector<int>& deep)
		{
			if (pos == depth) {
				if (take_case())
					explore_case(seed, seq);
				return;
			}
			bool last = pos + 1 == depth;
			const std::vector<int>& choice = (depth - pos > wide || (fault_mode && !last)) ? deep : all;
			for (int o : choice) {
				if (last && (ops[size_t(o)].flags & PREFIXONLY))
					continue;
				seq[size_t(pos)] = o;
				rec(seed, seq, pos + 1, depth, wide, all, deep);
			}
		}
		void replay(const std::string& kase) override
		{
			// name|seed|op;op;op[|fault=k][|then=op]
			std::vector<std::string> parts;
			size_t b = 0;
			while (true) {
				size_t e = kase.find('|', b);
				parts.push_back(kase.substr(b, e == std::string::npos ? e : e - b));
				if (e == std::string::npos)
					break;
				b = e + 1;
			}
			int seed = -1;
			for (int i = 0; i < Sys::nseeds(); ++i)
				if (Sys::seed_name(i) == parts[1])
					seed = i;
			auto find = [&](const std::string& n) {
				for (size_t i = 0; i < ops.size(); ++i)
					if (ops[i].name == n)
						return int(i);
				return -1;
			};
			std::vector<int> seq;
			if (parts.size() > 2 && !parts[2].empty()) {
				size_t p = 0;
				while (true) {
					size_t e = parts[2].find(';', p);
					seq.push_back(find(parts[2].substr(p, e == std::string::npos ? e : e - p)));
					if (e == std::string::npos)
						break;
					p = e + 1;
				}
			}
			int64_t fault = 0;
			int then = -1;
			for (size_t i = 3; i < parts.size(); ++i) {
				if (parts[i].compare(0, 6, "fault=") == 0)
					fault = atoll(parts[i].c_str() + 6);
				if (parts[i].compare(0, 5, "then=") == 0)
					then = find(parts[i].substr(5));
			}
			int64_t points;
			bool fired;
			exec(seed, seq, fault, points, fired, then);
			sh()->cases++;
		}
	};

	// ------------------------------------------------------------------ systems made of plain enumerated cases
	// The body enumerates its cases itself: for each, it calls e.begin("description") and, when that returns
	// true, evaluates the case (calling fail/CHECK).
	struct Enum
	{
		SystemBase* sys;
		std::string want; // replay
		bool begin(const char* fmt, ...) __attribute__((format(printf, 2, 3)))
		{
			if (want.empty()) {
				if (!take_case())
					return false;
			}
			va_list ap;
			va_start(ap, fmt);
			int n = snprintf(sh()->kase, sizeof(sh()->kase), "%s|", sys->name.c_str());
			vsnprintf(sh()->kase + n, sizeof(sh()->kase) - size_t(n), fmt, ap);
			va_end(ap);
			if (!want.empty() && want != sh()->kase)
				return false;
			begin_case();
			sh()->cases++;
			sh()->nontrivial++;
			sh()->transitions++;
			sample();
			return true;
		}
		bool thorough() const { return run().thorough; }
		void evals(uint64_t n)
		{
			sh()->transitions += n;
		}
	};
	struct EnumSystem : SystemBase
	{
		std::function<void(Enum&)> body;
		void explore(int depth) override
		{
			if (depth != 1)
				return;
			Enum e{ this, "" };
			body(e);
		}
		void replay(const std::string& k) override
		{
			Enum e{ this, k };
			body(e);
		}
	};
	inline EnumSystem& add_enum(const std::string& name, std::function<void(Enum&)> f)
	{
		auto s = std::unique_ptr<EnumSystem>(new EnumSystem());
		s->name = name;
		s->body = f;
		s->max_depth_quick = s->max_depth_thorough = 1;
		EnumSystem& r = *s;
		systems().push_back(std::move(s));
		return r;
	}
	template<class Sys>
	SeqSystem<Sys>& add_seq(const std::string& name, int dq, int dt, bool fault = false, int wq = 1, int wt = 2)
	{
		auto s = std::unique_ptr<SeqSystem<Sys>>(new SeqSystem<Sys>());
		s->name = name;
		s->max_depth_quick = dq;
		s->max_depth_thorough = dt;
		s->fault_mode = fault;
		s->wide_depth_quick = wq;
		s->wide_depth_thorough = wt;
		SeqSystem<Sys>& r = *s;
		systems().push_back(std::move(s));
		return r;
	}

	// ------------------------------------------------------------------ main
	inline void json_str(FILE* f, const char* s)
	{
		fputc('"', f);
		for (; *s; ++s) {
			unsigned char c = static_cast<unsigned char>(*s);
			if (c == '"' || c == '\\')
				fprintf(f, "\\%c", c);
			else if (c < 32 || c >= 127)
				fprintf(f, "\\u%04x", c);
			else
				fputc(c, f);
		}
		fputc('"', f);
	}

	inline void child_main(int maxdepth_cap)
	{
		try {
			int dmax = 0;
			for (auto& s : systems())
				dmax = std::max(dmax, run().thorough ? s->max_depth_thorough : s->max_depth_quick);
			if (maxdepth_cap >= 0)
				dmax = std::min(dmax, maxdepth_cap);
			for (int d = 0; d <= dmax; ++d) {
				for (auto& s : systems()) {
					if (!run().only.empty() && s->name != run().only)
						continue;
					int lim = run().thorough ? s->max_depth_thorough : s->max_depth_quick;
					if (d <= lim)
						s->explore(d);
				}
				sh()->depth_done = d;
			}
		}
		catch (const StopBudget&) {
		}
		sh()->done = 1;
	}

	inline bool glob_match(const char* p, const char* s)
	{
		for (; *p; ++p, ++s) {
			if (*p == '*') {
				while (*p == '*')
					++p;
				if (!*p)
					return true;
				for (; *s; ++s)
					if (glob_match(p, s))
						return true;
				return false;
			}
			if (*s != *p)
				return false;
		}
		return *s == 0;
	}

	// Exit status of a child: 0 ok, 1 failure (message in shared memory), 2 hang
	inline int run_child(std::function<void()> f, double stall_limit, const char* errfile)
	{
		fflush(nullptr);
		pid_t pid = fork();
		if (pid == 0) {
			int fd = open(errfile, O_CREAT | O_TRUNC | O_WRONLY, 0600);
			if (fd >= 0) {
				dup2(fd, 2);
				close(fd);
			}
			f();
			fflush(nullptr);
			_exit(0);
		}
		uint64_t lastp = sh()->progress;
		double lastt = now();
		int st = 0;
		useconds_t nap = 500;
		while (true) {
			pid_t r = waitpid(pid, &st, WNOHANG);
			if (r == pid)
				break;
			usleep(nap);
			if (nap < 50000)
				nap *= 2;
			if (sh()->progress != lastp) {
				lastp = sh()->progress;
				lastt = now();
			}
			else if (now() - lastt > stall_limit) {
				kill(pid, SIGKILL);
				waitpid(pid, &st, 0);
				return 2;
			}
		}
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !sh()->failed)
			return 0;
		if (!sh()->failed) {
			// crash or sanitizer report: take the essential lines of stderr
			std::string err;
			if (FILE* fi = fopen(errfile, "r")) {
				char line[1024];
				int n = 0;
				while (fgets(line, sizeof line, fi) && n < 14) {
					if (strstr(line, "=====") && strlen(line) < 75)
						continue;
					if (strspn(line, " \n") == strlen(line))
						continue;
					err += line;
					++n;
				}
				fclose(fi);
			}
			if (WIFSIGNALED(st))
				snprintf(sh()->msg, sizeof(sh()->msg), "killed by signal %d; %.6000s", WTERMSIG(st), err.c_str());
			else
				snprintf(sh()->msg, sizeof(sh()->msg), "process ended with status %d; %.6000s", WEXITSTATUS(st), err.c_str());
			sh()->failed = 1;
		}
		return 1;
	}

	// usage: prog --out FILE [--shard I N] [--tier quick|thorough] [--budget S] [--only SYS] [--known FILE] [--replay CASE] [--stall S]
	inline int main_(int argc, char** argv)
	{
		std::string out = "/dev/stdout", knownf;
		double budget = 1e9, stall = 60;
		int maxdepth = -1;
		size_t keep = 1;
		for (int i = 1; i < argc; ++i) {
			std::string a = argv[i];
			if (a == "--out")
				out = argv[++i];
			else if (a == "--shard") {
				run().shard = atoi(argv[++i]);
				run().nshards = atoi(argv[++i]);
			}
			else if (a == "--tier")
				run().thorough = std::string(argv[++i]) == "thorough";
			else if (a == "--budget")
				budget = atof(argv[++i]);
			else if (a == "--only")
				run().only = argv[++i];
			else if (a == "--known")
				knownf = argv[++i];
			else if (a == "--replay")
				run().replay = argv[++i];
			else if (a == "--stall")
				stall = atof(argv[++i]);
			else if (a == "--keep") // development: go on after a violation
				keep = size_t(atoi(argv[++i]));
			else if (a == "--maxdepth")
				maxdepth = atoi(argv[++i]);
			else if (a == "--list") {
				for (auto& s : systems())
					printf("%s\n", s->name.c_str());
				return 0;
			}
		}
		if (!knownf.empty())
			if (FILE* f = fopen(knownf.c_str(), "r")) {
				char line[8192];
				while (fgets(line, sizeof line, f)) {
					line[strcspn(line, "\n")] = 0;
					if (line[0])
						run().known.push_back(line);
				}
				fclose(f);
			}
		sh() = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
		double t0 = now();
		run().deadline = t0 + budget;
		std::string errfile = out == "/dev/stdout" ? "/tmp/mc_err." + std::to_string(getpid()) : out + ".err";
		std::vector<std::pair<std::string, std::string>> viol, known;
		auto replay_case = [&](const std::string& k) {
			for (auto& s : systems())
				if (k.compare(0, s->name.size() + 1, s->name + "|") == 0)
					s->replay(k);
		};
		if (!run().replay.empty()) {
			int r = run_child([&] { replay_case(run().replay); }, 300, errfile.c_str());
			if (r)
				viol.emplace_back(run().replay, r == 2 ? "does not terminate" : sh()->msg);
			else if (!sh()->cases)
				fprintf(stderr, "no such case\n");
		}
		else {
			while (true) {
				sh()->done = 0;
				sh()->failed = 0;
				int r = run_child([&] { child_main(maxdepth); }, stall, errfile.c_str());
				if (r == 0)
					break;
				std::string kase = sh()->kase;
				std::string msg = sh()->msg;
				uint64_t cur = sh()->cursor;
				static Shared saved;
				memcpy(static_cast<void*>(&saved), static_cast<void*>(sh()), sizeof(saved));
				if (r == 2) {
					// re-run alone with a longer limit before calling it a hang
					sh()->failed = 0;
					int r2 = run_child([&] { replay_case(kase); }, 150, errfile.c_str());
					if (r2 == 2)
						msg = "does not terminate (no end after 150 s alone)";
					else if (r2 == 1)
						msg = sh()->msg;
					else {
						run().skip_until = cur + 1;
						continue;
					}
				}
				else {
					// replay before report
					sh()->failed = 0;
					int r2 = run_child([&] { replay_case(kase); }, 150, errfile.c_str());
					if (r2 == 0)
						msg = "NOT REPRODUCED ALONE (depends on earlier cases of the same process): " + msg;
				}
				memcpy(static_cast<void*>(sh()), static_cast<void*>(&saved), sizeof(saved));
				bool isknown = false;
				for (auto& k : run().known)
					if (glob_match(k.c_str(), (kase + " # " + msg).c_str())) {
						isknown = true;
						known.emplace_back(k, kase);
						break;
					}
				if (!isknown) {
					viol.emplace_back(kase, msg);
					if (viol.size() >= keep)
						break;
				}
				run().skip_until = cur + 1;
				if (known.size() > 2000)
					break;
			}
		}
		unlink(errfile.c_str());
		FILE* f = fopen(out.c_str(), "w");
		Shared* s = sh();
		fprintf(f,
			"{\"cases\":%llu,\"transitions\":%llu,\"states\":%llu,\"faults\":%llu,\"nontrivial\":%llu,\"outcomes\":%llu,\"capped\":%d,\"done\":%d,\"depth\":%d,\"wall\":%.2f,\"samples\":[",
			(unsigned long long)s->cases,
			(unsigned long long)s->transitions,
			(unsigned long long)s->states,
			(unsigned long long)s->faults,
			(unsigned long long)s->nontrivial,
			(unsigned long long)s->outcomes,
			s->capped,
			s->done,
			s->depth_done,
			now() - t0);
		for (int i = 0; i < s->nsamples; ++i) {
			if (i)
				fputc(',', f);
			json_str(f, s->samples[i]);
		}
		fprintf(f, "],\"known\":[");
		for (size_t i = 0; i < known.size(); ++i) {
			fprintf(f, "%s[", i ? "," : "");
			json_str(f, known[i].first.c_str());
			fputc(',', f);
			json_str(f, known[i].second.c_str());
			fputc(']', f);
		}
		fprintf(f, "],\"violations\":[");
		for (size_t i = 0; i < viol.size(); ++i) {
			fprintf(f, "%s[", i ? "," : "");
			json_str(f, viol[i].first.c_str());
			fputc(',', f);
			json_str(f, viol[i].second.c_str());
			fputc(']', f);
		}
		fprintf(f, "]}\n");
		fclose(f);
		return viol.empty() ? 0 : 1;
	}
}

// ------------------------------------------------------------------ global allocation accounting
// Include with MC_MAIN defined exactly once.
#ifdef MC_MAIN
#ifndef MC_NO_NEW
static inline void mc_on_new(void* p, size_t n)
{
	mc::Acc& a = mc::acc();
	if (!a.quiet) {
		++a.live_blocks;
	}
	(void)p;
	(void)n;
}
static void* mc_new(size_t n, size_t al)
{
	mc::point(mc::F_ALLOC);
	if (n > (size_t(1) << 31)) {
		// an absurd request is refused the way an exhausted system would
		throw std::bad_alloc();
	}
	void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n ? n : 1);
	if (!p)
		throw std::bad_alloc();
	mc_on_new(p, n);
	return p;
}
static void mc_delete(void* p)
{
	if (!p)
		return;
	if (!mc::acc().quiet)
		--mc::acc().live_blocks;
	free(p);
}
void* operator new(size_t n) { return mc_new(n, 0); }
void* operator new[](size_t n) { return mc_new(n, 0); }
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
	void* p = malloc(n ? n : 1);
	if (p)
		mc_on_new(p, n);
	return p;
}
void operator delete(void* p, const std::nothrow_t&) noexcept { mc_delete(p); }
void* operator new(size_t n, std::align_val_t a) { return mc_new(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return mc_new(n, size_t(a)); }
void operator delete(void* p) noexcept { mc_delete(p); }
void operator delete[](void* p) noexcept { mc_delete(p); }
void operator delete(void* p, size_t) noexcept { mc_delete(p); }
void operator delete[](void* p, size_t) noexcept { mc_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { mc_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { mc_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { mc_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { mc_delete(p); }
#endif
#endif
