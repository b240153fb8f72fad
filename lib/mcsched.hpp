// Controlled scheduler: explores the interleavings of real threads' code at the granularity of single
// memory accesses, up to a preemption bound.
//
// The harness is compiled with -fsanitize=thread *code generation* only; mcsched.cpp supplies the
// __tsan_* callbacks, so every load, store and atomic operation of the implementation reports to the
// scheduler before it happens.  Threads are fibers of one OS thread, so an execution is a deterministic
// function of the schedule; memory comes from an arena that is reset between executions.
#pragma once
#include "mc.hpp"
namespace mcs
{
	struct Scenario
	{
		std::function<void()> setup;                // builds the shared state (single threaded)
		std::vector<std::function<void()>> threads; // bodies
		std::function<void()> finish;               // single threaded, after all threads ended
		int bound = 2;                              // preemption bound
		uint64_t max_execs = ~0ull;
		int fault_mask = 0;  // enumerate faults of these kinds raised inside the threads
		bool par_finish = false;
	};
	struct Result
	{
		uint64_t execs = 0, points = 0, nodes = 0, conflicts = 0, passes = 0, outcomes = 0, faults = 0;
		bool capped = false;
		int bound_done = -1;
	};
	// Explore every schedule with at most bound preemptions. Failures end the process through mc::fail.
	Result explore(const Scenario& s);

	int tid();       // current thread (0-based), -1 outside
	uint64_t clock(); // global event counter, for histories
	uint64_t call_clock(); // beginning and end of a call: the oracle may only use which calls end before which begin
	uint64_t ret_clock();
	// element memory: not a scheduling point, protected by user_read/user_write
	int32_t peek(const void* p);
	void poke(void* p, int32_t v);
	void user_read(const void* p, const char* what);
	void user_write(const void* p, const char* what);
	void user_forget(const void* p);
	// object p is being visited by a functor
	void visit_enter(const void* p, bool exclusive);
	void visit_leave(const void* p, bool exclusive);
	void outcome(uint64_t h);
	// to be called by a thread body when it finished a call (liveness progress)
	void progress();
	void fault_point(int kind); // a place where user code may throw
	void fault_window(bool on); // faults are raised only inside a window
	[[noreturn]] void fail_sched(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
	struct Hidden // everything inside is invisible to the scheduler
	{
		Hidden();
		~Hidden();
	};
	int64_t live_blocks();
}
