// Spin locks under every interleaving (up to the preemption bound) of small client programs.
#define MC_NO_NEW
#define MC_MAIN
#include "../lib/mcsched.hpp"
#include <seq/lock.hpp>
#include <shared_mutex>
using namespace mc;

namespace
{
	struct Ev
	{
		uint64_t a, b; // interval during which this thread may have interfered
		int t;
	};
	template<class Lock>
	struct State
	{
		Lock lock;
		int data = 0;
		int writes = 0;
		// bookkeeping (hidden from the scheduler)
		Ev held[64];
		int nheld = 0;
		Ev failed[64];
		int nfailed = 0;
		uint64_t oc = 1469598103934665603ull;
		void note(int x) { oc = (oc ^ uint64_t(x + 1)) * 1099511628211ull; }
	};

	template<class Lock>
	struct Prog
	{
		static State<Lock>*& st()
		{
			static State<Lock>* s;
			return s;
		}
		static void held(uint64_t a)
		{
			mcs::Hidden h;
			auto* s = st();
			s->held[s->nheld++] = Ev{ a, mcs::clock(), mcs::tid() };
		}
		static void failed(uint64_t a)
		{
			mcs::Hidden h;
			auto* s = st();
			s->failed[s->nfailed++] = Ev{ a, mcs::clock(), mcs::tid() };
			s->note(100 + mcs::tid());
		}
		static void crit_write()
		{
			auto* s = st();
			mcs::visit_enter(&s->data, true);
			mcs::user_write(&s->data, "critical section");
			int x = s->data;
			s->data = x + 1; // lost update when not exclusive
			mcs::user_write(&s->data, "critical section");
			mcs::visit_leave(&s->data, true);
			mcs::Hidden h;
			s->writes++;
			s->note(mcs::tid());
		}
		static void crit_read()
		{
			auto* s = st();
			mcs::visit_enter(&s->data, false);
			mcs::user_read(&s->data, "shared section");
			int x = s->data;
			int y = s->data;
			if (x != y)
				mcs::fail_sched("the protected value changed during a shared section");
			mcs::user_read(&s->data, "shared section");
			mcs::visit_leave(&s->data, false);
			mcs::Hidden h;
			s->note(50 + mcs::tid() * 7 + x);
		}
		static uint64_t now()
		{
			mcs::Hidden h;
			return mcs::clock();
		}
		static void op(char c)
		{
			auto* s = st();
			uint64_t a = now();
			switch (c) {
				case 'L':
					s->lock.lock();
					crit_write();
					s->lock.unlock();
					held(a);
					break;
				case 'T':
					if (s->lock.try_lock()) {
						crit_write();
						s->lock.unlock();
						held(a);
					}
					else
						failed(a);
					break;
				case 'S':
					s->lock.lock_shared();
					crit_read();
					s->lock.unlock_shared();
					held(a);
					break;
				case 'R':
					if (s->lock.try_lock_shared()) {
						crit_read();
						s->lock.unlock_shared();
						held(a);
					}
					else
						failed(a);
					break;
				case 'F':
					if constexpr (std::is_same<Lock, seq::spinlock>::value) {
						if (s->lock.try_lock_for(std::chrono::milliseconds(3))) {
							crit_write();
							s->lock.unlock();
							held(a);
						}
						else
							failed(a);
					}
					break;
				case 'U': // std::unique_lock / lock_guard adaptors
				{
					std::unique_lock<Lock> l(s->lock);
					crit_write();
				}
					held(a);
					break;
				case 'D': { // two shared sections nested in time by the same thread are not used; lock, unlock, lock
					s->lock.lock();
					crit_write();
					s->lock.unlock();
					s->lock.lock();
					crit_write();
					s->lock.unlock();
				}
					held(a);
					break;
			}
		}
		static void finish()
		{
			auto* s = st();
			if (s->data != s->writes)
				mcs::fail_sched("lost update: counter %d after %d critical sections", s->data, s->writes);
			for (int i = 0; i < s->nfailed; ++i) {
				bool ok = false;
				for (int j = 0; j < s->nheld; ++j)
					ok |= s->held[j].t != s->failed[i].t && s->held[j].a <= s->failed[i].b && s->failed[i].a <= s->held[j].b;
				for (int j = 0; j < s->nfailed; ++j)
					ok |= s->failed[j].t != s->failed[i].t && s->failed[j].a <= s->failed[i].b && s->failed[i].a <= s->failed[j].b;
				if (!ok)
					mcs::fail_sched("try lock of T%d failed although nobody else used the lock meanwhile", s->failed[i].t);
			}
			if (s->lock.is_locked())
				mcs::fail_sched("the lock is still locked after every holder released it");
			if (!s->lock.try_lock())
				mcs::fail_sched("try_lock fails although every holder released the lock");
			if (!s->lock.is_locked())
				mcs::fail_sched("is_locked() false while locked");
			if (s->lock.try_lock() || s->lock.try_lock_shared())
				mcs::fail_sched("try lock succeeds on a lock that is held");
			if constexpr (std::is_same<Lock, seq::spinlock>::value)
				if (s->lock.try_lock_for(std::chrono::milliseconds(5)))
					mcs::fail_sched("timed lock succeeds on a lock that is held");
			s->lock.unlock();
			if (!s->lock.try_lock_shared())
				mcs::fail_sched("try_lock_shared fails on a free lock");
			if (s->lock.try_lock())
				mcs::fail_sched("try_lock succeeds while a shared holder exists");
			s->lock.unlock_shared();
			if (s->lock.is_locked())
				mcs::fail_sched("lock not free after unlock_shared");
			s->lock.lock_shared();
			s->lock.unlock_shared();
			s->lock.lock();
			s->lock.unlock();
			if constexpr (std::is_same<Lock, seq::spinlock>::value) {
				if (!s->lock.try_lock_for(std::chrono::milliseconds(5)))
					mcs::fail_sched("timed lock fails on a free lock");
				s->lock.unlock();
				if (!s->lock.try_lock_until(std::chrono::system_clock::now() - std::chrono::milliseconds(5)))
					mcs::fail_sched("timed lock with a past deadline fails on a free lock");
				s->lock.unlock();
			}
			mcs::outcome(s->oc);
			delete s;
		}
	};

	template<class Lock>
	void programs(Enum& e, const char* name, const std::string& alphabet)
	{
		std::vector<std::vector<std::string>> progs;
		std::vector<std::string> one, two;
		for (char c : alphabet)
			one.push_back(std::string(1, c));
		for (char c : alphabet)
			for (char d : alphabet)
				two.push_back(std::string(1, c) + d);
		auto add2 = [&](const std::vector<std::string>& A, const std::vector<std::string>& B, bool sym) {
			for (size_t i = 0; i < A.size(); ++i)
				for (size_t j = sym ? i : 0; j < B.size(); ++j)
					progs.push_back({ A[i], B[j] });
		};
		add2(one, one, true);
		add2(two, one, false);
		for (size_t i = 0; i < one.size(); ++i)
			for (size_t j = i; j < one.size(); ++j)
				for (size_t k = j; k < one.size(); ++k)
					progs.push_back({ one[i], one[j], one[k] });
		add2(two, two, true);
		if (e.thorough()) {
			for (size_t i = 0; i < two.size(); ++i)
				for (size_t j = 0; j < one.size(); ++j)
					for (size_t k = j; k < one.size(); ++k)
						progs.push_back({ two[i], one[j], one[k] });
			if (alphabet.size() <= 4)
				for (size_t i = 0; i < one.size(); ++i)
					for (size_t j = i; j < one.size(); ++j)
						for (size_t k = j; k < one.size(); ++k)
							for (size_t l = k; l < one.size(); ++l)
								progs.push_back({ one[i], one[j], one[k], one[l] });
		}
		for (auto& p : progs) {
			std::string d;
			for (auto& x : p)
				d += (d.empty() ? "" : " || ") + x;
			if (!e.begin("%s: %s", name, d.c_str()))
				continue;
			mcs::Scenario s;
			s.setup = [] { Prog<Lock>::st() = new State<Lock>(); };
			for (auto& x : p)
				s.threads.push_back([x] {
					for (char c : x)
						Prog<Lock>::op(c);
				});
			s.finish = [] { Prog<Lock>::finish(); };
			size_t nops = 0;
			for (auto& x : p)
				nops += x.size();
			s.bound = p.size() >= 3 ? (e.thorough() ? 4 : 3) : (nops <= 2 ? 8 : nops == 3 ? 5 : 4) + (e.thorough() ? 2 : 0);
			mcs::explore(s);
		}
	}

	template<class T>
	void capacity(Enum& e, const char* name)
	{
		// as many shared holders as the counter can represent, without ever touching the state bits
		if (!e.begin("shared holders %s", name))
			return;
		seq::shared_spinner<T> l;
		unsigned n = 0;
		unsigned lim = sizeof(T) == 1 ? 200 : 8000;
		while (n < lim && l.try_lock_shared())
			++n;
		CHECK(n >= 16, "only %u shared holders", n);
		CHECK(!l.try_lock());
		CHECK(l.is_locked());
		for (unsigned i = 0; i < n; ++i) {
			CHECK(!l.try_lock(), "try_lock with %u shared holders", n - i);
			l.unlock_shared();
		}
		CHECK(!l.is_locked());
		CHECK(l.try_lock());
		CHECK(!l.try_lock_shared());
		l.unlock();
		CHECK(l.try_lock_shared());
		l.unlock_shared();
	}
}

int main(int argc, char** argv)
{
	add_enum("locks", [](Enum& e) {
		capacity<std::uint8_t>(e, "uint8");
		capacity<std::uint16_t>(e, "uint16");
		capacity<std::uint32_t>(e, "uint32");
		capacity<std::uint64_t>(e, "uint64");
		programs<seq::spinlock>(e, "spinlock", "LTFSU");
		programs<seq::shared_spinner<std::uint8_t>>(e, "shared_spinner<uint8>", "LTSR");
		programs<seq::shared_spinner<std::uint32_t>>(e, "shared_spinner<uint32>", "LTSR");
		programs<seq::shared_spinner<std::uint16_t>>(e, "shared_spinner<uint16>", "LTSR");
		programs<seq::shared_spinner<std::uint64_t>>(e, "shared_spinner<uint64>", "LTSR");
	});
	return main_(argc, argv);
}
