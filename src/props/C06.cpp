// SIM: threads
// C06: spin-lock.
#include <stdex/spinlock.hpp>
#include "sim.h"
#include <memory>
#include <mutex>
#include <thread>
#include <vector>
using namespace sim;

namespace
{
	struct shared_t {
		stdex::spinlock lock[2];
		uint64_t data[2][4]; // guarded by lock[i]; touched without any other synchronisation
	};
	struct book { int holder[2] = { -1, -1 }; uint64_t acquired[2] = { 0, 0 }; unsigned interest[2] = { 0, 0 }; uint64_t events[2] = { 0, 0 }; };

	void critical(shared_t& s, book& b, unsigned l, int who, unsigned work)
	{
		{
			nopreempt np;
			SIM_CHECK(b.holder[l] < 0, "mutual_exclusion", "thread %d and thread %d hold the lock at once", who, b.holder[l]);
			b.holder[l] = who; ++b.acquired[l];
			count_op("acquire");
		}
		// A read-modify-write that loses updates when another thread is inside
		uint64_t v[4];
		for (int i = 0; i < 4; ++i) v[i] = s.data[l][i];
		switch (work) {
		case 1: yield_point(); break;
		case 2: sleep_ns(1000ull << choose(16)); break;
		}
		for (int i = 0; i < 4; ++i) s.data[l][i] = v[i] + 1 + i;
		{
			nopreempt np;
			SIM_CHECK(b.holder[l] == who, "mutual_exclusion", "the lock changed hands");
			b.holder[l] = -1;
		}
	}

	void run()
	{
		set_schedule(0);
		auto s = std::make_unique<shared_t>();
		book b;
		for (auto& x : s->data) for (auto& y : x) y = 0;
		unsigned n = 2 + choose(3), locks = 1 + choose(2), rounds = 1 + choose(12), p_try = choose(4);
		ev("spinlock: %u threads %u locks %u rounds", n, locks, rounds);
		set_step_limit(3000000);
		std::vector<std::thread> t;
		for (unsigned i = 0; i < n; ++i)
			t.emplace_back([&, i] {
				for (unsigned r = 0; r < rounds; ++r) {
					unsigned l = choose(locks), work = choose(3);
					auto& lk = s->lock[l];
					if (choose(4) < p_try) {
						// A try may only fail while somebody else holds the lock or tries to get it
						bool contended, got;
						uint64_t e0;
						{ nopreempt np; contended = b.interest[l] != 0; ++b.interest[l]; e0 = ++b.events[l]; }
						got = lk.try_lock();
						{
							nopreempt np;
							if (!got) {
								SIM_CHECK(contended || b.events[l] != e0, "try_lock", "try_lock() failed on a free lock nobody else wanted");
								--b.interest[l];
							}
							evn(0x61, got);
						}
						if (!got) continue;
						critical(*s, b, l, (int)i, work);
						lk.unlock();
						{ nopreempt np; --b.interest[l]; }
					}
					else {
						{ nopreempt np; ++b.interest[l]; ++b.events[l]; }
						lk.lock();
						critical(*s, b, l, (int)i, work);
						lk.unlock();
						{ nopreempt np; --b.interest[l]; }
					}
					if (choose(4) == 0) yield_point();
				}
			});
		for (auto& x : t) x.join();
		for (unsigned l = 0; l < 2; ++l) {
			for (unsigned i = 0; i < 4; ++i)
				SIM_CHECK(s->data[l][i] == b.acquired[l] * (1 + i), "lost_update", "the guarded value is %llu after %llu sections", (unsigned long long)s->data[l][i], (unsigned long long)b.acquired[l]);
			SIM_CHECK(s->lock[l].try_lock(), "try_lock", "the lock is not free after everybody has unlocked it");
			SIM_CHECK(!s->lock[l].try_lock(), "try_lock", "try_lock() takes a lock that is held");
			s->lock[l].unlock();
			{ std::lock_guard<stdex::spinlock> g(s->lock[l]); }
		}
		state(mix(b.acquired[0] * 100 + b.acquired[1]) + n);
	}

	// try_lock() returns although the holder never releases; lock() gets it once it does
	void stuck_holder()
	{
		set_schedule(0);
		auto s = std::make_unique<shared_t>();
		for (auto& x : s->data) for (auto& y : x) y = 0;
		book b;
		bool tried = false;
		ev("spinlock: holder waits for the others' try_lock");
		set_step_limit(3000000);
		unsigned n = 1 + choose(3), done = 0;
		s->lock[0].lock();
		std::vector<std::thread> t;
		for (unsigned i = 0; i < n; ++i)
			t.emplace_back([&, i] {
				unsigned k = 1 + choose(5);
				for (unsigned r = 0; r < k; ++r) {
					bool got = s->lock[0].try_lock();
					nopreempt np;
					SIM_CHECK(!got, "mutual_exclusion", "try_lock() took a lock that is held");
				}
				{ nopreempt np; if (++done == n) tried = true; }
				s->lock[0].lock();
				critical(*s, b, 0, (int)i, choose(3));
				s->lock[0].unlock();
			});
		for (;;) {
			{ nopreempt np; if (tried) break; }
			sleep_ns(10000);
		}
		critical(*s, b, 0, 99, 0);
		s->lock[0].unlock();
		for (auto& x : t) x.join();
		SIM_CHECK(s->data[0][0] == n + 1, "lost_update", "the guarded value is %llu", (unsigned long long)s->data[0][0]);
		state(mix(n) + done);
	}
}
SIM_SCENARIOS("C06", { "contend", 4, run }, { "stuck_holder", 1, stuck_holder })
