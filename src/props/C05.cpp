// SIM: threads
// C05: watchdog on a virtual clock.
#include <stdex/watchdog.hpp>
#include "sim.h"
#include <string.h>
#include <memory>
#include <thread>
#include <vector>
using namespace sim;
namespace sim { void wall_jump(int64_t ns); }

namespace
{
	struct iv { uint64_t b, e; };
	struct model {
		uint64_t timeout_ns = 0;
		std::vector<iv> resets;          // [begin, end] of each reset(); [0] is the construction
		std::vector<uint64_t> starts;    // callbacks
		unsigned running = 0;
		bool gone = false;
		// Resets of several threads may overlap: then any order of their effects must be allowed.
		// Number of gaps without a reset that can have been as long as the timeout at time t
		unsigned missed(uint64_t t)
		{
			unsigned n = 0;
			for (size_t i = 0; i < resets.size(); ++i) {
				// the longest possible gap after reset i: it took effect at its begin, the next ones only at their end
				uint64_t next = t;
				for (size_t k = 0; k < resets.size(); ++k)
					if (k != i && resets[k].b >= resets[i].e && k > i && resets[k].e < next) next = resets[k].e;
				if (next >= resets[i].b + timeout_ns) ++n;
			}
			return n;
		}
	} * M;

	template <class WD>
	void do_reset(WD& w)
	{
		size_t i;
		{ nopreempt np; i = M->resets.size(); M->resets.push_back({ now_ns(), UINT64_MAX }); count_op("reset"); evn(0x60, i); }
		w.reset();
		{ nopreempt np; M->resets[i].e = now_ns(); }
	}

	template <class D>
	void run()
	{
		set_schedule(0);
		typedef stdex::watchdog<std::chrono::steady_clock, D> wd_t;
		static const uint64_t us[] = { 0, 1, 20, 500, 10000, 250000, 3000000, 3600000000ull };
		D timeout = std::chrono::duration_cast<D>(std::chrono::microseconds(us[choose(8)]));
		model m;
		M = &m;
		m.timeout_ns = (uint64_t)std::chrono::duration_cast<std::chrono::nanoseconds>(timeout).count();
		uint32_t cb_kind = choose(5); // 0,1: quick 2: slow 3: resets the dog itself 4: yields
		wd_t* self_wd = nullptr;
		ev("watchdog timeout %llu ns, callback kind %u", (unsigned long long)m.timeout_ns, cb_kind);
		std::vector<wd_t*> box(1);
		auto callback = [&]() {
			bool resets = false;
			{
				nopreempt np;
				uint64_t t = now_ns();
				SIM_CHECK(!m.gone, "callback_after_destruction", "the callback starts after the watchdog was destroyed");
				SIM_CHECK(!m.running, "overlap", "two callbacks at once");
				++m.running;
				m.starts.push_back(t);
				count_op("callback");
				ev("callback %zu", m.starts.size());
				SIM_CHECK(m.starts.size() <= m.missed(t), "false_alarm", "callback number %zu, but only %u deadlines can have been missed after %zu resets", m.starts.size(), m.missed(t), m.resets.size() - 1);
				if (cb_kind == 3 && m.starts.size() < 5) resets = true;
			}
			if (cb_kind == 2) sleep_ns(1000ull << choose(24));
			else if (cb_kind == 4) yield_point();
			if (resets && box[0]) do_reset(*box[0]);
			{ nopreempt np; SIM_CHECK(!m.gone, "callback_after_destruction", "the callback is still running after the watchdog was destroyed"); --m.running; }
		};
		m.resets.push_back({ now_ns(), now_ns() });
		// Constructed in place so that the callback may use it
		alignas(64) uint8_t mem[sizeof(wd_t)];
		memset(mem, 0xa7, sizeof(mem));
		{ nopreempt np; box[0] = cb_kind == 3 ? (wd_t*)mem : nullptr; }
		wd_t* w = new (mem) wd_t(timeout, callback);
		{ nopreempt np; m.resets[0].e = now_ns(); }
		auto pause = [&](uint32_t c) {
			switch (c) {
			case 0: break;
			case 1: yield_point(); break;
			case 2: sleep_ns(m.timeout_ns / 2); break;
			case 3: sleep_ns(m.timeout_ns ? m.timeout_ns - 1 : 0); break;
			case 4: sleep_ns(m.timeout_ns); break;
			case 5: sleep_ns(m.timeout_ns + 1 + choose(5000)); break;
			case 6: sleep_ns(m.timeout_ns > 10000 ? m.timeout_ns - choose(10000) : choose(10000)); break;
			default: sleep_ns(m.timeout_ns * 2 + 1000000);
			}
		};
		std::vector<std::thread> kids;
		unsigned n_kids = choose(4) == 1 ? 1 + choose(2) : 0;
		for (unsigned k = 0; k < n_kids; ++k)
			kids.emplace_back([&] {
				unsigned n = choose(6);
				for (unsigned i = 0; i < n; ++i) { pause(choose(8)); do_reset(*w); }
			});
		unsigned ops = choose(10);
		for (unsigned i = 0; i < ops; ++i) {
			pause(choose(8));
			if (choose(10) == 9) wall_jump((int64_t)(choose(2001)) * 3600000000000ll - 1000 * 3600000000000ll);
			if (choose(4)) do_reset(*w);
		}
		for (auto& k : kids) k.join();
		if (choose(2)) {
			// No more resets, faults stop: the dog must bark. The callback itself may reset once more.
			stop_faults();
			ev("wait for the watchdog");
			for (int round = 0; round < 8; ++round) {
				size_t r;
				{ nopreempt np; r = m.resets.size(); }
				sleep_ns(m.timeout_ns + 400000000ull + 20000000000ull + 300000000ull); // timeout, slow callback, stall
				sleep_ns(m.timeout_ns + 1000000000ull);
				nopreempt np;
				if (r != m.resets.size()) continue;
				uint64_t last = 0;
				for (auto& x : m.resets) if (x.b > last) last = x.b;
				bool barked = false;
				for (auto s : m.starts) if (s >= last + m.timeout_ns) barked = true;
				SIM_CHECK(barked, "missed", "no callback although no reset arrived for %llu ns with a timeout of %llu ns", (unsigned long long)(now_ns() - last), (unsigned long long)m.timeout_ns);
				break;
			}
		}
		else if (choose(2)) stop_faults();
		bool quiet = faults_stopped();
		uint64_t t0; unsigned running0; size_t starts0;
		{ nopreempt np; t0 = now_ns(); running0 = m.running; starts0 = m.starts.size(); ev("destroy"); }
		w->~wd_t();
		nopreempt np;
		m.gone = true;
		SIM_CHECK(m.running == 0, "callback_after_destruction", "a callback is still running after the destructor");
		SIM_CHECK(threads_alive() == 0, "thread_leak", "the watchdog's thread outlives it");
		if (quiet && m.timeout_ns >= 3000000000ull && cb_kind != 2 && !running0 && m.starts.size() == starts0)
			SIM_CHECK(now_ns() - t0 < 1000000000ull, "slow_destruction", "destruction took %llu ns", (unsigned long long)(now_ns() - t0));
		memset(mem, 0x5c, sizeof(mem));
		ev("%zu resets %zu callbacks", m.resets.size() - 1, m.starts.size());
		state(mix(m.resets.size() * 64 + m.starts.size()) + mix(m.timeout_ns) + cb_kind);
	}
	void ms() { run<std::chrono::milliseconds>(); }
	void us_() { run<std::chrono::microseconds>(); }
	void ns() { run<std::chrono::nanoseconds>(); }
	void sec() { run<std::chrono::seconds>(); }
}
SIM_SCENARIOS("C05", { "ms", 2, ms }, { "us", 3, us_ }, { "ns", 3, ns }, { "s", 1, sec })
