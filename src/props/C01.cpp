// SIM: threads
// C01: the bounded ring between one producer and one consumer.
#include <stdex/ring.hpp>
#include "sim.h"
#include <thread>
#include <memory>
#include <vector>

using namespace sim;

namespace
{
	struct shared
	{
		uint64_t pushed = 0, push_done = 0, popped = 0; // push() begun, push() returned, pop() begun
		bool quit_called = false, quit_done = false, producer_done = false;
		uint64_t pushed_at_quit = 0;
	};

	// T is large enough to be torn by a preemption when the ring's bookkeeping lets both sides touch a slot.
	struct elem { uint64_t a, b; };
	inline elem make(uint64_t n) { return { mix(n), ~mix(n) }; }

	template <class T> struct conv;
	template <> struct conv<elem> { static elem make(uint64_t n) { return { mix(n), ~mix(n) }; } static bool eq(const elem& e, uint64_t n) { return e.a == mix(n) && e.b == ~mix(n); } };
	template <> struct conv<uint8_t> { static uint8_t make(uint64_t n) { return (uint8_t)(mix(n) >> 9); } static bool eq(uint8_t e, uint64_t n) { return e == (uint8_t)(mix(n) >> 9); } };

	// who_quits: 0 producer at its end, 1 consumer after some elements, 2 third thread, 3 nobody until the producer is finished and synced
	template <class T, size_t N>
	void run()
	{
		using ring = stdex::ring<T, N>;
		set_schedule(0);
		uint32_t total = size(choose(4) ? 60 : 300), who = choose(4), p_sync = choose(4), limit_c = choose(total + 1);
		bool slow_p = choose(6) == 0, slow_c = choose(6) == 0;
		ev("ring cap %zu elem %zu total %u quit by %u", N, sizeof(T), total, who);
		auto r = std::make_unique<ring>();
		shared s;
		bool quit_expected = who == 1 || who == 2;

		std::thread consumer([&] {
			for (uint64_t n = 0;;) {
				if (slow_c && choose(4) == 0) sleep_ns(1000 + choose(3000000));
				bool quit_before;
				uint64_t avail_min;
				{ nopreempt np; quit_before = s.quit_done; avail_min = s.push_done > s.popped ? s.push_done - s.popped : 0; }
				auto [p, len] = r->front();
				{
					nopreempt np;
					if (!p) {
						SIM_CHECK(s.quit_called, "spurious_quit", "front() reports quit but quit() was never called");
						SIM_CHECK(len == 0, "span", "front() returned {nullptr, %zu}", len);
						SIM_CHECK(avail_min == 0, "lost", "front() reports quit although %llu pushed elements have not been read", (unsigned long long)avail_min);
						ev("consumer sees quit after %llu", (unsigned long long)n);
						break;
					}
					SIM_CHECK(len >= 1 && len <= N, "span", "front() returned %zu elements of a ring of %zu", len, N);
					SIM_CHECK(s.popped + len <= s.pushed + N, "span", "front() offers more than was ever pushed");
				}
				size_t k = len;
				if (len > 1) k = choose(3) ? len : 1 + choose((uint32_t)len);
				for (size_t i = 0; i < k; ++i)
					if (!conv<T>::eq(p[i], n + i)) {
						nopreempt np;
						violation("order", "element %llu read from the ring is not the one pushed", (unsigned long long)(n + i));
					}
				n += k;
				{ nopreempt np; s.popped += k; SIM_CHECK(s.popped <= s.pushed, "invented", "consumer read %llu elements, only %llu were pushed", (unsigned long long)s.popped, (unsigned long long)s.pushed); }
				r->pop(k);
				count_op("pop");
				if (who == 1 && n >= limit_c) {
					{ nopreempt np; s.quit_called = true; s.pushed_at_quit = s.pushed; }
					r->quit();
					{ nopreempt np; s.quit_done = true; ev("consumer quits at %llu", (unsigned long long)n); }
					break;
				}
			}
		});
		std::thread third;
		if (who == 2)
			third = std::thread([&] {
				uint32_t d = choose(12);
				for (uint32_t i = 0; i < d; ++i) { if (choose(3) == 0) sleep_ns(1000 * choose(2000)); else yield_point(); }
				{ nopreempt np; s.quit_called = true; }
				r->quit();
				{ nopreempt np; s.quit_done = true; ev("third thread quits"); }
			});
		bool stopped = false;
		for (uint64_t n = 0; n < total;) {
			if (slow_p && choose(4) == 0) sleep_ns(1000 + choose(3000000));
			bool quit_before;
			{ nopreempt np; quit_before = s.quit_done; }
			auto [p, len] = r->back();
			{
				nopreempt np;
				if (!p) {
					SIM_CHECK(s.quit_called, "spurious_quit", "back() reports quit but quit() was never called");
					SIM_CHECK(len == 0, "span", "back() returned {nullptr, %zu}", len);
					ev("producer sees quit at %llu", (unsigned long long)n);
					stopped = true;
				}
				else {
					SIM_CHECK(!quit_before, "quit_ignored", "back() offers space although quit() had returned before the call");
					SIM_CHECK(len >= 1 && len <= N, "span", "back() returned space for %zu elements of a ring of %zu", len, N);
				}
			}
			if (stopped) break;
			size_t k = len < total - n ? len : (size_t)(total - n);
			if (k > 1 && choose(3) == 0) k = 1 + choose((uint32_t)k);
			for (size_t i = 0; i < k; ++i)
				p[i] = conv<T>::make(n + i);
			{ nopreempt np; s.pushed += k; }
			r->push(k);
			{ nopreempt np; s.push_done += k; }
			count_op("push");
			n += k;
			if (p_sync == 1 && choose(5) == 0) {
				bool was_quit, flush;
				{ nopreempt np; was_quit = s.quit_done; }
				flush = r->sync();
				nopreempt np;
				count_op("sync");
				SIM_CHECK(s.quit_called || s.popped == s.pushed, "sync", "sync() returned while %llu elements are unread and nobody quit", (unsigned long long)(s.pushed - s.popped));
				SIM_CHECK(!flush || s.popped == s.pushed, "sync", "sync() reports a flush ring while %llu elements are unread", (unsigned long long)(s.pushed - s.popped));
				SIM_CHECK(flush || s.quit_called, "sync", "sync() reports that the ring has quit but quit() was never called");
				SIM_CHECK(!flush || !was_quit, "sync", "sync() reports a flush ring although quit() had returned before the call");
			}
		}
		if (who == 3 && !stopped) {
			r->sync();
			nopreempt np;
			SIM_CHECK(s.popped == s.pushed, "sync", "sync() returned while %llu elements are unread and nobody quit", (unsigned long long)(s.pushed - s.popped));
		}
		if (who == 0 || who == 3 || (who == 1 && !stopped)) {
			{ nopreempt np; s.quit_called = true; s.pushed_at_quit = s.pushed; s.producer_done = true; }
			r->quit();
			{ nopreempt np; s.quit_done = true; }
		}
		if (who == 2) third.join();
		{
			bool quit_before;
			{ nopreempt np; quit_before = s.quit_done; }
			bool flush = r->sync(); // after quit() nobody blocks here
			SIM_CHECK(!flush || !quit_before, "sync", "sync() reports a flush ring although quit() had returned before the call");
		}
		consumer.join();
		if (who == 0 || who == 3) // the consumer drains everything before it sees the quit
			SIM_CHECK(s.popped == s.pushed, "lost", "%llu elements were pushed but only %llu read", (unsigned long long)s.pushed, (unsigned long long)s.popped);
		state(mix(s.pushed) ^ mix(s.popped * 31 + who));
		(void)quit_expected;
	}

	void cap1() { run<elem, 1>(); }
	void cap2() { run<elem, 2>(); }
	void cap3() { run<elem, 3>(); }
	void cap8() { run<uint8_t, 8>(); }
	void cap7() { run<uint8_t, 7>(); }
	void cap64() { run<uint8_t, 64>(); }
}
SIM_SCENARIOS("C01", { "ring1", 2, cap1 }, { "ring2", 2, cap2 }, { "ring3", 3, cap3 }, { "ring8", 2, cap8 }, { "ring7", 2, cap7 }, { "ring64", 1, cap64 })
