// SIM: threads
// C02: asynchronous (write-back) writer.
#include "peer.h"
#include <memory>
#include <optional>
using namespace sim;
using stdex::stream::state_t;

namespace
{
	template <size_t N>
	void run()
	{
		set_schedule(0);
		peer::sink s;
		uint64_t pattern = choose(3);
		s.check_pattern = true; s.pattern = pattern;
		static const uint32_t ps[] = { 0, 0, 100, 500, 900 };
		s.o.p_short = ps[choose(5)];
		s.o.p_stall = ps[choose(3)];
		uint32_t kind = choose(4); // 0,1: works  2: fails at a byte for good  3: fails once
		uint32_t budget = 1 + size(400);
		if (kind >= 2) { s.o.fail_at = choose(budget); s.o.transient = kind == 3; s.o.late = choose(3) == 1; }
		s.o.fail_flush = choose(12) == 1;
		s.o.fail_close = choose(12) == 1;
		ev("writer cap %zu budget %u fail_at %lld transient %d", N, budget, (long long)s.o.fail_at, s.o.transient);
		uint64_t accepted = 0;
		bool closed = false, refused = false;
		auto buf = std::make_unique<uint8_t[]>(4096);
		{
			auto w = std::make_unique<stdex::stream::async_writer<N>>(s);
			unsigned ops = 1 + choose(12);
			bool fail_seen = false; // a flush or close has reported failure of the sink
			for (unsigned op = 0; op < ops && !closed; ++op) {
				uint32_t c = choose(8);
				if (c < 5) {
					uint32_t n = size(budget - accepted < 300 ? (uint32_t)(budget - accepted) : 300);
					for (uint32_t i = 0; i < n; ++i) buf[i] = pat(pattern, accepted + i);
					size_t r = w->write(buf.get(), n);
					nopreempt np;
					ev("write %u -> %zu %d", n, r, (int)w->state());
					count_op("write");
					SIM_CHECK(r <= n, "count", "write of %u bytes returned %zu", n, r);
					if (w->ok()) SIM_CHECK(r == n, "count", "write reports ok but accepted %zu of %u bytes", r, n);
					else {
						SIM_CHECK(s.failed || refused, "spurious_failure", "write failed although the sink has not");
						refused = true;
					}
					if (fail_seen && n) SIM_CHECK(r == 0 && !w->ok(), "accepted_after_failure", "write accepted %zu bytes after the failure of the sink was reported", r);
					accepted += r;
					memset(buf.get(), 0xee, n); // the caller may reuse its buffer at once
				}
				else if (c < 7) {
					unsigned before = s.flushes;
					w->flush();
					nopreempt np;
					ev("flush -> %d", (int)w->state());
					count_op("flush");
					SIM_CHECK(!s.busy, "concurrent_use", "the sink is still in use after flush()");
					if (w->ok()) {
						SIM_CHECK(!s.failed, "failure_hidden", "flush reports ok although the sink failed and %llu of %llu bytes are missing", (unsigned long long)(accepted - s.got.size()), (unsigned long long)accepted);
						SIM_CHECK(s.got.size() == accepted, "flush", "flush returned with %zu of %llu bytes delivered", s.got.size(), (unsigned long long)accepted);
						SIM_CHECK(s.flushes == before + 1, "flush", "flush of the writer flushed the sink %u times", s.flushes - before);
						SIM_CHECK(!s.o.fail_flush, "failure_hidden", "flush reports ok although flushing the sink failed");
					}
					else {
						SIM_CHECK(s.failed || s.o.fail_flush, "spurious_failure", "flush failed although the sink has not");
						if (s.failed) fail_seen = true;
					}
				}
				else if (choose(3) == 2) {
					w->close();
					nopreempt np;
					ev("close -> %d", (int)w->state());
					count_op("close");
					closed = true;
					SIM_CHECK(!s.busy, "concurrent_use", "the sink is still in use after close()");
					SIM_CHECK(s.closes == 1, "close", "close of the writer closed the sink %u times", s.closes);
					if (w->ok()) {
						SIM_CHECK(!s.failed, "failure_hidden", "close reports ok although the sink failed and %llu bytes are missing", (unsigned long long)(accepted - s.got.size()));
						SIM_CHECK(s.got.size() == accepted, "close", "close returned with %zu of %llu bytes delivered", s.got.size(), (unsigned long long)accepted);
						SIM_CHECK(!s.o.fail_close, "failure_hidden", "close reports ok although closing the sink failed");
					}
					else
						SIM_CHECK(s.failed || s.o.fail_close, "spurious_failure", "close failed although the sink has not");
				}
				else
					sleep_ns(1000ull << choose(18));
				SIM_CHECK(s.got.size() <= accepted + 4096, "invented", "the sink got more than was written");
			}
			w.reset();
		}
		nopreempt np;
		s.detached = true;
		SIM_CHECK(threads_alive() == 0, "thread_leak", "the writer's thread outlives it");
		SIM_CHECK(s.got.size() <= accepted, "invented", "the sink got %zu bytes, %llu were written", s.got.size(), (unsigned long long)accepted);
		if (!s.failed)
			SIM_CHECK(s.got.size() == accepted, "lost", "%llu bytes were accepted but only %zu delivered by the time the writer is destroyed", (unsigned long long)accepted, s.got.size());
		state(mix(accepted) + mix(s.got.size() + 7) + s.failed);
	}
	void c1() { run<1>(); }
	void c3() { run<3>(); }
	void c16() { run<16>(); }
	void c64() { run<64>(); }
	void c1024() { run<1024>(); }
}
SIM_SCENARIOS("C02", { "writer1", 1, c1 }, { "writer3", 2, c3 }, { "writer16", 2, c16 }, { "writer64", 2, c64 }, { "writer1024", 1, c1024 })
