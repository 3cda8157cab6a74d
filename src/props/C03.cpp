// SIM: threads
// C03: asynchronous (read-ahead) reader.
#include "peer.h"
#include <memory>
using namespace sim;
using stdex::stream::state_t;

namespace
{
	template <size_t N>
	void run()
	{
		set_schedule(0);
		peer::source s;
		uint32_t total = size(600);
		uint64_t pattern = choose(3);
		{ nopreempt np; s.data.resize(total); for (uint32_t i = 0; i < total; ++i) s.data[i] = pat(pattern, i); }
		static const uint32_t ps[] = { 0, 0, 100, 500, 900 };
		s.o.p_short = ps[choose(5)];
		s.o.p_stall = ps[choose(3)];
		if (choose(3) == 1) s.o.fail_at = choose(total + 1);
		s.o.late = choose(3) == 1;
		uint64_t deliverable = s.o.fail_at < total ? s.o.fail_at : total;
		if (s.o.fail_at == total) deliverable = total;
		bool fails = s.o.fail_at <= total;
		ev("reader cap %zu total %u fail_at %lld", N, total, (long long)s.o.fail_at);
		auto buf = std::make_unique<uint8_t[]>(1024);
		bool abandon = choose(4) == 1;
		uint32_t abandon_after = choose(10);
		uint64_t n = 0;
		{
			auto r = std::make_unique<stdex::stream::async_reader<N>>(s);
			unsigned ends = 0;
			for (unsigned op = 0;; ++op) {
				if (abandon && op >= abandon_after) { ev("abandoned at %llu", (unsigned long long)n); break; }
				if (choose(8) == 7) sleep_ns(1000ull << choose(18));
				uint32_t want = choose(12) == 11 ? 0 : 1 + size(500);
				memset(buf.get(), 0xee, want + 8);
				size_t k = r->read(buf.get(), want);
				nopreempt np;
				ev("read %u -> %zu %d", want, k, (int)r->state());
				count_op("read");
				SIM_CHECK(k <= want, "count", "read of %u bytes returned %zu", want, k);
				SIM_CHECK(n + k <= deliverable, "invented", "read delivered %llu bytes, the source has only given %llu", (unsigned long long)(n + k), (unsigned long long)deliverable);
				for (size_t i = 0; i < k; ++i)
					SIM_CHECK(buf[i] == pat(pattern, n + i), "order", "byte %llu read is not the source's", (unsigned long long)(n + i));
				SIM_CHECK(buf[k] == 0xee || k == want, "count", "read wrote behind the bytes it returned");
				SIM_CHECK(buf[want] == 0xee, "count", "read wrote behind the buffer");
				n += k;
				if (k && k == want) SIM_CHECK(r->ok(), "state", "a complete read is reported as state %d", (int)r->state());
				if (k < want) {
					SIM_CHECK(n == deliverable, "lost", "read came back short with %llu of %llu bytes delivered", (unsigned long long)n, (unsigned long long)deliverable);
					if (!k) {
						if (fails) SIM_CHECK(r->state() == state_t::fail, "failure_hidden", "the source failed but read reports state %d", (int)r->state());
						else SIM_CHECK(r->state() == state_t::eof, "state", "the source ended but read reports state %d", (int)r->state());
						if (++ends > choose(3)) break;
					}
				}
				if (!want) SIM_CHECK(k == 0 && r->ok(), "state", "an empty read reports state %d", (int)r->state());
			}
			r.reset();
		}
		nopreempt np;
		s.detached = true;
		SIM_CHECK(!s.busy, "concurrent_use", "the source is in use after the reader was destroyed");
		SIM_CHECK(threads_alive() == 0, "thread_leak", "the reader's thread outlives it");
		if (!abandon) SIM_CHECK(n == deliverable, "lost", "%llu of %llu bytes delivered", (unsigned long long)n, (unsigned long long)deliverable);
		state(mix(n) + mix(total + 3) + fails);
	}
	void c1() { run<1>(); }
	void c3() { run<3>(); }
	void c16() { run<16>(); }
	void c64() { run<64>(); }
	void c1024() { run<1024>(); }
}
SIM_SCENARIOS("C03", { "reader1", 1, c1 }, { "reader3", 2, c3 }, { "reader16", 2, c16 }, { "reader64", 2, c64 }, { "reader1024", 1, c1024 })
