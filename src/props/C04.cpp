// SIM: threads
// C04: replicator.
#include "peer.h"
#include <memory>
using namespace sim;
using stdex::stream::state_t;

namespace
{
	const void* g_data;
	size_t g_length;
	bool g_in_write;
	void on_write(peer::sink&, const void* d, size_t n)
	{
		SIM_CHECK(g_in_write, "late_use", "a sink is written while no write is in progress");
		SIM_CHECK(n == g_length, "args", "a sink is offered %zu bytes, %zu were written", n, g_length);
		SIM_CHECK(!n || !memcmp(d, g_data, n), "args", "a sink is offered other bytes than were written");
	}

	struct model { std::vector<uint8_t> got; unsigned writes = 0, flushes = 0, closes = 0; bool attached = false; };

	void run()
	{
		set_schedule(0);
		uint32_t n_sinks = choose(4) + (choose(3) == 2 ? 1 : 0);
		peer::sink sinks[5];
		model m[5];
		static const uint32_t ps[] = { 0, 0, 0, 300, 900 };
		for (uint32_t i = 0; i < n_sinks; ++i) {
			auto& o = sinks[i].o;
			o.p_short = ps[choose(5)];
			o.p_stall = ps[choose(4)];
			if (choose(4) == 1) { o.fail_at = choose(200); o.transient = choose(2); o.late = choose(2); }
			o.fail_flush = choose(10) == 1;
			o.fail_close = choose(10) == 1;
			sinks[i].on_write = on_write;
			sinks[i].detached = true;
		}
		auto buf = std::make_unique<uint8_t[]>(600);
		uint64_t off = 0;
		g_in_write = false;
		ev("replicator with %u sinks", n_sinks);
		{
			auto r = std::make_unique<stdex::stream::replicator>();
			auto attach = [&](uint32_t i) {
				sinks[i].detached = false; m[i].attached = true;
				r->push_back(&sinks[i]);
				ev("attach %u", i);
			};
			for (uint32_t i = 0; i < n_sinks; ++i)
				if (choose(5) != 4) attach(i);
			unsigned ops = 1 + choose(10);
			for (unsigned k = 0; k < ops; ++k) {
				uint32_t c = choose(10);
				unsigned fail_before[5];
				for (uint32_t i = 0; i < n_sinks; ++i) fail_before[i] = sinks[i].failures;
				auto idle = [&](const char* what) {
					for (uint32_t i = 0; i < n_sinks; ++i) {
						SIM_CHECK(!sinks[i].busy, "late_use", "sink %u is still in use after %s returned", i, what);
						if (m[i].attached) {
							SIM_CHECK(sinks[i].writes == m[i].writes && sinks[i].flushes == m[i].flushes && sinks[i].closes == m[i].closes, "calls",
								"sink %u saw %u writes, %u flushes, %u closes after %s, expected %u, %u, %u", i, sinks[i].writes, sinks[i].flushes, sinks[i].closes, what, m[i].writes, m[i].flushes, m[i].closes);
						}
					}
				};
				auto expect_state = [&](const char* what) {
					bool all = true;
					for (uint32_t i = 0; i < n_sinks; ++i)
						if (m[i].attached && sinks[i].failures != fail_before[i]) all = false;
					SIM_CHECK(r->ok() == all, r->ok() ? "failure_hidden" : "spurious_failure", "%s reports state %d but %s", what, (int)r->state(), all ? "every sink succeeded" : "a sink failed");
				};
				if (c < 6) {
					uint32_t n = choose(15) == 14 ? 0 : 1 + size(250);
					for (uint32_t i = 0; i < n; ++i) buf[i] = pat(9, off + i);
					g_data = buf.get(); g_length = n; g_in_write = true;
					size_t before[5];
					for (uint32_t i = 0; i < n_sinks; ++i) before[i] = sinks[i].got.size();
					size_t ret = r->write(buf.get(), n);
					g_in_write = false;
					nopreempt np;
					ev("write %u -> %zu %d", n, ret, (int)r->state());
					count_op("write");
					size_t least = n;
					for (uint32_t i = 0; i < n_sinks; ++i)
						if (m[i].attached) {
							++m[i].writes;
							size_t took = sinks[i].got.size() - before[i];
							if (took < least) least = took;
							SIM_CHECK(!memcmp(sinks[i].got.data() + before[i], buf.get(), took), "order", "sink %u got other bytes than were written", i);
						}
						else SIM_CHECK(sinks[i].got.size() == before[i], "use_after_detach", "detached sink %u got bytes", i);
					idle("write()");
					SIM_CHECK(ret == least, "count", "write returned %zu, the slowest sink took %zu", ret, least);
					expect_state("write");
					off += n;
					memset(buf.get(), 0xee, n);
				}
				else if (c < 7) {
					r->flush();
					nopreempt np;
					ev("flush -> %d", (int)r->state());
					count_op("flush");
					for (uint32_t i = 0; i < n_sinks; ++i) if (m[i].attached) ++m[i].flushes;
					idle("flush()");
					expect_state("flush");
				}
				else if (c < 8) {
					r->close();
					nopreempt np;
					ev("close -> %d", (int)r->state());
					count_op("close");
					for (uint32_t i = 0; i < n_sinks; ++i) if (m[i].attached) ++m[i].closes;
					idle("close()");
					expect_state("close");
				}
				else if (n_sinks) {
					uint32_t i = choose(n_sinks);
					if (m[i].attached) {
						r->remove(&sinks[i]);
						nopreempt np;
						ev("detach %u", i);
						count_op("detach");
						sinks[i].detached = true; m[i].attached = false;
						SIM_CHECK(!sinks[i].busy, "late_use", "sink %u is in use after it was detached", i);
						idle("remove()");
					}
					else { attach(i); count_op("attach"); }
				}
			}
			r.reset();
		}
		nopreempt np;
		for (uint32_t i = 0; i < n_sinks; ++i) {
			sinks[i].detached = true;
			if (m[i].attached) SIM_CHECK(sinks[i].writes == m[i].writes && sinks[i].flushes == m[i].flushes && sinks[i].closes == m[i].closes, "calls", "sink %u saw calls nobody made", i);
		}
		SIM_CHECK(threads_alive() == 0, "thread_leak", "a replicator thread outlives it");
		state(mix(off) + n_sinks);
	}
}
SIM_SCENARIOS("C04", { "replicator", 1, run })
