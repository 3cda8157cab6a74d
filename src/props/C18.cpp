// SIM: plain
// C18: FIFO: bytes come out in order, also when allocation fails.
#include <stdex/stream.hpp>
#include "sim.h"
#include <string.h>
#include <vector>
using namespace sim;
using namespace stdex::stream;

namespace
{
	const char* sname(state_t s) { return s == state_t::ok ? "ok" : s == state_t::eof ? "eof" : "fail"; }

	void s_fifo()
	{
		uint64_t in = 0, out = 0; // bytes written and read so far
		bool oom = choose(2);
		uint32_t p = oom ? 1 + choose(500) : 0;
		uint32_t big = choose(5) ? 40 : 5000;
		{
			fifo f;
			unsigned n = 1 + choose(60);
			for (unsigned i = 0; i < n; ++i) {
				SIM_CHECK(f.size() == in - out, "size", "%llu bytes are in the queue, size() is %zu", (unsigned long long)(in - out), f.size());
				uint64_t left = in - out;
				switch (choose(10)) {
				case 0: case 1: case 2: case 3: { // write
					size_t k = size(big);
					std::vector<uint8_t> b(k + 1);
					for (size_t j = 0; j < k; ++j) b[j] = pat(11, in + j);
					uint64_t a0 = alloc_failures();
					size_t r;
					{
						alloc_faults af(p, 1000);
						heap_track t;
						r = f.write(b.data(), k);
					}
					bool failed = alloc_failures() != a0;
					ev("write(%zu) -> %zu %s", k, r, sname(f.state()));
					if (failed) SIM_CHECK(!r && f.state() == state_t::fail, "failure_hidden", "memory ran out, write(%zu) returns %zu and %s", k, r, sname(f.state()));
					else SIM_CHECK(r == k && f.ok(), "state", "write(%zu) returns %zu and %s", k, r, sname(f.state()));
					in += r;
					memset(b.data(), 0x55, k);
					break;
				}
				case 4: case 5: case 6: { // read
					size_t k = size(big);
					std::vector<uint8_t> b(k + 1, 0xee);
					size_t r = f.read(b.data(), k), want = k < left ? k : (size_t)left;
					ev("read(%zu) of %llu -> %zu %s", k, (unsigned long long)left, r, sname(f.state()));
					SIM_CHECK(r == want, "count", "read(%zu) of %llu returns %zu", k, (unsigned long long)left, r);
					SIM_CHECK(f.state() == (k && !left ? state_t::eof : state_t::ok), "state", "read(%zu) of %llu reports %s", k, (unsigned long long)left, sname(f.state()));
					for (size_t j = 0; j < r; ++j) SIM_CHECK(b[j] == pat(11, out + j), "content", "byte %llu read is not the one written", (unsigned long long)(out + j));
					SIM_CHECK(b[k] == 0xee, "overrun", "read writes behind the buffer");
					out += r;
					break;
				}
				case 7:
					f.flush();
					SIM_CHECK(f.ok(), "state", "flush reports %s", sname(f.state()));
					break;
				case 8: {
					size_t e = 1 + choose(5), k = choose(20);
					std::vector<uint8_t> b(e * k + 1);
					size_t r = f.read_array(b.data(), e, k);
					SIM_CHECK(r == (left / e < k ? left / e : k), "count", "read_array of %zu x %zu with %llu bytes returns %zu", e, k, (unsigned long long)left, r);
					for (size_t j = 0; j < r * e; ++j) SIM_CHECK(b[j] == pat(11, out + j), "content", "byte %llu read is not the one written", (unsigned long long)(out + j));
					out += left < e * k ? left : e * k;
					break;
				}
				default:
					if (choose(4)) { // the rest
						auto v = f.read_remainder();
						SIM_CHECK(v.size() == left && f.state() == state_t::eof, "count", "read_remainder of %llu returns %zu, %s", (unsigned long long)left, v.size(), sname(f.state()));
						for (size_t j = 0; j < v.size(); ++j) SIM_CHECK(v[j] == pat(11, out + j), "content", "byte %llu read is not the one written", (unsigned long long)(out + j));
						out = in;
					}
					else {
						f.close();
						SIM_CHECK(f.ok(), "state", "close reports %s", sname(f.state()));
						out = in;
						SIM_CHECK(!heap_live(), "leak", "%llu blocks are left after close", (unsigned long long)heap_live());
					}
				}
				if (in == out && !choose(4)) SIM_CHECK(f.size() == 0, "size", "an empty queue has size %zu", f.size());
				state((in - out) * 4 + (uint64_t)f.state());
			}
		}
		SIM_CHECK(!heap_live(), "leak", "%llu blocks are left after the destruction", (unsigned long long)heap_live());
	}
	// The queue between two streams that copy
	void s_copy()
	{
		std::vector<uint8_t> d(size(200000));
		for (size_t i = 0; i < d.size(); ++i) d[i] = pat(12, i);
		memory_file a(d.data(), d.size(), d.size()), b;
		fifo f;
		uint64_t in = 0, out = 0;
		uint32_t p = choose(2) ? 1 + choose(300) : 0;
		for (unsigned i = 0; i < 30; ++i) {
			if (choose(2)) {
				uint64_t k = choose(3) ? choose(300) : choose(100000), a0 = alloc_failures(), r = 0;
				bool thrown = false;
				{
					alloc_faults af(p, 1000);
					try { r = f.write_stream(a, k); }
					catch (const std::bad_alloc&) { thrown = true; }
				}
				uint64_t want = d.size() - in < k ? d.size() - in : k;
				if (!thrown) {
					if (alloc_failures() != a0) SIM_CHECK(f.state() == state_t::fail || r == want, "failure_hidden", "memory ran out when copying, %llu of %llu are copied, %s", (unsigned long long)r, (unsigned long long)want, sname(f.state()));
					else SIM_CHECK(r == want && f.ok(), "count", "a copy of %llu returns %llu, %s", (unsigned long long)want, (unsigned long long)r, sname(f.state()));
				}
				in += r;
				a.seekbeg(in);
			}
			else {
				uint64_t k = choose(3) ? choose(300) : choose(100000);
				uint64_t r = b.write_stream(f, k), want = in - out < k ? in - out : k;
				SIM_CHECK(r == want, "count", "a copy of %llu out of the queue returns %llu", (unsigned long long)want, (unsigned long long)r);
				out += r;
			}
			SIM_CHECK(f.size() == in - out, "size", "%llu bytes are in the queue, size() is %zu", (unsigned long long)(in - out), f.size());
		}
		SIM_CHECK(b.size() == out && (!out || !memcmp(b.data(), d.data(), out)), "content", "what came through is not what was written");
	}
}
SIM_SCENARIOS("C18", { "fifo", 5, s_fifo }, { "copy", 1, s_copy })
