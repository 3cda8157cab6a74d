// SIM: plain
// C15: buffered streams pass bytes unchanged and deliver all of them.
#include <stdex/stream.hpp>
#include "peer.h"
#include "simk.h"
#include <string.h>
#include <memory>
#include <vector>
using namespace sim;
using namespace stdex::stream;

namespace
{
	const char* sname(state_t s) { return s == state_t::ok ? "ok" : s == state_t::eof ? "eof" : "fail"; }
	size_t buffer_size() { static const size_t s[] = { 0, 1, 2, 3, 5, 8, 16, 33, 100, 4096 }; return s[choose(10)]; }

	// The sink of the writing direction and the source of the reading one
	struct duplex : stdex::stream::basic {
		peer::sink out;
		peer::source in;
		size_t read(void* d, size_t n) override { size_t r = in.read(d, n); m_state = in.state(); return r; }
		size_t write(const void* d, size_t n) override { size_t r = out.write(d, n); m_state = out.state(); return r; }
		void flush() override { out.flush(); m_state = out.state(); }
		void close() override { out.close(); m_state = out.state(); }
	};

	struct side {
		stdex::stream::basic* b;
		duplex* u;
		uint64_t accepted = 0;   // bytes reported as written
		uint64_t taken = 0;      // bytes read
		bool shorts = false;

		void delivered(const char* when)
		{
			auto& g = u->out.got;
			SIM_CHECK(g.size() <= accepted, "invented", "%s the sink has %zu bytes, only %llu were accepted", when, g.size(), (unsigned long long)accepted);
		}
		void all(const char* when)
		{
			SIM_CHECK(u->out.got.size() == accepted, "left_behind", "%s the sink has %zu bytes of the %llu that were accepted", when, u->out.got.size(), (unsigned long long)accepted);
		}
		void write(size_t n)
		{
			std::vector<uint8_t> d(n + 1);
			for (size_t i = 0; i < n; ++i) d[i] = pat(7, accepted + i);
			unsigned f = u->out.failures;
			size_t r = b->write(n ? d.data() : nullptr, n);
			ev("write(%zu) -> %zu %s", n, r, sname(b->state()));
			SIM_CHECK(r <= n, "count", "write(%zu) returns %zu", n, r);
			accepted += r;
			if (r < n) SIM_CHECK(u->out.failures != f ? b->state() == state_t::fail : shorts, "state", "write(%zu) returns %zu and reports %s", n, r, sname(b->state()));
			else if (u->out.failures == f) SIM_CHECK(b->ok(), "state", "write(%zu) returns all and reports %s", n, sname(b->state()));
			else SIM_CHECK(b->state() == state_t::fail, "failure_hidden", "the sink fails during a write, which reports %s", sname(b->state()));
			delivered("after a write");
		}
		void flush()
		{
			unsigned f = u->out.failures;
			b->flush();
			ev("flush -> %s", sname(b->state()));
			if (b->ok()) {
				all("after a flush that reports ok");
				SIM_CHECK(u->out.failures == f, "failure_hidden", "the sink fails during a flush, which reports ok");
			}
			else SIM_CHECK(u->out.failures != f, "state", "flush reports %s without a reason", sname(b->state()));
			delivered("after a flush");
		}
		void read(size_t n)
		{
			std::vector<uint8_t> d(n + 1, 0xcd);
			bool failed = u->in.failed;
			uint64_t left = u->in.data.size() - taken;
			size_t r = b->read(d.data(), n);
			state_t s = b->state();
			ev("read(%zu) of %llu -> %zu %s", n, (unsigned long long)left, r, sname(s));
			SIM_CHECK(r <= n && r <= left, "count", "read(%zu) of %llu returns %zu", n, (unsigned long long)left, r);
			for (size_t i = 0; i < r; ++i)
				SIM_CHECK(d[i] == pat(9, taken + i), "content", "byte %llu is not the one of the source", (unsigned long long)(taken + i));
			taken += r;
			if (r == n) SIM_CHECK(s == state_t::ok, "state", "read(%zu) returns all and reports %s", n, sname(s));
			if (!r && n) {
				if (u->in.failed != failed || (u->in.failed && !u->in.o.transient)) SIM_CHECK(s == state_t::fail, "failure_hidden", "a read that failed below reports %s", sname(s));
				else SIM_CHECK(s == state_t::eof && !left, "state", "read(%zu) returns nothing of %llu bytes and reports %s", n, (unsigned long long)left, sname(s));
			}
			SIM_CHECK(u->in.pos >= taken, "invented", "more bytes are read than the source delivered");
		}
		void step()
		{
			uint32_t big = choose(5) ? 40 : choose(5) ? 300 : 9000;
			switch (choose(8)) {
			case 0: case 1: case 2: write(size(big)); break;
			case 3: flush(); break;
			case 4: case 5: case 6: read(size(big)); break;
			default: {
				size_t n = choose(big), e = 1 + choose(4);
				std::vector<uint8_t> d(n * e + 1);
				bool failed = u->in.failed;
				uint64_t left = u->in.data.size() - taken, p = u->in.data.size();
				size_t r = b->read_array(d.data(), e, n);
				SIM_CHECK(r * e <= left, "count", "read_array returns too much");
				for (size_t i = 0; i < r * e; ++i) SIM_CHECK(d[i] == pat(9, taken + i), "content", "byte %llu is not the one of the source", (unsigned long long)(taken + i));
				if (r < n && u->in.failed == failed && !(u->in.failed && !u->in.o.transient)) { SIM_CHECK(r == left / e, "short", "read_array stops before the end"); taken = p; }
				else if (r < n) taken = u->in.pos; // the rest of an element is used up
				else taken += n * e;
			}
			}
			state(taken * 65537 + accepted * 3 + u->out.got.size());
		}
	};
	void setup(duplex& u)
	{
		size_t n = size(choose(5) ? 300 : 20000);
		u.in.data.resize(n);
		for (size_t i = 0; i < n; ++i) u.in.data[i] = pat(9, i);
		u.out.check_pattern = true;
		u.out.pattern = 7;
		u.in.o.p_short = choose(2) ? choose(900) : 0;
		u.out.o.p_short = choose(3) ? 0 : choose(900);
		if (!choose(3)) { u.out.o.fail_at = choose(300); u.out.o.transient = choose(2); u.out.o.late = choose(2); }
		if (!choose(3)) { u.in.o.fail_at = choose((uint32_t)n + 1); u.in.o.transient = choose(2); }
		if (!choose(8)) u.out.o.fail_flush = true;
		if (!choose(8)) u.out.o.fail_close = true;
		u.in.o.preemptible = u.out.o.preemptible = false;
	}
	void s_buffer()
	{
		duplex u;
		setup(u);
		side s{ nullptr, &u };
		s.shorts = u.out.o.p_short;
		{
			std::unique_ptr<buffer> b(new buffer(u, buffer_size(), buffer_size()));
			s.b = b.get();
			unsigned n = 2 + choose(50);
			for (unsigned i = 0; i < n; ++i) s.step();
			bool working = u.out.o.fail_at == UINT64_MAX;
			switch (choose(4)) {
			case 0: s.flush(); break;
			case 1: {
				unsigned f = u.out.failures;
				b->close();
				ev("close -> %s", sname(b->state()));
				SIM_CHECK(u.out.closes == 1, "close", "close() closes the underlying stream %u times", u.out.closes);
				if (b->ok()) { s.all("after a close that reports ok"); SIM_CHECK(u.out.failures == f, "failure_hidden", "the sink fails during close, which reports ok"); }
				else SIM_CHECK(u.out.failures != f, "state", "close reports failure without a reason");
				break;
			}
			case 2: // what could not be delivered is kept until the sink works again
				u.out.o = peer::options();
				u.out.o.preemptible = false;
				b->flush();
				SIM_CHECK(b->ok(), "state", "flush to a working sink reports %s", sname(b->state()));
				s.all("after a flush to a working sink");
				break;
			default:
				if (!working && choose(2)) { u.out.o.fail_at = UINT64_MAX; working = true; }
				b.reset();
				if (working) s.all("after the destruction");
				s.delivered("after the destruction");
				return;
			}
		}
		s.delivered("after the destruction");
	}
	// A buffered descriptor
	void s_buffered_sys()
	{
		auto k = std::make_shared<simk::stream>();
		size_t n = size(2000);
		for (size_t i = 0; i < n; ++i) k->in.push_back(pat(9, i));
		static const uint32_t p[] = { 0, 0, 30, 200 };
		simk::cfg.short_read = choose(2) ? choose(900) : 0;
		simk::cfg.short_write = choose(2) ? choose(900) : 0;
		simk::cfg.eintr = p[choose(4)];
		simk::cfg.write_error = p[choose(4)];
		simk::cfg.read_error = p[choose(4)];
		uint64_t accepted = 0, taken = 0;
		bool clean = true, closed = false;
		auto prefix = [&](const char* when) {
			SIM_CHECK(k->out.size() <= accepted, "invented", "%s %zu bytes were handed over, only %llu accepted", when, k->out.size(), (unsigned long long)accepted);
			for (size_t i = 0; i < k->out.size(); ++i) SIM_CHECK(k->out[i] == pat(7, i), "content", "%s byte %zu handed over is not the one written", when, i);
		};
		unsigned e0 = simk::m.errors;
		{
			buffered_sys b(simk::open_stream(k), buffer_size(), buffer_size());
			unsigned m = 1 + choose(40);
			for (unsigned i = 0; i < m && !closed; ++i) {
				std::vector<uint8_t> d;
				unsigned e = simk::m.errors;
				switch (choose(8)) {
				case 0: case 1: case 2: {
					size_t w = size(60);
					for (size_t j = 0; j < w; ++j) d.push_back(pat(7, accepted + j));
					size_t r = b.write(d.data(), w);
					SIM_CHECK(r <= w && (r == w || simk::m.errors != e), "count", "write(%zu) returns %zu", w, r);
					if (r < w) SIM_CHECK(b.state() == state_t::fail, "state", "write(%zu) returns %zu and reports %s", w, r, sname(b.state()));
					accepted += r;
					break;
				}
				case 3: // a pipe cannot be synchronised, but its bytes are handed over
					b.flush();
					if (simk::m.errors == e) SIM_CHECK(k->out.size() == accepted, "left_behind", "after flush %zu bytes of %llu are handed over", k->out.size(), (unsigned long long)accepted);
					break;
				case 4: case 5: case 6: {
					size_t w = size(60), left = (size_t)(n - taken);
					d.resize(w + 1);
					size_t r = b.read(d.data(), w);
					SIM_CHECK(r <= w && r <= left, "count", "read(%zu) of %zu returns %zu", w, left, r);
					for (size_t j = 0; j < r; ++j) SIM_CHECK(d[j] == pat(9, taken + j), "content", "byte %llu is not the one sent", (unsigned long long)(taken + j));
					taken += r;
					if (!r && w) SIM_CHECK(simk::m.errors != e ? b.state() == state_t::fail : b.state() == state_t::eof && !left, "state", "read(%zu) of %zu returns nothing and reports %s", w, left, sname(b.state()));
					break;
				}
				default:
					if (choose(4)) break;
					b.close();
					closed = true;
					if (simk::m.errors == e) { SIM_CHECK(b.ok(), "state", "close reports failure"); }
					if (b.ok()) SIM_CHECK(k->out.size() == accepted, "left_behind", "after close %zu bytes of %llu are handed over", k->out.size(), (unsigned long long)accepted);
					break;
				}
				prefix("after an operation");
				if (simk::m.errors != e) clean = false;
			}
			if (choose(2)) simk::cfg = simk::config();
			e0 = simk::m.errors;
		}
		prefix("after the destruction");
		if (!closed && simk::m.errors == e0) SIM_CHECK(k->out.size() == accepted, "left_behind", "after the destruction %zu bytes of %llu are handed over", k->out.size(), (unsigned long long)accepted);
		SIM_CHECK(!simk::fds_open() && !simk::bad_closes(), "descriptor", "the descriptor is not closed once");
		(void)clean;
	}
	// Buffers over buffers over a limiter that accepts short
	void s_stack()
	{
		duplex u;
		setup(u);
		u.out.o.fail_flush = u.out.o.fail_close = false;
		u.out.o.fail_at = UINT64_MAX;
		uint64_t lim = choose(200);
		limiter l(u, fsize_max, lim);
		uint64_t accepted = 0;
		bool ok = true;
		{
			buffer b1(l, buffer_size(), buffer_size());
			buffer b2(b1, buffer_size(), buffer_size());
			unsigned m = 1 + choose(20);
			for (unsigned i = 0; i < m; ++i) {
				size_t n = size(40);
				std::vector<uint8_t> d(n + 1);
				for (size_t j = 0; j < n; ++j) d[j] = pat(7, accepted + j);
				accepted += b2.write(d.data(), n);
				if (choose(4)) continue;
				b2.flush();
				ok = b2.ok();
				if (ok) SIM_CHECK(u.out.got.size() == accepted, "left_behind", "after a flush that reports ok the sink has %zu bytes of %llu", u.out.got.size(), (unsigned long long)accepted);
				else SIM_CHECK(accepted > lim, "state", "flush fails below the limit");
			}
		}
		SIM_CHECK(u.out.got.size() == (accepted < lim ? accepted : lim), "left_behind", "the sink has %zu bytes of %llu, limit %llu", u.out.got.size(), (unsigned long long)accepted, (unsigned long long)lim);
	}
}
SIM_SCENARIOS("C15", { "buffer", 4, s_buffer }, { "buffered_sys", 2, s_buffered_sys }, { "stack", 1, s_stack })
