// SIM: plain
// C13: descriptors and sockets that transfer short, are interrupted, would block and fail.
#include <stdex/stream.hpp>
#include <stdex/socket.hpp>
#include "sim.h"
#include "simk.h"
#include <string.h>
#include <memory>
#include <vector>
using namespace sim;
using namespace stdex::stream;

namespace
{
	const char* sname(state_t s) { return s == state_t::ok ? "ok" : s == state_t::eof ? "eof" : "fail"; }
	struct world {
		std::shared_ptr<simk::stream> s = std::make_shared<simk::stream>();
		std::vector<uint8_t> sent; // what was reported as written
		size_t got = 0;
		bool broken_early = false;
		unsigned why() const { return simk::m.errors + simk::m.eagain; }
	};
	void draw()
	{
		auto& c = simk::cfg;
		static const uint32_t p[] = { 0, 0, 20, 100, 400 };
		c.short_read = choose(2) ? choose(900) : 0;
		c.short_write = choose(2) ? choose(900) : 0;
		c.eintr = p[choose(5)];
		c.eagain = p[choose(5)];
		c.read_error = p[choose(5)] / 4;
		c.write_error = p[choose(5)] / 4;
	}
	template <class T> void traffic(world& w, T& t, unsigned n)
	{
		set_step_limit(50000000);
		std::vector<uint8_t> buf;
		uint32_t big = choose(8) ? 100 : choose(8) ? 3000 : 100000;
		for (unsigned i = 0; i < n; ++i) {
			if (!choose(6)) draw();
			switch (choose(7)) {
			case 0: case 1: case 2: { // read
				size_t k = size(big);
				buf.assign(k + 1, 0xcd);
				unsigned e = w.why();
				size_t left = w.s->in.size() - w.s->in_pos;
				bool eos = w.s->in_closed || w.s->shut_rd;
				size_t r = t.read(buf.data(), k);
				state_t st = t.state();
				bool reason = w.why() != e;
				ev("read(%zu) of %zu -> %zu %s", k, left, r, sname(st));
				SIM_CHECK(r <= k && r <= left, "count", "read(%zu) with %zu bytes available returns %zu", k, left, r);
				for (size_t j = 0; j < r; ++j)
					SIM_CHECK(buf[j] == pat(1, w.got + j), "content", "byte %zu is not the one that was sent", w.got + j);
				w.got += r;
				SIM_CHECK(w.s->in_pos == w.got, "lost", "%zu bytes were taken from the system and %zu handed out", w.s->in_pos, w.got);
				if (r == k) SIM_CHECK(st == state_t::ok || (!k && reason), "state", "read(%zu) returns all and reports %s", k, sname(st));
				else if (r) SIM_CHECK(reason || (eos && left == r) , "short", "read(%zu) returns %zu of %zu available bytes without a reason", k, r, left);
				else if (reason) SIM_CHECK(st == state_t::fail, "error_hidden", "a read that failed below reports %s", sname(st));
				else SIM_CHECK(st == state_t::eof && eos && !left, "state", "read(%zu) returns nothing of %zu bytes and reports %s", k, left, sname(st));
				break;
			}
			case 3: case 4: case 5: { // write
				size_t k = size(big);
				buf.resize(k + 1);
				for (size_t j = 0; j < k; ++j) buf[j] = pat(2, w.sent.size() + j);
				unsigned e = w.why();
				size_t r = t.write(buf.data(), k);
				state_t st = t.state();
				ev("write(%zu) -> %zu %s", k, r, sname(st));
				SIM_CHECK(r <= k, "count", "write(%zu) returns %zu", k, r);
				w.sent.insert(w.sent.end(), buf.begin(), buf.begin() + r);
				SIM_CHECK(w.s->out.size() == w.sent.size(), "count", "%zu bytes are reported as written and %zu were handed over", w.sent.size(), w.s->out.size());
				if (r < k) {
					SIM_CHECK(w.why() != e, "short", "write(%zu) returns %zu without a reason", k, r);
					SIM_CHECK(st == state_t::fail, "error_hidden", "write(%zu) returns %zu and reports %s", k, r, sname(st));
				}
				else SIM_CHECK(st == state_t::ok || (!k && w.why() != e), "state", "write(%zu) returns all and reports %s", k, sname(st));
				break;
			}
			default: // the other side does something
				switch (choose(4)) {
				case 0: if (!w.s->in_closed) { size_t k = size(big), o = w.s->in.size(); for (size_t j = 0; j < k; ++j) w.s->in.push_back(pat(1, o + j)); } break;
				case 1: if (!choose(8)) w.s->in_closed = true; break;
				case 2: if (!choose(12)) w.s->out_broken = true; break;
				case 3: w.s->out_room = choose(3) ? UINT64_MAX : size(big); break;
				}
			}
			state(w.got * 1000003 + w.sent.size());
		}
		SIM_CHECK(w.s->out == w.sent, "content", "the bytes handed over are not those written");
	}
	void setup(world& w)
	{
		size_t n = size(3000);
		for (size_t j = 0; j < n; ++j) w.s->in.push_back(pat(1, j));
		w.s->in_closed = !choose(3);
		w.s->sticky_reset = choose(2);
		draw();
	}
	void s_sys()
	{
		world w;
		setup(w);
		basic_sys t(simk::open_stream(w.s));
		traffic(w, t, 5 + choose(60));
		t.close();
		SIM_CHECK(t.ok() && !simk::fds_open(), "close", "close reports %s", sname(t.state()));
	}
	void s_socket()
	{
		world w;
		setup(w);
		w.s->sticky_reset = true;
		stdex::stream::socket t(simk::open_stream(w.s));
		traffic(w, t, 5 + choose(40));
		if (choose(2)) { // the other owner goes on where the first one stopped
			stdex::stream::socket u(std::move(t));
			traffic(w, u, 1 + choose(20));
			SIM_CHECK(!t, "moved", "a moved-from socket is valid");
		}
		else t.close();
		SIM_CHECK(!simk::fds_open(), "close", "a descriptor is left open");
	}
	// Bytes pass through whole chains of transfers too
	void s_chain()
	{
		world a, b;
		size_t n = size(choose(4) ? 3000 : 150000);
		for (size_t j = 0; j < n; ++j) a.s->in.push_back(pat(1, j));
		b.s->in_closed = true;
		draw();
		if (choose(2)) simk::cfg.read_error = simk::cfg.write_error = simk::cfg.eintr = simk::cfg.eagain = 0;
		a.s->sticky_reset = b.s->sticky_reset = true;
		basic_sys in(simk::open_stream(a.s));
		stdex::stream::socket out(simk::open_stream(b.s));
		unsigned e = a.why();
		fsize_t limit = choose(3) ? fsize_max : (fsize_t)choose((uint32_t)n + 20);
		fsize_t r = out.write_stream(in, limit);
		SIM_CHECK(b.s->out.size() == r, "count", "%llu bytes are reported as copied and %zu were", (unsigned long long)r, b.s->out.size());
		for (size_t j = 0; j < r; ++j) SIM_CHECK(b.s->out[j] == pat(1, j), "content", "byte %zu of the copy differs", j);
		size_t want = limit < n ? (size_t)limit : n;
		if (out.ok()) SIM_CHECK(r == want, "lost", "a copy that reports ok moved %llu of %zu bytes", (unsigned long long)r, want);
		else SIM_CHECK(a.why() != e, "state", "a copy fails without a reason");
	}
	// Known: a connection that is reset in the middle of a read is reported as its end
	void k_reset_as_eof()
	{
		world w;
		for (size_t j = 0; j < 10; ++j) w.s->in.push_back(pat(1, j));
		stdex::stream::socket t(simk::open_stream(w.s));
		uint8_t b[100];
		w.s->in_closed = false;
		size_t r = t.read(b, 5);
		SIM_CHECK(r == 5 && t.ok(), "harness", "unexpected");
		// the remaining 5 bytes, then the reset
		w.s->reset_after_data = true;
		r = t.read(b, 50);
		state_t s1 = t.state();
		SIM_CHECK(r == 5, "harness", "unexpected count");
		if (s1 == state_t::fail) return;
		r = t.read(b, 50);
		SIM_CHECK(!r && t.state() == state_t::fail, "reset_as_eof", "recv() failed with ECONNRESET inside of a read, the next read reports %s", sname(t.state()));
	}
}
SIM_SCENARIOS("C13", { "sys", 3, s_sys }, { "socket", 3, s_socket }, { "chain", 1, s_chain }, { "socket_reset_as_eof", 0, k_reset_as_eof })
