// SIM: plain -lz
// C20: what is compressed and decompressed in any pieces is the original.
#include <stdex/zlib.hpp>
#include "peer.h"
#include "simk.h"
#include "zseam.h"
#include <sys/mman.h>
#include <string.h>
#include <memory>
#include <vector>
using namespace sim;
using namespace stdex::stream;
using stdex::zlib_reader;
using stdex::zlib_writer;

namespace
{
	const char* sname(state_t s) { return s == state_t::ok ? "ok" : s == state_t::eof ? "eof" : "fail"; }
	uint32_t block()
	{
		static const uint32_t b[] = { 16, 1, 2, 3, 5, 7, 64, 100, 1000, 0x10000 };
		return b[choose(10)];
	}
	std::vector<uint8_t> content()
	{
		size_t n = size(choose(5) ? 200 : choose(5) ? 5000 : 150000);
		std::vector<uint8_t> d(n);
		unsigned kind = choose(3);
		for (size_t i = 0; i < n; ++i) d[i] = kind == 0 ? pat(21, i) : kind == 1 ? (uint8_t)(i % 7) : (uint8_t)(pat(22, i / 9) & 3);
		return d;
	}
	// Writes d in pieces; false when a failure was reported
	bool feed(zlib_writer& z, const std::vector<uint8_t>& d, bool flushes)
	{
		size_t at = 0;
		while (at < d.size()) {
			size_t n = 1 + choose((uint32_t)(d.size() - at < 4000 ? d.size() - at : 4000));
			if (!choose(4)) n = d.size() - at;
			std::vector<uint8_t> copy(d.begin() + at, d.begin() + at + n);
			size_t r = z.write(copy.data(), n);
			SIM_CHECK(r <= n, "count", "write(%zu) returns %zu", n, r);
			SIM_CHECK(z.ok() ? r == n : z.state() == state_t::fail, "state", "write(%zu) returns %zu and reports %s", n, r, sname(z.state()));
			if (!z.ok()) return false;
			at += n;
			if (!choose(8)) { z.write(nullptr, 0); SIM_CHECK(z.ok(), "state", "a write of nothing reports %s", sname(z.state())); }
			if (flushes && !choose(4)) { z.flush(); if (!z.ok()) return false; }
		}
		return true;
	}
	// Reads to the end; returns how it ended
	state_t drain(basic& z, std::vector<uint8_t>& out, size_t limit)
	{
		for (;;) {
			size_t n = choose(3) ? 1 + choose(100) : 1 + choose(20000);
			std::vector<uint8_t> b(n + 1, 0xee);
			size_t r = z.read(b.data(), n);
			SIM_CHECK(r <= n, "count", "read(%zu) returns %zu", n, r);
			SIM_CHECK(b[n] == 0xee, "overrun", "read writes behind the buffer");
			if (r) SIM_CHECK(z.ok(), "state", "read returns %zu bytes and reports %s", r, sname(z.state()));
			out.insert(out.end(), b.begin(), b.begin() + r);
			SIM_CHECK(out.size() <= limit, "content", "%zu bytes are read, the original has %zu", out.size(), limit);
			if (!r) { SIM_CHECK(!z.ok(), "state", "nothing is read and the state is ok"); return z.state(); }
			if (!choose(10)) { z.read(nullptr, 0); SIM_CHECK(z.ok(), "state", "a read of nothing reports %s", sname(z.state())); }
		}
	}
	void unpack(const std::vector<uint8_t>& packed, const std::vector<uint8_t>& d)
	{
		peer::source u;
		u.o.preemptible = false;
		u.o.p_short = choose(2) ? choose(900) : 0;
		u.data = packed;
		bool fails = !choose(3);
		if (fails) { u.o.fail_at = choose((uint32_t)packed.size() + 1); u.o.transient = choose(2); }
		std::vector<uint8_t> out;
		{
			zseam::g_init_fault = choose(6) ? 0 : 300;
			std::unique_ptr<zlib_reader> zp;
			try { zp.reset(new zlib_reader(u, block())); } catch (const std::bad_alloc&) { SIM_CHECK(zseam::g_faults, "state", "out of memory without a reason"); return; }
			zseam::g_init_fault = 0;
			zlib_reader& z = *zp;
			state_t s = drain(z, out, d.size());
			if (s == state_t::fail && u.failed && u.o.fail_at == UINT64_MAX) s = drain(z, out, d.size()); // the source works again
			ev("%zu of %zu bytes unpacked, %s", out.size(), d.size(), sname(s));
			SIM_CHECK(!memcmp(out.data(), d.data(), out.size()), "content", "the unpacked bytes are not the original ones");
			if (s == state_t::eof) SIM_CHECK(out.size() == d.size(), "short", "%zu of %zu bytes are followed by the end", out.size(), d.size());
			else SIM_CHECK(u.failed, "state", "unpacking reports %s without a reason", sname(s));
			// the end stays the end
			uint8_t b;
			if (s == state_t::eof) SIM_CHECK(!z.read(&b, 1) && z.state() == state_t::eof, "state", "after the end %s is reported", sname(z.state()));
		}
		state(out.size() * 3 + u.reads);
	}
	// A sink in memory that accepts short and fails
	void sink_run()
	{
		auto d = content();
		peer::sink u;
		u.o.preemptible = false;
		if (!choose(3)) { u.o.fail_at = choose((uint32_t)d.size() + 20); u.o.transient = choose(2); u.o.late = choose(2); }
		if (!choose(8)) u.o.fail_close = true;
		if (!choose(8)) u.o.fail_flush = true;
		if (!choose(4)) u.o.p_short = 1 + choose(900);
		bool reported = false, closed = false, forced = false;
		zseam::g_init_fault = choose(8) ? 0 : 500;
		try {
			zlib_writer z(u, (int)choose(11) - 1, block());
			zseam::g_init_fault = 0;
			reported = !feed(z, d, choose(2));
			if (choose(2)) {
				z.close();
				closed = true;
				ev("close -> %s", sname(z.state()));
				if (!z.ok()) reported = true;
				SIM_CHECK(u.closes == 1, "close", "the sink is closed %u times", u.closes);
			}
			if (!choose(6)) { reported = forced = true; throw 1; }
		}
		catch (int) {}
		catch (const std::exception& e) { ev("thrown: %s", e.what()); reported = true; }
		ev("packed %zu into %zu%s, %u failures", d.size(), u.got.size(), reported ? ", failure reported" : "", u.failures);
		if (u.failures) { SIM_CHECK(reported, "failure_hidden", "the sink failed, nobody says so"); return; }
		zseam::g_init_fault = 0;
		SIM_CHECK(!reported || forced || zseam::g_faults || u.o.p_short, "state", "a failure is reported without a reason");
		if (reported) return;
		(void)closed;
		unpack(u.got, d);
	}
	// Over real streams
	void real_run()
	{
		auto d = content();
		std::vector<uint8_t> packed;
		switch (choose(4)) {
		case 0: {
			memory_file m;
			{ zlib_writer z(m, (int)choose(11) - 1, block()); SIM_CHECK(feed(z, d, choose(2)), "state", "compressing into memory fails"); }
			packed.assign((const uint8_t*)m.data(), (const uint8_t*)m.data() + m.size());
			break;
		}
		case 1: {
			fifo f;
			{ zlib_writer z(f, (int)choose(11) - 1, block()); SIM_CHECK(feed(z, d, choose(2)), "state", "compressing into a queue fails"); }
			packed = f.read_remainder();
			break;
		}
		case 2: { // compressed twice, buffered
			memory_file m;
			{
				buffer b(m, choose(20), choose(20));
				zlib_writer z2(b, (int)choose(11) - 1, block());
				zlib_writer z(z2, (int)choose(11) - 1, block());
				SIM_CHECK(feed(z, d, choose(2)), "state", "compressing twice fails");
			}
			m.seek(0);
			{
				buffer b(m, choose(20), choose(20));
				zlib_reader z2(b, block());
				zlib_reader z(z2, block());
				std::vector<uint8_t> out;
				SIM_CHECK(drain(z, out, d.size()) == state_t::eof && out == d, "content", "what was compressed twice is not the original");
			}
			return;
		}
		default: { // a disk that fails
			auto ino = simk::make_file("/z", {});
			static const uint32_t q[] = { 0, 0, 60, 300 };
			bool reported = false;
			unsigned e = 0;
			try {
				file f("/z", mode_for_writing | mode_binary);
				simk::cfg.short_write = choose(900);
				simk::cfg.write_error = q[choose(4)];
				if (!choose(4)) simk::cfg.capacity = choose((uint32_t)d.size() + 20);
				e = simk::m.errors + simk::m.nospace;
				{
					zlib_writer z(f, (int)choose(11) - 1, block());
					reported = !feed(z, d, false);
					if (choose(2)) { z.close(); if (!z.ok()) reported = true; }
				}
			}
			catch (const std::exception&) { reported = true; }
			bool failed = simk::m.errors + simk::m.nospace != e;
			ev("packed %zu into a file of %zu%s", d.size(), ino->data.size(), reported ? ", failure reported" : "");
			simk::cfg = simk::config();
			if (reported) { SIM_CHECK(failed, "state", "a failure is reported without a reason"); return; }
			packed = ino->data;
		}
		}
		unpack(packed, d);
	}
	// Blocks longer than zlib can take at once. Compressing them for real takes too long: a stand-in keeps the books.
	const uint8_t* g_at;      // where the next byte is expected
	uint64_t g_done, g_all;
	int book_deflate(z_streamp z, int flush)
	{
		count_op("deflate");
		if (z->avail_in) SIM_CHECK(z->next_in == g_at, "content", "byte %llu of the block is compressed after byte %llu", (unsigned long long)(z->next_in - g_at + g_done), (unsigned long long)g_done);
		SIM_CHECK(z->avail_in <= g_all - g_done, "count", "%u bytes are compressed, %llu are left", z->avail_in, (unsigned long long)(g_all - g_done));
		bool full = flush == Z_NO_FLUSH ? choose(4) == 1 && z->avail_in : false;
		uInt in = full ? choose(z->avail_in) : z->avail_in, out = full ? z->avail_out : z->avail_out > 1 ? choose(z->avail_out < 50 ? z->avail_out : 50) : 0;
		memset(z->next_out, 0x55, out);
		z->next_in += in; z->avail_in -= in; z->next_out += out; z->avail_out -= out;
		g_at += in; g_done += in;
		return flush == Z_FINISH ? Z_STREAM_END : Z_OK;
	}
	uint64_t g_stop;
	int book_inflate(z_streamp z, int)
	{
		count_op("inflate");
		SIM_CHECK(z->next_out == g_at, "content", "byte %llu is unpacked to the place of byte %llu", (unsigned long long)g_done, (unsigned long long)(z->next_out - g_at + g_done));
		SIM_CHECK(z->avail_out <= g_all - g_done, "overrun", "%u bytes are asked for, there is place for %llu", z->avail_out, (unsigned long long)(g_all - g_done));
		uint64_t k = choose(3) ? z->avail_out : choose(z->avail_out) + 1;
		if (k > g_stop - g_done) k = g_stop - g_done;
		if (k < z->avail_out || choose(2)) { z->next_in += z->avail_in; z->avail_in = 0; }
		z->next_out += k; z->avail_out -= (uInt)k;
		g_at += k; g_done += k;
		return g_done == g_stop && k ? Z_STREAM_END : Z_OK;
	}
	uint8_t* region()
	{
		static uint8_t* p;
		if (!p) { p = (uint8_t*)mmap(nullptr, 14ull << 30, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) harness_error("no address space"); }
		return p;
	}
	void huge_run()
	{
		static const uint64_t lens[] = { 0xffffffffull, 0x100000000ull, 0xfffffffeull, 0x100000001ull, 0x1fffffffeull, 0x1ffffffffull, 0x200000003ull, 10ull << 30 };
		uint64_t len = lens[choose(8)];
		g_at = region(); g_done = 0; g_all = len;
		if (choose(2)) {
			peer::sink u;
			u.o.preemptible = false;
			if (choose(4) == 1) { u.o.fail_at = choose(200); u.o.late = choose(2); }
			zlib_writer z(u, 1, 1 + choose(100));
			zseam::g_deflate = book_deflate;
			size_t r = z.write(g_at, len);
			ev("%llu bytes written at once, %zu reported", (unsigned long long)len, r);
			if (u.failures) SIM_CHECK(z.state() == state_t::fail && r <= g_done, "failure_hidden", "the sink fails, %zu bytes of %llu compressed are reported as written and the state is %s", r, (unsigned long long)g_done, sname(z.state()));
			else SIM_CHECK(r == len && g_done == len && z.ok(), "count", "%llu of %llu bytes are compressed, %zu reported, %s", (unsigned long long)g_done, (unsigned long long)len, r, sname(z.state()));
			g_all = g_done;
			z.close();
			SIM_CHECK(u.failures || z.ok(), "state", "closing reports %s", sname(z.state()));
		}
		else {
			peer::source u;
			u.o.preemptible = false;
			u.data.assign(100000, 1);
			g_stop = choose(3) ? choose(2) ? len : UINT64_MAX : len / 2 + choose(0xffffffffu);
			if (choose(4) == 1) { u.data.resize(choose(200)); }
			zlib_reader z(u, 1 + choose(100));
			zseam::g_inflate = book_inflate;
			size_t r = z.read(region(), len);
			ev("%llu bytes read at once, %zu reported", (unsigned long long)len, r);
			SIM_CHECK(r == g_done, "count", "%llu bytes are unpacked, %zu are reported", (unsigned long long)g_done, r);
			SIM_CHECK(r ? z.ok() : !z.ok(), "state", "%zu bytes are read and %s is reported", r, sname(z.state()));
			if (u.pos < u.data.size()) SIM_CHECK(r == (g_stop < len ? g_stop : len), "short", "%zu bytes are read", r);
		}
		state(len + g_done * 3);
	}
	void in_scope(void (*f)()) { { zseam::scope s; f(); } zseam::check(); }
	void s_sink() { in_scope(sink_run); }
	void s_real() { in_scope(real_run); }
	void s_huge() { in_scope(huge_run); }
}
SIM_SCENARIOS("C20", { "sink", 3, s_sink }, { "real", 2, s_real }, { "huge", 1, s_huge })
