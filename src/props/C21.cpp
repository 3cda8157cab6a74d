// SIM: plain -lz
// C21: decompression of damaged data ends, and truncated data is never complete.
#include <stdex/zlib.hpp>
#include "peer.h"
#include "zseam.h"
#include <string.h>
#include <memory>
#include <vector>
using namespace sim;
using namespace stdex::stream;
using stdex::zlib_reader;

namespace
{
	const char* sname(state_t s) { return s == state_t::ok ? "ok" : s == state_t::eof ? "eof" : "fail"; }
	std::vector<uint8_t> content()
	{
		size_t n = size(choose(6) ? 100 : 20000);
		std::vector<uint8_t> d(n);
		unsigned kind = choose(3);
		for (size_t i = 0; i < n; ++i) d[i] = kind == 0 ? pat(31, i) : kind == 1 ? (uint8_t)(i % 7) : (uint8_t)(pat(32, i / 9) & 3);
		return d;
	}
	std::vector<uint8_t> pack(const std::vector<uint8_t>& d, int level, bool dictionary)
	{
		// straight with zlib, independently of the code under test
		z_stream z;
		memset(&z, 0, sizeof(z));
		deflateInit(&z, level);
		if (dictionary) deflateSetDictionary(&z, (const Bytef*)"dictionary", 10);
		std::vector<uint8_t> out(deflateBound(&z, d.size()) + 16);
		z.next_in = (Bytef*)d.data(); z.avail_in = (uInt)d.size();
		z.next_out = out.data(); z.avail_out = (uInt)out.size();
		deflate(&z, Z_FINISH);
		out.resize(z.total_out);
		deflateEnd(&z);
		return out;
	}
	// What the bytes are: zlib in one piece
	int reference(const std::vector<uint8_t>& in, std::vector<uint8_t>& out)
	{
		z_stream z;
		memset(&z, 0, sizeof(z));
		inflateInit(&z);
		z.next_in = (Bytef*)in.data(); z.avail_in = (uInt)in.size();
		int r;
		std::vector<uint8_t> b(70000);
		do {
			z.next_out = b.data(); z.avail_out = (uInt)b.size();
			r = inflate(&z, Z_NO_FLUSH);
			out.insert(out.end(), b.begin(), b.begin() + (b.size() - z.avail_out));
		} while (r == Z_OK && (z.avail_in || !z.avail_out) && out.size() < 40000000);
		inflateEnd(&z);
		return r;
	}
	void damage()
	{
		auto d = content();
		bool dict = !choose(8);
		auto p = pack(d, (int)choose(11) - 1, dict);
		switch (choose(6)) {
		case 0: break;
		case 1: p.resize(choose((uint32_t)p.size())); count_fault("truncated"); break;
		case 2: { // something follows
			size_t n = 1 + choose(40);
			for (size_t i = 0; i < n; ++i) p.push_back((uint8_t)choose(256));
			count_fault("trailing_bytes");
			break;
		}
		case 3: { // flipped
			unsigned n = 1 + choose(3);
			for (unsigned i = 0; i < n; ++i) p[choose(4) ? choose((uint32_t)p.size()) : p.size() - 1 - choose(p.size() < 4 ? (uint32_t)p.size() : 4)] ^= (uint8_t)(1 << choose(8));
			count_fault("bit_flip");
			break;
		}
		case 4: { // anything
			p.resize(size(60));
			for (auto& b : p) b = (uint8_t)choose(256);
			if (p.size() > 1 && choose(2)) { p[0] = 0x78; p[1] = choose(2) ? 0x9c : 0xda; }
			count_fault("garbage");
			break;
		}
		default: { // a part is missing or repeated
			size_t a = choose((uint32_t)p.size()), n = 1 + choose(8);
			if (choose(2)) p.erase(p.begin() + a, p.begin() + (a + n < p.size() ? a + n : p.size()));
			else { std::vector<uint8_t> x(p.begin() + a, p.begin() + (a + n < p.size() ? a + n : p.size())); p.insert(p.begin() + a, x.begin(), x.end()); }
			count_fault("missing_or_repeated_part");
		}
		}
		std::vector<uint8_t> want;
		int r = reference(p, want);
		peer::source u;
		u.o.preemptible = false;
		u.o.p_short = choose(2) ? choose(900) : 0;
		u.data = p;
		if (!choose(6)) u.o.fail_at = choose((uint32_t)p.size() + 1);
		static const uint32_t bs[] = { 16, 1, 2, 3, 7, 64, 0x10000 };
		zlib_reader z(u, bs[choose(7)]);
		std::vector<uint8_t> out;
		bool ended = false, failed = false;
		uint64_t s0 = steps();
		uint64_t calls = 0;
		while (!ended && !failed) {
			size_t n = choose(3) ? 1 + choose(100) : 1 + choose(20000);
			std::vector<uint8_t> b(n + 1, 0xee);
			set_step_limit(steps() + 2000 + 200 * (p.size() + n));
			size_t k = 0;
			try {
				k = z.read(b.data(), n);
				SIM_CHECK(k <= n, "count", "read(%zu) returns %zu", n, k);
				if (!k) { SIM_CHECK(!z.ok(), "state", "nothing is read and the state is ok"); (z.state() == state_t::eof ? ended : failed) = true; }
				else if (z.state() == state_t::eof) { SIM_CHECK(r == Z_STREAM_END && out.size() + k == want.size(), "incomplete_as_end", "the compressed data is incomplete or damaged (%d), with the last %zu bytes the end is reported", r, k); count_op("end_with_bytes"); }
			}
			catch (const std::runtime_error& e) { failed = true; ev("thrown: %s", e.what()); }
			catch (const std::bad_alloc&) { failed = true; }
			SIM_CHECK(b[n] == 0xee, "overrun", "read writes behind the buffer");
			out.insert(out.end(), b.begin(), b.begin() + k);
			++calls;
			SIM_CHECK(out.size() <= want.size() && !memcmp(out.data(), want.data(), out.size()), "content", "byte %zu or before is not what the data says", out.size());
			SIM_CHECK(calls < 100000, "endless", "reading does not end");
		}
		ev("%zu packed bytes, reference %d with %zu bytes; %zu bytes, %s", p.size(), r, want.size(), out.size(), ended ? "end" : "failure");
		if (ended) {
			SIM_CHECK(r == Z_STREAM_END, "incomplete_as_end", "the compressed data is incomplete or damaged (%d), after %zu bytes the end is reported", r, out.size());
			SIM_CHECK(out.size() == want.size(), "short", "the end is reported after %zu of %zu bytes", out.size(), want.size());
		}
		else SIM_CHECK(r != Z_STREAM_END || u.failed, "state", "intact data ends in failure after %zu of %zu bytes", out.size(), want.size());
		// and stays that way
		for (unsigned i = 0; i < 2; ++i) {
			uint8_t b;
			set_step_limit(steps() + 5000);
			try { size_t k = z.read(&b, 1); SIM_CHECK(k == 0 && z.state() == (ended ? state_t::eof : state_t::fail), "state", "after the %s %zu bytes are read and %s is reported", ended ? "end" : "failure", k, sname(z.state())); }
			catch (const std::exception&) { SIM_CHECK(failed, "state", "an exception after the end"); }
		}
		(void)s0;
		state(out.size() * 4 + (unsigned)(r & 3));
	}
	void s_damage() { { zseam::scope s; damage(); } zseam::check(); }
}
SIM_SCENARIOS("C21", { "damage", 1, s_damage })
