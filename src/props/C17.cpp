// SIM: plain
// C17: limiters and windows: no byte outside is touched, counts are exact.
#include <stdex/stream.hpp>
#include "peer.h"
#include "simk.h"
#include <string.h>
#include <memory>
#include <vector>
using namespace sim;
using namespace stdex::stream;

namespace
{
	const char* sname(state_t s) { return s == state_t::ok ? "ok" : s == state_t::eof ? "eof" : "fail"; }

	uint64_t limit() { return choose(5) ? choose(60) : choose(2) ? 0 : fsize_max; }

	void make_source(peer::source& u)
	{
		size_t n = size(choose(6) ? 100 : 100000);
		u.data.resize(n);
		for (size_t i = 0; i < n; ++i) u.data[i] = pat(5, i);
		u.o.preemptible = false;
		u.o.p_short = choose(2) ? choose(900) : 0;
		if (!choose(3)) u.o.fail_at = choose((uint32_t)n + 1);
	}
	uint64_t min3(uint64_t a, uint64_t b, uint64_t c = UINT64_MAX) { a = a < b ? a : b; return a < c ? a : c; }

	// Reads through a limiter (offset 0) or a window
	template <class S> void read_side(S& l, peer::source& u, uint64_t offset, uint64_t lim, bool is_window)
	{
		uint64_t end = min3(u.o.fail_at, u.data.size());
		uint64_t last = lim == fsize_max ? UINT64_MAX : offset + lim; // first byte behind
		uint64_t passed = 0;
		unsigned n = 1 + choose(25);
		for (unsigned k = 0; k < n; ++k) {
			size_t len = size(choose(4) ? 30 : 300);
			std::vector<uint8_t> b(len + 1, 0xee);
			size_t r;
			bool skip = !choose(8);
			uint64_t at = offset + passed, avail = min3(end > at ? end - at : 0, last > at ? last - at : 0);
			size_t before = u.pos;
			if (skip) { // skipping reads
				l.skip(len);
				if (!len) continue;
				r = (size_t)min3(len, avail);
				ev("skip(%zu) of %llu -> %s", len, (unsigned long long)avail, sname(l.state()));
				SIM_CHECK(l.ok() == (len <= avail), "state", "skip(%zu) with %llu left reports %s", len, (unsigned long long)avail, sname(l.state()));
			}
			else {
				r = l.read(b.data(), len);
				ev("read(%zu) of %llu -> %zu %s", len, (unsigned long long)avail, r, sname(l.state()));
				SIM_CHECK(r <= len && r <= avail, "count", "read(%zu) with %llu left returns %zu", len, (unsigned long long)avail, r);
				for (size_t i = 0; i < r; ++i)
					SIM_CHECK(b[i] == pat(5, at + i), "content", "byte %llu of the window is not byte %llu of the source", (unsigned long long)(passed + i), (unsigned long long)(at + i));
				for (size_t i = r; i <= len; ++i) SIM_CHECK(is_window || i < len || b[i] == 0xee, "overrun", "read writes behind the buffer");
			}
			passed += r;
			if (len && !skip) {
				if (r) SIM_CHECK(l.ok(), "state", "a read of %zu bytes reports %s", r, sname(l.state()));
				else {
					SIM_CHECK(!avail, "short", "nothing is read with %llu left", (unsigned long long)avail);
					state_t want = at >= last ? state_t::eof : u.o.fail_at <= u.data.size() ? state_t::fail : state_t::eof;
					if (at != last || at <= end) SIM_CHECK(l.state() == want, "state", "the end of the window is reported as %s", sname(l.state()));
				}
			}
			if (!is_window) SIM_CHECK(u.pos == passed && u.pos >= before, "outside", "%llu bytes were passed, %zu taken from the source", (unsigned long long)passed, u.pos);
			else if (passed || r) SIM_CHECK(u.pos >= offset + passed, "outside", "the window passes bytes that were not read");
			if (is_window && at < last && (!skip || len <= avail)) SIM_CHECK(u.pos <= (last == UINT64_MAX ? UINT64_MAX : last), "outside", "reading inside of the window takes bytes from behind it");
			if (lim != fsize_max) SIM_CHECK(l.read_limit == lim - passed, "count", "%llu bytes may still be read, the limiter says %llu", (unsigned long long)(lim - passed), (unsigned long long)l.read_limit);
			state(passed * 31 + at);
		}
	}
	template <class S> void write_side(S& l, peer::sink& u, uint64_t offset, uint64_t lim, bool is_window)
	{
		uint64_t written = 0; // bytes the caller was told are written
		unsigned n = 1 + choose(25);
		for (unsigned k = 0; k < n; ++k) {
			size_t len = size(choose(4) ? 30 : 300);
			std::vector<uint8_t> b(len + 1);
			for (size_t i = 0; i < len; ++i) b[i] = pat(6, written + i);
			unsigned f = u.failures;
			size_t had = u.got.size();
			size_t r = l.write(b.data(), len);
			ev("write(%zu) -> %zu %s", len, r, sname(l.state()));
			SIM_CHECK(r <= len, "count", "write(%zu) returns %zu", len, r);
			written += r;
			uint64_t want = written > offset ? min3(written - offset, lim) : 0; // what must have come through
			SIM_CHECK(u.got.size() == want, "count", "%llu bytes were accepted (offset %llu, limit %llu), %zu have come through", (unsigned long long)written, (unsigned long long)offset, (unsigned long long)lim, u.got.size());
			for (size_t i = had; i < u.got.size(); ++i) SIM_CHECK(u.got[i] == pat(6, offset + i), "content", "byte %zu that came through is not the one written", i);
			if (r < len) {
				bool at_limit = !is_window && lim != fsize_max && u.got.size() == lim;
				SIM_CHECK(u.failures != f || u.o.p_short || at_limit, "short", "write(%zu) accepts %zu without a reason", len, r);
				if (u.failures != f || (at_limit && !r)) SIM_CHECK(l.state() == state_t::fail, "failure_hidden", "write(%zu) accepts %zu and reports %s", len, r, sname(l.state()));
			}
			else if (len && u.failures == f) SIM_CHECK(l.ok(), "state", "a complete write reports %s", sname(l.state()));
			if (lim != fsize_max) SIM_CHECK(l.write_limit == lim - u.got.size(), "count", "%llu bytes may still be written, the limiter says %llu", (unsigned long long)(lim - u.got.size()), (unsigned long long)l.write_limit);
			if constexpr (std::is_same<S, window>::value)
				SIM_CHECK(l.write_offset == (written < offset ? offset - written : 0), "count", "%llu of %llu bytes were discarded, the window has %llu to go", (unsigned long long)written, (unsigned long long)offset, (unsigned long long)l.write_offset);
			state(written * 31 + u.got.size());
		}
	}
	void make_sink(peer::sink& u)
	{
		u.o.preemptible = false;
		u.o.p_short = choose(2) ? choose(900) : 0;
		if (!choose(3)) { u.o.fail_at = choose(80); u.o.transient = choose(2); u.o.late = choose(2); }
	}
	void s_limiter()
	{
		uint64_t lim = limit();
		if (choose(2)) {
			peer::source u;
			make_source(u);
			if (!choose(4)) u.o.transient = false;
			limiter l(u, lim, 0);
			read_side(l, u, 0, lim, false);
		}
		else {
			peer::sink u;
			make_sink(u);
			limiter l(u, 0, lim);
			write_side(l, u, 0, lim, false);
		}
	}
	void s_window()
	{
		uint64_t lim = limit(), off = choose(4) ? choose(40) : choose(70000);
		if (choose(2)) {
			peer::source u;
			make_source(u);
			window l(u, off, lim, 0, 0);
			read_side(l, u, off, lim, true);
		}
		else {
			if (off > 200) off /= 300;
			peer::sink u;
			make_sink(u);
			window l(u, 0, 0, off, lim);
			write_side(l, u, off, lim, true);
		}
	}

	// A window of what can be skipped at once, or not at all
	struct seekable : peer::source {
		unsigned refused = 0;
		void skip(stdex::stream::fsize_t amount) override
		{
			if (inject("skip_failure", 1, 3)) { ++refused; m_state = state_t::fail; return; }
			pos += (size_t)amount;
			m_state = state_t::ok;
		}
	};
	void s_window_skip()
	{
		seekable u;
		make_source(u);
		u.o.fail_at = UINT64_MAX;
		uint64_t n = u.data.size(), off = choose((uint32_t)n + 1), lim = limit(), last = lim == fsize_max ? n : std::min(n, off + lim), passed = 0;
		window w(u, off, lim, 0, 0);
		unsigned m = 1 + choose(20);
		for (unsigned k = 0; k < m; ++k) {
			size_t len = 1 + size(30);
			std::vector<uint8_t> b(len + 1, 0xee);
			unsigned refused = u.refused;
			size_t r = w.read(b.data(), len);
			ev("read(%zu) -> %zu %s", len, r, sname(w.state()));
			if (u.refused != refused) {
				if (off + passed < last) SIM_CHECK(!r && w.state() == state_t::fail, "state", "the beginning of the window could not be reached, read returns %zu, %s", r, sname(w.state()));
				continue;
			}
			SIM_CHECK(r <= len && r <= last - off - passed, "count", "read(%zu) with %llu left returns %zu", len, (unsigned long long)(last - off - passed), r);
			for (size_t i = 0; i < r; ++i)
				SIM_CHECK(b[i] == pat(5, off + passed + i), "content", "byte %llu of the window is not byte %llu of the source", (unsigned long long)(passed + i), (unsigned long long)(off + passed + i));
			passed += r;
			if (r) SIM_CHECK(w.ok(), "state", "a read of %zu bytes reports %s", r, sname(w.state()));
			else { SIM_CHECK(off + passed == last && w.state() == state_t::eof, "short", "nothing is read with %llu left: %s", (unsigned long long)(last - off - passed), sname(w.state())); break; }
		}
		count_op("windows of what can be sought");
	}

	// A part of a file
	struct fw {
		basic_file* src;
		simk::inode* ino = nullptr;
		file_window* w;
		std::vector<uint8_t> d;       // the whole file
		uint64_t start, len, pos = 0; // the window and the position in it
		uint64_t serial = 0;
		bool faults = false;
		int fd = -1;

		bool err(unsigned e) const { return faults && simk::m.errors != e; }
		void check_pos(const char* what)
		{
			auto t = w->tell();
			if (t == stdex::stream::fpos_max && (pos > len || faults)) return;
			SIM_CHECK(t == pos, "position", "after %s the position is %lld instead of %llu of %llu", what, (long long)t, (unsigned long long)pos, (unsigned long long)len);
		}
		void seek(int64_t off, seek_t how)
		{
			int64_t base = how == seek_t::beg ? 0 : how == seek_t::cur ? (int64_t)pos : (int64_t)len;
			int64_t to = base + off;
			unsigned e = simk::m.errors;
			auto r = w->seek(off, how);
			ev("seek(%lld,%d) -> %lld %s", (long long)off, (int)how, (long long)r, sname(w->state()));
			if (to < 0) SIM_CHECK(r == stdex::stream::fpos_max && w->state() == state_t::fail, "seek", "a seek to %lld reports %lld, %s", (long long)to, (long long)r, sname(w->state()));
			else if (r == stdex::stream::fpos_max && err(e)) SIM_CHECK(w->state() == state_t::fail, "state", "a failed seek reports %s", sname(w->state()));
			else {
				SIM_CHECK(r == (uint64_t)to && w->ok(), "seek", "a seek by %lld to %lld of %llu reports %lld, %s", (long long)off, (long long)to, (unsigned long long)len, (long long)r, sname(w->state()));
				pos = (uint64_t)to;
			}
			check_pos("seek");
		}
		// a failed call may leave the position anywhere
		void resync() { simk::config c = simk::cfg; simk::cfg.seek_error = 0; seek((int64_t)pos, seek_t::beg); simk::cfg = c; }
		void step()
		{
			uint64_t avail = pos < len ? len - pos : 0;
			unsigned e = simk::m.errors;
			switch (choose(10)) {
			case 0: case 1: case 2: {
				size_t n = size(60);
				std::vector<uint8_t> b(n + 1, 0xee);
				size_t r = w->read(b.data(), n);
				ev("read(%zu) at %llu -> %zu %s", n, (unsigned long long)pos, r, sname(w->state()));
				SIM_CHECK(r <= min3(n, avail), "outside", "read(%zu) at %llu of %llu returns %zu", n, (unsigned long long)pos, (unsigned long long)len, r);
				for (size_t i = 0; i < r; ++i) SIM_CHECK(b[i] == d[start + pos + i], "content", "byte %llu of the window is not byte %llu of the file", (unsigned long long)(pos + i), (unsigned long long)(start + pos + i));
				if (!err(e)) {
					SIM_CHECK(r == min3(n, avail), "short", "read(%zu) at %llu of %llu returns %zu", n, (unsigned long long)pos, (unsigned long long)len, r);
					SIM_CHECK(w->state() == (n && !avail ? state_t::eof : state_t::ok), "state", "read(%zu) at %llu of %llu reports %s", n, (unsigned long long)pos, (unsigned long long)len, sname(w->state()));
				}
				else if (!r && n && avail) SIM_CHECK(w->state() == state_t::fail, "failure_hidden", "a failed read reports %s", sname(w->state()));
				pos += r;
				check_pos("read");
				break;
			}
			case 3: case 4: case 5: {
				size_t n = size(60);
				std::vector<uint8_t> b(n + 1);
				++serial;
				for (size_t i = 0; i < n; ++i) b[i] = pat(serial + 100, i);
				size_t r = w->write(b.data(), n);
				ev("write(%zu) at %llu -> %zu %s", n, (unsigned long long)pos, r, sname(w->state()));
				SIM_CHECK(r <= min3(n, avail), "outside", "write(%zu) at %llu of %llu returns %zu", n, (unsigned long long)pos, (unsigned long long)len, r);
				if (!err(e)) SIM_CHECK(r == min3(n, avail), "short", "write(%zu) at %llu of %llu returns %zu", n, (unsigned long long)pos, (unsigned long long)len, r);
				if (n && !r) SIM_CHECK(w->state() == state_t::fail, "failure_hidden", "a write of nothing at %llu of %llu reports %s", (unsigned long long)pos, (unsigned long long)len, sname(w->state()));
				for (size_t i = 0; i < r; ++i) d[start + pos + i] = b[i];
				pos += r;
				check_pos("write");
				break;
			}
			case 6: seek((int64_t)choose((uint32_t)len + 4), seek_t::beg); break;
			case 7: seek((int64_t)choose(30) - (int64_t)choose((uint32_t)pos + 3), seek_t::cur); break;
			case 8: seek((int64_t)choose(4) - (int64_t)choose((uint32_t)len + 3), seek_t::end); break;
			default:
				switch (choose(5)) {
				case 0: {
					uint64_t n = choose(30);
					w->skip(n);
					if (!w->ok() && err(e)) { check_pos("failed skip"); break; }
					SIM_CHECK(w->ok(), "state", "skip reports %s", sname(w->state()));
					pos += n;
					check_pos("skip");
					break;
				}
				case 1: SIM_CHECK(w->size() == len, "size", "the size of the window of %llu is %llu", (unsigned long long)len, (unsigned long long)w->size()); break;
				case 2: w->truncate(); SIM_CHECK(w->state() == state_t::fail, "state", "truncating a window reports %s", sname(w->state())); check_pos("truncate"); break;
				case 3: {
					if (pos > len) break;
					auto v = w->read_remainder();
					SIM_CHECK(v.size() <= avail, "outside", "read_remainder returns %zu of %llu", v.size(), (unsigned long long)avail);
					if (!err(e)) SIM_CHECK(v.size() == avail && w->state() != state_t::fail, "short", "read_remainder returns %zu of %llu, %s", v.size(), (unsigned long long)avail, sname(w->state()));
					for (size_t i = 0; i < v.size(); ++i) SIM_CHECK(v[i] == d[start + pos + i], "content", "read_remainder returns another byte %zu", i);
					pos += v.size();
					if (err(e)) return resync();
					check_pos("read_remainder");
					break;
				}
				default: {
					if (!ino) break;
					uint64_t o = choose((uint32_t)len + 3), l = 1 + choose(40);
					w->lock(o, l);
					if (o >= len) { SIM_CHECK(w->state() == state_t::fail && ino->locks.empty(), "outside", "locking behind the window reports %s", sname(w->state())); break; }
					if (err(e)) { ino->locks.clear(); return resync(); }
					SIM_CHECK(w->ok() && ino->locks.size() == 1, "lock", "locking reports %s, %zu locks", sname(w->state()), ino->locks.size());
					uint64_t want = min3(l, len - o);
					SIM_CHECK(ino->locks[0].off == start + o && ino->locks[0].len == want, "lock", "locking %llu bytes at %llu of the window at %llu locks %llu at %llu", (unsigned long long)want, (unsigned long long)o, (unsigned long long)start, (unsigned long long)ino->locks[0].len, (unsigned long long)ino->locks[0].off);
					w->unlock(o, l);
					if (err(e)) { ino->locks.clear(); return resync(); }
					SIM_CHECK(w->ok() && ino->locks.empty(), "lock", "unlocking leaves %zu locks, %s", ino->locks.size(), sname(w->state()));
					check_pos("lock");
				}
				}
			}
			state(pos * 131 + serial);
		}
	};
	void s_file_window()
	{
		fw x;
		size_t n = 20 + size(300);
		x.d.resize(n);
		for (size_t i = 0; i < n; ++i) x.d[i] = pat(8, i);
		x.start = choose((uint32_t)n);
		x.len = choose((uint32_t)(n - x.start) + 1);
		if (!choose(4)) { x.start = 0; x.len = n; }
		auto ino = simk::make_file("/f", x.d);
		std::unique_ptr<basic_file> src;
		std::unique_ptr<file> under;
		unsigned kind = choose(3);
		if (kind == 0) { src.reset(new file("/f", mode_for_reading | mode_for_writing | mode_preserve_existing | mode_binary)); x.ino = ino.get(); }
		else if (kind == 1) src.reset(new cached_file("/f", mode_for_reading | mode_for_writing | mode_preserve_existing | mode_binary, 1 + choose(40)));
		else { src.reset(new memory_file(n + choose(100))); src->write(x.d.data(), n); }
		x.src = src.get();
		if (choose(2)) src->seekbeg(x.start + choose((uint32_t)x.len + 1));
		else src->seekbeg(choose((uint32_t)n + 10));
		uint64_t p = src->tell();
		file_window w(*src, x.start, x.len);
		x.w = &w;
		if (p >= x.start && p <= x.start + x.len) { x.pos = p - x.start; x.check_pos("construction"); }
		else {
			uint8_t b;
			SIM_CHECK(w.read(&b, 1) == 0, "outside", "a byte outside of the window is read");
			SIM_CHECK(w.write(&b, 1) == 0, "outside", "a byte outside of the window is written");
			x.seek(0, seek_t::beg);
		}
		if (kind != 2) {
			simk::cfg.short_read = choose(2) ? choose(900) : 0;
			simk::cfg.short_write = choose(2) ? choose(900) : 0;
			if (kind == 0 && !choose(4)) {
				static const uint32_t q[] = { 0, 40, 300 };
				x.faults = true;
				simk::cfg.read_error = q[choose(3)];
				simk::cfg.write_error = q[choose(3)];
				simk::cfg.seek_error = q[choose(2)];
			}
		}
		unsigned m = 2 + choose(40);
		for (unsigned i = 0; i < m; ++i) x.step();
		simk::cfg = simk::config();
		// the file outside of the window
		std::vector<uint8_t> now;
		src->flush();
		if (kind == 2) { auto& mf = static_cast<memory_file&>(*src); now.assign((const uint8_t*)mf.data(), (const uint8_t*)mf.data() + mf.size()); }
		else now = ino->data;
		SIM_CHECK(now.size() == n, "outside", "the file has %zu bytes instead of %zu", now.size(), n);
		for (size_t i = 0; i < n; ++i)
			SIM_CHECK(now[i] == x.d[i], i < x.start || i >= x.start + x.len ? "outside" : "content", "byte %zu of the file (window %llu + %llu) is another one", i, (unsigned long long)x.start, (unsigned long long)x.len);
	}
}
SIM_SCENARIOS("C17", { "limiter", 2, s_limiter }, { "window", 2, s_window }, { "window_skip", 1, s_window_skip }, { "file_window", 4, s_file_window })
