// SIM: plain
// C11: a cached file below which system calls fail.
#include "filemodel.h"
#include <map>
#include <memory>
using namespace fmodel;
using namespace sim;

namespace
{
	std::vector<uint8_t> content(size_t n) { std::vector<uint8_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = (uint8_t)(1 + pat(77, i) % 255); return v; }
	size_t cache_sizes() { static const size_t s[] = { 16, 1, 2, 3, 7, 8, 13, 32, 64, 100, 4096 }; return s[choose(11)]; }

	void draw_faults()
	{
		auto& c = simk::cfg;
		c = simk::config();
		static const uint32_t p[] = { 0, 0, 10, 50, 200, 500 };
		c.read_error = p[choose(6)];
		c.write_error = p[choose(6)];
		c.seek_error = choose(2) ? p[choose(6)] : 0;
		c.truncate_error = p[choose(6)] * 2;
		c.fsync_error = p[choose(6)];
		c.eintr = choose(3) ? 0 : p[choose(6)];
		if (choose(2)) { c.short_read = choose(600); c.short_write = choose(600); }
		if (!choose(4)) c.capacity = choose(300);
	}
	struct world {
		std::shared_ptr<simk::inode> ino;
		model m;
		void disk_allowed(const char* when)
		{
			for (size_t i = 0; i < ino->data.size(); ++i)
				SIM_CHECK(i < m.hist.size() ? m.hist[i].test(ino->data[i]) : ino->data[i] == 0 && false, "foreign_bytes", "%s byte %zu of the file is %02x, which was never there nor written there", when, i, ino->data[i]);
		}
		void disk_equal(const char* when)
		{
			SIM_CHECK(ino->data.size() == m.d.size(), "lost_write", "%s the file has %zu bytes instead of %zu", when, ino->data.size(), m.d.size());
			for (size_t i = 0; i < m.d.size(); ++i)
				SIM_CHECK(ino->data[i] == m.d[i], "lost_write", "%s byte %zu of the file is %02x instead of %02x", when, i, ino->data[i], m.d[i]);
		}
	};

	void s_cached()
	{
		world w;
		auto c = content(choose(4) ? choose(250) : 0);
		w.ino = simk::make_file("/f", c);
		model& m = w.m;
		m.init(c);
		m.faults = true;
		driver d;
		d.m = &m;
		simk::on_call = [&] { w.disk_allowed("before a system call"); };
		auto f = new cached_file("/f", mode_for_reading | mode_for_writing | mode_preserve_existing | mode_binary, cache_sizes());
		SIM_CHECK(f->ok(), "open", "opening fails");
		d.f = f;
		unsigned n = 5 + choose(60);
		bool gone = false;
		for (unsigned i = 0; i < n; ++i) {
			if (!choose(8)) { if (choose(3)) draw_faults(); else simk::cfg = simk::config(); }
			if (choose(10)) {
				d.step();
				w.disk_allowed("after an operation");
				if (!choose(12)) d.all("the file");
				continue;
			}
			switch (choose(4)) {
			case 0: {
				d.flush();
				if (f->ok()) w.disk_equal("after a flush that reports ok");
				break;
			}
			case 1: {
				// close and open again
				unsigned e = errs();
				bool ok = true;
				try { f->close(); ok = f->ok(); }
				catch (const std::exception&) { ok = false; }
				ev("close -> %d", ok);
				SIM_CHECK(ok || errs() != e, "state", "close fails without a reason");
				if (ok) w.disk_equal("after a close that reports ok");
				w.disk_allowed("after close");
				if (!ok && *f) break; // nothing is lost: it may be tried again
				auto k = simk::cfg;
				simk::cfg = simk::config();
				f->open("/f", mode_for_reading | mode_for_writing | mode_preserve_existing | mode_binary);
				simk::cfg = k;
				SIM_CHECK(f->ok(), "open", "opening again fails");
				if (!ok) w.disk_allowed("after open");
				m.d = w.ino->data;
				m.pos = 0;
				break;
			}
			case 3: {
				// open another file: what is dirty must reach this one first
				unsigned e = errs();
				bool there = choose(3);
				if (there) simk::make_file("/g", content(choose(100)));
				bool ok = true;
				try { f->open(there ? "/g" : "/missing", mode_for_reading | mode_for_writing | mode_open_existing | mode_binary); ok = f->ok(); }
				catch (const std::exception&) { ok = false; }
				ev("open of another file -> %d", ok);
				SIM_CHECK(ok ? there : !there || errs() != e, "state", "opening another file is reported %s", ok ? "ok and there is none" : "failed without a reason");
				if (ok) {
					w.disk_equal("after another file has been opened");
					SIM_CHECK(f->tell() == 0 || errs() != e, "open", "another file has been opened and the position is %llu", (unsigned long long)f->tell());
				}
				w.disk_allowed("after an attempt to open another file");
				auto k = simk::cfg;
				simk::cfg = simk::config();
				f->open("/f", mode_for_reading | mode_for_writing | mode_preserve_existing | mode_binary);
				simk::cfg = k;
				SIM_CHECK(f->ok(), "open", "opening again fails");
				w.disk_equal("after other files have been opened");
				m.pos = 0;
				break;
			}
			case 2: {
				unsigned e = errs();
				bool ok = true;
				try { delete f; }
				catch (const std::system_error&) { ok = false; }
				ev("destroy -> %d", ok);
				gone = true;
				SIM_CHECK(ok || errs() != e, "state", "the destructor throws without a reason");
				if (ok) w.disk_equal("after a destruction that reports nothing");
				w.disk_allowed("after destruction");
				SIM_CHECK(!simk::fds_open(), "descriptor", "%u descriptors are left open", simk::fds_open());
				auto k = simk::cfg;
				simk::cfg = simk::config();
				f = new cached_file("/f", mode_for_reading | mode_for_writing | mode_preserve_existing | mode_binary, cache_sizes());
				simk::cfg = k;
				d.f = f;
				gone = false;
				m.d = w.ino->data;
				m.pos = 0;
				break;
			}
			}
		}
		(void)gone;
		// faults stop: whatever was accepted must still reach the file
		simk::cfg = simk::config();
		w.disk_allowed("after the faults stopped");
		d.all("the file after the faults stopped");
		if (choose(2)) {
			f->flush();
			SIM_CHECK(f->ok(), "recover", "flush fails although nothing fails any more");
			w.disk_equal("after the final flush");
		}
		try { delete f; }
		catch (const std::exception&) { violation("recover", "the destructor throws although nothing fails any more"); }
		w.disk_equal("after the final destruction");
		SIM_CHECK(!simk::fds_open() && !simk::bad_closes(), "descriptor", "descriptors leak or are closed twice");
		simk::on_call = nullptr;
	}

	// A cache over a file of the user that fails
	void s_over()
	{
		world w;
		auto c = content(choose(4) ? choose(250) : 0);
		w.ino = simk::make_file("/f", c);
		model& m = w.m;
		m.init(c);
		m.faults = true;
		driver d;
		d.m = &m;
		{
			file sf("/f", mode_for_reading | mode_for_writing | mode_preserve_existing);
			unsigned rounds = 1 + choose(3);
			for (unsigned r = 0; r < rounds; ++r) {
				simk::cfg = simk::config();
				m.pos = sf.tell();
				auto f = new cache(sf, cache_sizes());
				d.f = f;
				unsigned n = 3 + choose(30);
				for (unsigned i = 0; i < n; ++i) {
					if (!choose(8)) { if (choose(3)) draw_faults(); else simk::cfg = simk::config(); }
					d.step();
					w.disk_allowed("after an operation");
					if (!choose(10)) { d.flush(); if (f->ok()) w.disk_equal("after a flush that reports ok"); }
				}
				unsigned e = errs();
				bool ok = true;
				try { delete f; }
				catch (const std::system_error&) { ok = false; }
				SIM_CHECK(ok || errs() != e, "state", "the destructor throws without a reason");
				if (ok) w.disk_equal("after a destruction that reports nothing");
				w.disk_allowed("after destruction");
				m.d = w.ino->data;
			}
			simk::cfg = simk::config();
		}
	}

	// A file that takes less than it is offered, with or without saying so in its state
	struct partial : basic_file {
		memory_file& m;
		uint32_t p_short = 0, p_fail = 0;
		uint64_t limit = UINT64_MAX;
		bool troubled = false; // it once took less than offered
		partial(memory_file& x) : m(x) {}
		size_t read(void* b, size_t n) override { size_t r = m.read(b, n); m_state = m.state(); return r; }
		size_t write(const void* b, size_t n) override
		{
			size_t k = n;
			uint64_t at = m.tell();
			if (at + k > limit) k = at < limit ? (size_t)(limit - at) : 0;
			if (k > 1 && inject("sink_short", p_short, 1000)) k = 1 + choose((uint32_t)k - 1);
			bool fail = n && !k;
			if (k && inject("sink_failure", p_fail, 1000)) { k = choose((uint32_t)k); fail = true; }
			if (k < n) troubled = true;
			size_t r = k ? m.write(b, k) : 0;
			m_state = fail ? state_t::fail : m.state();
			return r;
		}
		void flush() override { m_state = state_t::ok; }
		stdex::stream::fpos_t seek(foff_t o, seek_t h) override { auto r = m.seek(o, h); m_state = m.state(); return r; }
		stdex::stream::fpos_t tell() const override { return m.tell(); }
		fsize_t size() const override { return m.size(); }
		void truncate() override { m.truncate(); m_state = m.state(); }
	};
	void s_partial()
	{
		auto c = content(choose(150));
		memory_file below;
		if (!c.empty()) below.write(c.data(), c.size());
		below.seek(0);
		uint64_t from = 0, len = UINT64_MAX;
		partial p(below);
		std::unique_ptr<file_window> w;
		bool windowed = choose(2);
		if (windowed) {
			from = choose((uint32_t)c.size() + 1);
			len = choose((uint32_t)(c.size() - from) + 30);
			below.seekbeg(from);
			w.reset(new file_window(below, from, len));
			w->seek(0);
		}
		else {
			if (choose(3)) p.limit = choose(250);
			if (choose(2)) p.p_short = choose(900);
			if (choose(2)) p.p_fail = choose(400);
		}
		std::map<uint64_t, uint8_t> want; // what was accepted
		uint64_t serial = 0;
		auto reached = [&](const char* when) {
			for (auto& x : want) {
				SIM_CHECK(x.first < len && from + x.first < below.size(), "lost_write", "%s byte %llu, which was accepted, has not reached the file below", when, (unsigned long long)x.first);
				SIM_CHECK(((const uint8_t*)below.data())[from + x.first] == x.second, "lost_write", "%s byte %llu of the file below is not the accepted one", when, (unsigned long long)x.first);
			}
		};
		auto outside = [&](const char* when) {
			for (uint64_t i = 0; windowed && i < c.size(); ++i)
				if (i < from || i >= from + len) SIM_CHECK(((const uint8_t*)below.data())[i] == c[i], "foreign_bytes", "%s byte %llu outside of the window is changed", when, (unsigned long long)i);
			if (windowed) SIM_CHECK(below.size() <= (from + len > c.size() ? from + len : c.size()), "foreign_bytes", "%s the file below has grown beyond the window", when);
		};
		auto f = new cache(windowed ? (basic_file&)*w : (basic_file&)p, cache_sizes());
		for (unsigned n = 1 + choose(25); n; --n) {
			if (!choose(8)) { p.p_short = choose(900); p.p_fail = choose(2) ? choose(400) : 0; }
			switch (choose(6)) {
			case 0: case 1: case 2: { // write
				uint64_t have = f->size(), at = choose(3) ? choose(200) : f->tell();
				if (at > have) at = have;
				f->seekbeg(at);
				size_t k = size(60), r;
				std::vector<uint8_t> b(k + 1);
				for (size_t i = 0; i < k; ++i) b[i] = pat(5, ++serial);
				r = f->write(b.data(), k);
				ev("write(%zu) at %llu -> %zu, state %d", k, (unsigned long long)at, r, (int)f->state());
				SIM_CHECK(r <= k, "count", "write(%zu) returns %zu", k, r);
				if (r < k) SIM_CHECK(f->state() == state_t::fail || windowed || p.troubled, "count", "write(%zu) returns %zu without a reason", k, r);
				for (size_t i = 0; i < r; ++i) want[at + i] = b[i];
				for (size_t i = r; i < k; ++i) want.erase(at + i);
				break;
			}
			case 3: case 4: { // read
				uint64_t at = choose(220);
				f->seekbeg(at);
				size_t k = size(60);
				std::vector<uint8_t> b(k + 1);
				size_t r = f->read(b.data(), k);
				ev("read(%zu) at %llu -> %zu, state %d", k, (unsigned long long)at, r, (int)f->state());
				SIM_CHECK(r <= k, "count", "read(%zu) returns %zu", k, r);
				for (size_t i = 0; i < r; ++i) {
					auto x = want.find(at + i);
					if (x != want.end()) SIM_CHECK(b[i] == x->second, "stale", "byte %llu reads as another than the one written", (unsigned long long)(at + i));
				}
				for (size_t i = r; i < k && f->state() == state_t::eof; ++i) SIM_CHECK(!want.count(at + i), "stale", "byte %llu was accepted and is behind the end", (unsigned long long)(at + i));
				break;
			}
			default:
				f->flush();
				ev("flush -> %d", (int)f->state());
				if (f->ok()) reached("after a flush that reports ok");
				else SIM_CHECK(p.troubled || windowed, "state", "flush fails without a reason");
			}
			outside("after an operation");
			state(want.size() * 1000 + f->tell());
		}
		if (choose(2)) { p.p_short = p.p_fail = 0; p.limit = UINT64_MAX; }
		bool ok = true;
		try { delete f; }
		catch (const std::system_error&) { ok = false; }
		ev("destroy -> %d", ok);
		if (ok) reached("after a destruction that reports nothing");
		else SIM_CHECK(p.troubled || windowed, "state", "the destructor throws without a reason");
		outside("after the destruction");
	}
}

SIM_SCENARIOS("C11", { "cached", 4, s_cached }, { "cache_over", 2, s_over }, { "partial", 1, s_partial })
