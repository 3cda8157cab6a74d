// SIM: plain
// C12: what a flush reported as stored survives a crash at any later system call.
#include "filemodel.h"
#include <fcntl.h>
using namespace fmodel;
using namespace sim;

namespace
{
	std::vector<uint8_t> content(size_t n) { std::vector<uint8_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = (uint8_t)(1 + pat(77, i) % 255); return v; }
	size_t cache_sizes() { static const size_t s[] = { 16, 1, 2, 3, 7, 8, 13, 32, 64, 100, 4096 }; return s[choose(11)]; }
	void draw_faults()
	{
		auto& c = simk::cfg;
		c = simk::config();
		static const uint32_t p[] = { 0, 0, 10, 50, 200, 500 };
		c.fsync_error = p[choose(6)];
		if (choose(2)) {
			c.write_error = p[choose(5)];
			c.read_error = p[choose(5)];
			c.truncate_error = p[choose(5)];
		}
		if (choose(2)) { c.short_read = choose(600); c.short_write = choose(600); }
	}
	unsigned g_p; // crash points looked at: 1 of g_p system calls

	template <class F> void steps(driver& d, F& f, simk::inode& ino)
	{
		unsigned n = 3 + choose(40);
		for (unsigned i = 0; i < n; ++i) {
			if (!choose(8)) { if (choose(3)) draw_faults(); else simk::cfg = simk::config(); }
			switch (choose(10)) {
			case 0: case 1: d.flush(); break;
			default: d.step();
			}
			if (!choose(g_p)) { d.m->check_crash(simk::crash_image(ino), "between two operations"); count_op("crash_point"); }
		}
		(void)f;
	}

	template <class F, class... A> void crashing(A... a)
	{
		auto c = content(choose(4) ? choose(250) : 0);
		auto ino = simk::make_file("/f", c);
		model m;
		m.init(c);
		m.faults = true;
		driver d;
		d.m = &m;
		g_p = 2 + choose(12);
		m.flushed();
		unsigned rounds = 1 + choose(3);
		for (unsigned r = 0; r < rounds; ++r) {
			simk::cfg = simk::config();
			auto f = new F("/f", mode_for_reading | mode_for_writing | mode_preserve_existing | mode_binary, a...);
			SIM_CHECK(f->ok(), "open", "opening fails");
			d.f = f;
			m.pos = 0;
			simk::on_call = [&] { if (!choose(g_p)) { m.check_crash(simk::crash_image(*ino), "before a system call"); count_op("crash_point"); } };
			steps(d, *f, *ino);
			simk::on_call = nullptr;
			// crash: nothing gets to the disk any more, only its image survives
			auto img = simk::crash_image(*ino);
			m.check_crash(img, "at the end");
			count_fault("crash");
			simk::cfg = simk::config();
			simk::cfg.write_error = 1000;
			try { delete f; } catch (const std::system_error&) {}
			simk::cfg = simk::config();
			ino->data = ino->durable = img;
			ino->pending.clear();
			m.init(img);
			m.flushed();
			// the restarted program finds exactly that
			F again("/f", mode_for_reading | mode_for_writing | mode_preserve_existing | mode_binary, a...);
			d.f = &again;
			d.check_size("restart");
			d.all("the file after the restart");
		}
	}
	void s_cached() { crashing<cached_file>(cache_sizes()); }
	void s_file() { crashing<file>(); }

	// Opened for write-through: each completed write is on the disk
	void s_through()
	{
		auto c = content(choose(4) ? choose(250) : 0);
		auto ino = simk::make_file("/f", c);
		model m;
		m.init(c);
		m.faults = true;
		driver d;
		d.m = &m;
		int mode = mode_for_writing | mode_preserve_existing | hint_write_thru | (choose(2) ? mode_for_reading : 0) | (choose(2) ? hint_no_buffering : 0) | (choose(2) ? hint_sequential_access : 0);
		m.can_read = mode & mode_for_reading;
		bool reopen = choose(2);
		file f;
		if (reopen) { f.open("/f", mode & ~hint_write_thru); f.close(); }
		f.open("/f", mode);
		d.f = &f;
		unsigned n = 1 + choose(20);
		for (unsigned i = 0; i < n; ++i) {
			if (!choose(6)) draw_faults();
			switch (choose(4)) {
			case 0: d.seek(d.offset(), seek_t::beg); break;
			case 1: if (m.can_read) d.read(choose(50)); break;
			default: {
				uint64_t from = m.pos;
				d.write(1 + choose(80));
				auto img = simk::crash_image(*ino);
				SIM_CHECK(m.pos == from || img.size() >= m.pos, "crash_lost", "a write to %llu of a file opened for write-through is complete, but a crash leaves %zu bytes", (unsigned long long)m.pos, img.size());
				for (uint64_t k = from; k < m.pos; ++k)
					SIM_CHECK(img[k] == m.d[k], "crash_lost", "a write to a file opened for write-through is complete, but a crash loses its byte %llu", (unsigned long long)k);
				count_op("crash_point");
			}
			}
		}
		simk::cfg = simk::config();
	}
}

SIM_SCENARIOS("C12", { "cached", 5, s_cached }, { "file", 2, s_file }, { "write_through", 1, s_through })
