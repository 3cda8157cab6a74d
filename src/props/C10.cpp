// SIM: plain
// C10: every file stream is one random-access sequence of bytes.
#include "filemodel.h"
using namespace fmodel;
using namespace sim;

namespace
{
	std::vector<uint8_t> content(size_t n) { std::vector<uint8_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = (uint8_t)(1 + pat(77, i) % 255); return v; }
	size_t cache_sizes()
	{
		static const size_t s[] = { 16, 1, 2, 3, 7, 8, 13, 32, 64, 100, 4096 };
		return s[choose(11)];
	}
	void disk_faults()
	{
		if (choose(3)) { simk::cfg.short_read = 1 + choose(700); simk::cfg.short_write = 1 + choose(700); }
	}
	void check_disk(const simk::inode& i, const model& m, const char* when)
	{
		SIM_CHECK(i.data.size() == m.d.size(), "written_back", "%s the file has %zu bytes instead of %zu", when, i.data.size(), m.d.size());
		for (size_t k = 0; k < m.d.size(); ++k)
			SIM_CHECK(i.data[k] == m.d[k], "written_back", "%s byte %zu of the file is %02x instead of %02x", when, k, i.data[k], m.d[k]);
	}
	void run_steps(driver& d, unsigned n, bool all = true)
	{
		for (unsigned i = 0; i < n; ++i) {
			d.step();
			if (!choose(8)) { d.check_pos("nothing"); d.check_size("nothing"); }
			if (all && !choose(16)) d.all("the file");
		}
	}

	// A system file and a cached file on the simulated disk, closed and opened again in between
	template <class F, class... A> void on_disk(bool cached, A... a)
	{
		auto ino = simk::make_file("/f", content(choose(3) ? choose(200) : 0));
		disk_faults();
		model m;
		m.init(ino->data);
		driver d;
		d.m = &m;
		if (!choose(6)) { d.lim.max_io = 6000; d.lim.max_off = 12000; }
		if (!choose(40)) { d.lim.max_io = 150000; d.lim.max_off = 200000; }
		unsigned rounds = 1 + choose(3);
		for (unsigned k = 0; k < rounds; ++k) {
			int mode = mode_for_reading | mode_for_writing | mode_preserve_existing | mode_binary;
			m.can_write = true;
			if (!choose(6)) { mode = mode_for_reading | mode_binary; m.can_write = false; }
			if (!choose(4)) mode |= mode_append;
			{
				F f("/f", mode, a...);
				SIM_CHECK(f.ok(), "open", "opening reports %s", sname(f.state()));
				d.f = &f;
				m.pos = mode & mode_append ? m.d.size() : 0;
				d.check_pos("open");
				d.check_size("open");
				run_steps(d, 2 + choose(30), m.can_write || !cached);
				switch (choose(4)) {
				case 0: {
					d.flush();
					if (f.ok()) check_disk(*ino, m, "after flush");
					break;
				}
				case 1: f.close(); SIM_CHECK(f.ok(), "close", "close reports %s", sname(f.state())); check_disk(*ino, m, "after close"); break;
				case 2: {
					f.close();
					check_disk(*ino, m, "after close");
					f.open("/f", mode);
					SIM_CHECK(f.ok(), "open", "opening again reports %s", sname(f.state()));
					m.pos = mode & mode_append ? m.d.size() : 0;
					d.check_pos("open");
					run_steps(d, choose(10), m.can_write || !cached);
					break;
				}
				}
			}
			check_disk(*ino, m, "after destruction");
		}
	}
	void s_file() { on_disk<file>(false); }
	void s_cached() {
		auto ino = simk::make_file("/f", content(choose(3) ? choose(200) : 0));
		disk_faults();
		model m;
		m.init(ino->data);
		driver d;
		d.m = &m;
		if (!choose(6)) { d.lim.max_io = 6000; d.lim.max_off = 12000; }
		if (!choose(40)) { d.lim.max_io = 150000; d.lim.max_off = 200000; }
		unsigned rounds = 1 + choose(3);
		for (unsigned k = 0; k < rounds; ++k) {
			static const int modes[] = { mode_for_reading | mode_for_writing, mode_for_writing };
			int mode = modes[choose(2)] | mode_preserve_existing | mode_binary;
			if (!choose(4)) mode |= mode_append;
			{
				cached_file f("/f", mode, cache_sizes());
				SIM_CHECK(f.ok(), "open", "opening reports %s", sname(f.state()));
				d.f = &f;
				m.pos = mode & mode_append ? m.d.size() : 0;
				d.check_pos("open");
				d.check_size("open");
				run_steps(d, 2 + choose(40));
				switch (choose(5)) {
				case 0: d.flush(); check_disk(*ino, m, "after flush"); run_steps(d, choose(10)); break;
				case 1: f.close(); SIM_CHECK(f.ok(), "close", "close reports %s", sname(f.state())); check_disk(*ino, m, "after close"); break;
				case 2:
					if (choose(2)) { f.close(); check_disk(*ino, m, "after close"); }
					f.open("/f", mode);
					SIM_CHECK(f.ok(), "open", "opening again reports %s", sname(f.state()));
					check_disk(*ino, m, "after opening again");
					m.pos = mode & mode_append ? m.d.size() : 0;
					d.check_pos("open");
					run_steps(d, choose(20));
					break;
				}
			}
			check_disk(*ino, m, "after destruction");
		}
	}

	// Opening creates, empties, keeps or refuses a file just as the mode asks for
	template <class F, class... A> void dispositions(A... a)
	{
		disk_faults();
		std::shared_ptr<simk::inode> ino;
		std::vector<uint8_t> have;
		std::unique_ptr<F> f;
		for (unsigned n = 1 + choose(6); n; --n) {
			static const int how[] = { mode_open_existing, mode_truncate_existing, mode_preserve_existing, mode_create_new, mode_create };
			int mode = mode_binary | how[choose(5)] | (choose(3) ? mode_for_reading | mode_for_writing : mode_for_writing) | (choose(3) ? 0 : mode_append);
			static const int extra[] = { 0, share_all, share_none, inherit_handle, hint_write_thru, hint_no_buffering, hint_random_access | share_reading, hint_sequential_access };
			mode |= extra[choose(8)];
			int d = mode & mode_disposition_mask;
			const char* path = choose(3) ? "/f" : "/g";
			bool there = simk::file(path) != nullptr;
			auto was = there ? simk::file(path)->data : std::vector<uint8_t>();
			bool fits = there ? d != mode_create_new : d == mode_preserve_existing || d == mode_create_new || d == mode_create;
			if (d == mode_truncate_existing || d == mode_create) was.clear();
			count_op("open");
			if (f && choose(2)) {
				if (choose(2)) f->open(path, mode); else f->open(std::string(path), mode);
			}
			else {
				f.reset();
				if (choose(2)) f.reset(new F(path, mode, a...)); else f.reset(new F(std::string(path), mode, a...));
			}
			SIM_CHECK(f->ok() == fits, "open", "opening %s file in mode %x reports %s", there ? "an existing" : "a missing", mode, sname(f->state()));
			auto now = simk::file(path);
			SIM_CHECK(!!now == (there || fits), "open", "opening a missing file in mode %x %s it", mode, now ? "creates" : "does not create");
			if (now) SIM_CHECK(now->data == was, "open", "after opening %s file in mode %x it has %zu bytes instead of %zu", there ? "an existing" : "a missing", mode, now->data.size(), was.size());
			if (!fits) {
				continue;
			}
			auto pos = mode & mode_append ? was.size() : 0;
			SIM_CHECK(f->tell() == pos, "position", "after opening in mode %x the position is %llu instead of %zu", mode, (unsigned long long)f->tell(), pos);
			auto c = content(1 + choose(60));
			size_t w = f->write(c.data(), c.size());
			SIM_CHECK(f->ok() && w == c.size(), "state", "writing after opening in mode %x takes %zu of %zu and reports %s", mode, w, c.size(), sname(f->state()));
			f->flush();
			SIM_CHECK(f->ok(), "state", "flushing after opening in mode %x reports %s", mode, sname(f->state()));
			if (was.size() < pos + c.size()) was.resize(pos + c.size());
			std::copy(c.begin(), c.end(), was.begin() + (ptrdiff_t)pos);
			SIM_CHECK(now->data == was, "content", "what was written after opening in mode %x is not in the file", mode);
		}
	}
	void s_open() { if (choose(2)) dispositions<file>(); else dispositions<cached_file>(cache_sizes()); }

	// A basic_file that delivers and accepts in arbitrary pieces is not allowed to confuse a cache either
	void s_cache_over()
	{
		unsigned kind = choose(3);
		model m;
		driver d;
		d.m = &m;
		auto c = content(choose(150));
		m.init(c);
		memory_file mf;
		file sf;
		std::shared_ptr<simk::inode> ino;
		basic_file* under;
		if (kind == 0) { mf.write(c.data(), c.size()); under = &mf; }
		else {
			ino = simk::make_file("/f", c);
			disk_faults();
			sf.open("/f", mode_for_reading | mode_for_writing | mode_preserve_existing);
			under = &sf;
		}
		uint64_t start = choose((uint32_t)c.size() + 10);
		under->seekbeg(start);
		m.pos = start;
		{
			std::unique_ptr<cache> inner;
			if (kind == 2) inner.reset(new cache(*under, cache_sizes()));
			{
				cache f(inner ? static_cast<basic_file&>(*inner) : *under, cache_sizes());
				d.f = &f;
				d.check_pos("construction");
				run_steps(d, 2 + choose(50));
				if (!choose(3)) {
					d.flush();
					// what was flushed is in the underlying file
					d.f = inner ? static_cast<basic_file*>(inner.get()) : under;
					uint64_t p = m.pos;
					d.all("the underlying file after flush");
					m.pos = p;
					d.f = &f;
					run_steps(d, choose(10));
				}
			}
			// and after the destruction, with the position handed back
			d.f = inner ? static_cast<basic_file*>(inner.get()) : under;
			d.check_pos("destruction of the cache");
			d.check_size("destruction of the cache");
			d.all("the underlying file");
		}
		d.f = under;
		d.check_pos("destruction of the caches");
		d.all("the underlying file");
		if (ino) { sf.close(); check_disk(*ino, m, "after destruction"); }
	}

	void s_memory()
	{
		model m;
		driver d;
		d.m = &m;
		if (!choose(6)) { d.lim.max_io = 6000; d.lim.max_off = 12000; }
		if (!choose(40)) { d.lim.max_io = 150000; d.lim.max_off = 200000; }
		auto c = content(choose(150));
		std::vector<uint8_t> block;
		std::unique_ptr<memory_file> f;
		size_t reserved = 0;
		switch (choose(4)) {
		case 0: f.reset(new memory_file); break;
		case 1: f.reset(new memory_file((size_t)1 + choose(300))); break;
		case 2: { // the block is handed over
			reserved = c.size() + 1 + choose(100);
			void* p = malloc(reserved);
			memset(p, 0xbe, reserved);
			memcpy(p, c.data(), c.size());
			f.reset(new memory_file(p, c.size(), reserved, true));
			m.init(c);
			break;
		}
		default: // a block of the caller with room
			reserved = c.size() + choose(100);
			block.assign(reserved, 0xbe);
			if (c.size()) memcpy(block.data(), c.data(), c.size());
			f.reset(new memory_file(block.data(), c.size(), reserved));
			m.init(c);
			m.can_grow = false;
			if (!reserved) return;
		}
		d.f = f.get();
		d.check_size("construction");
		unsigned n = 5 + choose(50);
		for (unsigned i = 0; i < n; ++i) {
			if (choose(8)) { d.step(); if (!choose(16)) d.all("the file"); continue; }
			// memory_file's own operations
			switch (choose(4)) {
			case 0: { uint32_t x = (uint32_t)mix(i), y = 0; uint64_t p = m.pos;
				f->seekbeg(p);
				size_t old = m.d.size();
				m.attempt(p, (uint8_t*)&x, 4);
				*f << x;
				if (!f->ok()) { SIM_CHECK(!m.can_grow, "state", "write_data fails"); d.check_pos("write_data"); break; }
				m.put(p, (uint8_t*)&x, 4); m.pos += 4;
				d.check_pos("write_data"); d.check_size("write_data");
				(void)old;
				d.seek((int64_t)p, seek_t::beg);
				*f >> y;
				SIM_CHECK(f->ok() && x == y, "content", "%08x was written and %08x is read", x, y);
				m.pos += 4;
				d.check_pos("read_data");
				break; }
			case 1: { // a number beyond or across the end
				uint64_t y = 5;
				uint64_t p = m.d.size() + choose(12);
				p = p < 7 ? 0 : p - 7;
				d.seek((int64_t)p, seek_t::beg);
				bool whole = p + 8 <= m.d.size();
				*f >> y;
				if (whole) { uint64_t w; memcpy(&w, m.d.data() + p, 8); SIM_CHECK(f->ok() && y == w, "content", "a number is read wrong"); m.pos += 8; }
				else { SIM_CHECK(f->state() == state_t::eof && y == 0, "state", "a number that ends beyond the end reads as %llx, state %s", (unsigned long long)y, sname(f->state())); if (m.pos < m.d.size()) m.pos = m.d.size(); }
				d.check_pos("read_data");
				break; }
			case 2: { std::string s((size_t)choose(30), 'a'), t = "old"; for (auto& ch : s) ch = (char)('a' + choose(26));
				uint64_t p = m.pos;
				f->seekbeg(p);
				std::vector<uint8_t> raw(4 + s.size());
				uint32_t k = (uint32_t)s.size(); memcpy(raw.data(), &k, 4); if (k) memcpy(raw.data() + 4, s.data(), k);
				if (choose(2)) *f << s; else *f << s.c_str();
				if (!f->ok()) { SIM_CHECK(!m.can_grow, "state", "write_str fails"); d.check_pos("write_str"); break; }
				m.put(p, raw.data(), raw.size()); m.pos += raw.size();
				d.check_pos("write_str"); d.check_size("write_str");
				d.seek((int64_t)p, seek_t::beg);
				*f >> t;
				SIM_CHECK(f->ok() && s == t, "content", "a string is read wrong");
				m.pos += raw.size();
				d.check_pos("read_str");
				break; }
			default: { // memory_file::write_stream with and without a limit
				size_t k = choose(200), lim = choose(2) ? SIZE_MAX : choose(250);
				uint8_t* p = d.pattern(k);
				memory_file src(p, k, k);
				size_t w = k < lim ? k : lim;
				size_t r = f->write_stream(src, lim);
				if (!f->ok()) SIM_CHECK(!m.can_grow, "state", "write_stream fails");
				else SIM_CHECK(r == w, "count", "write_stream copies %zu of %zu", r, w);
				m.put(m.pos, p, r); m.pos += r;
				d.check_pos("write_stream"); d.check_size("write_stream");
				break; }
			}
		}
		d.check_size("all");
		SIM_CHECK(!m.d.size() || !memcmp(f->data(), m.d.data(), m.d.size()), "content", "the memory block differs");
		d.all("the file");
	}
}

SIM_SCENARIOS("C10", { "file", 2, s_file }, { "cached", 5, s_cached }, { "open", 1, s_open }, { "cache_over", 4, s_cache_over }, { "memory", 4, s_memory })
