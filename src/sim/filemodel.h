// A file as one random-access sequence of bytes: the reference model, and the operations that compare
// a stdex file stream with it. What the model says holds whether or not faults are injected; with
// faults a call may only transfer less and say so, or refuse and change nothing.
#pragma once
#include <stdex/stream.hpp>
#include "sim.h"
#include "simk.h"
#include <string.h>
#include <bitset>
#include <functional>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace fmodel
{
	using namespace stdex::stream;
	using sim::violation;
	using sim::choose;

	inline const char* sname(state_t s) { return s == state_t::ok ? "ok" : s == state_t::eof ? "eof" : "fail"; }

	struct model {
		std::vector<uint8_t> d;
		uint64_t pos = 0;
		// All values a byte of the file ever had or was asked to have: nothing else may ever be stored there
		std::vector<std::bitset<256>> hist;
		// Crash model: the content at the last flush that reported ok, and what was asked for since
		std::vector<std::bitset<256>> since;
		uint64_t min_size = 0;
		uint64_t serial = 0;       // number of the write, for recognisable patterns
		bool can_read = true, can_write = true, can_grow = true;
		bool faults = false;       // calls may fail now
		bool seek_may_fail = false; // seeks reach the system
		bool stack_bytes_written = true;

		void seen(uint64_t p, uint8_t v) { if (hist.size() <= p) { size_t o = hist.size(); hist.resize(p + 1); for (; o <= p; ++o) hist[o].set(0); } hist[p].set(v); if (p < since.size()) since[p].set(v); }
		void init(const std::vector<uint8_t>& c) { d = c; hist.clear(); for (size_t i = 0; i < c.size(); ++i) { hist.push_back({}); hist[i].set(c[i]); } pos = 0; }
		void attempt(uint64_t at, const uint8_t* p, size_t n) { for (size_t i = 0; i < n; ++i) seen(at + i, p[i]); if (n) for (uint64_t i = d.size(); i < at; ++i) seen(i, 0); }
		void put(uint64_t at, const uint8_t* p, size_t n)
		{
			if (!n) return;
			if (d.size() < at + n) d.resize(at + n, 0);
			memcpy(d.data() + at, p, n);
		}
		void flushed() { since.assign(d.size(), {}); for (size_t i = 0; i < d.size(); ++i) since[i].set(d[i]); min_size = d.size(); }
		void check_crash(const std::vector<uint8_t>& img, const char* when) const
		{
			SIM_CHECK(img.size() >= min_size, "crash_lost", "%s a crash leaves %zu bytes of the %llu that were flushed", when, img.size(), (unsigned long long)min_size);
			for (size_t i = 0; i < since.size() && i < img.size(); ++i)
				SIM_CHECK(since[i].test(img[i]), "crash_lost", "%s a crash leaves %02x in byte %zu, which was flushed as something else and not overwritten with that", when, img[i], i);
		}
		void resize(uint64_t n) { for (uint64_t i = 0; i < n || i < d.size(); ++i) if (i >= d.size() || i >= n) seen(i, 0); d.resize(n, 0); }
		uint64_t hash() const { uint64_t h = d.size() * 31 + pos; for (auto b : d) h = h * 1099511628211ull + b; return h; }
	};

	struct limits { uint32_t max_io = 60, max_off = 150; };

	// mark of injected failures, to know whether a call that did less had a reason
	inline unsigned errs() { return simk::m.errors + (unsigned)sim::alloc_failures(); }

	class driver {
	public:
		basic_file* f = nullptr;
		model* m = nullptr;
		limits lim;
		std::vector<uint8_t> buf;

		void check_pos(const char* op)
		{
			stdex::stream::fpos_t t = f->tell();
			if (t == stdex::stream::fpos_max && m->faults && m->seek_may_fail) return;
			SIM_CHECK(t == m->pos, "position", "after %s the position is %lld instead of %llu", op, (long long)t, (unsigned long long)m->pos);
		}
		void check_size(const char* op)
		{
			fsize_t s = f->size();
			if (s == fsize_max && m->faults) return;
			SIM_CHECK(s == m->d.size(), "size", "after %s the size is %lld instead of %zu", op, (long long)s, m->d.size());
		}
		void compare(const char* op, const uint8_t* p, size_t n, uint64_t at)
		{
			for (size_t i = 0; i < n; ++i)
				SIM_CHECK(at + i < m->d.size() && p[i] == m->d[at + i], "content", "%s returns %02x as byte %llu, the file has %s%02x there", op, p[i], (unsigned long long)(at + i), at + i < m->d.size() ? "" : "no byte, not ", at + i < m->d.size() ? m->d[at + i] : 0);
		}
		size_t avail() const { return m->pos < m->d.size() ? m->d.size() - m->pos : 0; }
		uint8_t* fresh(size_t n) { buf.assign(n + 1, 0xcd); return buf.data(); }
		uint8_t* pattern(size_t n)
		{
			buf.resize(n + 1);
			++m->serial;
			for (size_t i = 0; i < n; ++i) buf[i] = (uint8_t)(1 + sim::pat(m->serial, m->pos + i) % 255);
			return buf.data();
		}

		void read(size_t n)
		{
			uint8_t* p = fresh(n);
			size_t a = avail(), want = n < a ? n : a;
			unsigned e = errs();
			size_t r = f->read(p, n);
			state_t s = f->state();
			sim::ev("read(%zu) at %llu -> %zu %s", n, (unsigned long long)m->pos, r, sname(s));
			SIM_CHECK(r <= n, "count", "read(%zu) returns %zu", n, r);
			compare("read", p, r, m->pos);
			if (m->can_read && errs() == e) {
				SIM_CHECK(r == want, "count", "read(%zu) at %llu of %zu returns %zu", n, (unsigned long long)m->pos, m->d.size(), r);
				SIM_CHECK(s == (n && !want ? state_t::eof : state_t::ok), "state", "read(%zu) at %llu of %zu returns %zu and state %s", n, (unsigned long long)m->pos, m->d.size(), r, sname(s));
			}
			else if (!m->can_read) SIM_CHECK(!r && (s == state_t::fail || !n), "state", "reading a stream that cannot be read gives %zu bytes, state %s", r, sname(s));
			else {
				SIM_CHECK(r <= want, "count", "read(%zu) returns %zu", n, r);
				if (!r && want) SIM_CHECK(s == state_t::fail, "error_as_eof", "a read of %zu at %llu of %zu failed below and reports %s", n, (unsigned long long)m->pos, m->d.size(), sname(s));
				if (r) SIM_CHECK(s != state_t::eof, "error_as_eof", "a read that returned %zu bytes reports the end", r);
			}
			m->pos += r;
			check_pos("read");
		}
		void write(size_t n) { write_at(pattern(n), n); }
		void write_at(const uint8_t* p, size_t n)
		{
			unsigned e = errs();
			if (m->can_write) m->attempt(m->pos, p, n);
			size_t r = f->write(p, n);
			state_t s = f->state();
			sim::ev("write(%zu) at %llu -> %zu %s", n, (unsigned long long)m->pos, r, sname(s));
			SIM_CHECK(r <= n, "count", "write(%zu) returns %zu", n, r);
			SIM_CHECK(s != state_t::eof, "state", "write reports the end of the file");
			if (r < n) SIM_CHECK(s == state_t::fail, "state", "write(%zu) returns %zu and state %s", n, r, sname(s));
			if (m->can_write && m->can_grow && errs() == e)
				SIM_CHECK(r == n && s == state_t::ok, "count", "write(%zu) at %llu returns %zu, state %s", n, (unsigned long long)m->pos, r, sname(s));
			if (!m->can_write) SIM_CHECK(!r && (s == state_t::fail || !n), "state", "writing a stream that cannot be written gives %zu", r);
			m->put(m->pos, p, r);
			m->pos += r;
			check_pos("write");
		}
		void seek(int64_t off, seek_t how)
		{
			int64_t base = how == seek_t::beg ? 0 : how == seek_t::cur ? (int64_t)m->pos : (int64_t)m->d.size();
			int64_t to = base + off;
			unsigned e = errs();
			if (to < 0) {
				try {
					stdex::stream::fpos_t r = f->seek(off, how);
					SIM_CHECK(r == stdex::stream::fpos_max && f->state() == state_t::fail, "seek", "a seek to %lld reports %lld, %s", (long long)to, (long long)r, sname(f->state()));
				}
				catch (const std::invalid_argument&) {}
				check_pos("refused seek");
				return;
			}
			stdex::stream::fpos_t r = f->seek(off, how);
			sim::ev("seek(%lld,%d) -> %lld %s", (long long)off, (int)how, (long long)r, sname(f->state()));
			if (r == stdex::stream::fpos_max && errs() != e) {
				SIM_CHECK(f->state() == state_t::fail, "state", "a failed seek reports %s", sname(f->state()));
				check_pos("failed seek");
				return;
			}
			SIM_CHECK(r == (stdex::stream::fpos_t)to && f->ok(), "seek", "seek(%lld) to %lld reports %lld, %s", (long long)off, (long long)to, (long long)r, sname(f->state()));
			m->pos = (uint64_t)to;
			check_pos("seek");
		}
		void skip(uint64_t n)
		{
			unsigned e = errs();
			f->skip(n);
			if (errs() != e && !f->ok()) { check_pos("failed skip"); return; }
			SIM_CHECK(f->ok(), "state", "skip(%llu) reports %s", (unsigned long long)n, sname(f->state()));
			m->pos += n;
			check_pos("skip");
		}
		void truncate()
		{
			unsigned e = errs();
			uint64_t old = m->d.size();
			if (m->can_write && m->pos < m->min_size) m->min_size = m->pos;
			if (m->can_write) for (uint64_t i = old < m->pos ? old : m->pos; i < (old < m->pos ? m->pos : old); ++i) m->seen(i, 0);
			f->truncate();
			sim::ev("truncate at %llu -> %s", (unsigned long long)m->pos, sname(f->state()));
			if (!f->ok()) {
				SIM_CHECK(errs() != e || !m->can_write || (!m->can_grow && m->pos > old), "state", "truncate at %llu reports failure", (unsigned long long)m->pos);
				check_size("failed truncation");
			}
			else {
				SIM_CHECK(m->can_write, "state", "truncating a stream that cannot be written reports ok");
				m->resize(m->pos);
			}
			check_pos("truncate");
			check_size("truncate");
		}
		void read_remainder(size_t max)
		{
			unsigned e = errs();
			size_t a = avail(), want = max < a ? max : a;
			auto v = f->read_remainder(max);
			SIM_CHECK(v.size() <= want, "count", "read_remainder gives %zu bytes of %zu", v.size(), want);
			compare("read_remainder", v.data(), v.size(), m->pos);
			if (errs() == e) SIM_CHECK(v.size() == want, "count", "read_remainder gives %zu bytes of %zu", v.size(), want);
			else if (v.size() < want) SIM_CHECK(f->state() == state_t::fail, "error_as_eof", "read_remainder gives %zu bytes of %zu and reports %s", v.size(), want, sname(f->state()));
			m->pos += v.size();
			if (!f->ok() && m->faults && m->seek_may_fail) { resync(); return; }
			check_pos("read_remainder");
		}
		void read_array(size_t size, size_t n)
		{
			uint8_t* p = fresh(size * n);
			size_t a = avail();
			unsigned e = errs();
			size_t r = f->read_array(p, size, n);
			uint64_t now = f->tell();
			SIM_CHECK(r <= n && r <= a / size, "count", "read_array returns %zu of %zu", r, n);
			compare("read_array", p, r * size, m->pos);
			if (errs() == e) {
				size_t want = a / size < n ? a / size : n;
				SIM_CHECK(r == want, "count", "read_array(%zu,%zu) with %zu bytes left returns %zu", size, n, a, r);
				m->pos += a < size * n ? a : size * n;
				check_pos("read_array");
			}
			else {
				if (r < n) SIM_CHECK(f->state() == state_t::fail || m->pos + size * n > m->d.size(), "error_as_eof", "read_array returns %zu of %zu and state %s", r, n, sname(f->state()));
				SIM_CHECK((now == stdex::stream::fpos_max) || (now >= m->pos + r * size && now <= m->pos + size * n), "position", "read_array leaves position %llu", (unsigned long long)now);
				if (now != stdex::stream::fpos_max) m->pos = now; else resync();
			}
		}
		void write_byte(size_t n)
		{
			++m->serial;
			uint8_t b = (uint8_t)(1 + sim::pat(m->serial, m->pos) % 255);
			std::vector<uint8_t> v(n, b);
			unsigned e = errs();
			if (m->can_write) m->attempt(m->pos, v.data(), n);
			f->write_byte(b, n);
			bool ok = f->ok();
			if (!ok) {
				SIM_CHECK(errs() != e || !m->can_write || !m->can_grow, "state", "write_byte reports failure");
				uint64_t now = f->tell(); // what was accepted
				if (now == stdex::stream::fpos_max) return resync();
				SIM_CHECK(now >= m->pos && now < m->pos + n, "position", "a failed write_byte(%zu) moves from %llu to %llu", n, (unsigned long long)m->pos, (unsigned long long)now);
				n = (size_t)(now - m->pos);
			}
			m->put(m->pos, v.data(), n);
			m->pos += n;
			check_pos("write_byte");
		}
		void copy_in(size_t n)
		{
			// another file is copied into this one
			uint8_t* p = pattern(n);
			memory_file src(p, n, n);
			unsigned e = errs();
			if (m->can_write) m->attempt(m->pos, p, n);
			fsize_t r = f->write_stream(src);
			SIM_CHECK(r <= n, "count", "write_stream of %zu bytes returns %llu", n, (unsigned long long)r);
			if (r < n || !f->ok()) SIM_CHECK((errs() != e || !m->can_write || !m->can_grow) && f->state() == state_t::fail, "state", "write_stream of %zu bytes returns %llu and state %s", n, (unsigned long long)r, sname(f->state()));
			m->put(m->pos, p, (size_t)r);
			m->pos += r;
			check_pos("write_stream");
		}
		void flush()
		{
			unsigned e = errs(), fe = simk::m.fsync_errors;
			f->flush();
			sim::ev("flush -> %s", sname(f->state()));
			if (!f->ok()) SIM_CHECK(errs() != e || !m->can_write, "state", "flush reports failure");
			else {
				SIM_CHECK(simk::m.fsync_errors == fe, "sync_hidden", "the synchronisation failed and flush reports ok");
				m->flushed();
			}
			check_pos("flush");
		}
		void all(const char* what)
		{
			sim::set_step_limit(400000000);
			// The whole content, read through the stream, with the position put back
			uint64_t p = m->pos;
			unsigned e = errs();
			if (f->seek(0) == 0) {
				uint8_t* b = fresh(m->d.size() + 8);
				size_t n = f->read_array(b, 1, m->d.size() + 8);
				compare(what, b, n, 0);
				if (errs() == e) SIM_CHECK(n == m->d.size() && f->state() == state_t::eof, "content", "%s: %zu bytes are readable of %zu, then %s", what, n, m->d.size(), sname(f->state()));
				else SIM_CHECK(n == m->d.size() ? true : f->state() == state_t::fail, "error_as_eof", "%s: %zu of %zu bytes were read, then %s", what, n, m->d.size(), sname(f->state()));
			}
			else SIM_CHECK(errs() != e, "seek", "seek to the beginning fails");
			f->seekbeg(p);
			resync();
		}
		// After an error the position may be anywhere: set it anew
		void resync()
		{
			for (unsigned i = 0; i < 1000; ++i)
				if (f->seekbeg(m->pos) == m->pos) return;
			simk::config c = simk::cfg;
			simk::cfg.seek_error = 0;
			f->seekbeg(m->pos);
			simk::cfg = c;
		}
		int64_t offset()
		{
			switch (choose(4)) {
			case 0: return (int64_t)choose(lim.max_off);
			case 1: return (int64_t)m->d.size();
			case 2: return (int64_t)choose((uint32_t)m->d.size() + 1);
			default: return (int64_t)m->d.size() + choose(12);
			}
		}
		void step()
		{
			sim::set_step_limit(400000000); // per operation: a cache of one byte handles 400 kB byte by byte
			switch (choose(20)) {
			case 0: case 1: case 2: case 3: read(sim::size(lim.max_io)); break;
			case 4: case 5: case 6: case 7: write(sim::size(lim.max_io)); break;
			case 8: seek(offset(), seek_t::beg); break;
			case 9: seek((int64_t)choose(lim.max_io) - (int64_t)choose((uint32_t)(m->pos < lim.max_io ? m->pos : lim.max_io) + 1), seek_t::cur); break;
			case 10: seek((int64_t)choose(10) - (int64_t)choose((uint32_t)m->d.size() + 1), seek_t::end); break;
			case 11: skip(choose(lim.max_io)); break;
			case 12: if (m->pos > 4096 && !m->can_grow) break; if (m->pos < lim.max_off * 3) truncate(); break;
			case 13: flush(); break;
			case 14: { static const size_t e[] = { 1, 2, 3, 4, 8 }; read_array(e[choose(5)], choose(lim.max_io / 2)); break; }
			case 15: write_byte(1 + (choose(4) ? choose(40) : choose(lim.max_io))); break;
			case 16: copy_in(sim::size(lim.max_io)); break;
			case 17: read_remainder(choose(2) ? SIZE_MAX : choose(lim.max_io)); break;
			case 18: check_size("nothing"); seek(-1 - (int64_t)choose(3), seek_t::beg); break;
			case 19: seek(offset(), seek_t::beg); write(1 + sim::size(lim.max_io)); break;
			}
			if (m->pos > lim.max_off * 2) seek(offset(), seek_t::beg);
			sim::state(m->hash());
		}
	};
}
