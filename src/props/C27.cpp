// SIM: plain
// C27: differing replies of the files under a diagnostic file are never hidden.
#include <stdex/stream.hpp>
#include "simk.h"
#include <string.h>
#include <memory>
#include <vector>
using namespace sim;
using namespace stdex::stream;
typedef stdex::stream::fpos_t pos_t; // not the C library's

namespace
{
	const char* sname(state_t s) { return s == state_t::ok ? "ok" : s == state_t::eof ? "eof" : "fail"; }
	typedef std::vector<uint8_t> bytes;
	enum op_t { o_read, o_write, o_flush, o_close, o_seek, o_tell, o_lock, o_unlock, o_size, o_truncate, o_count };
	const char* const names[] = { "read", "write", "flush", "close", "seek", "tell", "lock", "unlock", "size", "truncate" };
	struct call { op_t op; uint64_t a, b; uint64_t result; state_t state; bytes data; bool has_state; };

	// A file that remembers what it was asked and what it replied, and may reply otherwise once
	struct spy : basic_file {
		std::unique_ptr<basic_file> f;
		mutable std::vector<call> log;
		int lie_op = -1;      // the next such operation is answered wrongly
		unsigned lie = 0;
		bool throws = false;
		mutable bool lied = false, threw = false;
		template <class F> auto real(F fn) const { try { return fn(); } catch (...) { threw = true; throw; } }
		spy(std::unique_ptr<basic_file> x) : basic(x->state()), f(std::move(x)) {}
		bool now(op_t op) const { if (lie_op != op || lied) return false; lied = true; count_fault("differing_reply"); if (throws) { threw = true; throw std::range_error("spy"); } return true; }
		static uint64_t other(uint64_t v, unsigned k) { static const uint64_t d[] = { 1, (uint64_t)-1, 1ull << 32, 1ull << 63, 256, 0xffffffffull }; return v + d[k % 6]; }
		static state_t other(state_t s, unsigned k) { state_t o = k & 1 ? (s == state_t::ok ? state_t::fail : state_t::ok) : (s == state_t::eof ? state_t::fail : state_t::eof); return o == s ? state_t::fail : o; }
		void done(op_t op, uint64_t a, uint64_t b, uint64_t r, const uint8_t* d, size_t n) const { log.push_back({ op, a, b, r, m_state, d ? bytes(d, d + n) : bytes(), op != o_tell && op != o_size }); }
		size_t read(void* d, size_t n) override
		{
			size_t r = real([&] { return f->read(d, n); });
			m_state = f->state();
			if (now(o_read)) switch (lie % 3) {
				case 0: m_state = other(m_state, lie / 3); break;
				case 1: if (r) { size_t k = lie / 3; if (k % 3 == 1) { ((uint8_t*)d)[0] ^= 1; break; } if (k % 3 == 2) { ((uint8_t*)d)[r - 1] ^= 0x80; break; } r -= 1 + (k / 3) % r; break; }
					if (r < n) { memset(d, 'x', 1); r = 1; } break;
				default: if (r) ((uint8_t*)d)[(lie / 3) % r] ^= 1 << lie / 7 % 8; else m_state = other(m_state, lie / 3);
			}
			done(o_read, n, 0, r, (uint8_t*)d, r);
			return r;
		}
		size_t write(const void* d, size_t n) override
		{
			size_t r = real([&] { return f->write(d, n); });
			m_state = f->state();
			if (now(o_write)) { if (lie & 1 && r) r -= 1 + (lie / 2) % r; else m_state = other(m_state, lie / 2); }
			done(o_write, n, 0, r, (const uint8_t*)d, n);
			return r;
		}
		void flush() override { real([&] { f->flush(); }); m_state = f->state(); if (now(o_flush)) m_state = other(m_state, lie); done(o_flush, 0, 0, 0, nullptr, 0); }
		void close() override { real([&] { f->close(); }); m_state = f->state(); if (now(o_close)) m_state = other(m_state, lie); done(o_close, 0, 0, 0, nullptr, 0); }
		pos_t seek(foff_t o, seek_t how) override
		{
			pos_t r = real([&] { return f->seek(o, how); });
			m_state = f->state();
			if (now(o_seek)) { if (lie & 1) r = other(r, lie / 2); else m_state = other(m_state, lie / 2); }
			done(o_seek, (uint64_t)o, (uint64_t)how, r, nullptr, 0);
			return r;
		}
		pos_t tell() const override { pos_t r = real([&] { return f->tell(); }); if (now(o_tell)) r = other(r, lie); done(o_tell, 0, 0, r, nullptr, 0); return r; }
		void lock(pos_t o, fsize_t n) override { real([&] { f->lock(o, n); }); m_state = f->state(); if (now(o_lock)) m_state = other(m_state, lie); done(o_lock, o, n, 0, nullptr, 0); }
		void unlock(pos_t o, fsize_t n) override { real([&] { f->unlock(o, n); }); m_state = f->state(); if (now(o_unlock)) m_state = other(m_state, lie); done(o_unlock, o, n, 0, nullptr, 0); }
		fsize_t size() const override { fsize_t r = real([&] { return f->size(); }); if (now(o_size)) r = other(r, lie); done(o_size, 0, 0, r, nullptr, 0); return r; }
		void truncate() override { real([&] { f->truncate(); }); m_state = f->state(); if (now(o_truncate)) m_state = other(m_state, lie); done(o_truncate, 0, 0, 0, nullptr, 0); }
	};

	void s_replies()
	{
		unsigned n = choose(5) ? 1 + choose(4) : 0;
		static uint64_t serial; serial = 0;
		uint32_t len = choose(4) ? choose(200) : choose(4) ? choose(2000) : choose(70000);
		uint32_t most = len < 3000 ? 3000 : len + 100;
		std::vector<std::unique_ptr<spy>> spies;
		std::vector<basic_file*> list;
		bool mixed = choose(3) == 0;
		unsigned kind = choose(3), diverges = choose(3) && n > 1 ? choose(n) : 99;
		for (unsigned i = 0; i < n; ++i) {
			if (mixed) kind = choose(3);
			bytes c(len);
			for (size_t k = 0; k < c.size(); ++k) c[k] = pat(3, k);
			if (i == diverges && !choose(4) && len) { if (choose(2)) c[choose(len)] ^= 4; else c.resize(choose(len)); } // another content from the start
			std::unique_ptr<basic_file> f;
			char path[8] = { '/', (char)('a' + i), 0 };
			if (kind == 0) { auto m = new memory_file; f.reset(m); if (!c.empty()) { m->write(c.data(), c.size()); m->seek(0); } }
			else {
				simk::make_file(path, c);
				int mode = mode_for_reading | mode_for_writing | mode_open_existing | mode_preserve_existing | mode_binary;
				if (kind == 1) f.reset(new file(path, mode)); else f.reset(new cached_file(path, mode, 1 + choose(90)));
			}
			spies.emplace_back(new spy(std::move(f)));
			list.push_back(spies.back().get());
		}
		if (n && !choose(4)) { // all files reply the same otherwise to one call
			int op = (int)choose(o_count);
			unsigned lie = choose(400);
			for (auto& s : spies) { s->lie_op = op; s->lie = lie; }
		}
		else if (n > 1 && choose(2)) { // one file replies otherwise to one call
			auto& s = *spies[choose(n)];
			s.lie_op = (int)choose(o_count);
			s.lie = choose(400);
			s.throws = !choose(8);
		}
		if (!choose(3)) {
			static const uint32_t q[] = { 0, 20, 100, 300 };
			simk::cfg.read_error = q[choose(4)]; simk::cfg.write_error = q[choose(4)]; simk::cfg.truncate_error = q[choose(4)]; simk::cfg.lock_error = q[choose(4)];
			simk::cfg.short_read = q[choose(4)]; simk::cfg.short_write = q[choose(4)]; simk::cfg.fsync_error = q[choose(4)];
			if (choose(2)) simk::cfg.seek_error = q[choose(4)];
		}
		diag_file d(list.data(), n);
		SIM_CHECK(d.state() == (n ? state_t::ok : state_t::fail), "state", "%u files, none used yet: the state is %s", n, sname(d.state()));
		bool closed = false;
		unsigned agreed = 0, differed = 0;
		for (unsigned steps_ = 1 + choose(25); steps_ && !closed; --steps_) {
			for (auto& s : spies) { s->log.clear(); s->threw = false; }
			op_t op = (op_t)choose(o_count);
			if (op == o_close && choose(4)) op = o_read;
			uint64_t result = 0, a = 0, b = 0;
			bytes buf, orig;
			size_t guard = 8;
			bool threw = false;
			try {
				switch (op) {
				case o_read: a = choose(5) ? choose(100) : choose(most); buf.assign(a + guard, 0xEE); result = d.read(buf.data(), a); break;
				case o_write: a = choose(5) ? choose(100) : choose(3000); buf.resize(a); for (auto& x : buf) x = pat(5, ++serial); orig = buf; result = d.write(buf.data(), a); break;
				case o_flush: d.flush(); break;
				case o_close: d.close(); closed = true; break;
				case o_seek: b = choose(3); a = b == 0 ? choose(300) : (uint64_t)((int64_t)choose(100) - 50); result = d.seek((foff_t)a, b == 0 ? seek_t::beg : b == 1 ? seek_t::cur : seek_t::end); b = (uint64_t)(b == 0 ? seek_t::beg : b == 1 ? seek_t::cur : seek_t::end); break;
				case o_tell: result = d.tell(); break;
				case o_lock: a = choose(50); b = 1 + choose(50); d.lock(a, b); break;
				case o_unlock: a = choose(50); b = 1 + choose(50); d.unlock(a, b); break;
				case o_size: result = d.size(); break;
				default: d.truncate(); break;
				}
			}
			catch (const std::exception& e) { threw = true; ev("%s: %s", names[op], e.what()); }
			if (!n) {
				SIM_CHECK(!threw || op == o_close, "empty", "%s without files fails with an exception", names[op]);
				bool fine = op == o_flush || op == o_close || op == o_tell || op == o_size;
				SIM_CHECK(fine || d.state() == state_t::fail, "empty", "%s without files reports %s", names[op], sname(d.state()));
				if (op == o_flush || op == o_close) SIM_CHECK(d.state() == state_t::ok, "empty", "%s without files reports %s", names[op], sname(d.state()));
				if (op == o_read || op == o_write) SIM_CHECK(!result, "empty", "%s without files transfers %llu bytes", names[op], (unsigned long long)result);
				if (op == o_tell || op == o_seek) SIM_CHECK(result == stdex::stream::fpos_max, "empty", "%s without files returns %llu", names[op], (unsigned long long)result);
				if (op == o_size) SIM_CHECK(result == fsize_max, "empty", "size without files is %llu", (unsigned long long)result);
				continue;
			}
			bool lied = false, other = false;
			unsigned called = 0;
			for (unsigned i = 0; i < n; ++i) {
				auto& s = *spies[i];
				if (s.lied) lied = true;
				if (s.log.empty()) continue;
				++called;
				SIM_CHECK(s.log.size() == 1 && s.log[0].op == op, "calls", "one %s makes %zu calls of file %u", names[op], s.log.size(), i);
				auto& c = s.log[0];
				SIM_CHECK(c.a == a && c.b == b, "calls", "%s(%llu, %llu) asks file %u for %llu, %llu", names[op], (unsigned long long)a, (unsigned long long)b, i, (unsigned long long)c.a, (unsigned long long)c.b);
				if (op == o_write) SIM_CHECK(c.data == orig, "calls", "file %u is given other bytes to write", i);
				if (spies[0]->log.empty()) continue;
				auto& z = spies[0]->log[0];
				if (c.result != z.result || (c.has_state && c.state != z.state) || (op == o_read && c.data != z.data)) other = true;
			}
			if (!threw) {
				SIM_CHECK(called == n, "calls", "%s is done on %u of %u files and reports no difference", names[op], called, n);
				SIM_CHECK(!other, "hidden", "the files reply differently to %s and no error is reported", names[op]);
				auto& z = spies[0]->log[0];
				if (op == o_read || op == o_write || op == o_seek || op == o_tell || op == o_size) SIM_CHECK(result == z.result, "result", "%s returns %llu, all files said %llu", names[op], (unsigned long long)result, (unsigned long long)z.result);
				if (z.has_state) SIM_CHECK(d.state() == z.state, "result", "%s leaves the state %s, all files said %s", names[op], sname(d.state()), sname(z.state));
				++agreed;
			}
			else {
				bool own = false; // an exception of the file itself
				for (auto& s : spies) if (s->threw) own = true;
				SIM_CHECK(other || own, "false_alarm", "all files reply the same to %s and a difference is reported", names[op]);
				++differed;
			}
			if (op == o_read) {
				for (size_t i = 0; i < guard; ++i) SIM_CHECK(buf[a + i] == 0xEE, "overrun", "reading %llu bytes writes behind them", (unsigned long long)a);
				if (!spies[0]->log.empty()) { auto& z = spies[0]->log[0]; SIM_CHECK(z.data.size() <= a && !memcmp(buf.data(), z.data.data(), z.data.size()), "result", "the bytes returned are not those of the first file"); }
			}
			(void)lied;
		}
		for (auto& s : spies) try { s->f->close(); } catch (const std::exception&) {} // its destructor would throw
		simk::cfg = simk::config();
		ev("%u agreed, %u differed", agreed, differed);
		state(agreed * 100 + differed * 10000 + n);
	}
}
SIM_SCENARIOS("C27", { "replies", 1, s_replies })
