// SIM: plain
// C16: copies, remainders, skips and lines are exact or report failure.
#include <stdex/stream.hpp>
#include "peer.h"
#include "simk.h"
#include <string.h>
#include <memory>
#include <string>
#include <vector>
using namespace sim;
using namespace stdex::stream;
using stdex::charset_id;

namespace
{
	const char* sname(state_t s) { return s == state_t::ok ? "ok" : s == state_t::eof ? "eof" : "fail"; }

	// What a stream delivers, and how it goes on
	struct input {
		std::shared_ptr<basic> s;
		peer::source* u = nullptr;
		std::vector<std::shared_ptr<void>> keep;
		std::vector<uint8_t> d;
		uint64_t taken = 0, end = 0;
		state_t ending = state_t::eof;
		bool seekable = false;

		uint64_t avail() const { return taken < end ? end - taken : 0; }
		void check(const uint8_t* p, uint64_t n, const char* what)
		{
			for (uint64_t i = 0; i < n; ++i)
				SIM_CHECK(p[i] == d[taken + i], "content", "%s: byte %llu is %02x instead of %02x", what, (unsigned long long)(taken + i), p[i], d[taken + i]);
		}
	};
	void text(std::vector<uint8_t>& d, unsigned width)
	{
		// short lines, all kinds of line ends
		for (size_t i = 0; i + width <= d.size(); i += width) {
			static const uint16_t c[] = { 'a', 'b', '\n', '\r', 0, 0x263a, '\r', '\n' };
			uint16_t v = c[choose(8)];
			d[i] = (uint8_t)v;
			if (width > 1) d[i + 1] = (uint8_t)(v >> 8);
		}
	}
	void make(input& in, unsigned width = 0)
	{
		uint32_t big = choose(6) ? 60 : choose(4) ? 500 : 200000;
		size_t n = size(big);
		in.d.resize(n);
		for (size_t i = 0; i < n; ++i) in.d[i] = pat(3, i);
		if (width) { in.d.resize(n = n < 400 ? n : 400); text(in.d, width); }
		in.end = n;
		if (!choose(5)) {
			// seekable sources
			if (choose(2)) {
				auto m = std::make_shared<memory_file>();
				if (n) m->write(in.d.data(), n);
				m->seek(0);
				in.s = m;
			}
			else {
				simk::make_file("/in", in.d);
				if (choose(2)) simk::cfg.short_read = choose(900);
				if (choose(2)) in.s = std::make_shared<file>("/in", mode_for_reading | mode_binary);
				else in.s = std::make_shared<cached_file>("/in", mode_for_reading | mode_binary, 1 + choose(50));
			}
			in.seekable = true;
			return;
		}
		auto u = std::make_shared<peer::source>();
		u->data = in.d;
		u->o.preemptible = false;
		u->o.p_short = choose(2) ? choose(900) : 0;
		if (!choose(3)) { in.end = u->o.fail_at = choose((uint32_t)n + 1); in.ending = state_t::fail; }
		in.u = u.get();
		switch (choose(4)) {
		case 0: case 1: in.s = u; break;
		case 2: in.s = std::make_shared<buffer>(*u, choose(30), choose(30)); in.keep.push_back(u); break;
		default: {
			uint64_t lim = choose((uint32_t)n + 10);
			in.s = std::make_shared<limiter>(*u, lim, 0);
			in.keep.push_back(u);
			if (lim <= in.end) { in.end = lim; in.ending = state_t::eof; }
			break;
		}
		}
	}
	void state_is(const input& in, state_t want, const char* what, uint64_t n)
	{
		SIM_CHECK(in.s->state() == want, "state", "%s of %llu with %llu left, then %s, reports %s", what, (unsigned long long)n, (unsigned long long)in.avail(), sname(in.ending), sname(in.s->state()));
	}

	// One bulk operation; false when the position in the source is no longer known
	bool op(input& in, bool oom)
	{
		uint64_t a = in.avail();
		uint64_t f0 = alloc_failures();
		switch (choose(6)) {
		case 0: { // skip
			uint64_t n = choose(3) ? choose(40) : size(choose(4) ? 300 : 100000);
			{
				alloc_faults af(oom ? 300 : 0, 1000);
				bool thrown = false;
				try { in.s->skip(n); }
				catch (const std::exception&) { thrown = true; }
				SIM_CHECK(!thrown, "exception", "skip(%llu) of %llu throws instead of reporting its state", (unsigned long long)n, (unsigned long long)a);
			}
			ev("skip(%llu) of %llu -> %s", (unsigned long long)n, (unsigned long long)a, sname(in.s->state()));
			if (alloc_failures() != f0) { SIM_CHECK(in.s->state() == state_t::fail, "failure_hidden", "skip reports %s, although memory ran out", sname(in.s->state())); return false; }
			if (in.seekable) { SIM_CHECK(in.s->ok(), "state", "skip in a file reports %s", sname(in.s->state())); in.taken += n; break; }
			if (!n) break;
			state_is(in, n <= a ? state_t::ok : in.ending, "skip", n);
			in.taken += n < a ? n : a;
			break;
		}
		case 1: { // remainder
			uint64_t n = choose(2) ? SIZE_MAX : choose(2) ? choose(100) : choose(200000);
			std::vector<uint8_t> r;
			{
				alloc_faults af(oom ? 300 : 0, 1000);
				try { r = in.s->read_remainder((size_t)n); }
				catch (const std::bad_alloc&) { return false; }
			}
			ev("read_remainder(%llu) of %llu -> %zu %s", (unsigned long long)n, (unsigned long long)a, r.size(), sname(in.s->state()));
			SIM_CHECK(r.size() <= n && r.size() <= a, "count", "read_remainder(%llu) of %llu returns %zu bytes", (unsigned long long)n, (unsigned long long)a, r.size());
			in.check(r.data(), r.size(), "read_remainder");
			if (alloc_failures() != f0) { SIM_CHECK(in.s->state() == state_t::fail, "failure_hidden", "read_remainder reports %s, although memory ran out", sname(in.s->state())); return false; }
			SIM_CHECK(r.size() == (n < a ? n : a), "short", "read_remainder(%llu) of %llu returns %zu bytes", (unsigned long long)n, (unsigned long long)a, r.size());
			if (in.seekable) SIM_CHECK(in.s->state() != state_t::fail, "state", "read_remainder of a file reports failure");
			else if (n) state_is(in, n <= a ? state_t::ok : in.ending, "read_remainder", n);
			in.taken += r.size();
			break;
		}
		case 2: { // array
			uint64_t e = 1 + choose(9), c = choose(3) ? choose(20) : choose(3000);
			std::vector<uint8_t> b(e * c + 1, 0xee);
			uint64_t r = in.s->read_array(b.data(), e, c);
			ev("read_array(%llu x %llu) of %llu -> %llu %s", (unsigned long long)e, (unsigned long long)c, (unsigned long long)a, (unsigned long long)r, sname(in.s->state()));
			SIM_CHECK(r == (c < a / e ? c : a / e), "count", "read_array of %llu elements of %llu bytes with %llu left returns %llu", (unsigned long long)c, (unsigned long long)e, (unsigned long long)a, (unsigned long long)r);
			in.check(b.data(), r * e, "read_array");
			SIM_CHECK(b[e * c] == 0xee, "overrun", "read_array writes behind the array");
			if (c) state_is(in, r == c ? state_t::ok : in.ending, "read_array", e * c);
			in.taken += r == c ? e * c : a;
			break;
		}
		case 3: { // copy
			if (!in.seekable && choose(2)) { // into memory that may run out
				memory_file m;
				uint64_t n = choose(2) ? fsize_max : choose(300), w = 0;
				bool thrown = false;
				{
					alloc_faults af(oom ? 400 : 0, 1000);
					try { w = m.write_stream(*in.s, n); }
					catch (const std::bad_alloc&) { thrown = true; }
				}
				bool failed = alloc_failures() != f0;
				uint64_t want = n < a ? n : a;
				if (thrown) return false;
				ev("copy to memory -> %llu %s", (unsigned long long)w, sname(m.state()));
				SIM_CHECK(m.size() == w, "count", "a copy of %llu bytes to memory leaves %llu", (unsigned long long)w, (unsigned long long)m.size());
				in.check((const uint8_t*)m.data(), w, "copy to memory");
				if (failed) {
					SIM_CHECK(m.state() == state_t::fail || (w == want && (n <= a || in.ending == state_t::eof)), "failure_hidden", "memory ran out during a copy of %llu bytes, which stops after %llu and reports %s", (unsigned long long)want, (unsigned long long)w, sname(m.state()));
					return false;
				}
				SIM_CHECK(w == want, "short", "a copy to memory stops after %llu of %llu", (unsigned long long)w, (unsigned long long)want);
				SIM_CHECK(m.state() == (n <= a || in.ending == state_t::eof ? state_t::ok : state_t::fail), "state", "a copy of %llu to memory with %llu left, then %s, reports %s", (unsigned long long)n, (unsigned long long)a, sname(in.ending), sname(m.state()));
				in.taken += w;
				break;
			}
			peer::sink out;
			out.o.preemptible = false;
			out.o.p_short = 0;
			bool shorts = !choose(4);
			if (shorts) out.o.p_short = 1 + choose(900);
			if (!choose(3)) { out.o.fail_at = choose((uint32_t)a + 2); out.o.transient = choose(2); out.o.late = choose(2); }
			uint64_t n = choose(2) ? fsize_max : choose(3) ? choose(100) : choose(200000);
			uint64_t want = n < a ? n : a, w = 0;
			{
				alloc_faults af(oom ? 300 : 0, 1000);
				try { w = out.write_stream(*in.s, n); }
				catch (const std::bad_alloc&) { return true; }
			}
			ev("copy of %llu, %llu left -> %llu %s", (unsigned long long)n, (unsigned long long)a, (unsigned long long)w, sname(out.state()));
			SIM_CHECK(w == out.got.size(), "count", "a copy returns %llu, the sink has got %zu", (unsigned long long)w, out.got.size());
			SIM_CHECK(w <= want, "count", "a copy of %llu with %llu left returns %llu", (unsigned long long)n, (unsigned long long)a, (unsigned long long)w);
			in.check(out.got.data(), w, "copy");
			if (w < want) {
				SIM_CHECK(!out.ok(), "failure_hidden", "a copy of %llu stops after %llu and reports ok", (unsigned long long)want, (unsigned long long)w);
				SIM_CHECK(out.failures || shorts, "short", "a copy of %llu stops after %llu without a reason", (unsigned long long)want, (unsigned long long)w);
				return false; // what was read ahead is gone
			}
			SIM_CHECK(out.state() == (!out.failures && (n <= a || in.ending == state_t::eof) ? state_t::ok : state_t::fail), "state", "a copy of %llu with %llu left, then %s, reports %s", (unsigned long long)n, (unsigned long long)a, sname(in.ending), sname(out.state()));
			in.taken += w;
			break;
		}
		case 4: { // single byte
			bool thrown = false;
			uint8_t b = 0;
			try { b = in.s->read_byte(); }
			catch (const std::system_error&) { thrown = true; }
			SIM_CHECK(thrown == !a, "state", "read_byte with %llu left %s", (unsigned long long)a, thrown ? "throws" : "does not throw");
			if (!thrown) { in.check(&b, 1, "read_byte"); ++in.taken; }
			else state_is(in, in.ending, "read_byte", 1);
			break;
		}
		default: { // plain read
			uint64_t n = 1 + choose(50);
			uint8_t b[60];
			uint64_t r = in.s->read(b, n);
			SIM_CHECK(r <= n && r <= a, "count", "read returns too much");
			in.check(b, r, "read");
			if (!r) state_is(in, in.ending, "read", n);
			in.taken += r;
		}
		}
		state(in.taken * 7919 + (uint64_t)in.s->state());
		return true;
	}
	void s_bulk()
	{
		input in;
		make(in);
		bool oom = !choose(4);
		unsigned n = 1 + choose(12);
		for (unsigned i = 0; i < n; ++i)
			if (!op(in, oom)) break;
	}

	// Lines
	template <class T> void lines()
	{
		input in;
		make(in, sizeof(T));
		uint64_t end = in.end - in.end % sizeof(T);
		bool oom = !choose(6);
		std::basic_string<T> s;
		for (unsigned k = 0; k < 500; ++k) {
			// what the line is
			std::basic_string<T> want;
			uint64_t p = in.taken;
			bool ended = false;
			while (p < end) {
				T c;
				memcpy(&c, in.d.data() + p, sizeof(T));
				p += sizeof(T);
				if (c == '\n') { ended = true; break; }
				want += c;
			}
			if (ended && !want.empty() && want.back() == '\r') want.pop_back();
			bool attach = choose(2);
			std::basic_string<T> before = attach ? s : std::basic_string<T>();
			uint64_t f0 = alloc_failures();
			bool thrown = false;
			{
				alloc_faults af(oom ? 200 : 0, 1000);
				try { if (attach) in.s->readln_and_attach(s); else in.s->readln(s); }
				catch (const std::bad_alloc&) { thrown = true; }
			}
			if (thrown || alloc_failures() != f0) { SIM_CHECK(thrown, "failure_hidden", "memory ran out when reading a line, nobody says so"); return; }
			ev("line of %zu, %s -> %zu %s", want.size(), ended ? "ended" : "last", s.size(), sname(in.s->state()));
			bool odd = !ended && in.end != end; // half a character behind the last one
			bool same = s == before + want || (odd && !want.empty() && want.back() == '\r' && s == before + want.substr(0, want.size() - 1));
			SIM_CHECK(same, "content", "a line of %zu characters reads as %zu (after %zu) or as different ones", want.size(), s.size(), before.size());
			if (ended) SIM_CHECK(in.s->ok(), "state", "a line that has its end reports %s", sname(in.s->state()));
			else { SIM_CHECK(in.s->state() == in.ending, "state", "the last line reports %s instead of %s", sname(in.s->state()), sname(in.ending)); break; }
			in.taken = p;
			if (s.size() > 1000) s.clear();
		}
	}
	void s_lines() { if (choose(2)) lines<char>(); else lines<char16_t>(); }

	// Writing side
	void s_fill()
	{
		peer::sink out;
		out.o.preemptible = false;
		if (!choose(2)) { out.o.fail_at = choose(choose(4) ? 100 : 100000); out.o.transient = choose(2); out.o.late = choose(2); }
		if (!choose(3)) out.o.p_short = 1 + choose(900);
		std::vector<uint8_t> want;
		unsigned n = 1 + choose(8);
		bool oom = !choose(4);
		for (unsigned k = 0; k < n; ++k) {
			unsigned f = out.failures;
			uint64_t f0 = alloc_failures();
			size_t had = out.got.size();
			uint64_t amount = 0;
			std::vector<uint8_t> d;
			switch (choose(3)) {
			case 0: {
				amount = choose(3) ? choose(40) : choose(150000);
				uint8_t b = (uint8_t)choose(256);
				d.assign(amount, b);
				alloc_faults af(oom ? 300 : 0, 1000);
				out.write_byte(b, amount);
				break;
			}
			case 1: {
				uint64_t e = 1 + choose(5), c = 1 + choose(30);
				d.resize(e * c);
				for (auto& x : d) x = (uint8_t)choose(256);
				uint64_t r = out.write_array(d.data(), e, c);
				SIM_CHECK(r == (out.got.size() - had) / e, "count", "write_array returns %llu, the sink has got %zu bytes of %llu", (unsigned long long)r, out.got.size() - had, (unsigned long long)(e * c));
				break;
			}
			default: {
				std::string t(choose(300), 'x');
				for (auto& x : t) x = (char)('a' + choose(26));
				char num[32];
				int v = (int)choose(100000) - 50000;
				snprintf(num, sizeof(num), "<%d>", v);
				std::string w = t + num;
				d.assign(w.begin(), w.end());
				bool thrown = false;
				size_t r = 0;
				{
					alloc_faults af(oom ? 300 : 0, 1000);
					try { r = out.write_sprintf("%s<%d>", nullptr, t.c_str(), v); }
					catch (const std::bad_alloc&) { thrown = true; }
				}
				if (thrown) { SIM_CHECK(out.got.size() == had, "content", "a formatted string is written in part when memory runs out"); continue; }
				SIM_CHECK(alloc_failures() == f0, "failure_hidden", "memory ran out when formatting, nobody says so");
				SIM_CHECK(r == out.got.size() - had, "count", "write_sprintf returns %zu, the sink has got %zu", r, out.got.size() - had);
			}
			}
			size_t got = out.got.size() - had;
			ev("%zu bytes -> %zu %s", d.size(), got, sname(out.state()));
			SIM_CHECK(got <= d.size() && !memcmp(out.got.data() + had, d.data(), got), "content", "the sink gets other bytes than written");
			if (got < d.size()) SIM_CHECK(out.state() == state_t::fail, "failure_hidden", "%zu of %zu bytes are written and the state is %s", got, d.size(), sname(out.state()));
			else if (out.failures != f) SIM_CHECK(out.state() == state_t::fail, "failure_hidden", "the sink fails and the state is %s", sname(out.state()));
			else if (d.size() && alloc_failures() == f0) SIM_CHECK(out.ok(), "state", "all is written and the state is %s", sname(out.state()));
		}
	}

	// Copies between files on a disk that fails
	void s_files()
	{
		std::vector<uint8_t> d(size(choose(4) ? 500 : 200000));
		for (size_t i = 0; i < d.size(); ++i) d[i] = pat(4, i);
		auto a = simk::make_file("/a", d), b = simk::make_file("/b", {});
		static const uint32_t p[] = { 0, 0, 50, 300 };
		uint64_t amount = choose(2) ? fsize_max : choose(300);
		uint64_t want = amount < d.size() ? amount : d.size();
		bool cin = choose(2), cout = choose(2);
		uint64_t n = 0;
		bool ok = false, thrown = false;
		unsigned e0 = 0;
		{
			std::unique_ptr<basic_file> in(cin ? (basic_file*)new cached_file("/a", mode_for_reading | mode_binary, 1 + choose(5000)) : new file("/a", mode_for_reading | mode_binary));
			std::unique_ptr<basic_file> out(cout ? (basic_file*)new cached_file("/b", mode_for_writing | mode_for_reading | mode_binary, 1 + choose(5000)) : new file("/b", mode_for_writing | mode_binary));
			simk::cfg.short_read = choose(900);
			simk::cfg.short_write = choose(900);
			simk::cfg.eintr = p[choose(4)];
			simk::cfg.read_error = p[choose(4)];
			simk::cfg.write_error = p[choose(4)];
			if (!choose(4)) simk::cfg.capacity = d.size() + choose((uint32_t)d.size() + 1);
			e0 = simk::m.errors + simk::m.nospace;
			if (choose(3) == 0) {
				auto v = in->read_remainder(amount == fsize_max ? SIZE_MAX : (size_t)amount);
				SIM_CHECK(v.size() <= want && !memcmp(v.data(), d.data(), v.size()), "content", "read_remainder of a file returns other bytes");
				if (v.size() < want) {
					SIM_CHECK(in->state() == state_t::fail, "failure_hidden", "read_remainder of a file returns %zu of %llu bytes and reports %s", v.size(), (unsigned long long)want, sname(in->state()));
					SIM_CHECK(simk::m.errors + simk::m.nospace != e0, "short", "read_remainder stops without a reason");
				}
				return;
			}
			n = out->write_stream(*in, amount);
			ok = out->ok();
			ev("copy of %llu -> %llu %s", (unsigned long long)want, (unsigned long long)n, sname(out->state()));
			SIM_CHECK(n <= want, "count", "a copy of %llu returns %llu", (unsigned long long)want, (unsigned long long)n);
			if (ok) SIM_CHECK(n == want, "failure_hidden", "a copy stops after %llu of %llu and reports ok", (unsigned long long)n, (unsigned long long)want);
			else SIM_CHECK(simk::m.errors + simk::m.nospace != e0, "short", "a copy fails without a reason");
			if (ok) {
				try { out->flush(); ok = out->ok(); }
				catch (const std::exception&) { ok = false; }
			}
			if (ok) SIM_CHECK(b->data == std::vector<uint8_t>(d.begin(), d.begin() + want), "content", "the copy that was flushed differs from the original");
			simk::cfg = simk::config();
			try { out->close(); } catch (const std::exception&) { thrown = true; }
		}
		(void)thrown;
		for (size_t i = 0; i < b->data.size() && i < n; ++i)
			SIM_CHECK(b->data[i] == d[i] || (cout && !ok && !b->data[i]), "content", "byte %zu of the copy is not the one of the original", i);
	}

	// The byte-order mark at the start of a file
	void s_charset()
	{
		std::vector<uint8_t> d;
		charset_id want = charset_id::system, got = charset_id::system;
		memory_file m;
		static const charset_id ids[] = { charset_id::system, charset_id::utf8, charset_id::utf16, charset_id::utf32 };
		want = ids[choose(4)];
		if (want != charset_id::system) {
			m.write_charset(want);
			SIM_CHECK(m.ok() && m.size() == (want == charset_id::utf8 ? 3 : want == charset_id::utf16 ? 2 : 4), "bom", "write_charset writes %llu bytes", (unsigned long long)m.size());
		}
		d.assign((const uint8_t*)m.data(), (const uint8_t*)m.data() + m.size());
		size_t bom = d.size(), n = choose(6);
		for (size_t i = 0; i < n; ++i) d.push_back((uint8_t)('a' + i));
		auto ino = simk::make_file("/t", d);
		bool cached = choose(2);
		std::unique_ptr<basic_file> f(cached ? (basic_file*)new cached_file("/t", mode_for_reading | mode_binary, 1 + choose(20)) : new file("/t", mode_for_reading | mode_binary));
		if (choose(3)) f->seek(choose(5));
		simk::cfg.short_read = choose(900);
		static const uint32_t p[] = { 0, 100, 400 };
		simk::cfg.read_error = p[choose(3)];
		simk::cfg.eintr = p[choose(3)];
		unsigned e = simk::m.errors;
		bool thrown = false;
		try { got = f->read_charset(charset_id::system); }
		catch (const std::system_error&) { thrown = true; }
		ev("charset %d -> %d%s", (int)want, (int)got, thrown ? " thrown" : "");
		if (thrown) { SIM_CHECK(simk::m.errors != e, "state", "read_charset throws without a reason"); return; }
		SIM_CHECK(got == want, simk::m.errors != e ? "failure_hidden" : "charset", "the charset of the file is %d, read_charset returns %d", (int)want, (int)got);
		SIM_CHECK(f->tell() == bom, "position", "read_charset leaves the position at %llu, the text starts at %zu", (unsigned long long)f->tell(), bom);
	}
}
SIM_SCENARIOS("C16", { "bulk", 5, s_bulk }, { "lines", 2, s_lines }, { "fill", 2, s_fill }, { "files", 2, s_files }, { "charset", 1, s_charset })
