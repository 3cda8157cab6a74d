// SIM: plain
// C25: records are found, skipped and sized right, failures are reported.
#include <stdex/idrec.hpp>
#include "peer.h"
#include "simk.h"
#include <string.h>
#include <memory>
#include <sstream>
#include <vector>
using namespace sim;
using namespace stdex;
using namespace stdex::stream;
typedef stdex::stream::fpos_t pos_t; // not the C library's

namespace
{
	const char* sname(state_t s) { return s == state_t::ok ? "ok" : s == state_t::eof ? "eof" : "fail"; }
	typedef std::vector<uint8_t> bytes;
	void put_n(bytes& o, uint64_t v, size_t n) { for (size_t i = 0; i < n; ++i) o.push_back((uint8_t)(v >> 8 * i)); }

	// Data of a record; reads as much as it wants, which may be less or more than the record has
	struct blob {
		bytes d;
		size_t want = 0;
		size_t in_pieces = 0;
	};
	basic& operator <<(basic& s, const blob& b)
	{
		for (size_t at = 0; at < b.d.size() && s.ok();) {
			size_t n = b.in_pieces && b.d.size() - at > b.in_pieces ? b.in_pieces : b.d.size() - at;
			s.write_array(b.d.data() + at, 1, n);
			at += n;
		}
		return s;
	}
	basic& operator >>(basic& s, blob& b)
	{
		b.d.assign(b.want, 0);
		b.d.resize(s.read_array(b.d.data(), 1, b.want));
		return s;
	}
	std::ostream& operator <<(std::ostream& s, const blob& b) { s.write((const char*)b.d.data(), (std::streamsize)b.d.size()); return s; }
	std::istream& operator >>(std::istream& s, blob& b)
	{
		b.d.assign(b.want, 0);
		if (b.want) s.read((char*)b.d.data(), (std::streamsize)b.want);
		return s;
	}

	// The tree of records that is written
	struct node {
		uint64_t id;
		bytes data;             // before the children
		std::vector<node> sub;
		size_t start = 0, body = 0, size = 0, next = 0; // positions in the encoding
	};
	static const unsigned ids[] = { 7, 1, 0, 0xfe, 7 };
	template <class I, class S, S A> struct fmt {
		typedef I id_t;
		typedef S size_t_;
		static constexpr size_t head = sizeof(I) + sizeof(S);
		static void encode(bytes& o, node& n)
		{
			n.start = o.size();
			put_n(o, n.id, sizeof(I));
			put_n(o, 0, sizeof(S));
			n.body = o.size();
			o.insert(o.end(), n.data.begin(), n.data.end());
			for (auto& s : n.sub) encode(o, s);
			n.size = o.size() - n.body;
			for (size_t i = 0; i < sizeof(S); ++i) o[n.start + sizeof(I) + i] = (uint8_t)((uint64_t)n.size >> 8 * i);
			while ((o.size() - n.body) % A) o.push_back(0);
			n.next = o.size();
		}
	};
	node make(unsigned depth, size_t max)
	{
		node n;
		n.id = ids[choose(5)];
		n.data.resize(choose(6) ? choose(12) : choose(3) ? choose((uint32_t)(max < 300 ? max : 300)) : max - (max < 5 ? 0 : choose(5)));
		if (n.data.size() > max) n.data.resize(max);
		for (size_t i = 0; i < n.data.size(); ++i) n.data[i] = choose(3) ? (uint8_t)ids[i % 5] : 0;
		if (depth && n.data.size() + 60 < max) {
			size_t left = (max - n.data.size()) / 4 - 15;
			for (uint32_t k = choose(4); k; --k) n.sub.push_back(make(depth - 1, left < 60 ? left : 60));
		}
		return n;
	}
	// How the code under test writes: through operators, or open and close around the parts
	template <class F, class B> bool write_node(B& s, const node& n, unsigned depth)
	{
		typedef typename F::id_t I; typedef typename F::size_t_ S;
		(void)depth;
		if (n.sub.empty() && !choose(3) && n.id == 7) {
			blob b; b.d = n.data; b.in_pieces = choose(3) ? 0 : 1 + choose(20);
			s << typename F::rec7(b);
			return s.ok();
		}
		auto start = stdex::idrec::open<I, S>(s, (I)n.id);
		if (!s.ok()) return false;
		size_t cut = n.sub.empty() ? choose((uint32_t)n.data.size() + 1) : n.data.size();
		if (cut) s.write_array(n.data.data(), 1, cut);
		bool ok = s.ok();
		if (ok && cut < n.data.size()) { s.write_array(n.data.data() + cut, 1, n.data.size() - cut); ok = s.ok(); }
		for (auto& c : n.sub) { if (!ok && !choose(2)) break; ok = write_node<F>(s, c, depth + 1) && ok; }
		if (!ok && !choose(2)) return false;
		// closed even though something failed: this must not look like success
		bool was = s.ok();
		auto end = F::close(s, start);
		SIM_CHECK((end == stdex::stream::fpos_max) == !s.ok(), "state", "closing a record returns %s and the state is %s", end == stdex::stream::fpos_max ? "nothing" : "its end", sname(s.state()));
		if (!was) SIM_CHECK(!s.ok(), "failure_hidden", "closing a record turns %s into ok", "a failure");
		if (s.ok()) SIM_CHECK(s.tell() == end, "position", "closing a record leaves the position at %llu, not at its end %llu", (unsigned long long)s.tell(), (unsigned long long)end);
		return ok && s.ok();
	}

	// Looks for records the way the documentation says; limit: bytes there are
	template <class F> void search(basic_file& s, const std::vector<node>& level, size_t from, size_t end, size_t limit, bool may_fail, unsigned depth)
	{
		size_t i = 0; // next record at the current position
		bool use_end = depth || choose(2);
		for (unsigned guard = 0; guard < 40; ++guard) {
			unsigned id = ids[choose(4)];
			size_t k = i;
			while (k < level.size() && level[k].id != id) ++k;
			bool found = F::find(s, (typename F::id_t)id, use_end ? (pos_t)end : stdex::stream::fpos_max);
			if (may_fail && !s.ok()) { SIM_CHECK(!found, "state", "a record is found and the state is %s", sname(s.state())); return; }
			if (k == level.size()) {
				SIM_CHECK(!found, "found", "a record is found that is not there (id %u, position %llu)", id, (unsigned long long)s.tell());
				return;
			}
			const node& n = level[k];
			size_t at = n.start + sizeof(typename F::id_t);
			if (at > limit) { SIM_CHECK(!found, "found", "a record is found behind the end"); return; }
			if (!found && k && limit < n.start) return;
			SIM_CHECK(found, "lost", "record %u at %zu is not found from %zu (%zu bytes, %s)", id, n.start, from, limit, sname(s.state()));
			SIM_CHECK(s.tell() == at, "position", "the found record %u is at %zu, the position is %llu", id, n.start, (unsigned long long)s.tell());
			i = k + 1;
			switch (choose(n.sub.empty() ? 2 : 3)) {
			case 0: { // skip it
				bool ok = F::ignore(s);
				if (at + sizeof(typename F::size_t_) > limit) { SIM_CHECK(!ok, "truncated", "a record without a size is skipped"); return; }
				if (may_fail && !ok) return;
				SIM_CHECK(ok && s.tell() == n.next, "position", "skipping the record at %zu of %zu bytes leads to %llu, not %zu", n.start, n.size, (unsigned long long)s.tell(), n.next);
				break;
			}
			case 1: { // read it
				blob b;
				b.want = choose(3) ? n.size : choose(2) ? choose((uint32_t)n.size + 1) : n.size + choose(20);
				s >> typename F::rec7(b);
				size_t have = b.want < n.size ? b.want : n.size;
				if (may_fail && !s.ok()) return;
				if (n.body + have > limit || n.body > limit) { SIM_CHECK(!s.ok(), "truncated", "a record that the input ends within is read as if it was complete (%zu of %zu bytes)", limit > n.body ? limit - n.body : 0, have); return; }
				SIM_CHECK(s.ok(), "state", "reading the record at %zu of %zu bytes reports %s", n.start, n.size, sname(s.state()));
				bytes want(n.data);
				if (have <= n.data.size()) { want.resize(have); SIM_CHECK(b.d == want, "data", "the data of the record at %zu is not the written one", n.start); }
				SIM_CHECK(b.d.size() == have, "data", "%zu bytes are read from a record of %zu, %zu were asked for", b.d.size(), n.size, b.want);
				SIM_CHECK(s.tell() == n.next, "position", "after reading %zu bytes of the record at %zu with %zu bytes the position is %llu, not %zu", b.want, n.start, n.size, (unsigned long long)s.tell(), n.next);
				break;
			}
			default: { // go down
				typename F::size_t_ size;
				s >> size;
				if (may_fail && !s.ok()) return;
				if (n.body > limit) { SIM_CHECK(!s.ok(), "truncated", "a size is read that is not there"); return; }
				SIM_CHECK(size == n.size, "size", "the record at %zu has size %llu, not %zu", n.start, (unsigned long long)size, n.size);
				s.skip(n.data.size());
				if (may_fail && !s.ok()) return;
				if (!n.data.empty() && s.tell() != n.body + n.data.size()) violation("position", "skip");
				search<F>(s, n.sub, n.body + n.data.size(), n.body + n.size, limit, may_fail, depth + 1);
				if (may_fail && !s.ok()) return;
				s.seekbeg(n.next);
			}
			}
		}
	}
	template <class I, class S, S A> struct all : fmt<I, S, A> {
		typedef stdex::idrec::record<blob, I, (I)7, S, A> rec7;
		static pos_t close(basic_file& s, pos_t start) { return stdex::idrec::close<I, S, A>(s, start); }
		static bool find(basic_file& s, I id, pos_t end) { return id == 7 && choose(2) ? rec7::find(s, end) : stdex::idrec::find<I, S, A>(s, id, end); }
		static bool ignore(basic& s) { return stdex::idrec::ignore<S, A>(s); }
		static constexpr size_t max() { return sizeof(S) == 1 ? 255 : sizeof(S) == 2 && !choose(3) ? 65535 : 3000; }
		static bytes tree(std::vector<node>& t, unsigned depth)
		{
			size_t m = sizeof(S) == 1 ? 255 : sizeof(S) == 2 && !choose(4) ? 65535 : 3000;
			bytes o;
			for (uint32_t k = 1 + choose(6); k; --k) { t.push_back(make(depth, m)); fmt<I, S, A>::encode(o, t.back()); }
			for (auto& n : t) if (n.size > m) harness_error("record of %zu bytes", n.size);
			return o;
		}
	};

	template <class F> void files()
	{
		std::vector<node> t;
		bytes want = F::tree(t, sizeof(typename F::size_t_) == 1 ? 1 : 2);
		unsigned kind = choose(3);
		bytes got;
		if (kind == 0) {
			memory_file m;
			for (auto& n : t) SIM_CHECK(write_node<F>(m, n, 0), "state", "writing a record to memory reports %s", sname(m.state()));
			got.assign((const uint8_t*)m.data(), (const uint8_t*)m.data() + m.size());
		}
		else {
			auto ino = simk::make_file("/r", {});
			bool reported = false;
			auto& k = simk::m;
			auto errs = [&] { return k.write_errors + k.nospace + k.seek_errors + k.read_errors; };
			unsigned e = 0;
			try {
				std::unique_ptr<basic_file> f;
				if (kind == 1) f.reset(new file("/r", mode_for_reading | mode_for_writing | mode_create | mode_binary));
				else f.reset(new cached_file("/r", mode_for_reading | mode_for_writing | mode_create | mode_binary, 1 + choose(60)));
				simk::cfg.short_write = choose(2) ? choose(900) : 0;
				static const uint32_t q[] = { 0, 0, 30, 150 };
				if (choose(2)) simk::cfg.write_error = q[choose(4)];
				if (!choose(4)) simk::cfg.seek_error = q[choose(4)];
				simk::cfg.tell_works = true;
				if (!choose(6)) simk::cfg.capacity = choose((uint32_t)want.size() + 9);
				e = errs();
				for (auto& n : t) if (!write_node<F>(*f, n, 0)) { reported = true; break; }
				f->flush();
				if (!f->ok()) reported = true;
				f->close();
				if (!f->ok()) reported = true;
			}
			catch (const std::exception& x) { reported = true; }
			bool failed = errs() != e;
			simk::cfg = simk::config();
			ev("%zu bytes written%s", ino->data.size(), reported ? ", failure reported" : "");
			if (reported) { SIM_CHECK(failed, "state", "a failure is reported without a reason"); return; }
			got = ino->data;
		}
		SIM_CHECK(got.size() == want.size(), "format", "%zu records take %zu bytes, not %zu", t.size(), got.size(), want.size());
		for (size_t i = 0; i < got.size(); ++i) SIM_CHECK(got[i] == want[i], "format", "the records' encoding differs at byte %zu: %u, not %u", i, got[i], want[i]);
		size_t limit = want.size();
		if (choose(2)) limit = choose((uint32_t)want.size() + 1);
		bytes in(want.begin(), want.begin() + limit);
		set_step_limit(30000000);
		if (choose(2)) {
			memory_file m(in.data(), in.size(), in.size());
			search<F>(m, t, 0, want.size(), limit, false, 0);
		}
		else {
			simk::make_file("/q", in);
			std::unique_ptr<basic_file> f;
			if (choose(2)) f.reset(new file("/q", mode_for_reading | mode_binary));
			else f.reset(new cached_file("/q", mode_for_reading | mode_binary, 1 + choose(60)));
			simk::cfg.short_read = choose(2) ? choose(900) : 0;
			static const uint32_t q[] = { 0, 0, 30, 150 };
			if (!choose(3)) simk::cfg.read_error = q[choose(4)];
			bool may = simk::cfg.read_error;
			search<F>(*f, t, 0, want.size(), limit, may, 0);
			simk::cfg = simk::config();
		}
		state(want.size() * 3 + limit);
	}
	struct pipe_out : basic { // not seekable
		peer::sink& u;
		pipe_out(peer::sink& x) : basic(state_t::ok), u(x) {}
		size_t write(const void* d, size_t n) override { size_t r = u.write(d, n); m_state = u.state(); return r; }
	};
	struct pipe_in : basic {
		peer::source& u;
		pipe_in(peer::source& x) : basic(state_t::ok), u(x) {}
		size_t read(void* d, size_t n) override { size_t r = u.read(d, n); m_state = u.state(); return r; }
	};
	template <class F> void pipes()
	{
		typedef typename F::id_t I;
		std::vector<node> t;
		bytes want = F::tree(t, 0);
		for (auto& n : t) n.id = 7;
		want.clear();
		for (auto& n : t) F::encode(want, n);
		peer::sink u;
		u.o.preemptible = false;
		if (!choose(3)) { u.o.fail_at = choose((uint32_t)want.size() + 1); u.o.transient = choose(2); u.o.late = choose(2); }
		if (!choose(4)) u.o.p_short = choose(300);
		pipe_out p(u);
		bool reported = false;
		{
			alloc_faults_malloc_only = true;
			alloc_faults af(choose(4) ? 0 : 300, 1000);
			for (auto& n : t) {
				blob b; b.d = n.data; b.in_pieces = choose(3) ? 0 : 1 + choose(20);
				try { p << typename F::rec7(b); }
				catch (const std::bad_alloc&) { SIM_CHECK(af.fired(), "state", "out of memory without a reason"); reported = true; }
				if (!p.ok()) reported = true;
				if (reported) {
					unsigned w = u.writes;
					auto st = p.state();
					if (st != state_t::ok) { try { p << typename F::rec7(b); } catch (const std::bad_alloc&) {} SIM_CHECK(p.state() == st && u.writes == w, "chain", "writing a record after a failure reports %s", sname(p.state())); }
					break;
				}
			}
			SIM_CHECK(!reported || u.failures || af.fired() || u.o.p_short, "state", "a failure is reported without a reason");
		}
		alloc_faults_malloc_only = false;
		if (!reported) SIM_CHECK(u.got == want, "format", "%zu records take %zu bytes, not %zu, or others", t.size(), u.got.size(), want.size());
		peer::source v;
		v.o.preemptible = false;
		size_t limit = want.size();
		if (choose(2)) limit = choose((uint32_t)want.size() + 1);
		v.data.assign(want.begin(), want.begin() + limit);
		if (!choose(3)) { v.o.fail_at = choose((uint32_t)limit + 1); limit = (size_t)v.o.fail_at; v.o.transient = choose(2); }
		v.o.p_short = choose(2) ? choose(900) : 0;
		pipe_in s(v);
		for (auto& n : t) {
			I id;
			s >> id;
			if (!s.ok()) { SIM_CHECK(n.start + sizeof(I) > limit, "state", "an identifier is not read: %s", sname(s.state())); return; }
			SIM_CHECK(id == 7 && n.start + sizeof(I) <= limit, "position", "record %zu does not start where the previous one ended", (size_t)(&n - t.data()));
			if (!choose(4)) {
				bool ok = F::ignore(s);
				SIM_CHECK(ok == s.ok() && ok == (n.next <= limit), "truncated", "skipping a record says %d, it is %s there", ok, n.next <= limit ? "completely" : "not completely");
				if (!ok) return;
				continue;
			}
			blob b;
			b.want = choose(3) ? n.size : choose(2) ? choose((uint32_t)n.size + 1) : n.size + choose(20);
			size_t have = b.want < n.size ? b.want : n.size;
			s >> typename F::rec7(b);
			if (n.next > limit) { SIM_CHECK(!s.ok(), "truncated", "a record that the input ends within is read as if it was complete"); return; }
			SIM_CHECK(s.ok(), "state", "reading a complete record reports %s", sname(s.state()));
			SIM_CHECK(b.d.size() == have && !memcmp(b.d.data(), n.data.data(), have), "data", "the data of the record at %zu is not the written one", n.start);
			SIM_CHECK(v.pos == n.next, "position", "after the record at %zu the position is %zu, not %zu", n.start, v.pos, n.next);
		}
		state(want.size() * 5 + limit);
	}
	// A standard stream's buffer that takes only so many bytes
	struct full_buf : std::stringbuf {
		size_t room;
		full_buf(size_t n) : room(n) {}
		std::streamsize xsputn(const char* d, std::streamsize n) override
		{
			auto at = (size_t)seekoff(0, std::ios::cur, std::ios::out);
			size_t k = at >= room ? 0 : room - at < (size_t)n ? room - at : (size_t)n;
			if (k < (size_t)n) count_op("full");
			return std::stringbuf::xsputn(d, (std::streamsize)k);
		}
		int overflow(int c) override { return (size_t)seekoff(0, std::ios::cur, std::ios::out) >= room ? EOF : std::stringbuf::overflow(c); }
	};
	template <class F, class I, class S, S A> void standard_full(std::vector<node>& t, const bytes& want)
	{
		full_buf buf(choose((uint32_t)want.size() + 2));
		std::ostream s(&buf);
		for (auto& n : t) {
			bool was = s.good();
			auto start = stdex::idrec::open<I, S>(s, (I)n.id);
			if (!was || buf.room < n.start + sizeof(I)) SIM_CHECK(start == (std::streamoff)-1 && !s.good(), "state", "a record is opened in a failed stream at %lld", (long long)start);
			else SIM_CHECK((size_t)start == n.start && s.good() == (buf.room >= n.body), "state", "opening a record at %zu says %lld, and the stream is %d", n.start, (long long)start, s.good());
			if (!s.good() && choose(2)) break;
			s.write((const char*)n.data.data(), (std::streamsize)n.data.size());
			was = s.good();
			auto end = stdex::idrec::close<I, S, A>(s, start);
			if (!was || buf.room < n.next) SIM_CHECK(end == (std::streamoff)-1 && !s.good(), "failure_hidden", "a record that does not fit is closed at %lld", (long long)end);
			else SIM_CHECK((size_t)end == n.next && s.good(), "state", "closing a record that fits fails");
		}
		SIM_CHECK(s.good() == (buf.room >= want.size()), "state", "the stream is %d, and there is room for %zu of %zu bytes", s.good(), buf.room, want.size());
		std::string got = buf.str();
		if (s.good()) SIM_CHECK(bytes(got.begin(), got.end()) == want, "format", "the records' encoding in a standard stream is wrong");
	}
	// The same through standard streams
	template <class F, class I, class S, S A> void standard()
	{
		std::vector<node> t;
		F::tree(t, 0);
		bytes want;
		for (auto& n : t) F::encode(want, n);
		if (!choose(3)) { standard_full<F, I, S, A>(t, want); return; }
		std::stringstream s;
		for (auto& n : t) {
			if (n.id == 7 && choose(2)) { blob b; b.d = n.data; s << typename F::rec7(b); continue; }
			auto start = stdex::idrec::open<I, S>(s, (I)n.id);
			s.write((const char*)n.data.data(), (std::streamsize)n.data.size());
			auto end = stdex::idrec::close<I, S, A>(s, start);
			SIM_CHECK(end == s.tellp() && (size_t)end == n.next, "position", "a record closed at %lld ends at %zu", (long long)end, n.next);
		}
		std::string str = s.str();
		SIM_CHECK(bytes(str.begin(), str.end()) == want, "format", "the records' encoding in a standard stream is wrong");
		size_t limit = choose(2) ? want.size() : choose((uint32_t)want.size() + 1);
		std::istringstream r(str.substr(0, limit));
		set_step_limit(30000000);
		for (size_t i = 0; i < t.size();) {
			unsigned id = ids[choose(4)];
			size_t k = i;
			while (k < t.size() && t[k].id != id) ++k;
			auto end = choose(2) ? (std::streamoff)want.size() : (std::streamoff)-1;
			if (choose(2)) { size_t stop = i + choose((uint32_t)(t.size() - i) + 1); if (stop < t.size()) { end = (std::streamoff)t[stop].start; if (k >= stop) k = t.size(); } }
			bool found = stdex::idrec::find<I, S, A>(r, (I)id, end);
			if (k == t.size() || t[k].start + sizeof(I) > limit) { SIM_CHECK(!found, "found", "a record is found that is not there"); return; }
			SIM_CHECK(found && (size_t)r.tellg() == t[k].start + sizeof(I), "lost", "record %u at %zu is not found", id, t[k].start);
			blob b; b.want = t[k].size;
			if (choose(2)) {
				r >> typename F::rec7(b);
				if (t[k].body + b.want > limit) { SIM_CHECK(!r.good(), "truncated", "a truncated record is read as complete"); return; }
				SIM_CHECK(b.d == t[k].data, "data", "the data is not the written one");
				if (t[k].next > limit) return; // only the padding is missing
			}
			else {
				bool ok = stdex::idrec::ignore<S, A>(r);
				if (t[k].next > limit) { SIM_CHECK(!ok || limit >= t[k].body + t[k].size, "truncated", "a truncated record is skipped"); return; }
				if (t[k].next > limit) return;
				SIM_CHECK(ok, "state", "skipping a complete record fails");
			}
			i = k + 1;
			if (i < t.size()) SIM_CHECK((size_t)r.tellg() == t[i].start, "position", "the next record starts at %zu, the position is %lld", t[i].start, (long long)r.tellg());
		}
	}
	typedef all<uint32_t, uint32_t, 1> f1; typedef all<uint32_t, uint32_t, 2> f2; typedef all<uint32_t, uint32_t, 4> f4;
	typedef all<uint16_t, uint16_t, 2> h2; typedef all<uint8_t, uint8_t, 2> b2; typedef all<uint8_t, uint8_t, 1> b1; typedef all<uint32_t, uint64_t, 8> q8;
	void s_files()
	{
		switch (choose(7)) {
		case 0: files<f1>(); break; case 1: files<f2>(); break; case 2: files<f4>(); break; case 3: files<h2>(); break;
		case 4: files<b2>(); break; case 5: files<b1>(); break; default: files<q8>(); break;
		}
	}
	void s_pipes()
	{
		switch (choose(7)) {
		case 0: pipes<f1>(); break; case 1: pipes<f2>(); break; case 2: pipes<f4>(); break; case 3: pipes<h2>(); break;
		case 4: pipes<b2>(); break; case 5: pipes<b1>(); break; default: pipes<q8>(); break;
		}
	}
	void s_standard()
	{
		switch (choose(4)) {
		case 0: standard<f2, uint32_t, uint32_t, 2>(); break; case 1: standard<f1, uint32_t, uint32_t, 1>(); break;
		case 2: standard<b2, uint8_t, uint8_t, 2>(); break; default: standard<h2, uint16_t, uint16_t, 2>(); break;
		}
	}
	// Arbitrary bytes: the search ends
	void s_damaged()
	{
		bytes d(size(400));
		for (auto& x : d) x = choose(3) ? (uint8_t)choose(9) : (uint8_t)choose(256);
		set_step_limit(3000000);
		memory_file m(d.data(), d.size(), d.size());
		unsigned n = 0;
		while (n < 1000 && (choose(2) ? b2::find(m, 7, stdex::stream::fpos_max) : h2::find(m, 7, d.size()))) { ++n; if (choose(2)) b2::ignore(m); }
		SIM_CHECK(n <= d.size(), "found", "%u records are found in %zu bytes", n, d.size());
		m.seek(0);
		n = 0;
		while (n < 1000 && f2::find(m, 7, d.size())) {
			++n;
			blob b; b.want = choose(100);
			m >> f2::rec7(b);
			SIM_CHECK(m.tell() <= d.size() + (1ull << 33), "position", "the position is %llu", (unsigned long long)m.tell());
		}
	}
}
SIM_SCENARIOS("C25", { "files", 4, s_files }, { "pipes", 3, s_pipes }, { "standard", 1, s_standard }, { "damaged", 1, s_damaged })
