// SIM: plain
// C26: samples and markers survive the round trip, damage is reported.
#include <stdex/wav.hpp>
#include "peer.h"
#include "simk.h"
#include <string.h>
#include <algorithm>
#include <memory>
#include <string>
#include <vector>
using namespace sim;
using namespace stdex::stream;
namespace wav = stdex::wav;
typedef stdex::stream::fpos_t pos_t; // not the C library's

namespace
{
	const char* sname(state_t s) { return s == state_t::ok ? "ok" : s == state_t::eof ? "eof" : "fail"; }
	typedef std::vector<uint8_t> bytes;
	void put_n(bytes& o, uint64_t v, size_t n) { for (size_t i = 0; i < n; ++i) o.push_back((uint8_t)(v >> 8 * i)); }
	uint32_t fourcc(const char* s) { return (uint8_t)s[0] | (uint32_t)(uint8_t)s[1] << 8 | (uint32_t)(uint8_t)s[2] << 16 | (uint32_t)(uint8_t)s[3] << 24; }
	uint64_t g_serial;
	uint32_t rnd()
	{
		static const uint32_t edge[] = { 0, 1, UINT32_MAX, 0x80000000, 0x7fffffff, 0x01020304 };
		return choose(3) ? (uint32_t)mix(++g_serial * 77 + choose(16)) : edge[choose(6)];
	}
	std::string text() { std::string s(choose(3) ? choose(9) : choose(4) ? 0 : choose(3) ? choose(300) : 70000, 0); for (auto& c : s) c = (char)(1 + rnd() % 255); return s; }

	// What a WAV stream is made of, and the documented encoding of it
	struct fmt_m { uint16_t compression, channels; uint32_t rate, bps; uint16_t align, bits; bytes extra; };
	struct cue_m { uint32_t f[6]; uint32_t duration, purpose; uint16_t w[4]; std::string description, title, note; };
	struct chunk {
		uint32_t id = 0;
		bytes head;              // of its data: subtype
		bytes body;
		std::vector<chunk> sub;  // of a container
		bool container = false, cues = false;
		size_t start = 0, data = 0, end = 0, next = 0;
	};
	void enc(bytes& o, chunk& c)
	{
		c.start = o.size();
		put_n(o, c.id, 4);
		put_n(o, 0, 4);
		c.data = o.size();
		o.insert(o.end(), c.head.begin(), c.head.end());
		o.insert(o.end(), c.body.begin(), c.body.end());
		for (auto& s : c.sub) enc(o, s);
		c.end = o.size();
		for (size_t i = 0; i < 4; ++i) o[c.start + 4 + i] = (uint8_t)((c.end - c.data) >> 8 * i);
		if ((c.end - c.data) & 1) o.push_back(0);
		c.next = o.size();
	}
	chunk leaf(const char* id, const bytes& body) { chunk c; c.id = fourcc(id); c.body = body; return c; }
	chunk box(const char* id, const char* type) { chunk c; c.id = fourcc(id); c.container = true; put_n(c.head, fourcc(type), 4); return c; }
	bytes enc_fmt(const fmt_m& f)
	{
		bytes o;
		put_n(o, f.compression, 2); put_n(o, f.channels, 2); put_n(o, f.rate, 4); put_n(o, f.bps, 4); put_n(o, f.align, 2); put_n(o, f.bits, 2);
		if (!f.extra.empty()) { put_n(o, f.extra.size(), 2); o.insert(o.end(), f.extra.begin(), f.extra.end()); }
		return o;
	}
	void enc_str(bytes& o, const std::string& s) { if (!s.empty()) { o.insert(o.end(), s.begin(), s.end()); o.push_back(0); } }
	bytes enc_cue_list(const std::vector<cue_m>& v) { bytes o; put_n(o, v.size(), 4); for (auto& c : v) for (auto f : c.f) put_n(o, f, 4); return o; }
	bytes enc_ltxt(const cue_m& c) { bytes o; put_n(o, c.f[0], 4); put_n(o, c.duration, 4); put_n(o, c.purpose, 4); for (auto w : c.w) put_n(o, w, 2); enc_str(o, c.description); return o; }
	bytes enc_text(const cue_m& c, const std::string& s) { bytes o; put_n(o, c.f[0], 4); enc_str(o, s); return o; }
	void add_cues(std::vector<chunk>& l, const std::vector<cue_m>& v)
	{
		l.push_back(leaf("cue ", enc_cue_list(v)));
		l.back().cues = true;
		chunk a = box("LIST", "adtl");
		for (auto& c : v) {
			a.sub.push_back(leaf("ltxt", enc_ltxt(c)));
			if (!c.title.empty()) a.sub.push_back(leaf("labl", enc_text(c, c.title)));
			if (!c.note.empty()) a.sub.push_back(leaf("note", enc_text(c, c.note)));
		}
		l.push_back(a);
		l.back().cues = true;
	}
	bytes some(uint32_t n) { bytes b(n); for (auto& x : b) x = (uint8_t)rnd(); return b; }
	fmt_m make_fmt()
	{
		fmt_m f;
		f.compression = (uint16_t)rnd(); f.channels = (uint16_t)rnd(); f.rate = rnd(); f.bps = rnd(); f.align = (uint16_t)rnd(); f.bits = (uint16_t)rnd();
		if (choose(2)) f.extra = some(choose(4) ? choose(30) : choose(5) ? choose(600) : 65535);
		return f;
	}
	std::vector<cue_m> make_cues()
	{
		std::vector<cue_m> v(choose(4) ? choose(6) : choose(30));
		bool sorted = choose(2);
		uint32_t id = choose(2) ? 1 : rnd();
		for (auto& c : v) {
			for (auto& f : c.f) f = rnd();
			id += 1 + (choose(4) ? 0 : choose(1000));
			c.f[0] = id;
			c.duration = rnd(); c.purpose = rnd();
			for (auto& w : c.w) w = (uint16_t)rnd();
			c.description = text(); c.title = text(); c.note = text();
		}
		if (!sorted) for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[choose((uint32_t)i)]);
		return v;
	}
	bytes make_samples() { uint32_t n = choose(4) ? choose(3000) : choose(4) ? choose(3) : 65536 * 2 + choose(9) - 4; bytes b(n); uint64_t s = choose(16); for (size_t i = 0; i < n; ++i) b[i] = pat(s, i); return b; }
	chunk make_other(unsigned depth)
	{
		switch (choose(depth ? 9 : 7)) {
		case 0: return leaf("fact", some(4));
		case 1: return leaf("JUNK", some(choose(40)));
		case 2: return leaf("PAD ", some(choose(3)));
		case 3: return leaf("bext", some(choose(700)));
		case 4: return leaf("ICRD", some(10));
		case 5: return leaf("ISFT", some(choose(30)));
		case 6: return leaf("smpl", some(choose(50)));
		default: {
			static const char* types[] = { "INFO", "wavl", "adtl", "exif" };
			chunk c = box("LIST", types[choose(4)]);
			if (c.head[0] == 'a') { if (choose(2)) c.sub.push_back(leaf("file", some(8 + choose(9)))); return c; }
			for (uint32_t n = choose(4); n; --n) c.sub.push_back(make_other(depth - 1));
			return c;
		}
		}
	}
	struct file_m {
		fmt_m f; bytes samples; std::vector<cue_m> cues;
		chunk riff;
		std::vector<chunk> before;   // other RIFF blocks
		bytes all;
	};
	void make(file_m& m, bool others)
	{
		g_serial = 0;
		m.f = make_fmt(); m.samples = make_samples(); m.cues = make_cues();
		if (others && !choose(4)) { chunk c = box("RIFF", "AVI "); c.sub.push_back(make_other(1)); m.before.push_back(c); }
		if (others && !choose(6)) m.before.push_back(leaf("xyzw", some(choose(5))));
		m.riff = box("RIFF", "WAVE");
		auto& l = m.riff.sub;
		l.push_back(leaf("fmt ", enc_fmt(m.f)));
		while (others && !choose(3)) l.push_back(make_other(1));
		bool cues_first = !choose(3);
		if (cues_first) add_cues(l, m.cues);
		while (others && !choose(3)) l.push_back(make_other(1));
		l.push_back(leaf("data", m.samples));
		while (others && !choose(3)) l.push_back(make_other(1));
		if (!cues_first) add_cues(l, m.cues);
		while (others && !choose(3)) l.push_back(make_other(2));
		for (auto& c : m.before) enc(m.all, c);
		enc(m.all, m.riff);
	}
	// The same content laid out the way others write it
	void rearrange(file_m& m)
	{
		std::vector<chunk> l;
		for (auto& c : m.riff.sub) {
			if (c.cues && !c.container && !choose(2)) { bytes x = some(choose(12)); c.body.insert(c.body.end(), x.begin(), x.end()); }
			if (c.cues && c.container && !choose(2)) {
				// its data in several lists
				chunk a = box("LIST", "adtl");
				for (auto& s : c.sub) {
					a.sub.push_back(s);
					if (!choose(3)) { l.push_back(a); a.sub.clear(); if (!choose(3)) l.push_back(make_other(0)); }
				}
				l.push_back(a);
				continue;
			}
			if (c.cues && !c.container && !m.cues.empty() && !choose(2)) {
				// what looks like data of cues in a list of another kind
				chunk o = box("LIST", "xtra"), a = box("LIST", "adtl");
				cue_m x = m.cues[choose((uint32_t)m.cues.size())];
				x.duration ^= 1; x.title += "?"; x.note += "?";
				a.sub.push_back(leaf("ltxt", enc_ltxt(x)));
				a.sub.push_back(leaf("labl", enc_text(x, x.title)));
				a.sub.push_back(leaf("note", enc_text(x, x.note)));
				o.sub.push_back(a);
				if (choose(2)) { l.push_back(o); l.push_back(c); }
				else { l.push_back(c); l.push_back(o); }
				continue;
			}
			l.push_back(c);
		}
		m.riff.sub = l;
		m.all.clear();
		for (auto& c : m.before) enc(m.all, c);
		enc(m.all, m.riff);
	}
	wav::format to_format(const fmt_m& f)
	{
		wav::format r;
		r.compression = (wav::format::compression_t)f.compression; r.num_channels = f.channels; r.sample_rate = f.rate; r.bytes_per_second = f.bps; r.block_align = f.align; r.bits_per_channel = f.bits;
		if (!f.extra.empty()) { r.extra.write(f.extra.data(), f.extra.size()); if (!r.extra.ok()) throw std::bad_alloc(); }
		return r;
	}
	void to_data(wav::data& d, const bytes& s) { if (!s.empty()) { d.content.write(s.data(), s.size()); if (!d.content.ok()) throw std::bad_alloc(); } }
	wav::cue_ex_vector to_cues(const std::vector<cue_m>& v)
	{
		wav::cue_ex_vector r(v.size());
		for (size_t i = 0; i < v.size(); ++i) {
			r[i].id = v[i].f[0]; r[i].position = v[i].f[1]; r[i].chunk_id = v[i].f[2]; r[i].chunk_offset = v[i].f[3]; r[i].block_start = v[i].f[4]; r[i].block_offset = v[i].f[5];
			r[i].duration = v[i].duration; r[i].purpose_id = v[i].purpose; r[i].country = v[i].w[0]; r[i].language = v[i].w[1]; r[i].dialect = v[i].w[2]; r[i].charset = v[i].w[3];
			r[i].description = v[i].description; r[i].title = v[i].title; r[i].note = v[i].note;
		}
		return r;
	}
	bool same_cue(const wav::cue& a, const cue_m& b) { return a.id == b.f[0] && a.position == b.f[1] && a.chunk_id == b.f[2] && a.chunk_offset == b.f[3] && a.block_start == b.f[4] && a.block_offset == b.f[5]; }
	bool same_mem(const memory_file& m, const bytes& b) { return m.size() == b.size() && (b.empty() || !memcmp(m.data(), b.data(), b.size())); }
	void check_fmt(const wav::format& r, const fmt_m& f)
	{
		SIM_CHECK((uint16_t)r.compression == f.compression && r.num_channels == f.channels && r.sample_rate == f.rate && r.bytes_per_second == f.bps && r.block_align == f.align && r.bits_per_channel == f.bits, "format", "the format read back is not the written one");
		SIM_CHECK(same_mem(r.extra, f.extra), "format", "%llu bytes of additional format data are read back, %zu were written", (unsigned long long)r.extra.size(), f.extra.size());
	}
	void check_cues(const wav::cue_ex_vector& r, std::vector<cue_m> v, bool sorted)
	{
		SIM_CHECK(r.size() == v.size(), "cues", "%zu cues are read back, %zu were written", r.size(), v.size());
		if (sorted) std::sort(v.begin(), v.end(), [](const cue_m& a, const cue_m& b) { return a.f[0] < b.f[0]; });
		for (size_t i = 0; i < v.size(); ++i) {
			SIM_CHECK(same_cue(r[i], v[i]), "cues", "cue %zu of %zu read back is not the written one (id %u, %u)", i, v.size(), r[i].id, v[i].f[0]);
			SIM_CHECK(r[i].duration == v[i].duration && r[i].purpose_id == v[i].purpose && r[i].country == v[i].w[0] && r[i].language == v[i].w[1] && r[i].dialect == v[i].w[2] && r[i].charset == v[i].w[3], "cues", "duration, purpose or codes of cue %zu read back are not the written ones", i);
			SIM_CHECK(r[i].description == v[i].description, "cues", "the description of cue %zu has %zu characters instead of %zu, or others", i, r[i].description.size(), v[i].description.size());
			SIM_CHECK(r[i].title == v[i].title, "cues", "the title of cue %zu has %zu characters instead of %zu, or others", i, r[i].title.size(), v[i].title.size());
			SIM_CHECK(r[i].note == v[i].note, "cues", "the note of cue %zu has %zu characters instead of %zu, or others", i, r[i].note.size(), v[i].note.size());
		}
	}
	// Written by the code under test
	void write_chunk(basic_file& s, const chunk& c)
	{
		auto start = stdex::idrec::open<wav::id_t, wav::length_t>(s, c.id);
		if (!s.ok()) return;
		if (!c.head.empty()) s.write_array(c.head.data(), 1, c.head.size());
		if (!s.ok()) return;
		if (!c.body.empty()) s.write_array(c.body.data(), 1, c.body.size());
		for (auto& x : c.sub) { if (!s.ok()) return; write_chunk(s, x); }
		if (s.ok()) stdex::idrec::close<wav::id_t, wav::length_t, wav::align>(s, start);
	}
	void write_wav(basic_file& s, const file_m& m)
	{
		for (auto& c : m.before) { write_chunk(s, c); if (!s.ok()) return; }
		auto start = wav::header::record::open(s);
		wav::header h; h.type = wav::wave::record::id();
		s << h;
		if (!s.ok()) return;
		auto& l = m.riff.sub;
		for (size_t i = 0; i < l.size() && s.ok(); ++i) {
			if (l[i].id == fourcc("fmt ")) { wav::format f = to_format(m.f); s << wav::format::record(f); }
			else if (l[i].id == fourcc("data")) { wav::data d; to_data(d, m.samples); s << wav::data::record(d); }
			else if (l[i].cues) { wav::cue_ex_vector v = to_cues(m.cues); s << v; ++i; }
			else write_chunk(s, l[i]);
		}
		if (s.ok()) wav::header::record::close(s, start);
	}
	bool find_cue_list(basic_file& s, wav::cue_vector& v, pos_t end)
	{
		if (!wav::cue_vector_record::find(s, end)) return false;
		s >> wav::cue_vector_record(v);
		return s.ok();
	}
	// Everything is there: all must be found, or a failure reported when there may be one
	void read_wav(basic_file& s, const file_m& m, bool may_fail)
	{
		pos_t end = 0;
		pos_t limit = choose(2) ? (pos_t)m.all.size() : stdex::stream::fpos_max;
		bool ok = wav::find_content(s, limit, choose(2) ? &end : nullptr);
		if (may_fail && !ok) { SIM_CHECK(s.state() == state_t::fail, "state", "the content is not found and the state is %s", sname(s.state())); return; }
		SIM_CHECK(ok, "lost", "the content is not found (%s)", sname(s.state()));
		pos_t at = m.riff.data + 4;
		if (may_fail) simk::cfg.tell_works = true;
		SIM_CHECK(s.tell() == at, "position", "the content starts at %zu, the position is %llu", (size_t)at, (unsigned long long)s.tell());
		if (end) SIM_CHECK(end == m.riff.end, "position", "the end of the content is said to be at %llu, it is at %zu", (unsigned long long)end, m.riff.end);
		else end = choose(2) ? (pos_t)m.riff.end : stdex::stream::fpos_max;
		for (unsigned n = 3 + choose(3); n; --n) {
			switch (choose(4)) {
			case 0: {
				wav::format f;
				if (!choose(3)) f = to_format(make_fmt());
				ok = wav::read_first<wav::format>(s, f, end);
				if (may_fail && !ok) return;
				SIM_CHECK(ok, "lost", "the format is not found (%s)", sname(s.state()));
				check_fmt(f, m.f);
				break;
			}
			case 1: {
				wav::data d;
				if (!choose(3)) to_data(d, some(choose(50)));
				ok = wav::read_first<wav::data>(s, d, end);
				if (may_fail && !ok) return;
				SIM_CHECK(ok, "lost", "the samples are not found (%s)", sname(s.state()));
				SIM_CHECK(same_mem(d.content, m.samples), "samples", "%llu bytes of samples are read back, %zu were written, or others", (unsigned long long)d.content.size(), m.samples.size());
				break;
			}
			case 2: {
				wav::cue_ex_vector v;
				ok = wav::read_cues(s, v, end);
				if (may_fail && !ok) return;
				SIM_CHECK(ok, "lost", "reading the cues fails (%s)", sname(s.state()));
				SIM_CHECK(s.tell() == at, "position", "reading the cues moves from %zu to %llu", (size_t)at, (unsigned long long)s.tell());
				check_cues(v, m.cues, true);
				break;
			}
			default: {
				std::vector<wav::cue> v;
				if (!choose(3)) v.resize(choose(9));
				ok = find_cue_list(s, v, end);
				if (may_fail && !ok) return;
				SIM_CHECK(ok && v.size() == m.cues.size(), "cues", "%zu cues are read back, %zu were written (%s)", v.size(), m.cues.size(), sname(s.state()));
				for (size_t i = 0; i < v.size(); ++i) SIM_CHECK(same_cue(v[i], m.cues[i]), "cues", "cue %zu read back is not the written one", i);
			}
			}
			s.seekbeg(at);
			if (may_fail && !s.ok()) return;
		}
	}
	unsigned errs() { auto& k = simk::m; return k.write_errors + k.nospace + k.seek_errors + k.read_errors + k.trunc_errors; }
	std::unique_ptr<basic_file> open_file(const char* path, bool write)
	{
		int mode = mode_for_reading | mode_binary | (write ? mode_for_writing | mode_create : 0);
		std::unique_ptr<basic_file> f;
		if (choose(2)) f.reset(new file(path, mode));
		else f.reset(new cached_file(path, mode, 16 + choose(200)));
		return f;
	}

	void s_files()
	{
		file_m m;
		make(m, choose(3));
		set_step_limit(200000000);
		bytes got;
		if (!choose(2)) {
			memory_file f;
			write_wav(f, m);
			SIM_CHECK(f.ok(), "state", "writing to memory reports %s", sname(f.state()));
			got.assign((const uint8_t*)f.data(), (const uint8_t*)f.data() + f.size());
		}
		else {
			auto ino = simk::make_file("/r", {});
			bool reported = false;
			unsigned e = errs();
			try {
				auto f = open_file("/r", true);
				simk::cfg.short_write = choose(2) ? choose(900) : 0;
				static const uint32_t q[] = { 0, 0, 10, 80 };
				if (choose(2)) simk::cfg.write_error = q[choose(4)];
				if (!choose(4)) simk::cfg.seek_error = q[choose(4)];
				simk::cfg.tell_works = true;
				if (!choose(6)) simk::cfg.capacity = choose((uint32_t)m.all.size() + 9);
				write_wav(*f, m);
				if (!f->ok()) reported = true;
				f->flush();
				if (!f->ok()) reported = true;
				f->close();
				if (!f->ok()) reported = true;
			}
			catch (const std::exception&) { reported = true; }
			bool failed = errs() != e;
			simk::cfg = simk::config();
			ev("%zu bytes written%s", ino->data.size(), reported ? ", failure reported" : "");
			if (reported) { SIM_CHECK(failed, "state", "a failure is reported without a reason"); return; }
			got = ino->data;
		}
		SIM_CHECK(got.size() == m.all.size(), "encoding", "the file has %zu bytes, not %zu", got.size(), m.all.size());
		for (size_t i = 0; i < got.size(); ++i) SIM_CHECK(got[i] == m.all[i], "encoding", "the file differs at byte %zu: %u, not %u", i, got[i], m.all[i]);
		if (!choose(3)) { rearrange(m); got = m.all; }
		if (choose(2)) {
			memory_file f(got.data(), got.size(), got.size());
			read_wav(f, m, false);
		}
		else {
			simk::make_file("/q", got);
			auto f = open_file("/q", false);
			simk::cfg.short_read = choose(2) ? choose(900) : 0;
			static const uint32_t q[] = { 0, 0, 5, 50 };
			if (choose(2)) simk::cfg.read_error = q[choose(4)];
			if (!choose(4)) simk::cfg.seek_error = q[choose(4)];
			simk::cfg.tell_works = true;
			bool may = simk::cfg.read_error || simk::cfg.seek_error;
			read_wav(*f, m, may);
			simk::cfg = simk::config();
		}
		state(m.all.size() * 31 + m.cues.size());
	}
	struct pipe_out : basic { // not seekable
		peer::sink& u;
		pipe_out(peer::sink& x) : basic(state_t::ok), u(x) {}
		size_t write(const void* d, size_t n) override { size_t r = u.write(d, n); m_state = u.state(); return r; }
	};
	struct pipe_in : basic {
		peer::source& u;
		pipe_in(peer::source& x) : basic(state_t::ok), u(x) {}
		size_t read(void* d, size_t n) override { size_t r = u.read(d, n); m_state = u.state(); return r; }
	};
	// Records one after the other through a stream that splits the bytes; memory may be short
	void s_pipes()
	{
		g_serial = 0;
		fmt_m f = make_fmt();
		bytes samples = make_samples();
		std::vector<cue_m> cues = make_cues();
		uint32_t silent = rnd();
		if (cues.empty() || !choose(3)) cues.resize(1 + choose(3000), cues.empty() ? cue_m() : cues[0]);
		std::vector<chunk> l;
		l.push_back(leaf("fmt ", enc_fmt(f)));
		l.push_back(leaf("data", samples));
		bytes b; put_n(b, silent, 4);
		l.push_back(leaf("slnt", b));
		l.push_back(leaf("cue ", enc_cue_list(cues)));
		for (size_t i = 0; i < 3 && i < cues.size(); ++i) { l.push_back(leaf("ltxt", enc_ltxt(cues[i]))); l.push_back(leaf("labl", enc_text(cues[i], cues[i].title))); l.push_back(leaf("note", enc_text(cues[i], cues[i].note))); }
		for (size_t i = l.size(); i > 1; --i) std::swap(l[i - 1], l[choose((uint32_t)i)]);
		bytes want;
		for (auto& c : l) enc(want, c);
		auto who = [&](const chunk& c) -> const cue_m& { uint32_t id = 0; memcpy(&id, c.body.data(), 4); for (auto& x : cues) if (x.f[0] == id) return x; harness_error("cue"); };
		peer::sink u;
		u.o.preemptible = false;
		if (!choose(3)) { u.o.fail_at = choose((uint32_t)want.size() + 1); u.o.transient = choose(2); u.o.late = choose(2); }
		if (!choose(4)) u.o.p_short = choose(300);
		pipe_out p(u);
		bool reported = false, fired;
		{
			alloc_faults_malloc_only = choose(2);
			wav::format wf = to_format(f);
			wav::data wd; to_data(wd, samples);
			wav::silence ws; ws.num_samples = silent;
			wav::cue_vector wc(cues.size());
			for (size_t i = 0; i < cues.size(); ++i) memcpy(&wc[i], cues[i].f, 24);
			alloc_faults af(choose(4) ? 0 : 100, 1000);
			for (auto& c : l) {
				try {
					if (c.id == fourcc("fmt ")) p << wav::format::record(wf);
					else if (c.id == fourcc("data")) p << wav::data::record(wd);
					else if (c.id == fourcc("slnt")) p << wav::silence::record(ws);
					else if (c.id == fourcc("cue ")) p << wav::cue_vector_record(wc);
					else if (c.id == fourcc("ltxt")) { const cue_m& x = who(c); wav::ltxt t; t.id = x.f[0]; t.duration = x.duration; t.purpose_id = x.purpose; t.country = x.w[0]; t.language = x.w[1]; t.dialect = x.w[2]; t.charset = x.w[3]; t.description = x.description; p << wav::ltxt::record(t); }
					else if (c.id == fourcc("labl")) { const cue_m& x = who(c); wav::label t; t.id = x.f[0]; t.title = x.title; p << wav::label::record(t); }
					else { const cue_m& x = who(c); wav::note t; t.id = x.f[0]; t.note = x.note; p << wav::note::record(t); }
				}
				catch (const std::bad_alloc&) { reported = true; }
				if (!p.ok()) reported = true;
				if (reported) break;
				SIM_CHECK(u.got.size() == c.next, "short_write", "%zu bytes are written instead of %zu and no failure is reported", u.got.size(), c.next);
			}
			fired = af.fired();
		}
		SIM_CHECK(!reported || u.failures || fired || u.o.p_short, "state", "a failure is reported without a reason");
		if (!reported) SIM_CHECK(u.got == want, "encoding", "the records take %zu bytes instead of %zu, or others", u.got.size(), want.size());
		peer::source v;
		v.o.preemptible = false;
		size_t limit = want.size();
		if (choose(2)) limit = choose((uint32_t)want.size() + 1);
		v.data.assign(want.begin(), want.begin() + limit);
		if (!choose(3)) { v.o.fail_at = choose((uint32_t)limit + 1); limit = (size_t)v.o.fail_at; v.o.transient = choose(2); }
		v.o.p_short = choose(2) ? choose(900) : 0;
		pipe_in s(v);
		set_step_limit(200000000);
		alloc_faults_malloc_only = choose(2);
		uint32_t af = choose(3) ? 0 : 60;
		for (auto& c : l) {
			wav::id_t id = 0;
			s >> id;
			if (!s.ok()) { SIM_CHECK(c.start + 4 > limit, "state", "an identifier is not read: %s", sname(s.state())); break; }
			SIM_CHECK(id == c.id && c.start + 4 <= limit, "position", "a record does not start where the previous one ended");
			wav::format f2; wav::data d2; wav::silence s2; wav::cue_vector v2; wav::ltxt t2; wav::label l2; wav::note n2;
			if (!choose(3)) { f2 = to_format(make_fmt()); to_data(d2, some(choose(90))); s2.num_samples = 7; v2.resize(choose(9)); t2.description = "x"; l2.title = text(); n2.note = text(); }
			uint64_t fired_here;
			bool short_of_memory = false;
			{
				alloc_faults q(af, 1000);
				try {
					if (id == fourcc("fmt ")) s >> wav::format::record(f2);
					else if (id == fourcc("data")) s >> wav::data::record(d2);
					else if (id == fourcc("slnt")) s >> wav::silence::record(s2);
					else if (id == fourcc("cue ")) s >> wav::cue_vector_record(v2);
					else if (id == fourcc("ltxt")) s >> wav::ltxt::record(t2);
					else if (id == fourcc("labl")) s >> wav::label::record(l2);
					else s >> wav::note::record(n2);
				}
				catch (const std::bad_alloc&) { short_of_memory = true; }
				fired_here = q.fired();
			}
			if (short_of_memory) { SIM_CHECK(fired_here, "state", "reading a record runs out of memory without a reason"); break; }
			if (c.next > limit) {
				SIM_CHECK(!s.ok(), "truncated", "a record that the input ends within is read as if it was complete");
				if (id == fourcc("data") && c.data <= limit) SIM_CHECK(d2.content.size() <= samples.size() && (!d2.content.size() || !memcmp(d2.content.data(), samples.data(), (size_t)d2.content.size())), "samples", "samples that were not written are read");
				break;
			}
			if (!s.ok()) { SIM_CHECK(fired_here, "state", "reading a complete record reports %s", sname(s.state())); break; }
			SIM_CHECK(v.pos == c.next, "position", "after the record the position is %zu, not %zu", v.pos, c.next);
			if (id == fourcc("fmt ")) check_fmt(f2, f);
			else if (id == fourcc("data")) SIM_CHECK(same_mem(d2.content, samples), "samples", "%llu bytes of samples are read back, %zu were written, or others", (unsigned long long)d2.content.size(), samples.size());
			else if (id == fourcc("slnt")) SIM_CHECK(s2.num_samples == silent, "samples", "the silence read back is not the written one");
			else if (id == fourcc("cue ")) {
				SIM_CHECK(v2.size() == cues.size(), "cues", "%zu cues are read back, %zu were written", v2.size(), cues.size());
				for (size_t i = 0; i < v2.size(); ++i) SIM_CHECK(same_cue(v2[i], cues[i]), "cues", "cue %zu read back is not the written one", i);
			}
			else if (id == fourcc("ltxt")) { const cue_m& x = who(c); SIM_CHECK(t2.id == x.f[0] && t2.duration == x.duration && t2.purpose_id == x.purpose && t2.country == x.w[0] && t2.language == x.w[1] && t2.dialect == x.w[2] && t2.charset == x.w[3] && t2.description == x.description, "cues", "a labeled text read back is not the written one"); }
			else if (id == fourcc("labl")) { const cue_m& x = who(c); SIM_CHECK(l2.id == x.f[0] && l2.title == x.title, "cues", "a label read back is not the written one"); }
			else { const cue_m& x = who(c); SIM_CHECK(n2.id == x.f[0] && n2.note == x.note, "cues", "a note read back is not the written one"); }
		}
		alloc_faults_malloc_only = false;
		state(want.size() * 5 + limit);
	}
	bool prefix(const std::string& a, const std::string& b) { return a.size() <= b.size() && !b.compare(0, a.size(), a); }
	// The file ends early: an error, or the beginning of what was written
	void s_truncated()
	{
		file_m m;
		make(m, choose(2));
		size_t limit = choose(2) ? choose((uint32_t)m.all.size() + 1) : m.all.size() - choose((uint32_t)(m.all.size() < 300 ? m.all.size() : 300));
		bytes in(m.all.begin(), m.all.begin() + limit);
		set_step_limit(100000000);
		std::unique_ptr<basic_file> f;
		if (choose(2)) f.reset(new memory_file(in.data(), in.size(), in.size()));
		else { simk::make_file("/t", in); f = open_file("/t", false); }
		pos_t end = stdex::stream::fpos_max;
		if (!wav::find_content(*f, choose(2) ? (pos_t)m.all.size() : stdex::stream::fpos_max, choose(2) ? &end : nullptr)) {
			SIM_CHECK(limit < m.riff.data + 4, "lost", "the content is there and not found");
			SIM_CHECK(f->state() != state_t::ok || f->tell() >= m.all.size(), "state", "the content is not found and the state is ok");
			return;
		}
		SIM_CHECK(limit >= m.riff.data + 4, "presented", "content is found that is not there");
		pos_t at = f->tell();
		for (unsigned n = 1 + choose(4); n; --n) {
			switch (choose(3)) {
			case 0: {
				wav::format x;
				const chunk* c = nullptr;
				for (auto& s : m.riff.sub) if (s.id == fourcc("fmt ")) c = &s;
				bool ok = wav::read_first<wav::format>(*f, x, end);
				SIM_CHECK(ok == (c->end <= limit) || (!ok && c->next > limit) || (ok && c->end <= limit), "truncated", "reading a format of which %s is there returns %d", c->end <= limit ? "all" : "a part", ok);
				if (ok) check_fmt(x, m.f);
				break;
			}
			case 1: {
				wav::data d;
				const chunk* c = nullptr;
				for (auto& s : m.riff.sub) if (s.id == fourcc("data")) c = &s;
				bool ok = wav::read_first<wav::data>(*f, d, end);
				if (ok) SIM_CHECK(same_mem(d.content, m.samples), "truncated", "%llu of %zu bytes of samples are read from a truncated file and no error is reported", (unsigned long long)d.content.size(), m.samples.size());
				else SIM_CHECK(c->next > limit && d.content.size() <= m.samples.size() && (!d.content.size() || !memcmp(d.content.data(), m.samples.data(), (size_t)d.content.size())), "samples", "samples that were not written are read, or complete samples are not (%s)", sname(f->state()));
				break;
			}
			default: {
				wav::cue_ex_vector v;
				bool ok = wav::read_cues(*f, v, end);
				if (!ok) { SIM_CHECK(limit < m.riff.next, "lost", "cues are not read"); break; }
				SIM_CHECK(f->tell() == at, "position", "reading the cues moves from %llu to %llu", (unsigned long long)at, (unsigned long long)f->tell());
				SIM_CHECK(v.size() <= m.cues.size(), "cues", "%zu cues are read, %zu were written", v.size(), m.cues.size());
				for (auto& c : v) {
					const cue_m* x = nullptr;
					for (size_t i = 0; i < v.size(); ++i) if (m.cues[i].f[0] == c.id) x = &m.cues[i]; // of the first ones only
					SIM_CHECK(x && same_cue(c, *x), "cues", "a cue is read that was not written");
					SIM_CHECK(prefix(c.description, x->description) && prefix(c.title, x->title) && prefix(c.note, x->note), "cues", "a text is read that was not written");
					SIM_CHECK((c.duration == x->duration || !c.duration) && (c.charset == x->w[3] || !c.charset), "cues", "a duration is read that was not written");
				}
				size_t whole = 0;
				for (auto& s : m.riff.sub) if (s.id == fourcc("cue ")) whole = limit >= s.data + 4 ? (std::min(limit, s.end) - s.data - 4) / 24 : 0;
				SIM_CHECK(v.size() == whole, "cues", "%zu cues are read, %zu are there", v.size(), whole);
			}
			}
			f->seekbeg(at);
		}
		state(limit);
	}
	// Any bytes: it ends, with memory in proportion
	void s_damaged()
	{
		file_m m;
		make(m, choose(2));
		bytes in = m.all;
		if (choose(2)) in.resize(choose((uint32_t)in.size() + 1));
		std::vector<size_t> sizes; // positions of size fields and counts
		std::vector<const chunk*> todo{ &m.riff };
		for (size_t i = 0; i < todo.size(); ++i) { sizes.push_back(todo[i]->start + 4); if (todo[i]->id == fourcc("cue ")) sizes.push_back(todo[i]->data); for (auto& s : todo[i]->sub) todo.push_back(&s); }
		for (uint32_t n = 1 + choose(4); n && !in.empty(); --n) {
			if (choose(2)) { in[choose((uint32_t)in.size())] = (uint8_t)choose(256); continue; }
			size_t at = sizes[choose((uint32_t)sizes.size())];
			if (at + 4 > in.size()) continue;
			static const uint32_t edge[] = { 0, 1, 2, 3, 4, 5, 7, 8, 12, UINT32_MAX, UINT32_MAX - 1, 0x80000000, 0x7fffffff, 0x10000000 };
			uint32_t x = choose(3) ? edge[choose(14)] : choose((uint32_t)in.size() * 2);
			memcpy(in.data() + at, &x, 4);
		}
		if (!choose(4)) { // containers in containers, ends that overlap
			in.clear();
			for (uint32_t n = 1 + choose(choose(3) ? 60 : 3000); n; --n) { put_n(in, fourcc(choose(4) ? "LIST" : choose(2) ? "RIFF" : "note"), 4); put_n(in, choose(3) ? 4 + choose(60) : 0x7fffff00 + choose(255), 4); if (choose(9)) put_n(in, fourcc(choose(2) ? "adtl" : "WAVE"), 4); }
		}
		if (in.size() > 20000) in.resize(20000);
		set_step_limit(100000000);
		bytes copy = in;
		memory_file f(copy.data(), copy.size(), copy.size());
		heap_track h;
		uint64_t bound = in.size() * 40 + 4 * 65536 + 1000;
		for (unsigned n = 1 + choose(4); n; --n) {
			f.seek(0);
			pos_t end = stdex::stream::fpos_max;
			if (choose(2)) if (!wav::find_content(f, choose(2) ? (pos_t)in.size() : stdex::stream::fpos_max, &end)) f.seek(0);
			if (choose(2)) end = choose(2) ? (pos_t)in.size() : stdex::stream::fpos_max;
			switch (choose(5)) {
			case 0: { wav::format x; wav::read_first<wav::format>(f, x, end); break; }
			case 1: { wav::data x; wav::read_first<wav::data>(f, x, end); SIM_CHECK(x.content.size() <= in.size(), "presented", "%llu bytes of samples are read from %zu bytes", (unsigned long long)x.content.size(), in.size()); break; }
			case 2: { wav::cue_vector x; find_cue_list(f, x, end); SIM_CHECK(x.size() * 24 <= in.size(), "presented", "%zu cues are read from %zu bytes", x.size(), in.size()); break; }
			case 3: { wav::cue_ex_vector x; wav::read_cues(f, x, end); SIM_CHECK(x.size() * 24 <= in.size(), "presented", "%zu cues are read from %zu bytes", x.size(), in.size()); break; }
			default: {
				memory_file g;
				wav::remove_cues(f, g, end);
				SIM_CHECK(g.size() <= in.size() * 2 + 16, "presented", "removing the cues turns %zu bytes into %llu", in.size(), (unsigned long long)g.size());
			}
			}
			SIM_CHECK(heap_max() <= bound, "memory", "%llu bytes of memory are asked for to read %zu bytes", (unsigned long long)heap_max(), in.size());
			SIM_CHECK(copy == in, "damage", "reading changes the input");
		}
		state(in.size());
	}
	// Removing the cues keeps everything else
	bool is_cue(const chunk& c) { return c.id == fourcc("cue ") || c.id == fourcc("ltxt") || c.id == fourcc("labl") || c.id == fourcc("note"); }
	bool strip(chunk& c)
	{
		if (is_cue(c)) return false;
		if (!c.container) return true;
		std::vector<chunk> l;
		for (auto& s : c.sub) if (strip(s)) l.push_back(s);
		c.sub.swap(l);
		return !c.sub.empty();
	}
	void s_remove()
	{
		file_m m;
		make(m, choose(4));
		bytes want;
		{
			std::vector<chunk> l = m.before;
			l.push_back(m.riff);
			for (auto& c : l) if (strip(c)) enc(want, c);
		}
		set_step_limit(200000000);
		bytes in = m.all;
		simk::make_file("/in", in);
		auto ino = simk::make_file("/out", choose(2) ? bytes() : some(choose(500)));
		unsigned e = errs();
		bool reported = false;
		bytes got;
		if (choose(2)) {
			memory_file f(in.data(), in.size(), in.size()), g;
			if (choose(2)) { bytes old = some(choose(500)); g.write(old.data(), old.size()); g.seek(0); }
			bool ok = wav::remove_cues(f, g, choose(2) ? (pos_t)in.size() : stdex::stream::fpos_max);
			SIM_CHECK(ok, "state", "removing the cues fails (%s, %s)", sname(f.state()), sname(g.state()));
			got.assign((const uint8_t*)g.data(), (const uint8_t*)g.data() + g.size());
		}
		else {
			try {
				auto f = open_file("/in", false);
				auto g = open_file("/out", true);
				simk::cfg.short_write = choose(2) ? choose(900) : 0;
				simk::cfg.short_read = choose(2) ? choose(900) : 0;
				static const uint32_t q[] = { 0, 0, 5, 50 };
				if (choose(2)) simk::cfg.write_error = q[choose(4)];
				if (choose(2)) simk::cfg.read_error = q[choose(4)];
				if (!choose(4)) simk::cfg.seek_error = q[choose(4)];
				if (!choose(4)) simk::cfg.truncate_error = 300;
				simk::cfg.tell_works = true;
				if (!choose(6)) simk::cfg.capacity = in.size() + choose((uint32_t)want.size() + 9);
				if (!wav::remove_cues(*f, *g, choose(2) ? (pos_t)in.size() : stdex::stream::fpos_max)) reported = true;
				g->flush();
				if (!g->ok()) reported = true;
				g->close(); // may throw; the destructor would inside of unique_ptr's
				if (!g->ok()) reported = true;
			}
			catch (const std::exception&) { reported = true; }
			bool failed = errs() != e;
			simk::cfg = simk::config();
			if (reported) { SIM_CHECK(failed, "state", "a failure is reported without a reason"); return; }
			got = ino->data;
		}
		SIM_CHECK(got.size() == want.size(), "removed", "without cues %zu bytes are %zu, not %zu", in.size(), got.size(), want.size());
		for (size_t i = 0; i < got.size(); ++i) SIM_CHECK(got[i] == want[i], "removed", "without cues the file differs at byte %zu: %u, not %u", i, got[i], want[i]);
		state(want.size() * 7 + in.size());
	}
}
SIM_SCENARIOS("C26", { "files", 4, s_files }, { "pipes", 3, s_pipes }, { "truncated", 2, s_truncated }, { "damaged", 2, s_damaged }, { "remove", 3, s_remove })
