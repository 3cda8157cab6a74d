// SIM: plain
// C22: Base64 and hex: encoding then decoding in any pieces is the identity.
#include <stdex/base64.hpp>
#include <stdex/hex.hpp>
#include "peer.h"
#include "simk.h"
#include <string.h>
#include <string>
#include <vector>
using namespace sim;
using namespace stdex;
using namespace stdex::stream;

namespace
{
	const char* sname(state_t s) { return s == state_t::ok ? "ok" : s == state_t::eof ? "eof" : "fail"; }
	std::vector<uint8_t> content(size_t max)
	{
		std::vector<uint8_t> d(size((uint32_t)max));
		unsigned kind = choose(4);
		for (size_t i = 0; i < d.size(); ++i) d[i] = kind == 0 ? pat(31, i) : kind == 1 ? 0 : kind == 2 ? 0xff : (uint8_t)i;
		return d;
	}
	// RFC 4648, written from the standard: 24 bit groups
	std::string model(const std::vector<uint8_t>& d, size_t max_blocks = SIZE_MAX)
	{
		static const char* al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
		std::string o;
		size_t blocks = 0;
		for (size_t i = 0; i < d.size(); i += 3, ++blocks) {
			if (max_blocks != SIZE_MAX && (max_blocks ? blocks && blocks % max_blocks == 0 : true)) o += '\n';
			uint32_t v = d[i] << 16 | (i + 1 < d.size() ? d[i + 1] << 8 : 0) | (i + 2 < d.size() ? d[i + 2] : 0);
			for (unsigned k = 0; k < 4; ++k) o += k <= d.size() - i ? al[v >> (18 - 6 * k) & 63] : '=';
		}
		return o;
	}
	// Blanks and line breaks anywhere
	std::string littered(const std::string& s)
	{
		std::string o;
		uint32_t p = choose(4) ? choose(300) : 0;
		for (char c : s) { while (chance(p, 1000)) o += " \r\n\t-"[choose(5)]; o += c; }
		return o;
	}
	std::vector<uint8_t> bytes(const std::string& s) { return std::vector<uint8_t>(s.begin(), s.end()); }

	void s_base64_session()
	{
		base64_enc e;
		base64_dec q;
		for (unsigned round = 0; round < 2; ++round) {
			auto d = content(choose(4) ? 40 : 2000);
			std::string txt = round ? "x" : "", pre = txt;
			if (!choose(4)) { std::string junk; e.encode(junk, "ab", choose(3), false); e.clear(); }
			size_t at = 0;
			do {
				size_t n = choose(3) ? choose((uint32_t)(d.size() - at) + 1) : d.size() - at;
				size_t max = e.enc_size(n), old = txt.size();
				std::vector<uint8_t> piece(d.begin() + at, d.begin() + at + n);
				at += n;
				bool last = at == d.size() && choose(2);
				e.encode(txt, piece.data(), n, last);
				SIM_CHECK(txt.size() - old <= max, "bound", "%zu characters for %zu bytes, at most %zu were promised", txt.size() - old, n, max);
				if (last) break;
				if (at == d.size() && !choose(3)) { e.encode(txt, nullptr, 0, true); break; }
			} while (1);
			SIM_CHECK(txt == pre + model(d), "encode", "%zu bytes encoded in pieces differ from the standard encoding", d.size());
			std::string in = littered(txt.substr(pre.size()));
			std::vector<uint8_t> out;
			if (!choose(4)) { bool l; std::vector<uint8_t> junk; q.decode(junk, l, "QUJ", choose(4)); q.clear(); }
			bool is_last = false;
			if (d.size() % 3 && !choose(4)) in += "QUJDREVG"; // what follows the end of data is not data
			for (at = 0; at < in.size() && !is_last;) {
				size_t n = choose(3) ? choose((uint32_t)(in.size() - at) + 1) : in.size() - at;
				size_t max = q.dec_size(n), old = out.size();
				std::string piece(in.substr(at, n));
				at += n;
				if (choose(3)) q.decode(out, is_last, piece.data(), piece.size());
				else { std::wstring w; for (char c : piece) { while (choose(20) == 1) w += (wchar_t)(0x100 * (1 + choose(40)) + "AB+/=z"[choose(6)]); w += (wchar_t)c; } max = q.dec_size(w.size()); w += L'\0'; w += L"QUJD"; q.decode(out, is_last, w.data(), w.size()); }
				SIM_CHECK(out.size() - old <= max, "bound", "%zu bytes for %zu characters, at most %zu were promised", out.size() - old, n, max);
			}
			SIM_CHECK(out == d, "decode", "%zu bytes decoded in pieces are not the %zu encoded ones", out.size(), d.size());
			SIM_CHECK(is_last == (d.size() % 3 != 0), "last", "padding of %zu bytes: the last block is %srecognised", d.size(), is_last ? "" : "not ");
			state(d.size() * 7 + in.size());
			q.clear();
			ev("%zu bytes", d.size());
		}
	}
	void s_hex_session()
	{
		hex_enc e;
		hex_dec q;
		auto d = content(choose(4) ? 40 : 2000);
		std::string txt, want;
		static const char* al = "0123456789ABCDEF";
		for (uint8_t b : d) { want += al[b >> 4]; want += al[b & 15]; }
		for (size_t at = 0; at < d.size();) {
			size_t n = choose((uint32_t)(d.size() - at) + 1);
			std::vector<uint8_t> piece(d.begin() + at, d.begin() + at + n);
			e.encode(txt, piece.data(), n);
			at += n;
			if (choose(4) == 0) { std::wstring w; e.encode(w, piece.data(), n); SIM_CHECK(w.size() == e.enc_size(n), "bound", "length"); }
		}
		SIM_CHECK(txt == want, "encode", "hex encoding in pieces is wrong");
		std::string in = littered(txt);
		if (choose(2)) for (auto& c : in) if (choose(2)) c = (char)tolower(c);
		std::vector<uint8_t> out;
		if (!choose(4)) { bool l; std::vector<uint8_t> junk; q.decode(junk, l, "A", choose(2)); q.clear(); }
		size_t digits = 0;
		for (size_t at = 0; at < in.size();) {
			size_t n = choose(3) ? choose((uint32_t)(in.size() - at) + 1) : in.size() - at;
			std::string piece(in.substr(at, n));
			at += n;
			bool is_last, odd_behind = false;
			size_t max = q.dec_size(n), old = out.size();
			if (choose(3)) { // in a block of its own, ended by its length or by a zero with something behind
				bool zero = choose(2);
				std::unique_ptr<char[]> b(new char[n + zero * 2]);
				memcpy(b.get(), piece.data(), n);
				if (zero) { b[n] = 0; b[n + 1] = 'A'; }
				q.decode(out, is_last, b.get(), n + zero * 2);
			}
			else { std::wstring w; for (char c : piece) { w += (wchar_t)c; if (choose(20) == 1) { w += (wchar_t)(0x100 * (1 + choose(40)) + "AB09af"[choose(6)]); odd_behind = true; } else odd_behind = false; } max = q.dec_size(w.size()); q.decode(out, is_last, w.data(), w.size()); }
			SIM_CHECK(out.size() - old <= max, "bound", "%zu bytes for %zu characters, at most %zu were promised", out.size() - old, n, max);
			for (char c : piece) digits += isxdigit((unsigned char)c) != 0;
			if (!piece.empty() && isxdigit((unsigned char)piece.back()) && digits % 2 == 0 && !odd_behind) SIM_CHECK(is_last, "last", "a block that ends with a whole byte is called incomplete");
			SIM_CHECK(out.size() == digits / 2, "decode", "%zu bytes after %zu digits", out.size(), digits);
			if (digits % 2) SIM_CHECK(!is_last, "last", "a block is called complete in the middle of a byte");
		}
		SIM_CHECK(out == d, "decode", "hex decoding in pieces is not the original");
		state(d.size() * 11 + in.size());
	}
	void read_back(const std::string& text, const std::vector<uint8_t>& d)
	{
		peer::source u;
		u.o.preemptible = false;
		u.o.p_short = choose(2) ? choose(900) : 0;
		u.data = bytes(text);
		if (!choose(3)) { u.o.fail_at = choose((uint32_t)text.size() + 1); u.o.transient = choose(2); }
		base64_reader r(u);
		std::vector<uint8_t> out;
		bool whole = choose(2), resumed = false;
		for (;;) {
			size_t n = choose(3) ? 1 + choose(12) : 1 + choose(3000);
			std::vector<uint8_t> b(n + 1, 0xee);
			size_t k = whole ? r.read_array(b.data(), 1, n) : r.read(b.data(), n);
			SIM_CHECK(k <= n, "count", "read(%zu) returns %zu", n, k);
			SIM_CHECK(b[n] == 0xee, "overrun", "read writes behind the buffer");
			out.insert(out.end(), b.begin(), b.begin() + k);
			SIM_CHECK(out.size() <= d.size(), "content", "%zu bytes are read, the original has %zu", out.size(), d.size());
			SIM_CHECK(!memcmp(out.data(), d.data(), out.size()), "content", "the decoded bytes are not the original ones");
			if (!r.ok()) {
				if (!u.failed || !u.o.transient || resumed) break;
				// The failure was one of the moment: whoever clears it reads on without losing a character
				u.read(nullptr, 0);
				resumed = true;
				ev("read on after the failure at %zu", out.size());
				continue;
			}
			if (!choose(10)) { r.read(nullptr, 0); SIM_CHECK(r.ok(), "state", "a read of nothing reports %s", sname(r.state())); }
			SIM_CHECK(k, "progress", "a read returns nothing and reports ok");
		}
		ev("%zu of %zu bytes decoded, %s", out.size(), d.size(), sname(r.state()));
		if (!u.failed || resumed) {
			uint8_t b;
			SIM_CHECK(out.size() == d.size(), "short", "%zu of %zu bytes are followed by the end", out.size(), d.size());
			SIM_CHECK(!r.read(&b, 1) && r.state() == state_t::eof, "state", "after the end %s is reported", sname(r.state()));
		}
		else if (r.state() == state_t::eof && out.size() < d.size()) violation("failure_hidden", "the source failed after %zu of %zu bytes, the end is reported", out.size(), d.size());
		state(out.size() * 3 + u.reads);
	}
	void s_streams()
	{
		auto d = content(choose(4) ? 60 : 3000);
		static const size_t mb[] = { 19, SIZE_MAX, 1, 2, 0, 5 };
		size_t blocks = mb[choose(6)];
		peer::sink u;
		u.o.preemptible = false;
		if (!choose(3)) { u.o.fail_at = choose((uint32_t)(d.size() * 4 / 3) + 9); u.o.transient = choose(2); u.o.late = choose(2); }
		if (!choose(4)) u.o.p_short = 1 + choose(400);
		if (!choose(8)) u.o.fail_close = true;
		if (!choose(8)) u.o.fail_flush = true;
		bool reported = false, flushed_only = false, forced = false, closed = false;
		size_t at = 0;
		try {
			base64_writer w(u, blocks);
			while (at < d.size()) {
				size_t n = 1 + choose((uint32_t)(d.size() - at < 400 ? d.size() - at : 400));
				if (!choose(4)) n = d.size() - at;
				std::vector<uint8_t> copy(d.begin() + at, d.begin() + at + n);
				unsigned f = u.failures;
				size_t old = u.got.size();
				size_t r = w.write(copy.data(), n);
				SIM_CHECK(r <= n, "count", "write(%zu) returns %zu", n, r);
				SIM_CHECK(w.ok() ? r == n : w.state() == state_t::fail, "state", "write(%zu) returns %zu and reports %s", n, r, sname(w.state()));
				if (u.failures != f) SIM_CHECK(!w.ok(), "failure_hidden", "the sink failed in write(), ok is reported");
				if (!w.ok()) {
					reported = true;
					// what is reported as written is what the sink got and at most one block beyond it
					size_t got = (u.got.size() - old) / 4 * 3;
					if (blocks == SIZE_MAX)
						SIM_CHECK(r + 2 >= got && r <= got + 3, "count", "a failing write(%zu) reports %zu bytes written, the sink got the encoding of %zu", n, r, got);
					break;
				}
				at += n;
				if (!choose(8)) { w.write(nullptr, 0); SIM_CHECK(w.ok(), "state", "a write of nothing reports %s", sname(w.state())); }
				if (!choose(16)) { w.flush(); if (!w.ok()) { reported = true; flushed_only = true; } }
			}
			if (choose(2)) {
				w.close();
				ev("close -> %s", sname(w.state()));
				if (!w.ok()) reported = true;
				SIM_CHECK(u.closes == 1, "close", "the sink is closed %u times", u.closes);
				closed = true;
			}
			if (!choose(6)) { reported = forced = true; throw 1; }
		}
		catch (int) {}
		catch (const std::exception& e) {
			ev("thrown: %s", e.what());
			SIM_CHECK(!closed, "close", "close() told all there was to tell, the destructor throws \"%s\" on top", e.what());
			reported = true;
		}
		(void)flushed_only;
		ev("encoded %zu into %zu%s, %u failures", d.size(), u.got.size(), reported ? ", failure reported" : "", u.failures);
		if (u.failures) { SIM_CHECK(reported, "failure_hidden", "the sink failed, nobody says so"); return; }
		SIM_CHECK(!reported || forced || u.o.p_short, "state", "a failure is reported without a reason");
		if (reported) return;
		std::string txt(u.got.begin(), u.got.end());
		SIM_CHECK(txt == model(d, blocks), "encode", "%zu bytes in pieces are encoded as %zu characters other than the standard encoding", d.size(), txt.size());
		read_back(choose(3) ? txt : littered(txt), d);
	}
	// Intact text from elsewhere; arbitrary text never breaks anything
	void s_read()
	{
		if (choose(3)) {
			auto d = content(choose(4) ? 60 : 3000);
			static const size_t mb[] = { 19, SIZE_MAX, 1, 2 };
			read_back(littered(model(d, mb[choose(4)])), d);
			return;
		}
		peer::source u;
		u.o.preemptible = false;
		u.o.p_short = choose(900);
		u.data.resize(size(300));
		for (auto& c : u.data) c = choose(4) ? "ABZaz09+/==\n"[choose(12)] : (uint8_t)choose(256);
		size_t total = 0;
		base64_reader r(u);
		for (;;) {
			size_t n = 1 + choose(20);
			std::vector<uint8_t> b(n);
			size_t k = r.read(b.data(), n);
			SIM_CHECK(k <= n, "count", "read(%zu) returns %zu", n, k);
			total += k;
			if (!k || !r.ok()) break;
			SIM_CHECK(total <= u.data.size(), "content", "more bytes than characters are decoded");
		}
		SIM_CHECK(!r.ok(), "state", "reading arbitrary text never ends");
	}
}
SIM_SCENARIOS("C22", { "base64_session", 2, s_base64_session }, { "hex_session", 1, s_hex_session }, { "streams", 4, s_streams }, { "read", 2, s_read })
