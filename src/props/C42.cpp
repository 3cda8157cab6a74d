// SIM: plain
// C42: character sets: the result depends on the text only, not on its length, on how it arrives, on what the
// encoder converted or failed to convert before.
#include <string.h>
#include <stdex/unicode.hpp>
#include <stdex/stream.hpp>
#include "sim.h"
#include "peer.h"
#include <iconv.h>
#include <dlfcn.h>
#include <errno.h>
#include <memory>
#include <string>
#include <system_error>
#include <vector>
using namespace sim;
using stdex::charset_id;
using stdex::stream::state_t;

// The converters of the C library: counted, and sometimes there is none
static int g_open;
static unsigned g_open_fault, g_refused;
extern "C" iconv_t iconv_open(const char* to, const char* from)
{
	static auto f = (iconv_t(*)(const char*, const char*))dlsym(RTLD_NEXT, "iconv_open");
	if (g_open_fault && inject("no_converter", g_open_fault, 1000)) { ++g_refused; errno = choose(2) ? EMFILE : ENOMEM; return (iconv_t)-1; }
	auto h = f(to, from);
	if (h != (iconv_t)-1) ++g_open;
	return h;
}
extern "C" int iconv_close(iconv_t h)
{
	static auto f = (int(*)(iconv_t))dlsym(RTLD_NEXT, "iconv_close");
	SIM_CHECK(h != (iconv_t)-1, "closed", "a converter that there is none of is closed");
	--g_open;
	return f(h);
}

namespace
{
	struct converters {
		converters() { g_open = 0; g_refused = 0; g_open_fault = 0; }
		~converters() { g_open_fault = 0; }
		void check() { SIM_CHECK(!g_open, "leak", "%d converters are never closed", g_open); }
	};
	const char* sname(state_t s) { return s == state_t::ok ? "ok" : s == state_t::eof ? "eof" : "fail"; }
	typedef std::vector<uint32_t> text; // code points

	// --- the reference ---
	struct table { uint32_t of[256]; };
	const table& page(charset_id c)
	{
		static table t[3];
		static bool filled;
		if (!filled) {
			static const char* const names[] = { "CP1250", "CP1251", "CP1252" };
			for (int i = 0; i < 3; ++i) {
				iconv_t h = iconv_open("UTF-32LE", names[i]);
				if (h == (iconv_t)-1) harness_error("no character set tables");
				for (unsigned b = 0; b < 256; ++b) {
					char in = (char)b, * ip = &in;
					uint32_t out = 0;
					char* op = (char*)&out;
					size_t in_n = 1, out_n = 4;
					iconv(h, nullptr, nullptr, nullptr, nullptr);
					t[i].of[b] = iconv(h, &ip, &in_n, &op, &out_n) == (size_t)-1 || out_n ? UINT32_MAX : out;
				}
				iconv_close(h);
			}
			filled = true;
		}
		return t[c == charset_id::windows1250 ? 0 : c == charset_id::windows1251 ? 1 : 2];
	}
	bool encode(charset_id c, uint32_t p, std::string& out)
	{
		auto put = [&](uint32_t v, int n) { for (int i = 0; i < n; ++i) out += (char)(v >> 8 * i & 0xff); };
		switch (c) {
		case charset_id::utf8:
			if (p < 0x80) out += (char)p;
			else if (p < 0x800) { out += (char)(0xc0 | p >> 6); out += (char)(0x80 | (p & 63)); }
			else if (p < 0x10000) { out += (char)(0xe0 | p >> 12); out += (char)(0x80 | (p >> 6 & 63)); out += (char)(0x80 | (p & 63)); }
			else { out += (char)(0xf0 | p >> 18); out += (char)(0x80 | (p >> 12 & 63)); out += (char)(0x80 | (p >> 6 & 63)); out += (char)(0x80 | (p & 63)); }
			return true;
		case charset_id::utf16:
			if (p < 0x10000) put(p, 2);
			else { put(0xd800 | (p - 0x10000) >> 10, 2); put(0xdc00 | ((p - 0x10000) & 0x3ff), 2); }
			return true;
		case charset_id::utf32: put(p, 4); return true;
		default: {
			auto& t = page(c);
			for (unsigned b = 0; b < 256; ++b) if (t.of[b] == p) { out += (char)b; return true; }
			return false;
		}
		}
	}
	uint32_t point(charset_id a, charset_id b)
	{
		for (int tries = 0; tries < 20; ++tries) {
			uint32_t p;
			if (a != charset_id::utf8 && a != charset_id::utf16 && a != charset_id::utf32) p = page(a).of[32 + choose(224)];
			else if (b != charset_id::utf8 && b != charset_id::utf16 && b != charset_id::utf32) p = page(b).of[32 + choose(224)];
			else
				switch (choose(5)) {
				case 0: case 1: p = 32 + choose(95); break;
				case 2: p = 0x80 + choose(0x780); break;
				case 3: p = 0x800 + choose(0xc800); break;
				default: p = 0x10000 + choose(0xe0000); break;
				}
			std::string s;
			if (p != UINT32_MAX && p != 0xfeff && encode(a, p, s) && encode(b, p, s)) return p;
		}
		return 'x';
	}
	text some_text(charset_id a, charset_id b)
	{
		text t;
		uint32_t n = choose(4) ? choose(40) : choose(2) ? 240 + choose(40) : choose(2) ? 500 + choose(40) : 1000 + choose(2500);
		uint32_t kinds = 1 + choose(20); // few different characters keep the number of decisions low
		text k;
		for (uint32_t i = 0; i < kinds && i < n; ++i) k.push_back(point(a, b));
		uint64_t r = n ? choose(1u << 30) : 0;
		for (uint32_t i = 0; i < n; ++i) t.push_back(k[mix(r * 8191 + i) % k.size()]);
		return t;
	}
	template <class T> std::basic_string<T> units(charset_id c, const text& t, size_t from = 0, size_t to = SIZE_MAX)
	{
		std::string s;
		for (size_t i = from; i < to && i < t.size(); ++i) encode(c, t[i], s);
		return std::basic_string<T>((const T*)s.data(), s.size() / sizeof(T));
	}
	const charset_id narrow[] = { charset_id::utf8, charset_id::windows1250, charset_id::windows1251, charset_id::windows1252 };
	template <class T> charset_id set_of() { return sizeof(T) == 1 ? narrow[choose(4)] : sizeof(T) == 2 ? charset_id::utf16 : charset_id::utf32; }

	template <class F, class T> struct encoder {
		charset_id a, b;
		std::unique_ptr<stdex::charset_encoder<F, T>> e;
		encoder() : a(set_of<F>()), b(set_of<T>()), e(new stdex::charset_encoder<F, T>(a, b)) {}
	};

	template <class F, class T> void convert()
	{
		encoder<F, T> x;
		SIM_CHECK(x.e->from_encoding() == x.a && x.e->to_encoding() == x.b, "names", "the encoder does not know its character sets");
		std::basic_string<T> dst;
		bool oom = choose(3) == 1;
		for (unsigned n = 1 + choose(8); n; --n) {
			text t = some_text(x.a, x.b);
			std::basic_string<F> src = units<F>(x.a, t);
			size_t good = t.size(); // code points before the damage
			bool bad = false;
			switch (choose(6)) {
			case 1: // the last character is cut
				if (t.empty()) break;
				{ size_t keep = units<F>(x.a, t, 0, t.size() - 1).size(); if (src.size() - keep > 1) { src.resize(src.size() - 1 - choose((uint32_t)(src.size() - keep - 1))); bad = true; good = t.size() - 1; } }
				break;
			case 2: // something that is no character, or none of the target
				good = choose((uint32_t)t.size() + 1);
				{
					std::basic_string<F> junk;
					if (x.a == charset_id::utf8) junk = std::basic_string<F>(1, (F)(choose(2) ? 0xff : 0x80));
					else if (x.a == charset_id::utf16) junk = std::basic_string<F>(2, (F)0xdc01);
					else if (x.a == charset_id::utf32) junk = std::basic_string<F>(1, (F)0x7fffffff);
					else { good = t.size(); break; }
					src = units<F>(x.a, t, 0, good) + junk + units<F>(x.a, t, good);
					bad = true;
				}
				break;
			case 3: // a character the target does not have
				if (sizeof(T) == 1 && x.b != charset_id::utf8 && sizeof(F) > 1) { good = choose((uint32_t)t.size() + 1); src = units<F>(x.a, t, 0, good) + units<F>(x.a, text{ 0x4e2d }) + units<F>(x.a, t, good); bad = true; }
				break;
			}
			std::basic_string<T> want = units<T>(x.b, t, 0, good), before = dst;
			bool append = false, thrown = false, no_memory = false;
			uint32_t how = choose(9);
			if (choose(6) == 1) x.e->clear();
			uint64_t a0 = alloc_failures();
			std::basic_string<T> got;
			if (!choose(4)) {
				// the text ends at the first zero, what is behind it is of no concern
				src += (F)0;
				for (uint32_t k = choose(6); k; --k) src += (F)(choose(2) ? 0xff : 'a' + choose(26));
			}
			std::basic_string_view<F, std::char_traits<F>> view(src);
			{
				alloc_faults af(oom ? 150 : 0, 1000);
				try {
					switch (how) {
					case 0: got = x.e->convert(src.c_str()); break;
					case 1: got = x.e->convert(src.data(), src.size()); break;
					case 2: got = x.e->convert(view); break;
					case 3: append = true; x.e->strcat(dst, src.c_str()); break;
					case 4: append = true; x.e->strcat(dst, src.data(), src.size()); break;
					case 5: append = true; x.e->strcat(dst, view); break;
					case 6: x.e->strcpy(dst, src.c_str()); got = dst; break;
					case 7: x.e->strcpy(dst, src.data(), src.size()); got = dst; break;
					default: x.e->strcpy(dst, view); got = dst; break;
					}
				}
				catch (const std::system_error& e) { thrown = true; }
				catch (const std::bad_alloc&) { no_memory = true; }
			}
			ev("%u: %zu units%s: %s", how, src.size(), bad ? ", damaged" : "", thrown ? "refused" : no_memory ? "out of memory" : "converted");
			if (no_memory) SIM_CHECK(alloc_failures() != a0, "memory", "memory is said to have run out, it has not");
			else {
				SIM_CHECK(alloc_failures() == a0 || thrown, "failure_hidden", "memory ran out, nobody says so");
				SIM_CHECK(thrown == bad, "damage", "%s text %s", bad ? "a damaged" : "a valid", thrown ? "is refused" : "is converted");
			}
			if (append) {
				SIM_CHECK(dst.compare(0, before.size(), before) == 0 && dst.size() >= before.size(), "appended", "what the string had before is changed");
				got = dst.substr(before.size());
			}
			else if (how > 5) got = dst;
			if (!thrown && !no_memory) SIM_CHECK(got == want, "content", "%zu units convert to %zu units, which are not the %zu they should be", src.size(), got.size(), want.size());
			else if (append || how > 5) {
				bool untouched = how > 5 && got == before;
				SIM_CHECK(untouched || (got.size() <= want.size() && want.compare(0, got.size(), got) == 0), "partial", "a failed conversion leaves %zu units that are not the beginning of the result", got.size());
			}
			if (dst.size() > 20000) dst.clear();
			state(src.size() * 31 + how * 3 + bad);
		}
	}
	// UTF-7 shifts between direct characters and others
	bool direct(uint32_t p) { return p < 128 && p && strchr("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789'(),-./:? \t\r\n", (int)p); }
	const char* const b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string encode7(const text& t, uint64_t style)
	{
		std::string s;
		for (size_t i = 0; i < t.size();) {
			bool plain = direct(t[i]) && mix(style + i) % 5;
			if (plain) { s += (char)t[i++]; continue; }
			if (t[i] == '+' && mix(style + i) % 2) { s += "+-"; ++i; continue; }
			s += '+';
			uint32_t bits = 0; int n = 0;
			auto put = [&](uint32_t u) { bits = bits << 16 | u; n += 16; while (n >= 6) { s += b64[bits >> (n - 6) & 63]; n -= 6; } bits &= (1u << n) - 1; };
			do {
				if (t[i] < 0x10000) put(t[i]);
				else { put(0xd800 | (t[i] - 0x10000) >> 10); put(0xdc00 | ((t[i] - 0x10000) & 0x3ff)); }
				++i;
			} while (i < t.size() && (!direct(t[i]) || !(mix(style + i) % 5)));
			if (n) s += b64[bits << (6 - n) & 63];
			bool must = i < t.size() && ((direct(t[i]) && (strchr(b64, (int)t[i]) || t[i] == '-')));
			if (must || i == t.size() || mix(style + i) % 2) s += '-';
		}
		return s;
	}
	bool decode7(const std::string& s, text& t) // false: not UTF-7, or something is missing at the end
	{
		uint32_t high = 0;
		auto unit = [&](uint32_t u) {
			if (u >= 0xd800 && u < 0xdc00) { if (high) return false; high = u; return true; }
			if (u >= 0xdc00 && u < 0xe000) { if (!high) return false; t.push_back(0x10000 + ((high & 0x3ff) << 10) + (u & 0x3ff)); high = 0; return true; }
			if (high) return false;
			t.push_back(u);
			return true;
		};
		for (size_t i = 0; i < s.size();) {
			if (s[i] != '+') { if ((signed char)s[i] <= 0) return false; t.push_back((uint8_t)s[i++]); continue; }
			if (++i == s.size()) return false;
			if (s[i] == '-') { t.push_back('+'); ++i; continue; }
			uint32_t bits = 0; int n = 0; bool any = false;
			for (const char* p; i < s.size() && s[i] && (p = strchr(b64, s[i])); ++i) {
				any = true;
				bits = bits << 6 | (uint32_t)(p - b64); n += 6;
				if (n >= 16) { if (!unit(bits >> (n - 16) & 0xffff)) return false; n -= 16; bits &= (1u << n) - 1; }
			}
			if (!any || n >= 6 || bits || high) return false;
			if (i == s.size()) return false; // nothing ends it
			if (s[i] == '-') ++i;
		}
		return true;
	}
	template <class W> void utf7()
	{
		charset_id w = sizeof(W) == 1 ? charset_id::utf8 : set_of<W>();
		stdex::charset_encoder<W, char> out(w, charset_id::utf7);
		stdex::charset_encoder<char, W> in(charset_id::utf7, w);
		for (unsigned n = 1 + choose(8); n; --n) {
			text t = some_text(charset_id::utf8, w);
			size_t good = t.size();
			bool bad = !choose(4), oom = choose(4) == 1, refused = false, no_memory = false;
			if (bad) good = choose((uint32_t)t.size() + 1);
			text head(t.begin(), t.begin() + (long)good);
			uint64_t a0 = alloc_failures();
			if (choose(2)) {
				std::basic_string<W> s = units<W>(w, t, 0, good);
				if (bad) { s += (W)(sizeof(W) == 1 ? 0xff : sizeof(W) == 2 ? 0xdc01 : 0x7fffffff); s += units<W>(w, t, good); }
				std::string before = choose(2) ? "" : "+", got = before;
				{
					alloc_faults af(oom ? 150 : 0, 1000);
					try { if (before.empty() && choose(2)) got = out.convert(s.data(), s.size()); else out.strcat(got, s.data(), s.size()); }
					catch (const std::system_error&) { refused = true; }
					catch (const std::bad_alloc&) { no_memory = true; }
				}
				SIM_CHECK(got.compare(0, before.size(), before) == 0, "appended", "what the string had before is changed");
				if (!no_memory) SIM_CHECK(refused == bad, "damage", "%s text %s", bad ? "a damaged" : "a valid", refused ? "is refused" : "is converted");
				if (!no_memory && !refused) {
					text r;
					SIM_CHECK(decode7(got.substr(before.size()), r), "content", "%zu characters convert to %zu bytes that are not complete UTF-7", t.size(), got.size() - before.size());
					SIM_CHECK(r == t, "content", "%zu characters convert to UTF-7 that says other %zu characters", t.size(), r.size());
				}
			}
			else {
				std::string s = encode7(head, choose(1000));
				if (bad) { if (!s.empty() && s.back() != '-' && choose(2)) s += '-', head.push_back('-'); s += (char)(128 + choose(128)); s += encode7(t, 0); }
				std::basic_string<W> got, want = units<W>(w, bad ? head : t);
				{
					alloc_faults af(oom ? 150 : 0, 1000);
					try { if (choose(2)) got = in.convert(s.data(), s.size()); else in.strcat(got, s.data(), s.size()); }
					catch (const std::system_error&) { refused = true; }
					catch (const std::bad_alloc&) { no_memory = true; }
				}
				if (!no_memory) SIM_CHECK(refused == bad, "damage", "%s UTF-7 %s", bad ? "damaged" : "valid", refused ? "is refused" : "is converted");
				if (!no_memory && !refused) SIM_CHECK(got == want, "content", "UTF-7 of %zu characters converts to %zu units, which are not the %zu they should be", t.size(), got.size(), want.size());
				else SIM_CHECK(got.size() <= want.size() && want.compare(0, got.size(), got) == 0, "partial", "a failed conversion leaves %zu units that are not the beginning of the result", got.size());
			}
			if (no_memory) SIM_CHECK(alloc_failures() != a0, "memory", "memory is said to have run out, it has not");
			evn(9, good, refused + 2 * no_memory);
			state(t.size() * 31 + bad);
		}
	}
	void s_utf7()
	{
		converters c;
		switch (choose(3)) { case 0: utf7<wchar_t>(); break; case 1: utf7<char16_t>(); break; default: utf7<char>(); }
		c.check();
	}
	// Names of character sets; converters that there are none of
	void s_names()
	{
		converters c;
		static const struct { const char* name; charset_id id; } known[] = {
			{ "UTF-7", charset_id::utf7 }, { "UNICODE-1-1-UTF-7", charset_id::utf7 }, { "CSUNICODE11UTF7", charset_id::utf7 }, { "UTF-8", charset_id::utf8 }, { "UTF8", charset_id::utf8 },
			{ "UTF-16", charset_id::utf16 }, { "UTF-16LE", charset_id::utf16 }, { "UTF-32", charset_id::utf32 }, { "UTF-32LE", charset_id::utf32 },
			{ "CP1250", charset_id::windows1250 }, { "MS-EE", charset_id::windows1250 }, { "WINDOWS-1250", charset_id::windows1250 },
			{ "CP1251", charset_id::windows1251 }, { "MS-CYRL", charset_id::windows1251 }, { "WINDOWS-1251", charset_id::windows1251 },
			{ "CP1252", charset_id::windows1252 }, { "MS-ANSI", charset_id::windows1252 }, { "WINDOWS-1252", charset_id::windows1252 } };
		for (unsigned n = 1 + choose(10); n; --n) {
			auto& k = known[choose(sizeof(known) / sizeof(*known))];
			std::string s = k.name;
			for (auto& x : s) if (x >= 'A' && x <= 'Z' && choose(2)) x = (char)(x + 32);
			charset_id want = k.id;
			switch (choose(6)) {
			case 1: s += (char)('a' + choose(26)); want = charset_id::system; break;
			case 2: s.resize(choose((uint32_t)s.size())); want = charset_id::system; break;
			case 3: s[choose((uint32_t)s.size())] = '_'; want = charset_id::system; break;
			}
			for (auto& o : known) if (!strcasecmp(o.name, s.c_str())) want = o.id;
			auto got = choose(2) ? stdex::charset_from_name(s) : stdex::charset_from_name(s.c_str());
			SIM_CHECK(got == want, "names", "%s is taken for character set %d, it is %d", s.c_str(), (int)got, (int)want);
			std::string from;
			charset_id a = set_of<char>(), b = choose(3) ? charset_id::utf32 : charset_id::utf7;
			g_open_fault = choose(2) ? 300 : 0;
			unsigned r0 = g_refused;
			bool thrown = false;
			try {
				if (b == charset_id::utf32) { stdex::charset_encoder<char, wchar_t> e(a, b); SIM_CHECK(e.convert("abc") == L"abc", "content", "plain text is converted wrong"); }
				else { stdex::charset_encoder<char, char> e(a, b); SIM_CHECK(e.convert("abc") == "abc", "content", "plain text is converted wrong"); }
			}
			catch (const std::system_error& e) { thrown = true; SIM_CHECK(e.code().value() == EMFILE || e.code().value() == ENOMEM, "state", "a converter that cannot be opened is reported as error %d", e.code().value()); }
			g_open_fault = 0;
			SIM_CHECK(thrown == (g_refused != r0), "failure_hidden", "there is %s converter, and the encoder %s", thrown ? "a" : "no", thrown ? "fails" : "works");
			evn(8, (uint32_t)got, thrown);
		}
		c.check();
	}
	void s_convert()
	{
		converters c;
		switch (choose(7)) {
		case 0: convert<char, char>(); break;
		case 1: convert<char, wchar_t>(); break;
		case 2: convert<wchar_t, char>(); break;
		case 3: convert<char, char16_t>(); break;
		case 4: convert<char16_t, char>(); break;
		case 5: convert<char16_t, wchar_t>(); break;
		default: convert<wchar_t, char16_t>(); break;
		}
		c.check();
	}
	// The functions that make an encoder of their own
	void s_functions()
	{
		converters conv;
		for (unsigned n = 1 + choose(6); n; --n) {
			charset_id c = narrow[choose(4)];
			text t = some_text(charset_id::utf32, c);
			std::string s = units<char>(c, t);
			std::wstring w = units<wchar_t>(charset_id::utf32, t);
			bool oom = choose(3) == 1;
			alloc_faults af(oom ? 60 : 0, 1000);
			try {
				std::wstring gw = choose(2) ? stdex::str2wstr(s, c) : stdex::str2wstr(s.data(), s.size(), c);
				SIM_CHECK(gw == w, "content", "%zu bytes convert to %zu wide characters instead of %zu", s.size(), gw.size(), w.size());
				std::string gs = choose(2) ? stdex::wstr2str(w, c) : stdex::wstr2str(w.data(), w.size(), c);
				SIM_CHECK(gs == s, "content", "%zu wide characters convert to %zu bytes instead of %zu", w.size(), gs.size(), s.size());
			}
			catch (const std::bad_alloc&) { SIM_CHECK(oom, "memory", "memory is said to have run out, it has not"); }
			catch (const std::system_error& e) { SIM_CHECK(oom, "damage", "valid text is refused: %s", e.what()); }
			evn(7, s.size(), w.size());
		}
		conv.check();
	}
	// Lines and strings through streams
	template <class F, class T> void streams()
	{
		encoder<F, T> out;
		stdex::charset_encoder<T, F> back(out.b, out.a);
		peer::sink sink;
		sink.o.preemptible = false;
		sink.o.p_short = choose(3) == 1 ? 200 : 0;
		if (choose(4) == 1) { sink.o.fail_at = choose(600); sink.o.late = choose(2); }
		std::string stored;
		std::vector<text> lines;
		bool failed = false;
		for (unsigned n = choose(8); n && !failed; --n) {
			text t = some_text(out.a, out.b);
			std::basic_string<F> s = units<F>(out.a, t), nl(1, (F)'\n');
			bool cr = choose(3) == 1;
			for (int part = 0; part < 2 && !failed; ++part) {
				std::basic_string<F> p = part ? cr ? std::basic_string<F>(1, (F)'\r') + nl : nl : s;
				std::basic_string<T> w = part ? std::basic_string<T>(p.begin(), p.end()) : units<T>(out.b, t);
				size_t had = sink.got.size(), r;
				switch (choose(3)) {
				case 0: r = sink.write_array(p, *out.e); break;
				case 1: r = sink.write_array(p.data(), p.size() + choose(2) * 5, *out.e); break;
				default: r = sink.write_array(p.c_str(), *out.e);
				}
				stored.append((const char*)w.data(), w.size() * sizeof(T));
				SIM_CHECK(sink.got.size() <= stored.size() && !memcmp(sink.got.data(), stored.data(), sink.got.size()), "content", "what is written is not the text in the other character set");
				SIM_CHECK(r == (sink.got.size() - had) / sizeof(T), "count", "write_array returns %zu, %zu units were written", r, (sink.got.size() - had) / sizeof(T));
				if (sink.got.size() < stored.size() || sink.failed) { SIM_CHECK(!sink.ok(), "failure_hidden", "text is written in part and reported as written"); failed = true; }
				else SIM_CHECK(sink.ok(), "state", "writing reports %s", sname(sink.state()));
			}
			if (!failed) lines.push_back(t);
			ev("%zu characters written%s", t.size(), failed ? " in part" : "");
		}
		if (failed) { size_t had = sink.got.size(); SIM_CHECK(sink.write_array(units<F>(out.a, text{ 'a' }), *out.e) == 0 && sink.got.size() == had, "after_failure", "a failed stream is written to"); }
		// back
		peer::source src;
		src.o.preemptible = false;
		src.o.p_short = choose(2) ? 300 : 0;
		src.data.assign(stored.begin(), stored.end());
		bool last_ends = choose(2);
		if (!failed && !last_ends && !lines.empty()) { text t = some_text(out.a, out.b); auto w = units<T>(out.b, t); src.data.insert(src.data.end(), (const uint8_t*)w.data(), (const uint8_t*)(w.data() + w.size())); lines.push_back(t); } else last_ends = true;
		if (failed) return;
		for (size_t i = 0; i < lines.size(); ++i) {
			std::basic_string<F> s, want = units<F>(out.a, lines[i]);
			size_t r;
			if (choose(2)) r = src.readln(s, back);
			else { s = std::basic_string<F>(3, (F)'#'); want = s + want; r = src.readln_and_attach(s, back); }
			SIM_CHECK(s == want && r == s.size(), "content", "line %zu of %zu reads as %zu units instead of %zu, returning %zu", i, lines.size(), s.size(), want.size(), r);
			bool last = i + 1 == lines.size();
			SIM_CHECK(src.state() == (last && !last_ends ? state_t::eof : state_t::ok), "state", "line %zu of %zu reports %s", i, lines.size(), sname(src.state()));
		}
		state(stored.size() * 7 + lines.size());
	}
	void s_streams()
	{
		converters c;
		switch (choose(5)) {
		case 0: streams<wchar_t, char>(); break;
		case 1: streams<char, char>(); break;
		case 2: streams<char, char16_t>(); break;
		case 3: streams<char, wchar_t>(); break;
		default: streams<wchar_t, char16_t>(); break;
		}
		c.check();
	}
}
SIM_SCENARIOS("C42", { "convert", 4, s_convert }, { "functions", 1, s_functions }, { "utf7", 2, s_utf7 }, { "names", 1, s_names }, { "streams", 2, s_streams })
