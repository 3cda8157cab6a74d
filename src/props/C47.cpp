// SIM: threads -lz -D_GLIBCXX_EXTERN_TEMPLATE=0 -Wl,--wrap=iconv,--wrap=vsnprintf,--wrap=snprintf,--wrap=vswprintf,--wrap=strftime_l,--wrap=wcsftime_l,--wrap=strtod_l,--wrap=gmtime,--wrap=localtime,--wrap=gmtime_r,--wrap=deflate,--wrap=inflate
// C47: what threads do not share needs no locking: each gets what it would get alone.
#include <errno.h>
#include <stdarg.h>
#include <stdint.h>
#include <string.h>
#include <stdexcept>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <vector>
#include <stdex/base64.hpp>
#include <stdex/chrono.hpp>
#include <stdex/hash.hpp>
#include <stdex/hex.hpp>
#include <stdex/html.hpp>
#include <stdex/idrec.hpp>
#include <stdex/langid.hpp>
#include <stdex/memory.hpp>
#include <stdex/minisign.hpp>
#include <stdex/sgml.hpp>
#include <stdex/stream.hpp>
#include <stdex/string.hpp>
#include <stdex/sys_info.hpp>
#include <stdex/unicode.hpp>
#include <stdex/vector_queue.hpp>
#include <stdex/wav.hpp>
#include <stdex/zlib.hpp>
#include "pieces.h"
#include <thread>
using namespace sim;
using stdex::charset_id;
using stdex::locale_C;
namespace stream = stdex::stream;

// What is not compiled here, but in the system's libraries: the memory it reads and writes, and a point where another thread may get the CPU
namespace sim { void touched(const void* p, size_t n, bool write); }
extern "C" {
size_t __real_iconv(iconv_t, char**, size_t*, char**, size_t*);
size_t __wrap_iconv(iconv_t h, char** in, size_t* n_in, char** out, size_t* n_out)
{
	char* i = in ? *in : nullptr, *o = out ? *out : nullptr;
	touched(h, 8, true);
	size_t r = __real_iconv(h, in, n_in, out, n_out);
	int e = errno;
	if (i) touched(i, (size_t)(*in - i), false);
	if (o) touched(o, (size_t)(*out - o), true);
	errno = e;
	return r;
}
int __real_vsnprintf(char*, size_t, const char*, va_list);
int __wrap_vsnprintf(char* p, size_t n, const char* f, va_list a)
{
	int r = __real_vsnprintf(p, n, f, a);
	if (r >= 0 && n) touched(p, (size_t)r < n ? (size_t)r + 1 : n, true);
	return r;
}
int __wrap_snprintf(char* p, size_t n, const char* f, ...) { va_list a; va_start(a, f); int r = __wrap_vsnprintf(p, n, f, a); va_end(a); return r; }
int __real_vswprintf(wchar_t*, size_t, const wchar_t*, va_list);
int __wrap_vswprintf(wchar_t* p, size_t n, const wchar_t* f, va_list a)
{
	int r = __real_vswprintf(p, n, f, a), e = errno;
	if (r >= 0) touched(p, ((size_t)r + 1) * sizeof(wchar_t), true);
	errno = e;
	return r;
}
size_t __real_strftime_l(char*, size_t, const char*, const struct tm*, locale_t);
size_t __wrap_strftime_l(char* p, size_t n, const char* f, const struct tm* t, locale_t l) { touched(t, sizeof(*t), false); size_t r = __real_strftime_l(p, n, f, t, l); if (r) touched(p, r + 1, true); return r; }
size_t __real_wcsftime_l(wchar_t*, size_t, const wchar_t*, const struct tm*, locale_t);
size_t __wrap_wcsftime_l(wchar_t* p, size_t n, const wchar_t* f, const struct tm* t, locale_t l) { touched(t, sizeof(*t), false); size_t r = __real_wcsftime_l(p, n, f, t, l); if (r) touched(p, (r + 1) * sizeof(wchar_t), true); return r; }
double __real_strtod_l(const char*, char**, locale_t);
double __wrap_strtod_l(const char* p, char** e, locale_t l) { char* k; double r = __real_strtod_l(p, &k, l); touched(p, (size_t)(k - p), false); if (e) { touched(e, sizeof(*e), true); *e = k; } return r; }
struct tm* __real_gmtime(const time_t*);
struct tm* __wrap_gmtime(const time_t* t) { auto r = __real_gmtime(t); if (r) touched(r, sizeof(*r), true); return r; } // one result for all threads
struct tm* __real_localtime(const time_t*);
struct tm* __wrap_localtime(const time_t* t) { auto r = __real_localtime(t); if (r) touched(r, sizeof(*r), true); return r; }
struct tm* __real_gmtime_r(const time_t*, struct tm*);
struct tm* __wrap_gmtime_r(const time_t* t, struct tm* d) { auto r = __real_gmtime_r(t, d); touched(d, sizeof(*d), true); return r; }
int __real_deflate(z_streamp, int);
int __wrap_deflate(z_streamp z, int f) { auto o = z->next_out; touched(z, sizeof(*z), true); int r = __real_deflate(z, f); touched(o, (size_t)(z->next_out - o), true); return r; }
int __real_inflate(z_streamp, int);
int __wrap_inflate(z_streamp z, int f) { auto o = z->next_out; touched(z, sizeof(*z), true); int r = __real_inflate(z, f); touched(o, (size_t)(z->next_out - o), true); return r; }
}

namespace
{
	struct rnd {
		uint64_t s;
		explicit rnd(uint64_t r) : s(mix(r)) {}
		uint32_t operator()(uint32_t n) { s = mix(s); return (uint32_t)((s >> 20) % n); }
		std::string word(unsigned lo, unsigned hi, const char* of = "abcdefghijklmnopqrstuvwxyz") { std::string t; for (unsigned n = lo + (*this)(hi - lo + 1); n; --n) t += of[(*this)((uint32_t)strlen(of))]; return t; }
		std::wstring wide(unsigned lo, unsigned hi) { static const wchar_t of[] = L"abcz &<>\"\x10d\x161\x17e\xe9"; std::wstring t; for (unsigned n = lo + (*this)(hi - lo + 1); n; --n) t += of[(*this)(13)]; return t; }
	};
	template <class T> void out(std::string& o, const std::basic_string<T>& s) { o.append((const char*)s.data(), s.size() * sizeof(T)); o += '|'; }
	void out(std::string& o, uint64_t v) { o += std::to_string(v); o += '|'; }
	void out(std::string& o, const stdex::interval<size_t>& i) { if (i) { out(o, i.start); out(o, i.end); } else o += "-|"; }

	// Each job: from a number to what the library makes of it, with objects of its own
	void j_printf(rnd& r, std::string& o)
	{
		std::string a = r.word(0, r(4) ? 20 : 1300);
		std::string s = stdex::sprintf("%s/%d", locale_C, a.c_str(), (int)r(100000));
		out(o, s);
		stdex::appendf(s, "%5.2f%c", locale_C, r(1000) / 7.0, (int)('a' + r(26)));
		out(o, s);
		std::wstring w = stdex::sprintf(L"%ls-%d", locale_C, r.wide(0, 20).c_str(), (int)r(1000));
		out(o, w);
	}
	void j_charset(rnd& r, std::string& o)
	{
		static const charset_id sets[] = { charset_id::utf8, charset_id::windows1250 };
		charset_id c = sets[r(2)];
		std::wstring w = r.wide(0, r(4) ? 20 : 400);
		std::string s = stdex::wstr2str(w, c);
		out(o, s);
		out(o, stdex::str2wstr(s, c));
		stdex::charset_encoder<char, wchar_t> e(c, charset_id::utf32);
		std::wstring b = e.convert(s);
		e.strcat(b, s);
		out(o, b);
		out(o, (uint64_t)stdex::charset_from_name(r(2) ? "utf-8" : "cp1250"));
	}
	void j_chrono(rnd& r, std::string& o)
	{
		using namespace stdex::chrono;
		auto tp = aosn_timestamp::from_dmy((uint8_t)(1 + r(28)), (uint8_t)(1 + r(12)), (int32_t)(1900 + r(200)), (uint8_t)r(24), (uint8_t)r(60), (uint8_t)r(60), (uint16_t)r(1000));
		out(o, aosn_timestamp::to_str(tp, "%Y-%m-%d %A %H:%M:%S", locale_C));
		out(o, aosn_timestamp::to_str(tp, L"%d. %B %Y", locale_C));
		out(o, aosn_timestamp::to_rfc822(tp));
		struct tm t;
		aosn_timestamp::to_system(tp, t);
		out(o, (uint64_t)t.tm_mday * 100 + (unsigned)t.tm_wday);
		std::string s = "x";
		stdex::strcatftime(s, "%j %H", &t, locale_C);
		out(o, s);
	}
	template <class H> void digest(rnd& r, std::string& o)
	{
		H h;
		for (unsigned n = 1 + r(3); n; --n) { std::string d = r.word(0, 80); h.hash(d.data(), d.size()); }
		h.finalize();
		auto v = h.data();
		o.append((const char*)&v, sizeof(v));
		o += '|';
	}
	void j_hash(rnd& r, std::string& o) { switch (r(3)) { case 0: digest<stdex::md5_hash>(r, o); break; case 1: digest<stdex::sha1_hash>(r, o); break; default: digest<stdex::crc32_hash>(r, o); } }
	void j_base64(rnd& r, std::string& o)
	{
		std::string d = r.word(0, 60), t, x;
		stdex::base64_enc e;
		size_t k = r((uint32_t)d.size() + 1);
		e.encode(t, d.data(), k, false);
		e.encode(t, d.data() + k, d.size() - k, true);
		out(o, t);
		std::vector<uint8_t> b;
		bool last;
		stdex::base64_dec q;
		q.decode(b, last, t.data(), t.size());
		o.append((const char*)b.data(), b.size());
		stream::memory_file m;
		{ stdex::base64_writer w(m, 0); w.write(d.data(), k); w.write(d.data() + k, d.size() - k); }
		m.seekbeg(0);
		{ stdex::base64_reader w(m); char c[64]; size_t n = w.read(c, 1 + r(64)); o.append(c, n); }
		stdex::hex_enc he;
		he.encode(x, d.data(), d.size());
		out(o, x);
		stdex::hex_dec hd;
		b.clear();
		hd.decode(b, last, x.data(), x.size());
		o.append((const char*)b.data(), b.size());
	}
	void j_sgml(rnd& r, std::string& o)
	{
		std::wstring w = r.wide(0, 30);
		for (unsigned n = r(4); n; --n) w += (wchar_t)(0x2e00 + r(300));
		if (r(2)) w += L"\x10d\x30c\x2e00";
		std::string s = stdex::str2sgml(w, (int)r(2) ? stdex::sgml_full : 0);
		out(o, s);
		s += "&#x" + r.word(1, 4, "0123456789abc") + ";";
		out(o, stdex::sgml2str<stdex::utf16_t>(s));
		stdex::utf16_t narrow[200];
		out(o, std::basic_string<stdex::utf16_t>(narrow, stdex::sgml2strcpy(narrow, (size_t)200, s.data(), s.size(), (int)r(8))));
		char fixed[700];
		wchar_t wide[200];
		out(o, std::string(fixed, stdex::str2sgmlcpy(fixed, sizeof(fixed), w.data(), w.size(), (int)r(8))));
		out(o, std::wstring(wide, stdex::sgml2strcpy(wide, (size_t)200, s.data(), s.size(), (int)r(8))));
		stdex::mapping_vector<size_t> map;
		out(o, stdex::sgml2str<wchar_t>(s + "&eacute;&amp;&nosuch;", 0, stdex::mapping<size_t>(0, 0), &map));
		for (auto& m : map) { out(o, m.from); out(o, m.to); }
	}
	void j_html(rnd& r, std::string& o)
	{
		namespace html = stdex::html;
		std::wstring s;
		static const wchar_t* const parts[] = { L"<p>", L"</p>", L"<b class=x>", L"</b>", L"<a href=\"u\">", L"</a>", L"&amp;", L"&eacute;", L"<br/>", L"<!-- c -->", L"<img alt='q'>", L"<script>a<b</script>", L"<![if x]>", L"<![endif]>" };
		for (unsigned n = r(12); n; --n) { s += parts[r(14)]; if (r(2)) s += r.wide(0, 6); }
		html::document<wchar_t> d;
		size_t k = r((uint32_t)s.size() + 1);
		try {
			if (r(2)) d.assign(s.data(), s.size());
			else { d.append(s.data(), k); d.append(s.data() + k, s.size() - k); }
			html::parser<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t>> p(d, nullptr, 0, true);
			auto t = p.parse();
			std::wstring l;
			p.link(l, t);
			out(o, l);
			out(o, p.tokens().size());
		}
		catch (const std::invalid_argument& e) { o += e.what(); }
	}
	template <class P> void told(std::string& o, P& p, const std::string& s) { std::string t(s); o += p.match(t.data(), 0, t.size()) ? "found " : "none "; out(o, p.interval); }
	void j_parser(rnd& r, std::string& o)
	{
		mk<char> m(0, r(3) == 0);
		switch (r(11)) {
		case 10: {
			using namespace stdex::parser;
			const std::locale& l = std::locale::classic();
			sgml_any_cp any(l); sgml_cp one("&ccaron;", SIZE_MAX, false, l); sgml_space_cp sp(false, l); sgml_punct_cp pu(false, l); sgml_space_or_punct_cp sop(false, l); sgml_cp_set set("&ccaron;x", SIZE_MAX, false, l); sgml_string str("a&amp;b", SIZE_MAX, l);
			sgml_url_username_char un(l); sgml_url_password_char pw(l); sgml_url_path_char pa(l); sgml_dns_domain_char dn(true, l); sgml_ipv6_scope_id_char sc(l);
			parser* const all[] = { &any, &one, &sp, &pu, &sop, &set, &str, &un, &pw, &pa, &dn, &sc };
			static const char* const t[] = { "&ccaron;", "&amp;", "-", "x", " ", "&#x10d;", "a&amp;b", "&nbsp;", "&eacute;", "_" };
			for (unsigned n = 1 + r(4); n; --n) { const char* c = t[r(10)]; for (auto p : all) told(o, *p, c); }
			break;
		}
		case 0: { auto u = m.url(); told(o, *u.p, "http://" + r.word(1, 4) + "." + r.word(2, 3) + ":" + r.word(1, 4, "0123456789") + "/" + r.word(0, 6) + "?q#f"); out(o, u.port->interval); out(o, u.path->interval); break; }
		case 1: { auto e = m.email(); told(o, *e.p, r.word(1, 6) + "@" + r.word(1, 4) + "." + r.word(2, 3)); out(o, e.dns->interval); break; }
		case 2: { auto p = m.ipv4(); told(o, *p, std::to_string(r(256)) + "." + std::to_string(r(256)) + ".1.2"); o.append((const char*)&p->value, sizeof(p->value)); break; }
		case 3: { auto p = m.iban(); told(o, *p, r(2) ? "SI56263300012039086" : "DE89370400440532013000"); out(o, p->is_valid); out(o, std::string(p->country)); break; }
		case 4: { auto p = m.date(stdex::parser::date_format_dmy | stdex::parser::date_format_ymd); told(o, *p, std::to_string(1 + r(28)) + "." + std::to_string(1 + r(12)) + ".20" + r.word(2, 2, "0123456789")); break; }
		case 5: { auto p = m.json(); told(o, *p, "\"" + r.word(0, 8) + "\\n\\u0041\""); out(o, p->value); break; }
		case 6: { auto p = m.scientific(); told(o, *p, std::to_string(r(1000)) + "." + std::to_string(r(1000)) + "e" + std::to_string(r(20))); o.append((const char*)&p->value, sizeof(p->value)); break; }
		case 7: { auto p = m.roman(); told(o, *p, "MCMXC" + r.word(0, 1, "IV")); out(o, p->value); break; }
		case 8: { auto p = m.creditor(); told(o, *p, "RF18539007547034"); out(o, p->is_valid); break; }
		default: { auto p = m.phone(); told(o, *p, "+386 " + r.word(1, 3, "123456789") + "-" + r.word(3, 6, "0123456789")); out(o, p->value); break; }
		}
	}
	void j_http(rnd& r, std::string& o)
	{
		using namespace stdex::parser;
		switch (r(4)) {
		case 0: { http_request p; told(o, p, "GET /" + r.word(1, 5) + "?" + r.word(1, 3) + "=1 HTTP/1.1\r\n"); out(o, p.verb); out(o, p.protocol.version); break; }
		case 1: { http_header p; told(o, p, "X-" + r.word(1, 5) + ": " + r.word(0, 8) + "\r\n"); out(o, p.name); out(o, p.value); break; }
		case 2: { http_weighted_value<http_language> p; told(o, p, r.word(2, 3) + ";q=0." + r.word(1, 3, "0123456789")); o.append((const char*)&p.factor.value, sizeof(p.factor.value)); break; }
		default: { http_cookie p; told(o, p, r.word(1, 5) + "=\"" + r.word(0, 5) + "\"; $Path=x"); out(o, p.params.size()); }
		}
	}
	void j_stream(rnd& r, std::string& o)
	{
		stream::memory_file m;
		{
			stream::buffer b(m, 8, 8);
			for (unsigned n = 1 + r(4); n; --n) { b << (uint32_t)r(1000) << r.word(0, 12); }
		}
		std::vector<uint32_t> lines = { r(9), 2 };
		std::set<uint32_t> keys = { r(9), r(9) };
		std::multiset<uint32_t> more = { 1, r(3), 1 };
		stream::memory_file k;
		stream::basic& kb = k;
		kb << lines << keys << more << r.wide(0, 5) << r.word(0, 5) << std::string(r(3) ? 0 : 1500, 'x');
		k.write_byte(7, 5);
		k.seekbeg(0);
		{
			std::vector<uint32_t> l; std::set<uint32_t> s; std::multiset<uint32_t> t; std::wstring w; std::string x, y;
			kb >> l >> s >> t >> w >> x >> y;
			for (auto& i : l) out(o, i);
			for (auto& i : s) out(o, i);
			for (auto& i : t) out(o, i);
			out(o, w); out(o, x); out(o, y);
			out(o, (uint64_t)k.read_byte());
		}
		k.seekbeg(0);
		k.write_charset(charset_id::utf8);
		k.write_array("one\r\ntwo\n", 1, 9);
		k.seekbeg(0);
		k.read_charset();
		{ std::string l; while (k.ok() && o.size() < 4000) { k.readln(l); out(o, l); } }
		out(o, m.size());
		m.seekbeg(0);
		static_cast<stream::basic&>(m).basic::skip(1);
		stream::fifo f;
		f.write_stream(m);
		while (f.size()) { uint8_t c[5]; size_t k = f.read(c, sizeof(c)); o.append((const char*)c, k); }
		stream::memory_file z;
		{ stdex::zlib_writer w(z, 1, 64); std::string d = r.word(0, 40); w.write(d.data(), d.size()); }
		z.seekbeg(0);
		{ stdex::zlib_reader w(z, 64); char d[64]; size_t k = w.read(d, sizeof(d)); o.append(d, k); }
	}
	void j_idrec(rnd& r, std::string& o)
	{
		namespace wav = stdex::wav;
		stream::memory_file m;
		wav::header h;
		h.type = wav::wave::record::id();
		auto top = wav::header::record::open(m);
		m << h.type;
		wav::format f;
		f.num_channels = (uint16_t)(1 + r(2)); f.sample_rate = r(48000); f.bits_per_channel = 8;
		for (unsigned n = r(5); n; --n) f.extra << (uint8_t)r(256);
		if (r(2)) m << wav::format::record(f);
		for (unsigned n = r(3); n; --n) {
			auto at = stdex::idrec::open<wav::id_t, wav::length_t>(m, (wav::id_t)r(1000));
			std::string d = r.word(0, 9);
			m.write_array(d.data(), 1, d.size());
			stdex::idrec::close<wav::id_t, wav::length_t, wav::align>(m, at);
		}
		if (r(2)) m << wav::format::record(f);
		wav::header::record::close(m, top);
		out(o, m.size());
		m.seekbeg(8);
		wav::header hh;
		m >> hh;
		out(o, hh.type);
		wav::format g;
		o += wav::read_first<wav::format>(m, g, m.size()) ? "found " : "none ";
		out(o, (uint64_t)m.tell()); out(o, g.sample_rate); out(o, g.extra.size());
		o.append((const char*)m.data(), (size_t)m.size());
	}
	void j_small(rnd& r, std::string& o)
	{
		out(o, (uint64_t)stdex::langid_from_rfc1766(r(2) ? "sl-SI" : "en-US"));
		if (auto n = stdex::rfc1766_from_langid(stdex::langid_from_rfc1766("de-DE"))) o += n;
		out(o, (uint64_t)stdex::platform_from_name(r(2) ? "x86_64" : "AARCH64"));
		std::string s = std::to_string(r(1000000)) + "x", u = r.word(0, 10);
		size_t e;
		out(o, (uint64_t)stdex::strto64(s.data(), s.size(), &e, 10));
		out(o, e);
		stdex::strupr(&u[0], u.size());
		out(o, u);
		out(o, (uint64_t)(stdex::strnicmp(u.data(), u.size(), "ABC", 3) < 0));
		stdex::vector_queue<int> q(1 + r(4));
		for (unsigned n = r(8); n; --n) if (r(3)) q.push_back((int)n); else q.push_front((int)n);
		for (size_t i = 0; i < q.size(); ++i) out(o, (uint64_t)q[i]);
		std::basic_string<char, std::char_traits<char>, stdex::sanitizing_allocator<char>> x = "secret";
		for (unsigned n = r(4); n; --n) x += x.c_str();
		out(o, x.size());
	}
	void j_minisign(rnd& r, std::string& o)
	{
		stream::memory_file m;
		std::string s = "untrusted comment: " + r.word(0, 9) + "\nRWRVtPBjDYxHT1dPQz2oyZ0ZbPGoK8PyDYPMmdvvGOgm6Pq2vgRNFA4S7LtwJ0pZ2VhZFkO9nCk+2xKdHqAvD2Gd0ELnPJKDqgA=\n";
		m.write(s.data(), s.size());
		m.seekbeg(0);
		uint8_t alg, key[8], sig[64];
		try { stdex::minisign::parse_minisig(m, alg, key, sig); o.append((const char*)sig, 64); o.append((const char*)key, 8); }
		catch (const std::exception& e) { o += e.what(); }
	}
	struct job { const char* name; void (*fn)(rnd&, std::string&); };
	const job jobs[] = { { "printf", j_printf }, { "charset", j_charset }, { "chrono", j_chrono }, { "hash", j_hash }, { "base64", j_base64 }, { "sgml", j_sgml }, { "html", j_html }, { "parser", j_parser },
		{ "http", j_http }, { "stream", j_stream }, { "idrec", j_idrec }, { "small", j_small }, { "minisign", j_minisign } };
	const unsigned n_jobs = sizeof(jobs) / sizeof(*jobs);
	std::string perform(unsigned k, uint64_t r)
	{
		std::string o;
		rnd x(r);
		try { jobs[k].fn(x, o); }
		catch (const std::exception& e) { o += "exception "; o += e.what(); }
		return o;
	}
	// What initialises itself the first time does so outside of the runs
	struct warm { warm() { for (unsigned k = 0; k < n_jobs; ++k) for (uint64_t r = 0; r < 40; ++r) perform(k, r); } } g_warm;

	void s_apart()
	{
		struct work { unsigned k; uint64_t r; std::string want, got; };
		unsigned threads = 2 + choose(2), focus = choose(n_jobs);
		std::vector<std::vector<work>> w(threads);
		for (auto& t : w)
			for (unsigned n = 1 + choose(2); n; --n) {
				unsigned k = choose(4) ? focus : choose(n_jobs);
				uint64_t r = choose(1u << 20);
				t.push_back(work{ k, r, perform(k, r), std::string() });
				ev("%s %llu", jobs[k].name, (unsigned long long)r);
				count_op(jobs[k].name);
			}
		set_schedule(0);
		std::vector<std::thread> run;
		for (auto& t : w) run.emplace_back([&t] { for (auto& x : t) x.got = perform(x.k, x.r); });
		for (auto& t : run) t.join();
		for (auto& t : w) for (auto& x : t) SIM_CHECK(x.got == x.want, "disturbed", "%s %llu gives another result (%zu bytes) than alone (%zu bytes)", jobs[x.k].name, (unsigned long long)x.r, x.got.size(), x.want.size());
		state(focus * 4 + threads);
	}
}
SIM_SCENARIOS("C47", { "apart", 1, s_apart })
