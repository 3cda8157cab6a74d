// SIM: plain
// C41: escaped text (SGML, HTML, URL, CSS) means what the text meant, whatever the limits, the room and the memory.
#include <stdint.h>
#include <stdexcept>
#include <string>
#include <memory>
#include <mutex>
#include <stdex/html.hpp>
#include <stdex/sgml.hpp>
#include "sim.h"
#include "entities.h"
#include "texts.h"
#include <string.h>
#include <map>
#include <set>
#include <string_view>
#include <vector>
using namespace sim;
namespace html = stdex::html;
typedef stdex::mapping_vector<size_t> map_t;
typedef stdex::mapping<size_t> at_t;

namespace
{
	typedef std::basic_string<uint32_t> text; // code points

	// Appends to a string: what it had stays, memory may run out
	template <class T, class F> void appends(const char* what, const std::basic_string<T>& want, F f)
	{
		std::basic_string<T> before;
		for (unsigned n = choose(3) ? 0 : size(40); n--;) before += static_cast<T>("a&;%\\"[choose(5)]);
		heap_track track;
		uint64_t held = heap_live();
		{
			std::basic_string<T> dst(before);
			bool failed = false;
			if (choose(4) == 1) {
				alloc_faults faults(1, 1 + choose(4));
				try { f(dst); }
				catch (const std::bad_alloc&) { failed = true; SIM_CHECK(faults.fired(), "alloc", "%s runs out of memory by itself", what); }
				if (failed) {
					SIM_CHECK(dst.size() >= before.size() && !dst.compare(0, before.size(), before), "before", "%s: running out of memory cost the text already there", what);
					SIM_CHECK(dst.size() - before.size() <= want.size() && !want.compare(0, dst.size() - before.size(), dst, before.size()), "partial", "%s: when memory ran out, %s had been appended instead of the start of %s", what, show(dst).c_str(), show(want).c_str());
				}
			}
			else
				f(dst);
			if (failed) {
				dst = before;
				f(dst);
			}
			SIM_CHECK(dst.size() >= before.size() && !dst.compare(0, before.size(), before), "before", "%s lost the text already there", what);
			SIM_CHECK(!dst.compare(before.size(), std::basic_string<T>::npos, want), "text", "%s: %s instead of %s", what, show(dst.substr(before.size())).c_str(), show(want).c_str());
		}
		SIM_CHECK(heap_live() == held, "leak", "%s leaks", what);
		count_op(what);
	}

	// ---- HTML ----------------------------------------------------------------------------------
	template <class T> std::basic_string<T> random_text(const char* pieces, unsigned max)
	{
		std::basic_string<T> r;
		size_t n_pieces = strlen(pieces);
		for (unsigned n = size(max); n--;) {
			switch (choose(sizeof(T) == 1 ? 4 : 5)) {
			case 0: r += 'a' + choose(26); break;
			case 1: case 2: r += pieces[choose(n_pieces)]; break;
			case 3: r += static_cast<T>(1 + choose(255)); break;
			case 4: r += static_cast<T>(choose(2) ? 0xa0 : 0x100 + choose(0x1000)); break;
			}
		}
		return r;
	}
	template <class T> std::basic_string<T> escaped(const std::basic_string<T>& s, bool min)
	{
		std::basic_string<T> r;
		for (auto c : s) {
			if (c == '&') r += wide<T>("&amp;");
			else if (c == '<') r += wide<T>("&lt;");
			else if (c == '>') r += wide<T>("&gt;");
			else if (!min && c == ';') r += wide<T>("&semi;");
			else if (!min && c == '"') r += wide<T>("&quot;");
			else if (!min && c == '\'') r += wide<T>("&#x27;");
			else if (sizeof(T) > 1 && unit(c) == 0xa0) r += wide<T>("&nbsp;");
			else r += c;
		}
		return r;
	}
	template <class T> void html_texts()
	{
		typedef std::basic_string<T> str;
		auto s = random_text<T>("&;\"'<>", 40);
		bool min = choose(2);
		ev("html %d %s", min, show(s).c_str());
		auto want = escaped(s, min);
		{
			block<T> b(s);
			appends<T>("html escape", want, [&](str& dst) { if (min) html::escape_min(dst, b.p, b.limit); else html::escape(dst, b.p, b.limit); });
		}
		if (choose(2))
			appends<T>("html escape (string)", want, [&](str& dst) { if (min) html::escape_min(dst, s); else html::escape(dst, s); });
		else {
			T arr[8];
			for (size_t i = 0; i < 8; ++i) arr[i] = i < s.size() ? s[i] : 0;
			appends<T>("html escape (array)", escaped(s.substr(0, 8), min), [&](str& dst) { if (min) html::escape_min(dst, arr); else html::escape(dst, arr); });
		}
		if (min)
			appends<T>("html escape (character)", want, [&](str& dst) { for (auto c : s) html::escape_min(dst, c); });
		if (sizeof(T) > 1) {
			// Browsers get the text back
			std::wstring back = stdex::sgml2str(want), orig;
			for (auto c : s) orig += static_cast<wchar_t>(c);
			if (!min) SIM_CHECK(back == orig, "round", "%s comes back as %s", show(s).c_str(), show(back).c_str());
		}
	}

	// ---- URL -----------------------------------------------------------------------------------
	int hex(uint32_t c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'A' && c <= 'F' ? c - 'A' + 10 : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }
	std::string url_escaped(const std::string& s)
	{
		std::string r;
		for (char c : s) {
			if (strchr("!\"'()*,-._", c) || (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z')) r += c;
			else { char b[8]; snprintf(b, sizeof(b), "%%%02X", static_cast<uint8_t>(c)); r += b; }
		}
		return r;
	}
	std::string url_unescaped(const std::string& s)
	{
		std::string r;
		for (size_t i = 0; i < s.size(); ++i) {
			int h, l;
			if (s[i] == '+') r += ' ';
			else if (s[i] == '%' && i + 2 < s.size() + 0 && (h = hex(unit(s[i + 1]))) >= 0 && (l = hex(unit(s[i + 2]))) >= 0) { r += static_cast<char>(h << 4 | l); i += 2; }
			else r += s[i];
		}
		return r;
	}
	void url_texts()
	{
		auto s = random_text<char>(" <>#%{}|\\^~[]`;+/?:@=&$\"'()*,-._!%%", 40);
		auto want = url_escaped(s);
		ev("url %s", show(s).c_str());
		{
			block<char> b(s);
			appends<char>("url_escape", want, [&](std::string& dst) { html::url_escape(dst, b.p, b.limit); });
		}
		{
			block<char> b(want);
			appends<char>("url_unescape", s, [&](std::string& dst) { html::url_unescape(dst, b.p, b.limit); });
		}
		// Whatever arrives
		std::string any;
		for (unsigned n = size(30); n--;) {
			switch (choose(5)) {
			case 0: any += 'g' + choose(10); break;
			case 1: any += '%'; break;
			case 2: any += "0123456789abcdefABCDEF"[choose(22)]; break;
			case 3: any += '+'; break;
			case 4: { char b[8]; snprintf(b, sizeof(b), choose(2) ? "%%%02x" : "%%%02X", choose(256)); any += b; break; }
			}
		}
		ev("url %s", show(any).c_str());
		{
			block<char> b(any);
			appends<char>("url_unescape", url_unescaped(any), [&](std::string& dst) { html::url_unescape(dst, b.p, b.limit); });
		}
		char arr[8];
		for (size_t i = 0; i < 8; ++i) arr[i] = i < any.size() ? any[i] : 0;
		appends<char>("url_unescape (array)", url_unescaped(any.substr(0, 8)), [&](std::string& dst) { html::url_unescape(dst, arr); });
		appends<char>("url_escape (array)", url_escaped(any.substr(0, 8)), [&](std::string& dst) { html::url_escape(dst, arr); });
		size_t from = choose(any.size() + 1), n = choose(any.size() - from + 1); // A view into a longer text
		auto part = std::string_view(any).substr(from, n);
		appends<char>("url_unescape (view)", url_unescaped(std::string(part)), [&](std::string& dst) { html::url_unescape(dst, part); });
		appends<char>("url_escape (view)", url_escaped(std::string(part)), [&](std::string& dst) { html::url_escape(dst, part); });
	}

	// ---- CSS -----------------------------------------------------------------------------------
	template <class T> std::basic_string<T> css_escaped(const std::basic_string<T>& s)
	{
		std::basic_string<T> r;
		for (auto c : s) {
			if (c == '\\' || c == '"' || c == '\'') { r += '\\'; r += c; }
			else if (c == '\n' || c == '\r' || c == '\t') { r += '\\'; r += c == '\n' ? 'n' : c == '\r' ? 'r' : 't'; }
			else r += c;
		}
		return r;
	}
	template <class T> std::basic_string<T> css_unescaped(std::basic_string<T>& s)
	{
		std::basic_string<T> r;
		for (size_t i = 0; i < s.size();) {
			if (s[i] != '\\' || i + 1 == s.size()) { r += s[i++]; continue; }
			auto c = s[++i];
			if (c == 'n' || c == 'r' || c == 't') { r += c == 'n' ? '\n' : c == 'r' ? '\r' : '\t'; ++i; }
			else if (c == '\n') ++i;
			else if (sizeof(T) > 1 && unit(c) > 0x7f) { r += c; ++i; }
			else if (hex(unit(c)) < 0) { r += c; ++i; }
			else {
				uint32_t x = 0;
				unsigned n = 0;
				for (; n < 6 && i < s.size() && hex(unit(s[i])) >= 0; ++n) x = x << 4 | hex(unit(s[i++]));
				r += static_cast<T>(x);
				if (i < s.size() && s[i] == ' ') {
					if (n < 6) ++i;
					else s[i] = '_'; // It takes no space to end six digits: there is no agreement whether it belongs to them
				}
			}
		}
		return r;
	}
	template <class T> void css_texts()
	{
		typedef std::basic_string<T> str;
		auto s = random_text<T>("\\\n\r\t\"'0aAf n", 40);
		auto want = css_escaped(s);
		ev("css %s", show(s).c_str());
		{
			block<T> b(s);
			appends<T>("css_escape", want, [&](str& dst) { html::css_escape(dst, b.p, b.limit); });
		}
		{
			block<T> b(want);
			appends<T>("css_unescape", s, [&](str& dst) { html::css_unescape(dst, b.p, b.limit); });
		}
		appends<T>("css_escape (string)", want, [&](str& dst) { html::css_escape(dst, s); });
		str any;
		for (unsigned n = size(30); n--;) {
			switch (choose(6)) {
			case 0: any += 'g' + choose(20); break;
			case 1: any += '\\'; break;
			case 2: any += "0123456789abcdefABCDEF"[choose(22)]; break;
			case 3: any += "\n\r\t \"'nrt"[choose(9)]; break;
			case 4: any += '\\'; for (unsigned m = 1 + choose(7); m--;) any += "0123456789abcdefABCDEF"[choose(22)]; if (choose(2)) any += ' '; break;
			case 5: any += static_cast<T>(1 + choose(sizeof(T) > 1 ? 0x2000 : 255)); break;
			}
		}
		auto back = css_unescaped(any);
		back = css_unescaped(any);
		ev("css %s", show(any).c_str());
		{
			block<T> b(any);
			appends<T>("css_unescape", back, [&](str& dst) { html::css_unescape(dst, b.p, b.limit); });
		}
		appends<T>("css_unescape (string)", back, [&](str& dst) { html::css_unescape(dst, any); });
		T arr[8];
		str few = any.substr(0, 8);
		css_unescaped(few);
		for (size_t i = 0; i < 8; ++i) arr[i] = i < few.size() ? few[i] : 0;
		appends<T>("css_unescape (array)", css_unescaped(few), [&](str& dst) { html::css_unescape(dst, arr); });
		appends<T>("css_escape (array)", css_escaped(few), [&](str& dst) { html::css_escape(dst, arr); });
	}

	// ---- SGML ----------------------------------------------------------------------------------
	struct known_t {
		std::map<std::string, text> of;                 // what a name stands for
		std::map<text, std::set<std::string>> names;    // who stands for a text
		std::vector<std::string> all;
		std::vector<text> texts;
		known_t()
		{
			for (auto& p : stdex::sgml_unicode) {
				text t;
				for (auto c : p.unicode) if (c) t += unit(c); else break;
				of.insert({ p.sgml, t });
				names[t].insert(p.sgml);
			}
			for (auto& e : html_entities) {
				text t(1, e.chr[0]);
				if (e.chr[1]) t += e.chr[1];
				of[e.name] = t;
				names[t].insert(e.name);
			}
			for (auto& e : of) all.push_back(e.first);
			for (auto& e : names) texts.push_back(e.first);
		}
	};
	const known_t& known() { static const known_t k; return k; }

	const struct { int flag; const char* chars; } groups[] = {
		{ stdex::sgml_quot, "\"" }, { stdex::sgml_apos, "'" }, { stdex::sgml_amp, "&" }, { stdex::sgml_lt_gt, "<>" }, { stdex::sgml_bsol, "\\" },
		{ stdex::sgml_dollar, "$" }, { stdex::sgml_percnt, "%" }, { stdex::sgml_commat, "@" }, { stdex::sgml_num, "#" }, { stdex::sgml_lpar_rpar, "()" },
		{ stdex::sgml_lcub_rcub, "{}" }, { stdex::sgml_lsqb_rsqb, "[]" } };
	int random_flags(bool full)
	{
		switch (choose(full ? 5 : 4)) {
		case 0: return 0;
		case 1: { static const int usual[] = { stdex::sgml_sgml, stdex::sgml_ml_attrib, stdex::sgml_c, stdex::sgml_quot_apos }; return usual[choose(4)]; }
		case 2: return groups[choose(12)].flag;
		case 3: { int f = 0; for (auto& g : groups) if (choose(2)) f |= g.flag; return f; }
		default: return stdex::sgml_full;
		}
	}
	bool listed(int flags, uint32_t c)
	{
		for (auto& g : groups) if ((flags & g.flag) && c && c < 0x80 && strchr(g.chars, c)) return true;
		return false;
	}
	bool space(uint32_t c) { return c == ' ' || (c >= 9 && c <= 13); }

	// The entity at `i`: where it ends and what it stands for
	template <class T> bool entity(const std::basic_string<T>& s, size_t i, size_t& end, text& is)
	{
		size_t e = i + 1;
		while (e < s.size() && s[e] != ';' && s[e] != '&' && !space(unit(s[e]))) ++e;
		if (e >= s.size() || s[e] != ';') return false;
		end = e + 1;
		std::string name;
		for (size_t j = i + 1; j < e; ++j) if (unit(s[j]) > 0x7f) return false; else name += static_cast<char>(s[j]);
		if (name.size() > 1 && name[0] == '#') {
			bool x = name[1] == 'x' || name[1] == 'X';
			is.assign(1, static_cast<uint32_t>(strtoul(name.c_str() + (x ? 2 : 1), nullptr, x ? 16 : 10)));
			return true;
		}
		auto k = known().of.find(name);
		if (k == known().of.end()) return false;
		is = k->second;
		return true;
	}
	// Numbers that are none: undefined
	template <class T> void only_numbers(std::basic_string<T>& s)
	{
		for (size_t i = 0; i + 1 < s.size(); ++i) {
			if (s[i] != '&' || s[i + 1] != '#') continue;
			size_t j = i + 2;
			bool x = j < s.size() && (s[j] == 'x' || s[j] == 'X');
			if (x) ++j;
			size_t from = j;
			while (j < s.size() && (x ? hex(unit(s[j])) >= 0 : s[j] >= '0' && s[j] <= '9')) ++j;
			if (j == from || j - from > 9 || (j < s.size() && s[j] != ';')) { s[i + 1] = 'n'; continue; }
			uint64_t n = 0;
			for (size_t k = from; k < j; ++k) n = n * (x ? 16 : 10) + hex(unit(s[k]));
			if (!n || n > 0x10ffff) s[i + 1] = 'n';
		}
	}
	template <class T> std::basic_string<T> sgml_text()
	{
		std::basic_string<T> r;
		for (unsigned n = size(20); n--;) {
			char b[32];
			switch (choose(sizeof(T) > 1 ? 11 : 10)) {
			case 0: r += 'a' + choose(26); break;
			case 1: r += wide<T>("&" + known().all[choose(known().all.size())] + ";"); break;
			case 2: snprintf(b, sizeof(b), choose(2) ? "&#x%x;" : "&#X%0*X;", 1 + choose(7), 1 + choose(choose(2) ? 0x7f : 0x10ffff)); if (b[2] == 'x') snprintf(b, sizeof(b), "&#x%x;", 1 + choose(choose(2) ? 0x7f : 0x10ffff)); r += wide<T>(b); break;
			case 3: snprintf(b, sizeof(b), "&#%u;", 1 + choose(choose(2) ? 0x7f : 0x10ffff)); r += wide<T>(b); break;
			case 4: r += "&;#x \t\n\"'<>"[choose(11)]; break;
			case 5: { auto name = known().all[choose(known().all.size())]; name.resize(choose(name.size() + 1)); r += wide<T>("&" + name + (choose(2) ? ";" : "")); break; }
			case 6: { auto name = known().all[choose(known().all.size())]; name[choose(name.size())] = "aZ1#x~"[choose(6)]; r += wide<T>("&" + name + ";"); break; }
			case 7: { static const char* const common[] = { "amp", "lt", "gt", "quot", "apos", "nbsp", "bsol", "dollar", "percnt", "commat", "num", "lpar", "rpar", "lcub", "rcub", "lsqb", "rsqb", "semi", "#38", "#x3c" }; r += wide<T>(std::string("&") + common[choose(20)] + ";"); break; }
			case 8: { auto name = known().all[choose(known().all.size())]; name += "aZ1;"[choose(4)]; r += wide<T>("&" + name + ";"); break; }
			case 9: r += "\\$%@#()[]{}"[choose(11)]; break;
			case 10: r += static_cast<T>(0x80 + choose(0x3000)); break;
			}
		}
		only_numbers(r);
		return r;
	}
	template <class T> std::wstring decoded(const std::basic_string<T>& s, int skip, at_t offset, size_t before, map_t* map)
	{
		std::wstring r;
		for (size_t i = 0; i < s.size();) {
			size_t end;
			text is;
			if (s[i] == '&' && entity(s, i, end, is) && !listed(skip, is[0])) {
				if (map) map->push_back(at_t(offset.from + i, offset.to + before + r.size()));
				for (auto c : is) r += static_cast<wchar_t>(c);
				i = end;
				if (map) map->push_back(at_t(offset.from + i, offset.to + before + r.size()));
			}
			else r += static_cast<wchar_t>(s[i++]);
		}
		return r;
	}
	template <class T> size_t first_error(const std::basic_string<T>& s)
	{
		for (size_t i = 0; i < s.size();) {
			size_t end;
			text is;
			if (s[i] != '&') { ++i; continue; }
			if (!entity(s, i, end, is)) return i;
			i = end;
		}
		return SIZE_MAX;
	}
	void same_map(const map_t& m, const map_t& want)
	{
		SIM_CHECK(m.size() == want.size(), "map", "the map has %zu pairs instead of %zu", m.size(), want.size());
		for (size_t i = 0; i < m.size(); ++i)
			SIM_CHECK(m[i] == want[i], "map", "pair %zu is %zu:%zu instead of %zu:%zu", i, m[i].from, m[i].to, want[i].from, want[i].to);
	}
	// The map leads from every character to what it became and back, whatever was asked before
	template <class T> void verify_map(const std::basic_string<T>& s, const map_t& map, int skip, at_t offset)
	{
		if (offset.from != offset.to) return; // Before the first entity there is nothing to tell the difference
		std::vector<at_t> pairs;
		size_t j = 0;
		for (size_t i = 0; i < s.size();) {
			size_t end;
			text is;
			pairs.push_back(at_t(offset.from + i, offset.to + j));
			if (s[i] == '&' && entity(s, i, end, is) && !listed(skip, is[0])) { i = end; j += is.size(); }
			else { ++i; ++j; }
		}
		pairs.push_back(at_t(offset.from + s.size(), offset.to + j));
		size_t to_hint = 0, from_hint = 0;
		for (unsigned n = 1 + choose(12); n--;) {
			auto& p = pairs[choose(pairs.size())];
			size_t d, f;
			if (choose(2)) {
				d = stdex::src2dst(map, p.from, to_hint);
				f = stdex::dst2src(map, p.to, from_hint);
			}
			else {
				d = stdex::src2dst(map, p.from);
				f = stdex::dst2src(map, p.to);
			}
			SIM_CHECK(d == p.to, "translate", "character %zu is taken to %zu instead of %zu", p.from, d, p.to);
			SIM_CHECK(f == p.from, "translate", "character %zu is taken back to %zu instead of %zu", p.to, f, p.from);
			count_op("positions translated");
		}
	}
	// Any ordered map leads from any position to the one as far behind the last pair before it, whatever was asked before
	void positions()
	{
		map_t map;
		size_t a = choose(3) ? 0 : choose(6), b = choose(2) ? a : choose(6);
		bool same = a == b;
		for (unsigned n = choose(choose(3) ? 6 : 40); n--;) {
			map.push_back(at_t(a, b));
			a += 1 + choose(4);
			b += 1 + choose(4);
		}
		size_t to_hint = 0, from_hint = 0;
		for (unsigned n = 1 + choose(30); n--;) {
			bool back = choose(2), hinted = choose(3);
			size_t x = choose((uint32_t)(back ? b : a) + 6);
			const at_t* last = nullptr;
			for (auto& p : map) if ((back ? p.to : p.from) <= x) last = &p;
			size_t got = back ?
				(hinted ? stdex::dst2src(map, x, from_hint) : stdex::dst2src(map, x)) :
				(hinted ? stdex::src2dst(map, x, to_hint) : stdex::src2dst(map, x));
			size_t want = last ? (back ? last->from + (x - last->to) : last->to + (x - last->from)) : x;
			if (!last && !map.empty() && !same) {
				size_t most = back ? map[0].from : map[0].to; // Nothing says what is there, but it is before the first pair
				SIM_CHECK(got <= most, "translate", "position %zu before the first pair is taken to %zu behind %zu", x, got, most);
			}
			else SIM_CHECK(got == want, "translate", "position %zu is taken%s to %zu instead of %zu", x, back ? " back" : "", got, want);
			evn(back, x, got);
			count_op("positions translated");
		}
		if (map.empty()) return;
		at_t p = map[choose((uint32_t)map.size())], q = map[choose((uint32_t)map.size())], s = p + q, r = p;
		r.invert();
		SIM_CHECK(r.from == p.to && r.to == p.from, "pair", "%zu:%zu inverted is %zu:%zu", p.from, p.to, r.from, r.to);
		SIM_CHECK(s.from == p.from + q.from && s.to == p.to + q.to, "pair", "%zu:%zu and %zu:%zu make %zu:%zu", p.from, p.to, q.from, q.to, s.from, s.to);
		SIM_CHECK((p == r) == (p.from == p.to) && (p != r) == (p.from != p.to), "pair", "%zu:%zu and %zu:%zu are compared wrong", p.from, p.to, r.from, r.to);
		at_t u(p.from, p.to + 1);
		SIM_CHECK(!(u == p) && u != p, "pair", "%zu:%zu and %zu:%zu are compared wrong", p.from, p.to, u.from, u.to);
	}
	// A buffer of `n` units in a block of its own, with a text in it
	template <class T> struct room {
		std::unique_ptr<T[]> data;
		size_t n;
		room(size_t _n, const std::basic_string<T>& has) : data(new T[_n]), n(_n)
		{
			for (size_t i = 0; i < n; ++i) data[i] = i < has.size() ? has[i] : i == has.size() ? 0 : static_cast<T>('?');
		}
	};
	template <class T, class F> void fits(const char* what, const std::basic_string<T>& has, const std::basic_string<T>& want, F f)
	{
		size_t need = has.size() + want.size() + 1, n = has.size() + 1;
		switch (choose(4)) {
		case 0: n = need; break;
		case 1: n = need + choose(10); break;
		case 2: n = need - 1; break;
		case 3: n = choose(need); break;
		}
		if (n <= has.size()) n = has.empty() ? 0 : has.size() + 1; // What there is has to fit
		room<T> r(n, has);
		bool over = false;
		size_t len = 0;
		try { len = f(n || choose(2) ? r.data.get() : nullptr, n); }
		catch (const std::invalid_argument&) { over = true; }
		SIM_CHECK(over == (n < need), over ? "fits" : "overrun", "%s: %zu units in a buffer of %zu %s", what, need, n, over ? "do not fit" : "fit");
		for (size_t i = 0; i < has.size(); ++i) SIM_CHECK(r.data[i] == has[i], "before", "%s lost the text already there", what);
		if (over) { count_op("does not fit"); return; }
		SIM_CHECK(len == need - 1, "length", "%s says it is %zu units long, and it is %zu", what, len, need - 1);
		std::basic_string<T> got(r.data.get() + has.size(), r.data.get() + len);
		SIM_CHECK(got == want, "text", "%s: %s instead of %s", what, show(got).c_str(), show(want).c_str());
		SIM_CHECK(!r.data[len], "terminator", "%s: no terminator", what);
		for (size_t i = len + 1; i < n; ++i) SIM_CHECK(i <= has.size() || r.data[i] == '?', "beyond", "%s writes beyond the terminator", what);
		count_op(what);
	}
	void warm_up()
	{
		// The first use allocates what is never released
		wchar_t w[1];
		char c[1];
		try { stdex::sgml2strcpy(w, 1, "a", 1); } catch (const std::invalid_argument&) {}
		try { stdex::sgml2strcpy(w, 1, L"a", 1); } catch (const std::invalid_argument&) {}
		try { stdex::str2sgmlcpy(c, 1, L"a", 1); } catch (const std::invalid_argument&) {}
		try { stdex::str2sgmlcpy(c, 1, u"a", 1); } catch (const std::invalid_argument&) {}
		known();
	}
	template <class T> void decode()
	{
		warm_up();
		auto s = sgml_text<T>();
		int skip = random_flags(false);
		at_t offset(choose(100), choose(100));
		if (choose(2)) offset.to = offset.from;
		ev("sgml %x %s", skip, show(s).c_str());
		block<T> b(s);
		map_t want_map, map;
		auto want = decoded(s, skip, offset, 0, &want_map);
		verify_map(s, want_map, skip, offset);
		bool mapped = choose(2);
		switch (choose(6)) {
		case 0: {
			auto r = stdex::sgml2str(b.p, b.limit, skip, offset, mapped ? &map : nullptr);
			SIM_CHECK(r == want, "text", "%s is %s instead of %s", show(s).c_str(), show(r).c_str(), show(want).c_str());
			break;
		}
		case 1: {
			auto r = stdex::sgml2str(s, skip, offset, mapped ? &map : nullptr);
			SIM_CHECK(r == want, "text", "%s is %s instead of %s", show(s).c_str(), show(r).c_str(), show(want).c_str());
			break;
		}
		case 2: {
			mapped = false;
			appends<wchar_t>("sgml2strcat", want, [&](std::wstring& dst) { if (choose(2)) stdex::sgml2strcat(dst, b.p, b.limit, skip); else stdex::sgml2strcat(dst, s, skip); });
			break;
		}
		case 3: {
			std::wstring dst(choose(20), L'x');
			want_map.clear();
			if (choose(2)) {
				// Continues the map where it is
				map.push_back(at_t(1, 2));
				want_map.push_back(at_t(1, 2));
				decoded(s, skip, offset, dst.size(), &want_map);
				auto before = dst.size();
				stdex::sgml2strcat(dst, b.p, b.limit, skip, offset, mapped ? &map : nullptr);
				SIM_CHECK(dst == std::wstring(before, L'x') + want, "text", "%s is %s instead of %s", show(s).c_str(), show(dst).c_str(), show(want).c_str());
				if (!mapped) mapped = true, want_map.resize(1);
			}
			else {
				map.push_back(at_t(1, 2)); // Starts all over
				decoded(s, skip, offset, 0, &want_map);
				if (choose(2)) stdex::sgml2strcpy(dst, b.p, b.limit, skip, offset, mapped ? &map : nullptr);
				else stdex::sgml2strcpy(dst, s, skip, offset, mapped ? &map : nullptr);
				SIM_CHECK(dst == want, "text", "%s is %s instead of %s", show(s).c_str(), show(dst).c_str(), show(want).c_str());
			}
			break;
		}
		case 4: {
			std::wstring has(choose(10), L'x');
			mapped = false;
			fits<wchar_t>("sgml2strcat (buffer)", has, want, [&](wchar_t* dst, size_t n) {
				size_t r = stdex::sgml2strcat(dst, n, b.p, b.limit, skip, offset, &map);
				want_map.clear();
				decoded(s, skip, offset, has.size(), &want_map);
				same_map(map, want_map);
				return r;
			});
			break;
		}
		case 5:
			fits<wchar_t>("sgml2strcpy (buffer)", std::wstring(), want, [&](wchar_t* dst, size_t n) {
				if (n) dst[0] = 'x';
				size_t r = stdex::sgml2strcpy(dst, n, b.p, b.limit, skip, offset, mapped ? &map : nullptr);
				if (mapped) same_map(map, want_map);
				return r;
			});
			mapped = false;
			break;
		}
		if (mapped) same_map(map, want_map);
		bool ascii = true;
		for (auto c : s) if (unit(c) > 0x7f) ascii = false;
		if (ascii) {
			size_t e = choose(2) ? stdex::sgmlerr(b.p, b.limit, choose(2) ? stdex::sgml_full : 0) : stdex::sgmlerr(s), e_want = first_error(s);
			SIM_CHECK(e == e_want, "sgmlerr", "%s: the first error is at %zd instead of %zd", show(s).c_str(), e, e_want);
			count_op("sgmlerr");
		}
	}

	// What the code units say: glyphs of code points
	bool combining(uint32_t c) { return (c >= 0x300 && c < 0x370) || (c >= 0x1dc0 && c < 0x1e00) || (c >= 0x20d0 && c < 0x2100) || (c >= 0xfe20 && c < 0xfe30); }
	void put(std::u16string& s, uint32_t c)
	{
		if (c < 0x10000) s += static_cast<char16_t>(c);
		else { s += static_cast<char16_t>(0xd800 + ((c - 0x10000) >> 10)); s += static_cast<char16_t>(0xdc00 + ((c - 0x10000) & 0x3ff)); }
	}
	void put(std::wstring& s, uint32_t c) { s += static_cast<wchar_t>(c); }
	text points(const std::wstring& s) { text r; for (auto c : s) r += unit(c); return r; }
	text points(const std::u16string& s)
	{
		text r;
		for (size_t i = 0; i < s.size(); ++i) {
			if (s[i] >= 0xd800 && s[i] < 0xdc00 && i + 1 < s.size() && s[i + 1] >= 0xdc00 && s[i + 1] < 0xe000) { r += 0x10000 + ((s[i] - 0xd800) << 10) + (s[i + 1] - 0xdc00); ++i; }
			else r += s[i];
		}
		return r;
	}
	// One code point as an entity, a number or itself
	void verify_point(const std::string& out, size_t& o, uint32_t c, bool named, bool forced)
	{
		auto k = known().names.find(text(1, c));
		if (k != known().names.end() && (forced || c > 0x7f)) {
			SIM_CHECK(o < out.size() && out[o] == '&', "entity", "%x is not made an entity at %zu of %s", c, o, show(out).c_str());
			size_t e = out.find(';', o);
			SIM_CHECK(e != std::string::npos, "entity", "the entity at %zu of %s does not end", o, show(out).c_str());
			auto name = out.substr(o + 1, e - o - 1);
			SIM_CHECK(k->second.count(name), "entity", "%x is made %s", c, name.c_str());
			o = e + 1;
		}
		else if (c <= 0x7f) {
			SIM_CHECK(o < out.size() && unit(out[o]) == c, "plain", "%x is not itself at %zu of %s", c, o, show(out).c_str());
			++o;
		}
		else {
			char b[32];
			snprintf(b, sizeof(b), "&#x%x;", c);
			SIM_CHECK(!out.compare(o, strlen(b), b), "number", "%x is not %s at %zu of %s", c, b, o, show(out).c_str());
			o += strlen(b);
		}
	}
	template <class T> text verify_encoded(const std::basic_string<T>& s, const std::string& out, int what)
	{
		text p = points(s), back;
		size_t o = 0;
		bool full = what & stdex::sgml_full;
		for (size_t i = 0; i < p.size();) {
			size_t n = 1;
			while (i + n < p.size() && combining(p[i + n])) ++n;
			auto glyph = p.substr(i, n);
			auto k = known().names.find(glyph);
			if (n > 1 && k != known().names.end()) {
				size_t e = out.find(';', o);
				SIM_CHECK(o < out.size() && out[o] == '&' && e != std::string::npos, "entity", "the glyph at %zu is not made an entity at %zu of %s", i, o, show(out).c_str());
				auto name = out.substr(o + 1, e - o - 1);
				SIM_CHECK(k->second.count(name), "entity", "the glyph at %zu is made %s", i, name.c_str());
				back += known().of.at(name);
				o = e + 1;
			}
			else for (auto c : glyph) {
				size_t from = o;
				verify_point(out, o, c, false, n > 1 || full || c == '&' || listed(what & ~stdex::sgml_amp, c));
				back += out[from] == '&' && out[from + 1] != '#' ? known().of.at(out.substr(from + 1, o - from - 2)) : text(1, c);
			}
			i += n;
		}
		SIM_CHECK(o == out.size(), "more", "%s goes on after the text", show(out).c_str());
		return back;
	}
	template <class T> void encode()
	{
		warm_up();
		std::basic_string<T> s;
		for (unsigned n = size(20); n--;) {
			switch (choose(8)) {
			case 0: put(s, 'a' + choose(26)); break;
			case 1: put(s, 1 + choose(0x7f)); break;
			case 2: put(s, "\"'&<>\\$%@#()[]{}"[choose(16)]); break;
			case 3: for (auto c : known().texts[choose(known().texts.size())]) put(s, c); break;
			case 4: put(s, 0x300 + choose(0x70)); break;
			case 5: put(s, 0x80 + choose(0x3000)); break;
			case 6: put(s, 0x10000 + choose(0x100000)); break;
			case 7: put(s, 0xd800 + choose(0x800)); break;
			}
		}
		int what = random_flags(true);
		ev("to sgml %x %s", what, show(s).c_str());
		block<T> b(s);
		auto out = stdex::str2sgml(b.p, b.limit, what);
		text back = verify_encoded(s, out, what);
		std::wstring back_w;
		for (auto c : back) back_w += static_cast<wchar_t>(c);
		auto again = stdex::sgml2str(out);
		SIM_CHECK(again == back_w, "round", "%s comes back as %s", show(s).c_str(), show(again).c_str());
		SIM_CHECK(stdex::sgmlerr(out) == stdex::npos, "round", "%s is not correct", show(out).c_str());
		switch (choose(5)) {
		case 0: { auto r = stdex::str2sgml(s, what); SIM_CHECK(r == out, "text", "%s instead of %s", show(r).c_str(), show(out).c_str()); break; }
		case 1: appends<char>("str2sgmlcat", out, [&](std::string& dst) { if (choose(2)) stdex::str2sgmlcat(dst, b.p, b.limit, what); else stdex::str2sgmlcat(dst, s, what); }); break;
		case 2: {
			std::string dst(choose(20), 'x');
			if (choose(2)) stdex::str2sgmlcpy(dst, b.p, b.limit, what); else stdex::str2sgmlcpy(dst, s, what);
			SIM_CHECK(dst == out, "text", "%s instead of %s", show(dst).c_str(), show(out).c_str());
			break;
		}
		case 3: fits<char>("str2sgmlcat (buffer)", std::string(choose(10), 'x'), out, [&](char* dst, size_t n) { return stdex::str2sgmlcat(dst, n, b.p, b.limit, what); }); break;
		case 4: fits<char>("str2sgmlcpy (buffer)", std::string(), out, [&](char* dst, size_t n) { if (n) dst[0] = 'x'; return stdex::str2sgmlcpy(dst, n, b.p, b.limit, what); }); break;
		}
	}
	void html_any() { if (choose(2)) html_texts<wchar_t>(); else html_texts<char>(); }
	void css_any() { if (choose(2)) css_texts<wchar_t>(); else css_texts<char>(); }
	void decode_any() { if (choose(2)) decode<wchar_t>(); else decode<char>(); }
	void encode_any() { if (choose(2)) encode<wchar_t>(); else encode<char16_t>(); }
	// Every entity there is
	void entities()
	{
		auto& k = known();
		auto& e = html_entities[choose(sizeof(html_entities) / sizeof(*html_entities))];
		std::wstring want(1, static_cast<wchar_t>(e.chr[0]));
		if (e.chr[1]) want += static_cast<wchar_t>(e.chr[1]);
		ev("entity %s", e.name);
		auto got = stdex::sgml2str(std::string("&") + e.name + ";");
		SIM_CHECK(got == want, "entity", "&%s; is %s", e.name, show(got).c_str());
		auto& t = k.texts[choose(k.texts.size())];
		std::wstring s;
		for (auto c : t) s += static_cast<wchar_t>(c);
		auto out = stdex::str2sgml(s, stdex::sgml_full);
		bool glyph = true;
		for (size_t i = 1; i < t.size(); ++i) glyph &= combining(t[i]);
		if (glyph) SIM_CHECK(out.size() > 2 && k.names.at(t).count(out.substr(1, out.size() - 2)), "entity", "%s is made %s", show(s).c_str(), show(out).c_str());
	}
}
SIM_SCENARIOS("C41",
	{ "html", 2, html_any },
	{ "url", 2, url_texts },
	{ "css", 2, css_any },
	{ "decode", 4, decode_any },
	{ "encode", 4, encode_any },
	{ "positions", 2, positions },
	{ "entities", 1, entities })
