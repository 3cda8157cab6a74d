// SIM: plain
// C34: an HTML document parses the same however it arrives, and its tokens give the document back.
#include <stdint.h>
#include <stdexcept>
#include <string>
#include <memory>
#include <mutex>
#include <stdex/html.hpp>
#include "sim.h"
#include <errno.h>
#include <string.h>
#include <map>
#include <vector>
using namespace sim;
namespace html = stdex::html;
typedef html::document<wchar_t> document;
typedef html::parser<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t>> parser;
typedef html::text_token<wchar_t> text_token;
typedef html::starting_token<wchar_t> starting_token;
typedef html::url_token<wchar_t> url_token;
typedef std::wstring wstr;

namespace
{
	std::string u8(const wstr& s, size_t at = 0, size_t n = 60)
	{
		std::string r;
		for (size_t i = at; i < s.size() && i < at + n; ++i) {
			char b[16];
			if (s[i] >= ' ' && s[i] < 0x7f) r += (char)s[i];
			else { snprintf(b, sizeof(b), "\\x%x", (unsigned)s[i]); r += b; }
		}
		return r;
	}
	wstr W(const char* s) { return wstr(s, s + strlen(s)); }

	// ---- reference: how values are written ---------------------------------------------------
	void min_esc(wstr& o, wchar_t c)
	{
		if (c == '&') o += L"&amp;"; else if (c == '<') o += L"&lt;"; else if (c == '>') o += L"&gt;"; else if (c == 0xa0) o += L"&nbsp;"; else o += c;
	}
	wstr min_esc(const wstr& s) { wstr o; for (auto c : s) min_esc(o, c); return o; }
	wstr full_esc(const wstr& s)
	{
		wstr o;
		for (auto c : s)
			if (c == ';') o += L"&semi;"; else if (c == '"') o += L"&quot;"; else if (c == '\'') o += L"&#x27;"; else min_esc(o, c);
		return o;
	}
	wstr css_esc(const wstr& s)
	{
		wstr o;
		for (auto c : s)
			if (c == '\\') o += L"\\\\"; else if (c == '\n') o += L"\\n"; else if (c == '\r') o += L"\\r"; else if (c == '\t') o += L"\\t";
			else if (c == '"') o += L"\\\""; else if (c == '\'') o += L"\\'"; else o += c;
		return o;
	}

	// ---- documents ---------------------------------------------------------------------------
	struct gen {
		wstr src, out;
		unsigned cond = 0;      // open sections whose end would be taken from the text
		bool canonical = true;  // parsing `out` gives `out`
		int budget;
		uint64_t kinds = 0;
		gen() : budget(choose(3) ? 2 + choose(12) : choose(60)) {}
		void raw(const wstr& s) { src += s; out += s; }
		void raw(const char* s) { raw(W(s)); }

		void chars(wstr& s, wstr& value, wchar_t quote, bool attribute)
		{
			static const struct { const wchar_t* s; const wchar_t* v; } ent[] = {
				{ L"&amp;", L"&" }, { L"&lt;", L"<" }, { L"&gt;", L">" }, { L"&quot;", L"\"" }, { L"&nbsp;", L"\u00a0" }, { L"&eacute;", L"\u00e9" }, { L"&#65;", L"A" }, { L"&#x4e2d;", L"\u4e2d" },
				{ L"&semi;", L";" }, { L"&nosuchthing;", L"&nosuchthing;" }, { L"&#x27;", L"'" }, { L"&#x1F600;", L"\U0001F600" }, { L"&euro;", L"\u20ac" },
			};
			for (unsigned n = 1 + choose(4); n--;)
				switch (choose(8)) {
				case 0: case 1: case 2: {
					static const wchar_t a[] = L"abcdefgh XYZ.,0123-_/\u00e9\u4e2d\U0001F600?+:!#%$@()*~`{}|^\\\t\n=;";
					for (unsigned k = 1 + choose(8); k--;) {
						wchar_t c = a[choose(sizeof(a) / sizeof(*a) - 1)];
						if (!quote && attribute && (wcschr(L" \t\n/", c))) c = 'q';
						s += c; value += c;
					}
					break;
				}
				case 3: case 4: { auto& e = ent[choose(sizeof(ent) / sizeof(*ent))]; s += e.s; value += e.v; break; }
				case 5: if (!attribute && choose(4) == 0) { s += choose(2) ? L"&#x12;" : L"&#19;"; value += L" "; break; } // fall through
				case 6: {
					wchar_t c = L"\"'>[]"[choose(5)];
					if (attribute && (c == quote || (!quote && c != '[' && c != ']'))) c = 'z';
					if (c == ']' && cond) c = 'z';
					s += c; value += c;
					break;
				}
				case 7:
					if (!quote && attribute) break;
					s += L"& "; value += L"& ";
					if (!cond && choose(3) == 0) { s += L"]]"; value += L"]]"; if (!attribute) { s += L">"; value += L">"; } }
					break;
				}
		}
		void text() { wstr s, v; chars(s, v, 0, false); src += s; out += min_esc(v); }
		wstr ws(bool some = false)
		{
			static const char* w[] = { "", " ", "\n", " \t " };
			return W(w[some ? 1 + choose(3) : choose(4)]);
		}
		wstr casing(const char* n)
		{
			wstr s = W(n);
			unsigned m = choose(4);
			if (m > 1) for (size_t i = 0; i < s.size(); ++i) if (m == 2 || choose(2)) s[i] = towupper(s[i]);
			return s;
		}
		static bool is_uri(const std::string& el, const std::string& a)
		{
			static const std::map<std::string, std::string> t = {
				{ "a", " href " }, { "area", " href " }, { "base", " href " }, { "blockquote", " cite " }, { "body", " background " }, { "del", " cite " }, { "form", " action " }, { "img", " longdesc lowsrc src usemap " },
				{ "input", " lowsrc src usemap " }, { "ins", " cite " }, { "link", " href " }, { "q", " cite " }, { "script", " src " }, { "table", " background " }, { "td", " background " }, { "th", " background " }, { "object", " classid code data usemap " }, { "iframe", " src longdesc " },
			};
			auto i = t.find(el);
			return i != t.end() && i->second.find(" " + a + " ") != std::string::npos;
		}
		static bool is_localizable(const std::string& el, const std::string& a)
		{
			static const std::map<std::string, std::string> t = { { "img", "alt" }, { "input", "alt" }, { "object", "alt" }, { "area", "alt" }, { "table", "summary" }, { "td", "abbr" }, { "th", "abbr" } };
			if (a == "title") return true;
			auto i = t.find(el);
			return i != t.end() && i->second == a;
		}
		void attributes(const std::string& el)
		{
			static const char* names[] = { "href", "src", "alt", "title", "class", "cite", "background", "summary", "abbr", "usemap", "longdesc", "data-x", "checked", "action", "onclick" };
			for (unsigned n = choose(2) ? 0 : choose(4); n--;) {
				raw(ws(true));
				const char* a = names[choose(15)];
				raw(casing(a));
				unsigned form = choose(8);
				if (form == 0) continue; // no value
				raw(ws()); raw("="); raw(ws());
				wchar_t q = form < 4 ? L'"' : form < 6 ? L'\'' : 0;
				wstr s, v;
				if (q && choose(6) == 0) s = v = ws();
				else chars(s, v, q, true);
				if (!q && s.empty()) s = v = L"x"; // chars() gives nothing sometimes
				if (q) raw(wstr(1, q));
				bool blank = true;
				for (auto c : s) if (!iswspace(c)) blank = false;
				src += s;
				out += blank || !(is_uri(el, a) || is_localizable(el, a)) ? s : full_esc(v);
				if (q) raw(wstr(1, q));
				else if (src.back() == '/') raw(" ");
			}
		}
		void start(const char* el, bool close = false)
		{
			raw("<"); raw(casing(el)); attributes(el); raw(ws());
			if (close) { if (src.back() == '/' || choose(2)) raw(" "); raw("/>"); }
			else raw(">");
		}
		void end(const char* el) { raw("</"); raw(casing(el)); raw(ws()); raw(">"); }
		const char* name()
		{
			static const char* n[] = { "b", "p", "a", "div", "i", "ul", "li", "table", "tr", "td", "h1", "h3", "em", "span", "font", "form", "blockquote", "pre", "center", "x-foo", "head", "title", "body", "html", "q", "del", "ins", "object", "dl", "dt", "dd", "ol", "select", "option", "u", "thead", "tbody", "th", "caption", "label", "iframe", "sub", "noscript", "a1" };
			return n[choose(sizeof(n) / sizeof(*n))];
		}
		void comment()
		{
			static const char* c[] = { "x", " a <b> c ", " - -- > ", "\n<script>\n", " \"quoted '", " <![IGNORE[ ", "[if IE]><p><![endif]", " ]> ", " </p> <a href=\"" };
			raw("<!--"); raw(c[choose(9)]); raw(" -->");
		}
		void declaration()
		{
			static const char* c[] = { "<!DOCTYPE html>", "<!DOCTYPE HTML PUBLIC \"-//W3C//DTD HTML 4.01//EN\" \"http://www.w3.org/TR/html4/strict.dtd\">", "<!-- -->", "<!ELEMENT br - O EMPTY -- forced > line break -->", "<![if IE 6]>", "<![endif]>", "<!x!>",
				"<?xml version=\"1.0\"?>", "<?php echo '<b' . 1; ?>", "<?x>" };
			raw(c[choose(10)]);
		}
		// Content which appears verbatim
		void verbatim(bool tags)
		{
			for (unsigned n = choose(4); n--;) {
				unsigned k = choose(5);
				if (k == 0 && tags) { raw("<b>"); raw("bold"); raw("</b>"); }
				else if (k == 1 && tags) comment();
				else { wstr s, v; chars(s, v, 0, false); raw(s); }
			}
		}
		void code(const char* el)
		{
			static const char* c[] = { "if (a<b) x();", "document.write(\"<b>bold</b>\");", "/* it's */", " < ", "<!--\nx\n//-->", "</p>", "a>b && c", "</x y=\"", "&lt;", "<", "'<i'", "</", "&" };
			start(el);
			for (unsigned n = choose(4); n--;) raw(c[choose(13)]);
			if (src.back() == '<' || src.back() == '/') raw(" ");
			end(el);
		}
		void css_value(wchar_t q)
		{
			static const wchar_t a[] = L"abc/.:?&=%-_~#;,!\u00e9";
			for (unsigned n = 1 + choose(8); n--;)
				switch (choose(6)) {
				case 0: { // escaped quote
					wchar_t c = choose(2) ? '"' : '\'';
					src += L'\\'; src += c; out += L'\\'; out += c;
					break;
				}
				case 1: src += L"\\41 -"; out += L"A-"; break;
				case 2: src += L"\\\\-"; out += L"\\\\-"; break;
				case 3: if (q) { raw("(x) y"); break; } // fall through
				default: { wchar_t c = a[choose(sizeof(a) / sizeof(*a) - 1)]; src += c; out += c; }
				}
			if (!q && choose(8) == 0) { src += L"\\"; out += L"\\\\"; canonical = false; }
		}
		void css()
		{
			for (unsigned n = choose(5); n--;)
				switch (choose(6)) {
				case 0: { static const char* c[] = { "p { color: red; }\n", "a:hover > b{}", ".x{content:\"a\\\"b\"}", "@media print{i{}}", " url x ", "@impor t" }; raw(c[choose(6)]); break; }
				case 1: raw("/* url(x) @import \"a\" */"); break;
				case 2: raw(choose(2) ? "<!--" : "-->"); break;
				case 3: case 4: {
					raw("p{background:"); raw(casing("url")); raw("("); raw(ws());
					wchar_t q = choose(3) == 0 ? 0 : choose(2) ? '"' : '\'';
					if (q) raw(wstr(1, q));
					else raw("u");
					css_value(q);
					if (q) raw(wstr(1, q));
					raw(ws()); raw(")}");
					break;
				}
				case 5: {
					wchar_t q = choose(2) ? '"' : '\'';
					raw(casing("@import")); raw(ws()); raw(wstr(1, q)); css_value(q); raw(wstr(1, q)); raw(";");
					break;
				}
				}
		}
		void ignored(int depth)
		{
			static const char* c[] = { "text", "<b>", "<!-- ", "\"", "&amp;", "]] ", "> ", "<script>", "[" };
			for (unsigned n = choose(4); n--;)
				if (depth < 2 && choose(4) == 0) { src += choose(2) ? L"<![INCLUDE[" : L"<![ IGNORE ["; ignored(depth + 1); src += L"]]>"; }
				else src += W(c[choose(9)]);
		}
		// Entities that conditions may be made of: the first declaration counts
		std::map<std::string, std::string> entities;
		void entity()
		{
			static const char* names[] = { "a", "ab", "draft", "x.y" };
			std::string n = names[choose(4)], v, literal;
			switch (choose(8)) {
			case 0: v = literal = "IGN"; break;
			case 1: v = literal = "ORE"; break;
			case 2: v = literal = ""; break;
			case 3: if (!entities.empty()) { // of another one
				auto i = entities.begin(); std::advance(i, choose((uint32_t)entities.size()));
				literal = "%" + i->first + ";"; v = i->second;
				if (choose(2)) { literal += "ORE"; v += "ORE"; }
				break;
			} // fall through
			default: { static const char* kw[] = { "INCLUDE", "TEMP", "IGNORE", "CDATA", "RCDATA" }; v = literal = kw[choose(5)]; }
			}
			const char* q = choose(2) ? "\"" : "'";
			if (choose(8) == 1) { // not one to remember
				static const char* c[] = { "<!ENTITY a 'IGNORE'>", "<!ENTITY % draft SYSTEM \"IGNORE\">", "<!ENTITY % a PUBLIC 'x' 'y'>", "<!ENTITYX % a 'CDATA'>", "<!-- <!ENTITY % a 'CDATA'> -->", "<!ENTITY % a>" };
				raw(c[choose(6)]);
				return;
			}
			raw("<!"); raw(casing("entity")); raw(ws(true)); raw("%"); raw(ws(true)); raw(n.c_str()); raw(ws(true));
			raw(q); raw(literal.c_str()); raw(q); raw(ws()); raw(">");
			entities.insert({ n, v });
		}
		void section()
		{
			static const char* kw[] = { "INCLUDE", "TEMP", "IGNORE", "CDATA", "RCDATA", "x y" };
			unsigned k = choose(6);
			std::string c = kw[k];
			if (!entities.empty() && choose(3) == 1) {
				auto i = entities.begin(); std::advance(i, choose((uint32_t)entities.size()));
				std::string v = i->second;
				c = "%" + i->first + ";";
				if (choose(3) == 1) { c = "IGN" + c; v = "IGN" + v; }
				k = v == "IGNORE" ? 2 : v == "CDATA" ? 3 : v == "RCDATA" ? 4 : 0;
			}
			src += L"<![" + ws() + W(c.c_str()) + ws() + L"[";
			if (k == 2) ignored(0);
			else if (k == 3 || k == 4) {
				static const char* c[] = { "a<b>", " ]] > ", "<![CDATA[", "&amp;", "\"<!--", "]", "x" };
				for (unsigned n = choose(4); n--;) { raw(c[choose(7)]); canonical = false; }
				if (src.back() == ']') raw(" ");
			}
			else { cond++; pieces(); cond--; }
			src += L"]]>";
		}
		void piece()
		{
			static const char* raws[] = { "cite", "kbd", "samp", "address" };
			unsigned k = choose(14);
			kinds = mix(kinds ^ k);
			switch (k) {
			case 0: case 1: case 2: text(); break;
			case 3: case 4: case 5: { auto n = name(); start(n); pieces(); end(n); break; }
			case 6: { static const char* n[] = { "br", "img", "hr", "input", "meta", "link", "area", "base" }; auto x = n[choose(8)]; start(x, choose(2)); break; }
			case 7: comment(); break;
			case 8: if (choose(3)) entity(); else declaration(); break;
			case 9: { auto n = raws[choose(4)]; start(n); verbatim(true); end(n); break; }
			case 10: { static const char* n[] = { "script", "code", "comment" }; code(n[choose(3)]); break; }
			case 11: start("style"); css(); end("style"); break;
			case 12: section(); break;
			case 13:
				switch (choose(4)) {
				case 0: start(name()); break;
				case 1: end(name()); break;
				case 2: start(name(), true); break;
				case 3: { // an element ends the one inside
					auto n = raws[choose(4)];
					start("div"); text(); start(n); verbatim(false); end("div");
					break;
				}
				}
			}
		}
		void pieces() { for (unsigned n = choose(4); n-- && budget > 0;) { budget--; piece(); } }
		void tail() // what is never finished
		{
			switch (choose(8)) {
			case 0: src += L"<!-- never ended"; out += L"&lt;!-- never ended"; break;
			case 1: src += L"<img alt=\"x y"; out += L"&lt;img alt=\"x y"; break;
			case 2: src += L"<?x"; out += L"&lt;?x"; break;
			case 3: { static const char* n[] = { "cite", "kbd", "samp", "address", "script", "code", "comment" }; start(n[choose(7)]); raw("never ended"); break; }
			case 4: start("style"); css(); break;
			case 5: src += L"<![INCLUDE["; cond++; text(); cond--; break;
			case 6: src += L"x <"; out += L"x &lt;"; break;
			case 7: src += L"</b"; out += L"&lt;/b"; break;
			}
		}
		void make()
		{
			while (budget > 0) { budget--; piece(); }
			if (choose(3) == 0) tail();
		}
	};
	// Anything that resembles a document
	wstr damaged()
	{
		wstr s;
		if (choose(3)) { gen g; g.make(); s = g.src; }
		static const wchar_t* bits[] = { L"<", L">", L"\"", L"'", L"=", L"/", L"!", L"-", L"--", L"[", L"]", L"]]>", L"<![", L"<!--", L"-->", L"?", L"<?", L"</", L"/>", L" ", L"a", L"<a href=", L"<b>", L"</b>", L"<script>", L"</script>", L"<style>", L"</style>", L"url(", L")", L"\\", L"@import", L"&", L";", L"amp", L"<p>", L"<cite>", L"title=", L"<![CDATA[", L"<![IGNORE[", L"<![INCLUDE[", L"<code>", L"<!", L"<td>", L"</p>", L"<meta http-equiv=content-type content=\"text/html; charset=utf-8\">" };
		const unsigned nb = sizeof(bits) / sizeof(*bits);
		for (unsigned n = 1 + choose(s.empty() ? 25 : 6); n--;) {
			size_t at = s.empty() ? 0 : choose((uint32_t)s.size() + 1);
			switch (s.empty() ? 0 : choose(4)) {
			case 0: case 1: s.insert(at, bits[choose(nb)]); break;
			case 2: s.erase(at, 1 + choose(5)); break;
			case 3: s.resize(at); break;
			}
		}
		return s;
	}

	// ---- what a document is to its user --------------------------------------------------------
	struct view {
		const parser& p;
		const wstr& src;
		std::map<const void*, size_t> index;
		std::string f;
		wstr link;
		view(const parser& _p, const wstr& _src) : p(_p), src(_src) { for (size_t i = 0; i < p.tokens().size(); ++i) index[p.tokens()[i].get()] = i; }
		void num(uint64_t n) { char b[24]; snprintf(b, sizeof(b), "%llx ", (unsigned long long)n); f += b; }
		void str(const wstr& s) { num(s.size()); f.append((const char*)s.data(), s.size() * sizeof(wchar_t)); }
		void seq(const html::sequence* s) { if (!s) { f += "- "; return; } num((uint64_t)s->type); num(s->interval.start); num(s->interval.end); }
		void walk(const html::token* t, unsigned depth = 0)
		{
			auto it = index.find(t);
			SIM_CHECK(it != index.end(), "token", "a tag refers to a token the parser does not have");
			SIM_CHECK(depth < 1000, "token", "tokens refer to themselves");
			f += '(';
			num((uint64_t)t->type); num(t->data);
			seq(t->sequence);
			if (t->type == html::token_t::url) {
				auto u = dynamic_cast<const url_token*>(t);
				SIM_CHECK(u, "token", "an URL token is not an URL token");
				str(u->url); num((uint64_t)u->encoding);
			}
			else {
				auto x = dynamic_cast<const text_token*>(t);
				SIM_CHECK(x, "token", "a text token is not a text token");
				num(x->text_type);
				if (t->type == html::token_t::starting) {
					auto s = dynamic_cast<const starting_token*>(t);
					SIM_CHECK(s, "token", "a starting token is not a starting token");
					str(s->name); seq(s->end_sequence);
				}
				size_t m = 0;
				for (size_t i = 0; i < x->mapping.size(); ++i) {
					num(x->mapping[i].from); num(x->mapping[i].to);
					SIM_CHECK(x->mapping[i].to <= x->text.size() && x->mapping[i].from <= src.size(), "mapping", "text of %zu characters (document of %zu): mapping from %zu to %zu", x->text.size(), src.size(), x->mapping[i].from, x->mapping[i].to);
					SIM_CHECK(!i || (x->mapping[i - 1].to <= x->mapping[i].to && x->mapping[i - 1].from <= x->mapping[i].from), "mapping", "mapping is not sorted: %zu-%zu follows %zu-%zu", x->mapping[i].from, x->mapping[i].to, x->mapping[i - 1].from, x->mapping[i - 1].to);
				}
				for (size_t i = 0; i < x->text.size();) {
					if ((x->text_type & html::has_tokens) && x->text[i] == html::token_tag_start) {
						const html::token* c = html::token::parse_tag(x->text.data(), i);
						SIM_CHECK(c, "token", "a token tag that is not finished");
						walk(c, depth + 1);
						continue;
					}
					if (!x->mapping.empty()) {
						while (m + 1 < x->mapping.size() && x->mapping[m + 1].to <= i) ++m;
						size_t at = x->mapping[m].from + i - x->mapping[m].to;
						SIM_CHECK(x->mapping[m].to <= i && at < src.size() && (src[at] == x->text[i] || src[at] == '&'), "mapping", "character %zu of the text (%s) is mapped to %zu of the document (%s)", i, u8(x->text, i, 1).c_str(), at, u8(src, at, 10).c_str());
					}
					f.append((const char*)&x->text[i++], sizeof(wchar_t));
				}
			}
			f += ')';
		}
	};
	struct result { std::string f; wstr link; std::string error; };
	// Parses a document, with no faults
	result look(const document& d, bool frames = true)
	{
		result r;
		parser p(d, nullptr, 0, frames);
		text_token* t;
		try { t = p.parse(); }
		catch (const std::exception& e) { r.error = e.what(); return r; }
		SIM_CHECK(t, "token", "no root token");
		view v(p, d.source());
		v.walk(t);
		v.num(p.tokens().size());
		r.f.swap(v.f);
		parser::link(r.link, t);
		return r;
	}
	// Feeds the document by chunks
	std::string feed(document& d, const wstr& s, bool peek)
	{
		unsigned mode = choose(3);
		try {
			for (size_t i = 0; i < s.size();) {
				size_t n = mode == 0 ? 1 + choose(4) : mode == 1 ? 1 + choose(40) : 1 + choose((uint32_t)s.size());
				if (n > s.size() - i) n = s.size() - i;
				unsigned form = choose(8);
				if (form == 7) { d.append(nullptr, 0); }
				wchar_t* b = new wchar_t[n + (form == 6)]; // nothing may be read past the chunk
				memcpy(b, s.data() + i, n * sizeof(wchar_t));
				if (form == 6) b[n] = 0;
				try { d.append(b, form == 6 ? SIZE_MAX : n); }
				catch (...) { delete[] b; throw; }
				memset(b, 0x5a, n * sizeof(wchar_t));
				delete[] b;
				i += n;
				if (peek && choose(6) == 0) look(d); // an unfinished document may be parsed too
			}
			d.finalize();
		}
		catch (const std::bad_alloc&) { throw; }
		catch (const std::exception& e) { return e.what(); }
		return std::string();
	}
	std::string put(document& d, const wstr& s)
	{
		try { d.assign(s.data(), s.size()); }
		catch (const std::bad_alloc&) { throw; }
		catch (const std::exception& e) { return e.what(); }
		return std::string();
	}
	size_t differ(const wstr& a, const wstr& b) { size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i; return i > 20 ? i - 20 : 0; }

	// A document that has a past
	void past(document& d)
	{
		for (unsigned n = choose(3); n--;) {
			wstr s = damaged();
			switch (choose(4)) {
			case 0: put(d, s); break;
			case 1: d.clear(); feed(d, s, false); d.clear(); break;
			case 2: d.clear(); try { d.append(s.data(), s.size()); } catch (const std::exception&) {} d.clear(); break; // never finalized
			case 3: {
				static const uint32_t den[] = { 3, 10, 40, 200 };
				alloc_faults g(1, den[choose(4)]);
				d.clear();
				try { d.append(s.data(), s.size()); d.finalize(); } catch (const std::exception&) {}
				d.clear();
				break;
			}
			}
		}
	}
	void whole_document()
	{
		gen g;
		g.make();
		state(g.kinds);
		count_op("documents");
		document d;
		std::string e = put(d, g.src);
		SIM_CHECK(e.empty(), "parse", "document \"%s\": %s", u8(g.src).c_str(), e.c_str());
		SIM_CHECK(d.source() == g.src, "source", "the source of the document differs");
		result r = look(d);
		SIM_CHECK(r.error.empty(), "parse", "document \"%s\": %s", u8(g.src).c_str(), r.error.c_str());
		size_t at = differ(r.link, g.out);
		SIM_CHECK(r.link == g.out, "link", "\"...%s\" became \"...%s\"", u8(g.out, at).c_str(), u8(r.link, at).c_str());
		document c;
		past(c);
		c.clear();
		e = feed(c, g.src, true);
		SIM_CHECK(e.empty(), "chunks", "document by chunks: %s", e.c_str());
		SIM_CHECK(c.source() == g.src, "chunks", "the source of the document by chunks differs");
		result q = look(c);
		at = differ(q.link, r.link);
		SIM_CHECK(q.link == r.link, "chunks", "by chunks: \"...%s\" became \"...%s\"", u8(r.link, at).c_str(), u8(q.link, at).c_str());
		SIM_CHECK(q.f == r.f, "chunks", "tokens of the document by chunks differ");
		if (g.canonical) {
			document k;
			past(k);
			SIM_CHECK(put(k, g.out).empty(), "fixpoint", "what was rebuilt cannot be parsed");
			result z = look(k);
			at = differ(z.link, g.out);
			SIM_CHECK(z.link == g.out, "fixpoint", "rebuilt \"...%s\" became \"...%s\"", u8(g.out, at).c_str(), u8(z.link, at).c_str());
		}
		ev("document %zu characters, %zu rebuilt", g.src.size(), r.link.size());
	}
	void damaged_document()
	{
		wstr s = damaged();
		count_op("damaged documents");
		document d, c;
		past(d);
		std::string e = put(d, s);
		past(c);
		c.clear();
		std::string e2 = feed(c, s, true);
		SIM_CHECK(e == e2, "chunks", "\"%s\": \"%s\" at once, \"%s\" by chunks", u8(s).c_str(), e.c_str(), e2.c_str());
		if (!e.empty()) return;
		result r = look(d), q = look(c);
		SIM_CHECK(r.error == q.error && r.f == q.f && r.link == q.link, "chunks", "\"%s\" differs when parsed by chunks", u8(s, 0, 300).c_str());
		if (verbose) ev("source %s rebuilt %s", u8(s, 0, 2000).c_str(), u8(r.link, 0, 2000).c_str());
		if (s.find(L"<![") == wstr::npos && s.find(L'&') == wstr::npos && s.find(L'\\') == wstr::npos && r.error.empty()) {
			SIM_CHECK(put(c, r.link).empty(), "fixpoint", "what was rebuilt cannot be parsed");
			result z = look(c);
			size_t at = differ(z.link, r.link);
			SIM_CHECK(z.link == r.link, "fixpoint", "rebuilt \"...%s\" became \"...%s\"", u8(r.link, at).c_str(), u8(z.link, at).c_str());
		}

		ev("damaged document %zu characters, %zu rebuilt", s.size(), r.link.size());
	}
	struct meter : public stdex::progress<size_t> {
		size_t lo = 0, hi = 0, at = 0;
		unsigned asked = 0, stop, sets = 0;
		bool ranged = false;
		meter(unsigned _stop) : stop(_stop) {}
		void set_range(size_t a, size_t b) override { lo = a; hi = b; ranged = true; }
		void set(size_t v) override
		{
			SIM_CHECK(ranged && v >= lo && v <= hi, "progress", "progress %zu is out of %zu-%zu", v, lo, hi);
			SIM_CHECK(!sets || v >= at, "progress", "progress went from %zu back to %zu", at, v);
			at = v;
			sets++;
		}
		bool cancel() override { return ++asked == stop; }
	};
	void interrupted()
	{
		gen g;
		g.make();
		count_op("interrupted documents");
		static const uint32_t den[] = { 2, 5, 20, 100, 500 };
		wstr out;
		out.reserve(16);
		uint64_t live;
		unsigned stops = 0;
		{
			heap_track h;
			live = heap_live();
			document d;
			for (unsigned n = 1 + choose(3); n--;) {
				bool loaded = false;
				try {
					alloc_faults f(choose(2), den[choose(5)]);
					d.clear();
					if (choose(2)) d.assign(g.src.data(), g.src.size());
					else {
						size_t cut = g.src.size() ? choose((uint32_t)g.src.size()) : 0;
						d.append(g.src.data(), cut);
						d.append(g.src.data() + cut, g.src.size() - cut);
						d.finalize();
					}
					loaded = true;
				}
				catch (const std::bad_alloc&) {}
				if (!loaded) d.assign(g.src.data(), g.src.size());
				meter m(choose(2) ? 0 : 1 + choose(20));
				bool stopped = false;
				uint64_t fired = 0;
				try {
					parser p(d, nullptr, 0, true, &m);
					text_token* t;
					{
						alloc_faults f(choose(2), den[choose(5)]);
						try { t = p.parse(); }
						catch (...) { fired = f.fired(); throw; }
					}
					SIM_CHECK(!m.stop || m.asked < m.stop, "cancel", "parsing went on after it was cancelled");
					wstr o;
					{
						alloc_faults f(choose(2), den[choose(5)]);
						try { parser::link(o, t); }
						catch (...) { fired = f.fired(); throw; }
					}
					SIM_CHECK(o == g.out, "link", "the document rebuilt differs");
				}
				catch (const stdex::user_cancelled&) { stopped = true; SIM_CHECK(m.stop && m.asked == m.stop, "cancel", "parsing was cancelled by nobody"); }
				catch (const std::bad_alloc&) { stopped = true; SIM_CHECK(fired, "alloc", "out of memory reported with plenty"); }
				stops += stopped;
				parser p(d);
				text_token* t = p.parse();
				out.clear();
				wstr o;
				parser::link(o, t);
				SIM_CHECK(o == g.out, "link", "after an interruption \"...%s\" became \"...%s\"", u8(g.out, differ(o, g.out)).c_str(), u8(o, differ(o, g.out)).c_str());
			}
		}
		uint64_t now;
		{ heap_track h; now = heap_live(); }
		SIM_CHECK(now == live, "leak", "%lld blocks leaked", (long long)(now - live));
		while (stops--) count_op("interruptions");
		ev("interrupted document %zu", g.src.size());
	}
	void frameset()
	{
		gen g;
		g.budget = 3;
		g.make();
		document d;
		wstr s = L"<html><frameset cols=\"50%,50%\"><frame src=\"a.html\"></frameset>" + wstr(choose(2) ? L"</html>" : L"");
		d.assign(s.data(), s.size());
		result r = look(d, false), q = look(d, true);
		SIM_CHECK(!r.error.empty(), "frameset", "a document of frames was parsed");
		SIM_CHECK(q.error.empty() && q.link == s, "frameset", "a document of frames: %s", q.error.c_str());
		document e;
		SIM_CHECK(put(e, g.src).empty() && look(e).link == g.out, "link", "the document rebuilt differs");
	}
}
SIM_SCENARIOS("C34",
	{ "document", 8, whole_document },
	{ "damaged", 6, damaged_document },
	{ "interrupted", 4, interrupted },
	{ "frameset", 1, frameset })
