// SIM: plain
// C48: the elements of an HTML document nest as HTML has them, and its tokens follow them.
#include <stdint.h>
#include <stdexcept>
#include <string>
#include <memory>
#include <mutex>
#include <stdex/html.hpp>
#include "sim.h"
#include <errno.h>
#include <string.h>
#include <map>
#include <set>
#include <vector>
using namespace sim;
namespace html = stdex::html;
typedef stdex::parser::html_sequence_t seq_t;
typedef html::element_t el_t;

namespace
{
	// ---- HTML ----------------------------------------------------------------------------------
	typedef std::string str;
	typedef std::set<str> names;
	names set_of(const char* s)
	{
		names r;
		for (str w; ; ++s) {
			if (*s && *s != ' ') { w += *s; continue; }
			if (!w.empty()) r.insert(w);
			w.clear();
			if (!*s) return r;
		}
	}
	names operator+(const names& a, const names& b) { names r = a; r.insert(b.begin(), b.end()); return r; }
	names operator-(const names& a, const names& b) { names r; for (auto& x : a) if (!b.count(x)) r.insert(x); return r; }
	names operator+(const names& a, const char* b) { return a + set_of(b); }
	names operator-(const names& a, const char* b) { return a - set_of(b); }

	struct dtd {
		std::map<str, el_t> codes;
		names fontstyle = set_of("tt i b u s strike blink big small");
		names phrase = set_of("em strong dfn code samp kbd var cite abbr acronym xmp");
		names formctrl = set_of("input select textarea label button");
		names in_line = fontstyle + phrase + formctrl + "a img applet object embed font basefont br wbr rt script map q sub sup ruby span bdo iframe nobr";
		names heading = set_of("h1 h2 h3 h4 h5 h6");
		names list = set_of("ul ol dir menu");
		names block = heading + list + "pre listing p dl div center marquee noscript noframes noembed blockquote form isindex hr table fieldset address";
		names flow = in_line + block;
		names empty = set_of("area base basefont bgsound br col embed frame hr img input isindex link meta nextid param rt wbr");
		names raw = set_of("code comment script style");
		names verbatim = raw + "address cite kbd samp";
		names group = block + "head body frameset title isindex base nextid col colgroup dd dt frame iframe legend td th tr";
		std::map<str, names> model;
		std::map<str, names> uri, text;
		std::vector<str> all;
		dtd()
		{
#define E(n) codes[#n] = el_t::n;
			E(a) E(abbr) E(acronym) E(address) E(applet) E(area) E(b) E(base) E(basefont) E(bdo) E(bgsound) E(big) E(blink) E(blockquote) E(body) E(br) E(button) E(caption) E(center) E(cite) E(code) E(col) E(colgroup) E(comment)
			E(dd) E(del) E(dfn) E(dir) E(div) E(dl) E(dt) E(em) E(embed) E(fieldset) E(font) E(form) E(frame) E(frameset) E(h1) E(h2) E(h3) E(h4) E(h5) E(h6) E(head) E(hr) E(html) E(i) E(iframe) E(img) E(input) E(ins) E(isindex) E(kbd)
			E(label) E(legend) E(li) E(link) E(listing) E(map) E(marquee) E(menu) E(meta) E(nextid) E(nobr) E(noembed) E(noframes) E(noscript) E(object) E(ol) E(optgroup) E(option) E(p) E(param) E(plaintext) E(pre) E(q) E(rt) E(ruby)
			E(s) E(samp) E(script) E(select) E(small) E(span) E(strike) E(strong) E(style) E(sub) E(sup) E(table) E(tbody) E(td) E(textarea) E(tfoot) E(th) E(thead) E(title) E(tr) E(tt) E(u) E(ul) E(var) E(wbr) E(xmp)
#undef E
			for (auto& c : codes) all.push_back(c.first);
			for (auto& n : fontstyle + phrase + heading + "bdo caption dt font legend p q ruby span sub sup") model[n] = in_line;
			for (auto& n : set_of("blockquote center dd del div iframe ins li marquee noscript noembed plaintext td th")) model[n] = flow;
			for (auto& n : list) model[n] = set_of("li");
			for (auto& n : set_of("tbody tfoot thead")) model[n] = set_of("tr");
			model["a"] = in_line - "a";
			model["address"] = in_line + "p";
			model["applet"] = model["embed"] = model["object"] = flow + "param";
			model["body"] = flow + "ins del";
			model["button"] = flow - formctrl - "a form isindex fieldset iframe";
			model["colgroup"] = set_of("col");
			model["dl"] = set_of("dt dd");
			model["fieldset"] = flow + "legend";
			model["form"] = flow - "form";
			model["frameset"] = set_of("frameset frame noframes");
			model["head"] = set_of("title isindex base nextid script style meta link object");
			model["html"] = set_of("head body frameset");
			model["label"] = in_line - "label";
			model["map"] = block + "area";
			model["nobr"] = in_line + "wbr";
			model["noframes"] = flow + "body" - "noframes";
			model["optgroup"] = set_of("option");
			model["pre"] = in_line - "img object applet embed big small sub sup ruby font basefont nobr";
			model["select"] = set_of("optgroup option");
			model["table"] = set_of("caption col colgroup thead tfoot tbody");
			model["tr"] = set_of("td th");
			// The others hold no elements
			auto u = [&](const char* n, const char* a) { uri[n] = set_of(a); };
			u("a", "href"); u("applet", "code codebase src"); u("area", "href"); u("base", "href"); u("bgsound", "src"); u("blockquote", "cite"); u("body", "background"); u("comment", "data"); u("del", "cite");
			u("embed", "pluginspage src"); u("form", "action"); u("frame", "longdesc src"); u("head", "profile"); u("iframe", "longdesc src"); u("img", "longdesc lowsrc src usemap"); u("input", "lowsrc src usemap");
			u("ins", "cite"); u("link", "href"); u("object", "basehref classid code codebase data usemap"); u("q", "cite"); u("script", "src"); u("table", "background"); u("td", "background"); u("th", "background");
			auto t = [&](const char* n, const char* a) { text[n] = set_of(a); };
			t("applet", "alt"); t("area", "alt"); t("img", "alt"); t("input", "alt"); t("object", "alt"); t("table", "summary"); t("td", "abbr"); t("th", "abbr");
		}
		bool known(const str& n) const { return codes.count(n) != 0; }
		bool may_contain(const str& parent, const str& child) const
		{
			if (!known(child) || child == "comment" || !known(parent)) return true;
			auto m = model.find(parent);
			return m != model.end() && m->second.count(child);
		}
		bool is_uri(const str& n, const str& a) const { auto i = uri.find(n); return i != uri.end() && i->second.count(a); }
		bool is_text(const str& n, const str& a) const { auto i = text.find(n); return a == "title" || (i != text.end() && i->second.count(a)); }
	};
	const dtd& H() { static dtd h; return h; }

	// ---- what a document is made of ------------------------------------------------------------
	struct attr { size_t n0, n1, v0, v1; str name, value; };
	struct item {
		seq_t type;
		size_t from, to;
		str name;
		size_t n0 = 0, n1 = 0;
		std::vector<attr> attrs;
		int parent = -1, partner = -1; // the end of a start, or the start of an end
		item(seq_t t, size_t a, size_t b) : type(t), from(a), to(b) {}
	};
	template <class T> struct maker {
		typedef std::basic_string<T> S;
		S src;
		std::vector<item> items;
		size_t text_from = 0;     // start of text not declared yet
		std::vector<str> open;    // to choose names from
		bool verbatim_text = true;
		stdex::charset_id charset = stdex::charset_id::system;
		uint64_t shape = 0;

		// \x01 stands for a letter whose lower byte is "p"
		static T widen(char c) { return c == 1 ? (T)(sizeof(T) > 1 ? 0x170 : 0xf0) : (T)c; }
		static char narrow(T c) { return c == widen(1) ? 1 : (char)c; }
		void put(const char* s) { for (; *s; ++s) src += widen(*s); }
		void put(const str& s) { put(s.c_str()); }
		void flush() { if (text_from < src.size()) items.push_back(item(seq_t::text, text_from, src.size())); text_from = src.size(); }
		void word() { static const char* w[] = { "word", " ", "x y ", "\n", "1. ", "ab-c", "." }; put(w[choose(7)]); }
		str casing(const str& n)
		{
			str s = n;
			unsigned m = choose(4);
			if (m > 1) for (auto& c : s) if (c >= 'a' && c <= 'z' && (m == 2 || choose(2))) c -= 32;
			return s;
		}
		str name()
		{
			static const char* common[] = { "p", "li", "ul", "div", "b", "a", "td", "tr", "table", "tbody", "dl", "dt", "dd", "option", "select", "h2", "ol", "form", "span", "html", "head", "body", "title", "br", "hr" };
			switch (choose(8)) {
			case 0: case 1: case 2: return common[choose(sizeof(common) / sizeof(*common))];
			case 3: { // not quite a name
				auto& n = H().all[choose((uint32_t)H().all.size())];
				switch (choose(4)) {
				case 0: return n + "x";
				case 1: { auto s = n.substr(0, n.size() - 1); return s.empty() ? "zz" : s; }
				case 2: { static const char* u[] = { "x-foo", "x-fop", "article", "section", "zzz", "nav", "x", "\x01", "h\x01", "\x01re", "x\x01" }; return u[choose(11)]; }
				default: return n + "1";
				}
			}
			default: return H().all[choose((uint32_t)H().all.size())];
			}
		}
		void attribute(item& it, const str& name, const str& value, char quote)
		{
			static const char* sp[] = { " ", "\n", "  ", "\t " };
			static const char* eq[] = { "=", " =", "= ", " = " };
			put(sp[choose(4)]);
			attr a;
			a.name = name; a.value = value;
			a.n0 = src.size(); put(casing(name)); a.n1 = src.size();
			put(eq[choose(4)]);
			if (quote) src += (T)quote;
			a.v0 = src.size(); put(value); a.v1 = src.size();
			if (quote) src += (T)quote;
			it.attrs.push_back(a);
		}
		void attributes(item& it)
		{
			static const char* n[] = { "class", "href", "src", "title", "alt", "cite", "background", "summary", "abbr", "usemap", "longdesc", "lowsrc", "action", "data", "code", "codebase", "classid", "basehref", "profile", "pluginspage", "hrefx", "id", "titl" };
			static const char* v[] = { "v", "a.html", "some text", "", " ", "x1" };
			for (unsigned k = choose(3) ? 0 : 1 + choose(3); k--;) {
				str value = v[choose(6)];
				char q = choose(2) ? '"' : '\'';
				if (value.size() == 1 && value != " " && choose(2)) q = 0;
				attribute(it, n[choose(sizeof(n) / sizeof(*n))], value, q);
			}
		}
		void meta(item& it)
		{
			static const struct { const char* name; stdex::charset_id id; } cs[] = {
				{ "utf-8", stdex::charset_id::utf8 }, { "UTF-8", stdex::charset_id::utf8 }, { "windows-1250", stdex::charset_id::windows1250 }, { "cp1251", stdex::charset_id::windows1251 }, { "Windows-1252", stdex::charset_id::windows1252 },
				{ "utf-16", stdex::charset_id::utf16 }, { "utf8", stdex::charset_id::utf8 }, { "x-nothing", stdex::charset_id::system },
				{ "c\x01""1250", stdex::charset_id::system },
			};
			auto& c = cs[choose(9)];
			unsigned form = choose(8), order = choose(2);
			str content = str("text/html") + (form == 1 ? "" : choose(2) ? "; " : ";") + (form == 1 ? "" : "charset=") + (form == 1 ? "" : c.name);
			if (form == 2) content = str("text; charset=") + c.name; // not a type
			if (form == 3) content = str("text/html; charset='") + c.name + "'";
			const char* equiv = form == 4 ? "refresh" : form == 5 ? "Content-Types" : choose(2) ? "Content-Type" : "content-type";
			for (unsigned k = 0; k < 2; ++k)
				if ((k == 0) == (order == 0)) attribute(it, form == 6 ? "name" : "http-equiv", equiv, choose(2) ? '"' : 0);
				else attribute(it, form == 7 ? "value" : "content", content, '"');
			if (charset == stdex::charset_id::system && (form == 0 || form == 3) && it.name == "meta") charset = c.id;
		}
		void start()
		{
			str n = name();
			flush();
			item it(seq_t::element_start, src.size(), 0);
			it.name = n;
			put("<"); it.n0 = src.size(); put(casing(n)); it.n1 = src.size();
			if (n == "meta" ? choose(2) : choose(60) == 1) meta(it);
			else attributes(it);
			static const char* sp[] = { "", "", " ", "\n" };
			put(sp[choose(4)]);
			if (choose(8) == 1) {
				it.type = seq_t::element;
				put(" />");
			}
			else {
				put(">");
				if (!H().empty.count(n)) { open.push_back(n); if (open.size() > 12) open.erase(open.begin()); }
			}
			it.to = text_from = src.size();
			shape = mix(shape ^ (uint64_t)(H().known(n) ? (unsigned)H().codes.at(n) + 1 : 0));
			bool raw = it.type == seq_t::element_start && H().raw.count(n);
			items.push_back(it);
			if (raw) {
				static const char* c[] = { "if (a<b) x();", "it's", " < ", "<b>", "</p>", "<!-- x", "a > b", "\"", "<p", "</x y=" };
				for (unsigned k = choose(4); k--;) put(c[choose(10)]);
				if (src.size() > text_from && (src.back() == '<' || src.back() == '=')) put(" ");
				if (choose(40) == 1) { // never ended
					put(" to the end <b>");
					flush();
					flush_tail = true;
					return;
				}
				end(n);
			}
		}
		bool flush_tail = false; // the rest is text
		void end(const str& n)
		{
			flush();
			item it(seq_t::element_end, src.size(), 0);
			it.name = n;
			put("</"); it.n0 = src.size(); put(casing(n)); it.n1 = src.size();
			static const char* sp[] = { "", "", " ", "\n" };
			put(sp[choose(4)]);
			put(">");
			it.to = text_from = src.size();
			items.push_back(it);
			for (size_t i = open.size(); i--;) if (open[i] == n) { open.resize(i); break; }
		}
		void other()
		{
			static const struct { const char* s; seq_t type; } o[] = {
				{ "<!-- <p> -->", seq_t::comment }, { "<!DOCTYPE html>", seq_t::declaration }, { "<?php x ?>", seq_t::instruction }, { "<?x>", seq_t::instruction }, { "<!---->", seq_t::comment },
			};
			flush();
			switch (choose(4)) {
			case 0: case 1: {
				auto& x = o[choose(5)];
				items.push_back(item(x.type, src.size(), src.size() + strlen(x.s)));
				put(x.s);
				text_from = src.size();
				break;
			}
			case 2: {
				bool c = choose(2);
				static const char* t[] = { "", "a<b>", "x", "</p>" };
				put(c ? "<![CDATA[" : "<![RCDATA[");
				size_t at = src.size();
				put(t[choose(4)]);
				items.push_back(item(c ? seq_t::CDATA : seq_t::PCDATA, at, src.size()));
				put("]]>");
				text_from = src.size();
				break;
			}
			case 3:
				if (choose(2)) { put("<![IGNORE[<p>x]]>"); text_from = src.size(); break; }
				put("<![INCLUDE[");
				text_from = src.size();
				for (unsigned k = choose(4); k-- && !flush_tail;) piece();
				if (flush_tail) return;
				flush();
				put("]]>");
				text_from = src.size();
				break;
			}
		}
		void piece()
		{
			switch (choose(10)) {
			case 0: case 1: word(); break;
			case 2: case 3: case 4: case 5: start(); break;
			case 6: case 7:
				if (!open.empty()) { end(choose(4) ? open.back() : open[choose((uint32_t)open.size())]); break; } // fall through
			case 8: end(name()); break;
			case 9: other(); break;
			}
		}
		void make()
		{
			for (unsigned n = choose(3) ? 2 + choose(12) : choose(60); n-- && !flush_tail;) piece();
			flush();
		}
		// ---- how it nests ----------------------------------------------------------------------
		void nest()
		{
			std::vector<int> stack;
			for (size_t k = 0; k < items.size(); ++k) {
				item& it = items[k];
				if (it.type == seq_t::element || it.type == seq_t::element_start) {
					while (!stack.empty() && !H().may_contain(items[stack.back()].name, it.name)) {
						items[stack.back()].partner = (int)k;
						stack.pop_back();
					}
					it.parent = stack.empty() ? -1 : stack.back();
					if (it.type == seq_t::element_start) {
						if (H().empty.count(it.name)) it.partner = (int)k;
						else stack.push_back((int)k);
					}
				}
				else if (it.type == seq_t::element_end) {
					it.parent = stack.empty() ? -1 : stack.back();
					for (size_t j = stack.size(); j--;)
						if (items[stack[j]].name == it.name) {
							it.partner = stack[j];
							items[stack[j]].partner = (int)k;
							it.parent = items[stack[j]].parent;
							stack.resize(j);
							break;
						}
				}
				else it.parent = stack.empty() ? -1 : stack.back();
			}
		}
		// ---- and what it is parsed to ----------------------------------------------------------
		str raw(size_t a, size_t b) const { str r; for (; a < b; ++a) r += narrow(src[a]); return r; }
		static str head(html::token_t type, uint32_t flags, int seq) { char b[60]; snprintf(b, sizeof(b), "{%d %x %d ", (int)type, flags, seq); return b; }
		static bool blank(const str& s) { for (char c : s) if (!isspace((unsigned char)c)) return false; return true; }
		str parse(size_t& at, size_t end, uint32_t flags) const
		{
			int first = at != end ? (int)at : -1;
			str body;
			while (at != end) {
				const item& it = items[at];
				if (it.type == seq_t::text) {
					str t = raw(it.from, it.to);
					if (!blank(t)) flags |= html::has_text;
					body += t;
					++at;
					continue;
				}
				flags |= html::has_tokens;
				if (it.type != seq_t::element && it.type != seq_t::element_start) {
					body += head(it.type == seq_t::element_end ? html::token_t::ending : html::token_t::complete, 0, (int)at) + raw(it.from, it.to) + "}";
					++at;
					continue;
				}
				bool is_start = it.type == seq_t::element_start;
				uint32_t f = 0;
				size_t o = it.from;
				str tag;
				for (auto& a : it.attrs) {
					if (blank(a.value)) continue;
					bool u = H().is_uri(it.name, a.name);
					if (!u && !H().is_text(it.name, a.name)) continue;
					f |= html::has_tokens;
					tag += raw(o, a.v0);
					tag += u ? head(html::token_t::url, 0, (int)at) : head(html::token_t::complete, html::has_text | html::is_title | html::is_attribute, (int)at);
					tag += a.value + "}";
					o = a.v1;
				}
				tag += raw(o, it.to);
				if (is_start && !H().empty.count(it.name)) {
					body += head(html::token_t::starting, f, (int)at);
					char b[60];
					snprintf(b, sizeof(b), "%d ", it.partner);
					body += raw(it.n0, it.n1) + " " + b + tag + "}";
				}
				else body += head(html::token_t::complete, f, (int)at) + tag + "}";
				++at;
				if (!is_start) continue;
				if (H().verbatim.count(it.name)) {
					size_t stop = it.partner >= 0 ? items[it.partner].from : end < items.size() ? items[end].from : src.size();
					if (it.to < stop) body += head(html::token_t::complete, 0, at != end ? (int)at : -1) + raw(it.to, stop) + "}";
					while (at != end && (int)at != it.partner) ++at;
				}
				else if (H().group.count(it.name)) {
					size_t limit = at;
					while (limit != end && (int)limit != it.partner) ++limit;
					body += parse(at, limit, (H().heading.count(it.name) || it.name == "dt" || it.name == "title" ? html::is_title : 0) | (H().list.count(it.name) ? html::is_bullet : 0));
				}
			}
			return head(html::token_t::complete, flags, first) + body + "}";
		}
	};

	// A document, as those who extend it see it
	template <class T> struct open_document : public html::document<T> {
		typedef html::document<T> base;
		const html::sequence_store& sequences() const { return this->m_sequences; }
		stdex::charset_id charset() const { return this->m_charset; }
		bool idle() const { return this->m_element_stack.empty(); }
	};
	template <class T> struct reader {
		std::map<const html::sequence*, int> index;
		const std::vector<item>& items;
		reader(const open_document<T>& d, const std::vector<item>& it) : items(it) { int n = 0; for (auto& s : d.sequences()) index[s.get()] = n++; }
		int of(const html::sequence* s) const
		{
			if (!s) return -1;
			auto i = index.find(s);
			SIM_CHECK(i != index.end(), "sequence", "a tag of no document");
			return i->second;
		}
		str walk(const html::token* t, unsigned depth = 0) const
		{
			typedef maker<T> M;
			SIM_CHECK(depth < 500, "token", "tokens refer to themselves");
			if (t->type == html::token_t::url) {
				auto u = dynamic_cast<const html::url_token<T>*>(t);
				SIM_CHECK(u, "token", "an URL token is not an URL token");
				return M::head(t->type, 0, of(t->sequence)) + str(u->url.begin(), u->url.end()) + "}";
			}
			auto x = dynamic_cast<const html::text_token<T>*>(t);
			SIM_CHECK(x, "token", "a text token is not a text token");
			str r = M::head(t->type, x->text_type, of(t->sequence));
			if (t->type == html::token_t::starting) {
				auto s = dynamic_cast<const html::starting_token<T>*>(t);
				SIM_CHECK(s, "token", "a starting token is not a starting token");
				char b[60];
				snprintf(b, sizeof(b), " %d ", of(s->end_sequence));
				for (auto c : s->name) r += M::narrow(c);
				r += b;
			}
			size_t m = 0;
			for (size_t i = 0; i < x->text.size();) {
				if ((x->text_type & html::has_tokens) && x->text[i] == html::token_tag_start) {
					size_t at = i;
					const html::token* c = html::token::parse_tag(x->text.data(), i);
					SIM_CHECK(c, "token", "a token tag that is not finished");
					r += walk(c, depth + 1);
					if (!x->mapping.empty()) { // where the tag came from
						while (m + 1 < x->mapping.size() && x->mapping[m + 1].to <= at) ++m;
						SIM_CHECK(x->mapping[m].to == at, "mapping", "a tag at %zu of the text is mapped by %zu", at, x->mapping[m].to);
						if (c->type != html::token_t::complete && c->sequence) SIM_CHECK(x->mapping[m].from == c->sequence->interval.start, "mapping", "a tag at %zu of the document is mapped to %zu", c->sequence->interval.start, x->mapping[m].from);
					}
				}
				else r += M::narrow(x->text[i++]);
			}
			return r + "}";
		}
	};
	// Narrow documents have structure only: their text cannot be parsed here
	void tokens(const open_document<char>&, const maker<char>&, const reader<char>&, const char*) {}
	void tokens(const open_document<wchar_t>& d, const maker<wchar_t>& g, const reader<wchar_t>& r, const char* how)
	{
		html::parser<wchar_t, std::char_traits<wchar_t>, std::allocator<wchar_t>> p(d, nullptr, 0, true);
		const html::token* t = p.parse();
		SIM_CHECK(t, "token", "no root token");
		size_t at = 0;
		str want = g.parse(at, g.items.size(), 0), have = r.walk(t);
		if (want != have) {
			size_t i = 0;
			while (i < want.size() && i < have.size() && want[i] == have[i]) ++i;
			size_t o = i > 60 ? i - 60 : 0;
			violation("tokens", "%s: \"...%s\" instead of \"...%s\"", how, have.substr(o, 160).c_str(), want.substr(o, 160).c_str());
		}
	}
	template <class T> void verify(const open_document<T>& d, const maker<T>& g, const char* how)
	{
		auto& q = d.sequences();
		reader<T> r(d, g.items);
		SIM_CHECK(d.idle(), "finalize", "elements are still open in a document that is complete (%s)", how);
		SIM_CHECK(d.charset() == g.charset, "charset", "%s: charset %d instead of %d", how, (int)d.charset(), (int)g.charset);
		for (size_t k = 0; k < q.size() && k < g.items.size(); ++k) {
			const item& it = g.items[k];
			const html::sequence* s = q[k].get();
			str what = g.raw(it.from, it.to).substr(0, 40);
			SIM_CHECK(s->type == it.type && s->interval.start == it.from && s->interval.end == it.to, "sequence", "%s: part %zu (%s) at %zu-%zu is of type %d at %zu-%zu", how, k, what.c_str(), it.from, it.to, (int)s->type, s->interval.start, s->interval.end);
			SIM_CHECK(r.of(s->parent) == it.parent, "parent", "%s: parent of part %zu (%s) is %d instead of %d", how, k, what.c_str(), r.of(s->parent), it.parent);
			el_t code = H().known(it.name) ? H().codes.at(it.name) : el_t::unknown;
			if (it.type == seq_t::element || it.type == seq_t::element_start) {
				auto e = dynamic_cast<const html::element*>(s);
				SIM_CHECK(e, "sequence", "%s: part %zu is not an element", how, k);
				SIM_CHECK(e->code == code, "code", "%s: <%s> is element %d instead of %d", how, it.name.c_str(), (int)e->code, (int)code);
				SIM_CHECK(e->name.start == it.n0 && e->name.end == it.n1, "name", "%s: the name of <%s> is at %zu-%zu", how, it.name.c_str(), e->name.start, e->name.end);
				SIM_CHECK(e->attributes.size() == it.attrs.size(), "attributes", "%s: %zu attributes instead of %zu", how, e->attributes.size(), it.attrs.size());
				for (size_t j = 0; j < it.attrs.size(); ++j) {
					auto& a = e->attributes[j];
					auto& b = it.attrs[j];
					SIM_CHECK(a.name.start == b.n0 && a.name.end == b.n1 && (b.v0 == b.v1 ? a.value.empty() : a.value.start == b.v0 && a.value.end == b.v1), "attributes", "%s: attribute %s of <%s> differs", how, b.name.c_str(), it.name.c_str());
				}
				if (it.type == seq_t::element_start) {
					auto es = dynamic_cast<const html::element_start*>(s);
					SIM_CHECK(es, "sequence", "%s: part %zu is not a starting tag", how, k);
					SIM_CHECK(r.of(es->end) == it.partner, "end", "%s: end of part %zu (%s) is %d instead of %d", how, k, what.c_str(), r.of(es->end), it.partner);
				}
			}
			else if (it.type == seq_t::element_end) {
				auto e = dynamic_cast<const html::element_end*>(s);
				SIM_CHECK(e, "sequence", "%s: part %zu is not an ending tag", how, k);
				SIM_CHECK(e->code == code, "code", "%s: </%s> is element %d instead of %d", how, it.name.c_str(), (int)e->code, (int)code);
				SIM_CHECK(e->name.start == it.n0 && e->name.end == it.n1, "name", "%s: the name of </%s> is at %zu-%zu", how, it.name.c_str(), e->name.start, e->name.end);
				SIM_CHECK(r.of(e->start) == it.partner, "start", "%s: start of part %zu (%s) is %d instead of %d", how, k, what.c_str(), r.of(e->start), it.partner);
			}
		}
		SIM_CHECK(q.size() == g.items.size(), "sequence", "%s: %zu parts instead of %zu", how, q.size(), g.items.size());
		tokens(d, g, r, how);
	}
	template <class T> void nesting()
	{
		maker<T> g;
		g.make();
		g.nest();
		state(g.shape);
		count_op("documents");
		ev("%s", g.raw(0, g.src.size()).substr(0, 300).c_str());
		unsigned deep = 0;
		for (auto& it : g.items) if (it.parent >= 0) deep++;
		{
			open_document<T> d;
			d.assign(g.src.data(), g.src.size());
			SIM_CHECK(d.source() == g.src, "source", "the source of the document differs");
			verify(d, g, "at once");
		}
		{
			open_document<T> d;
			unsigned n = choose(4);
			if (n == 1) { // one that has a past
				maker<T> p;
				p.make();
				d.append(p.src.data(), choose((uint32_t)p.src.size() + 1));
				if (choose(2)) d.finalize();
				d.clear();
				count_fault("document abandoned");
			}
			if (n == 2) { // out of memory on the way
				maker<T> p;
				p.make();
				alloc_faults f(1, 10 + choose(60));
				try { d.append(p.src.data(), p.src.size()); d.finalize(); }
				catch (const std::bad_alloc&) {}
				d.clear();
			}
			for (size_t i = 0; i < g.src.size();) {
				size_t k = 1 + choose(choose(2) ? 3 : 30);
				if (k > g.src.size() - i) k = g.src.size() - i;
				std::basic_string<T> c(g.src, i, k);
				d.append(c.data(), c.size());
				i += k;
			}
			d.finalize();
			SIM_CHECK(d.source() == g.src, "source", "the source of the document by chunks differs");
			verify(d, g, "by chunks");
		}
		ev("document of %zu parts, %u nested", g.items.size(), deep);
	}
	void nesting_char() { nesting<char>(); }
	void nesting_wide() { nesting<wchar_t>(); }
	// All pairs of elements
	void pair()
	{
		auto& h = H();
		str a = h.all[choose((uint32_t)h.all.size())], b = h.all[choose((uint32_t)h.all.size())];
		maker<wchar_t> g;
		auto tag = [&](const str& n) {
			g.flush();
			item it(seq_t::element_start, g.src.size(), 0);
			it.name = n;
			g.put("<"); it.n0 = g.src.size(); g.put(g.casing(n)); it.n1 = g.src.size(); g.put(">");
			it.to = g.text_from = g.src.size();
			g.items.push_back(it);
			return !h.raw.count(n);
		};
		g.put("x");
		if (tag(a)) {
			if (choose(2)) g.put("y");
			bool go = tag(b);
			if (choose(2)) g.put("z");
			if (!go || choose(2)) g.end(b);
		}
		else g.put("<b>");
		g.end(a);
		if (choose(2)) g.put("w");
		g.flush();
		g.nest();
		count_op("pairs");
		state(mix((uint64_t)h.codes.at(a) * 1000 + (uint64_t)h.codes.at(b)));
		open_document<wchar_t> d;
		d.assign(g.src.data(), g.src.size());
		verify(d, g, "pair");
		ev("%s in %s", b.c_str(), a.c_str());
	}
}
SIM_SCENARIOS("C48",
	{ "nesting", 5, nesting_wide },
	{ "nesting_char", 3, nesting_char },
	{ "pair", 6, pair })
