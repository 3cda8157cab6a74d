// SIM: plain
// C40: pieces of CSS and HTML and MIME types are found whole and taken apart exactly.
#include "pieces.h"
using namespace sim;
using namespace stdex::parser;

namespace
{
	typedef stdex::interval<size_t> iv;
	struct told { iv interval; explicit told(const iv& i) : interval(i) {} };
	void part_at(const char* what, const iv& got, const iv& at, const std::string& text) { told t(got); part(what, &t, true, at, text); }
	void part_none(const char* what, const iv& got, const std::string& text) { told t(got); part(what, &t, false, iv(), text); }
	int some_flags() { return choose(2) ? match_multiline : match_default; }
	std::string spaces(unsigned min, unsigned max) { return word(nullptr, " \t\n\r", min, max); }
	std::string anycase(const char* s) { std::string r(s); if (choose(2)) for (char& c : r) if (choose(2)) c = (char)toupper(c); return r; }
	bool space(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }

	// What may stand between quotes: anything, quotes and backslashes escaped
	std::string quoted_text(char quote, bool escapes)
	{
		std::string s;
		for (unsigned n = choose(5) ? choose(8) : choose(40); n; --n) {
			unsigned k = choose(8);
			if (k == 0 && escapes) { s += '\\'; s += "\"'\\nA0) \n"[choose(9)]; }
			else if (k == 1) s += quote == '"' ? '\'' : '"';
			else s += "ab c/*)(;:<>-=\xc4"[choose(15)];
		}
		return s;
	}
	char some_quote() { return choose(2) ? '"' : '\''; }

	template <class T> void css()
	{
		mk<T> m;
		basic_css_comment<T> comment; basic_css_cdo<T> cdo; basic_css_cdc<T> cdc; basic_css_string<T> string; basic_css_uri<T> uri; basic_css_import<T> import;
		ev("CSS");
		for (unsigned n = 1 + choose(8); n; --n) {
			place<T> t(m);
			unsigned kind = choose(6), harm = choose(5) ? 0 : 1 + choose(4);
			int flags = some_flags();
			size_t from = t.w.s.size();
			ev("piece of kind %u%s", kind, harm ? ", harmed" : "");
			switch (kind) {
			case 0: {
				std::string c = word(nullptr, "a */\n\"'", 0, choose(4) ? 8 : 40);
				for (size_t i; (i = c.find("*/")) != std::string::npos; ) c.erase(i, 1);
				if (harm == 3 && !c.empty() && c[0] == '/') harm = 2;
				static const char* begin[] = { "/*", "/", "*", "/ *", "/*" };
				t.w.put(begin[harm]);
				iv at = t.w.put(c);
				if (harm != 4) { t.w.put("*/"); } else if (!c.empty() && choose(2)) t.w.put("*");
				iv whole(from, t.w.s.size());
				if (harm == 1 && (c.empty() || c[0] == '*')) harm = 0;
				if (harm == 4) t.finish("", true); else t.finish("/*x");
				if (harm == 0 && t.w.s[from + 1] == '*' && at.start == from + 1) break; // became a different one
				if (harm) { t.none("comment", comment, flags); part_none("content", comment.content, t.shown()); break; }
				t.found("comment", comment, flags, whole); part_at("content", comment.content, at, t.shown());
				break;
			}
			case 1: case 2: {
				static const char* o[] = { "<!--", "<!-", "<!", "<--", "!--" };
				static const char* c[] = { "-->", "--", "->", "-- >", "> " };
				iv at = t.w.put(kind == 1 ? o[harm] : c[harm]);
				if (harm == 1 || harm == 2) t.finish("x ;"); else t.finish("-x>");
				if (kind == 1) { if (harm) t.none("opening mark", cdo, flags); else t.found("opening mark", cdo, flags, at); }
				else { if (harm) t.none("closing mark", cdc, flags); else t.found("closing mark", cdc, flags, at); }
				break;
			}
			default: {
				if (kind == 5) t.w.put(harm == 3 ? anycase("@impor") : anycase("@import"));
				else if (kind == 4) t.w.put(harm == 3 ? anycase("ur(") : harm == 4 ? anycase("url") : anycase("url("));
				if (kind != 3) t.w.put(spaces(0, 2));
				bool bare = kind == 4 && choose(2);
				iv at;
				if (bare) {
					std::string s = word(nullptr, "ab/:.?=&\"'# ", 0, 12);
					while (!s.empty() && (space(s[0]) || s[0] == '"' || s[0] == '\'')) s.erase(0, 1);
					while (!s.empty() && space(s.back())) s.pop_back();
					at = t.w.put(s);
					if (!s.empty()) t.w.put(spaces(0, 2));
					if (harm > 2 || harm == 0) t.w.put(")");
					if (harm == 1 || harm == 2) t.finish("", true); else t.finish(")x;");
				}
				else {
					char q = some_quote();
					std::string s = quoted_text(q, true);
					if (harm != 2) t.w.put(std::string(1, q));
					else { if (kind == 4) { t.w.put("x"); s.clear(); } else { t.w.put(choose(2) ? "x" : "("); } }
					at = t.w.put(s);
					bool open = harm == 1;
					if (open && choose(2)) t.w.put(choose(2) ? std::string("\\") + q : std::string("\\\\\\") + q);
					if (!open) t.w.put(std::string(1, q));
					if (kind == 4) { t.w.put(spaces(0, 2)); if (harm == 2) { t.finish("", true); } else { if (!open) t.w.put(")"); } }
					if (harm == 2 && kind == 4) ;
					else if (open) t.finish("", true);
					else t.finish("\"')x;");
				}
				iv whole(from, t.w.s.size());
				// Where it ends: behind the last character put before finish()
				whole.end = harm ? 0 : bare ? t.w.s.find((T)')', at.end) + 1 : kind == 4 ? t.w.s.find((T)')', at.end) + 1 : at.end + 1;
				if (kind == 3 && (harm == 3 || harm == 4)) { harm = 0; whole.end = at.end + 1; }
				if (kind == 5 && harm == 4) { harm = 0; whole.end = at.end + 1; }
				const char* what = kind == 3 ? "string" : kind == 4 ? "URI" : "import";
				if (kind == 3) { if (harm) t.none(what, string, flags); else t.found(what, string, flags, whole); }
				else if (kind == 4) { if (harm) t.none(what, uri, flags); else t.found(what, uri, flags, whole); }
				else { if (harm) t.none(what, import, flags); else t.found(what, import, flags, whole); }
				const iv& c = kind == 3 ? string.content : kind == 4 ? uri.content : import.content;
				if (harm) part_none("content", c, t.shown()); else part_at("content", c, at, t.shown());
			}
			}
			state((uint64_t)kind << 32 | harm << 16 | t.w.s.size());
		}
	}

	template <class T> void mime()
	{
		mk<T> m;
		basic_mime_type<T> p;
		ev("MIME types");
		for (unsigned n = 1 + choose(8); n; --n) {
			place<T> t(m);
			unsigned harm = choose(6) ? 0 : 1 + choose(4);
			size_t from = t.w.s.size();
			std::string a = harm == 1 ? "" : word(nullptr, "abtx-+.*", 1, 8), b = harm == 2 ? "" : word(nullptr, "hml-+.5*", 1, 8);
			iv ia = t.w.put(a); t.w.put(harm == 3 ? choose(2) ? ";" : " " : harm == 4 ? "" : "/"); iv ib = t.w.put(b), ic;
			size_t end = ib.end;
			bool open = false, rest = false;
			switch (harm ? 4 : choose(5)) {
			case 0: case 1: { // With a character set
				t.w.put(";" + spaces(0, 2)); t.w.put(anycase("charset")); t.w.put("=");
				if (choose(2)) {
					char q = some_quote();
					t.w.put(std::string(1, q));
					std::string c = word(nullptr, "utf-8 ;=", 0, 9);
					ic = t.w.put(c);
					open = choose(6) == 1;
					if (!open) t.w.put(std::string(1, q));
					end = t.w.s.size();
				}
				else {
					ic = t.w.put(word(nullptr, "utf-8_:", 1, 9));
					end = ic.end;
				}
				if (open) t.finish("", true); else if (ic.end == end) t.finish("; \n"); else t.finish("; \nx");
				break;
			}
			case 2: t.w.put(";" + spaces(0, 2)); t.w.put(choose(2) ? "charse=x" : choose(2) ? "format=flowed" : "charset"); t.finish(" ;"); rest = true; break; // some other parameter
			default: t.finish(harm == 4 ? " ;" : harm ? " /" : " /\n");
			}
			ev("type of %zu characters%s", t.w.s.size() - from, harm ? ", harmed" : open ? ", not closed" : "");
			if (harm) {
				t.none("MIME type", p, some_flags());
				part_none("type", p.base_type, t.shown()); part_none("subtype", p.sub_type, t.shown()); part_none("character set", p.charset, t.shown());
			}
			else {
				bool ok = t.match(p, some_flags());
				SIM_CHECK(ok && p.interval.start == from, "found", "MIME type \"%s\" is not found", t.shown().c_str());
				if (!rest && !open) SIM_CHECK(p.interval.end == end, "whole", "MIME type \"%s\" ends at %zu, told to end at %zu", t.shown().c_str(), end, p.interval.end);
				else SIM_CHECK(p.interval.end >= ib.end && p.interval.end <= t.w.s.size(), "whole", "MIME type \"%s\" ends at %zu", t.shown().c_str(), p.interval.end);
				part_at("type", p.base_type, ia, t.shown()); part_at("subtype", p.sub_type, ib, t.shown());
				if (ic && !open) part_at("character set", p.charset, ic, t.shown()); else part_none("character set", p.charset, t.shown());
			}
			state(harm << 16 | t.w.s.size());
		}
	}

	template <class T> void names()
	{
		mk<T> m;
		basic_html_ident<T> ident; basic_html_value<T> value; basic_html_declaration_condition_start<T> start; basic_html_declaration_condition_end<T> end;
		ev("names, values, marks of sections");
		for (unsigned n = 1 + choose(8); n; --n) {
			place<T> t(m);
			unsigned kind = choose(4), harm = choose(5) ? 0 : 1 + choose(3);
			int flags = some_flags();
			size_t from = t.w.s.size();
			ev("piece of kind %u%s", kind, harm ? ", harmed" : "");
			switch (kind) {
			case 0: {
				std::string s = harm ? "" : word(nullptr, "abz09-_:/\"'<", 1, 8);
				iv at = t.w.put(s);
				if (s.empty()) t.finish("", true);
				else if (s.back() != '/') {
					unsigned k = choose(3);
					if (k == 1) { t.w.put("/>"); t.finish("x >"); }
					else t.finish(k ? "> =\n" : "=>\t");
				}
				else t.finish("= \n", true);
				if (harm) t.none("name", ident, flags); else t.found("name", ident, flags, at);
				break;
			}
			case 1: {
				iv at, whole;
				if (harm || choose(2)) {
					char q = some_quote();
					t.w.put(std::string(1, q));
					std::string s = quoted_text(q, false);
					at = t.w.put(s);
					if (!harm) t.w.put(std::string(1, q));
					whole = iv(from, t.w.s.size());
					if (harm) t.finish("", true); else t.finish("> \"'x");
				}
				else {
					std::string s = word("abz09-_:=&#", "abz09-_:=&#\"'</", 0, 10);
					at = whole = t.w.put(s);
					if (s.empty() || s.back() != '/') { if (choose(3) == 1) { t.w.put("/>"); t.finish("x >"); } else if (s.empty()) { t.w.put(choose(2) ? ">" : " "); t.finish("x"); } else t.finish("> \n"); }
					else t.finish(" \n", true);
				}
				if (harm) { t.none("value", value, flags); part_none("content", value.content, t.shown()); }
				else { t.found("value", value, flags, whole); part_at("content", value.content, at, t.shown()); }
				break;
			}
			case 2: {
				static const char* o[] = { "<![", "<!", "<[", "<![" };
				t.w.put(o[harm]); t.w.put(spaces(0, 2));
				std::string s = word(nullptr, "CDATAif !IE6&|()", 0, 12);
				while (!s.empty() && space(s[0])) s.erase(0, 1);
				while (!s.empty() && space(s.back())) s.pop_back();
				if (harm && s.empty()) s = "x";
				iv at = t.w.put(s);
				if (!s.empty()) t.w.put(spaces(0, 2));
				if (harm == 3) { if (choose(2)) { t.w.put("]>["); t.finish("x["); } else t.finish("", true); }
				else { t.w.put("["); }
				iv whole(from, t.w.s.size());
				if (harm != 3) t.finish("[]> x");
				if (harm) { t.none("start of a section", start, flags); part_none("condition", start.condition, t.shown()); }
				else { t.found("start of a section", start, flags, whole); part_at("condition", start.condition, at, t.shown()); }
				break;
			}
			default: {
				static const char* c[] = { "]]>", "]]", "]>", "] ]>" };
				iv at = t.w.put(c[harm]);
				if (harm == 1) t.finish("x ]"); else t.finish("]>x");
				if (harm) t.none("end of a section", end, flags); else t.found("end of a section", end, flags, at);
			}
			}
			state((uint64_t)kind << 32 | harm << 16 | t.w.s.size());
		}
	}

	template <class T> void tags()
	{
		mk<T> m;
		basic_html_tag<T> p;
		ev("tags");
		for (unsigned n = 1 + choose(6); n; --n) {
			place<T> t(m);
			unsigned kind = choose(6);
			bool harm = choose(5) == 1; // never closed
			int flags = choose(3) ? some_flags() : match_partial;
			size_t from = t.w.s.size();
			ev("tag of kind %u%s", kind, harm ? ", not closed" : "");
			iv name; html_sequence_t type; std::vector<html_attribute> attr;
			auto attributes = [&](bool declaration) {
				bool need = !declaration;
				for (unsigned k = choose(2) ? choose(3) : choose(10); k; --k) {
					html_attribute a;
					t.w.put(spaces(need, 2));
					if (declaration && t.w.s.size() > name.end && choose(4) == 1) { // Comment inside of a declaration
						std::string c = word(nullptr, "ab >-\"=", 0, 9);
						for (size_t i; (i = c.find("--")) != std::string::npos; ) c.erase(i, 1);
						while (!c.empty() && c.back() == '-') c.pop_back();
						if (harm) for (char& x : c) if (x == '>') x = ' ';
						t.w.put("--" + c + "--");
						need = false;
						continue;
					}
					a.name = t.w.put(word("abz_:", "abz09-_:./\xc4", 1, 8) + "n");
					need = true;
					if (choose(3)) {
						t.w.put(spaces(0, 2)); t.w.put("="); t.w.put(spaces(0, 2));
						if (choose(2)) {
							char q = some_quote();
							t.w.put(std::string(1, q));
							a.value = t.w.put(quoted_text(q, false));
							t.w.put(std::string(1, q));
							need = choose(2);
						}
						else a.value = t.w.put(word("abz09-_:&#", "abz09-_:=&#\"'</?!", 0, 10) + "v");
					}
					attr.push_back(a);
				}
				t.w.put(spaces(0, 2));
			};
			switch (kind) {
			case 0: case 1:
				t.w.put("<"); name = t.w.put(word("abz", "abz09-_:", 1, 8)); type = html_sequence_t::element_start;
				attributes(false);
				if (choose(3) == 1) { if (!harm) { t.w.put("/>"); type = html_sequence_t::element; } else if (choose(2)) t.w.put("/"); }
				else if (!harm) t.w.put(">");
				break;
			case 2:
				t.w.put("</"); name = t.w.put(word("abz", "abz09-_:", 1, 8)); type = html_sequence_t::element_end;
				if (choose(4)) t.w.put(spaces(0, 2)); else attributes(false);
				if (!harm) t.w.put(">");
				break;
			case 3: {
				std::string c = word(nullptr, "ab ->!<\"'", 0, choose(4) ? 8 : 40);
				for (size_t i; (i = c.find("-->")) != std::string::npos; ) c.erase(i, 1);
				t.w.put("<!--"); name = t.w.put(c); type = html_sequence_t::comment;
				if (!harm) t.w.put("-->"); else if (choose(2) && (c.size() < 2 || c.substr(c.size() - 2) != "--")) t.w.put("--");
				break;
			}
			case 4: {
				std::string c = word(nullptr, "ab ?<\"'-=", 0, choose(4) ? 8 : 40);
				bool q = choose(2);
				if (!q) while (!c.empty() && c.back() == '?') c.pop_back(); // would belong to the end
				t.w.put("<?"); name = t.w.put(c); type = html_sequence_t::instruction;
				if (q && !c.empty() && c.back() == '?') { }
				if (!harm) t.w.put(q ? "?>" : ">"); else if (q) t.w.put("?");
				break;
			}
			default:
				t.w.put("<!"); name = iv(from + 2, from + 2); type = html_sequence_t::declaration;
				attributes(true);
				if (!harm) t.w.put(choose(3) == 1 ? " !>" : ">");
			}
			iv whole(from, t.w.s.size());
			if (harm) {
				for (size_t i = from; i < t.w.s.size(); ++i) if (t.w.s[i] == '>') t.w.s[i] = '.';
				t.finish("", true);
				t.none("tag", p, flags);
				part_none("name", p.name, t.shown());
				SIM_CHECK(p.type == html_sequence_t::unknown && p.attributes.empty(), "made up", "\"%s\" is no tag, yet has a type or attributes", t.shown().c_str());
				state(kind << 16 | t.w.s.size());
				continue;
			}
			t.finish("<> /x");
			t.found("tag", p, flags, whole);
			SIM_CHECK(p.type == type, "type", "tag \"%s\" is told to be of type %d, not %d", t.shown().c_str(), (int)p.type, (int)type);
			part_at("name", p.name, name, t.shown());
			SIM_CHECK(p.attributes.size() == attr.size(), "attributes", "tag \"%s\" has %zu attributes, %zu told", t.shown().c_str(), attr.size(), p.attributes.size());
			for (size_t i = 0; i < attr.size(); ++i) {
				part_at("name of an attribute", p.attributes[i].name, attr[i].name, t.shown());
				if (attr[i].value) part_at("value of an attribute", p.attributes[i].value, attr[i].value, t.shown()); else part_none("value of an attribute", p.attributes[i].value, t.shown());
			}
			state((uint64_t)kind << 32 | attr.size() << 16 | t.w.s.size());
		}
	}
	#define BOTH(f) void s_##f() { if (choose(2)) f<char>(); else f<wchar_t>(); }
	BOTH(css) BOTH(mime) BOTH(names) BOTH(tags)
}
SIM_SCENARIOS("C40", { "CSS", 3, s_css }, { "MIME", 1, s_mime }, { "names", 2, s_names }, { "tags", 3, s_tags })
