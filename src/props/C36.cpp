// SIM: plain
// C36: an address or a link written by the rules is found whole, with each of its parts where it is and the address it stands for.
#include "pieces.h"
#include "sim.h"
#include <arpa/inet.h>
#include <string.h>
using namespace sim;
using namespace stdex::parser;

namespace
{
	typedef stdex::interval<size_t> iv;
	const char g_lower[] = "abcdefghijklmnopqrstuvwxyz";

	// ---- the addresses
	struct v4_model {
		uint8_t b[4]; iv at[4];
		v4_model() { for (auto& x : b) { static const uint8_t e[] = { 0, 1, 9, 10, 99, 100, 127, 192, 199, 200, 249, 250, 255 }; x = choose(2) ? (uint8_t)choose(256) : e[choose(13)]; } }
		template <class T> iv put(writer<T>& w)
		{
			size_t from = w.s.size();
			for (int i = 0; i < 4; ++i) { if (i) w.put("."); at[i] = w.put(std::to_string(b[i])); }
			return iv(from, w.s.size());
		}
		template <class T> void check(const basic_ipv4_address<T>& p) const
		{
			in_addr want; memcpy(&want, b, 4);
			SIM_CHECK(!memcmp(&p.value, &want, 4), "value", "%u.%u.%u.%u is taken for %08x", b[0], b[1], b[2], b[3], p.value.s_addr);
			for (int i = 0; i < 4; ++i) SIM_CHECK(p.components[i].start == at[i].start && p.components[i].end == at[i].end, "component", "component %d of %u.%u.%u.%u is at [%zu, %zu), not [%zu, %zu)", i, b[0], b[1], b[2], b[3], p.components[i].start, p.components[i].end, at[i].start, at[i].end);
		}
	};
	struct v6_model {
		uint16_t g[8]; iv at[8]; int from = 8, to = 8; // groups left out
		std::string scope; iv scope_at; bool with_scope;
		v6_model(bool with_scope) : with_scope(with_scope && choose(2))
		{
			for (auto& x : g) x = choose(3) ? (uint16_t)(choose(3) ? choose(0x10000) : choose(17)) : 0;
			if (choose(4) == 1) for (int i = 0; i < (int)choose(9); ++i) g[i] = 0;
			if (choose(3)) {
				// any of the runs of zeros, or of its parts
				from = (int)choose(8);
				if (g[from]) g[from] = 0;
				for (to = from + 1; to < 8 && !g[to] && choose(5); ++to);
			}
			if (this->with_scope) scope = word(nullptr, "abcdefgh0123456789-_XYZ", 1, 6);
		}
		std::string text() const { std::string s; char b[8]; for (int i = 0; i < 8; ++i) { snprintf(b, sizeof(b), i ? ":%x" : "%x", g[i]); s += b; } return s; }
		template <class T> iv put(writer<T>& w)
		{
			size_t from_text = w.s.size();
			unsigned style = choose(4);
			for (int i = 0; i < 8; ) {
				if (i == from) { w.put("::"); i = to; continue; }
				if (i && i != to) w.put(":");
				else if (i && to == from) w.put(":");
				char b[8]; snprintf(b, sizeof(b), style & 1 ? "%X" : "%x", g[i]);
				std::string x = b;
				if (style & 2) while (x.size() < 4 && choose(2)) x = "0" + x;
				at[i] = w.put(x);
				++i;
			}
			if (with_scope) { w.put("%"); scope_at = w.put(scope); }
			return iv(from_text, w.s.size());
		}
		template <class T> void check(const basic_ipv6_address<T>& p) const
		{
			in6_addr want; uint8_t b[16];
			for (int i = 0; i < 8; ++i) { b[2 * i] = (uint8_t)(g[i] >> 8); b[2 * i + 1] = (uint8_t)g[i]; }
			memcpy(&want, b, 16);
			char got[64]; inet_ntop(AF_INET6, &p.value, got, sizeof(got));
			SIM_CHECK(!memcmp(&p.value, &want, 16), "value", "%s is taken for %s", text().c_str(), got);
			for (int i = 0; i < 8; ++i) {
				if (i >= from && i < to) SIM_CHECK(p.components[i].empty() && p.components[i].start == p.components[i].end, "component", "component %d of %s, left out, is at [%zu, %zu)", i, text().c_str(), p.components[i].start, p.components[i].end);
				else SIM_CHECK(p.components[i].start == at[i].start && p.components[i].end == at[i].end, "component", "component %d of %s is at [%zu, %zu), not [%zu, %zu)", i, text().c_str(), p.components[i].start, p.components[i].end, at[i].start, at[i].end);
			}
			if (p.scope_id) {
				SIM_CHECK((bool)p.scope_id->interval == with_scope, "scope", "%s: scope %s", text().c_str(), with_scope ? "lost" : "made up");
				if (with_scope) SIM_CHECK(p.scope_id->interval.start == scope_at.start && p.scope_id->interval.end == scope_at.end, "scope", "scope of %s is at [%zu, %zu), not [%zu, %zu)", text().c_str(), p.scope_id->interval.start, p.scope_id->interval.end, scope_at.start, scope_at.end);
			}
		}
	};
	std::string dns_model()
	{
		std::string s = word(g_lower, "abcxyzABC0189", 1, 6);
		for (unsigned n = choose(4); n; --n) {
			s += ".";
			std::string l = word(nullptr, "abcxyzABC0189", 1, 5);
			if (choose(3) == 1) l += (choose(4) ? "-" : "--") + word(nullptr, "abc09", 1, 4);
			s += l;
		}
		return s == "mailto" ? "x" : s;
	}
	const char g_user[] = "abcdXYZ0129-._~%!$&'*+,;=", g_pass[] = "abcdXYZ0129-._~%!$&'()*+,;=:";
	std::string path_model()
	{
		std::string s = choose(3) ? "/" + word(nullptr, "abcXYZ019/-._~%!$&'()*+,;=:@", 0, 12) : "";
		return s;
	}
	const char g_more[] = " \"<>|\n^`{\\";

	template <class T> void addresses()
	{
		mk<T> m(choose(2) ? 0 : choose(8), choose(3) == 1);
		auto v4 = m.ipv4(); auto v6 = m.ipv6(); auto dns = m.dns();
		ev("addresses%s, parts %x", m.sgml ? " (SGML)" : "", m.cfg);
		for (unsigned n = 1 + choose(6); n; --n) {
			place<T> t(m);
			int flags = choose(2) ? match_case_insensitive : 0;
			switch (choose(6)) {
			case 0: { v4_model a; iv at = a.put(t.w); t.finish(" .:x/]-"); ev("IPv4"); t.found("IPv4 address", *v4, flags, at); a.check(*v4); break; }
			case 1: case 2: {
				v6_model a(m.opt(0)); iv at = a.put(t.w);
				// A colon behind is not a part of it
				if (!a.with_scope && !choose(3)) { t.w.put(a.from < 8 ? choose(2) ? ": " : ":]" : ":", true); t.finish(""); }
				else t.finish(a.with_scope ? " ]/." : " ]/.-");
				ev("IPv6");
				t.found("IPv6 address", *v6, flags, at); a.check(*v6); break;
			}
			case 3: {
				std::string d = dns_model(); iv at = t.w.put(d);
				if (choose(3) == 1) { t.w.put("."); if (m.opt(2)) at.end = t.w.s.size(); t.finish(" /:@"); }
				else t.finish(" /:@]");
				ev("DNS"); t.found("DNS name", *dns, flags, at);
				break;
			}
			case 4: { // three numbers or a number too big are no address
				if (choose(2)) { for (int i = 0; i < 3; ++i) { if (i) t.w.put("."); t.w.put(std::to_string(choose(256))); } }
				else { unsigned bad = choose(3); for (unsigned i = 0; i < 4; ++i) { if (i) t.w.put("."); t.w.put(std::to_string(i == bad ? 256 + choose(744) : choose(256))); } }
				t.finish(" x/]-"); ev("no IPv4"); t.none("", *v4, flags); break;
			}
			default: { // less than eight groups and nothing left out, or a colon alone at the start
				bool lead = choose(3) == 1;
				if (lead) t.w.put(":");
				for (unsigned i = 0, k = lead ? 8 : 1 + choose(7); i < k; ++i) { if (i) t.w.put(":"); char b[8]; snprintf(b, sizeof(b), "%x", choose(0x10000)); t.w.put(b); }
				t.finish(" ]/.-"); ev("no IPv6"); t.none("", *v6, flags); break;
			}
			}
			state((uint64_t)t.w.s.size() * 64 + t.start);
		}
	}

	template <class T> void email()
	{
		mk<T> m(choose(2) ? 0 : choose(8), choose(3) == 1);
		auto e = m.email();
		ev("e-mail%s, parts %x", m.sgml ? " (SGML)" : "", m.cfg);
		for (unsigned n = 1 + choose(5); n; --n) {
			place<T> t(m);
			int flags = choose(2) ? match_case_insensitive : 0;
			std::string u = word(nullptr, g_user, 1, 10); size_t from = t.w.s.size();
			iv user = t.w.put(u), host; t.w.put("@");
			v4_model a; v6_model b(m.opt(0)); unsigned kind = choose(3);
			if (kind == 0) host = t.w.put(dns_model());
			else { t.w.put("["); host = kind == 1 ? a.put(t.w) : b.put(t.w); t.w.put("]"); }
			iv at(from, t.w.s.size());
			t.finish(kind ? " >,.\n\")" : " >,\n\")");
			t.found("e-mail address", *e.p, flags, at);
			std::string s = t.shown();
			part("user name", e.p->username, true, user, s);
			part("host name", e.dns, kind == 0, host, s);
			part("IPv4 host", e.v4, kind == 1, host, s); if (kind == 1) a.check(*e.v4);
			part("IPv6 host", e.v6, kind == 2, host, s); if (kind == 2) b.check(*e.v6);
			ev("e-mail %u", kind);
			state((uint64_t)t.w.s.size() * 4 + kind);
		}
	}

	template <class T> void url()
	{
		mk<T> m(choose(2) ? 0 : choose(8), choose(3) == 1);
		auto u = m.url();
		ev("URL%s, parts %x", m.sgml ? " (SGML)" : "", m.cfg);
		for (unsigned n = 1 + choose(5); n; --n) {
			place<T> t(m);
			bool ci = choose(2); int flags = ci ? match_case_insensitive : 0;
			unsigned scheme = choose(5); // http, ftp, none, mailto, file
			static const char* names[] = { "http", "ftp", "", "mailto", "file" };
			std::string name = names[scheme];
			if (ci) for (char& c : name) if (choose(2)) c = (char)toupper(c);
			size_t from = t.w.s.size();
			iv sch = t.w.put(name), user, pass, host, port, path, query, mark;
			if (scheme != 2) t.w.put(scheme == 3 ? ":" : "://");
			bool has_user = scheme == 3 || (scheme < 2 && choose(2)), has_pass = has_user && scheme != 3 && choose(2), has_port = false, has_query = false, has_mark = false, has_path = false;
			unsigned kind = 9; v4_model a; v6_model b(m.opt(0)); unsigned port_no = 0;
			if (has_user) {
				user = t.w.put(word(nullptr, g_user, 1, 8));
				if (has_pass) { t.w.put(":"); pass = t.w.put(word(nullptr, g_pass, 1, 8)); }
				t.w.put("@");
			}
			if (scheme != 4) {
				kind = choose(3);
				if (kind == 0) host = t.w.put(dns_model());
				else if (kind == 1) { if (scheme == 3) t.w.put("["); host = a.put(t.w); if (scheme == 3) t.w.put("]"); }
				else { t.w.put("["); host = b.put(t.w); t.w.put("]"); }
				if (scheme != 3 && choose(2)) { has_port = true; t.w.put(":"); port_no = choose(65536); port = t.w.put(std::to_string(port_no)); }
			}
			size_t path_from = t.w.s.size();
			if (scheme != 3) {
				std::string p = path_model();
				if (scheme == 4 && p.empty()) p = "/";
				path = t.w.put(p);
				has_path = !p.empty();
				if (choose(3) == 1) { has_query = has_path = true; t.w.put("?"); query = t.w.put(word(nullptr, "abc019=&?/:@", 0, 10)); }
				if (choose(3) == 1) { has_mark = has_path = true; t.w.put("#"); mark = t.w.put(word(nullptr, "abc019=?/-#", 0, 8)); }
			}
			iv at(from, t.w.s.size());
			t.finish(scheme == 3 ? " >\"\n<" : g_more);
			std::string s = t.shown();
			ev("scheme %u host %u user %d port %d path %d", scheme, kind, has_user + has_pass, has_port, has_path);
			t.found("link", *u.p, flags, at);
			part("http", u.p->http_scheme, scheme == 0, sch, s); part("ftp", u.p->ftp_scheme, scheme == 1, sch, s);
			part("mailto", u.p->mailto_scheme, scheme == 3, sch, s); part("file", u.p->file_scheme, scheme == 4, sch, s);
			part("user name", u.p->username, has_user, user, s); part("password", u.p->password, has_pass, pass, s);
			part("host name", u.dns, kind == 0, host, s);
			part("IPv4 host", u.v4, kind == 1, host, s); if (kind == 1) a.check(*u.v4);
			part("IPv6 host", u.v6, kind == 2, host, s); if (kind == 2) b.check(*u.v6);
			part("port", u.port, has_port, port, s); if (has_port) SIM_CHECK(u.port->value == port_no, "value", "port of \"%s\" is %zu", s.c_str(), u.port->value);
			part("path", u.path, has_path, iv(path_from, at.end), s);
			if (has_path) {
				SIM_CHECK(u.path->path.start == path.start && u.path->path.end == path.end, "part", "path of \"%s\" is at [%zu, %zu), not at [%zu, %zu)", s.c_str(), u.path->path.start, u.path->path.end, path.start, path.end);
				SIM_CHECK((bool)u.path->query == has_query && (!has_query || (u.path->query.start == query.start && u.path->query.end == query.end)), "part", "query of \"%s\" is at [%zd, %zd)", s.c_str(), (ssize_t)u.path->query.start, (ssize_t)u.path->query.end);
				SIM_CHECK((bool)u.path->bookmark == has_mark && (!has_mark || (u.path->bookmark.start == mark.start && u.path->bookmark.end == mark.end)), "part", "bookmark of \"%s\" is at [%zd, %zd)", s.c_str(), (ssize_t)u.path->bookmark.start, (ssize_t)u.path->bookmark.end);
			}
			state(((uint64_t)t.w.s.size() * 5 + scheme) * 16 + kind);
		}
	}
	void s_addr() { if (choose(2)) addresses<char>(); else addresses<wchar_t>(); }
	void s_email() { if (choose(2)) email<char>(); else email<wchar_t>(); }
	void s_url() { if (choose(2)) url<char>(); else url<wchar_t>(); }
}
SIM_SCENARIOS("C36", { "addresses", 3, s_addr }, { "e-mail", 2, s_email }, { "links", 3, s_url })
