// SIM: plain
// C38: an HTTP message put together by the rules is taken apart into what it was put together of, however it is spaced and folded.
#include "pieces.h"
#include <algorithm>
#include <math.h>
using namespace sim;
using namespace stdex::parser;

namespace
{
	typedef stdex::interval<size_t> iv;
	const char g_token[] = "abcXYZ019!#$%&'*+-.^_`|~", g_name[] = "abcdefXYZ-019";

	// The text being written, and where its parts are
	struct msg {
		std::string s;
		iv put(const std::string& x) { size_t from = s.size(); s += x; return iv(from, s.size()); }
		bool crlf = choose(2);
		bool folds = choose(2);
		const char* eol() { return choose(8) ? crlf ? "\r\n" : "\n" : crlf ? "\n" : "\r\n"; }
		void space(bool must = false) // between the parts
		{
			for (unsigned n = must ? 1 + choose(2) : choose(3) ? 0 : 1 + choose(2); n; --n)
				if (folds && choose(4) == 1) { s += eol(); s += choose(2) ? " " : "\t"; } else s += choose(3) ? " " : "\t";
		}
		void blank(bool must = false) { for (unsigned n = must ? 1 + choose(2) : choose(3) ? 0 : 1 + choose(2); n; --n) s += choose(3) ? " " : "\t"; }
	};
	void same(const char* what, const iv& got, const iv& want, const std::string& text)
	{
		if (!want) SIM_CHECK(!got, "part", "%s of \"%s\" is made up at [%zd, %zd)", what, text.c_str(), (ssize_t)got.start, (ssize_t)got.end);
		else SIM_CHECK(got.start == want.start && got.end == want.end, "part", "%s of \"%s\" is at [%zd, %zd), not at [%zd, %zd)", what, text.c_str(), (ssize_t)got.start, (ssize_t)got.end, (ssize_t)want.start, (ssize_t)want.end);
	}

	struct value_model {
		iv at, content; bool quoted;
		void put(msg& m)
		{
			quoted = choose(2);
			if (!quoted) { at = m.put(word(nullptr, g_token, 1, 8)); return; }
			size_t from = m.s.size(); m.put("\"");
			size_t in = m.s.size();
			for (unsigned n = choose(10); n; --n) switch (choose(8)) {
				case 1: m.put(choose(2) ? "\\\"" : "\\\\"); break;
				case 2: m.put(" "); break;
				case 3: m.put(choose(2) ? "\xc4\x8d" : "\xe2\x82\xac"); break;
				case 4: if (m.folds) { m.put(m.eol()); m.put(" "); } break;
				case 5: m.put(word(nullptr, ";,=/:()<>@[]?{}$", 1, 2)); break;
				default: m.put(word(nullptr, g_token, 1, 3));
			}
			content = iv(in, m.s.size());
			m.put("\"");
			at = iv(from, m.s.size());
		}
		void check(const char* what, const http_value& v, const std::string& text) const
		{
			same(what, v.interval, at, text);
			same(what, v.string.interval, quoted ? at : iv(), text);
			same(what, v.token.interval, quoted ? iv() : at, text);
			if (quoted) { SIM_CHECK(v.string.content.start == content.start && v.string.content.end == content.end, "part", "quoted %s of \"%s\" is at [%zd, %zd), not at [%zd, %zd)", what, text.c_str(), (ssize_t)v.string.content.start, (ssize_t)v.string.content.end, (ssize_t)content.start, (ssize_t)content.end); }
		}
	};
	struct param_model {
		iv at, name; value_model value;
		void put(msg& m, const char* prefix = "")
		{
			size_t from = m.s.size();
			m.put(prefix); name = m.put(word(nullptr, g_token, 1, 6)); m.space(); m.put("="); m.space(); value.put(m);
			at = iv(from, m.s.size());
		}
		template <class P> void check(const P& p, const std::string& text) const { same("parameter", p.interval, at, text); same("parameter name", p.name.interval, name, text); value.check("parameter value", p.value, text); }
	};
	struct media_model {
		iv at, type, subtype; std::vector<param_model> params;
		void put(msg& m, bool with_params)
		{
			size_t from = m.s.size();
			type = m.put(word(nullptr, g_token, 1, 6)); m.space(); m.put("/"); m.space(); subtype = m.put(word(nullptr, g_token, 1, 6));
			at = iv(from, m.s.size());
			if (with_params) for (unsigned n = choose(4); n; --n) { m.space(); m.put(";"); m.space(); params.emplace_back(); params.back().put(m); at.end = m.s.size(); }
		}
		void check(const http_media_range& p, const std::string& text) const { same("media range", p.interval, at, text); same("type", p.type.interval, type, text); same("subtype", p.subtype.interval, subtype, text); }
		void check(const http_media_type& p, const std::string& text) const
		{
			check(static_cast<const http_media_range&>(p), text);
			SIM_CHECK(p.params.size() == params.size(), "part", "\"%s\" has %zu parameters, told of %zu", text.c_str(), params.size(), p.params.size());
			size_t i = 0; for (auto& q : p.params) params[i++].check(q, text);
		}
	};
	struct cookie_model {
		iv at, name; value_model value; std::vector<param_model> params;
		void put(msg& m)
		{
			size_t from = m.s.size();
			name = m.put(word(nullptr, "abcXYZ019!#%&'*+-.^_`|~", 1, 6)); m.space(); m.put("="); m.space(); value.put(m);
			for (unsigned n = choose(3); n; --n) { m.space(); m.put(";"); m.space(); params.emplace_back(); params.back().put(m, "$"); }
			at = iv(from, m.s.size());
		}
		void check(const http_cookie& p, const std::string& text) const
		{
			same("cookie", p.interval, at, text); same("cookie name", p.name.interval, name, text); value.check("cookie value", p.value, text);
			SIM_CHECK(p.params.size() == params.size(), "part", "\"%s\" has %zu cookie parameters, told of %zu", text.c_str(), params.size(), p.params.size());
			size_t i = 0; for (auto& q : p.params) params[i++].check(q, text);
		}
	};
	struct url_model {
		iv at, server, port; unsigned port_no = 80; std::vector<iv> segments; iv path; struct arg { iv at, name, value; }; std::vector<arg> args;
		void put(msg& m)
		{
			size_t from = m.s.size();
			if (choose(2)) {
				m.put(choose(3) ? "http://" : "HTTP://"); server = m.put(word(nullptr, "abcxyz019.-", 1, 12));
				if (choose(2)) { m.put(":"); if (choose(4)) { port_no = choose(3) ? choose(65536) : choose(2) ? 65535 : 0; port = m.put(std::to_string(port_no)); } }
			}
			size_t pf = m.s.size();
			do { m.put("/"); segments.push_back(m.put(word(nullptr, "abcXYZ019-._~%!$&'()*+,;=:@#", 0, 6))); } while (choose(3));
			path = iv(pf, m.s.size());
			if (choose(2)) {
				m.put("?");
				for (unsigned n = choose(4); n; --n) {
					if (!args.empty() || choose(4) == 1) do m.put("&"); while (choose(6) == 1);
					arg a; size_t af = m.s.size();
					a.name = m.put(word(nullptr, "abcXYZ019-._~%+;:@/?", 1, 5));
					if (choose(3)) { m.put("="); a.value = m.put(word(nullptr, "abcXYZ019-._~%+;:@/?=", 0, 5)); }
					a.at = iv(af, m.s.size());
					args.push_back(a);
				}
				if (!args.empty() && choose(6) == 1) m.put("&");
			}
			at = iv(from, m.s.size());
		}
		void check(const http_url& p, const std::string& text) const
		{
			same("URL", p.interval, at, text); same("server", p.server.interval, server, text); same("port", p.port.interval, port, text); same("path", p.path.interval, path, text);
			SIM_CHECK(p.port.value == port_no, "value", "port of \"%s\" is %u", text.c_str(), p.port.value);
			SIM_CHECK(p.path.segments.size() == segments.size(), "part", "path of \"%s\" has %zu segments, told of %zu", text.c_str(), segments.size(), p.path.segments.size());
			for (size_t i = 0; i < segments.size(); ++i) SIM_CHECK(p.path.segments[i].interval.start == segments[i].start && p.path.segments[i].interval.end == segments[i].end, "part", "segment %zu of \"%s\" is at [%zd, %zd)", i, text.c_str(), (ssize_t)p.path.segments[i].interval.start, (ssize_t)p.path.segments[i].interval.end);
			SIM_CHECK(p.params.size() == args.size(), "part", "\"%s\" has %zu parameters, told of %zu", text.c_str(), args.size(), p.params.size());
			size_t i = 0;
			for (auto& q : p.params) { same("URL parameter", q.interval, args[i].at, text); same("URL parameter name", q.name, args[i].name, text); same("URL parameter value", q.value, args[i].value, text); ++i; }
		}
	};
	struct weight_model {
		iv at; float value = 1.0f;
		void put(msg& m)
		{
			if (choose(3) == 1) return;
			m.blank(); m.put(";"); m.blank(); m.put(choose(3) ? "q" : "Q"); m.blank(); m.put("="); m.blank();
			if (choose(8) == 1) { // precise beyond reason
				std::string d = word(nullptr, choose(2) ? "0123456789" : "09", 15, 90);
				at = m.put("0." + d); value = (float)strtod(("0." + d).c_str(), nullptr);
				return;
			}
			static const char* w[] = { "1", "0", "0.5", "0.8", "0.7", "1.0", "0.001", "0.999", "1.", "0.25", ".5" };
			std::string x = choose(2) ? w[choose(11)] : "0." + std::to_string(choose(1000));
			at = m.put(x);
			size_t dot = x.find('.'); double whole = dot == 0 ? 0 : atoi(x.substr(0, dot).c_str()), part = 0, den = 1;
			if (dot != std::string::npos) for (char c : x.substr(dot + 1)) { part = part * 10 + (c - '0'); den *= 10; }
			value = (float)(whole + part / den);
		}
		bool near(float v) const { return fabsf(v - value) <= 1e-6f; }
	};

	// Memory running out inside of a match has it thrown; tried again, it has to be right
	template <class P> bool try_match(P& p, const char* text, size_t start, size_t end)
	{
		for (unsigned n = choose(6) ? 0 : 1 + choose(3); n; --n) {
			alloc_faults f(1 + choose(6), 8);
			try { return p.match(text, start, end); }
			catch (const std::bad_alloc&) { SIM_CHECK(f.fired(), "refused", "memory was there"); ev("no memory"); }
		}
		return p.match(text, start, end);
	}
	struct block { char* p; size_t n; block(const std::string& s, bool zero) : p(new char[s.size() + zero]), n(s.size()) { memcpy(p, s.data(), n); if (zero) p[n] = 0; } ~block() { delete[] p; } };
#define FOUND(P, B, FROM, TO, WHAT) SIM_CHECK(try_match(P, (B).p, FROM, TO), "found", "%s \"%s\" is refused", WHAT, text.c_str())

	struct parsers { http_request request; http_header header; http_media_type media; http_cookie cookie; http_agent agent; http_line_break eol; http_weighted_value<http_language> lang; http_weighted_value<http_media_range, http_any_type> range; };

	void parts()
	{
		parsers q;
		for (unsigned n = 1 + choose(6); n; --n) {
			msg m;
			size_t from = m.put(word(nullptr, "ab ;,\"/=", 0, 4)).end;
			bool zero = choose(2);
			switch (choose(5)) {
			case 0: {
				media_model x; x.put(m, true); if (choose(3) == 1) m.put(choose(2) ? "," : ";");
				std::string text = m.s; block b(text, zero); ev("media type, %zu parameters", x.params.size());
				FOUND(q.media, b, from, zero ? SIZE_MAX : b.n, "media type"); x.check(q.media, text); break;
			}
			case 1: {
				cookie_model x; x.put(m); if (choose(3) == 1) m.put(choose(2) ? "," : "; a=b");
				std::string text = m.s; block b(text, zero); ev("cookie, %zu parameters", x.params.size());
				FOUND(q.cookie, b, from, zero ? SIZE_MAX : b.n, "cookie"); x.check(q.cookie, text); break;
			}
			case 2: {
				iv type = m.put(word(nullptr, g_token, 1, 8)), version;
				if (choose(2)) { m.put("/"); version = m.put(word(nullptr, "0123.a/", 1, 6)); }
				iv at(from, m.s.size());
				if (choose(2)) m.put(" (x/y; z)");
				std::string text = m.s; block b(text, zero); ev("agent");
				FOUND(q.agent, b, from, zero ? SIZE_MAX : b.n, "agent"); same("agent", q.agent.interval, at, text); same("agent type", q.agent.type, type, text); same("agent version", q.agent.version, version, text); break;
			}
			case 3: {
				bool any = choose(5) == 1; iv star, lang; std::vector<iv> comp; weight_model w;
				if (any) star = m.put("*");
				else { do { if (!comp.empty()) m.put("-"); comp.push_back(m.put(word(nullptr, "abcxyzABC", 1, 4))); } while (choose(2)); lang = iv(from, m.s.size()); }
				size_t end = m.s.size(); w.put(m); if (w.at) end = w.at.end;
				if (choose(2)) m.put(choose(2) ? "," : " , en");
				std::string text = m.s; block b(text, zero); ev("language");
				FOUND(q.lang, b, from, zero ? SIZE_MAX : b.n, "language"); same("weighted language", q.lang.interval, iv(from, end), text); same("asterisk", q.lang.asterisk.interval, star, text); same("language", q.lang.value.interval, lang, text); same("weight", q.lang.factor.interval, w.at, text);
				SIM_CHECK(w.near(q.lang.factor.value), "value", "weight of \"%s\" is %g", text.c_str(), q.lang.factor.value);
				if (!any) { SIM_CHECK(q.lang.value.components.size() == comp.size(), "part", "\"%s\" has %zu components, told of %zu", text.c_str(), comp.size(), q.lang.value.components.size()); for (size_t i = 0; i < comp.size(); ++i) same("component", q.lang.value.components[i], comp[i], text); }
				break;
			}
			default: {
				bool any = choose(4) == 1; iv star; media_model x; weight_model w;
				if (any) star = m.put(choose(2) ? "*/*" : "*"); else x.put(m, false);
				size_t end = m.s.size(); w.put(m); if (w.at) end = w.at.end;
				if (choose(2)) m.put(choose(2) ? "," : " , a/b");
				std::string text = m.s; block b(text, zero); ev("media range");
				// * may be the name of a type
				if (!any && text[from] == '*') break;
				FOUND(q.range, b, from, zero ? SIZE_MAX : b.n, "media range"); same("weighted media range", q.range.interval, iv(from, end), text); same("asterisk", q.range.asterisk.interval, star, text); same("weight", q.range.factor.interval, w.at, text);
				if (any) SIM_CHECK(!q.range.value.interval, "part", "media range of \"%s\" is made up", text.c_str()); else x.check(q.range.value, text);
				SIM_CHECK(w.near(q.range.factor.value), "value", "weight of \"%s\" is %g", text.c_str(), q.range.factor.value);
			}
			}
			state(m.s.size() * 16 + n);
		}
	}

	// The wishes of a browser, put in the order of preference
	void wishes()
	{
		typedef http_weighted_value<http_language> el;
		http_weighted_collection<el> list;
		for (unsigned round = 1 + choose(3); round; --round) {
			msg m; std::vector<std::pair<iv, weight_model>> want;
			for (unsigned n = choose(8); n; --n) {
				if (!want.empty()) { m.blank(); m.put(","); m.blank(); }
				iv at = m.put(choose(6) == 1 ? "*" : word(nullptr, "abcxyz", 1, 3));
				weight_model w; w.put(m); want.emplace_back(at, w);
			}
			m.blank();
			std::string text = m.s; bool zero = choose(2); block b(text, zero);
			list.clear();
			for (unsigned n = choose(5) ? 0 : 1 + choose(2); n; --n) {
				alloc_faults f(1 + choose(3), 8);
				try { list.insert(b.p, 0, b.n); list.clear(); }
				catch (const std::bad_alloc&) {
					SIM_CHECK(f.fired(), "refused", "memory was there"); ev("no memory");
					SIM_CHECK(list.size() <= want.size(), "made up", "%zu wishes of %zu", list.size(), want.size());
					list.clear();
				}
			}
			list.insert(b.p, 0, zero ? SIZE_MAX : b.n);
			ev("%zu wishes", want.size());
			SIM_CHECK(list.size() == want.size(), "lost", "\"%s\" has %zu wishes, told of %zu", text.c_str(), want.size(), list.size());
			std::stable_sort(want.begin(), want.end(), [](const std::pair<iv, weight_model>& x, const std::pair<iv, weight_model>& y) { return x.second.value > y.second.value; });
			size_t i = 0; const el* last = nullptr;
			for (auto& x : list) {
				SIM_CHECK(!last || last->factor.value >= x.factor.value, "order", "\"%s\": a wish of weight %g comes before one of %g", text.c_str(), last->factor.value, x.factor.value);
				SIM_CHECK(!last || last->factor.value > x.factor.value || last->interval.start < x.interval.start, "order", "\"%s\": wishes of equal weight are turned around", text.c_str());
				SIM_CHECK(want[i].second.near(x.factor.value), "value", "\"%s\": wish %zu has the weight %g, not %g", text.c_str(), i, x.factor.value, want[i].second.value);
				last = &x; ++i;
			}
			std::vector<size_t> a, c; for (auto& x : list) a.push_back(x.interval.start); for (auto& x : want) c.push_back(x.first.start);
			std::sort(a.begin(), a.end()); std::sort(c.begin(), c.end());
			SIM_CHECK(a == c, "lost", "\"%s\": not the wishes there were", text.c_str());
			state(want.size() * 64 + text.size());
		}
	}

	// Requests come one after another; the server takes each apart with what it has at hand
	void requests()
	{
		parsers q;
		msg m; struct header_model { iv at, name, value; unsigned kind = 0; media_model media; cookie_model cookie; };
		struct request_model { iv at, verb, type, maj, min; unsigned version = 0x009; url_model url; std::vector<header_model> headers; iv blank; };
		std::vector<request_model> all(1 + choose(3));
		for (auto& r : all) {
			m.folds = choose(2);
			size_t from = m.s.size();
			m.blank(); r.verb = m.put(word(nullptr, "ABCDEFGHabc-", 1, 7)); m.blank(true); r.url.put(m);
			if (choose(5)) {
				m.blank(true);
				r.type = m.put(choose(2) ? "HTTP" : word(nullptr, "abcXYZ", 1, 4)); m.put("/");
				unsigned maj = choose(3) ? 1 : choose(256), min = choose(3) ? choose(2) : choose(256);
				r.maj = m.put(std::to_string(maj)); r.version = maj << 8;
				if (choose(6)) { m.put("."); r.min = m.put(std::to_string(min)); r.version |= min; }
				if (!choose(4)) { m.put(" "); m.put(word(nullptr, "ab c", 0, 4)); }
			}
			else m.blank();
			m.put(m.eol());
			r.at = iv(from, m.s.size());
			for (unsigned n = choose(5); n; --n) {
				header_model h; size_t hf = m.s.size();
				h.name = m.put(word("abcXYZ", g_name, 1, 10)); m.blank(); m.put(":"); m.space();
				size_t vf = m.s.size();
				switch (h.kind = choose(5)) {
				case 0: break;
				case 1: h.media.put(m, true); break;
				case 2: h.cookie.put(m); break;
				default: for (unsigned k = 1 + choose(4), i = 0; i < k; ++i) { if (i) m.space(true); m.put(word(nullptr, "abcXYZ019:;,/=()\"\xc4\x8d", 1, 6)); }
				}
				if (h.kind) h.value = iv(vf, m.s.size());
				if (h.kind || m.s.back() != '\n') m.blank();
				m.put(m.eol());
				h.at = iv(hf, m.s.size());
				r.headers.push_back(h);
			}
			r.blank = m.put(m.eol());
		}
		bool zero = choose(2);
		std::string text = m.s; block b(text, zero); size_t end = zero ? SIZE_MAX : b.n, at = 0;
		for (auto& r : all) {
			ev("request, %zu headers", r.headers.size());
			FOUND(q.request, b, at, end, "request");
			same("request", q.request.interval, r.at, text); same("verb", q.request.verb, r.verb, text); r.url.check(q.request.url, text);
			SIM_CHECK((bool)q.request.protocol.interval == (bool)r.type, "part", "protocol of \"%s\" is %s", text.c_str(), r.type ? "lost" : "made up");
			if (r.type) { same("protocol", q.request.protocol.type, r.type, text); same("major version", q.request.protocol.version_maj, r.maj, text); same("minor version", q.request.protocol.version_min, r.min, text); }
			SIM_CHECK(q.request.protocol.version == r.version, "value", "version of \"%s\" is %x, not %x", text.c_str(), q.request.protocol.version, r.version);
			at = q.request.interval.end;
			for (auto& h : r.headers) {
				FOUND(q.header, b, at, end, "header");
				same("header", q.header.interval, h.at, text); same("header name", q.header.name, h.name, text);
				if (h.kind) same("header value", q.header.value, h.value, text); else SIM_CHECK(!q.header.value, "part", "a header without value has one at [%zd, %zd)", (ssize_t)q.header.value.start, (ssize_t)q.header.value.end);
				if (h.kind == 1) { FOUND(q.media, b, q.header.value.start, q.header.value.end, "media type"); h.media.check(q.media, text); }
				if (h.kind == 2) { FOUND(q.cookie, b, q.header.value.start, q.header.value.end, "cookie"); h.cookie.check(q.cookie, text); }
				at = q.header.interval.end;
			}
			SIM_CHECK(!try_match(q.header, b.p, at, end), "made up", "the empty line behind the headers of \"%s\" is taken for one", text.c_str());
			FOUND(q.eol, b, at, end, "empty line");
			at = q.eol.interval.end;
			SIM_CHECK(at == r.blank.end, "part", "headers of \"%s\" end at %zu", text.c_str(), at);
		}
		state(text.size() * 4 + all.size());
	}
}
SIM_SCENARIOS("C38", { "parts", 3, parts }, { "wishes", 2, wishes }, { "requests", 4, requests })
