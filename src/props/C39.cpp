// SIM: plain
// C39: numbers, dates, times, angles, phone numbers, emoticons, formulas and JSON strings are found whole and told exactly.
#include "pieces.h"
#include <math.h>
#include <string.h>
using namespace sim;
using namespace stdex::parser;

namespace
{
	typedef stdex::interval<size_t> iv;
	const char g_digits[] = "0123456789";

	template <class T> mk<T> maker() { unsigned cfg = choose(3) ? choose(256) : 0; return mk<T>(cfg, sizeof(T) == 1 && choose(3) == 1); }
	std::string digits(unsigned min, unsigned max) { return word(nullptr, choose(3) ? g_digits : choose(2) ? "09" : "0", min, max); }
	uint64_t number(const std::string& s) { uint64_t r = 0; for (char c : s) r = r * 10 + (uint64_t)(c - '0'); return r; }
	std::string digits_under(unsigned max) { char b[16]; snprintf(b, sizeof(b), "%0*u", 1 + (int)choose(3), choose(4) ? choose(max) : choose(2) ? max - 1 : 0); return b; }
	template <class P> void value(const char* what, const P& p, uint64_t v, const std::string& text)
	{
		SIM_CHECK(p->value == v, "value", "%s of \"%s\" is %llu, not %llu", what, text.c_str(), (unsigned long long)v, (unsigned long long)p->value);
	}
	int some_flags() { return choose(2) ? match_multiline : match_default; }

	// ---- integers
	template <class T> void integers()
	{
		mk<T> m = maker<T>();
		auto dec = m.int10(); auto ts = m.int10ts(); auto hex = m.int16(); auto roman = m.roman();
		ev("integers%s, parts %x", m.sgml ? " in SGML" : "", m.cfg);
		for (unsigned n = 1 + choose(8); n; --n) {
			place<T> t(m);
			unsigned kind = choose(4);
			ev("integer of kind %u", kind);
			switch (kind) {
			case 0: {
				std::string s = digits(choose(10) ? 1 : 0, 18);
				iv at = t.w.put(s);
				t.finish(".,;x-+ ");
				if (s.empty()) { t.none("integer", *dec, 0); value("integer", dec, 0, ""); }
				else { t.found("integer", *dec, some_flags(), at); value("integer", dec, number(s), s); }
				break;
			}
			case 1: {
				bool none = choose(10) == 1, grouped = !choose(2);
				std::string all = none ? "" : digits(1, grouped ? 3 : 18);
				iv at = t.w.put(all);
				unsigned groups = none ? 0 : all.size() <= 3 && grouped ? choose(6) : 0;
				char sep = ",. "[choose(3)];
				for (unsigned i = 0; i < groups; ++i) { std::string g = digits(3, 3); t.w.put(std::string(1, sep)); at.end = t.w.put(g).end; all += g; }
				// What no longer belongs to it
				bool three = !none && all.size() > 3 && !groups;
				if (!none) switch (choose(5)) {
				case 0: if (three || groups) { char o = sep; if (three) o = ",. "[choose(3)]; else while (o == sep) o = ",. "[choose(3)]; t.w.put(std::string(1, o) + digits(3, 3), true); t.finish("x-,. "); } else t.finish("x-"); break; // mixed separators, or more than three digits in front
				case 1: t.w.put(std::string(1, sep) + digits(1, 2), true); t.finish("x;-"  , false); break; // too few digits
				case 2: t.w.put(std::string(1, sep) + digits(4, 7), true); t.finish("x;-"); break; // too many
				case 3: t.w.put(std::string(2, sep), true); t.finish("x-1"); break;
				default: t.finish("x-;");
				}
				else t.finish("x-;,. ");
				if (none) { t.none("integer with separators", *ts, 0); value("integer with separators", ts, 0, ""); SIM_CHECK(!ts->digit_count && !ts->has_separators, "digits", "no integer has %zu digits", ts->digit_count); break; }
				t.found("integer with separators", *ts, some_flags(), at);
				value("integer with separators", ts, number(all), t.shown());
				SIM_CHECK(ts->digit_count == all.size() && ts->has_separators == (groups > 0), "digits", "\"%s\" has %zu digits and %s separators: %zu and %s told", t.shown().c_str(), all.size(), groups ? "some" : "no", ts->digit_count, ts->has_separators ? "some" : "no");
				break;
			}
			case 2: {
				std::string s = word(nullptr, "0123456789abcdefABCDEF", choose(10) ? 1 : 0, 16);
				iv at = t.w.put(s);
				t.finish(".,;xg-+ ");
				if (s.empty()) t.none("hexadecimal integer", *hex, 0);
				else { t.found("hexadecimal integer", *hex, choose(2) ? match_case_insensitive : 0, at); value("hexadecimal integer", hex, strtoull(s.c_str(), nullptr, 16), s); }
				break;
			}
			default: {
				// The way they are written since the Middle Ages
				bool k5 = m.opt(0), k10 = m.opt(0) && m.opt(1);
				unsigned limit = k10 ? 49999 : k5 ? 8999 : 3999;
				unsigned v = 1 + choose(choose(2) ? limit : std::min(limit, 100u)), left = v;
				static const struct { unsigned v; const char* s; } r[] = { { 10000, "B" }, { 9000, "MB" }, { 5000, "A" }, { 4000, "MA" }, { 1000, "M" }, { 900, "CM" }, { 500, "D" }, { 400, "CD" }, { 100, "C" }, { 90, "XC" }, { 50, "L" }, { 40, "XL" }, { 10, "X" }, { 9, "IX" }, { 5, "V" }, { 4, "IV" }, { 1, "I" } };
				std::string s;
				for (auto& x : r) { if ((x.v >= 9000 && !k10) || (x.v >= 4000 && !k5)) continue; for (; left >= x.v; left -= x.v) s += x.s; }
				if (v < 5 && choose(3) == 1) s = std::string(v, 'I'); // as on clocks
				bool ci = choose(2);
				if (ci) for (char& c : s) if (choose(2)) c = (char)tolower(c);
				// What follows cannot be read as a part of it
				iv at = t.w.put(s);
				t.finish(".,;-+ 1");
				t.found("Roman numeral", *roman, ci ? match_case_insensitive : 0, at);
				value("Roman numeral", roman, v, s);
				state(v);
			}
			}
			state((uint64_t)kind << 32 | t.w.s.size());
		}
	}

	// ---- fractions, scores, signed and mixed numerals
	enum { sign_none, sign_plus, sign_minus, sign_special };
	template <class T> unsigned put_sign(const mk<T>& m, writer<T>& w, iv& at)
	{
		unsigned s = choose(4);
		if (s && !m.opt(s - 1)) s = 0;
		at = iv();
		if (s) at = w.put(std::string(1, "+-~"[s - 1]));
		return s;
	}
	template <class P, class S> void signs(const P& p, unsigned s, const iv& at, const S& t)
	{
		auto one = [&](const char* what, auto& q, bool is) { if (q) part(what, q, is, at, t); };
		one("plus", p->positive_sign, s == sign_plus);
		one("minus", p->negative_sign, s == sign_minus);
		one("special sign", p->special_sign, s == sign_special);
	}
	template <class T> void numerals()
	{
		mk<T> m = maker<T>();
		auto frac = m.fraction(); auto score = m.score(); auto sign = m.signed_numeral(); auto mixed = m.mixed_numeral();
		ev("numerals%s, parts %x", m.sgml ? " in SGML" : "", m.cfg);
		auto spaces = [](unsigned min) { std::string s; for (unsigned k = min + (choose(2) ? 0 : choose(3)); k; --k) s += choose(2) ? ' ' : '\t'; return s; };
		for (unsigned n = 1 + choose(8); n; --n) {
			place<T> t(m);
			unsigned kind = choose(4), harm = choose(6) ? 0 : 1 + choose(3);
			ev("numeral of kind %u", kind);
			int flags = some_flags();
			switch (kind) {
			case 0: {
				std::string a = digits(1, 9), b = digits(1, 9);
				if (harm == 1) a = ""; else if (harm == 2) b = "";
				iv ia = t.w.put(a), il = t.w.put(harm == 3 ? choose(2) ? "\\" : " /" : "/"), ib = t.w.put(b);
				t.finish("./-x ", harm == 2);
				if (harm) { t.none("fraction", *frac, flags); part("numerator", frac->numerator, false, iv(), t.shown()); part("denominator", frac->denominator, false, iv(), t.shown()); part("line", frac->fraction_line, false, iv(), t.shown()); break; }
				t.found("fraction", *frac, flags, iv(ia.start, ib.end));
				part("numerator", frac->numerator, true, ia, t.shown()); part("line", frac->fraction_line, true, il, t.shown()); part("denominator", frac->denominator, true, ib, t.shown());
				value("numerator", std::static_pointer_cast<basic_integer10<T>>(frac->numerator), number(a), t.shown()); value("denominator", std::static_pointer_cast<basic_integer10<T>>(frac->denominator), number(b), t.shown());
				break;
			}
			case 1: {
				std::string a = digits(1, 4), b = digits(1, 4);
				if (harm == 1) a = ""; else if (harm == 2) b = "";
				iv ia = t.w.put(a); t.w.put(spaces(0)); iv is = t.w.put(harm == 3 ? "/" : choose(2) ? ":" : "-"); t.w.put(harm == 2 ? "" : choose(12) ? spaces(0) : "\n"); iv ib = t.w.put(b);
				bool broken = ib.start > is.end && (t.w.s[is.end] == '\n' || (m.sgml && t.shown().find("&#10;") != std::string::npos) || (m.sgml && t.shown().find("&#xa;") != std::string::npos));
				t.finish("./-x ", harm == 2);
				if (harm || broken) { t.none("score", *score, flags); part("home", score->home, false, iv(), t.shown()); part("guest", score->guest, false, iv(), t.shown()); break; }
				t.found("score", *score, flags, iv(ia.start, ib.end));
				part("home", score->home, true, ia, t.shown()); part("separator", score->separator, true, is, t.shown()); part("guest", score->guest, true, ib, t.shown());
				value("home", std::static_pointer_cast<basic_integer10<T>>(score->home), number(a), t.shown()); value("guest", std::static_pointer_cast<basic_integer10<T>>(score->guest), number(b), t.shown());
				break;
			}
			case 2: {
				iv is; unsigned s = put_sign(m, t.w, is);
				std::string a = harm ? "" : digits(1, 18);
				if (harm && choose(2)) t.w.put(" ");
				iv ia = t.w.put(a);
				t.finish("./-x ", harm);
				if (harm) { t.none("signed numeral", *sign, flags); signs(sign, 0, iv(), t.shown()); part("number", sign->number, false, iv(), t.shown()); break; }
				t.found("signed numeral", *sign, flags, iv(s ? is.start : ia.start, ia.end));
				signs(sign, s, is, t.shown()); part("number", sign->number, true, ia, t.shown());
				value("number", std::static_pointer_cast<basic_integer10<T>>(sign->number), number(a), t.shown());
				break;
			}
			default: {
				iv is; unsigned s = put_sign(m, t.w, is);
				unsigned shape = harm ? 0 : 1 + choose(3); // integer, fraction, both
				std::string a = digits(1, 6), b = digits(1, 6), c = digits(1, 6);
				iv ii, fr;
				if (shape & 1) ii = t.w.put(a);
				if (shape == 3) t.w.put(spaces(1));
				if (shape & 2) { size_t from = t.w.put(b).start; t.w.put("/"); fr = iv(from, t.w.put(c).end); }
				if (shape == 1 && choose(2)) { // what could have been a fraction
					static const char* no[] = { " ", "  x", " 1", " 1/", " /2", "\n1/2", "+1/2", " -1/2", "/" };
					const char* x = no[choose(9)];
					t.w.put(x, true); t.finish("", true);
				}
				else t.finish(harm ? "./-x" : shape & 2 ? "./-x " : ".-x", harm || shape == 1);
				if (harm) { t.none("mixed numeral", *mixed, flags); signs(mixed, 0, iv(), t.shown()); part("integer", mixed->integer, false, iv(), t.shown()); part("fraction", mixed->fraction, false, iv(), t.shown()); break; }
				t.found("mixed numeral", *mixed, flags, iv(s ? is.start : shape & 1 ? ii.start : fr.start, shape & 2 ? fr.end : ii.end));
				signs(mixed, s, is, t.shown()); part("integer", mixed->integer, shape & 1, ii, t.shown()); part("fraction", mixed->fraction, shape & 2, fr, t.shown());
				if (shape & 1) value("integer", std::static_pointer_cast<basic_integer10<T>>(mixed->integer), number(a), t.shown());
			}
			}
			state((uint64_t)kind * 8 + harm);
		}
	}

	// ---- scientific and monetary numerals
	template <class T> void decimals()
	{
		mk<T> m = maker<T>();
		auto sci = m.scientific(); auto mon = m.monetary();
		bool ts = !m.opt(7), ex = m.opt(3) && m.opt(6);
		ev("decimals%s, parts %x", m.sgml ? " in SGML" : "", m.cfg);
		for (unsigned n = 1 + choose(8); n; --n) {
			place<T> t(m);
			bool money = choose(3) == 1;
			ev("%s", money ? "money" : "number");
			iv is, ic, ii, id, ids, ie;
			unsigned s = put_sign(m, t.w, is);
			if (money) ic = t.w.put(choose(2) ? "$" : "@");
			unsigned shape = choose(10) ? 1 + choose(3) : 0; // integer, decimals, both
			std::string a, d, e, num;
			if (shape & 1) {
				if (ts && !money && choose(2)) {
					a = digits(1, 3); ii = t.w.put(a);
					for (unsigned g = choose(5); g; --g) { std::string x = digits(3, 3); t.w.put(","); ii.end = t.w.put(x).end; a += x; }
				}
				else { a = digits(1, ts && !money ? 3 : 17); ii = t.w.put(a); }
			}
			std::string sep = ts && !money ? ";" : ".";
			if (shape & 2) { d = digits(1, 17); ids = t.w.put(sep); id = t.w.put(d); }
			bool negexp = false, posexp = false; iv ies, iex;
			if (!money && ex && shape && choose(2)) {
				iex = t.w.put(choose(2) ? "e" : "E");
				posexp = m.opt(4) && choose(3) == 1; negexp = !posexp && m.opt(5) && choose(2);
				if (posexp || negexp) ies = t.w.put(posexp ? "+" : "-");
				e = choose(4) ? std::to_string(choose(30)) : choose(2) ? std::to_string(choose(400)) : "00" + std::to_string(choose(10)); ie = t.w.put(e);
			}
			else if (!money && shape && choose(3) == 1) { static const char* no[] = { "e", "e+", "E-", "ex", "e +1", "E --1" }; t.w.put(no[choose(6)], true); t.finish("", true); goto done; }
			else if (shape == 1 && choose(3) == 1) { t.w.put(sep, true); t.finish("", true); goto done; }
			t.finish(e.empty() ? shape & 2 ? ".;-x " : "-x" : ".;-xe", shape == 1 || !shape);
		done:
			int flags = some_flags();
			size_t from = s ? is.start : money ? ic.start : shape & 1 ? ii.start : ids.start, to = !e.empty() ? ie.end : shape & 2 ? id.end : ii.end;
			if (money) {
				if (!shape) { t.none("sum of money", *mon, flags); signs(mon, 0, iv(), t.shown()); part("currency", mon->currency, false, iv(), t.shown()); part("integer", mon->integer, false, iv(), t.shown()); part("decimals", mon->decimal, false, iv(), t.shown()); continue; }
				t.found("sum of money", *mon, flags, iv(from, to));
				signs(mon, s, is, t.shown()); part("currency", mon->currency, true, ic, t.shown()); part("integer", mon->integer, shape & 1, ii, t.shown()); part("decimal point", mon->decimal_separator, shape & 2, ids, t.shown()); part("decimals", mon->decimal, shape & 2, id, t.shown());
				if (shape & 1) value("integer", std::static_pointer_cast<basic_integer10<T>>(mon->integer), number(a), t.shown());
				if (shape & 2) value("decimals", std::static_pointer_cast<basic_integer10<T>>(mon->decimal), number(d), t.shown());
				continue;
			}
			if (!shape) { t.none("number", *sci, flags); signs(sci, 0, iv(), t.shown()); part("integer", sci->integer, false, iv(), t.shown()); part("decimals", sci->decimal, false, iv(), t.shown()); continue; }
			t.found("number", *sci, flags, iv(from, to));
			signs(sci, s, is, t.shown()); part("integer", sci->integer, shape & 1, ii, t.shown()); part("decimal point", sci->decimal_separator, shape & 2, ids, t.shown()); part("decimals", sci->decimal, shape & 2, id, t.shown());
			if (sci->exponent) part("exponent", sci->exponent, !e.empty(), ie, t.shown());
			if (sci->exponent_symbol) part("exponent symbol", sci->exponent_symbol, !e.empty(), iex, t.shown());
			if (sci->negative_exp_sign) part("exponent minus", sci->negative_exp_sign, negexp, ies, t.shown());
			if (sci->positive_exp_sign) part("exponent plus", sci->positive_exp_sign, posexp, ies, t.shown());
			num = (s == sign_minus ? "-" : "") + (a.empty() ? "0" : a) + "." + (d.empty() ? "0" : d) + (e.empty() ? "" : (negexp ? "e-" : "e") + e);
			double want = strtod(num.c_str(), nullptr);
			// as exact as doubles are, away from where they end
			if (want && (fabs(want) > 1e290 || fabs(want) < 1e-270)) continue;
			if (!want && number(a) + number(d)) continue;
			SIM_CHECK(fabs(sci->value - want) <= fabs(want) * 1e-13, "value", "\"%s\" is %.17g, not %.17g", t.shown().c_str(), want, sci->value);
			state((uint64_t)shape << 8 | s << 4 | (!e.empty() << 1) | negexp);
		}
	}

	// ---- dates and times
	template <class T> void dates()
	{
		mk<T> m = maker<T>();
		static const int all[] = { date_format_dmy, date_format_mdy, date_format_ymd, date_format_ym, date_format_my, date_format_dm, date_format_md };
		static const char* order[] = { "dmy", "mdy", "ymd", "ym", "my", "dm", "md" };
		int mask = choose(2) ? 1 << choose(7) : 1 + (int)choose(127);
		auto p = m.date(mask);
		ev("dates %x%s", (unsigned)mask, m.sgml ? " in SGML" : "");
		for (unsigned n = 1 + choose(8); n; --n) {
			place<T> t(m);
			unsigned count = choose(3) ? 3 : choose(6) ? 2 : 1;
			std::string x[3]; iv ix[3], isep[3]; char sep[3];
			bool broken[3] = {}; // by a line break before this number
			auto gap = [&]() -> bool { if (choose(3)) return false; if (choose(16) == 1) { t.w.put("\n", true); return true; } t.w.put(std::string(1 + choose(2), ' ')); return false; };
			sep[0] = "./-"[choose(3)]; sep[1] = choose(8) ? sep[0] : "./-"[choose(3)]; sep[2] = choose(4) ? sep[0] : "./-"[choose(3)];
			for (unsigned i = 0; i < count; ++i) {
				if (i) { broken[i] |= gap(); isep[i - 1] = t.w.put(std::string(1, sep[i - 1])); broken[i] |= gap(); }
				unsigned v = choose(3) == 0 ? choose(13) : choose(2) ? 1 + choose(31) : choose(2) ? 28 + choose(6) : 1900 + choose(200);
				x[i] = choose(2) ? std::to_string(v) : (v < 10 ? "0" : "") + std::to_string(v);
				ix[i] = t.w.put(x[i]);
			}
			bool trail = choose(3) == 1, trail_broken = false; // "5. 12."
			if (trail) { trail_broken = gap(); isep[count - 1] = t.w.put(std::string(1, sep[count == 2 ? 1 : 2])); if (count < 3) sep[count - 1] = sep[count == 2 ? 1 : 2]; t.finish("x", true); }
			else { t.finish("x", true); }
			int flags = some_flags();
			// What it may mean
			struct meaning { int format; uint64_t d, m, y; iv at; };
			std::vector<meaning> can;
			for (unsigned f = 0; f < 7; ++f) {
				if (!(mask & all[f])) continue;
				size_t k = strlen(order[f]);
				if (count < k || (k > 1 && broken[1]) || (k > 2 && (broken[2] || sep[0] != sep[1]))) continue;
				meaning r = { all[f], 0, 0, 0, iv(ix[0].start, ix[k - 1].end) };
				for (size_t i = 0; i < k; ++i) (order[f][i] == 'd' ? r.d : order[f][i] == 'm' ? r.m : r.y) = number(x[i]);
				static const unsigned days[] = { 0, 31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
				if (r.m < 1 || r.m > 12) continue;
				if (strchr(order[f], 'd') && (r.d < 1 || r.d > days[r.m])) continue;
				if (all[f] == date_format_dm || all[f] == date_format_md) {
					bool has = count > 2 || trail, br = count > 2 ? false : trail_broken;
					if (count > 2) { // a separator follows, but there may be a line break in front of it
						bool nl = false; for (size_t i = ix[1].end; i < isep[1].start; ++i) nl |= t.w.s[i] == '\n';
						br = nl;
					}
					if (has && !br && sep[1] == sep[0]) r.at.end = isep[1].end;
				}
				can.push_back(r);
			}
			ev("date of %u numbers, %zu meanings", count, can.size());
			state((uint64_t)mask << 8 | count << 4 | can.size());
			if (can.empty()) {
				t.none("date", *p, flags);
				SIM_CHECK(p->format == date_format_none, "format", "\"%s\" is not a date, yet its format is %x", t.shown().c_str(), (unsigned)p->format);
				part("day", p->day, false, iv(), t.shown()); part("month", p->month, false, iv(), t.shown()); part("year", p->year, false, iv(), t.shown());
				continue;
			}
			bool ok = t.match(*p, flags);
			SIM_CHECK(ok, "found", "date \"%s\" is not found", t.shown().c_str());
			const meaning* r = nullptr;
			for (auto& c : can) if (c.format == p->format) r = &c;
			SIM_CHECK(r, "format", "\"%s\" is taken for format %x, which it is not", t.shown().c_str(), (unsigned)p->format);
			bool whole = false;
			for (auto& c : can) whole |= c.format <= date_format_ymd;
			SIM_CHECK(!whole || r->format <= date_format_ymd, "format", "only a part of \"%s\" is taken for a date", t.shown().c_str());
			SIM_CHECK(p->interval.start == r->at.start && p->interval.end == r->at.end, "whole", "date \"%s\" is at [%zu, %zu), found at [%zu, %zu)", t.shown().c_str(), r->at.start, r->at.end, p->interval.start, p->interval.end);
			const char* o = nullptr; for (unsigned f = 0; f < 7; ++f) if (all[f] == r->format) o = order[f];
			auto check = [&](const char* what, char c, auto& q, uint64_t v) { const char* at = strchr(o, c); part(what, q, at, at ? ix[at - o] : iv(), t.shown()); if (at) value(what, q, v, t.shown()); };
			check("day", 'd', p->day, r->d); check("month", 'm', p->month, r->m); check("year", 'y', p->year, r->y);
		}
	}
	template <class T> void times()
	{
		mk<T> m = maker<T>();
		auto p = m.time();
		auto q = m.angle();
		ev("times and angles%s, parts %x", m.sgml ? " in SGML" : "", m.cfg);
		for (unsigned n = 1 + choose(8); n; --n) {
			place<T> t(m);
			int flags = some_flags();
			if (choose(2)) {
				// hh:mm[:ss[,mmm]]
				char s1 = choose(2) ? ':' : '.', s2 = choose(8) ? s1 : ':' ^ '.' ^ s1;
				std::string h = digits(1, 3), mi = choose(8) ? digits_under(60) : std::to_string(60 + choose(50)), s = choose(6) ? digits_under(60) : std::to_string(60 + choose(50)), ms = choose(6) ? digits_under(1000) : std::to_string(1000 + choose(50));
				unsigned shape = 1 + choose(4); // how many numbers
				iv ih = t.w.put(h), im, isec, ims;
				if (shape > 1) { t.w.put(std::string(1, s1)); im = t.w.put(mi); }
				if (shape > 2) { t.w.put(std::string(1, s2)); isec = t.w.put(s); }
				if (shape > 3) { t.w.put(","); ims = t.w.put(ms); }
				t.finish("x -;", true);
				bool ok = shape > 1 && number(mi) < 60, sec = ok && m.opt(0) && shape > 2 && s1 == s2 && number(s) < 60, mil = sec && m.opt(1) && m.opt(2) && shape > 3 && number(ms) < 1000;
				ev("time of %u numbers, %s", shape, mil ? "milliseconds" : sec ? "seconds" : ok ? "minutes" : "none");
				if (!ok) { t.none("time", *p, flags); part("hour", p->hour, false, iv(), t.shown()); part("minute", p->minute, false, iv(), t.shown()); }
				else {
					t.found("time", *p, flags, iv(ih.start, mil ? ims.end : sec ? isec.end : im.end));
					part("hour", p->hour, true, ih, t.shown()); part("minute", p->minute, true, im, t.shown());
					value("hour", p->hour, number(h), t.shown()); value("minute", p->minute, number(mi), t.shown());
				}
				if (p->second) { part("second", p->second, sec, isec, t.shown()); if (sec) value("second", p->second, number(s), t.shown()); }
				if (p->millisecond) { part("millisecond", p->millisecond, mil, ims, t.shown()); if (mil) value("millisecond", p->millisecond, number(ms), t.shown()); }
				state((uint64_t)shape * 8 + ok + sec + mil);
			}
			else {
				// 12*30'15",.25
				unsigned shape = choose(8);
				std::string d = digits(1, 3), mi = choose(8) ? digits_under(60) : std::to_string(60 + choose(50)), s = choose(6) ? digits_under(60) : std::to_string(60 + choose(50));
				size_t from = t.w.s.size(), to = from;
				iv idg, ids, im, ims, isec, iss, ide;
				bool sec = false, secsep = false, min = false, dec = false, deg = shape & 1, on = true;
				if (deg) { idg = t.w.put(d); ids = t.w.put("*"); to = ids.end; }
				if (shape & 2) {
					im = t.w.put(mi); ims = t.w.put("'");
					min = number(mi) < 60;
					if (min) to = ims.end; else on = false;
				}
				if (shape & 4) {
					isec = t.w.put(s);
					sec = on && m.opt(0) && number(s) < 60;
					if (sec) to = isec.end;
					on = sec;
					if (choose(3)) { iss = t.w.put("\""); secsep = sec && m.opt(1); if (secsep) to = iss.end; on = secsep; }
				}
				if (choose(3) == 1) {
					bool reach = to == t.w.s.size();
					size_t a = t.w.put(",").start; t.w.put("."); ide = iv(a, t.w.put(digits(1, 3)).end);
					dec = reach && m.opt(2) && (deg || min || sec);
					if (dec) to = ide.end;
				}
				t.finish("x -;", true);
				ev("angle %u", shape);
				if (!deg && !min && !sec) { t.none("angle", *q, flags); }
				else t.found("angle", *q, flags, iv(from, to));
				part("degree", q->degree, deg, idg, t.shown()); if (deg) value("degree", q->degree, number(d), t.shown());
				part("degree sign", q->degree_separator, deg, ids, t.shown());
				part("minute", q->minute, min, im, t.shown()); if (min) value("minute", q->minute, number(mi), t.shown());
				part("minute sign", q->minute_separator, min, ims, t.shown());
				if (q->second) { part("second", q->second, sec, isec, t.shown()); if (sec) value("second", q->second, number(s), t.shown()); }
				if (q->second_separator) part("second sign", q->second_separator, secsep, iss, t.shown());
				if (q->decimal) part("decimals", q->decimal, dec, ide, t.shown());
				state(1000 + shape * 8 + deg + min + sec + dec);
			}
		}
	}

	// ---- phone numbers
	template <class T> void phones()
	{
		mk<T> m = maker<T>();
		auto p = m.phone();
		ev("phone numbers%s, parts %x", m.sgml ? " in SGML" : "", m.cfg);
		for (unsigned n = 1 + choose(8); n; --n) {
			place<T> t(m);
			std::string norm;
			iv at; at.start = at.end = t.w.s.size();
			bool any = false, paren = false;
			// the number is kept the way it is written in the text
			auto kept = [&](const iv& i) { for (size_t k = i.start; k < i.end; ++k) norm += (char)t.w.s[k]; };
			if (m.opt(0) && choose(3) == 1) kept(t.w.put("+"));
			// groups of digits, one pair of parentheses, a separator or a space in between
			bool after = false; // a separator or a space would do here
			for (unsigned g = choose(12) ? 1 + choose(5) : 0; g; --g) {
				if (after && (m.opt(2) || m.opt(3)) && choose(3)) {
					bool sep = m.opt(2) && (!m.opt(3) || choose(2));
					if (sep && norm.size() && (norm.back() == ')' || norm.back() == ']' || norm.back() == ';')) sep = false;
					if (sep) t.w.put(choose(2) ? "-" : "/"); else if (m.opt(3)) t.w.put(choose(8) ? " " : "\t");
					after = false;
				}
				if (m.opt(1) && !paren && choose(4) == 1 && (g > 1 || any)) {
					bool square = choose(2);
					kept(t.w.put(square ? "[" : "("));
					for (unsigned k = 1 + choose(2); k; --k) { kept(t.w.put(digits(1, 3))); if (k > 1 && m.opt(3)) t.w.put(" "); }
					iv r = t.w.put(square ? "]" : ")");
					kept(r); paren = true; at.end = r.end; after = true;
				}
				else { iv r = t.w.put(digits(1, 5)); kept(r); at.end = r.end; any = true; after = true; }
			}
			// What comes after is no part of it
			if (any && choose(2)) {
				static const char* no[] = { "-", " ", "  1", "- 1", "--1", "-)", "(12", "(12]", "[12)", "()", "( 1)", "x", "+1", ".1", "\n1" };
				const char* x = no[choose(15)];
				bool bad = (x[0] == '(' || x[0] == '[') && m.opt(1) && !paren && (!strcmp(x, "()"));
				if (!bad && !(x[0] == ' ' && !m.opt(3)) ) {
					// a single separator or space followed by a digit would be a part
					bool sep1 = x[0] == ' ' || x[0] == '-';
					(void)sep1;
					t.w.put(x, true);
				}
				t.finish("", true);
			}
			else t.finish("x;,", true);
			int flags = some_flags();
			ev("phone number of %zu characters", norm.size());
			if (!any) { t.none("phone number", *p, flags); SIM_CHECK(p->value.empty(), "value", "what is not a phone number has a value"); continue; }
			t.found("phone number", *p, flags, at);
			std::string got; for (T c : p->value) got += (char)c;
			SIM_CHECK(got == norm, "value", "phone number \"%s\" is \"%s\", not \"%s\"", t.shown().c_str(), norm.c_str(), got.c_str());
			state(norm.size() * 2 + paren);
		}
	}

	// ---- emoticons and chemical formulas
	template <class T> void small()
	{
		mk<T> m = maker<T>();
		auto p = m.emoticon();
		auto q = m.chemical();
		ev("emoticons and formulas%s, parts %x", m.sgml ? " in SGML" : "", m.cfg);
		for (unsigned n = 1 + choose(8); n; --n) {
			place<T> t(m);
			int flags = some_flags();
			if (choose(2)) {
				unsigned harm = choose(6) ? 0 : 1 + choose(3);
				iv ie, ia, iy, in, im; int mouth = -1;
				if (m.opt(0) && !harm && choose(4) == 1) ie = t.w.put(choose(2) ? "^" : "v");
				else {
					if (m.opt(1) && choose(3) == 1) ia = t.w.put("O");
					if (harm != 1) iy = t.w.put(choose(2) ? ":" : ";");
					if (m.opt(2) && choose(2)) in = t.w.put(choose(2) ? "-" : "o");
					if (harm == 3) { t.w.put(" "); }
					if (harm != 2) {
						mouth = (int)choose(4);
						char c = ")(|D"[mouth];
						im = t.w.put(std::string(1 + (choose(2) ? 0 : choose(6)), c));
						if (choose(3) == 1) { char o = c; while (o == c) o = ")(|D"[choose(4)]; t.w.put(std::string(1 + choose(2), o), true); }
					}
				}
				t.finish("x.,", true);
				size_t from = ie ? ie.start : ia ? ia.start : iy ? iy.start : 0, to = ie ? ie.end : im.end;
				ev("emoticon %s", harm ? "harmed" : "");
				if (harm) { t.none("emoticon", *p, flags); part("eyes", p->eyes, false, iv(), t.shown()); part("mouth", p->mouth, false, iv(), t.shown()); if (p->apex) part("apex", p->apex, false, iv(), t.shown()); if (p->nose) part("nose", p->nose, false, iv(), t.shown()); continue; }
				t.found("emoticon", *p, flags, iv(from, to));
				if (p->emoticon) part("emoticon", p->emoticon, (bool)ie, ie, t.shown());
				if (p->apex) part("apex", p->apex, (bool)ia, ia, t.shown());
				part("eyes", p->eyes, (bool)iy, iy, t.shown());
				if (p->nose) part("nose", p->nose, (bool)in, in, t.shown());
				part("mouth", p->mouth, (bool)im, im, t.shown());
				if (im) SIM_CHECK(p->mouth->hit_offset == (size_t)mouth, "mouth", "mouth of \"%s\" is told as %zu", t.shown().c_str(), p->mouth->hit_offset);
				state(im.size() * 4 + (unsigned)(mouth + 1));
			}
			else {
				bool dig = false, charge = false, ci = choose(2);
				size_t from = t.w.s.size();
				unsigned k = choose(8) ? 1 + choose(6) : 0;
				for (unsigned i = 0; i < k; ++i) {
					static const char* e[] = { "Na", "Cl", "H", "O", "C", "N" };
					t.w.put(e[choose(6)]);
					if (choose(2)) { t.w.put(digits(1, 2)); dig = true; }
				}
				if (k && choose(3) == 1) { t.w.put(choose(2) ? "+" : "-"); charge = true; }
				iv at(from, t.w.s.size());
				t.finish(charge ? "x.,+-1Nh" : "x.,hX", true);
				ev("formula of %u elements", k);
				if (!k) t.none("formula", *q, flags | (ci ? match_case_insensitive : 0));
				else {
					if (charge || t.w.s.size() == at.end || t.w.s[at.end] != 'N') t.found("formula", *q, flags | (ci ? match_case_insensitive : 0), at);
					else if (!t.match(*q, flags)) SIM_CHECK(false, "found", "formula \"%s\" is not found", t.shown().c_str());
				}
				SIM_CHECK(q->has_digits == dig && q->has_charge == charge, "flags", "\"%s\": digits %d, charge %d told", t.shown().c_str(), q->has_digits, q->has_charge);
				state(5000 + k * 4 + dig * 2 + charge);
			}
		}
	}

	// ---- JSON strings
	void utf8(std::string& s, uint32_t c) { char b[5] = {}; if (c < 0x80) b[0] = (char)c; else if (c < 0x800) { b[0] = (char)(0xc0 | c >> 6); b[1] = (char)(0x80 | (c & 63)); } else if (c < 0x10000) { b[0] = (char)(0xe0 | c >> 12); b[1] = (char)(0x80 | (c >> 6 & 63)); b[2] = (char)(0x80 | (c & 63)); } else { b[0] = (char)(0xf0 | c >> 18); b[1] = (char)(0x80 | (c >> 12 & 63)); b[2] = (char)(0x80 | (c >> 6 & 63)); b[3] = (char)(0x80 | (c & 63)); } s += b; }
	template <class T> void json()
	{
		mk<T> m;
		auto p = m.json();
		ev("JSON strings");
		for (unsigned n = 1 + choose(6); n; --n) {
			place<T> t(m);
			std::basic_string<T> want;
			auto plain = [&](T c) { t.w.s += c; want += c; };
			auto code = [&](uint32_t c) { if (sizeof(T) == 1) { std::string u; utf8(u, c); for (char x : u) want += (T)x; } else want += (T)c; };
			auto hex = [&](uint32_t c) { char b[16]; snprintf(b, sizeof(b), choose(2) ? "\\u%04x" : "\\u%04X", c); t.w.put(b, true); };
			size_t from = t.w.s.size();
			unsigned harm = choose(8) ? 0 : 1 + choose(2);
			if (harm != 1) t.w.put("\"", true);
			bool lone = false; // a high surrogate has just been written
			for (unsigned k = choose(16); k; --k) {
				unsigned what = choose(10); bool now = false;
				switch (what) {
				case 0: { static const char e[] = "\"\\/bfnrt", v[] = "\"\\/\b\f\n\r\t"; unsigned i = choose(8); char b[3] = { '\\', e[i], 0 }; t.w.put(b, true); want += (T)v[i]; break; }
				case 1: { uint32_t c = 1 + choose(choose(2) ? 0x7f : 0x7ff); hex(c); code(c); break; }
				case 2: { uint32_t c = choose(2) ? 0x800 + choose(0xd800 - 0x800) : 0xe000 + choose(0x2000); hex(c); code(c); break; }
				case 3: { uint32_t c = choose(4) ? 0x10000 + choose(0x100000) : choose(2) ? 0x10000 : 0x10ffff; hex(0xd7c0 + (c >> 10)); hex(0xdc00 | (c & 0x3ff)); code(c); break; }
				case 4: if (lone) now = true; else { uint32_t c = 0xd800 + choose(0x800); hex(c); code(c); now = c < 0xdc00; } break; // half of a pair, kept
				case 5: if (sizeof(T) == 1) { for (char c : std::string(choose(2) ? "\xc4\x8d" : "\xf0\x9f\x98\x80")) plain((T)c); } else plain((T)(choose(2) ? 0x10d : 0x1f600)); break;
				case 6: { static const char* odd[] = { "u12", "u12g4", "ux", "q", "'", "x41" }; plain('\\'); for (const char* x = odd[choose(6)]; *x; ++x) plain((T)*x); plain('.'); break; } // not an escape: kept as it is
				default: for (char c : word(nullptr, "abcnrtu01289/'&;{}[]:, ", 1, 4)) plain((T)c);
				}
				lone = now;
			}
			if (harm == 2) { if (choose(3) == 1) t.w.put("\\\"", true); else if (choose(3) == 1) t.w.put("\\", true); t.finish("", true); }
			else {
				if (harm == 1) { if (t.w.s.size() == from || t.w.s[from] == '"') t.w.s.insert(t.w.s.begin() + (long)from, 'x'); }
				t.w.put("\"", true); t.finish("\"x,:}", false);
			}
			iv at(from, t.w.s.size());
			if (!harm) { // where it ends
				size_t i = from + 1;
				for (;; ++i) if (t.w.s[i] == '\\') { T nx = t.w.s[i + 1]; if (nx == '"' || nx == '\\') ++i; } else if (t.w.s[i] == '"') break;
				at.end = i + 1;
			}
			ev("JSON string of %zu characters%s", t.w.s.size() - from, harm ? ", harmed" : "");
			int flags = some_flags();
			if (harm) { t.none("JSON string", *p, flags); SIM_CHECK(p->value.empty(), "value", "what is not a string has a value"); }
			else {
				t.found("JSON string", *p, flags, at);
				SIM_CHECK(p->value == want, "value", "JSON string \"%s\" is told differently", t.shown().c_str());
			}
			state(t.w.s.size() * 4 + harm);
		}
	}
	#define BOTH(f) void s_##f() { if (choose(2)) f<char>(); else f<wchar_t>(); }
	BOTH(integers) BOTH(numerals) BOTH(decimals) BOTH(dates) BOTH(times) BOTH(phones) BOTH(small) BOTH(json)
}
SIM_SCENARIOS("C39", { "integers", 3, s_integers }, { "numerals", 2, s_numerals }, { "decimals", 2, s_decimals }, { "dates", 3, s_dates }, { "times", 2, s_times }, { "phones", 2, s_phones }, { "small", 1, s_small }, { "JSON", 2, s_json })
