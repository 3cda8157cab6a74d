// SIM: plain
// C37: a payment reference is found whole, told in its normal form, and called valid exactly when its check digits are right.
#include "pieces.h"
#include <string.h>
using namespace sim;
using namespace stdex::parser;

namespace
{
	typedef stdex::interval<size_t> iv;
	const char g_digits[] = "0123456789", g_alnum[] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ";

	// ISO 7064 MOD 97-10, digit by digit
	unsigned mod97(const std::string& s)
	{
		unsigned r = 0;
		for (char c : s) if (c >= '0' && c <= '9') r = (r * 10 + (unsigned)(c - '0')) % 97; else r = (r * 100 + (unsigned)(c - 'A' + 10)) % 97;
		return r;
	}
	struct country { char id[3]; char fixed[3]; unsigned length; };
	const country g_countries[] = {
		{ "AD", "", 24 }, { "AE", "", 23 }, { "AL", "", 28 }, { "AT", "", 20 }, { "AZ", "", 28 }, { "BA", "39", 20 }, { "BE", "", 16 }, { "BG", "", 22 }, { "BH", "", 22 }, { "BR", "", 29 }, { "BY", "", 28 },
		{ "CH", "", 21 }, { "CR", "", 22 }, { "CY", "", 28 }, { "CZ", "", 24 }, { "DE", "", 22 }, { "DK", "", 18 }, { "DO", "", 28 }, { "EE", "", 20 }, { "EG", "", 29 }, { "ES", "", 24 }, { "FI", "", 18 }, { "FO", "", 18 }, { "FR", "", 27 },
		{ "GB", "", 22 }, { "GE", "", 22 }, { "GI", "", 23 }, { "GL", "", 18 }, { "GR", "", 27 }, { "GT", "", 28 }, { "HR", "", 21 }, { "HU", "", 28 }, { "IE", "", 22 }, { "IL", "", 23 }, { "IQ", "", 23 }, { "IS", "", 26 }, { "IT", "", 27 }, { "JO", "", 30 },
		{ "KW", "", 30 }, { "KZ", "", 20 }, { "LB", "", 28 }, { "LC", "", 32 }, { "LI", "", 21 }, { "LT", "", 20 }, { "LU", "", 20 }, { "LV", "", 21 }, { "LY", "", 25 }, { "MC", "", 27 }, { "MD", "", 24 }, { "ME", "25", 22 }, { "MK", "07", 19 }, { "MR", "13", 27 }, { "MT", "", 31 }, { "MU", "", 30 },
		{ "NL", "", 18 }, { "NO", "", 15 }, { "PK", "", 24 }, { "PL", "", 28 }, { "PS", "", 29 }, { "PT", "50", 25 }, { "QA", "", 29 }, { "RO", "", 24 }, { "RS", "35", 22 }, { "RU", "", 33 }, { "SA", "", 24 }, { "SC", "", 31 }, { "SE", "", 24 }, { "SI", "56", 19 }, { "SK", "", 24 }, { "SM", "", 27 }, { "ST", "", 25 }, { "SV", "", 28 },
		{ "TL", "38", 23 }, { "TN", "59", 24 }, { "TR", "", 26 }, { "UA", "", 29 }, { "VA", "", 22 }, { "VG", "", 24 }, { "XK", "", 20 },
	};
	std::string lower(std::string s) { for (char& c : s) if (choose(2)) c = (char)tolower(c); return s; }
	template <class T> std::string narrow(const T* s) { std::string r; for (; *s; ++s) r += (char)*s; return r; }

	template <class T> void iban()
	{
		mk<T> m(choose(2));
		auto p = m.iban();
		ev("IBAN, parts %x", m.cfg);
		for (unsigned n = 1 + choose(6); n; --n) {
			place<T> t(m);
			bool ci = choose(2);
			const country& c = g_countries[choose(sizeof(g_countries) / sizeof(*g_countries))];
			std::string bban, check;
			const char* a = choose(2) ? g_digits : choose(2) ? g_alnum : "AJKTUZ019";
			if (!choose(5)) bban = word(nullptr, choose(2) ? "Z" : choose(2) ? "9" : "0", c.length - 4, c.length - 4);
			else bban = word(nullptr, a, c.length - 4, c.length - 4);
			check = c.fixed;
			bool right = choose(4) != 1;
			if (check.empty()) {
				char b[16]; snprintf(b, sizeof(b), "%02u", right ? 98 - mod97(bban + c.id + "00") : choose(100)); check = b;
			}
			else if (right) for (unsigned i = 0; i < 97; ++i) {
				char b[16]; snprintf(b, sizeof(b), "%02u", i); bban.replace(bban.size() - 2, 2, b);
				if (mod97(bban + c.id + check) == 1) break;
			}
			if (choose(5) == 1) { // a slip of the pen
				size_t i = choose((uint32_t)bban.size());
				if (choose(2) || i + 1 == bban.size()) bban[i] = g_alnum[choose(36)]; else std::swap(bban[i], bban[i + 1]);
			}
			bool valid = mod97(bban + c.id + check) == 1;
			std::string s = c.id + check, body = bban;
			unsigned harm = choose(4) ? 0 : 1 + choose(5);
			switch (harm) {
			case 1: body.resize(choose((uint32_t)body.size())); break;
			case 2: body[choose((uint32_t)body.size())] = "-._/&"[choose(5)]; break;
			case 3: { static const char* bad[] = { "AA", "XX", "ZZ", "US", "S1", "1I", "QQ", "AN", "LA", "LZ", "TA", "SX" }; s = bad[choose(12)] + check; break; }
			case 4: if (c.fixed[0]) { s[2 + choose(2)] = c.fixed[0] == '1' ? '8' : '1'; if (!strcmp(s.c_str() + 2, c.fixed)) harm = 0; } else { s[2 + choose(2)] = "AO l"[choose(4)]; } break;
			case 5: if (ci) harm = 0; else { bool any = false; s = lower(s); for (char x : s) any |= x >= 'a'; if (!any) harm = 0; } break;
			}
			if (ci) { s = lower(s); body = lower(body); }
			unsigned spaces = m.opt(0) ? choose(3) : 0;
			std::string full = s;
			for (size_t i = 0; i < body.size(); ++i) { if ((spaces == 1 && !(i % 4)) || (spaces == 2 && !choose(5))) full += spaces == 2 && !choose(4) ? "  " : " "; full += body[i]; }
			iv at = t.w.put(full, true);
			t.finish(harm == 1 ? ".;-\n" : " .;-,0Z\n", harm == 1);
			ev("%s, %s%s", c.id, valid ? "valid" : "not valid", harm ? ", harmed" : "");
			int flags = ci ? match_case_insensitive : 0;
			if (harm) t.none("IBAN", *p, flags);
			else {
				t.found("IBAN", *p, flags, at);
				SIM_CHECK(narrow(p->country) == c.id && narrow(p->check_digits) == check && narrow(p->bban) == bban, "normal form", "IBAN \"%s\" is told as %s %s %s", full.c_str(), narrow(p->country).c_str(), narrow(p->check_digits).c_str(), narrow(p->bban).c_str());
				SIM_CHECK(p->is_valid == valid, "valid", "IBAN %s%s%s is called %s", c.id, check.c_str(), bban.c_str(), p->is_valid ? "valid" : "not valid");
			}
			state((uint64_t)c.length * 64 + harm * 4 + valid);
		}
	}

	template <class T> void creditor()
	{
		mk<T> m(choose(2));
		auto p = m.creditor();
		ev("creditor reference, parts %x", m.cfg);
		for (unsigned n = 1 + choose(6); n; --n) {
			place<T> t(m);
			bool ci = choose(2);
			unsigned len = choose(3) ? 1 + choose(21) : 21;
			std::string ref = word(nullptr, choose(2) ? g_digits : choose(2) ? g_alnum : "Z", len, len), check;
			{ char b[16]; snprintf(b, sizeof(b), "%02u", choose(4) ? 98 - mod97(ref + "RF00") : choose(100)); check = b; }
			if (choose(5) == 1) ref[choose((uint32_t)ref.size())] = g_alnum[choose(36)];
			bool valid = mod97(ref + "RF" + check) == 1;
			std::string s = "RF", full, body = ref;
			unsigned harm = choose(4) ? 0 : 1 + choose(4);
			switch (harm) {
			case 1: body = ""; break;
			case 2: body = word(nullptr, g_alnum, 22, 26); break;
			case 3: s = choose(2) ? "RE" : "QF"; break;
			case 4: check[choose(2)] = "AO-"[choose(3)]; break;
			}
			if (ci) { s = lower(s); body = lower(body); }
			bool spaces = m.opt(0) && choose(2);
			full = s + check;
			for (size_t i = 0; i < body.size(); ++i) { if (spaces && !(i % 4) && choose(8)) full += " "; full += body[i]; }
			iv at = t.w.put(full, true);
			// What follows is not a part of it
			if (harm != 1 && body.size() % 4 && choose(2)) { t.w.put(" " + word(nullptr, g_alnum, 1, 6), true); t.finish("", true); }
			else if (choose(3) == 1) { t.w.put(choose(2) ? " ." : " ", true); t.finish("", true); }
			else t.finish(".;-,\n", true);
			ev("%u letters, %s%s", len, valid ? "valid" : "not valid", harm ? ", harmed" : "");
			int flags = ci ? match_case_insensitive : 0;
			if (harm) t.none("creditor reference", *p, flags);
			else {
				t.found("creditor reference", *p, flags, at);
				std::string norm = std::string(21 - ref.size(), '0') + ref;
				SIM_CHECK(narrow(p->check_digits) == check && narrow(p->reference) == norm, "normal form", "creditor reference \"%s\" is told as %s %s", full.c_str(), narrow(p->check_digits).c_str(), narrow(p->reference).c_str());
				SIM_CHECK(p->is_valid == valid, "valid", "creditor reference %s is called %s", full.c_str(), p->is_valid ? "valid" : "not valid");
			}
			state((uint64_t)len * 16 + harm * 2 + valid);
		}
	}

	// ---- the Slovenian reference
	struct si_model { const char* ids; unsigned min, max; const char* groups[3]; unsigned longest; }; // a group: the parts that share a check digit, at the end of the last one
	const si_model g_models[] = {
		{ "00", 1, 3, {}, 12 }, { "01", 1, 3, { "123" }, 12 }, { "02", 3, 3, { "2", "3" }, 12 }, { "03", 3, 3, { "1", "2", "3" }, 12 }, { "04", 3, 3, { "1", "3" }, 12 }, { "05 55", 1, 3, { "1" }, 12 }, { "06", 2, 3, { "23" }, 12 },
		{ "07", 2, 3, { "2" }, 12 }, { "08", 3, 3, { "12", "3" }, 12 }, { "09", 1, 3, { "12" }, 12 }, { "10", 2, 3, { "1", "23" }, 12 }, { "11 18 19 28 38 40 41 48 49 51 58", 2, 3, { "1", "2" }, 12 }, { "12", 1, 1, { "1" }, 13 }, { "21 31", 2, 2, { "1" }, 12 },
	};
	char mod11(const std::string& s) // of all but the last digit
	{
		unsigned sum = 0, w = 2;
		for (size_t i = s.size() - 1; i--; ++w) sum += (unsigned)(s[i] - '0') * w;
		unsigned c = 11 - sum % 11;
		return (char)('0' + (c >= 10 ? 0 : c));
	}
	template <class T> void si()
	{
		mk<T> m(choose(2));
		auto p = m.si();
		ev("SI reference, parts %x", m.cfg);
		for (unsigned n = 1 + choose(6); n; --n) {
			place<T> t(m);
			bool ci = choose(2);
			const si_model& d = g_models[choose(sizeof(g_models) / sizeof(*g_models))];
			std::string id = std::string(d.ids).substr(3 * choose((uint32_t)(strlen(d.ids) + 1) / 3), 2);
			unsigned special = choose(12);
			if (special == 1) id = "99"; else if (special == 2 || special == 3) { // a model without rules
				std::string known = "99";
				for (auto& k : g_models) known += std::string(" ") + k.ids;
				do id = word(nullptr, g_digits, 2, 2); while (known.find(id) != std::string::npos);
				special = 2;
			}
			unsigned count = choose(8) == 1 ? choose(4) : d.min + choose(d.max - d.min + 1);
			std::string part[3];
			for (unsigned i = 0; i < count; ++i) part[i] = word(nullptr, g_digits, 1, choose(6) == 1 ? 14 : d.longest == 13 ? 13 : 6);
			bool right = choose(4) != 1;
			auto group = [&](const char* g, unsigned& last) { std::string s; for (; *g; ++g) { unsigned i = (unsigned)(*g - '1'); if (i < count) { s += part[i]; last = i; } } return s; };
			if (right && special != 1 && special != 2) for (const char* g : d.groups) if (g) { unsigned last = 0; std::string s = group(g, last); if (!s.empty()) part[last].back() = mod11(s); }
			bool valid = true;
			if (special != 1 && special != 2) {
				valid = count >= d.min && count <= d.max;
				size_t total = 0;
				for (auto& x : part) { total += x.size(); valid = valid && x.size() <= d.longest; }
				valid = valid && total <= 20;
				if (valid) for (const char* g : d.groups) if (g) { unsigned last = 0; std::string s = group(g, last); valid = valid && !s.empty() && s.back() == mod11(s); }
			}
			std::string s = "SI";
			unsigned harm = choose(6) ? 0 : 1 + choose(2);
			if (harm == 1) s = choose(2) ? "SL" : "RI"; else if (harm == 2) id[choose(2)] = "AO-"[choose(3)];
			if (ci) s = lower(s);
			size_t from = t.w.s.size();
			iv at = t.w.put(s + id, true), where[3];
			unsigned shown = special == 1 ? 0 : count;
			bool space = m.opt(0) && choose(2);
			if (count) {
				if (space) t.w.put(" ", true);
				for (unsigned i = 0; i < count; ++i) { if (i) t.w.put("-", true); where[i] = t.w.put(part[i], true); }
				if (shown) at.end = t.w.s.size();
				if (count == 3 && choose(4) == 1) { t.w.put("-" + word(nullptr, g_digits, 1, 3), true); t.finish("", true); }
				else if (choose(4) == 1) { t.w.put(choose(2) ? "-" : "- 1", true); t.finish("", true); }
				else t.finish(" .;,x\n");
			}
			else { if (choose(2)) t.w.put(" ", true); t.finish(".;,x-", true); }
			(void)from;
			int flags = ci ? match_case_insensitive : 0;
			ev("model %s, %u parts, %s%s", id.c_str(), count, valid ? "valid" : "not valid", harm ? ", harmed" : "");
			if (harm) t.none("SI reference", *p, flags);
			else {
				t.found("SI reference", *p, flags, at);
				SIM_CHECK(narrow(p->model) == id, "normal form", "model of \"%s\" is told as %s", t.shown().c_str(), narrow(p->model).c_str());
				const basic_si_reference_part<T>* q[] = { &p->part1, &p->part2, &p->part3 };
				for (unsigned i = 0; i < 3; ++i) ::part("part", q[i], i < shown, where[i], t.shown());
				SIM_CHECK(p->is_valid == valid, "valid", "SI reference \"%s\" is called %s", t.shown().c_str(), p->is_valid ? "valid" : "not valid");
			}
			state(((uint64_t)(id[0] * 10 + id[1]) * 4 + count) * 4 + harm * 2 + valid);
		}
	}
	void s_iban() { if (choose(2)) iban<char>(); else iban<wchar_t>(); }
	void s_creditor() { if (choose(2)) creditor<char>(); else creditor<wchar_t>(); }
	void s_si() { if (choose(2)) si<char>(); else si<wchar_t>(); }
}
SIM_SCENARIOS("C37", { "IBAN", 2, s_iban }, { "creditor", 2, s_creditor }, { "SI", 3, s_si })
