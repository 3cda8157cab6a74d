// Parsers put together the way the library's users do it: plain and wide characters, or text with SGML entities.
#pragma once
#include <stdint.h>
#include <string.h>
#include <stdexcept>
#include <memory>
#include <string>
#include <vector>
#include <stdex/parser.hpp>
#include "sim.h"

template <class T> struct mk {
	typedef stdex::parser::basic_parser<T> B;
	typedef std::shared_ptr<B> P;
	typedef std::shared_ptr<stdex::parser::basic_set<T>> S;
	typedef std::shared_ptr<stdex::parser::basic_integer10<T>> I;
	typedef std::basic_string<T> text;
	bool sgml;     // of char only
	unsigned cfg;  // which of the optional parts are there
	std::locale loc;
	explicit mk(unsigned cfg = 0, bool sgml = false) : sgml(sgml && sizeof(T) == 1), cfg(cfg), loc(std::locale::classic()) {}

	static text w(const std::string& s) { text r; for (char c : s) r += (T)(unsigned char)c; return r; }
	bool opt(unsigned bit) const { return !(cfg >> bit & 1); }

	static std::shared_ptr<stdex::parser::basic_parser<char>> sg(const char* s, int what, const std::locale& l)
	{
		using namespace stdex::parser;
		switch (what) {
		case 0: return std::make_shared<sgml_cp>(s, SIZE_MAX, false, l);
		case 1: return std::make_shared<sgml_string>(s, SIZE_MAX, l);
		case 2: return std::make_shared<sgml_space_cp>(false, l);
		case 3: return std::make_shared<sgml_any_cp>(l);
		case 4: return std::make_shared<sgml_punct_cp>(false, l);
		case 5: return std::make_shared<sgml_space_or_punct_cp>(false, l);
		case 6: return std::make_shared<sgml_ipv6_scope_id_char>(l);
		case 7: return std::make_shared<sgml_url_username_char>(l);
		case 8: return std::make_shared<sgml_url_password_char>(l);
		case 9: return std::make_shared<sgml_url_path_char>(l);
		}
		return nullptr;
	}
	template <class R, class Q> static R cast(const Q& q) { return std::reinterpret_pointer_cast<typename R::element_type>(q); }
	P cu(char c) const { char b[2] = { c, 0 }; return sgml ? cast<P>(sg(b, 0, loc)) : P(std::make_shared<stdex::parser::basic_cu<T>>((T)c, false, loc)); }
	P str(const char* s) const { return sgml ? cast<P>(sg(s, 1, loc)) : P(std::make_shared<stdex::parser::basic_string<T>>(w(s).c_str(), SIZE_MAX, loc)); }
	P space() const { return sgml ? cast<P>(sg("", 2, loc)) : P(std::make_shared<stdex::parser::basic_space_cu<T>>(false, loc)); }
	P any() const { return sgml ? cast<P>(sg("", 3, loc)) : P(std::make_shared<stdex::parser::basic_any_cu<T>>(loc)); }
	P punct() const { return sgml ? cast<P>(sg("", 4, loc)) : P(std::make_shared<stdex::parser::basic_punct_cu<T>>(false, loc)); }
	P space_or_punct() const { return sgml ? cast<P>(sg("", 5, loc)) : P(std::make_shared<stdex::parser::basic_space_or_punct_cu<T>>(false, loc)); }
	S set(const char* s, bool invert = false) const
	{
		return sgml ? cast<S>(std::make_shared<stdex::parser::sgml_cp_set>(s, SIZE_MAX, invert, loc)) : S(std::make_shared<stdex::parser::basic_cu_set<T>>(w(s).c_str(), SIZE_MAX, invert, loc));
	}
	P many(const P& p, size_t min = 1, size_t max = SIZE_MAX, bool greedy = true) const { return std::make_shared<stdex::parser::basic_iterations<T>>(p, min, max, greedy); }
	I int10() const { return std::make_shared<stdex::parser::basic_integer10<T>>(cu('0'), cu('1'), cu('2'), cu('3'), cu('4'), cu('5'), cu('6'), cu('7'), cu('8'), cu('9'), loc); }
	std::shared_ptr<stdex::parser::basic_integer10ts<T>> int10ts() const { return std::make_shared<stdex::parser::basic_integer10ts<T>>(int10(), set(",. "), loc); }
	std::shared_ptr<stdex::parser::basic_integer16<T>> int16() const
	{
		return std::make_shared<stdex::parser::basic_integer16<T>>(cu('0'), cu('1'), cu('2'), cu('3'), cu('4'), cu('5'), cu('6'), cu('7'), cu('8'), cu('9'), set("aA"), set("bB"), set("cC"), set("dD"), set("eE"), set("fF"), loc);
	}
	std::shared_ptr<stdex::parser::basic_roman_numeral<T>> roman() const
	{
		return std::make_shared<stdex::parser::basic_roman_numeral<T>>(cu('I'), cu('V'), cu('X'), cu('L'), cu('C'), cu('D'), cu('M'), opt(0) ? cu('A') : P(), opt(1) ? cu('B') : P(), loc);
	}
	std::shared_ptr<stdex::parser::basic_fraction<T>> fraction() const { return std::make_shared<stdex::parser::basic_fraction<T>>(int10(), cu('/'), int10(), loc); }
	std::shared_ptr<stdex::parser::basic_score<T>> score() const { return std::make_shared<stdex::parser::basic_score<T>>(int10(), set(":-"), int10(), space(), loc); }
	std::shared_ptr<stdex::parser::basic_signed_numeral<T>> signed_numeral() const
	{
		return std::make_shared<stdex::parser::basic_signed_numeral<T>>(opt(0) ? cu('+') : P(), opt(1) ? cu('-') : P(), opt(2) ? cu('~') : P(), int10(), loc);
	}
	std::shared_ptr<stdex::parser::basic_mixed_numeral<T>> mixed_numeral() const
	{
		return std::make_shared<stdex::parser::basic_mixed_numeral<T>>(opt(0) ? cu('+') : P(), opt(1) ? cu('-') : P(), opt(2) ? cu('~') : P(), int10(), space(), fraction(), loc);
	}
	std::shared_ptr<stdex::parser::basic_scientific_numeral<T>> scientific() const
	{
		std::shared_ptr<stdex::parser::basic_integer<T>> i = opt(7) ? std::shared_ptr<stdex::parser::basic_integer<T>>(int10()) : int10ts();
		return std::make_shared<stdex::parser::basic_scientific_numeral<T>>(opt(0) ? cu('+') : P(), opt(1) ? cu('-') : P(), opt(2) ? cu('~') : P(), i, cu(opt(7) ? '.' : ';'), int10(),
			opt(3) ? set("eE") : S(), opt(4) ? cu('+') : P(), opt(5) ? cu('-') : P(), opt(6) ? int10() : I(), loc);
	}
	std::shared_ptr<stdex::parser::basic_monetary_numeral<T>> monetary() const
	{
		return std::make_shared<stdex::parser::basic_monetary_numeral<T>>(opt(0) ? cu('+') : P(), opt(1) ? cu('-') : P(), opt(2) ? cu('~') : P(), set("$@"), int10(), cu('.'), int10(), loc);
	}
	std::shared_ptr<stdex::parser::basic_ipv4_address<T>> ipv4() const
	{
		return std::make_shared<stdex::parser::basic_ipv4_address<T>>(cu('0'), cu('1'), cu('2'), cu('3'), cu('4'), cu('5'), cu('6'), cu('7'), cu('8'), cu('9'), cu('.'), loc);
	}
	std::shared_ptr<stdex::parser::basic_ipv6_address<T>> ipv6(bool scope = true) const
	{
		P sc = sgml ? cast<P>(sg("", 6, loc)) : P(std::make_shared<stdex::parser::basic_ipv6_scope_id_char<T>>(loc));
		return std::make_shared<stdex::parser::basic_ipv6_address<T>>(cu('0'), cu('1'), cu('2'), cu('3'), cu('4'), cu('5'), cu('6'), cu('7'), cu('8'), cu('9'), set("aA"), set("bB"), set("cC"), set("dD"), set("eE"), set("fF"), cu(':'),
			scope && opt(0) ? cu('%') : P(), scope && opt(0) ? many(sc) : P(), loc);
	}
	std::shared_ptr<stdex::parser::basic_dns_name<T>> dns() const
	{
		bool idn = opt(1);
		std::shared_ptr<stdex::parser::basic_dns_domain_char<T>> c = sgml ?
			std::reinterpret_pointer_cast<stdex::parser::basic_dns_domain_char<T>>(std::shared_ptr<stdex::parser::basic_dns_domain_char<char>>(std::make_shared<stdex::parser::sgml_dns_domain_char>(idn, loc))) :
			std::make_shared<stdex::parser::basic_dns_domain_char<T>>(idn, loc);
		return std::make_shared<stdex::parser::basic_dns_name<T>>(opt(2), c, cu('.'), loc);
	}
	P user_char() const { return sgml ? cast<P>(sg("", 7, loc)) : P(std::make_shared<stdex::parser::basic_url_username_char<T>>(loc)); }
	P password_char() const { return sgml ? cast<P>(sg("", 8, loc)) : P(std::make_shared<stdex::parser::basic_url_password_char<T>>(loc)); }
	P path_char() const { return sgml ? cast<P>(sg("", 9, loc)) : P(std::make_shared<stdex::parser::basic_url_path_char<T>>(loc)); }
	std::shared_ptr<stdex::parser::basic_url_path<T>> url_path() const { return std::make_shared<stdex::parser::basic_url_path<T>>(path_char(), cu('?'), cu('#'), loc); }
	struct url_t {
		std::shared_ptr<stdex::parser::basic_url<T>> p;
		std::shared_ptr<stdex::parser::basic_ipv4_address<T>> v4;
		std::shared_ptr<stdex::parser::basic_ipv6_address<T>> v6;
		std::shared_ptr<stdex::parser::basic_dns_name<T>> dns;
		I port;
		std::shared_ptr<stdex::parser::basic_url_path<T>> path;
	};
	url_t url() const
	{
		url_t u;
		u.v4 = ipv4(); u.v6 = ipv6(); u.dns = dns(); u.port = int10(); u.path = url_path();
		u.p = std::make_shared<stdex::parser::basic_url<T>>(str("http"), str("ftp"), str("mailto"), str("file"), cu(':'), cu('/'), many(user_char()), many(password_char()), cu('@'), cu('['), cu(']'),
			u.v4, u.v6, u.dns, u.port, u.path, loc);
		return u;
	}
	struct email_t {
		std::shared_ptr<stdex::parser::basic_email_address<T>> p;
		std::shared_ptr<stdex::parser::basic_ipv4_address<T>> v4;
		std::shared_ptr<stdex::parser::basic_ipv6_address<T>> v6;
		std::shared_ptr<stdex::parser::basic_dns_name<T>> dns;
	};
	email_t email() const
	{
		email_t e;
		e.v4 = ipv4(); e.v6 = ipv6(); e.dns = dns();
		e.p = std::make_shared<stdex::parser::basic_email_address<T>>(many(user_char()), cu('@'), cu('['), cu(']'), e.v4, e.v6, e.dns, loc);
		return e;
	}
	std::shared_ptr<stdex::parser::basic_emoticon<T>> emoticon() const
	{
		return std::make_shared<stdex::parser::basic_emoticon<T>>(opt(0) ? set("^v") : S(), opt(1) ? cu('O') : P(), set(":;"), opt(2) ? set("-o") : S(), set(")(|D"), loc);
	}
	std::shared_ptr<stdex::parser::basic_date<T>> date(int mask) const { return std::make_shared<stdex::parser::basic_date<T>>(mask, int10(), int10(), int10(), set("./-"), space(), loc); }
	std::shared_ptr<stdex::parser::basic_time<T>> time() const { return std::make_shared<stdex::parser::basic_time<T>>(int10(), int10(), opt(0) ? int10() : I(), opt(1) ? int10() : I(), set(":."), opt(2) ? cu(',') : P(), loc); }
	std::shared_ptr<stdex::parser::basic_angle<T>> angle() const
	{
		return std::make_shared<stdex::parser::basic_angle<T>>(int10(), cu('*'), int10(), cu('\''), opt(0) ? int10() : I(), opt(1) ? cu('"') : P(), opt(2) ? P(std::make_shared<stdex::parser::basic_fraction<T>>(cu(','), cu('.'), int10(), loc)) : P(), loc);
	}
	std::shared_ptr<stdex::parser::basic_phone_number<T>> phone() const
	{
		return std::make_shared<stdex::parser::basic_phone_number<T>>(set("0123456789"), opt(0) ? cu('+') : P(), opt(1) ? set("([") : S(), opt(1) ? set(")]") : S(), opt(2) ? set("-/") : S(), opt(3) ? space() : P(), loc);
	}
	std::shared_ptr<stdex::parser::basic_iban<T>> iban() const { return std::make_shared<stdex::parser::basic_iban<T>>(opt(0) ? space() : P(), loc); }
	std::shared_ptr<stdex::parser::basic_creditor_reference<T>> creditor() const { return std::make_shared<stdex::parser::basic_creditor_reference<T>>(opt(0) ? space() : P(), loc); }
	std::shared_ptr<stdex::parser::basic_si_reference<T>> si() const { return std::make_shared<stdex::parser::basic_si_reference<T>>(opt(0) ? space() : P(), loc); }
	std::shared_ptr<stdex::parser::basic_chemical_formula<T>> chemical() const
	{
		return std::make_shared<stdex::parser::basic_chemical_formula<T>>(std::make_shared<stdex::parser::basic_branch<T>>(std::vector<P>{ str("Na"), str("Cl"), str("H"), str("O"), str("C"), str("N") }, loc), set("0123456789"), set("+-"), loc);
	}
	std::shared_ptr<stdex::parser::basic_json_string<T>> json() const
	{
		return std::make_shared<stdex::parser::basic_json_string<T>>(cu('"'), any(), cu('\\'), cu('/'), cu('b'), cu('f'), cu('n'), cu('r'), cu('t'), cu('u'), int16(), loc);
	}
};

// Writes text the way its author would, in a text with SGML entities some characters by their entities, and knows what is where
template <class T> struct writer {
	const mk<T>& m;
	std::basic_string<T> s;
	unsigned entities = 0;
	explicit writer(const mk<T>& m) : m(m) {}
	void one(char c, bool plain = false)
	{
		if (m.sgml && !plain && (c == '&' || sim::choose(7) == 1)) {
			char b[16];
			switch (sim::choose(3)) {
			case 0: snprintf(b, sizeof(b), "&#%u;", (unsigned)(uint8_t)c); break;
			case 1: snprintf(b, sizeof(b), "&#x%x;", (unsigned)(uint8_t)c); break;
			default: {
				const char* n = c == '&' ? "amp" : c == ':' ? "colon" : c == '.' ? "period" : c == '/' ? "sol" : c == '@' ? "commat" : c == '[' ? "lsqb" : c == ']' ? "rsqb" : c == '?' ? "quest" : c == '#' ? "num" : c == '%' ? "percnt" : c == '-' ? "hyphen" : c == ',' ? "comma" : c == ';' ? "semi" : c == '$' ? "dollar" : c == '!' ? "excl" : c == '(' ? "lpar" : c == ')' ? "rpar" : c == '*' ? "ast" : c == '=' ? "equals" : c == '+' ? "plus" : nullptr;
				if (n && c != '-') snprintf(b, sizeof(b), "&%s;", n); else snprintf(b, sizeof(b), "&#%u;", (unsigned)(uint8_t)c);
			}
			}
			for (const char* q = b; *q; ++q) s += (T)*q;
			++entities;
		}
		else s += (T)(uint8_t)c;
	}
	stdex::interval<size_t> put(const std::string& x, bool plain = false)
	{
		size_t from = s.size();
		for (char c : x) one(c, plain);
		return stdex::interval<size_t>(from, s.size());
	}
};

inline std::string word(const char* first, const char* chars, unsigned min, unsigned max)
{
	std::string s;
	for (unsigned n = min + sim::choose(max - min + 1); n; --n) { const char* a = s.empty() && first ? first : chars; s += a[sim::choose((uint32_t)strlen(a))]; }
	return s;
}


template <class T> struct place { // a text with something else before and behind
	writer<T> w; size_t start = 0;
	place(const mk<T>& m) : w(m) { w.put(word(nullptr, "abc 019:./@[]-", 0, 8), true); start = w.s.size(); }
	size_t end = 0; bool zero = false;
	T* block = nullptr;
	void finish(const char* more, bool nothing_else = false)
	{
		if (more[0] && sim::choose(2)) { w.put(std::string(1, more[sim::choose((uint32_t)strlen(more))]), true); if (!nothing_else) w.put(word(nullptr, "abc 019:./@[]-", 0, 8), true); }
		zero = sim::choose(2);
		block = new T[w.s.size() + zero];
		memcpy((void*)block, w.s.data(), w.s.size() * sizeof(T));
		if (zero) block[w.s.size()] = 0;
		end = zero && sim::choose(2) ? SIZE_MAX : w.s.size();
	}
	~place() { delete[] block; }
	std::string shown() const { std::string r; for (size_t i = start; i < w.s.size(); ++i) r += (char)w.s[i]; return r; }
	template <class P> bool match(P& p, int flags)
	{
		if (!sim::choose(12)) {
			sim::alloc_faults f(1, 2);
			try { return p.match(block, start, end, flags); }
			catch (const std::bad_alloc&) { SIM_CHECK(f.fired(), "refused", "memory was there"); sim::ev("no memory"); }
		}
		return p.match(block, start, end, flags);
	}
	template <class P> void found(const char* what, P& p, int flags, const stdex::interval<size_t>& at)
	{
		bool ok = match(p, flags);
		SIM_CHECK(ok, "found", "%s \"%s\" is not found", what, shown().c_str());
		SIM_CHECK(p.interval.start == at.start && p.interval.end == at.end, "whole", "%s \"%s\" is at [%zu, %zu), found at [%zu, %zu)", what, shown().c_str(), at.start, at.end, p.interval.start, p.interval.end);
	}
	template <class P> void none(const char* what, P& p, int flags)
	{
		SIM_CHECK(!match(p, flags), "made up", "%s \"%s\" is taken for one, at [%zu, %zu)", what, shown().c_str(), p.interval.start, p.interval.end);
		SIM_CHECK(!p.interval, "made up", "%s \"%s\" is refused, yet has a place", what, shown().c_str());
		SIM_CHECK(p.interval.size() == 0, "made up", "%s \"%s\" is refused, yet has a size", what, shown().c_str());
	}
};
template <class P> void part(const char* what, const P& p, bool there, const stdex::interval<size_t>& at, const std::string& text)
{
	SIM_CHECK((bool)p->interval == there, "part", "%s of \"%s\" is %s", what, text.c_str(), there ? "lost" : "made up");
	if (there) SIM_CHECK(p->interval.start == at.start && p->interval.end == at.end, "part", "%s of \"%s\" is at [%zu, %zu), not at [%zu, %zu)", what, text.c_str(), p->interval.start, p->interval.end, at.start, at.end);
}

