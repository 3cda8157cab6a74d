// SIM: plain
// C44: text functions: what they find, compare, copy and convert is exact, and they stay within the text and the room.
#include <stdint.h>
#include <stdexcept>
#include <string>
#include <memory>
#include <mutex>
#include <stdex/locale.hpp>
#include <stdex/string.hpp>
#include <stdex/uuid.hpp>
#include <stdex/langid.hpp>
#include "sim.h"
#include "texts.h"
#include <math.h>
#include <string.h>
#include <vector>
using namespace sim;
using stdex::npos;

namespace
{
	template <class T> T low(T c) { return c >= 'A' && c <= 'Z' ? static_cast<T>(c + 32) : c; }
	template <class T> T up(T c) { return c >= 'a' && c <= 'z' ? static_cast<T>(c - 32) : c; }
	template <class T> bool blank(T c) { return c == ' ' || (c >= 9 && c <= 13); }
	template <class T> bool blank_classic(T c) { return blank(c) || (sizeof(T) > 1 && iswspace(static_cast<wint_t>(c))); }
	template <class T> std::basic_string<T> text(unsigned max, const char* of = "abABxyzZ [`{@/09\t\r\n")
	{
		std::basic_string<T> r;
		size_t n_of = strlen(of);
		bool narrow = choose(2); // Few letters repeat more
		for (unsigned n = size(max); n--;) r += choose(narrow ? 30 : 6) ? static_cast<T>(of[choose(narrow ? std::min<size_t>(4, n_of) : n_of)]) : static_cast<T>(1 + choose(sizeof(T) == 1 ? 255 : 0x2000));
		return r;
	}
	template <class T> std::basic_string<T> lows(std::basic_string<T> s) { for (auto& c : s) c = low(c); return s; }
	// A terminated text in a block of its own
	template <class T> struct zblock {
		std::unique_ptr<T[]> p;
		zblock(const std::basic_string<T>& s) : p(new T[s.size() + 1]) { std::copy(s.begin(), s.end(), p.get()); p[s.size()] = 0; }
		operator const T*() const { return p.get(); }
	};
	template <class T> void fill(T (&arr)[8], const std::basic_string<T>& s) { for (size_t i = 0; i < 8; ++i) arr[i] = i < s.size() ? s[i] : 0; }
	const std::locale& classic() { return std::locale::classic(); }
#define SAME(what, got, want) do { size_t g_ = (got), w_ = (want); SIM_CHECK(g_ == w_, "result", "%s: %zd instead of %zd", what, g_, w_); count_op(what); } while (0)

	// ---- looking for something ------------------------------------------------------------------
	template <class T> size_t position(const std::basic_string<T>& s, T c, bool fold, bool last)
	{
		size_t r = npos;
		for (size_t i = 0; i < s.size(); ++i)
			if (fold ? low(s[i]) == low(c) : s[i] == c) { r = i; if (!last) break; }
		return r;
	}
	template <class T1, class T2> size_t position(const std::basic_string<T1>& s, const std::basic_string<T2>& sample, bool fold)
	{
		for (size_t i = 0; i + sample.size() <= s.size(); ++i) {
			size_t j = 0;
			while (j < sample.size() && (fold ? low(s[i + j]) == low(sample[j]) : s[i + j] == sample[j])) ++j;
			if (j == sample.size()) return i;
		}
		return npos;
	}
	template <class T> void search()
	{
		auto s = text<T>(30);
		T c = s.empty() || !choose(3) ? static_cast<T>("aAbZ[{@`\n"[choose(9)]) : s[choose(s.size())];
		if (c < 128 && c > 0 && choose(2)) c = choose(2) ? low(c) : up(c);
		ev("search %s %x", show(s).c_str(), unit(c));
		block<T> b(s);
		zblock<T> z(s);
		SAME("strlen", stdex::strlen<T>(z), s.size());
		SAME("strnlen", stdex::strnlen(b.p, b.limit), s.size());
		SAME("strchr", stdex::strchr<T>(z, c), position(s, c, false, false));
		SAME("strnchr", stdex::strnchr(b.p, b.limit, c), position(s, c, false, false));
		SAME("strrchr", stdex::strrchr<T>(z, c), position(s, c, false, true));
		SAME("strrnchr", stdex::strrnchr(b.p, b.limit, c), position(s, c, false, true));
		SAME("strichr", stdex::strichr<T>(z, c), position(s, c, true, false));
		SAME("strnichr", stdex::strnichr(b.p, b.limit, c), position(s, c, true, false));
		SAME("strrichr", stdex::strrichr<T>(z, c), position(s, c, true, true));
		SAME("strrnichr", stdex::strrnichr(b.p, b.limit, c), position(s, c, true, true));
		T arr[8];
		fill(arr, s);
		auto few = s.substr(0, 8);
		SAME("strnlen (array)", stdex::strnlen(arr), few.size());
		SAME("strnchr (array)", stdex::strnchr(arr, c), position(few, c, false, false));
		SAME("strrnchr (array)", stdex::strrnchr(arr, c), position(few, c, false, true));
		SAME("strnichr (array)", stdex::strnichr(arr, c), position(few, c, true, false));
		SAME("strrnichr (array)", stdex::strrnichr(arr, c), position(few, c, true, true));
		bool is_blank = true, ascii = true, few_blank = true, few_ascii = true;
		for (size_t i = 0; i < s.size(); ++i) {
			if (!blank(s[i])) is_blank = false, few_blank &= i >= 8;
			if (unit(s[i]) > 0x7f) ascii = false, few_ascii &= i >= 8;
		}
		SAME("isblank", stdex::isblank(b.p, b.limit), is_blank);
		SAME("isblank (array)", stdex::isblank(arr), few_blank);
		SAME("is7bit", stdex::is7bit(b.p, b.limit), ascii);
		SAME("is7bit (array)", stdex::is7bit(arr), few_ascii);
		if constexpr (sizeof(T) != 2) {
			if (unit(c) < 0x80 && ascii) {
				SAME("strichr (locale)", stdex::strichr<T>(z, c, classic()), position(s, c, true, false));
				SAME("strnichr (locale)", stdex::strnichr(b.p, b.limit, c, classic()), position(s, c, true, false));
				SAME("strrichr (locale)", stdex::strrichr<T>(z, c, classic()), position(s, c, true, true));
				SAME("strrnichr (locale)", stdex::strrnichr(b.p, b.limit, c, classic()), position(s, c, true, true));
				SAME("strnichr (array, locale)", stdex::strnichr(arr, c, classic()), position(few, c, true, false));
				SAME("strrnichr (array, locale)", stdex::strrnichr(arr, c, classic()), position(few, c, true, true));
				SAME("isblank (locale)", stdex::isblank(b.p, b.limit, classic()), is_blank);
				SAME("isblank (array, locale)", stdex::isblank(arr, classic()), few_blank);
			}
		}
	}
	template <class T1, class T2> void search_text()
	{
		auto s = text<T1>(30);
		std::basic_string<T2> sample;
		if (choose(3)) {
			size_t from = choose(s.size() + 1), n = choose(s.size() - from + 1);
			for (size_t i = from; i < from + n; ++i) sample += static_cast<T2>(s[i]) ? static_cast<T2>(s[i]) : static_cast<T2>(1);
			for (auto& c : sample) if (c > 0 && c < 128 && !choose(4)) c = choose(2) ? low(c) : up(c);
			if (!choose(4)) sample += static_cast<T2>('q');
		}
		else sample = text<T2>(4);
		ev("find %s in %s", show(sample).c_str(), show(s).c_str());
		block<T1> b(s);
		zblock<T1> z(s);
		zblock<T2> t(sample);
		T1 arr[8];
		fill(arr, s);
		auto few = s.substr(0, 8);
		SAME("strstr", (stdex::strstr<T1, T2>(z, t)), position(s, sample, false));
		SAME("strnstr", (stdex::strnstr<T1, T2>(b.p, b.limit, t)), position(s, sample, false));
		SAME("strnstr (array)", (stdex::strnstr<T1, 8, T2>(arr, t)), position(few, sample, false));
		SAME("stristr", (stdex::stristr<T1, T2>(z, t)), position(s, sample, true));
		SAME("strnistr", (stdex::strnistr<T1, T2>(b.p, b.limit, t)), position(s, sample, true));
		SAME("strnistr (array)", (stdex::strnistr<T1, 8, T2>(arr, t)), position(few, sample, true));
		if constexpr (sizeof(T1) != 2 && sizeof(T2) != 2) {
			bool ascii = true;
			for (auto c : s) ascii &= unit(c) < 0x80;
			for (auto c : sample) ascii &= unit(c) < 0x80;
			if (ascii) {
				SAME("stristr (locale)", (stdex::stristr<T1, T2>(z, t, classic())), position(s, sample, true));
				SAME("strnistr (locale)", (stdex::strnistr<T1, T2>(b.p, b.limit, t, classic())), position(s, sample, true));
				SAME("strnistr (array, locale)", (stdex::strnistr<T1, 8, T2>(arr, t, classic())), position(few, sample, true));
			}
		}
	}

	// ---- comparing ------------------------------------------------------------------------------
	int sign(int x) { return (x > 0) - (x < 0); }
	template <class T1, class T2> int order(const std::basic_string<T1>& a, const std::basic_string<T2>& b, bool fold)
	{
		for (size_t i = 0; i < a.size() && i < b.size(); ++i) {
			auto x = fold ? low(a[i]) : a[i];
			auto y = fold ? low(b[i]) : b[i];
			if (x > y) return 1;
			if (x < y) return -1;
		}
		return (a.size() > b.size()) - (a.size() < b.size());
	}
	template <class S> S reversed(const S& s) { return S(s.rbegin(), s.rend()); }
	template <class T1, class T2> void compare()
	{
		auto s1 = text<T1>(20);
		for (auto& c : s1) if (unit(c) > 0x7f) c = 0x7f; // Above, the sign of char decides
		std::basic_string<T2> s2;
		switch (choose(4)) {
		case 0: s2 = text<T2>(20); break;
		default:
			for (auto c : s1) s2 += static_cast<T2>(c);
			if (choose(2) && !s2.empty()) { auto& c = s2[choose(s2.size())]; c = choose(3) == 0 ? static_cast<T2>("aB[z"[choose(4)]) : c > 0 && c < 128 ? choose(2) ? up(c) : low(c) : c; }
			if (!choose(3)) s2.resize(choose(s2.size() + 1));
			if (!choose(4)) s2 = std::basic_string<T2>(1, static_cast<T2>('a')) + s2;
		}
		for (auto& c : s2) if (unit(c) > 0x7f) c = 0x7f;
		ev("compare %s %s", show(s1).c_str(), show(s2).c_str());
		block<T1> b1(s1);
		block<T2> b2(s2);
		zblock<T1> z1(s1);
		zblock<T2> z2(s2);
		int want = order(s1, s2, false), iwant = order(s1, s2, true), rwant = order(reversed(s1), reversed(s2), false);
		SAME("strcmp", sign(stdex::strcmp<T1, T2>(z1, z2)), want);
		SAME("strncmp", sign(stdex::strncmp(b1.p, b1.limit, b2.p, b2.limit)), want);
		SAME("strrcmp", sign(stdex::strrcmp<T1, T2>(z1, z2)), rwant);
		SAME("strrncmp", sign(stdex::strrncmp(b1.p, b1.limit, b2.p, b2.limit)), rwant);
		SAME("stricmp", sign(stdex::stricmp<T1, T2>(z1, z2)), iwant);
		SAME("strnicmp", sign(stdex::strnicmp(b1.p, b1.limit, b2.p, b2.limit)), iwant);
		size_t n = choose(24);
		auto c1 = s1.substr(0, n);
		auto c2 = s2.substr(0, n);
		{
			// The same limit on both: texts in blocks no longer than that
			std::unique_ptr<T1[]> x(new T1[std::min(n, s1.size() + 1)]);
			std::unique_ptr<T2[]> y(new T2[std::min(n, s2.size() + 1)]);
			for (size_t i = 0; i < std::min(n, s1.size() + 1); ++i) x[i] = i < s1.size() ? s1[i] : 0;
			for (size_t i = 0; i < std::min(n, s2.size() + 1); ++i) y[i] = i < s2.size() ? s2[i] : 0;
			SAME("strncmp (one limit)", sign(stdex::strncmp<T1, T2>(x.get(), y.get(), n)), order(c1, c2, false));
			SAME("strrncmp (one limit)", sign(stdex::strrncmp<T1, T2>(x.get(), y.get(), n)), order(reversed(c1), reversed(c2), false));
			SAME("strnicmp (one limit)", sign(stdex::strnicmp<T1, T2>(x.get(), y.get(), n)), order(c1, c2, true));
			if constexpr (sizeof(T1) != 2 && sizeof(T2) != 2)
				SAME("strnicmp (one limit, locale)", sign(stdex::strnicmp<T1, T2>(x.get(), y.get(), n, classic())), order(c1, c2, true));
		}
		T1 a1[8];
		T2 a2[8];
		fill(a1, s1);
		fill(a2, s2);
		auto f1 = s1.substr(0, 8);
		auto f2 = s2.substr(0, 8);
		SAME("strncmp (arrays)", sign(stdex::strncmp(a1, a2)), order(f1, f2, false));
		SAME("strrncmp (arrays)", sign(stdex::strrncmp(a1, a2)), order(reversed(f1), reversed(f2), false));
		SAME("strnicmp (arrays)", sign(stdex::strnicmp(a1, a2)), order(f1, f2, true));
		if constexpr (sizeof(T1) != 2 && sizeof(T2) != 2) {
			SAME("stricmp (locale)", sign(stdex::stricmp<T1, T2>(z1, z2, classic())), iwant);
			SAME("strnicmp (locale)", sign(stdex::strnicmp(b1.p, b1.limit, b2.p, b2.limit, classic())), iwant);
			SAME("strnicmp (arrays, locale)", sign(stdex::strnicmp(a1, a2, classic())), order(f1, f2, true));
			if constexpr (std::is_same<T1, T2>::value) {
				SAME("strcoll", sign(stdex::strcoll<T1>(z1, z2, classic())), want);
				SAME("strncoll", sign(stdex::strncoll<T1>(b1.p, b1.limit, b2.p, b2.limit, classic())), want);
				SAME("strncoll (arrays)", sign(stdex::strncoll(a1, a2, classic())), order(f1, f2, false));
			}
		}
	}
	typedef std::basic_string<stdex::utf32_t> str32;
	// About where combining characters and surrogates begin and end
	const char16_t edges[22] = { 0x300, 0x2ff, 0x36f, 0x370, 0x1dbf, 0x1dc0, 0x1dff, 0x1e00, 0x20cf, 0x20d0, 0x20ff, 0x2100, 0xfe1f, 0xfe20, 0xfe2f, 0xfe30, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000 };
	std::u16string text16(unsigned max)
	{
		std::u16string s;
		for (unsigned n = size(max); n--;)
			switch (choose(4)) {
			case 0: s += 'a' + choose(3); break;
			case 1: s += static_cast<char16_t>(0xd800 + choose(2)); s += static_cast<char16_t>(0xdc00 + choose(2)); break;
			case 2: s += static_cast<char16_t>(0xd800 + choose(0x400)); break;
			case 3: s += choose(3) == 1 ? edges[choose(22)] : static_cast<char16_t>(choose(2) ? 0xdc00 + choose(0x400) : 0x300 + choose(0x100)); break;
			}
		return s;
	}
	str32 points(const std::u16string& s)
	{
		str32 r;
		for (size_t i = 0; i < s.size(); ++i) {
			if (s[i] >= 0xd800 && s[i] < 0xdc00 && i + 1 < s.size() && s[i + 1] >= 0xdc00 && s[i + 1] < 0xe000) { r += 0x10000 + ((s[i] - 0xd800) << 10) + (s[i + 1] - 0xdc00); ++i; }
			else r += s[i];
		}
		return r;
	}
	bool combining(uint32_t c) { return (c >= 0x300 && c < 0x370) || (c >= 0x1dc0 && c < 0x1e00) || (c >= 0x20d0 && c < 0x2100) || (c >= 0xfe20 && c < 0xfe30); }
	void unicode()
	{
		auto s = text16(16);
		for (auto& c : s) if (!choose(4)) c = choose(2) ? edges[choose(22)] : static_cast<char16_t>(0x300 + choose(0x80));
		auto p = points(s), q = p;
		if (!q.empty() && choose(2)) q[choose(q.size())] += choose(2) ? 1 : -1;
		if (!choose(3)) q.resize(choose(q.size() + 1));
		for (auto& c : q) if (!c) c = 1;
		ev("unicode %s", show(s).c_str());
		{
			block<char16_t> b(s);
			block<stdex::utf32_t> w(q);
			SAME("strncmp (UTF-32, UTF-16)", sign(stdex::strncmp(w.p, w.limit, b.p, b.limit)), order(q, p, false));
		}
		// To UTF-32
		{
			zblock<char16_t> z(s);
			std::unique_ptr<stdex::utf32_t[]> d(new stdex::utf32_t[p.size() + 1]);
			SAME("strcpy (UTF-16 to UTF-32)", stdex::strcpy(d.get(), static_cast<const char16_t*>(z)), p.size());
			SIM_CHECK(str32(d.get(), p.size() + 1) == p + str32(1, 0), "copy", "strcpy makes %s of %s", show(str32(d.get(), p.size() + 1)).c_str(), show(s).c_str());
		}
		{
			block<char16_t> b(s);
			size_t n = choose(p.size() + 3), copied = std::min(n, p.size());
			std::unique_ptr<stdex::utf32_t[]> d(new stdex::utf32_t[n]);
			SAME("strncpy (UTF-16 to UTF-32)", stdex::strncpy(d.get(), n, b.p, b.limit), copied);
			SIM_CHECK(str32(d.get(), copied) == p.substr(0, copied), "copy", "strncpy makes %s of %s", show(str32(d.get(), copied)).c_str(), show(s).c_str());
			SIM_CHECK(copied == n || !d[copied], "copy", "no terminator");
		}
		// Glyphs
		if (!s.empty()) {
			std::unique_ptr<char16_t[]> b(new char16_t[s.size()]);
			std::copy(s.begin(), s.end(), b.get());
			auto pair = [&](size_t i) { return i + 1 < s.size() && s[i] >= 0xd800 && s[i] < 0xdc00 && s[i + 1] >= 0xdc00 && s[i + 1] < 0xe000; };
			size_t n = pair(0) ? 2 : 1;
			while (n < s.size() && combining(s[n])) ++n;
			SAME("glyphlen (UTF-16)", stdex::glyphlen(b.get(), s.size()), n);
			size_t i = s.size();
			while (i && combining(s[i - 1])) --i;
			if (i) { --i; if (i && pair(i - 1)) --i; }
			SAME("glyphrlen (UTF-16)", stdex::glyphrlen(b.get(), s.size()), s.size() - i);
			for (i = 0; i + 1 < s.size(); ++i) SAME("is_surrogate_pair", stdex::is_surrogate_pair(&b[i]), pair(i));
		}
		if (!p.empty()) {
			std::unique_ptr<stdex::utf32_t[]> b(new stdex::utf32_t[p.size()]);
			std::copy(p.begin(), p.end(), b.get());
			size_t n = 1;
			while (n < p.size() && combining(p[n])) ++n;
			SAME("glyphlen (UTF-32)", stdex::glyphlen(b.get(), p.size()), n);
			size_t i = p.size();
			while (i && combining(p[i - 1])) --i;
			if (i) --i;
			SAME("glyphrlen (UTF-32)", stdex::glyphrlen(b.get(), p.size()), p.size() - i);
		}
		stdex::utf32_t c = 0x10000 + choose(0x100000);
		char16_t two[2];
		stdex::ucs4_to_surrogate_pair(two, c);
		SIM_CHECK(stdex::is_surrogate_pair(two) && unit(stdex::surrogate_pair_to_ucs4(two)) == unit(c), "surrogates", "%x is not itself in UTF-16", unit(c));
		// Kinds of characters
		uint32_t k = choose(choose(2) ? 0x80 : 0x400);
		auto kinds = [&](auto chr, const char* type) {
			bool lower = k >= 'a' && k <= 'z', upper = k >= 'A' && k <= 'Z', digit = k >= '0' && k <= '9';
			bool space = k == ' ' || (k >= 9 && k <= 13), punct = k > ' ' && k < 0x7f && !lower && !upper && !digit;
			SIM_CHECK(stdex::islower(chr) == lower && stdex::isupper(chr) == upper && stdex::isalpha(chr) == (lower || upper) && stdex::isdigit(chr) == digit && stdex::isspace(chr) == space && stdex::ispunct(chr) == punct && stdex::is7bit(chr) == (k < 0x80) && stdex::islbreak(chr) == (k == '\r' || k == '\n'), "kind", "%x (%s) is taken for something else", k, type);
			SIM_CHECK(stdex::tolower(chr) == low(chr) && stdex::toupper(chr) == up(chr), "kind", "%x (%s) is %x in small and %x in capital letters", k, type, unit(stdex::tolower(chr)), unit(stdex::toupper(chr)));
		};
		kinds(static_cast<wchar_t>(k), "wchar_t");
		kinds(static_cast<char16_t>(k), "char16_t");
		if (k < 0x80) kinds(static_cast<char>(k), "char");
		// Line breaks
		auto l = text<char>(3, "\r\n\r\na");
		std::unique_ptr<char[]> lb(new char[l.size()]);
		std::copy(l.begin(), l.end(), lb.get());
		auto br = [](char c) { return c == '\r' || c == '\n'; };
		SAME("islbreak", stdex::islbreak(lb.get(), l.size()), l.empty() || !br(l[0]) ? 0 : l.size() > 1 && br(l[1]) && l[0] != l[1] ? 2 : 1);
	}

	// ---- copying --------------------------------------------------------------------------------
	template <class T> struct room { // Just as much as promised
		std::unique_ptr<T[]> p;
		size_t n;
		room(size_t _n) : p(new T[_n]), n(_n) { for (size_t i = 0; i < n; ++i) p[i] = static_cast<T>('?'); }
		void verify(const char* what, size_t got, const std::basic_string<T>& want, bool terminated)
		{
			SAME(what, got, want.size());
			SIM_CHECK(std::basic_string<T>(p.get(), want.size()) == want, "copy", "%s makes %s instead of %s", what, show(std::basic_string<T>(p.get(), want.size())).c_str(), show(want).c_str());
			if (terminated) SIM_CHECK(!p[want.size()], "copy", "%s: no terminator", what);
			for (size_t i = want.size() + terminated; i < n; ++i) SIM_CHECK(p[i] == static_cast<T>('?'), "beyond", "%s writes beyond the text", what);
		}
	};
	template <class T1, class T2> void copy()
	{
		auto s = text<T2>(20);
		std::basic_string<T1> want, before(size(10), static_cast<T1>('b'));
		for (auto& c : s) { if (!static_cast<T1>(c)) c = 1; want += static_cast<T1>(c); }
		ev("copy %s after %zu", show(s).c_str(), before.size());
		zblock<T2> z(s);
		block<T2> b(s);
		auto put = [&](room<T1>& r) { std::copy(before.begin(), before.end(), r.p.get()); if (before.size() < r.n) r.p[before.size()] = 0; };
		{ room<T1> r(s.size() + 1); size_t n = stdex::strcpy(r.p.get(), static_cast<const T2*>(z)); r.verify("strcpy", n, want, true); }
		{ room<T1> r(before.size() + s.size() + 1); put(r); size_t n = stdex::strcat(r.p.get(), static_cast<const T2*>(z)); r.verify("strcat", n, before + want, true); }
		{
			// One limit: that many units at most are read and written
			size_t m = choose(s.size() + 3);
			room<T1> r(m);
			size_t n = stdex::strncpy<T1, T2>(r.p.get(), static_cast<const T2*>(z), m);
			r.verify("strncpy (one limit)", n, want.substr(0, m), m > s.size());
			size_t l = std::min(s.size(), m);
			std::unique_ptr<T2[]> exact(new T2[m <= s.size() ? m : s.size() + 1]);
			std::copy(s.begin(), s.begin() + l, exact.get());
			if (m > s.size()) exact[l] = 0;
			room<T1> c(before.size() + l + 1);
			put(c);
			n = stdex::strncat<T1, T2>(c.p.get(), exact.get(), m);
			c.verify("strncat (one limit)", n, before + want.substr(0, m), true);
		}
		{
			size_t m = choose(s.size() + 3);
			room<T1> r(m);
			size_t n = stdex::strncpy(r.p.get(), m, b.p, b.limit);
			r.verify("strncpy", n, want.substr(0, m), m > s.size());
			m = before.size() + choose(s.size() + 3);
			room<T1> c(m);
			put(c);
			n = stdex::strncat(c.p.get(), m, b.p, b.limit);
			c.verify("strncat", n, (before + want).substr(0, m), m > before.size() + s.size());
		}
		{
			T2 from[8];
			fill(from, s);
			T1 to[6] = { '?', '?', '?', '?', '?', '?' };
			size_t n = stdex::strncpy(to, from), l = std::min<size_t>(6, s.size());
			SAME("strncpy (arrays)", n, l);
			SIM_CHECK(std::basic_string<T1>(to, l) == want.substr(0, l) && (l == 6 || !to[l]), "copy", "strncpy of an array");
		}
	}
	template <class T> void duplicate()
	{
		auto s = text<T>(20);
		zblock<T> z(s);
		block<T> b(s);
		T arr[8];
		fill(arr, s);
		ev("duplicate %s", show(s).c_str());
		auto verify = [&](const char* what, std::unique_ptr<T[]> p, const std::basic_string<T>& want) {
			SIM_CHECK(p && std::basic_string<T>(p.get(), want.size() + 1) == want + T(0), "copy", "%s: not %s and a terminator", what, show(want).c_str());
			count_op(what);
		};
		heap_track track;
		uint64_t held = heap_live();
		try {
			alloc_faults faults(choose(3) == 1, 2);
			verify("strdup", std::unique_ptr<T[]>(stdex::strdup<T>(z)), s);
			verify("strndup", std::unique_ptr<T[]>(stdex::strndup<T>(b.p, b.limit)), s);
			verify("strndup (array)", std::unique_ptr<T[]>(stdex::strndup(arr)), s.substr(0, 8));
		}
		catch (const std::bad_alloc&) {}
		SIM_CHECK(!stdex::strdup<T>(nullptr), "copy", "a copy of no text");
	}

	// ---- changing in place ------------------------------------------------------------------------
	template <class T> void change()
	{
		auto s = choose(2) ? text<T>(20, " \t\n\rab") : text<T>(20);
		bool local = sizeof(T) != 2 && choose(2);
		if (local) for (auto& c : s) if (unit(c) > 0x7f) c = 'x';
		ev("change %s", show(s).c_str());
		unsigned what = choose(5);
		auto want = s;
		switch (what) {
		case 0: for (auto& c : want) c = low(c); break;
		case 1: for (auto& c : want) c = up(c); break;
		default:
			if (what != 3) { size_t i = 0; while (i < want.size() && blank(want[i])) ++i; want.erase(0, i); }
			if (what != 2) while (!want.empty() && blank(want.back())) want.pop_back();
		}
		static const char* const names[] = { "strlwr", "strupr", "ltrim", "rtrim", "trim" };
		auto str = s;
		block<T> b(s);
		T* p = const_cast<T*>(b.p);
		size_t n = want.size();
		if constexpr (sizeof(T) != 2) {
			if (local) switch (what) {
			case 0: stdex::strlwr(str, classic()); stdex::strlwr(p, b.limit, classic()); break;
			case 1: stdex::strupr(str, classic()); stdex::strupr(p, b.limit, classic()); break;
			case 2: stdex::ltrim(str, classic()); n = stdex::ltrim(p, b.limit, classic()); break;
			case 3: stdex::rtrim(str, classic()); n = stdex::rtrim(p, b.limit, classic()); break;
			case 4: stdex::trim(str, classic()); n = stdex::trim(p, b.limit, classic()); break;
			}
		}
		if (!local) switch (what) {
		case 0: stdex::strlwr(str); stdex::strlwr(p, b.limit); break;
		case 1: stdex::strupr(str); stdex::strupr(p, b.limit); break;
		case 2: stdex::ltrim(str); n = stdex::ltrim(p, b.limit); break;
		case 3: stdex::rtrim(str); n = stdex::rtrim(p, b.limit); break;
		case 4: stdex::trim(str); n = stdex::trim(p, b.limit); break;
		}
		SIM_CHECK(str == want, "change", "%s makes %s of %s", names[what], show(str).c_str(), show(s).c_str());
		SIM_CHECK(n == want.size(), "change", "%s returns %zu instead of %zu", names[what], n, want.size());
		SIM_CHECK(!n || std::basic_string<T>(p, n) == want, "change", "%s makes %s of %s in a buffer", names[what], show(std::basic_string<T>(p, n)).c_str(), show(s).c_str());
		SIM_CHECK(n >= b.limit || !p || (s.empty() && b.limit == 0) || !p[n], "change", "%s: no terminator", names[what]);
		count_op(names[what]);
		if (what < 2) {
			T arr[8];
			fill(arr, s);
			if constexpr (sizeof(T) != 2) { if (local) { if (what) stdex::strupr(arr, classic()); else stdex::strlwr(arr, classic()); } }
			if (!local) { if (what) stdex::strupr(arr); else stdex::strlwr(arr); }
			for (size_t i = 0; i < 8; ++i) SIM_CHECK(arr[i] == (i < want.size() ? want[i] : T(0)), "change", "%s of an array", names[what]);
		}
		// Line ends
		auto l = text<T>(20, "\r\n\r\nab");
		std::basic_string<T> nl;
		for (size_t i = 0; i < l.size(); ++i) if (l[i] != '\r' || i + 1 >= l.size() || l[i + 1] != '\n') nl += l[i];
		zblock<T> z(l);
		std::unique_ptr<T[]> d(new T[l.size() + 1]);
		SAME("crlf2nl", stdex::crlf2nl(d.get(), static_cast<const T*>(z)), nl.size());
		SIM_CHECK(std::basic_string<T>(d.get(), nl.size() + 1) == nl + T(0), "crlf2nl", "%s of %s", show(std::basic_string<T>(d.get(), nl.size())).c_str(), show(l).c_str());
		auto copied = text<T>(5), in_place = l;
		stdex::crlf2nl(copied, static_cast<const T*>(z));
		stdex::crlf2nl(in_place);
		SIM_CHECK(copied == nl && in_place == nl, "crlf2nl", "%s and %s of %s", show(copied).c_str(), show(in_place).c_str(), show(l).c_str());
		size_t same = stdex::crlf2nl(z.p.get(), static_cast<const T*>(z.p.get())); // onto itself
		SIM_CHECK(same == nl.size() && std::basic_string<T>(z.p.get(), same + 1) == nl + T(0), "crlf2nl", "onto itself");
	}

	// ---- numbers --------------------------------------------------------------------------------
	template <class T, class B> void number_of(const std::basic_string<T>& s, int radix, size_t want_end, unsigned __int128 digits, bool negative, B got, size_t end, const char* what)
	{
		SIM_CHECK(end == want_end || want_end == SIZE_MAX, "number", "%s in radix %d: %s ends at %zu instead of %zu", show(s).c_str(), radix, what, end, want_end);
		const bool is_signed = static_cast<B>(-1) < 0;
		const unsigned __int128 umax = sizeof(B) == 8 ? UINT64_MAX : (uint64_t(1) << (sizeof(B) * 8)) - 1, max = is_signed ? umax >> 1 : umax;
		if (negative && !is_signed) return; // Whatever a negative unsigned number is
		if (digits > max + (negative ? 1 : 0) && digits <= umax && !negative) return; // Whether bits are meant is not told
		B want = digits > max + (negative ? 1 : 0) ? negative ? static_cast<B>(max + 1) : static_cast<B>(max) : negative ? static_cast<B>(-digits) : static_cast<B>(digits);
		SIM_CHECK(got == want, "number", "%s in radix %d is %lld in %s", show(s).c_str(), radix, static_cast<long long>(got), what);
		count_op(what);
	}
	template <class T> void numbers()
	{
		std::basic_string<T> s;
		while (!choose(3)) s += static_cast<T>(" \t\n\v\f\r"[choose(6)]);
		bool negative = false;
		switch (choose(4)) { case 1: s += '+'; break; case 2: s += '-'; negative = true; break; }
		static const int radixes[] = { 10, 16, 8, 2, 36, 0, 0, 7 };
		int radix = radixes[choose(8)], base = radix ? radix : 10;
		if (!radix && choose(2)) { s += '0'; base = 8; if (choose(2)) { s += choose(2) ? 'x' : 'X'; base = 16; } }
		else if (radix == 16 && choose(2)) { s += '0'; s += choose(2) ? 'x' : 'X'; }
		unsigned __int128 v = 0, edge;
		if (choose(2)) {
			// About where the types end
			static const unsigned bits[] = { 7, 8, 15, 16, 31, 32, 63, 64 };
			edge = (static_cast<unsigned __int128>(1) << bits[choose(8)]) + choose(5) - 2;
		}
		else { edge = choose(UINT32_MAX) >> choose(32); if (!choose(3)) edge = edge << 40 | choose(UINT32_MAX); }
		std::string digits;
		for (auto e = edge; e || digits.empty(); e /= base) digits += "0123456789abcdefghijklmnopqrstuvwxyz"[static_cast<unsigned>(e % base)];
		for (unsigned n = choose(4) ? 0 : choose(5); n--;) digits += '0';
		if (!radix && base == 10) while (digits.size() > 1 && digits.back() == '0') digits.pop_back();
		if (!radix && base == 10 && digits == "0") digits = "7", edge = 7;
		for (size_t i = digits.size(); i--;) s += static_cast<T>(choose(2) ? up(digits[i]) : digits[i]);
		v = edge;
		size_t want_end = s.size();
		if (choose(2)) {
			static const char after[] = " -+.:/@[`{zZ";
			char c = after[choose(12)];
			if (base == 36 && (c == 'z' || c == 'Z')) c = '.';
			s += static_cast<T>(c);
			s += '1';
		}
		else if (choose(2)) { s += static_cast<T>(base > 10 ? 'a' + base - 10 : '0' + base); if (base == 36) s.back() = '{'; if (base == 10) s.back() = ':'; }
		bool none = !choose(8); // No number at all
		if (none) { s.erase(); if (choose(2)) s += ' '; if (choose(2)) s += choose(2) ? '-' : '+'; negative = !s.empty() && s.back() == '-'; want_end = s.size(); v = 0; if ((radix == 16 || !radix) && choose(2)) { s += '0'; if (choose(2)) { s += 'x'; want_end = SIZE_MAX; } else want_end = s.size(); } if (choose(2)) s += '?'; }
		ev("number %s %d", show(s).c_str(), radix);
		block<T> b(s);
		size_t end;
		{ auto r = stdex::strto8(b.p, b.limit, &end, radix); number_of<T>(s, radix, want_end, v, negative, r, end, "strto8"); }
		{ auto r = stdex::strto16(b.p, b.limit, &end, radix); number_of<T>(s, radix, want_end, v, negative, r, end, "strto16"); }
		{ auto r = stdex::strto32(b.p, b.limit, &end, radix); number_of<T>(s, radix, want_end, v, negative, r, end, "strto32"); }
		{ auto r = stdex::strto64(b.p, b.limit, &end, radix); number_of<T>(s, radix, want_end, v, negative, r, end, "strto64"); }
		{ auto r = stdex::strtoi(b.p, b.limit, &end, radix); number_of<T>(s, radix, want_end, v, negative, static_cast<int64_t>(r), end, "strtoi"); }
		{ auto r = stdex::strtou8(b.p, b.limit, &end, radix); number_of<T>(s, radix, want_end, v, negative, r, end, "strtou8"); }
		{ auto r = stdex::strtou16(b.p, b.limit, &end, radix); number_of<T>(s, radix, want_end, v, negative, r, end, "strtou16"); }
		{ auto r = stdex::strtou32(b.p, b.limit, &end, radix); number_of<T>(s, radix, want_end, v, negative, r, end, "strtou32"); }
		{ auto r = stdex::strtou64(b.p, b.limit, &end, radix); number_of<T>(s, radix, want_end, v, negative, r, end, "strtou64"); }
		{ auto r = stdex::strtoui(b.p, b.limit, &end, radix); number_of<T>(s, radix, want_end, v, negative, static_cast<uint64_t>(r), end, "strtoui"); }
		if (s.size() <= 24) {
			T arr[24];
			for (size_t i = 0; i < 24; ++i) arr[i] = i < s.size() ? s[i] : 0;
			number_of<T>(s, radix, want_end, v, negative, stdex::strto32(arr, &end, radix), end, "strto32 (array)");
			end = want_end;
			number_of<T>(s, radix, want_end, v, negative, stdex::strto64(arr, nullptr, radix), end, "strto64 (array)");
		}
	}
	template <class T> void reals()
	{
		stdex::locale_t c_locale = stdex::locale_C;
		char buf[64];
		double v = 0;
		switch (choose(4)) {
		case 0: v = choose(100000); break;
		case 1: v = choose(UINT32_MAX) / 1024.0; break;
		case 2: v = ldexp(1.0 + choose(1 << 20), static_cast<int>(choose(200)) - 100); break;
		case 3: v = -static_cast<double>(choose(1000)) / 3; break;
		}
		snprintf(buf, sizeof(buf), "%.17g", v);
		std::basic_string<T> s = wide<T>(buf);
		size_t want = s.size();
		if (choose(2)) s = wide<T>("  ") + s, want += 2;
		if (choose(2)) s += wide<T>(choose(2) ? " 1" : "x");
		bool none = !choose(8);
		if (none) s = wide<T>("?"), want = 0, v = 0;
		ev("real %s", show(s).c_str());
		block<T> b(s);
		heap_track track;
		uint64_t held = heap_live();
		double got = 0;
		size_t end = 0;
		try {
			alloc_faults faults(choose(3) == 1, 2);
			got = stdex::strtod(b.p, b.limit, &end, c_locale);
		}
		catch (const std::bad_alloc&) { got = v; end = want; }
		SIM_CHECK(got == v && end == want, "number", "%s is %g until %zu instead of %g until %zu", show(s).c_str(), got, end, v, want);
		SIM_CHECK(heap_live() == held, "leak", "strtod leaks");
		count_op("strtod");
	}

	// ---- identifiers ------------------------------------------------------------------------------
	template <class T> bool hexadecimal(T c) { return (c >= '0' && c <= '9') || (low(c) >= 'a' && low(c) <= 'f'); }
	template <class T> void uuids()
	{
		uuid_t id, back;
		for (auto& c : id) c = choose(4) ? choose(256) : choose(2) * 255;
		if (!choose(8)) memset(id + (choose(2) ? 0 : 4 + 2 * choose(4)), choose(2) * 255, choose(2) ? 4 : 6); // whole fields of limits
		memset(back, 0x5a, sizeof(back));
		std::unique_ptr<T[]> str(new T[stdex::uuid_str_max]);
		stdex::uuidtostr(str.get(), id);
		char want[stdex::uuid_str_max];
		uint32_t d1; uint16_t d2, d3;
		memcpy(&d1, id, 4); memcpy(&d2, id + 4, 2); memcpy(&d3, id + 6, 2);
		snprintf(want, sizeof(want), "{%08X-%04X-%04X-%02X%02X-%02X%02X%02X%02X%02X%02X}", d1, d2, d3, id[8], id[9], id[10], id[11], id[12], id[13], id[14], id[15]);
		auto s = wide<T>(want);
		SIM_CHECK(std::basic_string<T>(str.get(), s.size() + 1) == s + T(0), "uuid", "%s is written as %s", want, show(std::basic_string<T>(str.get(), s.size() + 1)).c_str());
		for (auto& c : s) if (!choose(3)) c = low(c);
		bool valid = true;
		auto spaces = [&] { std::basic_string<T> r; while (!choose(3)) r += " \t\n"[choose(3)]; return r; };
		if (choose(2)) {
			std::basic_string<T> spaced = spaces();
			for (auto c : s) { if (c == '-' || c == '}') spaced += spaces(); spaced += c; if (c == '-' || c == '{' || c == '}') spaced += spaces(); }
			s = spaced;
		}
		auto whole = s;
		switch (choose(6)) {
		case 0: s.resize(choose(s.size())); valid = s.find('}') != s.npos; break;
		case 1: { size_t i = choose(s.size()); if (s[i] == '-' || s[i] == '{' || s[i] == '}') { s[i] = "g_}{.,"[choose(6)]; valid = s == whole; } break; }
		case 2: { size_t i = s.find("0123"[choose(3)]); if (choose(2) && i != s.npos) { s[i] = 'g'; valid = false; } break; }
		case 3: if (choose(2)) { s += "}x-0"[choose(4)]; valid = false; } break;
		case 4: { // A number too long for its place
			size_t i = choose(2) ? s.find('-') : s.find('}');
			while (i && blank(s[i - 1])) --i;
			size_t first = i;
			while (first && hexadecimal(s[first - 1])) --first;
			if (s[first] != '0') { s.insert(i, 1, 'F'); valid = false; }
			break;
		}
		}
		ev("uuid %s %d", show(s).c_str(), valid);
		block<T> b(s);
		bool r = stdex::strtouuid(b.p, b.limit, back);
		SIM_CHECK(r == valid, "uuid", "%s is %s", show(s).c_str(), r ? "accepted" : "refused");
		if (r) SIM_CHECK(!memcmp(id, back, sizeof(id)), "uuid", "%s is read wrong", show(s).c_str());
		count_op(valid ? "UUIDs" : "broken UUIDs");
	}
	void languages()
	{
		uint16_t lang = choose(2) ? choose(0xa0) | (1 + choose(32)) << 10 : choose(0xa0);
		const char* name = stdex::rfc1766_from_langid(lang, "?");
		if (!strcmp(name, "?")) {
			SIM_CHECK(!stdex::rfc1766_from_langid(lang), "language", "no fallback");
			return;
		}
		std::string s = name;
		for (auto& c : s) if (!choose(3)) c = c == '-' ? '_' : choose(2) ? up(c) : low(c);
		ev("language %x %s", lang, s.c_str());
		zblock<char> z(s);
		auto back = stdex::langid_from_rfc1766(z);
		SIM_CHECK(back != stdex::langid_unknown, "language", "%s is unknown", s.c_str());
		const char* again = stdex::rfc1766_from_langid(back, "?");
		SIM_CHECK(!strcmp(again, name), "language", "%s (%x) is %s (%x)", s.c_str(), lang, again, back);
		SIM_CHECK(stdex::primary_langid(lang) == (lang & 0x3ff) && stdex::sub_langid(lang) == (lang & ~0x3ff), "language", "%x is split wrong", lang);
		// Neither a longer nor a shorter name is it
		std::string other = choose(2) ? s + "7" : "7" + s;
		zblock<char> y(other);
		SIM_CHECK(stdex::langid_from_rfc1766(y) == stdex::langid_unknown, "language", "%s is %x", other.c_str(), stdex::langid_from_rfc1766(y));
		count_op("languages");
	}

	void search_any() { switch (choose(3)) { case 0: search<char>(); break; case 1: search<wchar_t>(); break; default: search<char16_t>(); } }
	void search_text_any() { switch (choose(4)) { case 0: search_text<char, char>(); break; case 1: search_text<wchar_t, char>(); break; case 2: search_text<char16_t, char>(); break; default: search_text<wchar_t, wchar_t>(); } }
	void compare_any() { switch (choose(4)) { case 0: compare<char, char>(); break; case 1: compare<wchar_t, char>(); break; case 2: compare<char, wchar_t>(); break; default: compare<wchar_t, wchar_t>(); } }
	void copy_any() { switch (choose(4)) { case 0: copy<char, char>(); break; case 1: copy<wchar_t, char>(); break; case 2: copy<char, wchar_t>(); break; default: copy<wchar_t, wchar_t>(); } }
	void duplicate_any() { if (choose(2)) duplicate<char>(); else duplicate<wchar_t>(); }
	void change_any() { switch (choose(3)) { case 0: change<char>(); break; case 1: change<wchar_t>(); break; default: change<char16_t>(); } }
	void numbers_any() { switch (choose(3)) { case 0: numbers<char>(); break; case 1: numbers<wchar_t>(); break; default: numbers<char16_t>(); } }
	void reals_any() { if (choose(2)) reals<char>(); else reals<wchar_t>(); }
	void uuids_any() { if (choose(2)) uuids<char>(); else uuids<wchar_t>(); }
}
SIM_SCENARIOS("C44",
	{ "search", 3, search_any },
	{ "search_text", 3, search_text_any },
	{ "compare", 3, compare_any },
	{ "unicode", 2, unicode },
	{ "copy", 3, copy_any },
	{ "duplicate", 1, duplicate_any },
	{ "change", 3, change_any },
	{ "numbers", 4, numbers_any },
	{ "reals", 1, reals_any },
	{ "uuids", 2, uuids_any },
	{ "languages", 1, languages })
