// SIM: plain
// C32: formatted text of any length is complete, whatever happened before; a failure leaves the text as it was.
#include <stdex/string.hpp>
#include <stdex/stream.hpp>
#include "peer.h"
#include "simk.h"
#include <errno.h>
#include <string.h>
#include <memory>
#include <string>
using namespace sim;
using namespace stdex;
using namespace stdex::stream;

namespace
{
	template <class T> std::basic_string<T> wide(const std::string& s) { return std::basic_string<T>(s.begin(), s.end()); }
	// Lengths around the sizes of the buffers involved
	uint32_t len()
	{
		static const uint32_t b[] = { 256, 512, 1024, 2048, 4096, 128, 8192 };
		switch (choose(4)) {
		case 0: return choose(30);
		case 1: { uint32_t n = b[choose(7)] + choose(7); return n - 3 - choose(3) * 8; }
		case 2: return choose(1500);
		default: return choose(3) ? choose(3000) : choose(70000);
		}
	}
	template <class T> std::basic_string<T> content(size_t n)
	{
		std::basic_string<T> s(n, (T)'a');
		uint32_t k = choose(1000);
		for (size_t i = 0; i < n; ++i) s[i] = (T)(' ' + (i * 7 + (i >> 6) + k) % 95);
		return s;
	}
	void litter_errno()
	{
		static const int e[] = { 0, EOVERFLOW, EINVAL, EILSEQ, ENOMEM, EINTR, ENOENT, E2BIG };
		errno = e[choose(8)];
	}
	struct args {
		unsigned kind;
		std::string a, b;
		long long n;
		uint32_t w;
		int c;
		std::string pct; // of the pieces in the expected text
		args() : kind(choose(9)), a(content<char>(len())), b(kind == 3 ? content<char>(len()) : std::string()), n(choose(2) ? -(long long)choose(2000000000) : (long long)choose(2000000000) * 3000000000ll), w(len()), c(choose(3) ? 0 : 1 + choose(127))
		{
			std::string d = std::to_string(n);
			auto pad = [](const std::string& s, size_t w, bool left, char c = ' ') { return s.size() >= w ? s : left ? s + std::string(w - s.size(), c) : std::string(w - s.size(), c) + s; };
			switch (kind) {
			case 0: pct = a; break;
			case 1: pct = a + d; break;
			case 2: pct = "<" + a + "%" + d + ">"; break;
			case 3: pct = a + "-" + b; break;
			case 4: pct = a.substr(0, w) + "|"; break;
			case 5: pct = pad(d, w, false); break;
			case 6: pct = "x" + pad(d, w, true) + "y"; break;
			case 7: pct = "fixed text, no argument"; break;
			case 8: pct = a + (char)c + d; break;
			}
		}
	};
#define CALL(T, L, fn, ...) \
	switch (x.kind) { \
	case 0: fn(__VA_ARGS__ L("%s"), loc, A.c_str()); break; \
	case 1: fn(__VA_ARGS__ L("%s%lld"), loc, A.c_str(), x.n); break; \
	case 2: fn(__VA_ARGS__ L("<%s%%%lld>"), loc, A.c_str(), x.n); break; \
	case 3: fn(__VA_ARGS__ L("%s-%s"), loc, A.c_str(), B.c_str()); break; \
	case 4: fn(__VA_ARGS__ L("%.*s|"), loc, (int)x.w, A.c_str()); break; \
	case 5: fn(__VA_ARGS__ L("%*lld"), loc, (int)x.w, x.n); break; \
	case 6: fn(__VA_ARGS__ L("x%-*lldy"), loc, (int)x.w, x.n); break; \
	case 7: fn(__VA_ARGS__ L("fixed text, no argument"), loc); break; \
	case 8: fn(__VA_ARGS__ L("%s%c%lld"), loc, A.c_str(), x.c, x.n); break; \
	}
#define COMMA ,
	template <class T> struct fmt;
	template <> struct fmt<char> { static const char* conv(const char* f) { return f; } };
	template <> struct fmt<wchar_t> {
		static const wchar_t* conv(const char* f) // %s -> %ls
		{
			static wchar_t buf[64];
			wchar_t* o = buf;
			for (const char* p = f; *p; ++p) { if (*p == 's' && p > f && (p[-1] == '%' || (p[-1] == '*' && p[-2] == '.'))) *o++ = L'l'; *o++ = (wchar_t)*p; }
			*o = 0;
			return buf;
		}
	};
	template <class T> void session()
	{
		const locale_t locs[] = { nullptr, locale_C.get(), locale_default.get() };
		std::basic_string<T> str, want;
		for (unsigned n = 1 + choose(4); n; --n) {
			args x;
			std::basic_string<T> A = wide<T>(x.a), B = wide<T>(x.b), P = wide<T>(x.pct);
			locale_t loc = locs[choose(3)];
			if (!choose(3)) { str = want = content<T>(choose(2) ? choose(40) : len()); }
			if (!choose(6)) str.shrink_to_fit();
			unsigned api = choose(4);
			bool thrown = false;
			size_t count = SIZE_MAX;
			std::basic_string<T> ret;
			uint64_t fired;
			{
				alloc_faults f(choose(3) ? 0 : 300, 1000);
				try {
					litter_errno();
#define L(t) fmt<T>::conv(t)
					switch (api) {
					case 0: case 1: CALL(T, L, count = appendf, str COMMA); break;
					case 2: CALL(T, L, stdex::sprintf, str COMMA); break;
					case 3: {
						#define TO_RET ret = stdex::sprintf
						switch (x.kind) {
						case 0: ret = stdex::sprintf<T, std::char_traits<T>, std::allocator<T>>(L("%s"), loc, A.c_str()); break;
						case 1: ret = stdex::sprintf<T, std::char_traits<T>, std::allocator<T>>(L("%s%lld"), loc, A.c_str(), x.n); break;
						case 2: ret = stdex::sprintf<T, std::char_traits<T>, std::allocator<T>>(L("<%s%%%lld>"), loc, A.c_str(), x.n); break;
						case 3: ret = stdex::sprintf<T, std::char_traits<T>, std::allocator<T>>(L("%s-%s"), loc, A.c_str(), B.c_str()); break;
						case 4: ret = stdex::sprintf<T, std::char_traits<T>, std::allocator<T>>(L("%.*s|"), loc, (int)x.w, A.c_str()); break;
						case 5: ret = stdex::sprintf<T, std::char_traits<T>, std::allocator<T>>(L("%*lld"), loc, (int)x.w, x.n); break;
						case 6: ret = stdex::sprintf<T, std::char_traits<T>, std::allocator<T>>(L("x%-*lldy"), loc, (int)x.w, x.n); break;
						case 8: ret = stdex::sprintf<T, std::char_traits<T>, std::allocator<T>>(L("%s%c%lld"), loc, A.c_str(), x.c, x.n); break;
						default: ret = stdex::sprintf<T, std::char_traits<T>, std::allocator<T>>(L("fixed text, no argument"), loc); break;
						}
						break;
					}
					}
				}
				catch (const std::bad_alloc&) { thrown = true; }
				catch (const std::exception& e) { violation("refused", "formatting %zu characters is refused: %s", P.size(), e.what()); }
				fired = f.fired();
			}
			if (thrown) {
				SIM_CHECK(fired, "refused", "formatting %zu characters throws without a reason", P.size());
				if (api < 2) SIM_CHECK(str == want, "torn", "a failed append of %zu characters changes the text of %zu (now %zu)", P.size(), want.size(), str.size());
				if (api == 2) { SIM_CHECK(str.empty() || str == want, "torn", "a failed formatting leaves %zu characters", str.size()); want = str; }
				ev("no memory for %zu", P.size());
				continue;
			}
			switch (api) {
			case 0: case 1:
				want += P;
				SIM_CHECK(count == P.size(), "count", "appending %zu characters returns %zu", P.size(), count);
				SIM_CHECK(str == want, "text", "%zu formatted characters are not the text (%zu instead of %zu)", P.size(), str.size(), want.size());
				break;
			case 2:
				want = P;
				SIM_CHECK(str == want, "text", "%zu formatted characters are not the text (%zu)", P.size(), str.size());
				break;
			case 3:
				SIM_CHECK(ret == P, "text", "%zu formatted characters are not the text (%zu)", P.size(), ret.size());
				SIM_CHECK(str == want, "torn", "another string changes");
				break;
			}
			SIM_CHECK(str.c_str()[str.size()] == 0, "text", "no terminator");
			state(P.size() * 8 + api);
			ev("%u: %zu", api, P.size());
		}
	}
	void s_narrow() { session<char>(); }
	void s_wide() { session<wchar_t>(); }

	// Text that cannot be formatted is refused and leaves the text as it was; whatever comes next works
	void s_refused()
	{
		std::wstring str = content<wchar_t>(choose(40)), want = str;
		std::string pre = content<char>(choose(2) ? len() : 5);
		std::string bad = pre + "\xff" + content<char>(choose(10));
		bool ok = true;
		litter_errno();
		try { appendf(str, L"%s", locale_C, bad.c_str()); }
		catch (const std::bad_alloc&) { throw; }
		catch (const std::exception& e) { ok = false; ev("refused: %s", e.what()); }
		if (!ok) SIM_CHECK(str == want, "torn", "a refused text leaves %zu characters, there were %zu", str.size(), want.size());
		else SIM_CHECK(str.size() >= want.size() && str.substr(0, want.size()) == want, "torn", "the text before is gone");
		std::wstring again = content<wchar_t>(len());
		want = str;
		try { appendf(str, L"%ls", nullptr, again.c_str()); }
		catch (const std::exception& e) { violation("refused", "after a refused text %zu characters are refused: %s", again.size(), e.what()); }
		SIM_CHECK(str == want + again, "text", "after a refused text %zu formatted characters are not the text", again.size());
		state(again.size() * 4 + ok);
	}
	template <class T> void to_stream()
	{
		peer::sink u;
		u.o.preemptible = false;
		std::basic_string<T> want;
		if (!choose(3)) { u.o.fail_at = len(); u.o.late = choose(2); }
		if (!choose(4)) u.o.p_short = 1 + choose(600);
		stdex::stream::basic& s = u;
		for (unsigned n = 1 + choose(4); n; --n) {
			args x;
			std::basic_string<T> A = wide<T>(x.a), B = wide<T>(x.b), P = wide<T>(x.pct);
			locale_t loc = choose(2) ? nullptr : locale_C.get();
			size_t r = 0, old = u.got.size();
			unsigned writes = u.writes;
			uint64_t fired;
			{
				alloc_faults f(choose(4) ? 0 : 300, 1000);
				try {
					litter_errno();
					CALL(T, L, r = s.write_sprintf, );
				}
				catch (const std::bad_alloc&) { r = SIZE_MAX; }
				catch (const std::exception& e) { violation("refused", "formatting %zu characters is refused: %s", P.size(), e.what()); }
				fired = f.fired();
			}
			std::vector<uint8_t> got(u.got.begin() + old, u.got.end());
			if (r == SIZE_MAX) {
				SIM_CHECK(fired, "refused", "formatting %zu characters throws without a reason", P.size());
				// the sink's own allocation may have failed
				SIM_CHECK(got.size() <= P.size() * sizeof(T), "stream", "too much is written");
				break;
			}
			SIM_CHECK(got.size() <= P.size() * sizeof(T) && !memcmp(got.data(), P.data(), got.size()), "stream", "the stream got something else than the text");
			SIM_CHECK(r == got.size() / sizeof(T), "count", "%zu characters are reported as written, the stream got %zu bytes", r, got.size());
			SIM_CHECK(u.ok() == (got.size() == P.size() * sizeof(T) && !u.failed), "failure_hidden", "%zu of %zu bytes are written, the state is %s", got.size(), P.size() * sizeof(T), u.ok() ? "ok" : "not ok");
			(void)writes;
			state(P.size() * 8 + 5 + u.ok());
			ev("%zu of %zu", r, P.size());
			if (!u.ok()) break;
		}
	}
	void s_stream() { if (choose(2)) to_stream<char>(); else to_stream<wchar_t>(); }
}
SIM_SCENARIOS("C32", { "narrow", 3, s_narrow }, { "wide", 3, s_wide }, { "refused", 1, s_refused }, { "stream", 2, s_stream })
