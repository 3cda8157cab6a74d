// SIM: plain
// C33: dates and timestamps are those of the system clock, in every form.
#include <stdint.h>
#include <string>
#include <stdex/string.hpp>
#include <stdex/chrono.hpp>
#include "sim.h"
#include <errno.h>
#include <string.h>
#include <time.h>
#include <string>
#include <vector>
using namespace sim;
using stdex::chrono::aosn_date;
using stdex::chrono::aosn_timestamp;
namespace sim { void wall_set(int64_t sec, int64_t nsec); void wall(int64_t& sec, int64_t& nsec); }

namespace
{
	const int64_t year_1 = -62135596800, year_10000 = 253402300800; // seconds since 1970-01-01
	int64_t pick_sec()
	{
		switch (choose(5)) {
		case 0: return 1700000000 + choose(100000000);
		case 1: { // around the beginning of a year or of March
			struct tm t = {};
			t.tm_year = 1 - 1900 + (int)choose(9998);
			if (choose(3)) t.tm_year = (int[]){ 70, 0, 100, 200, -300, 104, 138, 300, 1, -1, 2000 - 1900 + 400 }[choose(11)];
			t.tm_mon = choose(2) ? 2 : 0;
			t.tm_mday = 1;
			int64_t s = timegm(&t) + (int64_t)choose(3) - 1;
			return s < year_1 ? year_1 : s;
		}
		case 2: return (int64_t[]){ 0, -1, 1, 0x7fffffff, 0x80000000ll, -0x80000000ll, 0xffffffff, 0x100000000ll, year_1, year_10000 - 1, 86399, 86400, -86400 }[choose(13)];
		case 3: return (int64_t)choose(4000000) * 1000 - 2000000000 + choose(1000);
		default: return year_1 + (int64_t)(mix(choose(0x7fffffff)) % (uint64_t)(year_10000 - year_1));
		}
	}
	int64_t pick_nsec() { return choose(3) ? choose(1000000000) : (int64_t[]){ 0, 999999999, 999999, 1000000, 500000000, 1 }[choose(6)]; }
	// The count of milliseconds since the beginning of the Julian period: the definition of the type
	const int64_t epoch = 210866803200ll;
	int64_t ms(int64_t sec, int64_t nsec) { return (sec + epoch) * 1000 + nsec / 1000000; }

	std::string ref(const char* format, const struct tm& t)
	{
		static char b[1 << 16];
		size_t n = strftime_l(b, sizeof(b), format, &t, stdex::locale_C);
		return std::string(b, n);
	}
	void check_calendar(aosn_timestamp::time_point tp, int64_t sec, unsigned millis)
	{
		struct tm want;
		time_t s = (time_t)sec;
		gmtime_r(&s, &want);
		uint8_t day, month, hour, minute, second;
		uint16_t milli;
		int32_t year;
		aosn_timestamp::to_dmy(tp, &day, &month, &year, &hour, &minute, &second, &milli);
		SIM_CHECK(day == want.tm_mday && month == want.tm_mon + 1 && year == want.tm_year + 1900, "calendar", "second %lld is %d-%d-%d, not %d-%d-%d", (long long)sec, want.tm_year + 1900, want.tm_mon + 1, want.tm_mday, year, month, day);
		SIM_CHECK(hour == want.tm_hour && minute == want.tm_min && second == want.tm_sec && milli == millis, "calendar", "second %lld is %d:%d:%d.%u, not %d:%d:%d.%u", (long long)sec, want.tm_hour, want.tm_min, want.tm_sec, millis, hour, minute, second, milli);
		SIM_CHECK(aosn_timestamp::from_dmy(day, month, year, hour, minute, second, milli) == tp, "calendar", "%d-%d-%d %d:%d:%d.%u is another moment than the one it was made of", year, month, day, hour, minute, second, milli);
		auto date = aosn_timestamp::to_date(tp);
		uint8_t d2, m2;
		int32_t y2;
		aosn_date::to_dmy(date, &d2, &m2, &y2);
		SIM_CHECK(d2 == day && m2 == month && y2 == year, "calendar", "the date of %d-%d-%d is %d-%d-%d", year, month, day, y2, m2, d2);
		SIM_CHECK(aosn_date::from_dmy(day, month, year) == date, "calendar", "the date of %d-%d-%d is another day", year, month, day);
		SIM_CHECK(aosn_date::from_time_t(s) == date, "date", "second %lld is on another day", (long long)sec);
		SIM_CHECK(aosn_date::day_of_week(date) == (want.tm_wday + 6) % 7 && aosn_date::day_of_week(day, month, year) == (want.tm_wday + 6) % 7, "calendar", "%d-%d-%d is day %d of the week", year, month, day, aosn_date::day_of_week(date));
		SIM_CHECK(aosn_date::to_time_t(date) == s - ((s % 86400) + 86400) % 86400, "date", "the day of second %lld begins at %lld", (long long)sec, (long long)aosn_date::to_time_t(date));
		auto midnight = aosn_timestamp::from_date(date);
		SIM_CHECK(midnight <= tp && tp - midnight < aosn_timestamp::duration(aosn_timestamp::one_day), "date", "the day of second %lld begins %lld ms before it", (long long)sec, (long long)(tp - midnight).count());
		struct tm got;
		memset(&got, 0x5a, sizeof(got));
		aosn_timestamp::to_system(tp, got);
		SIM_CHECK(got.tm_sec == want.tm_sec && got.tm_min == want.tm_min && got.tm_hour == want.tm_hour && got.tm_mday == want.tm_mday && got.tm_mon == want.tm_mon && got.tm_year == want.tm_year
			&& got.tm_wday == want.tm_wday && got.tm_isdst == 0, "system", "second %lld is converted to another time", (long long)sec);
		SIM_CHECK(got.tm_yday == want.tm_yday, "system", "%d-%d-%d is day %d of the year, not %d", year, month, day, want.tm_yday, got.tm_yday);
	}
	void check_text(aosn_timestamp::time_point tp, int64_t sec)
	{
		static const char* const f[] = { "%Y-%m-%dT%H:%M:%SZ", "%a, %d %b %Y", "%j", "%U/%W/%u/%w", "%G-W%V-%u", "%c", "%D %T %p", "%%", "%y%C%e", "%Z", "" };
		struct tm want;
		time_t s = (time_t)sec;
		gmtime_r(&s, &want);
		std::string format;
		switch (choose(4)) {
		case 0: format = f[choose(11)]; break;
		case 1: for (uint32_t n = choose(5); n; --n) { format += f[choose(11)]; format += ' '; } break;
		case 2: { uint32_t n = (uint32_t[]){ 255, 256, 512, 1023, 1024, 2048, 4096, 20 }[choose(8)] - choose(4) + choose(4); format = std::string(n, 'x'); if (choose(2)) format.replace(format.size() / 2, 2, "%S"); break; }
		default: { uint32_t n = choose(600); for (uint32_t i = 0; i < n; ++i) format += (i + n) % 3 ? "%A" : ","; }
		}
		std::string text = ref(format.c_str(), want), got;
		std::wstring wtext(text.begin(), text.end()), wformat(format.begin(), format.end()), wgot;
		bool wide = choose(2), thrown = false;
		unsigned way = choose(4); // which function
		const std::string before(choose(2) ? choose(40) : 0, '#');
		const std::wstring wbefore(before.begin(), before.end());
		if (way) { got = before; wgot = wbefore; }
		uint64_t live, fired;
		{
			heap_track ht;
			alloc_faults a(choose(3) ? 0 : 300, 1000);
			live = heap_live();
			set_step_limit(2000000);
			try {
				if (way == 1) {
					if (wide) stdex::strcatftime(wgot, wformat.c_str(), &want, stdex::locale_C);
					else stdex::strcatftime(got, format.c_str(), &want, stdex::locale_C);
				}
				else if (way == 2) {
					if (wide) stdex::strftime(wgot, wformat.c_str(), &want, stdex::locale_C);
					else stdex::strftime(got, format.c_str(), &want, stdex::locale_C);
				}
				else if (way == 3) {
					if (wide) wgot = stdex::strftime(wformat.c_str(), &want, stdex::locale_C);
					else got = stdex::strftime(format.c_str(), &want, stdex::locale_C);
				}
				else if (wide) wgot = aosn_timestamp::to_str(tp, wformat.c_str(), stdex::locale_C);
				else got = aosn_timestamp::to_str(tp, format.c_str(), stdex::locale_C);
			}
			catch (const std::bad_alloc&) { thrown = true; }
			catch (const std::exception& e) { violation("text", "formatting %zu characters throws: %s", text.size(), e.what()); }
			fired = a.fired();
		}
		if (thrown) {
			SIM_CHECK(fired, "text", "formatting %zu characters throws without a reason", text.size());
			if (way == 1) SIM_CHECK(wide ? wgot == wbefore : got == before, "text", "a failed formatting of %zu characters leaves other text behind", text.size());
			else if (way != 2) SIM_CHECK(heap_live() == live, "leak", "a failed formatting of %zu characters leaves %d blocks", text.size(), (int)(heap_live() - live));
		}
		else if (way == 1) SIM_CHECK(wide ? wgot == wbefore + wtext : got == before + text, "text", "%zu characters are appended as other %zu", text.size(), (wide ? wgot.size() : got.size()) - before.size());
		else if (wide) SIM_CHECK(wgot == wtext, "text", "%zu characters are formatted as other %zu", wtext.size(), wgot.size());
		else SIM_CHECK(got == text, "text", "'%.60s' is formatted instead of '%.60s'", got.c_str(), text.c_str());
		ev("%zu characters%s", text.size(), thrown ? ", no memory" : "");
		if (!choose(4)) {
			std::string r = aosn_timestamp::to_rfc822(tp), w = ref("%a, %d %b %Y %H:%M:%S GMT", want);
			SIM_CHECK(r == w, "text", "'%s' instead of '%s'", r.c_str(), w.c_str());
		}
	}
	// The clock is read, runs on and is set by others
	void s_clock()
	{
		for (unsigned n = 1 + choose(8); n; --n) {
			if (choose(2)) wall_set(pick_sec(), pick_nsec());
			if (!choose(3)) advance((uint64_t)choose(3000) * 1000000 + choose(1000000));
			int64_t sec, nsec;
			wall(sec, nsec);
			if (sec < year_1 || sec >= year_10000) continue;
			auto tp = aosn_timestamp::now();
			int64_t c = tp.time_since_epoch().count(), now = ms(sec, nsec);
			SIM_CHECK(c <= now && c > now - 1000, "now", "the clock shows second %lld, now() is %lld ms from it", (long long)sec, (long long)(c - now));
			auto d = aosn_date::now();
			SIM_CHECK(d.time_since_epoch().count() == (sec + epoch) / 86400, "now", "the clock shows second %lld, now() is another day", (long long)sec);
			SIM_CHECK(aosn_timestamp::to_time_t(tp) == sec, "now", "the clock shows second %lld, now() is %lld", (long long)sec, (long long)aosn_timestamp::to_time_t(tp));
			check_calendar(tp, sec, (unsigned)(c % 1000));
			if (choose(2)) check_text(tp, sec);
			ev("%lld", (long long)sec);
			state((uint64_t)sec);
		}
	}
	void s_convert()
	{
		int64_t last = 0;
		aosn_timestamp::time_point last_tp;
		for (unsigned n = 1 + choose(6); n; --n) {
			struct timespec ts;
			ts.tv_sec = pick_sec();
			ts.tv_nsec = pick_nsec();
			auto tp = aosn_timestamp::from_system(ts);
			int64_t want = ms(ts.tv_sec, ts.tv_nsec);
			SIM_CHECK(tp.time_since_epoch().count() == want, "system", "%lld.%09ld is converted to a moment %lld ms from it", (long long)ts.tv_sec, ts.tv_nsec, (long long)(tp.time_since_epoch().count() - want));
			SIM_CHECK(aosn_timestamp::to_time_t(tp) == ts.tv_sec, "system", "second %lld is converted and back to %lld", (long long)ts.tv_sec, (long long)aosn_timestamp::to_time_t(tp));
			SIM_CHECK(aosn_timestamp::from_time_t(ts.tv_sec).time_since_epoch().count() == ms(ts.tv_sec, 0), "system", "second %lld is converted to another", (long long)ts.tv_sec);
			SIM_CHECK(aosn_date::from_system(ts) == aosn_timestamp::to_date(tp), "date", "second %lld is on another day", (long long)ts.tv_sec);
			if (last) SIM_CHECK((want < last) == (tp < last_tp) && (want == last) == (tp == last_tp), "order", "two moments change their order");
			last = want;
			last_tp = tp;
			check_calendar(tp, ts.tv_sec, (unsigned)(ts.tv_nsec / 1000000));
			if (choose(2)) check_text(tp, ts.tv_sec);
			state((uint64_t)want);
		}
	}
}
SIM_SCENARIOS("C33", { "clock", 2, s_clock }, { "convert", 2, s_convert })
