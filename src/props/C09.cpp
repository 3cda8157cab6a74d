// SIM: threads
// C09: progress indicators that follow the clock.
#include <mutex>
#include <stdex/progress.hpp>
#include "sim.h"
#include <memory>
#include <vector>
using namespace sim;
namespace sim { void wall_jump(int64_t ns); }

namespace
{
	void pass_time(uint64_t unit)
	{
		switch (choose(7)) {
		case 0: break;
		case 1: advance(1 + choose(1000)); break;
		case 2: advance(unit ? unit - 1 : 0); break;
		case 3: advance(unit); break;
		case 4: advance(unit + 1); break;
		case 5: advance(unit / 3); break;
		default: advance(unit * 2 + choose(1000000));
		}
		if (choose(6) == 5) wall_jump(((int64_t)choose(4001) - 2000) * 1800000000000ll);
	}
	uint64_t draw_timeout()
	{
		static const uint64_t t[] = { 500000000ull, 0, 1, 1000, 1000000, 3600000000000ull };
		return t[choose(6)];
	}

	template <class T>
	struct lazy_t : stdex::lazy_progress<T> {
		std::vector<T> reported;
		lazy_t(std::chrono::nanoseconds t) : stdex::lazy_progress<T>(t) {}
		void do_set() override { reported.push_back(this->m_value); }
	};
	template <class T>
	void lazy()
	{
		advance(1000000000000000ull); // long after boot
		uint64_t timeout = draw_timeout();
		lazy_t<T> p{ std::chrono::nanoseconds(timeout) };
		T start = (T)choose(100), end = (T)(start + choose(50));
		p.set_range(start, end);
		ev("lazy timeout %llu range %lld..%lld", (unsigned long long)timeout, (long long)start, (long long)end);
		bool any = false;
		T last = 0;
		uint64_t t_last = 0;
		unsigned ops = 1 + choose(40);
		for (unsigned i = 0; i < ops; ++i) {
			pass_time(timeout);
			if (choose(10) == 9) { start = (T)choose(100); end = (T)(start + choose(50)); p.set_range(start, end); }
			T v = choose(4) ? (T)(start + choose((uint32_t)(end - start) + 1)) : choose(2) ? start : end;
			if (choose(6) == 5 && any) v = last;
			size_t n0 = p.reported.size();
			p.set(v);
			count_op("set");
			uint64_t t = now_ns();
			size_t n = p.reported.size() - n0;
			ev("%llu set %lld -> %zu", (unsigned long long)t, (long long)v, n);
			SIM_CHECK(n <= 1, "twice", "one position is reported %zu times", n);
			if (n) SIM_CHECK(p.reported.back() == v, "value", "position %lld is reported as %lld", (long long)v, (long long)p.reported.back());
			if (v == start || v == end) SIM_CHECK(n == 1, "end_missing", "the end %lld of the range is not reported", (long long)v);
			else if (any && v == last) SIM_CHECK(n == 0, "repeated", "position %lld is reported again", (long long)v);
			else if (any && t - t_last < timeout) SIM_CHECK(n == 0, "too_often", "a report %llu ns after the last one with an interval of %llu ns", (unsigned long long)(t - t_last), (unsigned long long)timeout);
			else SIM_CHECK(n == 1, "missing", "position %lld is not reported although the last report is %llu ns old and the interval %llu ns", (long long)v, any ? (unsigned long long)(t - t_last) : 0ull, (unsigned long long)timeout);
			if (n) { any = true; last = v; t_last = t; }
		}
		state(mix(p.reported.size()) + timeout + ops);
	}

	template <class T>
	struct rec_t : stdex::progress<T> {
		unsigned texts = 0, ranges = 0, sets = 0, shows = 0, cancels = 0;
		T start = 0, end = 0, value = 0; bool shown = false, cancelled = false; const char* text = nullptr;
		void set_text(const char* t) override { ++texts; text = t; }
		void set_range(T s, T e) override { ++ranges; start = s; end = e; }
		void set(T v) override { ++sets; value = v; }
		void show(bool s) override { ++shows; shown = s; }
		bool cancel() override { ++cancels; return cancelled; }
	};
	template <class T>
	void forwards(stdex::progress<T>& p, rec_t<T>* h, bool range)
	{
		static const char* txt = "text";
		unsigned t0 = h ? h->texts : 0, s0 = h ? h->shows : 0, r0 = h ? h->ranges : 0, v0 = h ? h->sets : 0;
		p.set_text(txt);
		bool sh = choose(2);
		p.show(sh);
		T a = (T)choose(100), b = (T)(a + choose(100));
		if (range) { p.set_range(a, b); p.set(b); }
		if (!h) return;
		SIM_CHECK(h->texts == t0 + 1 && h->text == txt, "forward", "set_text is not passed on");
		SIM_CHECK(h->shows == s0 + 1 && h->shown == sh, "forward", "show is not passed on");
		if (range) {
			SIM_CHECK(h->ranges == r0 + 1 && h->start == a && h->end == b, "forward", "set_range is not passed on");
			SIM_CHECK(h->sets == v0 + 1 && h->value == b, "forward", "set is not passed on");
		}
	}

	template <class T>
	void timeout_()
	{
		uint64_t timeout = draw_timeout();
		rec_t<T> host;
		bool has_host = choose(3);
		uint64_t t0 = now_ns();
		stdex::timeout_progress<T> p(std::chrono::nanoseconds(timeout), has_host ? &host : nullptr);
		ev("timeout %llu", (unsigned long long)timeout);
		unsigned ops = 1 + choose(20);
		for (unsigned i = 0; i < ops; ++i) {
			pass_time(timeout / 4 + 1);
			if (choose(3) == 2) { advance(0); uint64_t d = t0 + timeout; if (d > now_ns() + 2) advance(d - now_ns() - 1 + choose(3)); }
			if (choose(8) == 7) host.cancelled = !host.cancelled;
			uint64_t t = now_ns();
			bool c = p.cancel();
			count_op("cancel");
			ev("%llu cancel -> %d", (unsigned long long)t, c);
			bool hc = has_host && host.cancelled;
			if (hc) SIM_CHECK(c, "cancel", "the host's cancellation is not seen");
			else if (t > t0 + timeout) SIM_CHECK(c, "deadline", "not cancelled %llu ns after the deadline", (unsigned long long)(t - t0 - timeout));
			else if (t < t0 + timeout) SIM_CHECK(!c, "deadline", "cancelled %llu ns before the deadline", (unsigned long long)(t0 + timeout - t));
			if (choose(4) == 0) forwards<T>(p, has_host ? &host : nullptr, true);
		}
		state(mix(timeout) + ops);
	}

	template <class T>
	void global_()
	{
		rec_t<T> host, other;
		bool sw = choose(2);
		stdex::progress<T>* ref = &host;
		std::unique_ptr<stdex::global_progress<T>> g;
		rec_t<T>* h = &host;
		if (sw) {
			g = std::make_unique<stdex::progress_switcher<T>>(ref);
			SIM_CHECK(ref == g.get(), "switch", "the switcher does not take the host's place");
		}
		else {
			h = choose(2) ? &host : nullptr;
			g = std::make_unique<stdex::global_progress<T>>(h);
		}
		ev("global");
		bool sect = false, loc = false;
		T ls = 0, le = 0, ss = 0, se = 0;
		unsigned ops = 1 + choose(30);
		for (unsigned i = 0; i < ops; ++i) {
			switch (choose(8)) {
			case 0: {
				T a = (T)choose(1000), b = (T)(a + choose(30000));
				unsigned n = h ? h->ranges : 0;
				g->set_global_range(a, b);
				if (h) SIM_CHECK(h->ranges == n + 1 && h->start == a && h->end == b, "range", "the host is not given the global range");
				break;
			}
			case 1: ss = (T)choose(20000); se = (T)(ss + choose(20000)); g->set_section_range(ss, se); sect = true; break;
			case 2: {
				unsigned n = h ? h->ranges : 0;
				ls = (T)choose(40000); le = (T)(ls + choose(40000)); g->set_range(ls, le); loc = true;
				if (h) SIM_CHECK(h->ranges == n, "range", "the local range reaches the host");
				break;
			}
			case 3:
				if (!sw) {
					if (h) { auto k = g->detach(); SIM_CHECK(k == h, "detach", "detach() returns another host"); h = nullptr; }
					else { h = choose(2) ? &host : &other; g->attach(h); }
				}
				break;
			case 4: forwards<T>(*g, h, false); break;
			case 5: host.cancelled = choose(2); SIM_CHECK(g->cancel() == (h && h->cancelled), "cancel", "cancel is not the host's"); break;
			default: {
				if (!sect || !loc) break;
				T v = choose(3) ? (T)(ls + choose((uint32_t)(le - ls) + 1)) : choose(2) ? ls : le;
				unsigned n = h ? h->sets : 0, n2 = other.sets + host.sets;
				g->set(v);
				count_op("set");
				if (!h) { SIM_CHECK(other.sets + host.sets == n2, "detach", "a detached host is used"); break; }
				if (le == ls) { SIM_CHECK(h->sets == n, "empty", "a position in an empty range is reported"); break; }
				uint64_t want = (uint64_t)(v - ls) * (uint64_t)(se - ss) / (uint64_t)(le - ls) + (uint64_t)ss;
				SIM_CHECK(h->sets == n + 1, "missing", "the position is not reported");
				// Proportional; how the quotient is rounded is not specified
				uint64_t got = (uint64_t)h->value;
				SIM_CHECK(got + 1 >= want && got <= want + 1 && got >= (uint64_t)ss && got <= (uint64_t)se, "map", "position %lld of %lld..%lld is mapped to %llu in %lld..%lld", (long long)v, (long long)ls, (long long)le, (unsigned long long)got, (long long)ss, (long long)se);
				if (v == ls) SIM_CHECK(got == (uint64_t)ss, "map", "the start is not mapped to the start");
				if (v == le) SIM_CHECK(got == (uint64_t)se, "map", "the end is not mapped to the end");
			}
			}
		}
		if (sw) {
			g.reset();
			SIM_CHECK(ref == &host, "switch", "the switcher does not restore the host");
		}
		state(mix((uint64_t)ls) + mix((uint64_t)se) + ops);
	}
	void lazy_i() { lazy<int>(); }
	void lazy_z() { lazy<size_t>(); }
	void to_i() { timeout_<int>(); }
	void gl_i() { global_<int>(); }
	void gl_z() { global_<size_t>(); }
}
SIM_SCENARIOS("C09", { "lazy_int", 2, lazy_i }, { "lazy_size_t", 1, lazy_z }, { "timeout", 2, to_i }, { "global_int", 1, gl_i }, { "global_size_t", 1, gl_z })
