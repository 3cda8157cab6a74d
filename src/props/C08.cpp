// SIM: threads
// C08: combined progress of several workers.
#include <mutex>
#include <stdex/progress.hpp>
#include "sim.h"
#include <memory>
#include <thread>
#include <vector>
using namespace sim;

namespace
{
	// What one worker has reported: completed and perhaps in progress
	template <class T> struct rep { T done = 0, next = 0; bool busy = false; };
	template <class T> struct worker_t { rep<T> value, start, end; };
	template <class T> struct book {
		std::vector<worker_t<T>> w;
		bool cancelled = false;

		// Can v be the sum over the workers, each counted with its completed or its pending report?
		bool possible(T v, rep<T> worker_t<T>::* f)
		{
			unsigned n = (unsigned)w.size();
			for (unsigned m = 0; m < (1u << n); ++m) {
				T s = 0;
				bool ok = true;
				for (unsigned i = 0; i < n && ok; ++i) {
					auto& r = w[i].*f;
					if (m >> i & 1) { if (!r.busy) ok = false; s = (T)(s + r.next); }
					else s = (T)(s + r.done);
				}
				if (ok && s == v) return true;
			}
			return false;
		}
		T sum(rep<T> worker_t<T>::* f) { T s = 0; for (auto& x : w) s = (T)(s + (x.*f).done); return s; }
	};

	template <class T>
	struct host_t : stdex::progress<T> {
		book<T>& b;
		bool attached = true;
		bool have_value = false, have_range = false;
		T value = 0, start = 0, end = 0;
		unsigned texts = 0, shows = 0;
		std::unique_ptr<int> canary{ new int(42) };
		host_t(book<T>& _b) : b(_b) {}
		void alive(const char* what)
		{
			{ nopreempt np; SIM_CHECK(attached, "use_after_detach", "%s reaches a host that was detached", what); count_op("host_call"); }
			if (*canary != 42) violation("use_after_detach", "%s reaches a dead host", what);
		}
		void set_text(const char* t) override { alive("set_text"); yield_point(); { nopreempt np; SIM_CHECK(t && t[0] == 'x', "text", "text changed"); ++texts; } alive("set_text"); }
		void set_range(T s, T e) override
		{
			alive("set_range");
			{
				nopreempt np;
				evn(0x81, (uint64_t)s, (uint64_t)e);
				SIM_CHECK(b.possible(s, &worker_t<T>::start) && b.possible(e, &worker_t<T>::end), "sum", "the host is given the range %lld..%lld, which is no sum of the workers' ranges", (long long)s, (long long)e);
				start = s; end = e; have_range = true;
			}
			yield_point();
			alive("set_range");
		}
		void set(T v) override
		{
			alive("set");
			{
				nopreempt np;
				evn(0x80, (uint64_t)v);
				SIM_CHECK(b.possible(v, &worker_t<T>::value), "sum", "the host is given the progress %lld, which is no sum of the workers' reports", (long long)v);
				value = v; have_value = true;
			}
			yield_point();
			alive("set");
		}
		void show(bool) override { alive("show"); yield_point(); { nopreempt np; ++shows; } }
		bool cancel() override { alive("cancel"); yield_point(); nopreempt np; return b.cancelled; }
	};

	template <class T>
	void run()
	{
		set_schedule(0);
		unsigned n = 1 + choose(4), rounds = 1 + choose(8);
		book<T> b;
		b.w.resize(n);
		auto host = std::make_unique<host_t<T>>(b);
		bool start_attached = choose(2);
		ev("aggregate of %u workers, %u rounds", n, rounds);
		auto agg = std::make_unique<stdex::aggregate_progress<T>>(n, start_attached ? host.get() : nullptr);
		if (start_attached) SIM_CHECK(host->have_range && host->have_value, "attach", "the host is told nothing when it is attached");
		bool switching = choose(2), cancel_end = false;
		unsigned texts = 0, shows = 0;
		std::vector<std::thread> t;
		for (unsigned i = 0; i < n; ++i)
			t.emplace_back([&, i] {
				auto& p = (*agg)[i];
				auto& w = b.w[i];
				T base = (T)choose(50), len = (T)choose(200);
				for (unsigned r = 0; r < rounds; ++r) {
					uint32_t c = r ? choose(8) : choose(3);
					if (c < 2) {
						if (r) { base = (T)choose(50); len = (T)choose(200); }
						{ nopreempt np; w.start.next = base; w.end.next = (T)(base + len); w.start.busy = w.end.busy = true; count_op("set_range"); }
						p.set_range(base, (T)(base + len));
						{ nopreempt np; w.start = { base, 0, false }; w.end = { (T)(base + len), 0, false }; }
					}
					else if (c < 6) {
						T v = (T)(base + choose((uint32_t)len + 1));
						{ nopreempt np; w.value.next = v; w.value.busy = true; count_op("set"); }
						p.set(v);
						{ nopreempt np; w.value = { v, 0, false }; }
					}
					else if (c == 6) {
						bool before; { nopreempt np; before = b.cancelled; }
						bool x = p.cancel();
						nopreempt np;
						if (!switching && start_attached) {
							if (before) SIM_CHECK(x, "cancel", "the worker does not see that the host has cancelled");
							if (!b.cancelled) SIM_CHECK(!x, "cancel", "the worker is cancelled although the host is not");
						}
						else if (x) SIM_CHECK(b.cancelled, "cancel", "the worker is cancelled although the host is not");
						count_op("cancel");
					}
					else {
						if (choose(2)) { p.set_text("x"); nopreempt np; ++texts; }
						else { p.show(choose(2)); nopreempt np; ++shows; }
					}
				}
			});
		bool attached = start_attached;
		unsigned ops = choose(6);
		for (unsigned i = 0; i < ops; ++i) {
			if (choose(2)) sleep_ns(1000 * choose(100)); else yield_point();
			if (choose(4) == 3) { nopreempt np; b.cancelled = true; ev("cancel"); }
			if (!switching) continue;
			if (attached) {
				auto old = agg->detach();
				nopreempt np;
				SIM_CHECK(old == host.get(), "detach", "detach() returns another host");
				attached = false;
				host->attached = false;
				count_op("detach");
				if (choose(2)) host.reset(); // late users hit freed memory
			}
			else {
				if (!host) host = std::make_unique<host_t<T>>(b);
				{ nopreempt np; host->attached = true; host->have_value = host->have_range = false; count_op("attach"); }
				agg->attach(host.get());
				{ nopreempt np; SIM_CHECK(host->have_range && host->have_value, "attach", "the host is told nothing when it is attached"); }
				attached = true;
			}
		}
		for (auto& x : t) x.join();
		if (attached) {
			SIM_CHECK(host->value == b.sum(&worker_t<T>::value), "total", "the workers are done with a total of %lld, the host was last told %lld", (long long)b.sum(&worker_t<T>::value), (long long)host->value);
			SIM_CHECK(host->start == b.sum(&worker_t<T>::start) && host->end == b.sum(&worker_t<T>::end), "total", "the host's range %lld..%lld is not the sum of the workers' ranges", (long long)host->start, (long long)host->end);
			if (!switching) SIM_CHECK(host->texts == texts && host->shows == shows, "forward", "%u of %u texts and %u of %u shows reached the host", host->texts, texts, host->shows, shows);
			if (choose(2)) {
				auto old = agg->detach();
				SIM_CHECK(old == host.get(), "detach", "detach() returns another host");
				host->attached = false;
				host.reset();
				for (unsigned i = 0; i < n; ++i) { (*agg)[i].set((T)5); (*agg)[i].set_text("x"); SIM_CHECK(!(*agg)[i].cancel(), "cancel", "a worker without host is cancelled"); }
				for (auto& w : b.w) w.value.done = 5;
				host = std::make_unique<host_t<T>>(b);
				agg->attach(host.get());
				SIM_CHECK(host->value == (T)(5 * n), "total", "a host attached later is told %lld instead of %lld", (long long)host->value, (long long)(5 * n));
			}
		}
		(void)cancel_end;
		agg.reset();
		state(mix((uint64_t)b.sum(&worker_t<T>::value)) + n);
	}
	void i32() { run<int>(); }
	void usz() { run<size_t>(); }
}
SIM_SCENARIOS("C08", { "int", 1, i32 }, { "size_t", 1, usz })
