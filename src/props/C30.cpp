// SIM: plain
// C30: bounded queue: first in, first out within its capacity; a failing push or copy loses nothing.
#include <stddef.h>
#include <stdexcept>
#include <memory>
#include <utility>
#include <stdex/vector_queue.hpp>
#include "sim.h"
#include <deque>
#include <vector>
using namespace sim;

namespace
{
	int g_objects;
	bool g_may_throw;
	struct copy_failed {};
	// An element that owns memory; its assignment either happens or changes nothing
	struct elem {
		uint32_t* p = nullptr;
		elem() { ++g_objects; }
		elem(uint32_t v) : p(new uint32_t(v)) { ++g_objects; }
		elem(const elem& o) : p(o.p ? new uint32_t(*o.p) : nullptr) { ++g_objects; }
		elem(elem&& o) noexcept : p(o.p) { o.p = nullptr; ++g_objects; }
		elem& operator=(const elem& o)
		{
			if (g_may_throw && inject("copy_error", 1, 8)) throw copy_failed();
			uint32_t* n = o.p ? new uint32_t(*o.p) : nullptr;
			delete p;
			p = n;
			return *this;
		}
		elem& operator=(elem&& o)
		{
			if (g_may_throw && inject("copy_error", 1, 8)) throw copy_failed();
			if (this != &o) { delete p; p = o.p; o.p = nullptr; }
			return *this;
		}
		~elem() { delete p; --g_objects; }
	};
	uint32_t val(const elem& e) { SIM_CHECK(e.p, "lost", "an element of the queue is empty"); return *e.p; }
	uint32_t val(uint32_t v) { return v; }
	template <class T> struct maker { static T get(uint32_t v) { return T(v); } };

	template <class T> struct tested {
		std::unique_ptr<stdex::vector_queue<T>> q;
		std::deque<uint32_t> m;
		size_t cap = 0;
	};
	template <class T> void same(tested<T>& t, const char* when)
	{
		auto& q = *t.q;
		const auto& c = q;
		SIM_CHECK(q.size() == t.m.size() && q.empty() == t.m.empty() && q.capacity() == t.cap, "size", "%s the queue has %zu of %zu elements instead of %zu of %zu", when, q.size(), q.capacity(), t.m.size(), t.cap);
		for (size_t i = 0; i < t.m.size(); ++i) {
			SIM_CHECK(val(q[i]) == t.m[i] && val(c[i]) == t.m[i] && val(q.at(i)) == t.m[i] && val(c.at(i)) == t.m[i], "content", "%s element %zu of %zu is %u instead of %u", when, i, t.m.size(), val(q[i]), t.m[i]);
			size_t a = q.abs(i);
			SIM_CHECK(a < t.cap && val(q.at_abs(a)) == t.m[i] && val(c.at_abs(a)) == t.m[i], "absolute", "%s element %zu is not at its absolute place", when, i);
		}
		if (!t.m.empty()) {
			SIM_CHECK(val(q.front()) == t.m.front() && val(c.front()) == t.m.front() && q.head() == q.abs(0), "ends", "%s the head is not the first element", when);
			SIM_CHECK(val(q.back()) == t.m.back() && val(c.back()) == t.m.back() && q.tail() == q.abs(t.m.size() - 1), "ends", "%s the tail is not the last element", when);
		}
		else if (!choose(4)) {
			unsigned n = 0;
			try { q.front(); } catch (const std::invalid_argument&) { ++n; }
			try { q.back(); } catch (const std::invalid_argument&) { ++n; }
			try { q.pop_front(); } catch (const std::invalid_argument&) { ++n; }
			try { q.pop_back(); } catch (const std::invalid_argument&) { ++n; }
			SIM_CHECK(n == 4, "bounds", "%s an empty queue gives an element away", when);
		}
		if (choose(6)) return; // exceptions are slow
		unsigned n = 0;
		size_t out = t.m.size() + (choose(2) ? choose(10) : SIZE_MAX - t.m.size() - choose(3));
		try { q.at(out); } catch (const std::invalid_argument&) { ++n; }
		try { c[out]; } catch (const std::invalid_argument&) { ++n; }
		try { q.at_abs(t.cap); } catch (const std::invalid_argument&) { ++n; }
		try { q[out]; } catch (const std::invalid_argument&) { ++n; }
		try { c.at(out); } catch (const std::invalid_argument&) { ++n; }
		try { c.at_abs(t.cap); } catch (const std::invalid_argument&) { ++n; }
		SIM_CHECK(n == 6, "bounds", "%s an element outside of the queue is given away", when);
	}
	template <class T> void run(bool owns)
	{
		g_objects = 0;
		{
			tested<T> t[3];
			std::vector<std::deque<uint32_t>> hist;
			uint32_t next = 1;
			bool faults = choose(2);
			static const uint32_t caps[] = { 1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16, 17, 100 };
			for (auto& x : t) {
				x.cap = caps[choose(13)];
				x.q.reset(new stdex::vector_queue<T>(x.cap));
			}
			for (unsigned n = 1 + choose(choose(3) ? 40 : 200); n; --n) {
				tested<T>& x = t[choose(3)], & y = t[choose(3)];
				std::deque<uint32_t> was = x.m, ym = y.m;
				size_t was_cap = x.cap;
				uint32_t op = choose(13), v = next++;
				bool failed = false;
				if (!x.cap && op < 7) op = 11; // nothing fits in a queue that was moved away
				T e = maker<T>::get(v);
				size_t at = SIZE_MAX;
				auto back = [&] { if (x.m.size() == x.cap) x.m.pop_front(); x.m.push_back(v); };
				auto front = [&] { if (x.m.size() == x.cap) x.m.pop_back(); x.m.push_front(v); };
				try {
					alloc_faults af(faults && choose(2) ? 120 : 0, 1000);
					g_may_throw = faults;
					switch (op) {
					case 0: case 1: at = x.q->push_back(e); break;
					case 2: at = x.q->push_back(std::move(e)); break;
					case 3: at = x.q->push_front(e); break;
					case 4: at = x.q->push_front(std::move(e)); break;
					case 5: // an element of the queue itself
						if (x.m.empty()) break;
						{ size_t k = choose((uint32_t)x.m.size()); v = x.m[k]; bool f = choose(2); at = f ? x.q->push_front((*x.q)[k]) : x.q->push_back((*x.q)[k]); op = f ? 3 : 0; }
						break;
					case 6: if (!x.m.empty()) { x.q->pop_front(); x.m.pop_front(); } break;
					case 7: if (!x.m.empty()) { x.q->pop_back(); x.m.pop_back(); } break;
					case 8: if (!choose(4)) { x.q->clear(); x.m.clear(); } break;
					case 9: *x.q = *y.q; x.m.swap(ym); x.cap = y.cap; break;
					case 10: { stdex::vector_queue<T> c(*y.q); tested<T> z; z.q.reset(new stdex::vector_queue<T>(std::move(c))); z.m = y.m; z.cap = y.cap; g_may_throw = false; same(z, "after copying and moving"); SIM_CHECK(c.empty() && !c.size() && !c.capacity(), "moved", "a queue that was moved away still has %zu elements of %zu", c.size(), c.capacity()); c = std::move(*z.q); z.q.reset(new stdex::vector_queue<T>(c)); same(z, "after moving back"); break; }
					case 11:
						if (&x == &y) break;
						*x.q = std::move(*y.q); x.m.swap(ym); x.cap = y.cap; y.m.clear(); y.cap = 0;
						if (choose(4)) { g_may_throw = false; y.cap = caps[choose(13)]; std::unique_ptr<stdex::vector_queue<T>> z; try { z.reset(new stdex::vector_queue<T>(y.cap)); } catch (const std::bad_alloc&) { y.cap = 0; } if (z) y.q = std::move(z); }
						break;
					default: { size_t c = caps[choose(13)]; std::unique_ptr<stdex::vector_queue<T>> z(new stdex::vector_queue<T>(c)); x.q = std::move(z); x.m.clear(); x.cap = c; }
					}
				}
				catch (const std::bad_alloc&) { failed = true; }
				catch (const copy_failed&) { failed = true; }
				g_may_throw = false;
				evn(op, x.m.size(), failed);
				if (!failed) {
					if (op < 3) { if (at != SIZE_MAX) back(); }
					else if (op < 5) { if (at != SIZE_MAX) front(); }
					if (op < 5 && at != SIZE_MAX) SIM_CHECK(at < x.cap && val(x.q->at_abs(at)) == v, "absolute", "push_%s() returns a place where the element is not", op < 3 ? "back" : "front");
				}
				else if (op == 9 && x.q->empty()) { // a failed copy may also leave the queue empty
					x.m.clear();
					x.cap = x.q->capacity();
				}
				else { x.m = was; x.cap = was_cap; }
				same(x, failed ? "after a failed operation" : "after an operation");
				if (&x != &y) same(y, "after an operation on another queue");
			}
			uint64_t h = 0;
			for (auto& x : t) { h = h * 31 + x.m.size(); h = h * 131 + x.cap; h = h * 31 + x.q->head(); }
			state(h);
		}
		if (owns) {
			SIM_CHECK(!g_objects, "leak", "%d elements are left after all queues are destroyed", g_objects);
		}
	}
	void s_owning() { run<elem>(true); }
	void s_plain() { run<uint32_t>(false); }
}
SIM_SCENARIOS("C30", { "owning", 3, s_owning }, { "plain", 1, s_plain })
