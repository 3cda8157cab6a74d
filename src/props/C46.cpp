// SIM: plain -O0 -fsanitize-address-use-after-scope
// C46: what has to be done at the end of a scope is done exactly once, whatever happens inside; what is lent comes back.
#include <string.h>
#include <stdint.h>
#include "sim.h"
#include <memory>
#include <curl/curl.h>
#include <stdex/compat.hpp>
#include <stdex/curl.hpp>
#include <stdex/memory.hpp>
#include <stdex/scoped_executor.hpp>
#include <array>
#include <functional>
#include <memory>
#include <new>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
using namespace sim;

// A stand-in for the CURL library: counts
static int g_curl;
static std::set<void*> g_handles, g_lists;
static CURLcode g_init_result;
extern "C" {
CURLcode curl_global_init(long) { if (g_init_result != CURLE_OK) return g_init_result; ++g_curl; return CURLE_OK; }
void curl_global_cleanup() { --g_curl; SIM_CHECK(g_curl >= 0, "cleanup", "the library is uninitialised without having been initialised"); }
void curl_easy_cleanup(CURL* p) { SIM_CHECK(g_handles.erase(p), "cleanup", "a handle that is none is cleaned up"); }
void curl_slist_free_all(struct curl_slist* p) { SIM_CHECK(g_lists.erase(p), "cleanup", "a list that is none is released"); }
const char* curl_easy_strerror(CURLcode c) { return c == CURLE_OUT_OF_MEMORY ? "out of memory" : "something else"; }
}

namespace
{
	struct stop {};
	// --- guards ---
	std::vector<int> g_log, g_want; // 2n: beginning of n, 2n+1: end of n
	int g_next;
	void check_log()
	{
		SIM_CHECK(g_log == g_want, "once", "%zu beginnings and ends happened, %zu are due; the last is the %s of %d", g_log.size(), g_want.size(), g_log.empty() ? "none" : g_log.back() & 1 ? "end" : "beginning", g_log.empty() ? 0 : g_log.back() / 2);
	}
	__attribute__((noinline)) void litter() { volatile char room[400]; for (auto& c : room) c = (char)0xee; }
	// What a guard saved must still be what it was when the scope ends
	struct capture { int n; std::string s; std::array<uint64_t, 5> a; };
	capture make(int n) { capture c; c.n = n; c.s = std::string((size_t)(10 + n % 40), (char)('a' + n % 26)); c.a.fill(mix((uint64_t)n)); return c; }
	void end_of(const capture& c)
	{
		capture w = make(c.n);
		SIM_CHECK(c.n >= 0 && c.n < g_next && c.s == w.s && c.a == w.a, "captures", "what a guard saved is not what it was given");
		g_log.push_back(2 * c.n + 1);
	}
	void begin_of(int n, bool thrown) { g_log.push_back(2 * n); if (thrown) throw stop(); }
	void scope(unsigned depth);
	void inside(unsigned depth)
	{
		check_log();
		litter();
		for (unsigned k = depth < 5 ? choose(3) : 0; k && g_next < 30; --k) scope(depth + 1);
		if (inject("thrown", 250, 1000)) throw stop();
	}
	template <class I, class D> std::unique_ptr<stdex::scoped_executor<I, D>> on_heap(I init, D done) { return std::make_unique<stdex::scoped_executor<I, D>>(std::move(init), std::move(done)); }
	void scope(unsigned depth)
	{
		int n = g_next++;
		bool thrown = inject("beginning_throws", 120, 1000), begun = false, caught = false;
		g_want.push_back(2 * n);
		unsigned how = choose(6);
		ev("guard %d (%u)%s", n, how, thrown ? ", the beginning throws" : "");
		try {
			switch (how) {
			case 0: { stdex::scoped_executor g([&] { begin_of(n, thrown); }, [c = make(n)] { end_of(c); }); begun = true; inside(depth); break; }
			case 1: {
				auto init = [&] { begin_of(n, thrown); };
				auto done = [c = make(n)] { end_of(c); };
				stdex::scoped_executor g(std::move(init), std::move(done));
				begun = true;
				inside(depth);
				break;
			}
			case 2: {
				auto init = [&] { begin_of(n, thrown); };
				auto done = [c = make(n)] { end_of(c); };
				stdex::scoped_executor<decltype(init)&, decltype(done)&> g(init, done);
				begun = true;
				inside(depth);
				break;
			}
			case 3: {
				stdex::scoped_executor<std::function<void()>, std::function<void()>> g([&] { begin_of(n, thrown); }, [c = make(n)] { end_of(c); });
				begun = true;
				inside(depth);
				break;
			}
			case 4: {
				auto g = on_heap([&] { begin_of(n, thrown); }, [c = make(n)] { end_of(c); });
				begun = true;
				inside(depth);
				break;
			}
			default: { // only the end is of interest
				g_log.push_back(2 * n);
				int at = n;
				stdex::scoped_executor g([] {}, [&at, c = make(n)] { if (at != c.n) violation("captures", "what a guard refers to is not what it was given"); end_of(c); });
				thrown = false;
				begun = true;
				inside(depth);
			}
			}
		}
		catch (const stop&) { caught = true; }
		if (begun) g_want.push_back(2 * n + 1);
		SIM_CHECK(begun == !thrown, "order", "a beginning that %s, and the scope %s", thrown ? "throws" : "does not throw", begun ? "is entered" : "is not entered");
		check_log();
		litter();
		if (caught && choose(3) == 1) throw stop();
	}
	void s_guards()
	{
		g_log.clear(); g_want.clear(); g_next = 0;
		for (unsigned k = 1 + choose(3); k; --k) try { scope(0); } catch (const stop&) {}
		check_log();
		state(g_log.size() * 31 + (uint64_t)g_next);
	}

	// --- pointers that are lent ---
	int g_alive, g_made;
	std::set<const void*> g_objects;
	struct base { virtual ~base() {} };
	struct object : base {
		int id;
		object() : id(g_made++) { g_objects.insert(this); ++g_alive; }
		~object() override { --g_alive; SIM_CHECK(g_objects.erase(this), "twice", "an object is deleted twice"); }
	};
	unsigned g_deleted;
	struct deleter { unsigned mark = 7; void operator()(object* p) const { SIM_CHECK(mark == 7, "deleter", "the deleter is lost"); ++g_deleted; delete p; } };
	struct array_deleter { unsigned mark = 7; void operator()(object* p) const { SIM_CHECK(mark == 7, "deleter", "the deleter is lost"); ++g_deleted; delete[] p; } };
	template <bool A> object* fresh() { if constexpr (A) return new object[1 + choose(3)]; else return new object; }
	template <bool A> void drop(object* p) { if constexpr (A) delete[] p; else delete p; }
	// A function in the style of C: gives out through its argument
	template <bool A> object* g_now; // what the argument holds in the end
	template <bool A> void produce(object** pp)
	{
		litter();
		g_now<A> = *pp;
		if (inject("thrown", 120, 1000)) throw stop();
		switch (choose(4)) {
		case 0: break;
		case 1: drop<A>(*pp); *pp = nullptr; g_now<A> = nullptr; if (choose(2)) { *pp = fresh<A>(); g_now<A> = *pp; } break;
		case 2: if (!*pp) { *pp = fresh<A>(); g_now<A> = *pp; } break;
		default: { auto n = fresh<A>(); std::swap(*pp, n); g_now<A> = *pp; drop<A>(n); }
		}
		if (inject("thrown", 120, 1000)) throw stop();
	}
	template <bool A> void produce_ref(object*& p) { produce<A>(&p); }
	template <class U, bool A> void lend(U& p)
	{
		for (unsigned n = 1 + choose(10); n; --n) {
			object* before = p.get();
			unsigned how = choose(6);
			g_now<A> = before;
			int alive = g_alive;
			alloc_faults af(choose(3) ? 0 : 300, 1000);
			try {
				switch (how) {
				case 0: produce<A>(stdex::get_ptr(p)); break;
				case 1: produce_ref<A>(stdex::get_ptr(p)); break;
				case 2: { auto r = stdex::get_ptr(p); SIM_CHECK(!p, "twice", "what is lent is still owned"); produce<A>(r); litter(); break; }
				case 3: { auto r = stdex::get_ptr(p); auto q = std::move(r); produce<A>(q); if (choose(2)) produce<A>(q); break; } // moved away from, the first returns nothing
				case 4: { auto r = stdex::get_ptr(p); (void)r; if (choose(2)) throw stop(); break; }
				default: p.reset(); g_now<A> = nullptr; if (choose(2)) { p.reset(fresh<A>()); g_now<A> = p.get(); }
				}
			}
			catch (const stop&) {}
			catch (const std::bad_alloc&) {}
			(void)alive;
			SIM_CHECK(p.get() == g_now<A>, "returned", "the owner has %s object after lending it", !p ? "no" : g_now<A> ? "another" : "an");
			SIM_CHECK(p.get_deleter().mark == 7, "deleter", "the deleter is lost");
			SIM_CHECK(!p || g_objects.count(p.get()), "returned", "the owner has an object that is deleted");
			if constexpr (!A) SIM_CHECK(g_alive == (p ? 1 : 0), "leak", "%d objects are there, the owner has %d", g_alive, p ? 1 : 0);
			else SIM_CHECK(p ? g_alive >= 1 : g_alive == 0, "leak", "%d objects are there, the owner has %s", g_alive, p ? "some" : "none");
			evn(3, how, (uint64_t)g_alive);
		}
	}
	void s_lent()
	{
		g_alive = g_made = 0; g_objects.clear(); g_deleted = 0;
		if (choose(2)) { std::unique_ptr<object, deleter> p; if (choose(2)) p.reset(new object); lend<decltype(p), false>(p); }
		else { std::unique_ptr<object[], array_deleter> p; if (choose(2)) p.reset(new object[2]); lend<decltype(p), true>(p); }
		SIM_CHECK(!g_alive, "leak", "%d objects are left", g_alive);
		state((uint64_t)g_made * 31 + g_deleted);
	}
	void s_borrowed()
	{
		g_alive = g_made = 0; g_objects.clear();
		{
			object o, a[3];
			for (unsigned n = 1 + choose(8); n; --n) {
				bool no_memory = false;
				uint64_t a0 = alloc_failures(), live = heap_live();
				std::weak_ptr<object> w;
				std::shared_ptr<object> kept;
				{
					alloc_faults af(choose(3) ? 0 : 500, 1000);
					heap_track h;
					try {
						switch (choose(4)) {
						case 0: { auto p = stdex::make_shared_no_delete(&o); auto q = p; w = q; SIM_CHECK(p.get() == &o && q.use_count() == 2, "borrowed", "a wrapped object is another"); break; }
						case 1: kept = stdex::make_shared_no_delete(&o); w = kept; break;
						case 2: { std::unique_ptr<object, stdex::no_delete<object>> p(&o); std::unique_ptr<base, stdex::no_delete<base>> q(std::move(p)); SIM_CHECK(!p && q.get() == &o, "borrowed", "a wrapped object is another"); break; }
						default: { std::unique_ptr<object[], stdex::no_delete<object[]>> p(a); p.reset(); std::unique_ptr<const object[], stdex::no_delete<const object[]>> q(a); } 
						}
					}
					catch (const std::bad_alloc&) { no_memory = true; }
				}
				SIM_CHECK(no_memory == (alloc_failures() != a0), "memory", "memory %s, and the wrapping %s", alloc_failures() != a0 ? "ran out" : "did not run out", no_memory ? "fails" : "works");
				SIM_CHECK(g_alive == 4 && g_objects.size() == 4, "borrowed", "an object that was only lent is deleted");
				SIM_CHECK(w.expired() == !kept, "borrowed", "a wrapped object is%s there", w.expired() ? " not" : "");
				kept.reset(); w.reset();
				SIM_CHECK(heap_live() == live, "leak", "%d blocks are left", (int)(heap_live() - live));
				evn(4, no_memory);
			}
		}
		SIM_CHECK(!g_alive, "leak", "%d objects are left", g_alive);
	}

	// --- what wraps the CURL library ---
	void s_curl()
	{
		g_curl = 0; g_handles.clear(); g_lists.clear();
		static char dummy[16];
		std::vector<std::unique_ptr<stdex::curl_initializer>> held;
		stdex::curl handles[3];
		stdex::curl_slist lists[3];
		unsigned next = 0;
		for (unsigned n = 1 + choose(20); n; --n) {
			unsigned k = choose(3);
			switch (choose(6)) {
			case 0: {
				g_init_result = inject("init", 400, 1000) ? choose(2) ? CURLE_OUT_OF_MEMORY : CURLE_FAILED_INIT : CURLE_OK;
				CURLcode want = g_init_result;
				int before = g_curl;
				try { held.emplace_back(new stdex::curl_initializer(CURL_GLOBAL_ALL)); SIM_CHECK(want == CURLE_OK, "failure_hidden", "the library cannot be initialised, nobody says so"); SIM_CHECK(g_curl == before + 1, "once", "the library is initialised %d times", g_curl - before); }
				catch (const stdex::curl_runtime_error& e) {
					SIM_CHECK(want != CURLE_OK && e.number() == want && strstr(e.what(), curl_easy_strerror(want)), "state", "failure %d is reported as %d, %s", want, e.number(), e.what());
					SIM_CHECK(g_curl == before, "once", "the library is uninitialised after a failure");
				}
				break;
			}
			case 1: if (!held.empty()) held.erase(held.begin() + choose((uint32_t)held.size())); break;
			case 2: if (next < sizeof(dummy)) { CURL* h = &dummy[next++]; g_handles.insert(h); handles[k].reset(h); } break;
			case 3: handles[k] = std::move(handles[choose(3)]); break;
			case 4: if (next < sizeof(dummy)) { auto h = (struct ::curl_slist*)&dummy[next++]; g_lists.insert(h); lists[k].reset(h); } break;
			default: lists[k].reset();
			}
			size_t h = 0, l = 0;
			for (auto& x : handles) h += !!x;
			for (auto& x : lists) l += !!x;
			SIM_CHECK(g_curl == (int)held.size() && g_handles.size() == h && g_lists.size() == l, "once", "%d initialisations, %zu handles and %zu lists are not released, %zu, %zu and %zu are held", g_curl, g_handles.size(), g_lists.size(), held.size(), h, l);
			evn(5, (uint64_t)g_curl, h * 4 + l);
		}
		held.clear();
		for (auto& x : handles) x.reset();
		for (auto& x : lists) x.reset();
		SIM_CHECK(!g_curl && g_handles.empty() && g_lists.empty(), "leak", "something is never cleaned up");
		stdex::curl_runtime_error e(CURLE_FAILED_INIT), f(CURLE_FAILED_INIT, std::string("text")), g(CURLE_OUT_OF_MEMORY, "text");
		SIM_CHECK(e.number() == CURLE_FAILED_INIT && f.number() == CURLE_FAILED_INIT && g.number() == CURLE_OUT_OF_MEMORY && !strcmp(f.what(), "text: something else") && !strcmp(g.what(), "text: out of memory"), "state", "an error is not the one it was made of");
	}
}
SIM_SCENARIOS("C46", { "guards", 4, s_guards }, { "lent", 3, s_lent }, { "borrowed", 1, s_borrowed }, { "curl", 1, s_curl })
