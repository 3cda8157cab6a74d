// Single threaded build (AddressSanitizer): allocation failures and the step counter.
#include "sim.h"
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <new>
namespace sim
{
	extern uint64_t g_steps, g_step_limit;
	void step_limit_exceeded();
	bool alloc_should_fail();
	void sync_point();
	void heap_reset();
	void wall_reset();
}
namespace simheap { void run_begin() { sim::heap_reset(); sim::wall_reset(); } void run_end(bool) {} }
namespace
{
	// Blocks allocated while a heap_track is alive and not released yet
	void* g_blocks[1 << 16];
	uint8_t g_kind[1 << 16]; // 0 malloc, 1 new, 2 new[]
	unsigned g_n;
	int g_tracking;
	uint64_t g_max, g_total;
	bool refuse(size_t n, bool c = true)
	{
		if (!sim::active) return false;
		if (g_tracking) { if (n > g_max) g_max = n; g_total += n; }
		int t = g_tracking;
		g_tracking = 0; // the simulator's own blocks do not count
		bool r = n > (1ull << 31) || ((c || !sim::alloc_faults_malloc_only) && sim::alloc_should_fail());
		g_tracking = t;
		return r;
	}
	void* note(void* p, uint8_t kind = 0)
	{
		if (g_tracking && p && g_n < sizeof(g_blocks) / sizeof(*g_blocks)) { g_kind[g_n] = kind; g_blocks[g_n++] = p; }
		return p;
	}
	void forget(unsigned i) { --g_n; g_blocks[i] = g_blocks[g_n]; g_kind[i] = g_kind[g_n]; }
	void released(void* p, uint8_t kind = 0)
	{
		if (!p || !sim::active) return;
		if (sim::on_free) sim::on_free(p, malloc_usable_size(p));
		for (unsigned i = g_n; i--; )
			if (g_blocks[i] == p) {
				static const char* const how[] = { "malloc", "new", "new[]" };
				if (g_kind[i] != kind) sim::violation("dealloc", "a block allocated with %s is released as one of %s", how[g_kind[i]], how[kind]);
				forget(i);
				return;
			}
	}
}
namespace sim
{
	bool alloc_faults_malloc_only;
	uint64_t heap_live() { return g_n; }
	uint64_t heap_max() { return g_max; }
	uint64_t heap_total() { return g_total; }
	void heap_reset() { alloc_faults_malloc_only = false; g_n = 0; g_tracking = 0; g_max = g_total = 0; }
	heap_track::heap_track() { ++g_tracking; }
	heap_track::~heap_track() { --g_tracking; }
}
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
void* __wrap_malloc(size_t n) { if (refuse(n)) { errno = ENOMEM; return nullptr; } return note(__real_malloc(n)); }
void* __wrap_calloc(size_t a, size_t b) { if (refuse(a * b)) { errno = ENOMEM; return nullptr; } return note(__real_calloc(a, b)); }
void* __wrap_realloc(void* p, size_t n)
{
	if (n && refuse(n)) { errno = ENOMEM; return nullptr; }
	bool had = false;
	for (unsigned i = g_n; i-- && !had; ) if (g_blocks[i] == p && p) { forget(i); had = true; }
	void* r = __real_realloc(p, n);
	if (had && r && g_n < sizeof(g_blocks) / sizeof(*g_blocks)) { g_kind[g_n] = 0; g_blocks[g_n++] = r; return r; }
	return p ? r : note(r);
}
void __wrap_free(void* p) { released(p); __real_free(p); }
void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop)
{
	static uint32_t n;
	for (uint32_t* x = start; x < stop; ++x) if (!*x) *x = ++n;
}
void __sanitizer_cov_trace_pc_guard(uint32_t*)
{
	if (++sim::g_steps > sim::g_step_limit) sim::step_limit_exceeded();
}
}
static void* op_new(size_t n, uint8_t kind)
{
	if (refuse(n, false)) throw std::bad_alloc();
	void* p = note(__real_malloc(n ? n : 1), kind);
	if (!p) throw std::bad_alloc();
	return p;
}
static void* op_new_nothrow(size_t n, uint8_t kind) { return refuse(n, false) ? nullptr : note(__real_malloc(n ? n : 1), kind); }
static void op_delete(void* p, uint8_t kind) { released(p, kind); __real_free(p); }
void* operator new(size_t n) { return op_new(n, 1); }
void* operator new[](size_t n) { return op_new(n, 2); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new_nothrow(n, 1); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new_nothrow(n, 2); }
void operator delete(void* p) noexcept { op_delete(p, 1); }
void operator delete[](void* p) noexcept { op_delete(p, 2); }
void operator delete(void* p, size_t) noexcept { op_delete(p, 1); }
void operator delete[](void* p, size_t) noexcept { op_delete(p, 2); }

// ---- clocks ------------------------------------------------------------------------------------
namespace sim
{
	// the wall clock: seconds and nanoseconds at virtual time 0; it may be set to any moment
	int64_t g_wall_sec = 1700000000, g_wall_nsec;
	void wall(int64_t& sec, int64_t& nsec)
	{
		int64_t n = (int64_t)(now_ns() % 1000000000) + g_wall_nsec;
		sec = g_wall_sec + (int64_t)(now_ns() / 1000000000) + n / 1000000000;
		nsec = n % 1000000000;
	}
	void wall_set(int64_t sec, int64_t nsec)
	{
		count_fault("wall_clock_jump");
		int64_t n = nsec - (int64_t)(now_ns() % 1000000000);
		g_wall_sec = sec - (int64_t)(now_ns() / 1000000000) - (n < 0);
		g_wall_nsec = n < 0 ? n + 1000000000 : n;
	}
	void wall_reset() { g_wall_sec = 1700000000; g_wall_nsec = 0; }
}
extern "C" {
int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
	if (!sim::active) return (int)syscall(SYS_clock_gettime, id, ts);
	int64_t s, n;
	if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) sim::wall(s, n);
	else { s = (int64_t)(sim::now_ns() / 1000000000); n = (int64_t)(sim::now_ns() % 1000000000); }
	ts->tv_sec = s; ts->tv_nsec = n;
	return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
int timespec_get(struct timespec* ts, int base) noexcept
{
	if (base != TIME_UTC) return 0;
	clock_gettime(CLOCK_REALTIME, ts);
	return base;
}
time_t time(time_t* t) noexcept
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}
}
