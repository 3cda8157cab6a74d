// Scheduled build: pthread layer, clocks, CPU/NUMA stubs, heap with shadow memory and the
// callbacks the compiler inserts with -fsanitize=thread (this program provides its own runtime:
// each callback is a potential preemption point and a heap bounds check).
#include "sim.h"
#include <errno.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <new>

namespace sim
{
	extern uint64_t g_steps, g_step_limit;
	extern int64_t g_countdown;
	extern int g_nopreempt;
	void sync_point();
	void mem_preempt();
	void step_limit_exceeded();
	bool alloc_should_fail();
	int thread_create(void* (*fn)(void*), void* arg);
	int thread_join(int id, void** ret);
	int thread_detach(int id);
	bool thread_wait(const void* on, const char* why, bool timed, uint64_t deadline);
	void thread_wake(const void* on, bool all);
	unsigned thread_waiters(const void* on);
	int64_t g_wall_offset = 1700000000000000000ll;
	void wall_jump(int64_t ns) { g_wall_offset += ns; count_fault("wall_clock_jump"); }
	bool spurious_wakeups = true;
}
using namespace sim;


// ---- happens-before race detector -------------------------------------------------------------------
// Vector clocks over the simulated synchronisation operations and the memory orders of the atomics: a
// run executes sequentially, so an access that is correct only by luck of the schedule, or only on a
// sequentially consistent machine, is found as a pair of unordered accesses.
extern "C" char _end;
namespace race
{
	static uint64_t brk_end;
	static struct { uint64_t at, size; } tls[16];
	static unsigned n_tls;
	static const unsigned max_thr = 48, n_sync = 4096, n_cells = 1u << 17;
	struct vc { uint32_t c[max_thr]; };
	struct sync_t { const volatile void* key; uint32_t run; vc v; };
	struct slot { uint16_t tid; uint8_t mask, write; uint32_t clk; };
	struct cell { uint64_t key; uint32_t run; uint8_t next; slot s[4]; };
	static vc* C, * facq, * frel; // clock, pending acquire fence and release fence clock of every thread
	static sync_t* S;
	static cell* cells;
	static uint32_t run;
	static unsigned used_sync, used_cells, nthr;
	static bool off;
	static bool enabled = true;

	void run_begin()
	{
		if (!C) {
			size_t n = 3 * max_thr * sizeof(vc) + n_sync * sizeof(sync_t) + n_cells * sizeof(cell);
			auto p = (uint8_t*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
			if (p == MAP_FAILED) { fprintf(stderr, "race detector mmap failed\n"); _exit(3); }
			C = (vc*)p; facq = C + max_thr; frel = facq + max_thr;
			S = (sync_t*)(frel + max_thr);
			cells = (cell*)(S + n_sync);
			dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void*) {
				for (unsigned k = 0; k < i->dlpi_phnum; ++k)
					if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data && n_tls < 16) { tls[n_tls].at = (uint64_t)i->dlpi_tls_data; tls[n_tls++].size = i->dlpi_phdr[k].p_memsz; }
				return 0;
			}, nullptr);
		}
		brk_end = (uint64_t)sbrk(0) + (1ull << 32);
		++run;
		used_sync = used_cells = 0;
		nthr = 1;
		off = !enabled;
		memset(&C[0], 0, sizeof(vc)); memset(&facq[0], 0, sizeof(vc)); memset(&frel[0], 0, sizeof(vc));
		C[0].c[0] = 1;
	}
	static inline void join(vc& a, const vc& b) { for (unsigned i = 0; i < nthr; ++i) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }
	static sync_t* find(const volatile void* key, bool create)
	{
		unsigned i = (unsigned)(mix((uint64_t)key) % n_sync);
		for (;; i = (i + 1) % n_sync) {
			if (S[i].run != run) break;
			if (S[i].key == key) return &S[i];
		}
		if (!create) return nullptr;
		if (++used_sync > n_sync / 2) { off = true; return nullptr; }
		S[i].key = key; S[i].run = run;
		memset(&S[i].v, 0, sizeof(vc));
		return &S[i];
	}
	static void acquire(const volatile void* key)
	{
		if (off) return;
		if (auto s = find(key, false)) join(C[self()], s->v);
	}
	static void release(const volatile void* key)
	{
		if (off) return;
		int t = self();
		if (auto s = find(key, true)) join(s->v, C[t]);
		++C[t].c[t];
	}
	static inline bool is_acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
	static inline bool is_rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
	static void atomic_load(const volatile void* a, int mo)
	{
		if (off || !active) return;
		auto s = find(a, false);
		if (!s) return;
		join(is_acq(mo) ? C[self()] : facq[self()], s->v);
	}
	static void atomic_store(const volatile void* a, int mo, bool rmw)
	{
		if (off || !active) return;
		int t = self();
		auto s = find(a, true);
		if (!s) return;
		if (!rmw) memset(&s->v, 0, sizeof(vc)); // a plain store ends the release sequence
		if (is_rel(mo)) { join(s->v, C[t]); ++C[t].c[t]; }
		else join(s->v, frel[t]);
	}
	static void fence(int mo)
	{
		if (off || !active) return;
		int t = self();
		if (is_acq(mo)) join(C[t], facq[t]);
		if (is_rel(mo)) { frel[t] = C[t]; ++C[t].c[t]; }
	}
	static void created(int t)
	{
		if ((unsigned)t >= max_thr) { off = true; return; }
		if ((unsigned)t >= nthr) nthr = t + 1;
		C[t] = C[self()];
		memset(&facq[t], 0, sizeof(vc)); memset(&frel[t], 0, sizeof(vc));
		C[t].c[t] = 1;
		++C[self()].c[self()];
	}
	static void joined(int t) { if (!off) join(C[self()], C[t]); }
	static inline void one(uint64_t key, uint8_t mask, bool write, const void* pc)
	{
		unsigned i = (unsigned)((key * 0x9e3779b97f4a7c15ull) >> 47) % n_cells;
		for (;; i = (i + 1) % n_cells) {
			if (cells[i].run != run) {
				if (++used_cells > n_cells / 2) { off = true; return; }
				cells[i].run = run; cells[i].key = key; cells[i].next = 0;
				memset(cells[i].s, 0, sizeof(cells[i].s));
				break;
			}
			if (cells[i].key == key) break;
		}
		cell& c = cells[i];
		unsigned me = (unsigned)self();
		const vc& my = C[me];
		int put = -1;
		for (int k = 0; k < 4; ++k) {
			slot& s = c.s[k];
			if (!s.mask) { if (put < 0) put = k; continue; }
			if (s.tid == me) {
				if (s.mask == mask && (write || !s.write)) put = k; // the newer access subsumes it
				continue;
			}
			if (s.clk <= my.c[s.tid]) continue;
			if ((s.mask & mask) && (write || s.write))
				violation("data_race", "thread %u %s memory that thread %u %s without any synchronisation between them", me, write ? "writes" : "reads", (unsigned)s.tid, s.write ? "writes" : "reads");
		}
		if (put < 0) { put = c.next & 3; ++c.next; }
		c.s[put] = { (uint16_t)me, mask, (uint8_t)write, my.c[me] };
		(void)pc;
	}
	static inline void access(const void* p, size_t n, bool write)
	{
		if (off || nthr == 1) return;
		uint64_t a = (uint64_t)p;
		// The process heap is recycled by the core and by bookkeeping without simulated synchronisation
		if (a >= (uint64_t)&_end && a < brk_end) return;
		// Thread-local variables: all simulated threads run on one thread of the system
		for (unsigned i = 0; i < n_tls; ++i) if (a - tls[i].at < tls[i].size) return;
		if (n > 8192) n = 8192;
		while (n) {
			unsigned o = a & 7, k = 8 - o < n ? 8 - o : (unsigned)n;
			one(a >> 3, (uint8_t)(((1u << k) - 1) << o), write, nullptr);
			if (off) return;
			a += k; n -= k;
		}
	}
}

// ---- clocks ------------------------------------------------------------------------------------
extern "C" {
int clock_gettime(clockid_t id, struct timespec* ts) noexcept
{
	if (!active) return (int)syscall(SYS_clock_gettime, id, ts);
	int64_t t = (int64_t)now_ns();
	if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) t += g_wall_offset;
	ts->tv_sec = t / 1000000000; ts->tv_nsec = t % 1000000000;
	return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
	return 0;
}
time_t time(time_t* t) noexcept
{
	struct timespec ts;
	clock_gettime(CLOCK_REALTIME, &ts);
	if (t) *t = ts.tv_sec;
	return ts.tv_sec;
}
int nanosleep(const struct timespec* rq, struct timespec* rm)
{
	if (!active) return (int)syscall(SYS_nanosleep, rq, rm);
	sleep_ns((uint64_t)rq->tv_sec * 1000000000ull + rq->tv_nsec);
	if (rm) rm->tv_sec = rm->tv_nsec = 0;
	return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec* rq, struct timespec*)
{
	int64_t t = (int64_t)rq->tv_sec * 1000000000ll + rq->tv_nsec;
	if (flags & TIMER_ABSTIME) { t -= (int64_t)now_ns() + (id == CLOCK_REALTIME ? g_wall_offset : 0); if (t < 0) t = 0; }
	sleep_ns((uint64_t)t);
	return 0;
}
int usleep(useconds_t us) { sleep_ns((uint64_t)us * 1000); return 0; }
int sched_yield() noexcept { if (active) { sync_point(); yield_point(); } return 0; }
int sched_getcpu() noexcept { return cpu_of_thread ? cpu_of_thread(self()) : 0; }

// libnuma stub
int numa_available() { return numa_nodes > 1 ? 0 : -1; }
int numa_max_node() { return numa_nodes - 1; }
int numa_num_configured_nodes() { return numa_nodes; }
int numa_num_configured_cpus() { return 64; }
int numa_node_of_cpu(int cpu) { return cpu < 0 ? -1 : cpu % numa_nodes; }

// ---- threads -------------------------------------------------------------------------------------
static const pthread_t tbase = 0x10000;
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg) noexcept
{
	if (!active) { fprintf(stderr, "thread created outside a run\n"); _exit(3); }
	sync_point();
	if (inject("thread_create_failure", 0, 1)) return EAGAIN;
	int id = thread_create(fn, arg);
	race::created(id);
	*t = tbase + id;
	sync_point();
	return 0;
}
int pthread_join(pthread_t t, void** r) { sync_point(); int e = thread_join((int)(t - tbase), r); if (!e) race::joined((int)(t - tbase)); return e; }
int pthread_detach(pthread_t t) noexcept { sync_point(); return thread_detach((int)(t - tbase)); }
pthread_t pthread_self() noexcept { return tbase + self(); }

// ---- mutex: word 0 = owner + 1, word 1 = recursion, kind is where glibc keeps it --------------------
struct smutex { int owner, depth; };
static inline smutex* M(pthread_mutex_t* m) { return (smutex*)m; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept
{
	int type = 0;
	if (a) pthread_mutexattr_gettype(a, &type);
	memset(m, 0, sizeof(*m));
	m->__data.__kind = type;
	return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
{
	if (active && M(m)->owner) violation("sync_misuse", "a locked mutex is destroyed");
	return 0;
}
static bool try_take(pthread_mutex_t* m)
{
	smutex* s = M(m);
	if (!s->owner) { s->owner = self() + 1; s->depth = 1; if (active) race::acquire(m); return true; }
	if (s->owner == self() + 1 && (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP) { ++s->depth; return true; }
	return false;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
	if (!active) { try_take(m); return 0; }
	sync_point();
	if (!try_take(m)) {
		if (M(m)->owner == self() + 1) violation("deadlock", "thread %d locks a mutex it already holds", self());
		do thread_wait(m, "mutex", false, 0); while (!try_take(m));
	}
	evn(0x10, (uint64_t)self());
	return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
	sync_point();
	return try_take(m) ? 0 : EBUSY;
}
static uint64_t deadline_of(clockid_t id, const struct timespec* ts)
{
	int64_t t = (int64_t)ts->tv_sec * 1000000000ll + ts->tv_nsec;
	if (ts->tv_sec > 9000000000ll) return UINT64_MAX - 1;
	if (id == CLOCK_REALTIME) t -= g_wall_offset;
	return t < 0 ? 0 : (uint64_t)t;
}
int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t id, const struct timespec* ts) noexcept
{
	sync_point();
	uint64_t d = deadline_of(id, ts);
	while (!try_take(m))
		if (thread_wait(m, "timed mutex", true, d)) return try_take(m) ? 0 : ETIMEDOUT;
	return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* ts) noexcept { return pthread_mutex_clocklock(m, CLOCK_REALTIME, ts); }
static void release(pthread_mutex_t* m)
{
	smutex* s = M(m);
	if (--s->depth) return;
	if (active) race::release(m);
	s->owner = 0;
	if (active) thread_wake(m, true);
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
	if (!active) { if (M(m)->owner) release(m); return 0; }
	if (M(m)->owner != self() + 1) violation("sync_misuse", "thread %d unlocks a mutex it does not hold", self());
	release(m);
	evn(0x11, (uint64_t)self());
	sync_point();
	return 0;
}

// ---- condition variables ------------------------------------------------------------------------------
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) noexcept { memset(c, 0, sizeof(*c)); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) noexcept
{
	if (active && thread_waiters(c)) violation("sync_misuse", "a condition variable is destroyed while a thread waits on it");
	return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, bool timed, uint64_t d)
{
	if (M(m)->owner != self() + 1) violation("sync_misuse", "condition wait without the mutex");
	sync_point();
	if (spurious_wakeups && inject("spurious_wakeup", 1, 40)) {
		// released and reacquired, nobody signalled
		release(m);
		{ nopreempt np; }
		yield_point();
		while (!try_take(m)) thread_wait(m, "mutex", false, 0);
		return 0;
	}
	int depth = M(m)->depth;
	M(m)->depth = 1;
	release(m);
	evn(0x12, (uint64_t)self());
	bool to = thread_wait(c, timed ? "timed condition" : "condition", timed, d);
	while (!try_take(m)) thread_wait(m, "mutex", false, 0);
	M(m)->depth = depth;
	evn(0x13, (uint64_t)self(), to);
	return to ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, false, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return cond_wait(c, m, true, deadline_of(CLOCK_REALTIME, ts)); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* ts) { return cond_wait(c, m, true, deadline_of(id, ts)); }
int pthread_cond_signal(pthread_cond_t* c) noexcept
{
	if (!active) return 0;
	sync_point();
	thread_wake(c, false);
	evn(0x14, (uint64_t)self());
	sync_point();
	return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
	if (!active) return 0;
	sync_point();
	thread_wake(c, true);
	evn(0x15, (uint64_t)self());
	sync_point();
	return 0;
}

// ---- reader/writer locks: glibc's default prefers readers ------------------------------------------------
struct srw { int writer, readers; };
static inline srw* RW(pthread_rwlock_t* l) { return (srw*)l; }
int pthread_rwlock_init(pthread_rwlock_t* l, const pthread_rwlockattr_t*) noexcept { memset(l, 0, sizeof(*l)); return 0; }
int pthread_rwlock_destroy(pthread_rwlock_t* l) noexcept
{
	if (active && (RW(l)->writer || RW(l)->readers)) violation("sync_misuse", "a locked shared mutex is destroyed");
	return 0;
}
static bool rd_try(pthread_rwlock_t* l) { if (RW(l)->writer) return false; ++RW(l)->readers; if (active) race::acquire(l); return true; }
static bool wr_try(pthread_rwlock_t* l) { if (RW(l)->writer || RW(l)->readers) return false; RW(l)->writer = self() + 1; if (active) { race::acquire(l); race::acquire((char*)l + 1); } return true; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept
{
	sync_point();
	if (RW(l)->writer == self() + 1) violation("deadlock", "thread %d read-locks a shared mutex it holds for writing", self());
	while (!rd_try(l)) thread_wait(l, "shared mutex (read)", false, 0);
	evn(0x16, (uint64_t)self());
	return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept
{
	sync_point();
	if (RW(l)->writer == self() + 1) violation("deadlock", "thread %d write-locks a shared mutex it holds", self());
	while (!wr_try(l)) thread_wait(l, "shared mutex (write)", false, 0);
	evn(0x17, (uint64_t)self());
	return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* l) noexcept { sync_point(); return rd_try(l) ? 0 : EBUSY; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* l) noexcept { sync_point(); return wr_try(l) ? 0 : EBUSY; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept
{
	srw* s = RW(l);
	if (s->writer) {
		if (active && s->writer != self() + 1) violation("sync_misuse", "thread %d unlocks a shared mutex held by another thread", self());
		if (active) race::release(l);
		s->writer = 0;
	}
	else if (s->readers) { --s->readers; if (active) race::release((char*)l + 1); }
	else if (active) violation("sync_misuse", "unlock of a shared mutex that is not locked");
	if (active) { thread_wake(l, true); evn(0x18, (uint64_t)self()); sync_point(); }
	return 0;
}

// Function local statics may be initialised while another fiber runs
int __cxa_guard_acquire(uint64_t* g) noexcept
{
	uint8_t* b = (uint8_t*)g;
	while (!b[0]) {
		if (!b[1]) { b[1] = 1; return 1; }
		if (!active) { fprintf(stderr, "recursive static initialisation\n"); _exit(3); }
		yield_point();
	}
	return 0;
}
void __cxa_guard_release(uint64_t* g) noexcept { uint8_t* b = (uint8_t*)g; b[0] = 1; b[1] = 0; }
void __cxa_guard_abort(uint64_t* g) noexcept { uint8_t* b = (uint8_t*)g; b[1] = 0; }
} // extern "C"

// ---- heap with shadow memory ---------------------------------------------------------------------------------
// Inside a run every block comes from an arena that is never reused within the run, so each use
// after free and each overrun of the instrumented code hits poisoned shadow memory.
namespace simheap
{
	static uint8_t* arena, * shadow; // one shadow byte per 16 bytes: number of addressable bytes 0..16, 0xfd freed, 0xfa redzone
	static const size_t arena_size = 256u << 20;
	static size_t top;
	static uint64_t live, seq;
	struct header { size_t size; uint64_t seq; uint32_t magic; uint32_t run; };
	static uint32_t run_no;
	static void setup()
	{
		arena = (uint8_t*)mmap((void*)0x600000000000, arena_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		shadow = (uint8_t*)mmap(nullptr, arena_size / 16, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
		if (arena == MAP_FAILED || shadow == MAP_FAILED) { fprintf(stderr, "arena mmap failed\n"); _exit(3); }
	}
	static inline bool in_arena(const void* p) { return arena && (uint8_t*)p >= arena && (uint8_t*)p < arena + arena_size; }
	static void* get(size_t n, size_t align)
	{
		if (!arena) setup();
		if (align < 16) align = 16;
		size_t p = (top + sizeof(header) + 16 + align - 1) / align * align;
		size_t full = (n + 15) / 16 * 16;
		if (p + full + 32 > arena_size) harness_error("simulated heap exhausted");
		header* h = (header*)(arena + p - sizeof(header));
		h->size = n; h->seq = ++seq; h->magic = 0xa110c8ed; h->run = run_no;
		memset(shadow + p / 16, 16, n / 16);
		if (n % 16) shadow[p / 16 + n / 16] = n % 16;
		top = p + full + 16;
		memset(arena + p, 0xbe, n);
		++live;
		return arena + p;
	}
	static void put(void* p)
	{
		header* h = (header*)((uint8_t*)p - sizeof(header));
		if (h->magic == 0xdeadbeef) { if (active) violation("memory", "double free of a %zu byte block", h->size); return; }
		if (h->magic != 0xa110c8ed) { if (active) violation("memory", "free of an invalid pointer"); return; }
		if (on_free && active) { nopreempt np; on_free(p, h->size); }
		h->magic = 0xdeadbeef;
		size_t o = ((uint8_t*)p - arena) / 16;
		memset(shadow + o, 0xfd, (h->size + 15) / 16);
		if (!h->size) shadow[o] = 0xfd;
		memset(p, 0xdd, h->size);
		if (h->run == run_no) --live;
	}
	void run_begin()
	{
		g_wall_offset = 1700000000000000000ll;
		race::run_begin();
		if (!arena) setup();
		memset(shadow, 0, (top + 15) / 16 + 2); // 0: not addressable
		if (top > (8u << 20)) madvise(arena, top, MADV_DONTNEED);
		top = 0; live = 0; seq = 0; ++run_no;
	}
	void run_end(bool check)
	{
		if (check && live) violation("leak", "%llu heap blocks are still allocated after everything was destroyed", (unsigned long long)live);
	}
	static void bad(const uint8_t* p, size_t n, bool write)
	{
		uint8_t s = shadow[(p - arena) / 16];
		violation("memory", "%s of %zu bytes %s", write ? "write" : "read", n, s == 0xfd ? "in freed memory" : "outside of a heap block");
	}
	static inline void check(const void* a, size_t n, bool write)
	{
		const uint8_t* p = (const uint8_t*)a;
		if (__builtin_expect(!in_arena(p), 1) || !n) return;
		if (!active) return;
		const uint8_t* e = p + n;
		for (const uint8_t* q = (const uint8_t*)((uintptr_t)p & ~(uintptr_t)15); q < e; q += 16) {
			uint8_t s = shadow[(q - arena) / 16];
			size_t need = e - q < 16 ? e - q : 16;
			if (s > 16 || s < need) bad(p, n, write);
		}
	}
}
namespace sim { uint64_t heap_live() { return simheap::live; } }

static void* sim_alloc(size_t n, size_t align)
{
	// Memory of the core (which runs with preemption disabled through core_guard, outside of a run or
	// in a scheduler call) must survive a run: it comes from the process heap.
	return simheap::get(n, align);
}
extern "C" {
void* __real_malloc(size_t);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
void __real_free(void*);
static inline bool use_arena() { return active && g_nopreempt == 0; }
void* __wrap_malloc(size_t n)
{
	if (!use_arena()) return __real_malloc(n);
	if (alloc_should_fail()) { errno = ENOMEM; return nullptr; }
	return sim_alloc(n, 16);
}
void* __wrap_calloc(size_t a, size_t b)
{
	if (!use_arena()) return __real_calloc(a, b);
	if (alloc_should_fail()) { errno = ENOMEM; return nullptr; }
	void* p = sim_alloc(a * b, 16);
	memset(p, 0, a * b);
	return p;
}
void __wrap_free(void* p)
{
	if (!p) return;
	if (simheap::in_arena(p)) simheap::put(p); else __real_free(p);
}
void* __wrap_realloc(void* p, size_t n)
{
	if (!p) return __wrap_malloc(n);
	if (!simheap::in_arena(p)) return __real_realloc(p, n);
	if (alloc_should_fail()) { errno = ENOMEM; return nullptr; }
	size_t old = ((simheap::header*)((uint8_t*)p - sizeof(simheap::header)))->size;
	void* q = sim_alloc(n, 16);
	memcpy(q, p, old < n ? old : n);
	simheap::put(p);
	return q;
}
}
static void* op_new(size_t n, size_t align)
{
	if (!use_arena()) {
		void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : __real_malloc(n ? n : 1);
		if (!p) abort();
		return p;
	}
	if (n > (1ull << 40) || alloc_should_fail()) throw std::bad_alloc();
	return sim_alloc(n, align);
}
static void op_delete(void* p) { if (!p) return; if (simheap::in_arena(p)) simheap::put(p); else __real_free(p); }
void* operator new(size_t n) { return op_new(n, 16); }
void* operator new[](size_t n) { return op_new(n, 16); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return op_new(n, 16); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return op_new(n, 16); } catch (...) { return nullptr; } }
void* operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a); }
void* operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a); }
void operator delete(void* p) noexcept { op_delete(p); }
void operator delete[](void* p) noexcept { op_delete(p); }
void operator delete(void* p, size_t) noexcept { op_delete(p); }
void operator delete[](void* p, size_t) noexcept { op_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { op_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { op_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { op_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { op_delete(p); }

// ---- compiler callbacks ---------------------------------------------------------------------------------------
static inline void touch(const void* p, size_t n, bool write)
{
	if (g_nopreempt | !active) return;
	if (++g_steps > g_step_limit) step_limit_exceeded();
	simheap::check(p, n, write);
	race::access(p, n, write);
	if (--g_countdown == 0) mem_preempt();
}
namespace sim { void touched(const void* p, size_t n, bool write) { touch(p, n, write); sync_point(); } }
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void** p, void*) { touch(p, 8, true); }
void __tsan_vptr_read(void** p) { touch(p, 8, false); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW1(n) \
	void __tsan_read##n(void* p) { touch(p, n, false); } \
	void __tsan_write##n(void* p) { touch(p, n, true); } \
	void __tsan_unaligned_read##n(void* p) { touch(p, n, false); } \
	void __tsan_unaligned_write##n(void* p) { touch(p, n, true); } \
	void __tsan_read_write##n(void* p) { touch(p, n, true); } \
	void __tsan_unaligned_read_write##n(void* p) { touch(p, n, true); } \
	void __tsan_volatile_read##n(void* p) { touch(p, n, false); } \
	void __tsan_volatile_write##n(void* p) { touch(p, n, true); } \
	void __tsan_unaligned_volatile_read##n(void* p) { touch(p, n, false); } \
	void __tsan_unaligned_volatile_write##n(void* p) { touch(p, n, true); }
RW1(1) RW1(2) RW1(4) RW1(8) RW1(16)
void __tsan_read_range(void* p, size_t n) { touch(p, n, false); }
void __tsan_write_range(void* p, size_t n) { touch(p, n, true); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { touch(s, n, false); touch(d, n, true); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { touch(s, n, false); touch(d, n, true); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { touch(d, n, true); return memset(d, c, n); }

static inline void atomic_point(const volatile void* p, size_t n)
{
	if (g_nopreempt | !active) return;
	simheap::check((const void*)p, n, true);
	evn(0x20, (uint64_t)self());
	sync_point();
	if (--g_countdown == 0) mem_preempt();
}
// A plain unlocked implementation: only one fiber executes at a time
#define LD race::atomic_load(a, mo);
#define ST(rmw) race::atomic_store(a, mo, rmw);
#define RMW(bits, T, name, expr) T __tsan_atomic##bits##_##name(volatile T* a, T v, int mo) { atomic_point(a, sizeof(T)); LD T o = *a; *a = (T)(expr); ST(true) return o; }
#define ATOM(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T* a, int mo) { atomic_point(a, sizeof(T)); LD return *a; } \
	void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) { atomic_point(a, sizeof(T)); ST(false) *a = v; } \
	RMW(bits, T, exchange, v) RMW(bits, T, fetch_add, o + v) RMW(bits, T, fetch_sub, o - v) RMW(bits, T, fetch_and, o & v) \
	RMW(bits, T, fetch_or, o | v) RMW(bits, T, fetch_xor, o ^ v) RMW(bits, T, fetch_nand, ~(o & v)) \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) { atomic_point(a, sizeof(T)); if (*a == *c) { LD *a = v; ST(true) return 1; } race::atomic_load(a, fmo); *c = *a; return 0; } \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) { atomic_point(a, sizeof(T)); if (*a == *c) { if (!g_nopreempt && active && inject("weak_cas_failure", 1, 50)) return 0; LD *a = v; ST(true) return 1; } race::atomic_load(a, fmo); *c = *a; return 0; } \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) { atomic_point(a, sizeof(T)); T o = *a; if (o == c) { LD *a = v; ST(true) } else race::atomic_load(a, fmo); return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t) ATOM(128, unsigned __int128)
void __tsan_atomic_thread_fence(int mo) { race::fence(mo); }
void __tsan_atomic_signal_fence(int) {}
}
