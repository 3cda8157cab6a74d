// Simulator core: decision stream, event hash, virtual clock, fiber scheduler, run loop, shrinker.
#include "sim.h"
#include <cxxabi.h>
#include <errno.h>
#include <link.h>
#include <locale.h>
#include <fcntl.h>
#include <limits.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <exception>
#include <map>
#include <new>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <vector>

// ---------------------------------------------------------------------------------------------
// Backdoors to the real kernel (everything named read/write/... in this program may be simulated)
static long rsys_write(int fd, const void* p, size_t n) { return syscall(SYS_write, fd, p, n); }
static uint64_t real_now_ns()
{
	struct timespec ts;
	syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
	return (uint64_t)ts.tv_sec * 1000000000ull + ts.tv_nsec;
}

namespace simk { void run_begin(); void run_end(); }
namespace simheap { void run_begin(); void run_end(bool check_leaks); }

namespace sim
{
	bool verbose = false;
	bool active = false;
	int numa_nodes = 1;
	int (*cpu_of_thread)(int) = nullptr;
	bool check_leaks = true;
	void (*on_free)(const void*, size_t) = nullptr;

	// ---- per run state --------------------------------------------------------------------
	static uint64_t g_rng;
	static std::vector<uint32_t>* g_rec;       // drawn values
	static const std::vector<uint32_t>* g_replay; // values to replay, or null
	static size_t g_replay_pos;
	static uint64_t g_hash, g_sched_hash, g_clock, g_events;
	static bool g_nofaults;
	static uint64_t g_seed;
#if defined(SIM_ASAN)
	constexpr uint64_t default_step_limit = 400000000;
#else
	constexpr uint64_t default_step_limit = 60000000;
#endif
	uint64_t g_steps, g_step_limit;            // memory accesses / basic blocks executed
	int64_t g_countdown;                       // to the next memory level preemption
	int g_nopreempt;
	uint64_t g_alloc_failures;
	uint32_t g_alloc_num, g_alloc_den;

	// ---- process wide statistics --------------------------------------------------------------
	struct counter { const char* kind; uint64_t n; };
	static std::vector<counter>* g_faults, * g_ops;
	static uint64_t g_runs, g_total_clock, g_total_steps, g_total_switches, g_total_preempt, g_total_choices, g_fault_runs;
	static std::unordered_set<uint64_t>* g_hashes, * g_sched_hashes, * g_states;
	static std::map<std::string, uint64_t>* g_scen_runs;
	static uint64_t g_fault_in_run;
	static std::vector<std::string>* g_samples;
	static std::string* g_log;                 // textual log of the run (only when capturing)
	static bool g_capture;
	static const char* g_scen_name = "";
	static const char* g_report_path = nullptr;
	static const size_t hash_cap = 3000000;

	// libstdc++ containers of the core must never be preempted
	struct core_guard { core_guard() { ++g_nopreempt; } ~core_guard() { --g_nopreempt; } };
	nopreempt::nopreempt() { ++g_nopreempt; }
	nopreempt::~nopreempt() { --g_nopreempt; }
	preemptible::preemptible() { --g_nopreempt; }
	preemptible::~preemptible() { ++g_nopreempt; }

	static uint64_t rng_next()
	{
		g_rng += 0x9e3779b97f4a7c15ull;
		uint64_t z = g_rng;
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}

	static uint32_t draw(uint32_t n, uint64_t r)
	{
		core_guard g;
		uint32_t v;
		if (g_replay) {
			v = g_replay_pos < g_replay->size() ? (*g_replay)[g_replay_pos] : 0;
			++g_replay_pos;
			if (v >= n) v = n - 1;
		}
		else
			v = (uint32_t)(r % n);
		if (g_rec->size() >= 4000000)
			violation("no_end", "the run does not end: it took %zu decisions so far", g_rec->size());
		g_rec->push_back(v);
		return v;
	}

	uint32_t choose(uint32_t n)
	{
		if (n <= 1) return 0;
		return draw(n, g_replay ? 0 : rng_next() >> 11);
	}

	bool chance(uint32_t num, uint32_t den)
	{
		if (!num) return false;
		uint64_t r = g_replay ? 0 : ((rng_next() >> 11) % den < num ? 1 : 0);
		return draw(2, r) != 0;
	}

	uint32_t size(uint32_t max)
	{
		uint32_t v;
		switch (choose(8)) {
		case 0: case 1: case 2: v = choose(17); break;
		case 3: case 4: v = choose(65); break;
		case 5: v = choose(301); break;
		case 6: v = (1u << choose(17)); v += choose(3); v -= 1; break;
		default: v = choose(max + 1);
		}
		return v > max ? max : v;
	}

	// ---- events -----------------------------------------------------------------------------
	static inline uint64_t hmix(uint64_t h, uint64_t v)
	{
		h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
		h *= 0xff51afd7ed558ccdull;
		return h ^ (h >> 33);
	}

	static void log_line(const char* s)
	{
		if (verbose) {
			rsys_write(2, s, strlen(s));
			rsys_write(2, "\n", 1);
		}
		if (g_capture && g_log->size() < 200000) {
			g_log->append(s);
			g_log->push_back('\n');
		}
	}

	void ev(const char* fmt, ...)
	{
		core_guard g;
		char buf[512];
		va_list ap;
		va_start(ap, fmt);
		int n = vsnprintf(buf, sizeof(buf), fmt, ap);
		va_end(ap);
		if (n < 0) n = 0;
		if (n >= (int)sizeof(buf)) n = sizeof(buf) - 1;
		uint64_t h = 1469598103934665603ull;
		for (int i = 0; i < n; ++i) h = (h ^ (uint8_t)buf[i]) * 1099511628211ull;
		g_hash = hmix(g_hash, h);
		++g_events;
		if (verbose || g_capture) {
			char line[600];
			snprintf(line, sizeof(line), "[%3d] %8.3fms  %s", self(), g_clock / 1e6, buf);
			log_line(line);
		}
	}

	// Printed, not hashed
	static void note(const char* fmt, ...)
	{
		if (!verbose && !g_capture) return;
		core_guard g;
		char buf[400], line[500];
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(buf, sizeof(buf), fmt, ap);
		va_end(ap);
		snprintf(line, sizeof(line), "[%3d] %8.3fms  %s", self(), g_clock / 1e6, buf);
		log_line(line);
	}

	void evn(uint32_t code, uint64_t a, uint64_t b)
	{
		g_hash = hmix(hmix(hmix(g_hash, code), a), b);
		++g_events;
	}

	void state(uint64_t h)
	{
		core_guard g;
		if (g_states->size() < hash_cap) g_states->insert(h);
	}

	static void bump(std::vector<counter>* v, const char* kind)
	{
		for (auto& c : *v)
			if (c.kind == kind || !strcmp(c.kind, kind)) { ++c.n; return; }
		v->push_back({ kind, 1 });
	}

	void count_fault(const char* kind)
	{
		core_guard g;
		bump(g_faults, kind);
		++g_fault_in_run;
		note("FAULT %s", kind);
		uint64_t h = 7;
		for (const char* p = kind; *p; ++p) h = h * 131 + *p;
		evn(0xfa, h);
	}
	void count_op(const char* kind) { core_guard g; bump(g_ops, kind); }

	bool inject(const char* kind, uint32_t num, uint32_t den)
	{
		if (g_nofaults || !num) return false;
		if (!chance(num, den)) return false;
		count_fault(kind);
		return true;
	}
	bool faults_stopped() { return g_nofaults; }
	void stop_faults(bool stop) { g_nofaults = stop; }

	uint64_t now_ns() { return g_clock; }
	void advance(uint64_t ns) { g_clock += ns; }
	uint64_t steps() { return g_steps; }
	void set_step_limit(uint64_t n) { g_step_limit = g_steps + n; }

	// ---- verdicts -----------------------------------------------------------------------------
	static void json_str(std::string& out, const char* s)
	{
		out.push_back('"');
		for (; *s; ++s) {
			unsigned char c = (unsigned char)*s;
			if (c == '"' || c == '\\') { out.push_back('\\'); out.push_back((char)c); }
			else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); out += b; }
			else out.push_back((char)c);
		}
		out.push_back('"');
	}

	static bool g_reporting;
	static char g_vmsg[1024], g_vcls[64];
	static int g_child_pipe = -1; // shrinker child

	static void report_and_exit(int code)
	{
		if (g_reporting) _exit(code);
		g_reporting = true;
		++g_nopreempt;
		active = false;
		struct itimerval off = {};
		setitimer(ITIMER_VIRTUAL, &off, nullptr);
		std::string j = "{\"property\":";
		json_str(j, property);
		j += ",\"scenario\":"; json_str(j, g_scen_name);
		char b[160];
		snprintf(b, sizeof(b), ",\"seed\":%llu,\"class\":", (unsigned long long)g_seed); j += b;
		json_str(j, g_vcls);
		j += ",\"message\":"; json_str(j, g_vmsg);
		snprintf(b, sizeof(b), ",\"log_hash\":\"%016llx\",\"events\":%llu,\"clock_ns\":%llu", (unsigned long long)g_hash, (unsigned long long)g_events, (unsigned long long)g_clock); j += b;
		j += ",\"choices\":[";
		size_t n = g_rec->size();
		for (size_t i = 0; i < n; ++i) {
			snprintf(b, sizeof(b), i ? ",%u" : "%u", (*g_rec)[i]);
			j += b;
		}
		j += "]";
		if (g_capture) { j += ",\"trace\":"; json_str(j, g_log->c_str()); }
		j += "}\n";
		int fd = 1;
		if (g_child_pipe >= 0) fd = g_child_pipe;
		else if (g_report_path) fd = (int)syscall(SYS_open, g_report_path, O_CREAT | O_TRUNC | O_WRONLY, 0644);
		size_t off2 = 0;
		while (off2 < j.size()) {
			long k = rsys_write(fd, j.data() + off2, j.size() - off2);
			if (k <= 0) break;
			off2 += k;
		}
		if (verbose) fprintf(stderr, "VIOLATION class=%s %s\n", g_vcls, g_vmsg);
		_exit(code);
	}

	void violation(const char* cls, const char* fmt, ...)
	{
		++g_nopreempt;
		va_list ap;
		va_start(ap, fmt);
		vsnprintf(g_vmsg, sizeof(g_vmsg), fmt, ap);
		va_end(ap);
		snprintf(g_vcls, sizeof(g_vcls), "%s", cls);
		if (!active) { fprintf(stderr, "violation outside a run: %s %s\n", cls, g_vmsg); _exit(3); }
		report_and_exit(10);
		__builtin_unreachable();
	}

	void harness_error(const char* fmt, ...)
	{
		va_list ap;
		va_start(ap, fmt);
		fprintf(stderr, "HARNESS ERROR (property %s scenario %s seed %llu): ", property, g_scen_name, (unsigned long long)g_seed);
		vfprintf(stderr, fmt, ap);
		fprintf(stderr, "\n");
		va_end(ap);
		_exit(3);
	}

	static void on_signal(int sig)
	{
		if (!active) {
			static const char m[] = "signal outside a run\n";
			rsys_write(2, m, sizeof(m) - 1);
			_exit(3);
		}
		if (sig == SIGVTALRM) { snprintf(g_vcls, sizeof(g_vcls), "hang"); snprintf(g_vmsg, sizeof(g_vmsg), "run does not terminate (CPU limit)"); }
		else { snprintf(g_vcls, sizeof(g_vcls), "crash"); snprintf(g_vmsg, sizeof(g_vmsg), "signal %d (%s)", sig, sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGTRAP ? "SIGTRAP" : "SIGBUS"); }
		report_and_exit(10);
	}

	static void on_terminate()
	{
		const char* what = "terminate without an exception";
		static char b[300];
		if (auto p = std::current_exception()) {
			try { std::rethrow_exception(p); }
			catch (const std::exception& e) { snprintf(b, sizeof(b), "%s: %s", typeid(e).name(), e.what()); what = b; }
			catch (...) { what = "unknown exception"; }
		}
		if (!active) { fprintf(stderr, "terminate outside a run: %s\n", what); _exit(3); }
		violation("terminate", "std::terminate: %s", what);
	}

	void step_limit_exceeded()
	{
		if (!active) return;
		violation("stalled", "no completion within %llu execution steps", (unsigned long long)g_step_limit);
	}

	// ---- fibers ----------------------------------------------------------------------------------
	struct fiber {
		int id = 0;
		void* sp = nullptr;
		uint8_t* stack = nullptr;
		uint64_t eh[2] = { 0, 0 };
		void* (*fn)(void*) = nullptr;
		void* arg = nullptr;
		void* ret = nullptr;
		bool done = false, detached = false, joined = false;
		const void* wait_on = nullptr;   // blocked on this address
		const char* why = "";
		bool timed = false, timed_out = false, woken = false, sleeping = false;
		uint64_t deadline = 0;
		uint64_t priority = 0;
		uint64_t solo = 0;               // consecutive sync points without giving the CPU away
		int np = 1;                      // saved preemption guard depth
		int err = 0;                     // errno
		locale_t loc = LC_GLOBAL_LOCALE; // of this thread
		std::vector<uint8_t> tls;        // thread-local variables of the program
	};
	static std::vector<fiber*>* g_fibers;
	static fiber* g_cur;
	static std::vector<uint8_t*>* g_stacks;
	static const size_t stack_size = 256 * 1024;
	static uint32_t g_mode;          // schedule mode
	static uint32_t g_sync_preempt;  // mean sync points between preemptions; 0 = never
	static uint32_t g_mem_preempt;   // mean accesses between preemptions; 0 = never
	static uint64_t g_sync_countdown;
	static uint64_t g_switches, g_preempts;
	static bool g_pct;
	static uint64_t g_lowest;        // below every priority given so far: a thread that gives way goes last
	static uint32_t g_stall_num;     // stalls per 1000 switches

	// All fibers run on one thread of the system: its thread-local variables are exchanged when switching
	struct tls_t {
		uint8_t* at = nullptr;
		const uint8_t* init = nullptr;
		size_t size = 0, filled = 0;
		tls_t()
		{
			dl_iterate_phdr([](struct dl_phdr_info* i, size_t, void* p) {
				for (unsigned k = 0; k < i->dlpi_phnum; ++k) {
					auto& h = i->dlpi_phdr[k];
					if (h.p_type != PT_TLS || !h.p_memsz || !i->dlpi_tls_data) continue;
					tls_t* t = (tls_t*)p;
					t->at = (uint8_t*)i->dlpi_tls_data;
					t->init = (const uint8_t*)(i->dlpi_addr + h.p_vaddr);
					t->size = h.p_memsz;
					t->filled = h.p_filesz;
				}
				return 1; // the program comes first
			}, this);
		}
		void reset(std::vector<uint8_t>& v) const { v.assign(size, 0); if (filled) memcpy(v.data(), init, filled); }
	};
	static bool g_switched; // threads took turns since thread-local state was last that of a fresh main thread
	static const tls_t& tls() { static const tls_t t; return t; }

	int self() { return g_cur ? g_cur->id : 0; }

	extern "C" void sim_switch(void** save_sp, void* load_sp);
	asm(R"(
	.text
	.globl sim_switch
	.type sim_switch,@function
sim_switch:
	pushq %rbp
	pushq %rbx
	pushq %r12
	pushq %r13
	pushq %r14
	pushq %r15
	movq %rsp, (%rdi)
	movq %rsi, %rsp
	popq %r15
	popq %r14
	popq %r13
	popq %r12
	popq %rbx
	popq %rbp
	ret
	.size sim_switch,.-sim_switch
	)");

	static fiber* pick(bool preempting);
	static void switch_to(fiber* f);

	static uint64_t draw_skip(uint32_t mean)
	{
		// 0 = far away; otherwise a roughly geometric distance
		if (!mean) return UINT64_MAX / 4;
		uint32_t v = choose(2 * mean + 1);
		return v ? v : UINT64_MAX / 4;
	}

	static void fiber_main()
	{
		fiber* f = g_cur;
		--g_nopreempt;
		f->ret = f->fn(f->arg);
		++g_nopreempt;
		f->done = true;
		evn(0x7d, f->id);
		note("thread %d exits", f->id);
		for (auto o : *g_fibers)
			if (o->wait_on == f) { o->wait_on = nullptr; o->woken = true; }
		for (;;) {
			fiber* n = pick(false);
			switch_to(n);
			harness_error("finished fiber resumed");
		}
	}

	static fiber* new_fiber(void* (*fn)(void*), void* arg)
	{
		fiber* f = new fiber;
		f->id = (int)g_fibers->size();
		g_fibers->push_back(f);
		if (fn) {
			if (!g_stacks->empty()) { f->stack = g_stacks->back(); g_stacks->pop_back(); }
			else {
				f->stack = (uint8_t*)mmap(nullptr, stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
				if (f->stack == MAP_FAILED) harness_error("mmap of a fiber stack failed");
				mprotect(f->stack, 4096, PROT_NONE);
			}
			f->fn = fn;
			f->arg = arg;
			tls().reset(f->tls);
			uint64_t* sp = (uint64_t*)(f->stack + stack_size);
			*--sp = 0;
			*--sp = (uint64_t)(void*)&fiber_main; // ret address
			for (int i = 0; i < 6; ++i) *--sp = 0;
			f->sp = sp;
		}
		if (g_pct) f->priority = 600000 + choose(1000);
		return f;
	}

	static void expire_timers()
	{
		for (auto f : *g_fibers)
			if (!f->done && f->timed && f->deadline <= g_clock && f->wait_on) {
				f->wait_on = nullptr; f->timed_out = true;
			}
	}

	static bool runnable(fiber* f) { return !f->done && !f->wait_on; }

	static uint64_t g_timer_window; // timers that are this close fire in any order

	static fiber* pick(bool preempting)
	{
		g_clock += 1000; // every scheduling decision costs 1us
		expire_timers();
		fiber* cand[256];
		for (;;) {
			unsigned n = 0;
			for (auto f : *g_fibers)
				if (runnable(f) && !(preempting && f == g_cur)) { if (n < 256) cand[n++] = f; }
			if (n) {
				fiber* r;
				if (g_pct) {
					r = cand[0];
					for (unsigned i = 1; i < n; ++i) if (cand[i]->priority > r->priority) r = cand[i];
				}
				else
					r = cand[choose(n)];
				return r;
			}
			if (preempting) return g_cur;
			// Everyone is blocked: virtual time passes until the next timer.
			uint64_t next = UINT64_MAX;
			for (auto f : *g_fibers)
				if (!f->done && f->wait_on && f->timed && f->deadline < next) next = f->deadline;
			if (next == UINT64_MAX) {
				std::string s;
				for (auto f : *g_fibers)
					if (!f->done) { char b[120]; snprintf(b, sizeof(b), " thread %d waits for %s;", f->id, f->why); s += b; }
				violation("deadlock", "all threads are blocked:%s", s.c_str());
			}
			g_clock = next > g_clock ? next : g_clock;
			expire_timers();
		}
	}

	static void switch_to(fiber* f)
	{
		if (f == g_cur) return;
		++g_switches;
		fiber* o = g_cur;
		auto eh = (uint64_t*)abi::__cxa_get_globals();
		o->eh[0] = eh[0]; o->eh[1] = eh[1];
		eh[0] = f->eh[0]; eh[1] = f->eh[1];
		o->np = g_nopreempt;
		g_nopreempt = f->np;
		o->err = errno;
		errno = f->err;
		o->loc = uselocale(f->loc);
		g_switched = true;
		if (auto& t = tls(); t.size) {
			o->tls.assign(t.at, t.at + t.size);
			memcpy(t.at, f->tls.data(), t.size);
		}
		g_cur = f;
		g_sched_hash = hmix(hmix(g_sched_hash, (uint64_t)f->id + 1), g_steps);
		evn(0x51, f->id);
		f->solo = 0;
		sim_switch(&o->sp, f->sp);
	}

	static void block(const void* on, const char* why, bool timed, uint64_t deadline)
	{
		core_guard g;
		fiber* f = g_cur;
		f->wait_on = on;
		f->why = why;
		f->timed = timed;
		f->deadline = deadline;
		f->timed_out = f->woken = false;
		fiber* n = pick(false);
		switch_to(n);
		f->timed = false;
	}

	static void preempt(bool forced)
	{
		core_guard g;
		fiber* f = g_cur;
		unsigned n = 0;
		expire_timers();
		for (auto o : *g_fibers) if (o != f && runnable(o)) ++n;
		if (!n) { g_clock += 1000; return; }
		if (g_pct) f->priority = forced ? --g_lowest : 500000 + choose(1000); // a change point lowers the priority of the running thread
		if (!forced && g_stall_num && !g_nofaults && chance(g_stall_num, 1000)) {
			// slow or stalled node: the running thread loses the CPU for a long time
			static const uint64_t d[] = { 50000, 1000000, 20000000, 300000000 };
			count_fault("thread_stall");
			static const char stall = 0;
			f->wait_on = &stall; f->why = "stall"; f->timed = true; f->deadline = g_clock + d[choose(4)];
			f->timed_out = f->woken = false;
			++g_preempts;
			switch_to(pick(false));
			f->timed = false;
			return;
		}
		++g_preempts;
		switch_to(pick(true));
	}

	// A synchronisation operation of the running thread is about to happen.
	void sync_point()
	{
		if (!active || g_nopreempt) return;
		fiber* f = g_cur;
		++g_steps;
		if (g_steps > g_step_limit) step_limit_exceeded();
		if (++f->solo > 400) { f->solo = 0; g_clock += 10000000; preempt(true); return; } // fairness: a spinning thread neither starves the others nor stops time
		if (--g_sync_countdown == 0) {
			preempt(false);
			core_guard g;
			g_sync_countdown = draw_skip(g_sync_preempt);
		}
	}

	void mem_preempt()
	{
		if (!active || g_nopreempt) { g_countdown = 50; return; }
		{ core_guard g; g_countdown = (int64_t)draw_skip(g_mem_preempt); }
		preempt(false);
	}

	void yield_point() { if (active && !g_nopreempt) preempt(true); }
	int threads_alive()
	{
		core_guard g;
		int n = 0;
		for (auto f : *g_fibers) if (f->id && !f->done) ++n;
		return n;
	}
	bool thread_blocked(int id) { core_guard g; return (size_t)id < g_fibers->size() && (*g_fibers)[id]->wait_on; }
	static const char k_sleep = 0;
	void sleep_ns(uint64_t ns)
	{
		if (!active) return;
		block(&k_sleep, "sleep", true, g_clock + ns);
	}

	void set_schedule(uint32_t mode)
	{
		core_guard g;
		g_mode = mode ? mode : 1 + choose(8);
		g_pct = false; g_lowest = 500000; g_sync_preempt = 0; g_mem_preempt = 0; g_stall_num = 0;
		switch (g_mode) {
		case 1: break;                                             // switches at blocking operations only
		case 2: g_sync_preempt = 3; break;
		case 3: g_sync_preempt = 20; g_stall_num = 30; break;
		case 4: g_mem_preempt = 8; break;
		case 5: g_mem_preempt = 100; g_sync_preempt = 10; break;
		case 6: g_mem_preempt = 1000; g_stall_num = 100; break;
		case 7: g_pct = true; g_sync_preempt = 60; g_mem_preempt = 400; break;
		case 8: g_sync_preempt = 1; break;
		}
		g_sync_countdown = draw_skip(g_sync_preempt);
		g_countdown = (int64_t)draw_skip(g_mem_preempt);
		if (g_pct) for (auto f : *g_fibers) f->priority = 600000 + choose(1000);
		ev("schedule mode %u", g_mode);
	}

	// ---- allocation faults -----------------------------------------------------------------------
	alloc_faults::alloc_faults(uint32_t num, uint32_t den) : m_start(g_alloc_failures) { g_alloc_num = num; g_alloc_den = den; }
	alloc_faults::~alloc_faults() { g_alloc_num = 0; }
	uint64_t alloc_faults::fired() const { return g_alloc_failures - m_start; }
	uint64_t alloc_failures() { return g_alloc_failures; }
	bool alloc_should_fail()
	{
		if (!active || !g_alloc_num || g_nofaults || g_nopreempt) return false;
		uint32_t num = g_alloc_num;
		g_alloc_num = 0;
		bool f = inject("alloc_failure", num, g_alloc_den);
		g_alloc_num = num;
		if (f) ++g_alloc_failures;
		return f;
	}

	// ---- one run -----------------------------------------------------------------------------------
	static scenario* g_forced;
	static scenario* pick_scenario()
	{
		if (g_forced) return g_forced;
		uint32_t total = 0;
		for (unsigned i = 0; i < n_scenarios; ++i) total += scenarios[i].weight;
		uint32_t v = choose(total);
		for (unsigned i = 0; i < n_scenarios; ++i) {
			if (v < scenarios[i].weight) return &scenarios[i];
			v -= scenarios[i].weight;
		}
		return &scenarios[0];
	}

	static void arm_cpu_limit(int seconds)
	{
		struct itimerval it = {};
		it.it_value.tv_sec = seconds;
		setitimer(ITIMER_VIRTUAL, &it, nullptr);
	}

	static void run_one(uint64_t seed, const std::vector<uint32_t>* replay)
	{
		++g_nopreempt;
		g_seed = seed;
		g_rng = mix(seed ^ 0x5eed5eed);
		g_replay = replay; g_replay_pos = 0;
		g_rec->clear();
		g_hash = 0x1234; g_sched_hash = 0x99; g_clock = 1000000000ull; g_events = 0;
		g_nofaults = false; g_steps = 0; g_step_limit = default_step_limit; g_fault_in_run = 0;
		g_countdown = INT64_MAX / 4; g_sync_countdown = UINT64_MAX / 4;
		g_switches = g_preempts = 0; g_pct = false; g_stall_num = 0; g_sync_preempt = g_mem_preempt = 0;
		g_alloc_failures = 0; g_alloc_num = 0;
		numa_nodes = 1; cpu_of_thread = nullptr; check_leaks = true; on_free = nullptr;
		g_log->clear();
		g_fibers->clear();
		g_cur = new_fiber(nullptr, nullptr);
		if (g_switched) {
			if (auto& t = tls(); t.size) { tls().reset(g_cur->tls); memcpy(t.at, g_cur->tls.data(), t.size); }
			uselocale(LC_GLOBAL_LOCALE);
			errno = 0;
			g_switched = false;
		}
		simk::run_begin();
		simheap::run_begin();
		scenario* s = pick_scenario();
		g_scen_name = s->name;
		note("scenario %s", s->name);
		active = true;
		--g_nopreempt;
		try { s->fn(); }
		catch (const std::exception& e) { violation("exception", "unexpected exception %s: %s", typeid(e).name(), e.what()); }
		catch (...) { violation("exception", "unexpected exception"); }
		++g_nopreempt;
		for (auto f : *g_fibers)
			if (f->id && !f->done && !f->detached) violation("thread_leak", "thread %d still runs (%s) after everything was destroyed", f->id, f->wait_on ? f->why : "runnable");
		simheap::run_end(check_leaks);
		simk::run_end();
		active = false;
		for (auto f : *g_fibers) {
			if (f->stack) g_stacks->push_back(f->stack);
			delete f;
		}
		g_fibers->clear();
		g_cur = nullptr;
		++g_runs;
		g_total_clock += g_clock - 1000000000ull;
		g_total_steps += g_steps;
		g_total_switches += g_switches;
		g_total_preempt += g_preempts;
		g_total_choices += g_rec->size();
		if (g_fault_in_run) ++g_fault_runs;
		++(*g_scen_runs)[s->name];
		if (g_hashes->size() < hash_cap) g_hashes->insert(g_hash);
		if (g_sched_hashes->size() < hash_cap && g_switches) g_sched_hashes->insert(g_sched_hash);
		--g_nopreempt;
	}

	static std::string read_file(const char* path)
	{
		std::string s;
		int fd = (int)syscall(SYS_open, path, O_RDONLY, 0);
		if (fd < 0) { fprintf(stderr, "cannot open %s\n", path); _exit(3); }
		char b[65536];
		long n;
		while ((n = syscall(SYS_read, fd, b, sizeof(b))) > 0) s.append(b, n);
		syscall(SYS_close, fd);
		return s;
	}

	static std::vector<uint32_t> parse_choices(const std::string& s)
	{
		std::vector<uint32_t> r;
		auto p = s.find("\"choices\":[");
		if (p == std::string::npos) { p = s.find("\"choices\": ["); if (p == std::string::npos) { fprintf(stderr, "no choices in replay file\n"); _exit(3); } }
		p = s.find('[', p) + 1;
		while (p < s.size() && s[p] != ']') {
			if (s[p] >= '0' && s[p] <= '9') { char* e; r.push_back((uint32_t)strtoul(s.c_str() + p, &e, 10)); p = e - s.c_str(); }
			else ++p;
		}
		return r;
	}

	static std::string json_field(const std::string& s, const char* key)
	{
		std::string k = std::string("\"") + key + "\":";
		auto p = s.find(k);
		if (p == std::string::npos) return "";
		p += k.size();
		while (p < s.size() && s[p] == ' ') ++p;
		if (s[p] == '"') {
			auto e = p + 1;
			while (e < s.size() && s[e] != '"') e += s[e] == '\\' ? 2 : 1;
			return s.substr(p + 1, e - p - 1);
		}
		auto e = s.find_first_of(",}", p);
		return s.substr(p, e - p);
	}

	// Runs the decisions in a forked child. Returns the report ("" when no violation).
	static std::string try_child(const std::vector<uint32_t>& c, uint64_t seed, int cpu_s, bool capture)
	{
		int pfd[2];
		if (pipe(pfd)) { perror("pipe"); _exit(3); }
		pid_t pid = (pid_t)fork();
		if (!pid) {
			syscall(SYS_close, pfd[0]);
			g_child_pipe = pfd[1];
			g_capture = capture;
			arm_cpu_limit(cpu_s);
			run_one(seed, &c);
			_exit(0);
		}
		syscall(SYS_close, pfd[1]);
		std::string r;
		char b[65536];
		long n;
		while ((n = syscall(SYS_read, pfd[0], b, sizeof(b))) > 0) r.append(b, n);
		syscall(SYS_close, pfd[0]);
		int st;
		waitpid(pid, &st, 0);
		return r;
	}

	static int shrink(const char* in, const char* out, double max_s)
	{
		std::string s = read_file(in);
		auto best = parse_choices(s);
		std::string cls = json_field(s, "class"), scen = json_field(s, "scenario");
		uint64_t seed = strtoull(json_field(s, "seed").c_str(), nullptr, 10);
		uint64_t t0 = real_now_ns();
		auto expired = [&] { return (real_now_ns() - t0) / 1e9 > max_s; };
		unsigned tries = 0;
		auto test = [&](const std::vector<uint32_t>& c) {
			if (expired()) return false;
			++tries;
			std::string r = try_child(c, seed, 20, false);
			if (r.empty()) return false;
			if (json_field(r, "class") != cls || json_field(r, "scenario") != scen) return false;
			auto used = parse_choices(r);
			best = used.size() <= c.size() ? used : c; // what was really consumed
			while (!best.empty() && best.back() == 0) best.pop_back();
			return true;
		};
		size_t orig = best.size();
		if (!test(best)) { fprintf(stderr, "shrink: the original trace does not reproduce\n"); return 4; }
		bool improved = true;
		while (improved && !expired()) {
			improved = false;
			// drop or zero chunks, from large to small
			for (size_t len = std::max<size_t>(1, best.size() / 2);; len /= 2) {
				for (size_t i = 0; i < best.size() && !expired();) {
					size_t e = std::min(best.size(), i + len);
					std::vector<uint32_t> c(best.begin(), best.begin() + i);
					c.insert(c.end(), best.begin() + e, best.end());
					size_t before = best.size();
					if (test(c) ) { improved = true; if (best.size() >= before) i = e; continue; }
					bool nz = false;
					c = best;
					for (size_t k = i; k < e; ++k) { if (c[k]) nz = true; c[k] = 0; }
					if (nz && test(c)) { improved = true; }
					i = e;
				}
				if (len == 1) break;
			}
			for (size_t i = 0; i < best.size() && !expired(); ++i)
				while (i < best.size() && best[i] > 1) { // smaller values
					auto c = best;
					c[i] = best[i] / 2;
					if (!test(c)) {
						if (best.size() <= i || best[i] > 64) break;
						c = best; c[i] -= 1;
						if (!test(c)) break;
					}
					improved = true;
				}
		}
		std::string r = try_child(best, seed, 20, true);
		if (json_field(r, "class") != cls) { fprintf(stderr, "shrink: lost the violation\n"); return 4; }
		FILE* f = fopen(out, "w");
		if (!f) { perror(out); return 3; }
		fwrite(r.data(), 1, r.size(), f);
		fclose(f);
		printf("{\"original_choices\":%zu,\"minimised_choices\":%zu,\"executions\":%u}\n", orig, best.size(), tries);
		return 0;
	}

	static void write_hashes(const char* path, const char* ext, const std::unordered_set<uint64_t>& h)
	{
		std::string p = std::string(path) + ext;
		FILE* f = fopen(p.c_str(), "wb");
		if (!f) { perror(p.c_str()); _exit(3); }
		for (uint64_t v : h) fwrite(&v, 8, 1, f);
		fclose(f);
	}

	int sim_main(int argc, char** argv)
	{
		// Same address space layout in every process: addresses never influence a run
		int pers = personality(0xffffffff);
		if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_ASLR_TRIED")) {
			setenv("SIM_NO_ASLR_TRIED", "1", 1);
			if (personality(pers | ADDR_NO_RANDOMIZE) >= 0)
				execv("/proc/self/exe", argv);
		}
		g_rec = new std::vector<uint32_t>; g_faults = new std::vector<counter>; g_ops = new std::vector<counter>;
		g_hashes = new std::unordered_set<uint64_t>; g_sched_hashes = new std::unordered_set<uint64_t>; g_states = new std::unordered_set<uint64_t>;
		g_scen_runs = new std::map<std::string, uint64_t>; g_log = new std::string; g_fibers = new std::vector<fiber*>; g_stacks = new std::vector<uint8_t*>;
		g_samples = new std::vector<std::string>;
		g_rec->reserve(1 << 16);
		std::set_terminate(on_terminate);
		static uint8_t altstack[65536];
		stack_t ss = {};
		ss.ss_sp = altstack; ss.ss_size = sizeof(altstack);
		sigaltstack(&ss, nullptr);
		for (int sig : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGTRAP, SIGABRT, SIGVTALRM }) {
			struct sigaction sa = {};
			sa.sa_handler = on_signal;
			sa.sa_flags = SA_ONSTACK | SA_NODEFER;
			sigaction(sig, &sa, nullptr);
		}
		const char* replay = nullptr, * shrink_in = nullptr, * stats = nullptr, * hashes = nullptr;
		const char* shrink_out = "/dev/null";
		const char* dump_hashes = nullptr, * known = nullptr;
		uint64_t seed = 0, count = UINT64_MAX, stride = 1, first = 0;
		double seconds = 5, shrink_s = 60;
		bool single = false;
		for (int i = 1; i < argc; ++i) {
			std::string a = argv[i];
			auto val = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
			if (a == "--seed") { seed = strtoull(val(), nullptr, 10); single = true; }
			else if (a == "--first") first = strtoull(val(), nullptr, 10);
			else if (a == "--stride") stride = strtoull(val(), nullptr, 10);
			else if (a == "--count") count = strtoull(val(), nullptr, 10);
			else if (a == "--time") seconds = atof(val());
			else if (a == "--replay") replay = val();
			else if (a == "--shrink") { shrink_in = val(); shrink_out = val(); }
			else if (a == "--shrink-time") shrink_s = atof(val());
			else if (a == "--report") g_report_path = val();
			else if (a == "--stats") stats = val();
			else if (a == "--hashes") hashes = val();
			else if (a == "--known") known = val();
			else if (a == "--dump") dump_hashes = val();
			else if (a == "--verbose") verbose = true;
			else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
		}
		if (shrink_in) return shrink(shrink_in, shrink_out, shrink_s);
		if (replay) {
			std::string s = read_file(replay);
			auto c = parse_choices(s);
			seed = strtoull(json_field(s, "seed").c_str(), nullptr, 10);
			g_capture = true;
			arm_cpu_limit(60);
			run_one(seed, &c);
			printf("{\"violation\":null,\"log_hash\":\"%016llx\"}\n", (unsigned long long)g_hash);
			return 0;
		}
		if (known) { // scenario of this name alone, decisions all benign
			for (unsigned i = 0; i < n_scenarios; ++i)
				if (!strcmp(scenarios[i].name, known)) {
					std::vector<uint32_t> none;
					g_forced = &scenarios[i];
					arm_cpu_limit(60);
					run_one(0, &none);
					return 0;
				}
			fprintf(stderr, "no such scenario\n");
			return 3;
		}
		if (single) {
			arm_cpu_limit(60);
			g_capture = g_report_path != nullptr;
			run_one(seed, nullptr);
			printf("{\"seed\":%llu,\"scenario\":\"%s\",\"log_hash\":\"%016llx\",\"choices\":%zu,\"events\":%llu,\"switches\":%llu,\"steps\":%llu,\"clock_ns\":%llu}\n", (unsigned long long)seed, g_scen_name, (unsigned long long)g_hash, g_rec->size(), (unsigned long long)g_events, (unsigned long long)g_switches, (unsigned long long)g_steps, (unsigned long long)g_clock);
			return 0;
		}
		FILE* dump = dump_hashes ? fopen(dump_hashes, "w") : nullptr;
		uint64_t t0 = real_now_ns();
		uint64_t k = 0;
		for (; k < count; ++k) {
			if ((k & 7) == 0) {
				if ((real_now_ns() - t0) / 1e9 > seconds) break;
				arm_cpu_limit(60);
			}
			bool sample = k < 2;
			g_capture = sample;
			run_one(first + k * stride, nullptr);
			if (sample) {
				std::string t = g_log->substr(0, 3000);
				g_samples->push_back(t);
			}
			if (dump) fprintf(dump, "%llu %016llx\n", (unsigned long long)g_seed, (unsigned long long)g_hash);
		}
		arm_cpu_limit(0);
		if (dump) fclose(dump);
		if (stats) {
			FILE* f = fopen(stats, "w");
			if (!f) { perror(stats); return 3; }
			std::string j = "{\"property\":";
			json_str(j, property);
			char b[400];
			snprintf(b, sizeof(b), ",\"runs\":%llu,\"wall_s\":%.3f,\"sim_ns\":%llu,\"steps\":%llu,\"switches\":%llu,\"preemptions\":%llu,\"choices\":%llu,\"fault_runs\":%llu,\"distinct_logs\":%zu,\"distinct_schedules\":%zu,\"states\":%zu",
				(unsigned long long)g_runs, (real_now_ns() - t0) / 1e9, (unsigned long long)g_total_clock, (unsigned long long)g_total_steps, (unsigned long long)g_total_switches, (unsigned long long)g_total_preempt, (unsigned long long)g_total_choices, (unsigned long long)g_fault_runs, g_hashes->size(), g_sched_hashes->size(), g_states->size());
			j += b;
			auto dump_counters = [&](const char* name, std::vector<counter>* v) {
				j += ",\""; j += name; j += "\":{";
				bool c = false;
				for (auto& x : *v) { if (c) j += ","; c = true; json_str(j, x.kind); snprintf(b, sizeof(b), ":%llu", (unsigned long long)x.n); j += b; }
				j += "}";
			};
			dump_counters("faults", g_faults);
			dump_counters("ops", g_ops);
			j += ",\"scenarios\":{";
			bool c = false;
			for (auto& x : *g_scen_runs) { if (c) j += ","; c = true; json_str(j, x.first.c_str()); snprintf(b, sizeof(b), ":%llu", (unsigned long long)x.second); j += b; }
			j += "},\"samples\":[";
			c = false;
			for (auto& x : *g_samples) { if (c) j += ","; c = true; json_str(j, x.c_str()); }
			j += "]}\n";
			fwrite(j.data(), 1, j.size(), f);
			fclose(f);
		}
		if (hashes) {
			write_hashes(hashes, ".log", *g_hashes);
			write_hashes(hashes, ".sched", *g_sched_hashes);
			write_hashes(hashes, ".state", *g_states);
		}
		return 0;
	}

	// ---- pieces used by the pthread layer -----------------------------------------------------------
	struct fiber_api {
		static fiber* cur() { return g_cur; }
	};
	int thread_create(void* (*fn)(void*), void* arg)
	{
		core_guard g;
		fiber* f = new_fiber(fn, arg);
		evn(0x70, f->id);
		note("thread %d created", f->id);
		return f->id;
	}
	int thread_join(int id, void** ret)
	{
		core_guard g;
		if ((size_t)id >= g_fibers->size()) return ESRCH;
		fiber* f = (*g_fibers)[id];
		if (f == g_cur) return EDEADLK;
		if (f->joined || f->detached) violation("sync_misuse", "join of a thread that is not joinable");
		while (!f->done) block(f, "join", false, 0);
		f->joined = true;
		if (ret) *ret = f->ret;
		return 0;
	}
	int thread_detach(int id)
	{
		core_guard g;
		if ((size_t)id >= g_fibers->size()) return ESRCH;
		(*g_fibers)[id]->detached = true;
		return 0;
	}
	// returns true when it timed out
	bool thread_wait(const void* on, const char* why, bool timed, uint64_t deadline)
	{
		core_guard g;
		block(on, why, timed, deadline);
		return g_cur->timed_out;
	}
	void thread_wake(const void* on, bool all)
	{
		core_guard g;
		if (!g_fibers) return;
		fiber* w[256];
		unsigned n = 0;
		for (auto f : *g_fibers)
			if (!f->done && f->wait_on == on && n < 256) w[n++] = f;
		if (!n) return;
		if (all) for (unsigned i = 0; i < n; ++i) { w[i]->wait_on = nullptr; w[i]->woken = true; }
		else { fiber* f = w[choose(n)]; f->wait_on = nullptr; f->woken = true; }
	}
	unsigned thread_waiters(const void* on)
	{
		core_guard g;
		unsigned n = 0;
		for (auto f : *g_fibers) if (!f->done && f->wait_on == on) ++n;
		return n;
	}
}

int main(int argc, char** argv) { return sim::sim_main(argc, argv); }

#if defined(SIM_ASAN)
extern "C" void __asan_on_error()
{
	// The report itself goes to stderr; record the run that produced it
	if (sim::active) {
		snprintf(sim::g_vcls, sizeof(sim::g_vcls), "memory");
		snprintf(sim::g_vmsg, sizeof(sim::g_vmsg), "AddressSanitizer reported a memory error");
		sim::report_and_exit(10);
	}
}
extern "C" const char* __asan_default_options()
{
	return "detect_leaks=0:handle_segv=0:handle_abort=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:handle_sigtrap=0:allocator_may_return_null=1:max_malloc_fill_size=1073741824:malloc_fill_byte=190:alloc_dealloc_mismatch=0:new_delete_type_mismatch=0:detect_stack_use_after_return=0:quarantine_size_mb=16:use_sigaltstack=0:max_allocation_size_mb=2000";
}
#endif
