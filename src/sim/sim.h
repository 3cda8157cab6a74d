// Deterministic simulator for stdex: public interface used by the scenarios.
//
// One seed = one execution.  Every decision (workload, schedule, fault, delay) is drawn with
// choose(); the sequence of drawn values *is* the replay file.  Value 0 always means the benign
// decision (no fault, keep running the same thread, smallest operation), so a trace can be
// minimised by zeroing or dropping decisions.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdarg.h>

namespace sim
{
	// ---- decisions -------------------------------------------------------------------------
	uint32_t choose(uint32_t n);                    // uniform 0..n-1 (0 when n<=1)
	bool chance(uint32_t num, uint32_t den);        // true with probability num/den, recorded as 0/1
	inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + choose(hi - lo + 1); } // inclusive

	// Skewed size: mostly small, boundary biased. 0..max
	uint32_t size(uint32_t max);

	// ---- event log -------------------------------------------------------------------------
	void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));   // hashed and, when verbose, printed
	void evn(uint32_t code, uint64_t a = 0, uint64_t b = 0);               // cheap numeric event
	void state(uint64_t h);                          // a state fingerprint reached by this run
	extern bool verbose;

	// ---- verdicts --------------------------------------------------------------------------
	[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
	[[noreturn]] void harness_error(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::violation(cls, __VA_ARGS__); } while (0)

	// ---- faults ----------------------------------------------------------------------------
	bool inject(const char* kind, uint32_t num, uint32_t den); // draw a fault decision and count it when it fires
	void count_fault(const char* kind);
	void count_op(const char* kind);                 // measured operation counter (not a fault)

	// ---- run control -----------------------------------------------------------------------
	extern bool active;              // inside a run
	uint64_t now_ns();               // virtual clock
	void advance(uint64_t ns);       // move the virtual clock forward (only sensible in single threaded scenarios)
	uint64_t steps();
	void set_step_limit(uint64_t n); // liveness bound of this run
	bool faults_stopped();
	void stop_faults(bool stop = true); // from here on no fault fires: bounded progress is required

	// ---- threads (scheduled build only) ------------------------------------------------------
	void yield_point();                              // an explicit preemption point
	int self();                                      // id of the running simulated thread, 0 = scenario
	int threads_alive();                             // simulated threads that have not finished
	void sleep_ns(uint64_t ns);                      // virtual sleep
	void set_schedule(uint32_t mode);                // 0: draw a mode
	bool thread_blocked(int id);
	struct nopreempt { nopreempt(); ~nopreempt(); }; // the scenario's own bookkeeping is not a subject of preemption
	struct preemptible { preemptible(); ~preemptible(); }; // lifts one nopreempt (a scripted peer that stalls)
	extern int numa_nodes;                           // number of NUMA nodes the stub reports
	extern int (*cpu_of_thread)(int tid);            // stub for sched_getcpu()

	// ---- allocation faults -------------------------------------------------------------------
	struct alloc_faults { // while alive, allocations may fail with probability num/den
		alloc_faults(uint32_t num, uint32_t den);
		~alloc_faults();
		uint64_t fired() const;
	private:
		uint64_t m_start;
	};
	uint64_t alloc_failures();
	extern bool alloc_faults_malloc_only; // plain build: operator new never fails
	extern bool check_leaks;       // scheduled build: leaked heap blocks at the end of a run are a violation
	extern void (*on_free)(const void* p, size_t size); // observe every released heap block before it is released
	uint64_t heap_live();          // blocks; in the plain build those allocated while a heap_track was alive
	struct heap_track { heap_track(); ~heap_track(); }; // plain build
	uint64_t heap_max();           // largest block asked for while tracking (blocks above 2 GB are always refused)
	uint64_t heap_total();         // bytes asked for while tracking
	// ---- scenario ------------------------------------------------------------------------------
	struct scenario {
		const char* name;
		uint32_t weight;
		void (*fn)();
	};
	extern const char* property;
	extern scenario scenarios[];
	extern unsigned n_scenarios;
#define SIM_SCENARIOS(prop, ...) \
	namespace sim { const char* property = prop; scenario scenarios[] = { __VA_ARGS__ }; unsigned n_scenarios = sizeof(scenarios) / sizeof(scenarios[0]); }

	inline uint64_t mix(uint64_t x)
	{
		x += 0x9e3779b97f4a7c15ull;
		x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
		x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
		return x ^ (x >> 31);
	}
	inline uint8_t pat(uint64_t stream, uint64_t off) { return (uint8_t)(mix(stream * 0x10001 + off) >> 17); }
}
