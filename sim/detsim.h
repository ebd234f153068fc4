// detsim: deterministic single-process simulator for multi-threaded C++ code.
// Real OS threads, exactly one of which holds the baton at any time; every scheduling decision, wake-up order, clock
// reading, spurious wake-up and fault is drawn from one PRNG seeded by the run seed, or taken from a replay file.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {

// ---- workload: named parameters, each an independent function of (seed, name, ordinal); a replay file may override.
int64_t P(const char* name, int64_t lo, int64_t hi);
double PR(const char* name, double lo, double hi);  // real-valued, 1/1024 resolution
bool PB(const char* name, int percent);             // true with the given percentage

// ---- faults: fired() decides, counts, records; under replay only the listed ordinals fire.
bool fault(const char* kind, double prob);
void enable_fault(const char* kind, double prob);  // for faults the runtime itself injects
uint64_t faults_fired(const char* kind);            // so far in this run
void disable_faults();                             // "the faults stop": nothing fires after this call
// kinds known to the runtime: "spurious_wakeup", "thread_create_fail", "alloc_fail", "stall", "realtime_jump",
// "entropy_fail", "io_open_fail", "io_read_err", "io_short_read", "io_truncate"

// ---- execution
void yield();                  // explicit scheduling point
void busy(int64_t ns);         // simulated computation: this thread is busy for ns while others may run
int64_t now();                 // simulated monotonic time in ns since start of the run
void jump_realtime(int64_t ns);  // step the wall clock
int live_threads();            // simulated threads started and not finished
int threads_created();
int unjoined_threads();        // finished or live threads nobody joined
uint64_t steps();              // scheduling points so far
void set_step_budget(uint64_t points, uint64_t accesses);
void race_detection(bool on);  // happens-before checking of instrumented accesses from now on
void preempt_plain(int mean);  // scheduling points inside plain code: on average every `mean` accesses (0: off)
void atomics_yield(bool on);
// file faults on paths starting with prefix: open fails, read error, short read, truncated contents
void io_faults(const char* prefix, double po, double pe, double ps, double pt);
void io_tear_filter(bool (*ok)(const char* path, int64_t pos));  // truncation only where the workload admits it
void omp_fewer_threads(bool on);  // the OpenMP runtime may deliver fewer threads than asked for

// ---- observation
void probe(const char* name);                       // "this rare condition was reached"
void probe_if(bool c, const char* name);
void log(uint64_t v);                               // mixes into the event-log hash
void logd(double v);
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // appended to the run's description
#define SIM_CHECK(c, cls, ...)                       \
    do                                               \
    {                                                \
        if (!(c)) ::sim::violation(cls, __VA_ARGS__); \
    } while (0)

// harness entry: one simulated run of `scenario`
}  // namespace sim
extern "C" void sim_scenario(const char* scenario);
