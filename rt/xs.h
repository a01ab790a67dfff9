// Controlled-concurrency runtime: public interface used by the harness modules.
//
// The library under test and the harness modules are compiled with
// `g++ -fsanitize=thread` but are linked against our own implementation of the
// __tsan_* entry points (xs.cpp) and of the pthread/clock/poll functions. All
// threads are real threads but only the one holding the baton runs; every
// synchronisation operation is a scheduling point, the clock is virtual.
#pragma once
#include <stdint.h>
#include <stddef.h>

namespace xs {

enum Strategy { ST_WALK = 0, ST_PCT = 1, ST_FIFO = 2 };

struct Config
{
    uint64_t seed = 1;
    int strategy = ST_WALK;
    uint32_t switch_p = 8192;  // of 65536, per sync point (random walk)
    uint32_t plain_p = 0;      // of 65536, per plain memory access
    uint32_t pct_depth = 3;    // number of priority change points
    uint32_t pct_len = 2000;   // range in which change points are placed
    uint32_t cas_fail_p = 0;   // of 65536, spurious failure of weak CAS
    uint32_t spurious_p = 0;   // of 65536, spurious wake-up of condition waits
    uint32_t jump_p = 0;       // of 65536, time passes although threads could run
    // a thread is descheduled at freeze_n points for freeze_ms of virtual time
    // (0: as long as others make progress without waiting), at most freeze_steps
    uint32_t freeze_n = 0;
    uint32_t freeze_ms = 0;
    uint32_t freeze_steps = 4000;
    bool races = true;         // report data races
    uint64_t step_limit = 400000;
};

// result kinds written to shared memory
enum Outcome {
    OC_NONE = 0, // child died without writing anything
    OC_OK = 1,
    OC_FAIL = 2,        // property violation reported by harness or runtime
    OC_INCONCLUSIVE = 3 // resource limit of the machinery
};

static const int kMaxLabels = 64;
static const int kDescSize = 6000;
static const int kMsgSize = 6000;

struct Shared // one per worker, MAP_SHARED
{
    int outcome;
    char kind[64];      // short signature of the failure kind
    char sig[400];      // longer signature, e.g. function names
    char msg[kMsgSize]; // message for humans
    char desc[kDescSize];
    uint64_t labels[kMaxLabels];
    uint64_t trace_hash;
    uint64_t steps;
    uint64_t switches;
    uint64_t threads;
    uint64_t vtime_ns;
    uint32_t nchoices;
    uint32_t choices[4096];
};

extern Shared* shared; // of this process

// run fn(arg) as thread 0 under the scheduler; returns when it returned
void run(const Config& c, void (*fn)(void*), void* arg);

[[noreturn]] void fail(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void inconclusive(const char* why);

[[noreturn]] void finish();          // ends the case successfully right here

bool active();
int tid();
uint64_t now_ns();                 // virtual time
inline double now_ms() { return (double)now_ns() / 1e6; }
void point();                      // explicit scheduling point
void quiesce_ms(uint64_t ms);      // let everything run that can run within ms of virtual time
void sleep_ms(uint64_t ms);        // plain (jumpable) sleep
void jumps(bool on);               // allow early time jumps
uint64_t seq();                    // global event sequence number (monotonic)
uint64_t steps();
uint64_t idle_polls();             // number of poll/select calls so far
void set_step_limit(uint64_t n);
void* raw_alloc(size_t n);         // zeroed memory invisible to race detection
int thread_count();                // live threads
int zombie_count();                // ended threads nobody joined
void set_cpus(int n);              // processors reported by sysconf, -1: fails, 0: the real ones
void label(int idx);               // count a label for this case
void desc(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
uint64_t live_bytes();             // bytes currently allocated
uint64_t live_blocks();
void backtrace_here(char* out, size_t n);
void io_changed();                 // harness did I/O behind our back
void watch_stack(bool on);

// blocking gates for harness code (not part of the code under test): these
// do not create happens-before edges so that they cannot hide races
struct Gate { volatile int open; volatile int waiting; };
void gate_wait(Gate* g);           // blocks until opened
bool gate_wait_ms(Gate* g, uint64_t ms);
void gate_open(Gate* g);
} // namespace xs
