// Deterministic simulation core: seeded scheduler over real (parked) threads,
// checked arena allocator, virtual signals, fault injection, event log.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <string>
#include <vector>
#include <map>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
  uint64_t next() { // splitmix64
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  long range(long a, long b) { return a + (long)below((uint64_t)(b - a + 1)); }
  double u() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * u(); }
  bool p(double q) { return u() < q; }
};
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xA24BAED4963EE407ull)); return r.next(); }

// ---------------------------------------------------------------- trace
enum Act { A_PREEMPT = 1, A_SIGNAL = 2, A_HOSTINT = 3, A_CHOICE = 4 };
struct Ev { int32_t tid; int32_t act; int64_t at; int32_t arg; int32_t pad; };
// A_PREEMPT: thread `tid` at its local step `at` is switched out for thread `arg`
// A_SIGNAL : signal `arg` delivered on thread `tid` at its local step `at`
// A_CHOICE : the at-th blocking switch of `tid` goes to thread `arg`

enum FaultKind { F_SIGINT = 0, F_SIGTERM, F_SIGABRT, F_HOSTINT, F_THREAD_CREATE, F_ALLOC, F_FFTW_PLAN,
                 F_AFFINITY, F_STALL, F_WISDOM, F_CLAPI, F_BADARG, F_BADENV, F_NKINDS };
extern const char *fault_names[F_NKINDS];

struct Cfg {
  uint64_t seed = 1;
  bool replay = false;
  std::vector<Ev> evs;       // replay: explicit decisions
  // schedule policy (random mode)
  int policy = 0;            // 0 fifo/run-to-block, 1 uniform preempt, 2 hot-biased, 3 PCT, 4 stall-one
  double p_pre = 0;          // per-step preempt probability
  double p_hot = 0;          // per hot access
  double p_sync = 0.5;       // at sync operations
  int depth = 0;             // PCT change points
  long horizon = 200000;     // expected steps (PCT / signal placement)
  int ncpu = 4;
  long step_cap = 60000000;
};

// ---------------------------------------------------------------- per-run shared record
struct Block { uint64_t off; uint64_t size; uint32_t id; };

struct Shared {                 // lives in MAP_SHARED memory, one per worker
  int done;                     // child completed normally
  int violated;
  char vclass[64];
  char vmsg[1024];
  char cur[300];                // the call that is running
  uint64_t hash;
  uint64_t sched_sig;
  long gsteps, switches, preempts, hot_hits, threads_created, max_live, calls;
  long faults[F_NKINDS];
  long probes[32];
  double simtime;
  int skip;                     // scenario was vacuous (does not count)
  int nev; int ev_overflow;
  Ev ev[200000];
  int nseen; uint64_t seen[256];  // state-coverage hashes
};
extern Shared *sh;

// ---------------------------------------------------------------- control
void init_process();                       // once, before forks
void add_module_range(const char *path);   // register the instrumented module for hot tracking / return address tests
void arena_on();                           // child: start allocating from arena
struct CallFaults {             // positions are relative to the start of the call
  std::vector<std::pair<int,long>> sig_g, sig_sync, sig_hot;   // (signo | <0 host interrupt, position)
  long create_from = -1;                       // every thread creation from this one on fails
  std::vector<long> fail_create, fail_alloc, fail_walloc, fail_plan, fail_wisdom, fail_cl;
  bool any() const { return !(sig_g.empty() && sig_sync.empty() && sig_hot.empty() && fail_create.empty() && create_from < 0 && fail_alloc.empty() && fail_walloc.empty() && fail_plan.empty() && fail_wisdom.empty() && fail_cl.empty()); }
};
void session_begin(const Cfg &c);          // child: once, resets the world (tid 0 = caller)
void session_end();                        // child: record totals, mark the run complete
void call_begin(const CallFaults &f);      // code under test starts running
void call_end();                           // code under test returned
int  runnable_workers();                   // workers that would still run
void drain(long max_steps);                // let left-over workers run on (caller already returned)
struct Harness { Harness(); ~Harness(); }; // scope: allocations bypass the checked arena, no scheduling
struct Guest { Guest(); ~Guest(); };       // scope: back to guest mode inside a Harness scope
bool active();
int live_workers();                        // created and not finished
bool in_module(void *pc);
int threads_unjoined();                    // joinable threads that were never joined

[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
void note(uint64_t x);                     // mix into the event hash
void interleaved(uint64_t choices, int live);   // execution contexts other than threads
void seen_state(uint64_t h);
void probe(int i);                         // rare-condition counters

struct Stats { long live_bytes; long live_blocks; };
Stats live();                              // arena blocks currently live
long alloc_count();                        // module allocations so far in this run segment
long walloc_count();                       // allocations of its worker threads
long sync_count();
long create_count();
long peak_workers();                      // threads alive at once in this call
void worker_steps(long *most, long *sum); // steps of its threads
void set_ncpu(int n);
long first_create_step();                  // step of the call at which it first created a thread
long plan_count();
long cl_count();
long wisdom_count();
long plans_live();
bool planner_reentered();
void reset_counts();
long gsteps();
long call_steps();
// virtual signal table
bool is_default(int sig);                  // disposition is what the host had before the call
void set_default_all();
void *disposition(int sig);
extern void (*host_interrupt)();           // host's own interrupt mechanism
long handled_signals();                    // signals that reached a module handler
long signal_step();                        // gstep at which first signal was delivered to a handler, -1 none
long alive_done_step();                    // gstep at which last worker finished
// memory probing
bool readable(const void *p, size_t n);    // fully addressable by shadow (arena), true when outside the arena
void soft_mode(bool on);                   // while on, tsan callbacks are ignored (harness reading)
bool cl_should_fail();                     // OpenCL stub: fail this API call?
void set_mem_fatal(bool on);               // memory errors are violations (otherwise only counted)
long mem_errors();
void sync_yield(int kind);                 // scheduling point for stubs
uint64_t run_seed();                       // seed of this run
extern void (*lane_hook)();                // called at every instrumented access while set (simulated device)
}
