// Deterministic simulation core. Compiled WITHOUT instrumentation.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "core.h"
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <climits>
#include <ctime>
#include <new>
#include <algorithm>
#include <atomic>
#include <dlfcn.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <fftw3.h>

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}

namespace sim {

const char *fault_names[F_NKINDS] = {"sigint", "sigterm", "sigabrt", "host_interrupt", "thread_create_eagain",
                                     "alloc_fail", "fft_planner_fail", "affinity_fail", "worker_stall",
                                     "wisdom_import_fail", "opencl_api_fail", "malformed_argument", "malformed_environment"};
Shared *sh;
void (*host_interrupt)(); void (*lane_hook)();
std::string cap_buf;

// ================================================================ raw helpers
static long rawsyscall(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  long ret;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9)
                   : "rcx", "r11", "memory");
  return ret;
}
static inline void fwait(std::atomic<int> *p, int v) { rawsyscall(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, v, 0); }
static inline void fwake(std::atomic<int> *p) { rawsyscall(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1); }

static __thread int t_tid = -1;        // simulated thread id
static __thread int t_in = 0;          // inside the simulator: pass through
struct In { In() { t_in++; } ~In() { t_in--; } };

// ================================================================ arena
static const uint64_t ARENA_BASE = 0x500000000000ull;
static const uint64_t ARENA_SIZE = 6ull << 30;
static const uint64_t STACK_BASE = 0x510000000000ull;
static const uint64_t STACK_SLOT = 1ull << 20;
static const int MAXT = 320;
static const uint64_t SH_BASE = 0x520000000000ull;   // 1 shadow byte per 8 bytes of the arena
static const uint64_t HOT_BASE = 0x530000000000ull;  // 1 byte per 8 bytes (arena)
static const uint64_t HOTS_BASE = 0x540000000000ull; // stacks

static bool g_arena = false;
static uint64_t a_next = 4096;
static uint8_t *shadow = (uint8_t *)SH_BASE;
static uint8_t *hot_a = (uint8_t *)HOT_BASE;
static uint8_t *hot_s = (uint8_t *)HOTS_BASE;

struct Hdr { uint64_t size; uint32_t id; uint32_t magic; uint64_t base; uint64_t total; };
static const uint32_t MAGIC_LIVE = 0x5AFE5AFE, MAGIC_FREE = 0xDEADF4EE;
static long n_live_bytes = 0, n_live_blocks = 0;
static uint32_t next_id = 1;
static bool mem_fatal = false;
static long n_mem = 0;
void set_mem_fatal(bool on) { mem_fatal = on; }
long mem_errors() { return n_mem; }
#define MEM(...) do { n_mem++; if (mem_fatal) violation("memory", __VA_ARGS__); } while (0)


static inline bool in_arena(const void *p) { return (uint64_t)p - ARENA_BASE < ARENA_SIZE; }

static bool arena_full = false;
static void *a_alloc(size_t n, size_t align) {
  if (align < 16) align = 16;
  size_t rz = n < 64 ? 64 : (n > 16384 ? 16384 : n);
  rz = (rz + 63) & ~(size_t)63;
  uint64_t left = sizeof(Hdr) + 32;
  uint64_t off = (a_next + left + align - 1) & ~(uint64_t)(align - 1);
  uint64_t end = off + ((n + 15) & ~15ull) + rz;
  if (n > (1ull << 31) || end > ARENA_SIZE) { arena_full = true; return nullptr; }
  Hdr *h = (Hdr *)(ARENA_BASE + off - sizeof(Hdr));
  uint64_t base = a_next;
  a_next = (end + 63) & ~63ull;
  // shadow is zero-initialised = "unallocated" encoded 0 -> use inverted scheme: 0 = bad unless marked
  uint64_t full = n >> 3;
  memset(shadow + (off >> 3), 0xff, full);
  if (n & 7) shadow[(off >> 3) + full] = (uint8_t)(n & 7);
  h->size = n; h->id = next_id++; h->magic = MAGIC_LIVE; h->base = base; h->total = a_next - base;
  n_live_bytes += n; n_live_blocks++;
  memset((void *)(ARENA_BASE + off), 0xE7, end - off);    // contents of fresh memory and of the gap after it are arbitrary
  return (void *)(ARENA_BASE + off);
}
// shadow: 0xff all 8 valid; 1..7 first k valid; 0 never valid; 0xFD freed
static void a_free(void *p) {
  Hdr *h = (Hdr *)((char *)p - sizeof(Hdr));
  if (h->magic != MAGIC_LIVE) {
    if (h->magic == MAGIC_FREE) violation("crash", "double free of a %lu byte block", (unsigned long)h->size);
    violation("crash", "free of a pointer that is not a block start");
  }
  h->magic = MAGIC_FREE;
  n_live_bytes -= h->size; n_live_blocks--;
  memset(shadow + (((uint64_t)p - ARENA_BASE) >> 3), 0xFD, (h->size + 7) >> 3);
  memset(p, 0xE7, h->size);                               // freed memory may be reused for anything
}
static size_t a_size(void *p) { return ((Hdr *)((char *)p - sizeof(Hdr)))->size; }

Stats live() { return {n_live_bytes, n_live_blocks}; }

static bool range_ok(uint64_t a, size_t n, bool *freed) {
  uint64_t off = a - ARENA_BASE;
  uint64_t end = off + n;
  while (off < end) {
    uint8_t s = shadow[off >> 3];
    uint64_t cell_end = (off | 7ull) + 1;
    uint64_t upto = std::min(end, cell_end);
    if (s != 0xff) {
      if (s == 0xFD) { if (freed) *freed = true; return false; }
      if ((upto - 1 - (off & ~7ull)) >= s) { if (freed) *freed = false; return false; }
    }
    off = cell_end;
  }
  return true;
}
bool readable(const void *p, size_t n) {
  if (!in_arena(p)) return true;
  return range_ok((uint64_t)p, n, nullptr);
}

// ================================================================ modules
struct Mod { uint64_t lo, hi, wlo, whi; uint8_t *hot; char name[64]; };
static Mod mods[64];
static int nmods = 0;
bool in_module(void *pc) {
  for (int i = 0; i < nmods; i++) if ((uint64_t)pc - mods[i].lo < mods[i].hi - mods[i].lo) return true;
  return false;
}
static int mod_cb(struct dl_phdr_info *i, size_t, void *d) {
  const char *want = (const char *)d;
  if (!i->dlpi_name || strcmp(i->dlpi_name, want)) return 0;
  Mod &m = mods[nmods];
  m.lo = ~0ull; m.hi = 0; m.wlo = ~0ull; m.whi = 0;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    auto &p = i->dlpi_phdr[k];
    if (p.p_type != PT_LOAD) continue;
    uint64_t a = i->dlpi_addr + p.p_vaddr, b = a + p.p_memsz;
    m.lo = std::min(m.lo, a); m.hi = std::max(m.hi, b);
    if (p.p_flags & PF_W) { m.wlo = std::min(m.wlo, (uint64_t)(a & ~7ull)); m.whi = std::max(m.whi, b); }
  }
  const char *bn = strrchr(want, '/');
  snprintf(m.name, sizeof m.name, "%s", bn ? bn + 1 : want);
  if (m.whi > m.wlo) m.hot = (uint8_t *)__libc_calloc(1, ((m.whi - m.wlo) >> 3) + 8);
  nmods++;
  return 1;
}
void add_module_range(const char *path) { In in; dl_iterate_phdr(mod_cb, (void *)path); }

// ================================================================ scheduler state
enum St { S_FREE, S_RUN, S_BLOCK, S_DONE };
struct Thr {
  St st = S_FREE;
  std::atomic<int> sem{0};
  const void *wobj = nullptr;
  bool timed = false; double deadline = 0; bool timedout = false;
  uint64_t lstep = 0, l_next = ~0ull;
  uint32_t nblk = 0;
  pthread_t real = 0;
  bool joined = false, detached = false;
  void *(*fn)(void *) = nullptr; void *arg = nullptr;
  int prio = 0;
  size_t ev_i = 0;
  std::vector<Ev> evs;       // replay: per-thread events in step order
  std::map<int64_t, int> choices;
  uint64_t stalled_until = 0;
};
static Thr thr[MAXT];
static int nthr = 0, cur = 0, nlive = 0, nrun = 1;
static bool g_active = false, g_soft = false, g_handler = false;
static bool g_child = false;           // virtual signals etc. in force
static Cfg cfg;
static CallFaults cf;
static long b_alloc, b_walloc, b_create, b_plan, b_wisdom;
static Rng rng(1);
static long call_limit = LONG_MAX;
static long g_step = 0, g_next = LONG_MAX, n_sync = 0, n_hot = 0;
static double s_time = 0;
static uint64_t hsh = 0, ssig = 0;
static long n_create = 0, n_alloc = 0, n_walloc = 0, n_plan = 0, plans_alive = 0, n_wisdom = 0, n_cl = 0, b_cl = 0;
static bool planner_bad = false, planner_safe = false; static int planner_owner = -1;
static long sig_handled = 0, sig_first = -1, last_done = -1;
static std::vector<long> pct_points; static size_t pct_i = 0;
static int stall_victim = -1; static long stall_until = 0;

bool active() { return g_active; }
int live_workers() { return nlive; }
long gsteps() { return g_step; }
static long b_step = 0, b_sync = 0;
long call_steps() { return g_step - b_step; }
long sync_count() { return n_sync - b_sync; }
long alloc_count() { return n_alloc - b_alloc; }
long walloc_count() { return n_walloc - b_walloc; }
long create_count() { return n_create - b_create; }
static long c_peak = 0; static int b_nthr = 1;
long peak_workers() { return c_peak; }
void worker_steps(long *most, long *sum) { *most = *sum = 0; for (int i = b_nthr; i < nthr; i++) { long k = (long)thr[i].lstep; *sum += k; if (k > *most) *most = k; } }
void set_ncpu(int n) { cfg.ncpu = n; }
static long first_create = -1;
long first_create_step() { return first_create; }
long plan_count() { return n_plan - b_plan; }
long wisdom_count() { return n_wisdom - b_wisdom; }
long plans_live() { return plans_alive; }
bool planner_reentered() { return planner_bad; }
long handled_signals() { return sig_handled; }
long signal_step() { return sig_first < 0 ? -1 : sig_first - b_step; }
long alive_done_step() { return last_done; }
void reset_counts() { n_alloc = n_create = n_plan = n_wisdom = 0; }
void soft_mode(bool on) { g_soft = on; }
void probe(int i) { if (sh && i >= 0 && i < 32) sh->probes[i]++; }
void interleaved(uint64_t x, int live) { ssig = mix(ssig, x); if (sh && live > sh->max_live) sh->max_live = live; }
void note(uint64_t x) { hsh = mix(hsh, x); }
void seen_state(uint64_t h) { if (sh && sh->nseen < 256) sh->seen[sh->nseen++] = h; }

static void flush_rec() {
  if (!sh) return;
  sh->hash = hsh; sh->sched_sig = ssig; sh->gsteps = g_step; sh->hot_hits = n_hot; sh->simtime = s_time;
}
void violation(const char *cls, const char *fmt, ...) {
  t_in++;
  if (sh && !sh->violated) {
    sh->violated = 1;
    snprintf(sh->vclass, sizeof sh->vclass, "%s", cls);
    va_list ap; va_start(ap, fmt); vsnprintf(sh->vmsg, sizeof sh->vmsg, fmt, ap); va_end(ap);
    // the hash must not depend on absolute addresses in the message
    for (const char *p = cls; *p; p++) hsh = mix(hsh, *p);
    flush_rec();
  }
  rawsyscall(SYS_exit_group, 3);
  __builtin_unreachable();
}

static void log_ev(int tid, int act, int64_t at, int arg) {
  if (!sh) return;
  if (sh->nev < (int)(sizeof(sh->ev) / sizeof(sh->ev[0]))) {
    Ev &e = sh->ev[sh->nev++]; e.tid = tid; e.act = act; e.at = at; e.arg = arg; e.pad = 0;
  } else sh->ev_overflow = 1;
}

// ---------------------------------------------------------------- virtual signals
static void host_sig_handler(int) {}
static struct sigaction vsig[65];
static struct sigaction vdef[65];
void *disposition(int s) { return (void *)vsig[s].sa_handler; }
bool is_default(int s) { return vsig[s].sa_handler == vdef[s].sa_handler; }
void set_default_all() {
  for (int i = 1; i < 65; i++) {
    memset(&vsig[i], 0, sizeof vsig[i]);
    int k = (int)(mix(cfg.seed, 77 + i) % 3);
    vsig[i].sa_handler = (i == SIGINT || k == 0) ? host_sig_handler : k == 1 ? SIG_DFL : SIG_IGN;
    vdef[i] = vsig[i];
  }
}
static void deliver(int sig) {
  int kind = sig == SIGINT ? F_SIGINT : sig == SIGTERM ? F_SIGTERM : sig == SIGABRT ? F_SIGABRT : F_HOSTINT;
  if (sh) sh->faults[kind]++;
  if (sig < 0) { t_in++; if (host_interrupt) host_interrupt(); t_in--; if (sig_first < 0) sig_first = g_step; return; }
  auto h = vsig[sig].sa_handler;
  hsh = mix(hsh, sig * 31 + (h == host_sig_handler));
  if (h == SIG_DFL || h == SIG_IGN) return;
  if (h == host_sig_handler) { if (sig == SIGINT && host_interrupt) { t_in++; host_interrupt(); t_in--; } return; }
  sig_handled++;
  if (sig_first < 0) sig_first = g_step;
  // the handler runs on the interrupted thread; other threads may run in the middle of it
  bool o = g_handler; g_handler = true;
  h(sig);
  g_handler = o;
}

// ---------------------------------------------------------------- switching
static void wait_baton(int me) {
  while (thr[me].sem.load(std::memory_order_acquire) == 0) fwait(&thr[me].sem, 0);
  thr[me].sem.store(0, std::memory_order_relaxed);
}
static void hand_to(int to) {
  cur = to;
  thr[to].sem.store(1, std::memory_order_release);
  fwake(&thr[to].sem);
}
static void resched_params(int t);

static int runnable_list(int *out, int except) {
  int n = 0;
  for (int i = 0; i < nthr; i++) if (i != except && thr[i].st == S_RUN) out[n++] = i;
  return n;
}
static bool advance_time() { // wake the earliest timed sleeper
  int best = -1;
  for (int i = 0; i < nthr; i++)
    if (thr[i].st == S_BLOCK && thr[i].timed && (best < 0 || thr[i].deadline < thr[best].deadline)) best = i;
  if (best < 0) return false;
  if (thr[best].deadline > s_time) s_time = thr[best].deadline;
  thr[best].st = S_RUN; thr[best].timed = false; thr[best].timedout = true; nrun++;
  return true;
}
static int pick(int me, bool forced) { // choose among the runnable threads other than me
  int l[MAXT]; int n = runnable_list(l, me);
  if (n == 0) return -1;
  if (cfg.replay) {
    if (forced) {
      auto it = thr[me].choices.find(thr[me].nblk);
      if (it != thr[me].choices.end() && it->second < nthr && it->second != me && thr[it->second].st == S_RUN) return it->second;
    }
    return l[0];
  }
  if (stall_victim >= 0 && g_step < stall_until && n > 1) {
    int m = 0; for (int i = 0; i < n; i++) if (l[i] != stall_victim) l[m++] = l[i];
    n = m;
  }
  if (cfg.policy == 3) {
    int b = l[0]; for (int i = 1; i < n; i++) if (thr[l[i]].prio > thr[b].prio) b = l[i];
    return b;
  }
  if (cfg.policy == 0) {
    return l[0];
  }
  return l[rng.below(n)];
}
static void do_switch(int to) {
  int me = t_tid;
  if (sh) sh->switches++;
  hsh = mix(hsh, ((uint64_t)me << 48) ^ ((uint64_t)to << 40) ^ thr[me].lstep);
  hand_to(to);
  wait_baton(me);
}
// block the current thread on obj until someone makes it runnable
static void block_on(const void *obj, bool timed = false, double deadline = 0) {
  int me = t_tid;
  Thr &T = thr[me];
  T.st = S_BLOCK; T.wobj = obj; T.timed = timed; T.deadline = deadline; T.timedout = false; nrun--;
  T.nblk++;
  int to = pick(me, true);
  while (to < 0) {
    if (!advance_time()) {
      violation("deadlock", "no thread can make progress (thread %d waits, %d workers alive)", me, nlive);
    }
    if (T.st == S_RUN) { return; }
    to = pick(me, true);
  }
  log_ev(me, A_CHOICE, T.nblk, to);
  ssig = mix(ssig, me * 64 + to);
  do_switch(to);
}
static void wake_obj(const void *obj, int n = INT_MAX) {
  for (int i = 0; i < nthr && n > 0; i++)
    if (thr[i].st == S_BLOCK && thr[i].wobj == obj) { thr[i].st = S_RUN; thr[i].timed = false; thr[i].timedout = false; nrun++; n--; }
}

static void resched_params(int t) {
  Thr &T = thr[t];
  if (cfg.replay) { T.l_next = T.ev_i < T.evs.size() ? (uint64_t)T.evs[T.ev_i].at : ~0ull; return; }
  if (cfg.p_pre > 0 && cfg.policy != 0) {
    double u = rng.u(); if (u < 1e-12) u = 1e-12;
    double g = __builtin_log(u) / __builtin_log1p(-cfg.p_pre);
    if (g > 1e15) g = 1e15;
    T.l_next = T.lstep + 1 + (uint64_t)g;
  } else T.l_next = ~0ull;
}
static void g_resched() {
  g_next = call_limit;
  for (auto &s : cf.sig_g) if (s.second > g_step) g_next = std::min(g_next, s.second);
  if (pct_i < pct_points.size()) g_next = std::min(g_next, std::max(pct_points[pct_i], g_step + 1));
}
static void preempt_now(uintptr_t site) {
  int me = t_tid;
  if (nrun < 2) return;
  int to = pick(me, false);
  if (to < 0) return;
  log_ev(me, A_PREEMPT, thr[me].lstep, to);
  if (sh) sh->preempts++;
  ssig = mix(ssig, mix(site, me * 64 + to));
  do_switch(to);
}
static void do_signal(int sig) {
  int me = t_tid;
  log_ev(me, sig < 0 ? A_HOSTINT : A_SIGNAL, thr[me].lstep, sig);
  hsh = mix(hsh, 0x516 + sig);
  t_in--;                      // handler code is code under test
  deliver(sig);
  t_in++;
}
static uintptr_t rel_pc(void *pc) {
  for (int i = 0; i < nmods; i++) if ((uint64_t)pc - mods[i].lo < mods[i].hi - mods[i].lo) return (uintptr_t)pc - mods[i].lo;
  return 0;
}

static void slow_step(void *pc) {
  In in;
  int me = t_tid; Thr &T = thr[me];
  if (g_step >= call_limit) violation("no-progress", "the call did not finish within %ld simulated steps", cfg.step_cap);
  if (cfg.replay) {
    while (T.ev_i < T.evs.size() && (uint64_t)T.evs[T.ev_i].at <= T.lstep) {
      Ev e = T.evs[T.ev_i++];
      if ((uint64_t)e.at < T.lstep && e.act == A_PREEMPT) continue;
      resched_params(me);
      if (e.act == A_PREEMPT) {
        if (e.arg >= 0 && e.arg < nthr && e.arg != me && thr[e.arg].st == S_RUN) {
          log_ev(me, A_PREEMPT, T.lstep, e.arg);
          if (sh) sh->preempts++;
          ssig = mix(ssig, mix(rel_pc(pc), me * 64 + e.arg));
          do_switch(e.arg);
        }
      } else do_signal(e.arg);
    }
    resched_params(me);
    return;
  }
  if (g_step >= g_next) {
    for (size_t i = 0; i < cf.sig_g.size(); i++)
      if (cf.sig_g[i].second <= g_step) {
        int s = cf.sig_g[i].first; cf.sig_g.erase(cf.sig_g.begin() + i); i--;
        do_signal(s);
      }
    if (pct_i < pct_points.size() && pct_points[pct_i] <= g_step) {
      pct_i++;
      thr[me].prio = -(int)pct_i;
      int l[MAXT]; int n = runnable_list(l, me); bool lower = true;
      for (int i = 0; i < n; i++) if (thr[l[i]].prio > thr[me].prio) lower = false;
      if (!lower) preempt_now(rel_pc(pc));
    }
    g_resched();
  }
  if (T.lstep >= T.l_next) {
    resched_params(me);
    preempt_now(rel_pc(pc));
  }
}

static inline bool on() { return __builtin_expect(g_active && t_in == 0 && t_tid >= 0 && !g_soft, 0); }

static void hot_access(void *pc) {
  In in;
  n_hot++;
  if (cfg.replay) return;
  for (size_t i = 0; i < cf.sig_hot.size(); i++)
    if (cf.sig_hot[i].second <= n_hot) {
      int s = cf.sig_hot[i].first; cf.sig_hot.erase(cf.sig_hot.begin() + i); i--;
      do_signal(s);
    }
  if (cfg.p_hot > 0 && nrun > 1 && rng.u() < cfg.p_hot) preempt_now(rel_pc(pc));
}

static inline void tick(void *pc) {
  if (__builtin_expect(g_handler, 0)) return;
  long g = ++g_step;
  Thr &T = thr[t_tid];
  if (__builtin_expect(++T.lstep >= T.l_next || g >= g_next, 0)) slow_step(pc);
}

static void sync_point(int kind) { // an operation on threads/locks/signals/planner
  if (!on() || g_handler) return;
  In in;
  g_step++; thr[t_tid].lstep++; n_sync++;
  hsh = mix(hsh, kind * 1000003 + t_tid);
  if (cfg.replay) { slow_step(nullptr); return; }
  for (size_t i = 0; i < cf.sig_sync.size(); i++)
    if (cf.sig_sync[i].second <= n_sync) {
      int s = cf.sig_sync[i].first; cf.sig_sync.erase(cf.sig_sync.begin() + i); i--;
      do_signal(s);
    }
  if (g_step >= g_next || thr[t_tid].lstep >= thr[t_tid].l_next) slow_step(nullptr);
  if (cfg.policy != 0 && cfg.policy != 3 && nrun > 1 && rng.u() < cfg.p_sync) preempt_now(kind);
  if (cfg.policy == 3 && nrun > 1) { // run the highest priority
    int l[MAXT]; int n = runnable_list(l, t_tid); bool higher = false;
    for (int i = 0; i < n; i++) if (thr[l[i]].prio > thr[t_tid].prio) higher = true;
    if (higher) preempt_now(kind);
  }
}

static void describe(void *pc, char *buf, size_t n) {
  Dl_info di;
  if (dladdr(pc, &di) && di.dli_sname) snprintf(buf, n, "%s", di.dli_sname);
  else snprintf(buf, n, "?");
}

static inline void access(void *addr, size_t n, bool wr, void *pc) {
  if (__builtin_expect(lane_hook != nullptr, 0)) lane_hook();
  uint64_t a = (uint64_t)addr;
  uint8_t *hp;
  if (a - ARENA_BASE < ARENA_SIZE) {
    uint64_t off = a - ARENA_BASE;
    if (__builtin_expect(shadow[off >> 3] != 0xff || ((off & 7) + n > 8), 0)) {
      bool freed = false;
      if (!range_ok(a, n, &freed)) {
        char fn[200]; describe(pc, fn, sizeof fn);
        MEM("%s %s of %zu bytes in %s", freed ? "use-after-free" : "out-of-bounds", wr ? "write" : "read", n, fn);
      }
    }
    hp = hot_a + (off >> 3);
  } else if (a - STACK_BASE < (uint64_t)MAXT * STACK_SLOT) {
    hp = hot_s + ((a - STACK_BASE) >> 3);
  } else {
    hp = nullptr;
    for (int i = 0; i < nmods; i++) if (a - mods[i].wlo < mods[i].whi - mods[i].wlo) { hp = mods[i].hot + ((a - mods[i].wlo) >> 3); break; }
  }
  tick(pc);
  if (hp && nlive > 0) {
    uint8_t v = *hp, me = (uint8_t)((t_tid & 31) + 1);
    if (__builtin_expect((v & 31) != me, 0)) {
      if (v & 31) { if (wr || (v & 64)) v |= 128; }
      v = (v & 0xE0) | (me & 31) | (wr ? 64 : 0);
      *hp = v;
    } else if (wr && !(v & 64)) *hp = v | 64;
    if (__builtin_expect((v & 128) && !g_handler, 0)) hot_access(pc);
  }
}

// ================================================================ run control
void init_process() {
  auto m = [](uint64_t b, uint64_t n) {
    void *p = mmap((void *)b, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)b) { fprintf(stderr, "simulator: cannot map arena\n"); _exit(2); }
  };
  m(ARENA_BASE, ARENA_SIZE); m(SH_BASE, ARENA_SIZE / 8); m(HOT_BASE, ARENA_SIZE / 8);
  m(STACK_BASE, MAXT * STACK_SLOT); m(HOTS_BASE, MAXT * STACK_SLOT / 8);
}
void arena_on() { g_arena = true; g_child = true; }

void session_begin(const Cfg &c) {
  t_in++;
  cfg = c; cf = CallFaults(); rng = Rng(mix(c.seed, 0xC0FFEE));
  for (int i = 0; i < MAXT; i++) {
    thr[i].st = S_FREE; thr[i].lstep = 0; thr[i].l_next = ~0ull; thr[i].ev_i = 0; thr[i].evs.clear(); thr[i].choices.clear(); thr[i].nblk = 0;
  }
  nthr = 1; cur = 0; nlive = 0; nrun = 1; t_tid = 0; thr[0].st = S_RUN;
  if (cfg.replay)
    for (auto &e : cfg.evs) {
      if (e.tid < 0 || e.tid >= MAXT) continue;
      if (e.act == A_CHOICE) thr[e.tid].choices[e.at] = e.arg; else thr[e.tid].evs.push_back(e);
    }
  pct_points.clear(); pct_i = 0;
  if (!cfg.replay && cfg.policy == 3) {
    for (int i = 0; i < cfg.depth; i++) pct_points.push_back(1 + (long)rng.below(cfg.horizon > 1 ? cfg.horizon : 1));
    std::sort(pct_points.begin(), pct_points.end());
    for (int i = 0; i < MAXT; i++) thr[i].prio = 1 + (int)rng.below(1000000);
  }
  stall_victim = -1;
  if (!cfg.replay && cfg.policy == 4) { stall_victim = 1 + (int)rng.below(8); stall_until = LONG_MAX; if (sh) sh->faults[F_STALL]++; }
  g_step = 0; n_sync = 0; n_hot = 0; s_time = 0; hsh = mix(1, 2); ssig = 0;
  n_alloc = n_walloc = n_create = n_plan = n_wisdom = n_cl = n_mem = 0; planner_bad = false; planner_owner = -1; arena_full = false;
  set_default_all();
  resched_params(0);
  t_in--;
}
void call_begin(const CallFaults &f) {
  t_in++;
  cf = f;
  if (cfg.replay) { cf.sig_g.clear(); cf.sig_sync.clear(); cf.sig_hot.clear(); }   // signals come from the trace
  for (auto &x : cf.sig_g) x.second += g_step;
  for (auto &x : cf.sig_sync) x.second += n_sync;
  for (auto &x : cf.sig_hot) x.second += n_hot;
  b_step = g_step; b_sync = n_sync; b_alloc = n_alloc; b_walloc = n_walloc; b_create = n_create; b_plan = n_plan; b_wisdom = n_wisdom; b_cl = n_cl;
  sig_handled = 0; sig_first = -1; last_done = -1; c_peak = nlive; b_nthr = nthr;
  call_limit = g_step + cfg.step_cap;
  g_resched();
  if (sh) sh->calls++;
  t_in--;
  g_active = true;
}
void call_end() { g_active = false; flush_rec(); }
void session_end() {
  g_active = false;
  if (sh) { sh->threads_created += n_create; sh->done = 1; }
  flush_rec();
}
int threads_unjoined() { int n = 0; for (int i = 1; i < nthr; i++) if (!thr[i].joined && !thr[i].detached) n++; return n; }
int runnable_workers() { int n = 0; for (int i = 1; i < nthr; i++) if (thr[i].st == S_RUN) n++; return n; }
void drain(long max_steps) {
  // the caller has returned; keep yielding to whoever is still runnable
  g_active = true;
  long lim = g_step + max_steps;
  while (runnable_workers() > 0 && g_step < lim) {
    In in;
    int to = pick(0, true);
    if (to < 0) break;
    g_step++; thr[0].nblk++;
    log_ev(0, A_CHOICE, thr[0].nblk, to);
    do_switch(to);
  }
  g_active = false;
}
Harness::Harness() { t_in++; }
Harness::~Harness() { t_in--; }
static __thread int t_save[16]; static __thread int t_sp = 0;
Guest::Guest() { t_save[t_sp++] = t_in; t_in = 0; }
Guest::~Guest() { t_in = t_save[--t_sp]; }
static void finish_thread(void *) {
  if (!g_child || t_tid < 0) return;
  t_in++;
  int me = t_tid;
  thr[me].st = S_DONE; nrun--; nlive--;
  last_done = g_step;
  hsh = mix(hsh, 0xD0 + me);
  wake_obj(&thr[me]);
  thr[me].nblk++;
  int to = pick(me, true);
  while (to < 0) { if (!advance_time()) violation("deadlock", "no thread can make progress after a worker ended"); to = pick(me, true); }
  log_ev(me, A_CHOICE, thr[me].nblk, to);
  if (sh) sh->switches++;
  hand_to(to);
}
static pthread_key_t tkey;
static bool tkey_ok = false;
static void *tramp(void *p) {
  int me = (int)(intptr_t)p;
  t_tid = me; t_in = 1;
  pthread_setspecific(tkey, (void *)1);
  wait_baton(me);
  t_in = 0;
  sync_point(11);
  void *r = thr[me].fn(thr[me].arg);
  sync_point(12);
  return r;
}

// fftw plans
struct PlanRec { void *p; int kind; long n; };
static std::vector<PlanRec> *plans;

// ---- helpers for interposers (C linkage) ----
static void *real(const char *n) { void *p = dlsym(RTLD_NEXT, n); return p; }

static bool take(std::vector<long> &v, long i) {
  for (size_t k = 0; k < v.size(); k++) if (v[k] == i) return true;
  return false;
}
static bool alloc_should_fail(void *ra, size_t n) {
  // the dimension vectors of Octave's arrays are not exception safe: their assignment frees
  // the old vector before it allocates the new one, and a failure there is Octave's, not DREAM's
  if (n == 16 || n == 24) return false;
  if (!g_active || t_in || t_tid < 0 || g_soft) return false;
  if (!in_module(ra)) return false;
  long i = t_tid ? n_walloc++ : n_alloc++;   // those of the workers are counted apart: their order depends on the schedule
  std::vector<long> &f = t_tid ? cf.fail_walloc : cf.fail_alloc;
  if (f.empty() || !take(f, i - (t_tid ? b_walloc : b_alloc))) return false;
  if (sh) sh->faults[F_ALLOC]++;
  note(0xA110C + i);
  return true;
}
bool cl_should_fail() {
  if (!g_active) return false;
  long i = n_cl++;
  if (cf.fail_cl.empty() || !take(cf.fail_cl, i - b_cl)) return false;
  if (sh) sh->faults[F_CLAPI]++;
  note(0xC1A + i);
  return true;
}
long cl_count() { return n_cl - b_cl; }
void sync_yield(int k) { sync_point(200 + k); }
uint64_t run_seed() { return cfg.seed; }
static void *do_malloc(size_t n, size_t al, void *ra) {
  if (alloc_should_fail(ra, n)) { errno = ENOMEM; return nullptr; }
  if (g_arena && t_in == 0) {
    void *p = a_alloc(n, al);
    if (p) return p;
    if (n > (1ull << 31)) { errno = ENOMEM; return nullptr; }
  }
  return al > 16 ? __libc_memalign(al, n) : __libc_malloc(n);
}
static void do_free(void *p) {
  if (!p) return;
  if (in_arena(p)) { a_free(p); return; }
  __libc_free(p);
}

// mutex table
struct Mx { const void *a; int owner; int count; bool rec; };
static std::vector<Mx> mxs;
static int mx_find(const void *a) { for (size_t i = 0; i < mxs.size(); i++) if (mxs[i].a == a) return (int)i; return -1; }
static void obj_check(const void *m, size_t n, const char *what) {
  if (in_arena(m) && !range_ok((uint64_t)m, n, nullptr)) MEM("%s on freed or invalid memory", what);
}
} // namespace sim
using namespace sim;

#define EXP extern "C" __attribute__((visibility("default")))
#define RA __builtin_return_address(0)

// ================================================================ allocator interposition
EXP void *malloc(size_t n) { return do_malloc(n, 16, RA); }
EXP void free(void *p) { do_free(p); }
EXP void *calloc(size_t a, size_t b) {
  size_t n; if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return nullptr; }
  if (!(g_arena && t_in == 0)) return __libc_calloc(a, b);
  void *p = do_malloc(n, 16, RA);
  if (p) memset(p, 0, n);
  return p;
}
EXP void *realloc(void *p, size_t n) {
  if (!p) return do_malloc(n, 16, RA);
  if (!in_arena(p)) {
    if (!(g_arena && t_in == 0)) return __libc_realloc(p, n);
    return __libc_realloc(p, n);
  }
  if (n == 0) { do_free(p); return nullptr; }
  void *q = do_malloc(n, 16, RA);
  if (!q) return nullptr;
  size_t o = a_size(p);
  memcpy(q, p, o < n ? o : n);
  do_free(p);
  return q;
}
EXP void *memalign(size_t al, size_t n) { return do_malloc(n, al, RA); }
EXP void *aligned_alloc(size_t al, size_t n) { return do_malloc(n, al, RA); }
EXP int posix_memalign(void **o, size_t al, size_t n) { void *p = do_malloc(n, al, RA); if (!p) return ENOMEM; *o = p; return 0; }
EXP size_t malloc_usable_size(void *p) {
  if (!p) return 0;
  if (in_arena(p)) return a_size(p);
  static size_t (*r)(void *) = (size_t(*)(void *))real("malloc_usable_size");
  return r(p);
}
static void *new_impl(size_t n, size_t al, void *ra) {
  void *p = do_malloc(n ? n : 1, al, ra);
  if (!p) throw std::bad_alloc();
  return p;
}
__attribute__((visibility("default"))) void *operator new(size_t n) { return new_impl(n, 16, RA); }
__attribute__((visibility("default"))) void *operator new[](size_t n) { return new_impl(n, 16, RA); }
__attribute__((visibility("default"))) void *operator new(size_t n, std::align_val_t a) { return new_impl(n, (size_t)a, RA); }
__attribute__((visibility("default"))) void *operator new[](size_t n, std::align_val_t a) { return new_impl(n, (size_t)a, RA); }
__attribute__((visibility("default"))) void *operator new(size_t n, const std::nothrow_t &) noexcept { return do_malloc(n ? n : 1, 16, RA); }
__attribute__((visibility("default"))) void *operator new[](size_t n, const std::nothrow_t &) noexcept { return do_malloc(n ? n : 1, 16, RA); }
__attribute__((visibility("default"))) void operator delete(void *p) noexcept { do_free(p); }
__attribute__((visibility("default"))) void operator delete[](void *p) noexcept { do_free(p); }
__attribute__((visibility("default"))) void operator delete(void *p, size_t) noexcept { do_free(p); }
__attribute__((visibility("default"))) void operator delete[](void *p, size_t) noexcept { do_free(p); }
__attribute__((visibility("default"))) void operator delete(void *p, std::align_val_t) noexcept { do_free(p); }
__attribute__((visibility("default"))) void operator delete[](void *p, std::align_val_t) noexcept { do_free(p); }
__attribute__((visibility("default"))) void operator delete(void *p, size_t, std::align_val_t) noexcept { do_free(p); }
__attribute__((visibility("default"))) void operator delete[](void *p, size_t, std::align_val_t) noexcept { do_free(p); }
EXP char *strdup(const char *s) {
  size_t n = strlen(s) + 1; void *p = do_malloc(n, 16, RA); if (p) memcpy(p, s, n); return (char *)p;
}

// ================================================================ instrumentation callbacks
EXP void __tsan_init() {}
EXP void __tsan_func_entry(void *) {}
EXP void __tsan_func_exit() {}
EXP void __tsan_vptr_update(void **p, void *) { if (on()) access(p, 8, true, RA); }
EXP void __tsan_vptr_read(void **p) { if (on()) access(p, 8, false, RA); }
#define RW(N)                                                                            \
  EXP void __tsan_read##N(void *p) { if (on()) access(p, N, false, RA); }                \
  EXP void __tsan_write##N(void *p) { if (on()) access(p, N, true, RA); }                \
  EXP void __tsan_unaligned_read##N(void *p) { if (on()) access(p, N, false, RA); }      \
  EXP void __tsan_unaligned_write##N(void *p) { if (on()) access(p, N, true, RA); }      \
  EXP void __tsan_volatile_read##N(void *p) { if (on()) access(p, N, false, RA); }       \
  EXP void __tsan_volatile_write##N(void *p) { if (on()) access(p, N, true, RA); }       \
  EXP void __tsan_read##N##_pc(void *p, void *) { if (on()) access(p, N, false, RA); }   \
  EXP void __tsan_write##N##_pc(void *p, void *) { if (on()) access(p, N, true, RA); }
RW(1) RW(2) RW(4) RW(8) RW(16)
static void range_acc(void *p, size_t n, bool w, void *pc) {
  if (!n || !on()) return;
  // bounds check the whole range, then model it as a few separate accesses
  if (in_arena(p)) {
    bool freed = false;
    if (!range_ok((uint64_t)p, n, &freed)) {
      char fn[200]; sim::describe(pc, fn, sizeof fn);
      MEM("%s %s of a %zu byte range in %s", freed ? "use-after-free" : "out-of-bounds", w ? "write" : "read", n, fn);
    }
  }
  size_t stepn = n > 64 ? (n / 8) & ~7ull : 8;
  for (size_t o = 0; o < n; o += stepn) access((char *)p + o, 1, w, pc);
}
EXP void __tsan_read_range(void *p, size_t n) { range_acc(p, n, false, RA); }
EXP void __tsan_write_range(void *p, size_t n) { range_acc(p, n, true, RA); }
EXP void *sim_memcpy(void *d, const void *s, size_t n) { range_acc((void *)s, n, false, RA); range_acc(d, n, true, RA); return memcpy(d, s, n); }
EXP void *sim_memmove(void *d, const void *s, size_t n) { range_acc((void *)s, n, false, RA); range_acc(d, n, true, RA); return memmove(d, s, n); }
EXP void *sim_memset(void *d, int c, size_t n) { range_acc(d, n, true, RA); return memset(d, c, n); }

typedef unsigned char a8; typedef unsigned short a16; typedef unsigned int a32; typedef unsigned long a64;
#define AT(N, T)                                                                                                   \
  EXP T __tsan_atomic##N##_load(const volatile T *p, int) { if (on()) access((void *)p, N / 8, false, RA); return *p; }  \
  EXP void __tsan_atomic##N##_store(volatile T *p, T v, int) { if (on()) access((void *)p, N / 8, true, RA); *p = v; }   \
  EXP T __tsan_atomic##N##_exchange(volatile T *p, T v, int) { if (on()) access((void *)p, N / 8, true, RA); return __atomic_exchange_n(p, v, 5); } \
  EXP T __tsan_atomic##N##_fetch_add(volatile T *p, T v, int) { if (on()) access((void *)p, N / 8, true, RA); return __atomic_fetch_add(p, v, 5); } \
  EXP T __tsan_atomic##N##_fetch_sub(volatile T *p, T v, int) { if (on()) access((void *)p, N / 8, true, RA); return __atomic_fetch_sub(p, v, 5); } \
  EXP T __tsan_atomic##N##_fetch_and(volatile T *p, T v, int) { if (on()) access((void *)p, N / 8, true, RA); return __atomic_fetch_and(p, v, 5); } \
  EXP T __tsan_atomic##N##_fetch_or(volatile T *p, T v, int) { if (on()) access((void *)p, N / 8, true, RA); return __atomic_fetch_or(p, v, 5); }   \
  EXP T __tsan_atomic##N##_fetch_xor(volatile T *p, T v, int) { if (on()) access((void *)p, N / 8, true, RA); return __atomic_fetch_xor(p, v, 5); } \
  EXP T __tsan_atomic##N##_fetch_nand(volatile T *p, T v, int) { if (on()) access((void *)p, N / 8, true, RA); return __atomic_fetch_nand(p, v, 5); } \
  EXP int __tsan_atomic##N##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { if (on()) access((void *)p, N / 8, true, RA); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
  EXP int __tsan_atomic##N##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { if (on()) access((void *)p, N / 8, true, RA); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
  EXP T __tsan_atomic##N##_compare_exchange_val(volatile T *p, T e, T v, int, int) { if (on()) access((void *)p, N / 8, true, RA); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, a8) AT(16, a16) AT(32, a32) AT(64, a64)
EXP void __tsan_atomic_thread_fence(int) {}
EXP void __tsan_atomic_signal_fence(int) {}

// ================================================================ threads
EXP int pthread_create(pthread_t *out, const pthread_attr_t *attr, void *(*fn)(void *), void *arg) {
  static int (*r)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) =
      (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))real("pthread_create");
  if (!on()) return r(out, attr, fn, arg);
  sync_point(1);
  In in;
  long i = n_create++;
  if (i == b_create) first_create = call_steps();
  if (take(cf.fail_create, i - b_create) || (cf.create_from >= 0 && i - b_create >= cf.create_from)) {
    if (sh) sh->faults[F_THREAD_CREATE]++;
    note(0xEA6A1 + i);
    return EAGAIN;
  }
  if (nthr >= MAXT) return EAGAIN;
  if (!tkey_ok) { pthread_key_create(&tkey, finish_thread); tkey_ok = true; }
  int t = nthr++;
  Thr &T = thr[t];
  T.st = S_RUN; T.lstep = 0; T.nblk = 0; T.joined = false; T.detached = false; T.fn = fn; T.arg = arg; T.sem.store(0); T.ev_i = 0;
  if (attr) { int ds = 0; pthread_attr_getdetachstate(attr, &ds); T.detached = ds == PTHREAD_CREATE_DETACHED; }
  resched_params(t);
  nrun++; nlive++;
  if (nlive > c_peak) c_peak = nlive;
  if (sh && nlive > sh->max_live) sh->max_live = nlive;
  pthread_attr_t a; pthread_attr_init(&a);
  pthread_attr_setstack(&a, (void *)(STACK_BASE + (uint64_t)t * STACK_SLOT), STACK_SLOT);
  int e = r(&T.real, &a, tramp, (void *)(intptr_t)t);
  pthread_attr_destroy(&a);
  if (e) { T.st = S_DONE; nrun--; nlive--; return e; }
  *out = T.real;
  note(0xC0 + t);
  t_in--; sync_point(2); t_in++;
  return 0;
}
static int find_thr(pthread_t p) {
  for (int i = 1; i < nthr; i++) if (thr[i].real == p && !thr[i].joined && (thr[i].st != S_FREE)) return i;
  return -1;
}
EXP int pthread_join(pthread_t p, void **ret) {
  static int (*r)(pthread_t, void **) = (int (*)(pthread_t, void **))real("pthread_join");
  if (!on()) return r(p, ret);
  sync_point(3);
  In in;
  int t = find_thr(p);
  if (t < 0) return ESRCH;
  while (thr[t].st != S_DONE) block_on(&thr[t]);
  int e = r(p, ret);
  thr[t].joined = true;
  t_in--; sync_point(4); t_in++;
  return e;
}
EXP int pthread_detach(pthread_t p) {
  static int (*r)(pthread_t) = (int (*)(pthread_t))real("pthread_detach");
  if (!on()) return r(p);
  sync_point(5);
  In in;
  int t = find_thr(p);
  if (t >= 0) thr[t].detached = true;
  return r(p);
}
EXP int pthread_setaffinity_np(pthread_t p, size_t n, const cpu_set_t *c) {
  static int (*r)(pthread_t, size_t, const cpu_set_t *) = (int (*)(pthread_t, size_t, const cpu_set_t *))real("pthread_setaffinity_np");
  if (!on()) return r(p, n, c);
  sync_point(6);
  return 0;
}
EXP int sched_yield() { if (on()) { sync_point(7); return 0; } return rawsyscall(SYS_sched_yield); }

// ================================================================ mutexes and friends
EXP int pthread_mutex_lock(pthread_mutex_t *m) {
  static int (*r)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))real("pthread_mutex_lock");
  if (!on()) return r(m);
  sync_point(20);
  In in;
  obj_check(m, sizeof *m, "mutex lock");
  bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
  for (;;) {
    int i = mx_find(m);
    if (i < 0) { mxs.push_back({m, t_tid, 1, rec}); break; }
    if (mxs[i].owner == t_tid) {
      if (rec) { mxs[i].count++; break; }
    }
    block_on(m);
  }
  return 0;
}
EXP int pthread_mutex_trylock(pthread_mutex_t *m) {
  static int (*r)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))real("pthread_mutex_trylock");
  if (!on()) return r(m);
  sync_point(21);
  In in;
  int i = mx_find(m);
  if (i < 0) { mxs.push_back({m, t_tid, 1, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP}); return 0; }
  if (mxs[i].rec && mxs[i].owner == t_tid) { mxs[i].count++; return 0; }
  return EBUSY;
}
static void mx_unlock(const void *m) {
  int i = mx_find(m);
  if (i >= 0 && --mxs[i].count == 0) { mxs.erase(mxs.begin() + i); wake_obj(m); }
}
EXP int pthread_mutex_unlock(pthread_mutex_t *m) {
  static int (*r)(pthread_mutex_t *) = (int (*)(pthread_mutex_t *))real("pthread_mutex_unlock");
  if (!on()) return r(m);
  { In in; obj_check(m, sizeof *m, "mutex unlock");
    if (mx_find(m) < 0 ) { t_in--; int e = r(m); t_in++; return e; }
    mx_unlock(m); }
  sync_point(22);
  return 0;
}
// rwlocks: table of readers / writer, expressed with the same blocking primitive
struct Rw { const void *a; int readers; int writer; };
static std::vector<Rw> rws;
static Rw &rw_get(const void *a) { for (auto &x : rws) if (x.a == a) return x; rws.push_back({a, 0, -1}); return rws.back(); }
EXP int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
  static int (*r)(pthread_rwlock_t *) = (int (*)(pthread_rwlock_t *))real("pthread_rwlock_rdlock");
  if (!on()) return r(l);
  sync_point(23); In in;
  while (rw_get(l).writer >= 0) block_on(l);
  rw_get(l).readers++; return 0;
}
EXP int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
  static int (*r)(pthread_rwlock_t *) = (int (*)(pthread_rwlock_t *))real("pthread_rwlock_wrlock");
  if (!on()) return r(l);
  sync_point(24); In in;
  while (rw_get(l).writer >= 0 || rw_get(l).readers > 0) block_on(l);
  rw_get(l).writer = t_tid; return 0;
}
EXP int pthread_rwlock_unlock(pthread_rwlock_t *l) {
  static int (*r)(pthread_rwlock_t *) = (int (*)(pthread_rwlock_t *))real("pthread_rwlock_unlock");
  if (!on()) return r(l);
  { In in; Rw &x = rw_get(l); if (x.writer < 0 && x.readers == 0) { t_in--; int e = r(l); t_in++; return e; }
    if (x.writer >= 0) x.writer = -1; else x.readers--;
    wake_obj(l); }
  sync_point(25); return 0;
}
// condition variables
static int cond_wait_impl(pthread_cond_t *c, pthread_mutex_t *m, bool timed, double dl) {
  int to = 0;
  { In in;
    mx_unlock(m);
    block_on(c, timed, dl);
    to = thr[t_tid].timedout ? ETIMEDOUT : 0; thr[t_tid].timedout = false;
    for (;;) { int i = mx_find(m); if (i < 0) { mxs.push_back({m, t_tid, 1, false}); break; } block_on(m); }
  }
  return to;
}
static double abs_to_sim(const struct timespec *t) { return (double)t->tv_sec - 1000000000.0 + t->tv_nsec * 1e-9; }
EXP int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
  static int (*r)(pthread_cond_t *, pthread_mutex_t *) = (int (*)(pthread_cond_t *, pthread_mutex_t *))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
  if (!on()) return r(c, m);
  sync_point(26);
  return cond_wait_impl(c, m, false, 0);
}
EXP int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) {
  static int (*r)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *) = (int (*)(pthread_cond_t *, pthread_mutex_t *, const struct timespec *))dlvsym(RTLD_NEXT, "pthread_cond_timedwait", "GLIBC_2.3.2");
  if (!on()) return r(c, m, t);
  sync_point(26);
  return cond_wait_impl(c, m, true, abs_to_sim(t));
}
EXP int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) {
  static int (*r)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *) = (int (*)(pthread_cond_t *, pthread_mutex_t *, clockid_t, const struct timespec *))real("pthread_cond_clockwait");
  if (!on()) return r(c, m, k, t);
  sync_point(26);
  return cond_wait_impl(c, m, true, abs_to_sim(t));
}
EXP int pthread_cond_signal(pthread_cond_t *c) {
  static int (*r)(pthread_cond_t *) = (int (*)(pthread_cond_t *))dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2");
  if (!on()) return r(c);
  { In in; wake_obj(c, 1); }
  sync_point(27); return 0;
}
EXP int pthread_cond_broadcast(pthread_cond_t *c) {
  static int (*r)(pthread_cond_t *) = (int (*)(pthread_cond_t *))dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2");
  if (!on()) return r(c);
  { In in; wake_obj(c); }
  sync_point(28); return 0;
}
EXP int sem_wait(sem_t *s) {
  static int (*r)(sem_t *) = (int (*)(sem_t *))real("sem_wait");
  if (!on()) return r(s);
  sync_point(29); In in;
  while (sem_trywait(s) != 0) block_on(s);
  return 0;
}
EXP int sem_post(sem_t *s) {
  static int (*r)(sem_t *) = (int (*)(sem_t *))real("sem_post");
  int e = r(s);
  if (!on()) return e;
  { In in; wake_obj(s); }
  sync_point(30); return e;
}
struct Bar { const void *a; unsigned n, in; };
static std::vector<Bar> bars;
EXP int pthread_barrier_init(pthread_barrier_t *b, const pthread_barrierattr_t *at, unsigned n) {
  static int (*r)(pthread_barrier_t *, const pthread_barrierattr_t *, unsigned) = (int (*)(pthread_barrier_t *, const pthread_barrierattr_t *, unsigned))real("pthread_barrier_init");
  if (on()) { In in; bars.push_back({b, n, 0}); }
  return r(b, at, n);
}
EXP int pthread_barrier_wait(pthread_barrier_t *b) {
  static int (*r)(pthread_barrier_t *) = (int (*)(pthread_barrier_t *))real("pthread_barrier_wait");
  if (!on()) return r(b);
  sync_point(31); In in;
  for (auto &x : bars) if (x.a == b) {
    if (++x.in == x.n) { x.in = 0; wake_obj(b); return PTHREAD_BARRIER_SERIAL_THREAD; }
    block_on(b); return 0;
  }
  return r(b);
}
// static-local and call_once initialisation may be preempted: cooperative versions
EXP int simx_guard_acquire(uint64_t *g) __asm__("__cxa_guard_acquire");
EXP int simx_guard_acquire(uint64_t *g) {
  for (;;) {
    if (*(volatile char *)g) return 0;
    if (((volatile char *)g)[1] == 0) { ((volatile char *)g)[1] = 1; return 1; }
    if (on()) { In in; block_on(g); } else { static int (*r)() = (int (*)())sched_yield; r(); }
  }
}
EXP void simx_guard_release(uint64_t *g) noexcept __asm__("__cxa_guard_release");
EXP void simx_guard_release(uint64_t *g) noexcept { ((volatile char *)g)[1] = 0; *(volatile char *)g = 1; if (on()) { In in; wake_obj(g); } }
EXP void simx_guard_abort(uint64_t *g) noexcept __asm__("__cxa_guard_abort");
EXP void simx_guard_abort(uint64_t *g) noexcept { ((volatile char *)g)[1] = 0; if (on()) { In in; wake_obj(g); } }
EXP int pthread_once(pthread_once_t *o, void (*f)()) {
  static int (*r)(pthread_once_t *, void (*)()) = (int (*)(pthread_once_t *, void (*)()))real("pthread_once");
  if (!on()) return r(o, f);
  // 0 new, 2 done (glibc), 0x51 in progress here
  for (;;) {
    volatile int *v = (volatile int *)o;
    if (*v == 2) return 0;
    if (*v == 0) {
      *v = 0x51;
      try { f(); } catch (...) { *v = 0; In in; wake_obj(o); throw; }
      *v = 2; In in; wake_obj(o); return 0;
    }
    In in; block_on(o);
  }
}
EXP long syscall(long n, ...) {
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (n == SYS_futex && on()) {
    int op = (int)b & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      sync_point(40);
      In in;
      if (*(volatile int *)a != (int)c) { errno = EAGAIN; return -1; }
      if (d) {
        const struct timespec *t = (const struct timespec *)d;
        double dl = op == FUTEX_WAIT ? s_time + t->tv_sec + t->tv_nsec * 1e-9 : abs_to_sim(t);
        block_on((void *)a, true, dl);
        if (thr[t_tid].timedout) { thr[t_tid].timedout = false; errno = ETIMEDOUT; return -1; }
      } else block_on((void *)a);
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { { In in; wake_obj((void *)a, (int)c < 0 ? INT_MAX : (int)c); } sync_point(41); return 0; }
  }
  long r = rawsyscall(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}

// ================================================================ clocks and sleeps (simulated)
static void sim_sleep(double s) { In in; if (s < 0) s = 0; block_on(nullptr, true, s_time + s); }
EXP int nanosleep(const struct timespec *t, struct timespec *rem) {
  static int (*r)(const struct timespec *, struct timespec *) = (int (*)(const struct timespec *, struct timespec *))real("nanosleep");
  if (!on()) return r(t, rem);
  sim_sleep(t->tv_sec + t->tv_nsec * 1e-9); return 0;
}
EXP int clock_nanosleep(clockid_t k, int fl, const struct timespec *t, struct timespec *rem) {
  static int (*r)(clockid_t, int, const struct timespec *, struct timespec *) = (int (*)(clockid_t, int, const struct timespec *, struct timespec *))real("clock_nanosleep");
  if (!on()) return r(k, fl, t, rem);
  sim_sleep(fl & TIMER_ABSTIME ? abs_to_sim(t) - s_time : t->tv_sec + t->tv_nsec * 1e-9); return 0;
}
EXP int usleep(useconds_t u) {
  static int (*r)(useconds_t) = (int (*)(useconds_t))real("usleep");
  if (!on()) return r(u);
  sim_sleep(u * 1e-6); return 0;
}
EXP unsigned sleep(unsigned u) {
  static unsigned (*r)(unsigned) = (unsigned (*)(unsigned))real("sleep");
  if (!on()) return r(u);
  sim_sleep(u); return 0;
}
EXP int clock_gettime(clockid_t k, struct timespec *t) {
  if (!on()) { long r = rawsyscall(SYS_clock_gettime, k, (long)t); if (r < 0) { errno = (int)-r; return -1; } return 0; }
  s_time += 1e-7;
  double v = 1000000000.0 + s_time + g_step * 1e-9;
  t->tv_sec = (time_t)v; t->tv_nsec = (long)((v - (double)t->tv_sec) * 1e9);
  return 0;
}
EXP int gettimeofday(struct timeval *tv, void *) {
  struct timespec t; clock_gettime(CLOCK_REALTIME, &t);
  if (tv) { tv->tv_sec = t.tv_sec; tv->tv_usec = t.tv_nsec / 1000; }
  return 0;
}

// ================================================================ machine shape
EXP int get_nprocs() { static int (*r)() = (int (*)())real("get_nprocs"); return on() ? cfg.ncpu : r(); }
EXP int get_nprocs_conf() { static int (*r)() = (int (*)())real("get_nprocs_conf"); return on() ? cfg.ncpu : r(); }
EXP long sysconf(int n) {
  static long (*r)(int) = (long (*)(int))real("sysconf");
  if (on() && (n == _SC_NPROCESSORS_ONLN || n == _SC_NPROCESSORS_CONF)) return cfg.ncpu;
  return r(n);
}
EXP unsigned _ZNSt6thread20hardware_concurrencyEv() {
  if (on()) return cfg.ncpu;
  static int (*r)() = (int (*)())real("get_nprocs"); return r();
}

// ================================================================ signals (virtual table)
EXP sighandler_t signal(int s, sighandler_t h) {
  static sighandler_t (*r)(int, sighandler_t) = (sighandler_t(*)(int, sighandler_t))real("signal");
  if (!on() || s < 1 || s > 64) { if (g_child && s >= 1 && s < 65 && g_active) return SIG_DFL; return r(s, h); }
  sync_point(50);
  sighandler_t o = vsig[s].sa_handler;
  memset(&vsig[s], 0, sizeof vsig[s]); vsig[s].sa_handler = h;
  sync_point(51);
  return o;
}
EXP int sigaction(int s, const struct sigaction *n, struct sigaction *o) {
  static int (*r)(int, const struct sigaction *, struct sigaction *) = (int (*)(int, const struct sigaction *, struct sigaction *))real("sigaction");
  if (!on() || s < 1 || s > 64) return r(s, n, o);
  sync_point(52);
  struct sigaction old = vsig[s];
  if (n) vsig[s] = *n;
  if (o) *o = old;
  sync_point(53);
  return 0;
}
EXP int sigprocmask(int h, const sigset_t *n, sigset_t *o) {
  static int (*r)(int, const sigset_t *, sigset_t *) = (int (*)(int, const sigset_t *, sigset_t *))real("sigprocmask");
  if (on()) { if (o) sigemptyset(o); return 0; }
  return r(h, n, o);
}
EXP int pthread_sigmask(int h, const sigset_t *n, sigset_t *o) {
  static int (*r)(int, const sigset_t *, sigset_t *) = (int (*)(int, const sigset_t *, sigset_t *))real("pthread_sigmask");
  if (on()) { if (o) sigemptyset(o); return 0; }
  return r(h, n, o);
}
EXP int raise(int s) {
  if (on() && s != SIGABRT) { deliver(s); return 0; }
  return (int)rawsyscall(SYS_tgkill, getpid(), rawsyscall(SYS_gettid), s);
}

// ================================================================ FFTW
static PlanRec *plan_find(void *p) { if (plans) for (auto &x : *plans) if (x.p == p) return &x; return nullptr; }
static void planner_enter(const char *what) {
  sync_point(60);
  In in;
  if (planner_owner >= 0 && planner_owner != t_tid && !planner_safe) {
    planner_bad = true;
    violation("planner-reentered", "%s entered by thread %d while thread %d is inside the FFT planner", what, t_tid, planner_owner);
  }
  planner_owner = t_tid;
  t_in--; sync_point(61); t_in++;
}
static void planner_leave() {
  sync_point(62);
  if (planner_owner == t_tid) planner_owner = -1;
  sync_point(63);
}
static bool plan_fail() {
  long i = n_plan++;
  if (cf.fail_plan.empty() || !take(cf.fail_plan, i - b_plan)) return false;
  if (sh) sh->faults[F_FFTW_PLAN]++;
  return true;
}
static void rec_plan(void *p, int kind, long n) { In in; if (!plans) plans = new std::vector<PlanRec>; plans->push_back({p, kind, n}); plans_alive++; }
#define REALFN(name) static decltype(&name) r = (decltype(&name))real(#name)
EXP fftw_plan fftw_plan_dft_r2c_1d(int n, double *i, fftw_complex *o, unsigned fl) {
  REALFN(fftw_plan_dft_r2c_1d);
  if (!on()) return r(n, i, o, fl);
  planner_enter("fftw_plan_dft_r2c_1d");
  fftw_plan p = plan_fail() ? nullptr : r(n, i, o, (fl & ~(unsigned)(FFTW_PATIENT | FFTW_EXHAUSTIVE | FFTW_MEASURE)) | FFTW_ESTIMATE);
  if (p && !(fl & FFTW_ESTIMATE)) { In in; memset(i, 0xE7, n * sizeof(double)); memset(o, 0xE7, (n / 2 + 1) * sizeof(fftw_complex)); } // a measuring planner overwrites its arrays
  if (p) rec_plan(p, 1, n);
  planner_leave();
  return p;
}
EXP fftw_plan fftw_plan_dft_c2r_1d(int n, fftw_complex *i, double *o, unsigned fl) {
  REALFN(fftw_plan_dft_c2r_1d);
  if (!on()) return r(n, i, o, fl);
  planner_enter("fftw_plan_dft_c2r_1d");
  fftw_plan p = plan_fail() ? nullptr : r(n, i, o, (fl & ~(unsigned)(FFTW_PATIENT | FFTW_EXHAUSTIVE | FFTW_MEASURE)) | FFTW_ESTIMATE);
  if (p && !(fl & FFTW_ESTIMATE)) { In in; memset(o, 0xE7, n * sizeof(double)); memset(i, 0xE7, (n / 2 + 1) * sizeof(fftw_complex)); }
  if (p) rec_plan(p, 2, n);
  planner_leave();
  return p;
}
EXP void fftw_destroy_plan(fftw_plan p) {
  REALFN(fftw_destroy_plan);
  if (!on()) { if (g_child && p) { In in; PlanRec *x = plan_find(p); if (x) { *x = plans->back(); plans->pop_back(); plans_alive--; } } r(p); return; }
  planner_enter("fftw_destroy_plan");
  { In in; PlanRec *x = plan_find(p); if (x) { *x = plans->back(); plans->pop_back(); plans_alive--; }
    else if (p) violation("crash", "an FFT plan is destroyed twice"); }
  if (p) r(p);
  planner_leave();
}
EXP void fftw_make_planner_thread_safe() { planner_safe = true; }
static void exec_check(void *p, void *i, void *o, void *pc) {
  PlanRec *x = plan_find(p);
  if (!p) violation("crash", "an FFT is executed with a null plan");
  if (!x) { violation("crash", "an FFT is executed with a destroyed or unknown plan"); }
  size_t rn = x->n * sizeof(double), cn = (x->n / 2 + 1) * sizeof(fftw_complex);
  range_acc(i, x->kind == 1 ? rn : cn, false, pc);
  range_acc(o, x->kind == 1 ? cn : rn, true, pc);
}
EXP void fftw_execute_dft_r2c(const fftw_plan p, double *i, fftw_complex *o) {
  REALFN(fftw_execute_dft_r2c);
  if (!on()) { r(p, i, o); return; }
  exec_check((void *)p, i, o, RA);
  sync_point(64); r(p, i, o); sync_point(65);
}
EXP void fftw_execute_dft_c2r(const fftw_plan p, fftw_complex *i, double *o) {
  REALFN(fftw_execute_dft_c2r);
  if (!on()) { r(p, i, o); return; }
  exec_check((void *)p, i, o, RA);
  sync_point(66); r(p, i, o); sync_point(67);
}
EXP void *fftw_malloc(size_t n) { return do_malloc(n, 64, RA); }
EXP double *fftw_alloc_real(size_t n) { return (double *)do_malloc(n * sizeof(double), 64, RA); }
EXP fftw_complex *fftw_alloc_complex(size_t n) { return (fftw_complex *)do_malloc(n * sizeof(fftw_complex), 64, RA); }
EXP void fftw_free(void *p) { do_free(p); }
EXP int fftw_import_wisdom_from_string(const char *s) {
  REALFN(fftw_import_wisdom_from_string);
  if (!on()) return r(s);
  planner_enter("fftw_import_wisdom_from_string");
  long i = n_wisdom++;
  int e;
  if (!cf.fail_wisdom.empty() && take(cf.fail_wisdom, i - b_wisdom)) { if (sh) sh->faults[F_WISDOM]++; e = 0; }
  else { In in; e = r(s); }
  planner_leave();
  return e;
}
EXP void fftw_forget_wisdom() { REALFN(fftw_forget_wisdom); if (!on()) { r(); return; } planner_enter("fftw_forget_wisdom"); r(); planner_leave(); }
EXP char *fftw_export_wisdom_to_string() {
  REALFN(fftw_export_wisdom_to_string);
  if (!on()) return r();
  planner_enter("fftw_export_wisdom_to_string"); char *p = r(); planner_leave(); return p;
}
