// Driver: seeded search over simulated runs, gating, minimisation, replay, evidence.
#include "prop.h"
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <csignal>
#include <ctime>
#include <algorithm>
#include <set>
#include <unordered_set>
#include <fstream>
#include <sstream>
#include <fcntl.h>
#include <sched.h>
#include <map>
#include <sys/stat.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace sim;
std::string Scenario::text() const {
  std::ostringstream o;
  o << "prop " << prop << "\nseed " << seed << "\nsim";
  for (auto &x : sim.v) o << " " << x.first << "=" << x.second;
  o << "\n";
  for (auto &op : ops) { o << "op " << op.fn; for (auto &x : op.p.v) o << " " << x.first << "=" << x.second; o << "\n"; }
  return o.str();
}
static void parse_params(std::istringstream &l, Params &p) {
  std::string t;
  while (l >> t) { auto e = t.find('='); if (e != std::string::npos) p.v.push_back({t.substr(0, e), atol(t.c_str() + e + 1)}); }
}
bool Scenario::parse(const std::string &t, Scenario &s) {
  std::istringstream in(t); std::string line; s = Scenario();
  while (std::getline(in, line)) {
    std::istringstream l(line); std::string k; l >> k;
    if (k == "prop") l >> s.prop; else if (k == "seed") l >> s.seed; else if (k == "sim") parse_params(l, s.sim);
    else if (k == "op") { Op o; l >> o.fn; parse_params(l, o.p); s.ops.push_back(o); }
  }
  return !s.prop.empty();
}
void fail(const char *cls, const char *fmt, ...) {
  char b[900]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  sim::violation(cls, "%s", b);
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ------------------------------------------------------------------ one execution
struct Outcome { bool violated = false, harness_error = false, skip = false; std::string cls, msg; uint64_t hash = 0; std::vector<Ev> evs; };
static const Prop *P;
static Cfg mkcfg(const Scenario &s) {
  Cfg c; c.seed = s.seed; c.policy = (int)s.sim.get("policy"); c.p_pre = s.sim.get("ppre") * 1e-6; c.p_hot = s.sim.get("phot") * 1e-6;
  c.p_sync = s.sim.get("psync", 50) * 1e-2; c.depth = (int)s.sim.get("depth"); c.horizon = s.sim.get("horizon", 20000); c.ncpu = (int)s.sim.get("ncpu", 4);
  c.step_cap = s.sim.get("cap", 60000000);
  return c;
}
static uint64_t evhash(const Shared *s) { uint64_t h = 7; for (int i = 0; i < s->nev; i++) { h = mix(h, ((uint64_t)s->ev[i].tid << 32) ^ s->ev[i].act); h = mix(h, s->ev[i].at * 977 + s->ev[i].arg); } return h; }
static Outcome execute(Scenario s, const std::vector<Ev> *replay, Shared *shm) {
  sh = shm;
  memset(sh, 0, offsetof(Shared, ev)); sh->nseen = 0;
  fflush(stdout); fflush(stderr);
  pid_t pid = fork();
  if (pid == 0) {
    int m = memfd_create("cap", 0);
    dup2(m, 1); dup2(m, 2); close(m);
    int nul = open("/dev/null", O_RDONLY); dup2(nul, 0);
    struct rlimit rl = {20, 30}; setrlimit(RLIMIT_CPU, &rl);
    struct rlimit core = {0, 0}; setrlimit(RLIMIT_CORE, &core);
    signal(SIGXCPU, SIG_DFL); signal(SIGALRM, SIG_DFL); signal(SIGSEGV, SIG_DFL); signal(SIGABRT, SIG_DFL); signal(SIGBUS, SIG_DFL); signal(SIGFPE, SIG_DFL); signal(SIGILL, SIG_DFL);
    alarm(200);
    unsetenv("DREAM_NUM_THREADS"); unsetenv("OMP_NUM_THREADS");
    Cfg c = mkcfg(s);
    if (replay) { c.replay = true; c.evs = *replay; }
    arena_on();
    set_mem_fatal(P->mem_fatal);
    session_begin(c);
    { Harness h; P->run(s); }
    session_end();
    _exit(0);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Outcome o;
  o.hash = sh->hash ^ evhash(sh);
  o.evs.assign(sh->ev, sh->ev + sh->nev);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->done) { o.skip = sh->skip; return o; }
  if (sh->violated) { o.violated = true; o.cls = sh->vclass; o.msg = sh->vmsg; if ((o.cls == "memory" || o.cls == "no-progress") && strstr(sh->cur, " with ")) o.msg += std::string(" in ") + sh->cur; return o; }
  o.hash = evhash(sh);
  if (WIFSIGNALED(st)) {
    int g = WTERMSIG(st);
    o.violated = true;
    if (g == SIGXCPU || g == SIGKILL || g == SIGALRM) { o.cls = "hang"; o.msg = "the call did not return"; }
    else if (g == SIGABRT) { o.cls = "abort"; o.msg = "the process was terminated (abort)"; }
    else { o.cls = "crash"; o.msg = std::string("the process crashed: ") + strsignal(g); }
    if (sh->cur[0]) o.msg += std::string(" in ") + sh->cur;
    return o;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) != 2 && sh->cur[0]) { o.violated = true; o.cls = "exit"; o.msg = std::string("the process was ended in ") + sh->cur; return o; }
  o.harness_error = true; o.msg = "unexpected child exit status " + std::to_string(st);
  return o;
}
static Shared *newshared() {
  void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return (Shared *)p;
}
// ------------------------------------------------------------------ search workers
static const int MAXSIG = 400000;
struct Agg {
  long runs, skipped, multi, rechecks, mismatches, nontrivial, ninj, harness_err;
  long gsteps, switches, preempts, hot, threads, max_live, calls, faults[F_NKINDS], probes[32], known[64];
  double simtime;
  int viol; char vclass[64], vmsg[1024]; long vidx; 
  char herr[256];
  int nsig, nstate; uint64_t sigs[MAXSIG], states[MAXSIG];
};
struct Ctl { long next; int stop; };
struct Known { std::string prop, key, text; };
static std::vector<Known> known;
static uint64_t base_seed = 1;
static std::vector<std::string> only;
static Scenario make(long idx) {
  Scenario s; s.prop = P->id; s.seed = mix(base_seed * 1000003 + 17, idx) ; 
  for (const char *c = P->id; *c; c++) s.seed = mix(s.seed, *c);
  Rng r(s.seed);
  P->gen(r, s, idx);
  return s;
}
static int is_known(const std::string &msg) {
  for (size_t i = 0; i < known.size(); i++) if (known[i].prop == P->id && msg.find("[" + known[i].key + "]") != std::string::npos) return (int)i;
  return -1;
}
static void worker(int w, Agg *a, Ctl *ctl, double deadline, long maxruns) {
  cpu_set_t set; CPU_ZERO(&set);
  cpu_set_t av; sched_getaffinity(0, sizeof av, &av); int n = CPU_COUNT(&av), k = 0;
  for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &av)) { if (k++ == w % n) CPU_SET(i, &set); }
  sched_setaffinity(0, sizeof set, &set);
  Shared *s = newshared();
  std::unordered_set<uint64_t> sigs, states;
  while (!ctl->stop && now() < deadline) {
    long idx = __atomic_fetch_add(&ctl->next, 1, __ATOMIC_SEQ_CST);
    if (maxruns && idx >= maxruns) break;
    Scenario sc = make(idx);
    Outcome o = execute(sc, nullptr, s);
    if (o.harness_error) { a->harness_err++; snprintf(a->herr, sizeof a->herr, "%s (index %ld)", o.msg.c_str(), idx); ctl->stop = 1; break; }
    a->runs++;
    if (o.skip) a->skipped++;
    a->gsteps += s->gsteps; a->switches += s->switches; a->preempts += s->preempts; a->hot += s->hot_hits; a->threads += s->threads_created;
    a->max_live = std::max(a->max_live, s->max_live); a->calls += s->calls; a->simtime += s->simtime;
    long inj = 0;
    for (int i = 0; i < F_NKINDS; i++) { a->faults[i] += s->faults[i]; if (i != F_STALL) inj += s->faults[i]; }
    for (int i = 0; i < 32; i++) a->probes[i] += s->probes[i];
    if (s->max_live >= 2) a->multi++;
    if (inj) a->ninj++;
    if (!o.skip && (s->max_live >= 2 || inj)) {
      uint64_t h = s->sched_sig; for (auto &op : sc.ops) { for (char c : op.fn) h = mix(h, c); for (auto &x : op.p.v) if (x.first != "ds") h = mix(h, x.second); }
      for (int i = 0; i < F_NKINDS; i++) h = mix(h, s->faults[i]);
      if ((int)sigs.size() < MAXSIG) sigs.insert(h);
    }
    if (s->sched_sig && (int)states.size() < MAXSIG) states.insert(s->sched_sig);
    if (o.violated) {
      int kf = is_known(o.msg);
      if (kf >= 0) { a->known[kf]++; continue; }
      if (!__atomic_exchange_n(&ctl->stop, 1, __ATOMIC_SEQ_CST)) {
        a->viol = 1; a->vidx = idx; snprintf(a->vclass, 64, "%s", o.cls.c_str()); snprintf(a->vmsg, 1024, "%s", o.msg.c_str());
      }
      break;
    }
    if (idx % 25 == 0) {
      a->rechecks++;
      Outcome o2 = execute(sc, nullptr, s);
      if (o2.hash != o.hash || o2.violated != o.violated) { a->mismatches++; if (a->mismatches < 3) fprintf(stderr, "determinism: index %ld differs\n", idx); }
      else { Outcome o3 = execute(sc, &o.evs, s); a->rechecks++; if (o3.hash != o.hash) { a->mismatches++; if (a->mismatches < 3) fprintf(stderr, "determinism: replay of index %ld differs\n", idx); } }
    }
  }
  for (auto x : sigs) a->sigs[a->nsig++] = x;
  for (auto x : states) a->states[a->nstate++] = x;
  _exit(0);
}
// ------------------------------------------------------------------ minimisation
static int min_left;
static bool still(const Scenario &s, const std::vector<Ev> &e, const std::string &cls, Shared *m, Outcome *out) {
  if (min_left-- <= 0) return false;
  Outcome o = execute(s, &e, m);
  if (o.violated && o.cls == cls && is_known(o.msg) < 0) { *out = o; return true; }
  return false;
}
static void minimise(Scenario &s, std::vector<Ev> &ev, const std::string &cls, Shared *m, Outcome &best) {
  min_left = 600;
  double t0 = now();
  auto ok = [&]() { return now() - t0 < 60; };
  Outcome o;
  for (int round = 0; round < 2 && ok(); round++) {
    std::vector<Ev> none;
    if (!ev.empty() && still(s, none, cls, m, &o)) { ev.clear(); best = o; }
    for (size_t chunk = std::max<size_t>(1, ev.size() / 2); !ev.empty() && chunk >= 1 && ok();) {
      bool red = false;
      for (size_t i = 0; i < ev.size() && ok();) {
        std::vector<Ev> t(ev.begin(), ev.begin() + i);
        if (i + chunk < ev.size()) t.insert(t.end(), ev.begin() + i + chunk, ev.end());
        if (still(s, t, cls, m, &o)) { ev = t; best = o; red = true; } else i += chunk;
        if (min_left <= 0) break;
      }
      if (min_left <= 0) break;
      if (chunk == 1 && !red) break;
      chunk = std::max<size_t>(1, chunk / 2);
      if (chunk == 1 && ev.size() > 400) break;
    }
    for (size_t i = 0; i + 1 <= s.ops.size() && s.ops.size() > 1 && ok();) {
      Scenario t = s; t.ops.erase(t.ops.begin() + i);
      if (still(t, ev, cls, m, &o)) { s = t; best = o; } else i++;
    }
    for (auto &op : s.ops)
      for (auto &x : op.p.v) {
        static const std::map<std::string, long> low = {{"No", 1}, {"ne", 3}, {"thr", 1}, {"er", 0}, {"dl", 0}, {"foc", 0}, {"steer", 0}, {"apod", 0},
          {"sigat", 0}, {"sigat2", 0}, {"fa", 0}, {"fa2", 0}, {"faw", 0}, {"faw2", 0}, {"fc", 0}, {"fc2", 0}, {"fp", 0}, {"fcl", 0}, {"Nt", 2}, {"Nr", 2}, {"cols", 1}};
        auto lo = low.find(x.first);
        if (lo == low.end()) continue;
        while (x.second > lo->second && ok() && min_left > 0) {
          long old = x.second; x.second = std::max(lo->second, old > 8 ? old / 2 : old - 1);
          if (still(s, ev, cls, m, &o)) best = o; else { x.second = old; break; }
        }
      }
  }
}
static std::string evtext(const std::vector<Ev> &ev) {
  std::ostringstream o;
  for (auto &e : ev) o << "ev " << e.tid << " " << e.act << " " << e.at << " " << e.arg << "\n";
  return o.str();
}
static std::vector<Ev> evparse(const std::string &t) {
  std::vector<Ev> v; std::istringstream in(t); std::string line;
  while (std::getline(in, line)) if (!line.compare(0, 3, "ev ")) { Ev e; long at; memset(&e, 0, sizeof e); if (sscanf(line.c_str(), "ev %d %d %ld %d", &e.tid, &e.act, &at, &e.arg) == 4) { e.at = at; v.push_back(e); } }
  return v;
}
static std::string field(const std::string &t, const char *k) {
  std::istringstream in(t); std::string line; size_t n = strlen(k);
  while (std::getline(in, line)) if (!line.compare(0, n, k) && line.size() > n && line[n] == ' ') return line.substr(n + 1);
  return "";
}
static std::string slurp(const std::string &f) { std::ifstream i(f); std::stringstream b; b << i.rdbuf(); return b.str(); }
static std::string js(const std::string &s) {
  std::string o = "\"";
  for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; }
  return o + "\"";
}
int main(int argc, char **argv) {
  std::string prop, tier = "quick", out, repdir, replay, kff, self = argv[0], modlist;
  double secs = 20; long maxruns = 0; int nw = 8; bool quiet = false; long survey = 0, one = -1; bool dump = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--prop") prop = nx(); else if (a == "--tier") tier = nx(); else if (a == "--seed") base_seed = strtoull(nx().c_str(), 0, 10);
    else if (a == "--build") host::build_dir = nx(); else if (a == "--out") out = nx(); else if (a == "--replays") repdir = nx(); else if (a == "--replay") replay = nx();
    else if (a == "--secs") secs = atof(nx().c_str()); else if (a == "--runs") maxruns = atol(nx().c_str()); else if (a == "--workers") nw = atoi(nx().c_str());
    else if (a == "--known") kff = nx(); else if (a == "--modules") modlist = nx(); else if (a == "--quiet") quiet = true; else if (a == "--one") one = atol(nx().c_str()); else if (a == "--dump") dump = true; else if (a == "--survey") survey = atol(nx().c_str());
  }
  if (!modlist.empty()) {
    for (auto &p : props) if (modlist == p.id) { printf("%s %s", p.host, p.kind); for (auto &m : p.mods) printf(" %s", m.c_str()); printf("\n"); return 0; }
    return 2;
  }
  // fixed address layout, so that nothing depends on it
  if (!getenv("SIM_NOASLR")) { setenv("SIM_NOASLR", "1", 1); int pr = personality(0xffffffff); if (pr >= 0 && personality(pr | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv); }
  setenv("OMP_NUM_THREADS", "1", 1); setenv("OPENBLAS_NUM_THREADS", "1", 1);
  std::string rt;
  if (!replay.empty()) { rt = slurp(replay); prop = field(rt, "prop"); if (prop.empty()) { fprintf(stderr, "bad replay file\n"); return 2; } }
  for (auto &p : props) if (prop == p.id) P = &p;
  if (!P) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
  if (!kff.empty()) {
    std::ifstream f(kff); std::string l;
    while (std::getline(f, l)) {   // finding: property=<id> key=<key> <text>
      char id[32], key[64]; int n = 0;
      if (sscanf(l.c_str(), "finding: property=%31s key=%63s %n", id, key, &n) == 2) known.push_back({id, key, l.substr(n)});
    }
  }
  init_process();
  host::init(argc, argv);
  if (!strcmp(P->kind, "cl")) {
    std::string b = host::build_dir; b = b.substr(0, b.rfind('/'));
    clsim::init(b + "/clk");
    const char *repo = getenv("DREAM_REPO");
    setenv("SIM_CLDIR", (std::string(repo ? repo : "/repo") + "/opencl").c_str(), 1);
  }
  for (auto &m : P->mods) if (!host::load(m)) return 2;
  Shared *m = newshared();
  if (!replay.empty()) {
    Scenario s; Scenario::parse(rt, s);
    std::vector<Ev> ev = evparse(rt);
    Outcome o = execute(s, field(rt, "mode") == "seed" ? nullptr : &ev, m);
    if (!quiet) {
      printf("%s: %s\n", o.violated ? o.cls.c_str() : "no violation", o.msg.c_str());
      if (o.violated) printf("VIOLATION property=%s replay=%s\n", P->id, replay.c_str());
    }
    std::string want = field(rt, "class"), wh = field(rt, "hash");
    if (quiet) { printf("%s %lu\n", o.violated ? o.cls.c_str() : "none", (unsigned long)o.hash); }
    return o.violated ? 1 : o.harness_error ? 2 : 0;
  }
  if (one >= 0) {
    Scenario s = make(one); Outcome o = execute(s, nullptr, m);
    printf("%s", s.text().c_str());
    printf("%s %s\nsteps %ld switches %ld preempts %ld hot %ld threads %ld live %ld sim %g hash %lx skip %d\n", o.violated ? o.cls.c_str() : o.harness_error ? "HARNESS" : "ok", o.msg.c_str(), m->gsteps, m->switches, m->preempts, m->hot_hits, m->threads_created, m->max_live, m->simtime, (long)o.hash, o.skip);
    for (int i = 0; i < F_NKINDS; i++) if (m->faults[i]) printf("fault %s %ld\n", fault_names[i], m->faults[i]);
    if (dump) printf("%s", evtext(o.evs).c_str());
    return 0;
  }
  if (survey) {   // every violation among the first seeds, one line each
    for (long k = 0; k < survey; k++) { Outcome o = execute(make(k), nullptr, m); if (o.violated || o.harness_error) { printf("%ld %s %s\n", k, o.violated ? o.cls.c_str() : "HARNESS", o.msg.c_str()); fflush(stdout); } }
    return 0;
  }
  double t0 = now();
  Ctl *ctl = (Ctl *)mmap(nullptr, sizeof(Ctl), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<Agg *> ag; std::vector<pid_t> pids;
  for (int w = 0; w < nw; w++) {
    Agg *a = (Agg *)mmap(nullptr, sizeof(Agg), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); ag.push_back(a);
    pid_t p = fork();
    if (p == 0) worker(w, a, ctl, t0 + secs, maxruns);
    pids.push_back(p);
  }
  for (pid_t p : pids) { int st; waitpid(p, &st, 0); }
  double wall = now() - t0;
  Agg *T = new Agg(); std::unordered_set<uint64_t> sg, stt; long vidx = -1;
  std::string herr;
  for (auto *a : ag) {
    T->runs += a->runs; T->skipped += a->skipped; T->multi += a->multi; T->rechecks += a->rechecks; T->mismatches += a->mismatches; T->ninj += a->ninj;
    T->gsteps += a->gsteps; T->switches += a->switches; T->preempts += a->preempts; T->hot += a->hot; T->threads += a->threads; T->max_live = std::max(T->max_live, a->max_live);
    T->calls += a->calls; T->simtime += a->simtime;
    for (int i = 0; i < F_NKINDS; i++) T->faults[i] += a->faults[i];
    for (int i = 0; i < 32; i++) T->probes[i] += a->probes[i];
    for (int i = 0; i < 64; i++) T->known[i] += a->known[i];
    for (int i = 0; i < a->nsig; i++) sg.insert(a->sigs[i]);
    for (int i = 0; i < a->nstate; i++) stt.insert(a->states[i]);
    if (a->viol && (vidx < 0 || a->vidx < vidx)) vidx = a->vidx;
    if (a->harness_err) herr = a->herr;
  }
  if (!herr.empty() && vidx < 0) { fprintf(stderr, "simulator error: %s\n", herr.c_str()); return 2; }
  int rc = 0; std::string vline, vclass, vmsg;
  if (vidx >= 0) {
    Scenario s = make(vidx);
    Outcome a = execute(s, nullptr, m), b = execute(s, nullptr, m);
    bool exact = a.violated && b.violated && a.cls == b.cls && a.hash == b.hash;
    if (!exact) {
      // the code under test depends on something that is not controlled (memory it never wrote, say): the seed is
      // the replay, and the violation must show again in most executions of it
      fprintf(stderr, "note: index %ld does not repeat exactly (%s %lx / %s %lx)\n", vidx, a.cls.c_str(), (long)a.hash, b.cls.c_str(), (long)b.hash);
      int seen = a.violated + b.violated;
      for (int k = 0; k < 6; k++) { Outcome x = execute(s, nullptr, m); if (x.violated) { seen++; if (!a.violated) a = x; } }
      if (seen < 5) { fprintf(stderr, "simulator error: index %ld showed a violation in %d of 8 executions\n", vidx, seen); return 2; }
    }
    std::vector<Ev> ev = a.evs; Outcome best = a; bool byseed = false;
    Outcome r; if (exact) r = execute(s, &ev, m);
    if (exact && r.violated && r.cls == a.cls) { best = r; minimise(s, ev, a.cls, m, best); }
    else byseed = true;   // replayed from its seed instead of from an explicit trace
    if (!byseed) best = execute(s, &ev, m);
    std::string dir = repdir.empty() ? "." : repdir;
    mkdir(dir.c_str(), 0777);
    std::string path = dir + "/" + P->id + "-" + std::to_string(base_seed) + "-" + std::to_string(vidx) + ".replay";
    { std::ofstream f(path); f << s.text() << "class " << best.cls << "\nmsg " << best.msg << "\nhash " << best.hash << "\n" << (byseed ? "mode seed\n" : "mode trace\n") << evtext(ev); }
    // fresh process
    std::string cmd = "exec '" + self + "' --build '" + host::build_dir + "' --quiet --replay '" + path + "'";
    unsetenv("SIM_NOASLR");
    FILE *f = popen(cmd.c_str(), "r"); char line[256] = ""; if (f) { if (!fgets(line, sizeof line, f)) line[0] = 0; pclose(f); }
    char c2[128] = ""; unsigned long h2 = 0; sscanf(line, "%127s %lu", c2, &h2);
    if (!exact && c2[0] && strcmp(c2, "none")) {}
    else if (best.cls != c2 || h2 != best.hash) { fprintf(stderr, "simulator error: replay in a fresh process gave '%s' instead of %s %lu\n", line, best.cls.c_str(), (unsigned long)best.hash); return 2; }
    vclass = best.cls; vmsg = best.msg;
    vline = std::string("VIOLATION property=") + P->id + " replay=" + path;
    rc = 1;
  }
  if (!out.empty()) {
    std::ofstream e(out);
    e << "{\n \"property\": " << js(P->id) << ",\n \"tier\": " << js(tier) << ",\n \"seed\": " << base_seed << ",\n \"level\": \"exploration\",\n \"coverage\": {\n";
    e << "  \"evaluations\": " << T->runs << ",\n  \"distinct_nontrivial\": " << sg.size() << ",\n  \"rule\": " << js(P->rule) << ",\n  \"samples\": [";
    for (int i = 0; i < 3; i++) { Scenario s = make(i * 7); e << (i ? ", " : "") << js(s.text()); }
    e << "],\n  \"vacuous_runs\": " << T->skipped << ",\n  \"runs_with_two_or_more_live_threads\": " << T->multi << ",\n  \"runs_with_an_injected_fault\": " << T->ninj;
    e << ",\n  \"calls_simulated\": " << T->calls << ",\n  \"threads_simulated\": " << T->threads << ",\n  \"max_live_workers\": " << T->max_live;
    e << ",\n  \"distinct_interleavings\": " << stt.size() << ",\n  \"interleaving_measure\": \"hash of the ordered (from, to, code site) context switches of a run\"";
    e << ",\n  \"seeds_per_hour\": " << (long)(T->runs / std::max(wall, 0.001) * 3600) << ",\n  \"scheduling_points\": " << T->gsteps << ",\n  \"context_switches\": " << T->switches << ",\n  \"preemptions\": " << T->preempts;
    e << ",\n  \"conflicting_accesses_seen\": " << T->hot << ",\n  \"simulated_seconds\": " << T->simtime;
    e << ",\n  \"simulated_time_note\": \"logical time is the number of scheduling points; simulated seconds only advance when the code sleeps or reads a clock\"";
    e << ",\n  \"faults_fired\": {"; for (int i = 0; i < F_NKINDS; i++) e << (i ? ", " : "") << js(fault_names[i]) << ": " << T->faults[i]; e << "}";
    e << ",\n  \"probes\": {"; bool first = true; for (int i = 0; i < 32; i++) if (probe_names[i]) { e << (first ? "" : ", ") << js(probe_names[i]) << ": " << T->probes[i]; first = false; } e << "}";
    e << ",\n  \"determinism_rechecks\": " << T->rechecks << ",\n  \"determinism_mismatches\": " << T->mismatches;
    e << ",\n  \"real_components\": ["; first = true; for (auto &c : P->comps) if (!strncmp(c.second, "real", 4)) { e << (first ? "" : ", ") << js(c.first); first = false; }
    e << "],\n  \"stub_components\": ["; first = true; for (auto &c : P->comps) if (strncmp(c.second, "real", 4)) { e << (first ? "" : ", ") << js(std::string(c.first) + " (" + c.second + ")"); first = false; }
    e << "]\n },\n \"assumptions\": [\"sequentially consistent memory: the scheduler interleaves instrumented accesses one at a time\", \"modules are built at -O1 with access callbacks, not with the shipped optimisation flags\"],\n";
    e << " \"wall_s\": " << wall << ",\n \"violations\": " << (rc ? 1 : 0) << "\n}\n";
  }
  for (size_t i = 0; i < known.size(); i++) if (known[i].prop == P->id) printf("KNOWN-FINDING: property=%s %s (seen %ld times in this run)\n", P->id, known[i].text.c_str(), T->known[i]);
  printf("%s: %ld runs, %zu distinct nontrivial, %.1f s, %ld scheduling points, faults", P->id, T->runs, sg.size(), wall, T->gsteps);
  for (int i = 0; i < F_NKINDS; i++) if (T->faults[i]) printf(" %s=%ld", fault_names[i], T->faults[i]);
  printf(", rechecks %ld mismatches %ld\n", T->rechecks, T->mismatches);
  if (rc) { printf("%s: %s\n%s\n", vclass.c_str(), vmsg.c_str(), vline.c_str()); return 1; }
  if (T->mismatches) { fprintf(stderr, "simulator error: %ld of %ld rechecked seeds did not repeat\n", T->mismatches, T->rechecks); return 2; }
  return 0;
}
