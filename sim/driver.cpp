// Seeded search over simulated runs, violation gating, minimisation, replay, evidence.
#include "internal.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sched.h>
#include <signal.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include <algorithm>

using namespace simcore;
using namespace sim;

namespace {

double wall()
{
  timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
  return (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9;
}
template <class T> T* shared(size_t n = 1)
{
  void* p = mmap(0, sizeof(T) * n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(2); }
  return (T*)p;
}

struct Options {
  Str prop = "", evidence = "", replays = "", known = "", replay = "", only = "";
  Str tier = "quick";
  uint64_t seed = 1, one = 0; bool have_one = false;
  double secs = 20; int workers = 8; bool verbose = false; uint64_t max_runs = ~0ull; int det = 0;
  bool show_all = false;
} opt;

Vec<const Scenario*> scens;
int total_weight;

uint64_t prop_hash()
{
  uint64_t h = 77;
  for (char c : opt.prop) h = mix(h, (unsigned char)c);
  return h;
}
uint64_t run_seed(uint64_t idx) { return mix(mix(opt.seed * 1000003 + 17, prop_hash()), idx); }
int scen_of(uint64_t seed)
{
  int k = (int)(mix(seed, 99) % (uint64_t)total_weight);
  for (size_t i = 0; i < scens.size(); ++i) { k -= scens[i]->weight; if (k < 0) return (int)i; }
  return 0;
}

void reset_result(RunResult* r)
{
  for (int i = 0; i < NSTREAMS; ++i) r->nlog[i] = 0;
  r->log_overflow = false; r->status = 0; r->sig[0] = r->msg[0] = r->scenario[0] = 0;
  r->hash = 1; r->events = r->yields = r->switches = r->mem = r->sim_ns = 0; r->nontriv = false;
  memset(r->faults, 0, sizeof r->faults); r->nprobes = 0; r->nknown = 0; r->tracelen = 0; r->trace[0] = 0;
}

// Executes one run in a child process; the result is in r.
void execute(RunResult* r, const Config& c)
{
  reset_result(r);
  r->seed = c.rng_seed;
  g_res = r;
  g_cfg = c;
  fflush(stdout); fflush(stderr);
  pid_t p = fork();
  if (p < 0) { perror("fork"); exit(2); }
  if (p == 0) {
    rlimit rl; rl.rlim_cur = 8; rl.rlim_max = 20; setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = 60; setitimer(ITIMER_REAL, &it, 0);
    run_scenario(scens[c.scenario]);
    _exit(99);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (r->status == 0) {
    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) {
      r->status = 2; snprintf(r->sig, sizeof r->sig, "hang"); snprintf(r->msg, sizeof r->msg, "the run used 8 s of processor time without finishing");
    } else if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGSEGV || WTERMSIG(st) == SIGABRT || WTERMSIG(st) == SIGBUS)) {
      r->status = 2; snprintf(r->sig, sizeof r->sig, "crash"); snprintf(r->msg, sizeof r->msg, "the process died of signal %d", WTERMSIG(st));
    } else {
      r->status = 4; snprintf(r->sig, sizeof r->sig, "aborted"); snprintf(r->msg, sizeof r->msg, "run process ended with wait status 0x%x", st);
    }
  }
}
Config explore_cfg(uint64_t seed)
{
  Config c; memset((void*)&c, 0, sizeof c);
  c.rng_seed = seed; c.scenario = scen_of(seed); c.thorough = opt.tier == "thorough";
  return c;
}
typedef Vec<uint32_t> Log;
struct Logs { Log l[NSTREAMS]; };
Config replay_cfg(const Logs& l, int scenario)
{
  Config c; memset((void*)&c, 0, sizeof c);
  c.replay = true; c.scenario = scenario; c.thorough = opt.tier == "thorough"; c.rng_seed = 1;
  for (int i = 0; i < NSTREAMS; ++i) { c.rlog[i] = l.l[i].data(); c.rlen[i] = (uint32_t)l.l[i].size(); }
  return c;
}

struct PStat { const char* name; uint64_t n, runs; };
struct WStat {
  uint64_t runs, ok, cut, errors, yields, switches, mem, sim_ns, events, nontriv, rerun, mismatch, overflow;
  uint64_t faults[NFAULTS], fault_runs[NFAULTS];
  uint64_t scen_runs[64];
  double slowest; uint64_t slow_seed;
  PStat probes[NPROBES]; int nprobes;
  char cutwhy[16][64]; uint64_t cutn[16]; int ncut;
  char err[400];
  struct { char sig[200]; char msg[300]; uint64_t n; } known[16]; int nknown;
};
struct Shared {
  int stop;
  int found_lock;
  uint64_t found_seed, found_idx; char found_sig[200]; char found_msg[1000];
};
enum { MAXHASH = 1 << 24 };
Shared* sh; WStat* ws; uint64_t* hashes; // hashes[idx]

void account(WStat& w, RunResult* r, int scen)
{
  w.runs++; w.scen_runs[scen]++;
  if (r->status == 1) w.ok++;
  else if (r->status == 3) {
    w.cut++;
    int i; for (i = 0; i < w.ncut; ++i) if (!strncmp(w.cutwhy[i], r->sig, 63)) break;
    if (i == w.ncut && w.ncut < 16) { snprintf(w.cutwhy[i], 64, "%.60s", r->sig); w.cutn[i] = 0; ++w.ncut; }
    if (i < 16) w.cutn[i]++;
  } else if (r->status == 4) { w.errors++; snprintf(w.err, sizeof w.err, "seed %lu: %.80s: %.200s", (unsigned long)r->seed, r->sig, r->msg); }
  w.yields += r->yields; w.switches += r->switches; w.mem += r->mem; w.sim_ns += r->sim_ns; w.events += r->events;
  w.nontriv += r->nontriv; w.overflow += r->log_overflow;
  for (int i = 0; i < NFAULTS; ++i) { w.faults[i] += r->faults[i]; w.fault_runs[i] += r->faults[i] != 0; }
  for (int k = 0; k < r->nprobes; ++k) {
    int i; for (i = 0; i < w.nprobes; ++i) if (w.probes[i].name == r->probes[k].name) break;
    if (i == w.nprobes) { if (i == NPROBES) continue; w.probes[i].name = r->probes[k].name; w.probes[i].n = w.probes[i].runs = 0; ++w.nprobes; }
    w.probes[i].n += r->probes[k].n; w.probes[i].runs++;
  }
  for (int k = 0; k < r->nknown; ++k) {
    int i; for (i = 0; i < w.nknown; ++i) if (!strcmp(w.known[i].sig, r->known[k])) break;
    if (i == w.nknown) { if (i == 16) continue; snprintf(w.known[i].sig, 200, "%s", r->known[k]); snprintf(w.known[i].msg, 300, "%s", r->known_msg[k]); w.known[i].n = 0; ++w.nknown; }
    w.known[i].n++;
  }
}

void worker(int w, double deadline)
{
  cpu_set_t cs; CPU_ZERO(&cs);
  long ncpu = sysconf(_SC_NPROCESSORS_ONLN);
  CPU_SET(w % (ncpu > 0 ? ncpu : 1), &cs);
  sched_setaffinity(0, sizeof cs, &cs);
  RunResult* r = shared<RunResult>();
  for (uint64_t idx = (uint64_t)w; idx < opt.max_runs && idx < MAXHASH; idx += (uint64_t)opt.workers) {
    if (sh->stop || wall() > deadline) break;
    uint64_t seed = run_seed(idx);
    Config c = explore_cfg(seed);
    double began = wall();
    execute(r, c);
    double took = wall() - began;
    if (took > ws[w].slowest) { ws[w].slowest = took; ws[w].slow_seed = seed; }
    account(ws[w], r, c.scenario);
    hashes[idx] = r->hash ? r->hash : 1;
    if (r->status == 2) {
      if (!__atomic_exchange_n(&sh->found_lock, 1, __ATOMIC_SEQ_CST)) {
        sh->found_seed = seed; sh->found_idx = idx;
        snprintf(sh->found_sig, sizeof sh->found_sig, "%s", r->sig);
        snprintf(sh->found_msg, sizeof sh->found_msg, "%s", r->msg);
        sh->stop = 1;
      }
      break;
    }
    if (idx / (uint64_t)opt.workers % 40 == 7) { // same seed again, in a new process
      uint64_t h = r->hash; int st = r->status;
      execute(r, c);
      ws[w].rerun++;
      if (r->hash != h || r->status != st) {
        ws[w].mismatch++;
        snprintf(ws[w].err, sizeof ws[w].err, "seed %lu (run %lu, %s): not reproducible", (unsigned long)seed, (unsigned long)idx, scens[c.scenario]->name);
      }
    }
  }
  _exit(0);
}

Str symbolize(const char* msg)
{
  const char* at = strstr(msg, " @ ");
  if (!at) return msg;
  Str out(msg, (size_t)(at - msg));
  char cmd[3000]; int n = snprintf(cmd, sizeof cmd, "addr2line -e /proc/%d/exe -Cfps %s 2>/dev/null", (int)getpid(), at + 3);
  if (n >= (int)sizeof cmd) return out;
  FILE* f = popen(cmd, "r");
  if (!f) return out;
  char line[2000]; int k = 0;
  while (fgets(line, sizeof line, f) && k < 14) {
    size_t l = strlen(line); if (l > 220) { line[220] = '\n'; line[221] = 0; }
    out += k++ ? "\n      by " : "\n      at "; l = strlen(line); if (l && line[l - 1] == '\n') line[l - 1] = 0;
    out += line;
  }
  pclose(f);
  return out;
}

bool load_replay(const char* path, Str& scen, Str& sig, uint64_t& hash, Logs& l)
{
  FILE* f = fopen(path, "r");
  if (!f) return false;
  char* line = 0; size_t cap = 0;
  while (getline(&line, &cap, f) > 0) {
    size_t n = strlen(line); if (n && line[n - 1] == '\n') line[n - 1] = 0;
    if (!strncmp(line, "property ", 9)) opt.prop = line + 9;
    else if (!strncmp(line, "tier ", 5)) opt.tier = line + 5;
    else if (!strncmp(line, "scenario ", 9)) scen = line + 9;
    else if (!strncmp(line, "signature ", 10)) sig = line + 10;
    else if (!strncmp(line, "hash ", 5)) hash = strtoull(line + 5, 0, 16);
    else if (line[0] && line[1] == ':' && (line[0] == 'W' || line[0] == 'S' || line[0] == 'F')) {
      Log& g = l.l[line[0] == 'W' ? W : line[0] == 'S' ? S : F];
      char* p = line + 2; char* e;
      for (;;) { unsigned long v = strtoul(p, &e, 10); if (e == p) break; g.push_back((uint32_t)v); p = e; }
    } else if (!strncmp(line, "trace", 5)) break;
  }
  free(line);
  fclose(f);
  return true;
}

void load_known()
{
  if (opt.known.empty()) return;
  FILE* f = fopen(opt.known.c_str(), "r");
  if (!f) return;
  char line[2000];
  while (fgets(line, sizeof line, f)) {
    // known: property=<id> sig=<signature> :: <text>
    if (strncmp(line, "known: property=", 16)) continue;
    char* p = line + 16; char* sp = strchr(p, ' '); if (!sp) continue;
    *sp = 0;
    if (opt.prop != p) continue;
    char* s = strstr(sp + 1, "sig="); char* d = strstr(sp + 1, " :: ");
    if (!s || !d) continue;
    *d = 0; d += 4; size_t n = strlen(d); if (n && d[n - 1] == '\n') d[n - 1] = 0;
    Known k; k.sig = s + 4; k.text = d; g_known.push_back(k);
  }
  fclose(f);
}

void select_scenarios()
{
  scens.clear(); total_weight = 0;
  for (const Scenario* s = scenarios(); s; s = s->next)
    if (opt.prop == s->prop && (opt.only.empty() || opt.only == s->name)) { scens.push_back(s); total_weight += s->weight; }
  if (scens.empty()) { fprintf(stderr, "no scenarios for %s\n", opt.prop.c_str()); exit(2); }
}

Logs logs_of(RunResult* r)
{
  Logs l;
  for (int i = 0; i < NSTREAMS; ++i) l.l[i].assign(r->log[i], r->log[i] + r->nlog[i]);
  return l;
}

// ---------------------------------------------------------------- minimiser
struct Minimiser {
  RunResult* r; Str sig; int scen; double deadline; int tries = 0;
  Logs best;
  bool attempt(const Logs& l)
  {
    ++tries;
    execute(r, replay_cfg(l, scen));
    return r->status == 2 && sig == r->sig;
  }
  bool more() const { return wall() < deadline && tries < 4000; }
  void trim(Log& g) { while (!g.empty() && g.back() == 0) g.pop_back(); }
  void shrink(int s)
  {
    Log& g = best.l[s];
    trim(g);
    // all defaults?
    if (!g.empty() && more()) { Logs c = best; c.l[s].clear(); if (attempt(c)) { best = c; return; } }
    // truncate
    size_t lo = 0, hi = g.size();
    while (lo < hi && more()) {
      size_t mid = (lo + hi) / 2;
      Logs c = best; c.l[s].resize(mid);
      if (attempt(c)) { best = c; trim(best.l[s]); hi = best.l[s].size() < mid ? best.l[s].size() : mid; } else lo = mid + 1;
    }
    // zero (and for workload and schedule also delete) chunks
    for (size_t k = best.l[s].size() / 2; k >= 1; k /= 2) {
      for (size_t i = 0; i < best.l[s].size() && more();) {
        size_t e = std::min(i + k, best.l[s].size());
        bool nz = false; for (size_t j = i; j < e; ++j) nz |= best.l[s][j] != 0;
        bool done = false;
        if (k <= 32 || nz) {
          Logs c = best; c.l[s].erase(c.l[s].begin() + i, c.l[s].begin() + e);
          if (attempt(c)) { best = c; done = true; }
        }
        if (!done && nz && more()) {
          Logs c = best; for (size_t j = i; j < e; ++j) c.l[s][j] = 0;
          if (attempt(c)) best = c;
        }
        if (!done) i = e;
      }
      trim(best.l[s]);
      if (!more()) break;
    }
    // smaller values
    for (size_t i = 0; i < best.l[s].size() && more(); ++i)
      while (best.l[s][i] > 1 && more()) {
        Logs c = best; c.l[s][i] = c.l[s][i] > 8 ? c.l[s][i] / 2 : c.l[s][i] - 1;
        if (!attempt(c)) break;
        best = c;
      }
  }
};

void json_str(FILE* f, const char* s)
{
  fputc('"', f);
  for (; *s; ++s) {
    unsigned char c = (unsigned char)*s;
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}

} // namespace

extern const char* const sim_components_real;
extern const char* const sim_components_stub;
const char* sim_rule(const char* prop);

int main(int argc, char** argv)
{
  // identical addresses in every process
  if (personality(0xffffffff) != -1 && !(personality(0xffffffff) & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    personality((unsigned long)personality(0xffffffff) | ADDR_NO_RANDOMIZE);
    execv("/proc/self/exe", argv);
  }
  setenv("SIM_NOASLR", "1", 1);
  setvbuf(stdout, 0, _IOLBF, 0);
  const char* vs = getenv("VERIF_SEED"); if (vs && *vs) opt.seed = strtoull(vs, 0, 10);
  const char* vt = getenv("VERIF_TIER"); if (vt && *vt) opt.tier = vt;
  for (int i = 1; i < argc; ++i) {
    Str a = argv[i];
    auto val = [&]() -> const char* { if (++i >= argc) { fprintf(stderr, "missing value\n"); exit(2); } return argv[i]; };
    if (a == "--prop") opt.prop = val();
    else if (a == "--tier") opt.tier = val();
    else if (a == "--seed") opt.seed = strtoull(val(), 0, 10);
    else if (a == "--secs") opt.secs = atof(val());
    else if (a == "--workers") opt.workers = atoi(val());
    else if (a == "--evidence") opt.evidence = val();
    else if (a == "--replays") opt.replays = val();
    else if (a == "--known") opt.known = val();
    else if (a == "--replay") opt.replay = val();
    else if (a == "--only") opt.only = val();
    else if (a == "--one") { opt.one = strtoull(val(), 0, 10); opt.have_one = true; }
    else if (a == "--runs") opt.max_runs = strtoull(val(), 0, 10);
    else if (a == "--hashes") opt.det = atoi(val());
    else if (a == "-v") opt.verbose = true;
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  if (opt.workers > 64) opt.workers = 64;

  if (!opt.replay.empty()) {
    Str scen, sig; uint64_t hash = 0; Logs l;
    if (!load_replay(opt.replay.c_str(), scen, sig, hash, l)) { fprintf(stderr, "cannot read %s\n", opt.replay.c_str()); return 2; }
    load_known();
    select_scenarios();
    int si = -1;
    for (size_t i = 0; i < scens.size(); ++i) { Str full = Str(scens[i]->prop) + "." + scens[i]->name; if (full == scen) si = (int)i; }
    if (si < 0) { fprintf(stderr, "unknown scenario %s\n", scen.c_str()); return 2; }
    RunResult* r = shared<RunResult>();
    Config c = replay_cfg(l, si); c.verbose = opt.verbose;
    execute(r, c);
    if (opt.verbose) fputs(r->trace, stdout);
    printf("status %d signature %s hash %016lx\n", r->status, r->sig, (unsigned long)r->hash);
    if (r->status == 2) {
      printf("%s\n", symbolize(r->msg).c_str());
      bool same = sig == r->sig && (!hash || hash == r->hash);
      printf("%s\n", same ? "REPRODUCED" : "DIFFERENT VIOLATION OR TRACE");
      if (sig == r->sig) printf("VIOLATION property=%s replay=%s\n", opt.prop.c_str(), opt.replay.c_str());
      return same ? 1 : 3;
    }
    printf("NOT REPRODUCED\n");
    return 0;
  }

  load_known();
  select_scenarios();

  if (opt.have_one) {
    RunResult* r = shared<RunResult>();
    Config c = explore_cfg(opt.one); c.verbose = opt.verbose;
    execute(r, c);
    if (opt.verbose) fputs(r->trace, stdout);
    printf("%s status %d sig '%s' hash %016lx yields %lu switches %lu mem %lu sim %.3fms\n%s\n", r->scenario, r->status, r->sig, (unsigned long)r->hash,
           (unsigned long)r->yields, (unsigned long)r->switches, (unsigned long)r->mem, (double)r->sim_ns / 1e6, symbolize(r->msg).c_str());
    return r->status == 1 ? 0 : 1;
  }
  if (opt.det > 0) { // print the trace hashes of the first N runs (determinism self-test)
    RunResult* r = shared<RunResult>();
    for (int i = 0; i < opt.det; ++i) {
      execute(r, explore_cfg(run_seed((uint64_t)i)));
      printf("%d %d %016lx\n", i, r->status, (unsigned long)r->hash);
    }
    return 0;
  }

  double t0 = wall();
  sh = shared<Shared>(); ws = shared<WStat>((size_t)opt.workers); hashes = shared<uint64_t>(MAXHASH);
  Vec<pid_t> pids;
  for (int w = 0; w < opt.workers; ++w) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) worker(w, t0 + opt.secs);
    pids.push_back(p);
  }
  for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} }
  double explore_s = wall() - t0;

  WStat tot; memset((void*)&tot, 0, sizeof tot);
  Map<Str, std::pair<uint64_t, uint64_t>> probes; Map<Str, uint64_t> cuts;
  for (int w = 0; w < opt.workers; ++w) {
    WStat& s = ws[w];
    tot.runs += s.runs; tot.ok += s.ok; tot.cut += s.cut; tot.errors += s.errors; tot.yields += s.yields; tot.switches += s.switches;
    tot.mem += s.mem; tot.sim_ns += s.sim_ns; tot.events += s.events; tot.nontriv += s.nontriv; tot.rerun += s.rerun; tot.mismatch += s.mismatch;
    tot.overflow += s.overflow;
    if (s.err[0]) { snprintf(tot.err, sizeof tot.err, "%s", s.err); fprintf(stderr, "%s\n", s.err); }
    for (int i = 0; i < NFAULTS; ++i) { tot.faults[i] += s.faults[i]; tot.fault_runs[i] += s.fault_runs[i]; }
    for (int i = 0; i < 64; ++i) tot.scen_runs[i] += s.scen_runs[i];
    for (int i = 0; i < s.nprobes; ++i) { auto& p = probes[s.probes[i].name]; p.first += s.probes[i].n; p.second += s.probes[i].runs; }
    for (int i = 0; i < s.ncut; ++i) cuts[s.cutwhy[i]] += s.cutn[i];
    for (int k = 0; k < s.nknown; ++k) {
      int i; for (i = 0; i < tot.nknown; ++i) if (!strcmp(tot.known[i].sig, s.known[k].sig)) break;
      if (i == tot.nknown) { if (i == 16) continue; tot.known[i] = s.known[k]; ++tot.nknown; } else tot.known[i].n += s.known[k].n;
    }
  }
  Vec<uint64_t> hs;
  for (uint64_t i = 0; i < MAXHASH; ++i) if (hashes[i]) hs.push_back(hashes[i]);
  std::sort(hs.begin(), hs.end());
  uint64_t distinct = (uint64_t)(std::unique(hs.begin(), hs.end()) - hs.begin());

  RunResult* r = shared<RunResult>();
  // cross-process determinism: re-run a sample of the workers' runs in this process
  uint64_t xrun = 0, xmis = 0;
  if (!sh->stop)
    for (uint64_t k = 0; k < 24 && tot.runs; ++k) {
      uint64_t idx = mix(opt.seed, k) % (tot.runs < 200000 ? tot.runs : 200000);
      if (!hashes[idx]) continue;
      execute(r, explore_cfg(run_seed(idx)));
      ++xrun;
      if ((r->hash ? r->hash : 1) != hashes[idx]) { ++xmis; fprintf(stderr, "run %lu: hash differs between processes\n", (unsigned long)idx); }
    }

  int rc = 0; Str vio_path;
  if (sh->stop) {
    printf("violation candidate: run %lu seed %lu signature '%s'\n", (unsigned long)sh->found_idx, (unsigned long)sh->found_seed, sh->found_sig);
    Str sig = sh->found_sig;
    Config c = explore_cfg(sh->found_seed);
    execute(r, c); uint64_t h1 = r->hash; bool ok = r->status == 2 && sig == r->sig;
    execute(r, c); ok = ok && r->status == 2 && sig == r->sig && r->hash == h1;
    Logs full = logs_of(r);
    Minimiser m; m.r = r; m.sig = sig; m.scen = c.scenario; m.deadline = wall() + (opt.tier == "thorough" ? 120 : 45); m.best = full;
    if (ok) { ok = m.attempt(full); if (!ok) printf("replaying the recorded choices did not reproduce (status %d '%s')\n", r->status, r->sig); }
    else printf("the violation does not reproduce from its seed\n");
    if (!ok) { printf("ERROR: simulation not deterministic, nothing reported\n"); rc = 2; }
    else {
      for (int round = 0; round < 2 && m.more(); ++round) { m.shrink(F); m.shrink(W); m.shrink(S); }
      // the same execution three ways: plain, again, and with its trace written down
      execute(r, replay_cfg(m.best, c.scenario));
      uint64_t h = r->hash;
      bool same = r->status == 2 && sig == r->sig;
      Config rc2 = replay_cfg(m.best, c.scenario); rc2.verbose = true;
      execute(r, rc2);
      same = same && r->status == 2 && sig == r->sig && r->hash == h;
      if (!same) { printf("ERROR: the minimised run does not repeat\n"); rc = 2; }
      char name[300]; snprintf(name, sizeof name, "%s/%s-%016lx.replay", opt.replays.empty() ? "." : opt.replays.c_str(), opt.prop.c_str(), (unsigned long)sh->found_seed);
      vio_path = name;
      FILE* f = fopen(name, "w");
      if (!f) { perror(name); return 2; }
      Str sym = symbolize(r->msg);
      fprintf(f, "asioext-sim-replay 1\nproperty %s\ntier %s\nscenario %s.%s\nsignature %s\nhash %016lx\nseed %lu (VERIF_SEED %lu, run %lu)\n", opt.prop.c_str(), opt.tier.c_str(), opt.prop.c_str(), scens[c.scenario]->name, sig.c_str(), (unsigned long)h, (unsigned long)sh->found_seed, (unsigned long)opt.seed, (unsigned long)sh->found_idx);
      static const char nm[] = "WSF";
      for (int s = 0; s < NSTREAMS; ++s) { fprintf(f, "%c:", nm[s]); for (uint32_t v : m.best.l[s]) fprintf(f, " %u", v); fputc('\n', f); }
      fprintf(f, "violation: %s\ntrace\n%s", sym.c_str(), r->trace);
      fclose(f);
      // a fresh process must fail in exactly the same way
      char cmd[1200]; snprintf(cmd, sizeof cmd, "env -u SIM_NOASLR /proc/%d/exe --replay '%s' %s%s%s > /dev/null 2>&1", (int)getpid(), name, opt.known.empty() ? "" : "--known '", opt.known.c_str(), opt.known.empty() ? "" : "'");
      int st = system(cmd);
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 1)) {
        printf("ERROR: the replay file does not reproduce in a fresh process (0x%x)\n", st); rc = 2;
      } else {
        size_t nz[3]; for (int s = 0; s < 3; ++s) { nz[s] = 0; for (uint32_t v : m.best.l[s]) nz[s] += v != 0; }
        printf("%s\n", sym.c_str());
        printf("minimised in %d attempts: %lu workload, %lu schedule, %lu fault choices differ from the default\n", m.tries, (unsigned long)nz[0], (unsigned long)nz[1], (unsigned long)nz[2]);
        printf("VIOLATION property=%s replay=%s\n", opt.prop.c_str(), name);
        rc = 1;
      }
    }
  }
  if (tot.mismatch || xmis) { printf("ERROR: %lu of %lu re-executed runs had a different trace\n", (unsigned long)(tot.mismatch + xmis), (unsigned long)(tot.rerun + xrun)); if (rc == 0) rc = 2; }
  if (tot.errors && rc == 0) { printf("ERROR: %lu runs were aborted: %s\n", (unsigned long)tot.errors, tot.err); rc = 2; }
  if (tot.runs < 20 && rc == 0) { printf("ERROR: only %lu runs\n", (unsigned long)tot.runs); rc = 2; }

  for (auto& k : g_known) {
    uint64_t n = 0; for (int i = 0; i < tot.nknown; ++i) if (k.sig == tot.known[i].sig) n = tot.known[i].n;
    printf("KNOWN-FINDING: property=%s %s (met in %lu runs)\n", opt.prop.c_str(), k.text.c_str(), (unsigned long)n);
  }
  printf("%s: %lu runs in %.1f s (%.0f/s), %lu distinct traces, %lu non-trivial, %lu cut short, %.3f s simulated, %lu scheduling points, %lu switches, %lu re-executed identically\n",
         opt.prop.c_str(), (unsigned long)tot.runs, explore_s, (double)tot.runs / explore_s, (unsigned long)distinct, (unsigned long)tot.nontriv, (unsigned long)tot.cut,
         (double)tot.sim_ns / 1e9, (unsigned long)tot.yields, (unsigned long)tot.switches, (unsigned long)(tot.rerun + xrun));
  if (opt.verbose || getenv("SIM_STATS")) {
    for (int i = 0; i < NFAULTS; ++i) if (tot.faults[i]) printf("  fault %-18s %lu times in %lu runs\n", fault_names[i], (unsigned long)tot.faults[i], (unsigned long)tot.fault_runs[i]);
    for (auto& p : probes) printf("  probe %-40s %lu in %lu runs\n", p.first.c_str(), (unsigned long)p.second.first, (unsigned long)p.second.second);
    for (int w = 0; w < opt.workers; ++w) printf("  slowest run of worker %d: %.3f s, seed %lu\n", w, ws[w].slowest, (unsigned long)ws[w].slow_seed);
    for (auto& p : cuts) printf("  cut %-40s %lu\n", p.first.c_str(), (unsigned long)p.second);
    for (size_t i = 0; i < scens.size(); ++i) printf("  scenario %-20s %lu\n", scens[i]->name, (unsigned long)tot.scen_runs[i]);
  }

  if (!opt.evidence.empty()) {
    // two sample runs, written out
    Str tmp = opt.evidence + ".tmp";
    FILE* f = fopen(tmp.c_str(), "w");
    if (!f) { perror("evidence"); return 2; }
    fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %lu,\n \"level\": \"exploration\",\n", opt.prop.c_str(), opt.tier.c_str(), (unsigned long)opt.seed);
    fprintf(f, " \"coverage\": {\n  \"evaluations\": %lu,\n  \"distinct_nontrivial\": %lu,\n  \"rule\": ", (unsigned long)tot.runs, (unsigned long)(distinct < tot.nontriv ? distinct : tot.nontriv));
    json_str(f, sim_rule(opt.prop.c_str()));
    fprintf(f, ",\n  \"simulated_runs\": %lu,\n  \"seeds_per_hour\": %.0f,\n  \"simulated_seconds\": %.6f,\n  \"distinct_traces\": %lu,\n  \"distinct_measure\": \"64-bit hash over the full event trace (system calls and results, thread switches, completions, virtual timestamps)\",\n  \"nontrivial_runs\": %lu,\n  \"runs_cut_short\": %lu,\n", (unsigned long)tot.runs, (double)tot.runs / (explore_s > 0.01 ? explore_s : 0.01) * 3600, (double)tot.sim_ns / 1e9, (unsigned long)distinct, (unsigned long)tot.nontriv, (unsigned long)tot.cut);
    fprintf(f, "  \"scheduling_points\": %lu,\n  \"context_switches\": %lu,\n  \"memory_accesses_intercepted\": %lu,\n  \"trace_events\": %lu,\n", (unsigned long)tot.yields, (unsigned long)tot.switches, (unsigned long)tot.mem, (unsigned long)tot.events);
    fprintf(f, "  \"determinism\": {\"runs_reexecuted\": %lu, \"different\": %lu},\n", (unsigned long)(tot.rerun + xrun), (unsigned long)(tot.mismatch + xmis));
    fprintf(f, "  \"faults_fired\": {"); bool first = true;
    for (int i = 0; i < NFAULTS; ++i) if (tot.faults[i]) { fprintf(f, "%s\"%s\": {\"times\": %lu, \"runs\": %lu}", first ? "" : ", ", fault_names[i], (unsigned long)tot.faults[i], (unsigned long)tot.fault_runs[i]); first = false; }
    fprintf(f, "},\n  \"probes\": {"); first = true;
    for (auto& p : probes) { fprintf(f, "%s", first ? "" : ", "); json_str(f, p.first.c_str()); fprintf(f, ": {\"times\": %lu, \"runs\": %lu}", (unsigned long)p.second.first, (unsigned long)p.second.second); first = false; }
    fprintf(f, "},\n  \"scenarios\": {"); first = true;
    for (size_t i = 0; i < scens.size(); ++i) { fprintf(f, "%s\"%s\": %lu", first ? "" : ", ", scens[i]->name, (unsigned long)tot.scen_runs[i]); first = false; }
    fprintf(f, "},\n  \"cut_short_reasons\": {"); first = true;
    for (auto& p : cuts) { fprintf(f, "%s", first ? "" : ", "); json_str(f, p.first.c_str()); fprintf(f, ": %lu", (unsigned long)p.second); first = false; }
    fprintf(f, "},\n  \"known_findings_met\": {"); first = true;
    for (int i = 0; i < tot.nknown; ++i) { fprintf(f, "%s", first ? "" : ", "); json_str(f, tot.known[i].sig); fprintf(f, ": %lu", (unsigned long)tot.known[i].n); first = false; }
    fprintf(f, "},\n  \"components_real\": "); json_str(f, sim_components_real);
    fprintf(f, ",\n  \"components_stub\": "); json_str(f, sim_components_stub);
    fprintf(f, ",\n  \"samples\": [");
    for (int k = 0; k < 2; ++k) {
      Config c = explore_cfg(run_seed((uint64_t)k * 3)); c.verbose = true;
      execute(r, c);
      Str t(r->trace, r->tracelen < 2500 ? r->tracelen : 2500); if (r->tracelen >= 2500) t += "...";
      char head[200]; snprintf(head, sizeof head, "run %d seed %lu %s hash %016lx:\n", k * 3, (unsigned long)run_seed((uint64_t)k * 3), r->scenario, (unsigned long)r->hash);
      fprintf(f, "%s", k ? ", " : ""); json_str(f, (Str(head) + t).c_str());
    }
    fprintf(f, "]\n },\n \"assumptions\": [\"sampled schedules and faults: a clean batch is evidence, not proof\", \"the simulated kernel follows Linux semantics for the calls the library makes\", \"sequentially consistent memory\"],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall() - t0, rc == 1 ? 1 : 0);
    fclose(f);
    rename(tmp.c_str(), opt.evidence.c_str());
  }
  return rc;
}
