// Simulator core: choice streams, scheduler, virtual time, heap arena,
// __tsan_* runtime (preemption points, heap checking, race detection),
// pthread interposition.
#include "internal.hpp"
#include <dlfcn.h>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <time.h>
#include <semaphore.h>
#include <unistd.h>
#include <signal.h>
#include <ucontext.h>
#include <new>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <algorithm>

namespace sim { int g_quiet = 0; int g_alloc_faults = 0; }

namespace simcore {

using namespace sim;

RunResult* g_res;
Config g_cfg;
Vec<Known> g_known;
Thread g_thr[MAXTHREADS];
static Thread g_dummy;
Thread* g_cur = &g_dummy;
bool g_on = false;
int g_core = 0;
uint64_t g_seq, g_now;
static const uint64_t MONO_BASE = 1000ull * 1000000000ull, REAL_BASE = 1700000000ull * 1000000000ull;
static int64_t g_real_off; // what the system clock has been set forward or back
static int g_nthr;

static long rsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0)
{
  long r;
  register long r10 asm("r10") = d; register long r8 asm("r8") = e; register long r9 asm("r9") = f;
  asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}

uint64_t mix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
  return h;
}

// ------------------------------------------------------------------ rng
static uint64_t g_rng[2];
static uint64_t rnd()
{
  uint64_t s1 = g_rng[0]; const uint64_t s0 = g_rng[1];
  const uint64_t r = s0 + s1;
  g_rng[0] = s0; s1 ^= s1 << 23;
  g_rng[1] = s1 ^ s0 ^ (s1 >> 18) ^ (s0 >> 5);
  return r;
}
static void seed_rng(uint64_t s)
{
  for (int i = 0; i < 2; ++i) {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    g_rng[i] = z ^ (z >> 31);
  }
}

template <class G>
static uint32_t choose(Stream s, uint32_t n, G gen)
{
  if (n <= 1) return 0;
  uint32_t& pos = g_res->nlog[s];
  uint32_t v;
  if (g_cfg.replay) {
    v = pos < g_cfg.rlen[s] ? g_cfg.rlog[s][pos] : 0;
    if (v >= n) v %= n;
  } else if (pos >= LOGCAP) {
    v = 0;
  } else {
    v = gen();
  }
  if (pos < LOGCAP) g_res->log[s][pos++] = v;
  else g_res->log_overflow = true;
  return v;
}

// ------------------------------------------------------------------ trace
static inline void hash_u64(uint64_t v) { g_res->hash = mix(g_res->hash, v); }

static void trace_text(const char* s)
{
  RunResult* r = g_res;
  size_t n = strlen(s);
  if (r->tracelen + n + 1 >= TRACECAP) return;
  memcpy(r->trace + r->tracelen, s, n);
  r->tracelen += n;
  r->trace[r->tracelen++] = '\n';
  r->trace[r->tracelen] = 0;
}

static void finish(int status, const char* sig, const char* msg)
{
  RunResult* r = g_res;
  snprintf(r->sig, sizeof r->sig, "%s", sig);
  snprintf(r->msg, sizeof r->msg, "%s", msg);
  r->sim_ns = g_now;
  r->events = g_seq;
  __atomic_store_n(&r->status, status, __ATOMIC_SEQ_CST);
  rsys(SYS_exit_group, status == 1 ? 0 : 10 + status);
  __builtin_unreachable();
}

void fatal(const char* fmt, ...)
{
  char buf[900];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  if (!g_on) { fprintf(stderr, "simulator error: %s\n", buf); _exit(3); }
  finish(4, "simulator-error", buf);
  __builtin_unreachable();
}

// ------------------------------------------------------------------ shadow call stack
enum { STKMAX = 160 };
static void* g_stk[MAXTHREADS + 1][STKMAX];
static int g_depth[MAXTHREADS + 1];
static inline int stk_id() { return g_cur == &g_dummy ? MAXTHREADS : g_cur->id; }

static void append_stack(char* buf, size_t cap, void* pc)
{
  int id = stk_id();
  size_t n = strlen(buf);
  n += snprintf(buf + n, cap - n, " @");
  if (pc && n < cap) n += snprintf(buf + n, cap - n, " %p", pc);
  int d = g_depth[id] < (int)STKMAX ? g_depth[id] : (int)STKMAX;
  for (int i = d - 1, k = 0; i >= 0 && k < 14 && n + 20 < cap; --i, ++k)
    n += snprintf(buf + n, cap - n, " %p", g_stk[id][i]);
}

static const char* g_classify;
static void report(const char* sig0, const char* text, void* pc)
{
  const char* sig = g_classify ? g_classify : sig0;
  char buf[1000];
  snprintf(buf, sizeof buf, "%s", text);
  append_stack(buf, sizeof buf, pc);
  if (is_known(sig)) {
    RunResult* r = g_res;
    for (int i = 0; i < r->nknown; ++i)
      if (!strcmp(r->known[i], sig)) return;
    if (r->nknown < 16) {
      snprintf(r->known[r->nknown], 200, "%s", sig);
      snprintf(r->known_msg[r->nknown], 300, "%s", text);
      ++r->nknown;
    }
    ev("known", 0);
    if (g_classify) finish(3, "known finding", "known finding");
    return;
  }
  if (g_cfg.verbose) { char b2[1300]; snprintf(b2, sizeof b2, "VIOLATION [%s] %s", sig, buf); trace_text(b2); }
  // the message is part of the hash: same violation, same message
  for (const char* p = sig; *p; ++p) hash_u64((unsigned char)*p);
  finish(2, sig, buf);
}

// ------------------------------------------------------------------ events / time
struct Event { uint64_t when, seq; void (*f)(void*, uint64_t); void* a; uint64_t b; };
struct EvCmp { bool operator()(const Event& x, const Event& y) const { return x.when != y.when ? x.when > y.when : x.seq > y.seq; } };
static Vec<Event> g_events;
static uint64_t g_evseq;

void at(uint64_t when, void (*f)(void*, uint64_t), void* a, uint64_t b)
{
  g_events.push_back(Event{when, g_evseq++, f, a, b});
  std::push_heap(g_events.begin(), g_events.end(), EvCmp());
}

static void run_due()
{
  while (!g_events.empty() && g_events.front().when <= g_now) {
    std::pop_heap(g_events.begin(), g_events.end(), EvCmp());
    Event e = g_events.back();
    g_events.pop_back();
    InCore ic;
    e.f(e.a, e.b);
  }
}

// ------------------------------------------------------------------ scheduler
enum Policy { pol_random, pol_pct };
static Policy g_pol;
static uint32_t g_switch_p;         // out of 65536
static uint32_t g_mean_gap;         // 0: no memory-level preemption
static int64_t g_gap = INT64_MAX;
static uint64_t g_pct_points[8];
static int g_pct_n;
static uint64_t g_step_limit = 150000;
static uint64_t g_extra; // what allow_steps() has added
static uint64_t g_mem_limit = 60000000;
static bool g_fair;

static void futex_wait(int* p) { while (__atomic_load_n(p, __ATOMIC_SEQ_CST) == 0) rsys(SYS_futex, (long)p, FUTEX_WAIT_PRIVATE, 0, 0); __atomic_store_n(p, 0, __ATOMIC_SEQ_CST); }
static void futex_wake(int* p) { __atomic_store_n(p, 1, __ATOMIC_SEQ_CST); rsys(SYS_futex, (long)p, FUTEX_WAKE_PRIVATE, 1); }

static void switch_to(Thread* t)
{
  Thread* me = g_cur;
  if (t == me) return;
  g_res->switches++;
  hash_u64(0x5c00 + t->id);
  me->quiet = g_quiet; me->core = g_core; me->allocf = g_alloc_faults;
  g_cur = t;
  g_quiet = t->quiet; g_core = t->core; g_alloc_faults = t->allocf;
  futex_wake(&t->go);
  if (me->st == t_finished) return; // thread exits
  futex_wait(&me->go);
  // resumed: whoever switched to us restored our flags
}

static void arm_gap()
{
  if (!g_mean_gap) { g_gap = INT64_MAX; return; }
  uint32_t v = choose(S, 2 * g_mean_gap, []() { return 1 + (uint32_t)(rnd() % (2 * g_mean_gap - 1)); });
  g_gap = v ? (int64_t)v : INT64_MAX;
}

static int collect(Thread** out, bool with_cur)
{
  int n = 0;
  for (int k = 1; k <= g_nthr; ++k) {
    Thread* t = &g_thr[(g_cur->id + k) % g_nthr];
    if (t == g_cur && !with_cur) continue;
    if (t->st == t_runnable) out[n++] = t;
  }
  return n;
}

// Picks the next thread. `stay` is non-null when the current one may continue.
static Thread* pick(Thread** run, int n, Thread* stay, bool force)
{
  if (stay && n == 0) return stay;
  if (!stay && n == 1) return run[0];
  if (g_fair) return run[0];
  if (g_pol == pol_pct && !g_cfg.replay) {
    for (int i = 0; i < g_pct_n; ++i)
      if (g_pct_points[i] == g_res->yields) g_cur->prio = -(int)(i + 1);
  }
  uint32_t opts = (uint32_t)n + (stay ? 1 : 0);
  uint32_t c = choose(S, opts, [&]() -> uint32_t {
    if (g_pol == pol_pct) {
      Thread* best = stay; uint32_t bi = 0;
      for (int i = 0; i < n; ++i)
        if (!best || run[i]->prio > best->prio) { best = run[i]; bi = (uint32_t)i + (stay ? 1 : 0); }
      if (!stay) { bi = 0; best = run[0]; for (int i = 1; i < n; ++i) if (run[i]->prio > best->prio) { best = run[i]; bi = i; } }
      if (force && best == stay && (rnd() & 1)) return 1 + (uint32_t)(rnd() % (uint64_t)n);
      return bi;
    }
    if (!stay) return (uint32_t)(rnd() % (uint64_t)n);
    if (force || (rnd() & 0xffff) < g_switch_p) return 1 + (uint32_t)(rnd() % (uint64_t)n);
    return 0;
  });
  if (stay) return c == 0 ? stay : run[c - 1];
  return run[c];
}

static void check_budget()
{
  if (g_res->yields > g_step_limit || g_res->mem > g_mem_limit) {
    if (!g_fair) { // retry under a fair schedule before calling it a livelock
      g_fair = true; g_mean_gap = 0; g_gap = INT64_MAX;
      g_step_limit = g_res->yields + 60000 + g_extra; g_mem_limit = g_res->mem + 60000000 + g_extra * 200;
      return;
    }
    report("no-progress", "the run does not terminate (step budget exhausted under a fair schedule)", 0);
    finish(3, "no-progress", "");
  }
}

static void yield_impl(bool force)
{
  if (!g_on || g_quiet) return;
  g_res->yields++;
  g_now += 200;
  check_budget();
  run_due();
  Thread* run[MAXTHREADS];
  int n = collect(run, false);
  Thread* t = pick(run, n, g_cur, force);
  switch_to(t);
}

void yield_point() { yield_impl(false); }

static void deadlock()
{
  char buf[700]; size_t n = 0;
  n += snprintf(buf, sizeof buf, "no thread can run and no timer or I/O event is pending:");
  for (int i = 0; i < g_nthr; ++i)
    if (g_thr[i].st == t_blocked && n < sizeof buf - 60)
      n += snprintf(buf + n, sizeof buf - n, " t%d blocked on %s;", i, g_thr[i].why);
  report("deadlock", buf, 0);
  finish(3, "deadlock", buf);
}

static void timeout_cb(void* p, uint64_t token)
{
  Thread* t = (Thread*)p;
  if (t->wake_token == token && t->st == t_blocked) { t->timed_out = true; wake(t); }
}

void wake(Thread* t)
{
  if (t->st != t_blocked) return;
  t->st = t_runnable;
  t->wake_token++;
  t->wobj = 0;
}

void wake_all(const void* obj)
{
  for (int i = 0; i < g_nthr; ++i)
    if (g_thr[i].st == t_blocked && g_thr[i].wobj == obj) wake(&g_thr[i]);
}

bool block(const char* why, const void* obj, uint64_t deadline)
{
  Thread* me = g_cur;
  if (g_quiet) fatal("blocking on %s inside a quiet region", why);
  me->st = t_blocked; me->why = why; me->wobj = obj; me->timed_out = false;
  me->wake_token++;
  if (deadline != ~0ull) at(deadline, timeout_cb, me, me->wake_token);
  g_res->yields++;
  check_budget();
  for (;;) {
    run_due();
    Thread* run[MAXTHREADS];
    int n = collect(run, true);
    if (n == 0) {
      if (g_events.empty()) deadlock();
      if (g_events.front().when > g_now) g_now = g_events.front().when;
      continue;
    }
    Thread* t = pick(run, n, 0, false);
    if (t != me) switch_to(t);
    if (me->st == t_runnable) break;
  }
  return !me->timed_out;
}

// ------------------------------------------------------------------ vector clocks / race detector
static bool g_race;
void vc_release(uint64_t* vc)
{
  Thread* t = g_cur;
  for (int i = 0; i < MAXTHREADS; ++i) if (t->vc[i] > vc[i]) vc[i] = t->vc[i];
  t->vc[t->id]++;
}
void vc_acquire(const uint64_t* vc)
{
  Thread* t = g_cur;
  for (int i = 0; i < MAXTHREADS; ++i) if (vc[i] > t->vc[i]) t->vc[i] = vc[i];
}
struct AtomVC { uintptr_t addr; uint64_t vc[MAXTHREADS]; };
static Map<uintptr_t, AtomVC*>* g_atoms;

struct Cell { uint32_t clk; uint8_t tid, write, atomic, mask; };
struct Gran { uintptr_t addr; Cell c[6]; uint8_t n, next; };
enum { GRANS = 1 << 17 };
static Gran* g_gran;
static size_t g_ngran;
extern "C" char __data_start, _end;

static void race_access(uintptr_t a, size_t n, bool write, bool atomic, void* pc)
{
  Thread* t = g_cur;
  while (n) {
    uintptr_t g = a & ~(uintptr_t)7;
    size_t o = a - g, k = 8 - o < n ? 8 - o : n;
    uint8_t mask = (uint8_t)(((1u << k) - 1) << o);
    size_t h = (size_t)((g >> 3) * 0x9e3779b97f4a7c15ull >> 40) & (GRANS - 1);
    while (g_gran[h].addr && g_gran[h].addr != g) h = (h + 1) & (GRANS - 1);
    Gran& gr = g_gran[h];
    if (!gr.addr) {
      if (++g_ngran > GRANS / 2) { g_race = false; sim::probe("race-detector-table-full"); return; }
      gr.addr = g; gr.n = 0;
    }
    int same = -1;
    for (int i = 0; i < gr.n; ++i) {
      Cell& c = gr.c[i];
      if (c.tid == t->id) { if (c.write == write && c.atomic == atomic && c.mask == mask) same = i; continue; }
      if (!(c.mask & mask) || !(c.write | write) || (c.atomic && atomic)) continue;
      if (c.clk > t->vc[c.tid]) {
        char b[200];
        snprintf(b, sizeof b, "%s by t%d is concurrent with an earlier %s by t%d (no happens-before order)",
                 write ? "write" : "read", t->id, c.write ? "write" : "read", c.tid);
        report("data-race", b, pc);
        c.clk = 0;
      }
    }
    if (same < 0) {
      if (gr.n < 6) same = gr.n++;
      else {
        // drop a cell that happened before us if there is one
        same = gr.next++ % 6;
        for (int i = 0; i < 6; ++i) if (gr.c[i].clk <= t->vc[gr.c[i].tid] && !gr.c[i].write) { same = i; break; }
      }
    }
    gr.c[same] = Cell{(uint32_t)t->vc[t->id], (uint8_t)t->id, write, atomic, mask};
    a += k; n -= k;
  }
}

// ------------------------------------------------------------------ memory of the simulator itself
static char* const RAW = (char*)0x200000000000ull;
static const size_t RAW_SIZE = (size_t)1 << 30;
static size_t g_raw;              // 0: outside a run, the C library's heap serves
static void* g_rawlist[64 + 64];
static unsigned raw_class(size_t n) { return n <= 1024 ? (unsigned)((n + 15) / 16 - 1) : 64 + (unsigned)(63 - __builtin_clzll(n - 1)); }
static size_t raw_class_size(unsigned c) { return c < 64 ? (c + 1) * 16 : (size_t)2 << (c - 64); }
struct RawHdr { size_t cls, size; };
static void raw_map()
{
  if (mmap(RAW, RAW_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) != RAW) fatal("mmap");
  g_raw = 16;
}
void* rmalloc(size_t n, size_t align)
{
  if (!n) n = 1;
  if (!g_raw) {
    if (align > 16) fatal("aligned allocation outside a run");
    void* p = __real_malloc(n);
    if (!p) abort();
    return p;
  }
  if (align > 16) n += align;
  unsigned c = raw_class(n);
  char* p = (char*)g_rawlist[c];
  if (p) memcpy(&g_rawlist[c], p, sizeof(void*));
  else {
    size_t k = raw_class_size(c);
    if (g_raw + k + 16 > RAW_SIZE) fatal("out of simulator memory");
    p = RAW + g_raw + 16;
    g_raw += k + 16;
  }
  RawHdr* h = (RawHdr*)(p - 16);
  h->cls = c; h->size = n;
  if (align > 16) { // never goes back to its list
    char* q = (char*)(((uintptr_t)p + align - 1) & ~(uintptr_t)(align - 1));
    if (q != p) { h = (RawHdr*)(q - 16); h->cls = ~(size_t)0; h->size = n - (size_t)(q - p); }
    else h->cls = ~(size_t)0;
    return q;
  }
  return p;
}
void rfree(void* p)
{
  if ((size_t)((char*)p - RAW) >= RAW_SIZE) { __real_free(p); return; }
  RawHdr* h = (RawHdr*)((char*)p - 16);
  if (h->cls >= 128) return;
  memcpy(p, &g_rawlist[h->cls], sizeof(void*));
  g_rawlist[h->cls] = p;
}
static size_t raw_size(void* p) { return (size_t)((char*)p - RAW) < RAW_SIZE ? ((RawHdr*)((char*)p - 16))->size : 0; }

// ------------------------------------------------------------------ arena
static char* const ARENA = (char*)0x100000000000ull;
static const size_t ARENA_SIZE = 48u << 20;
static unsigned char* const SHADOW = (unsigned char*)0x110000000000ull;
static size_t g_bump;
static uint64_t g_serial;
struct Blk { uint64_t magic, size, serial, state; }; // 32 bytes, lives in the left red zone
enum { MAGIC = 0x51b10c51 };

bool in_arena(const void* p) { return (size_t)((const char*)p - ARENA) < ARENA_SIZE; }

static void arena_map()
{
  if (mmap(ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) != ARENA ||
      mmap(SHADOW, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) != SHADOW)
    fatal("mmap");
}

static void* arena_new(size_t n, size_t align)
{
  if (align < 16) align = 16;
  size_t p = g_bump + sizeof(Blk);
  p = (p + align - 1) & ~(align - 1);
  if (p + n + 32 > ARENA_SIZE) {
    if (n > ARENA_SIZE / 2) return 0; // a giant request fails like it would anywhere
    finish(3, "arena-exhausted", "");
  }
  Blk* b = (Blk*)(ARENA + p - sizeof(Blk));
  b->magic = MAGIC; b->size = n; b->serial = ++g_serial; b->state = 1;
  // Fresh memory is filled with a pattern, as malloc gives no guarantee
  memset(ARENA + p, 0xA5, n);
  memset(SHADOW + p, 1, n);
  g_bump = (p + n + 31) & ~(size_t)15;
  return ARENA + p;
}

static void arena_delete(void* p, size_t sz, void* pc)
{
  Blk* b = (Blk*)((char*)p - sizeof(Blk));
  if (b->magic != MAGIC) { report("invalid-free", "freeing an address that was never allocated", pc); return; }
  if (b->state != 1) { report("double-free", "freeing a block twice", pc); return; }
  if (sz != (size_t)-1 && sz != b->size) {
    char t[120]; snprintf(t, sizeof t, "block of %lu bytes returned as %lu bytes", (unsigned long)b->size, (unsigned long)sz);
    report("size-mismatch-free", t, pc);
  }
  if (g_race && !g_quiet && b->size <= 8192) race_access((uintptr_t)p, b->size, true, false, pc);
  b->state = 2;
  memset(p, 0xDD, b->size);
  memset(SHADOW + ((char*)p - ARENA), 2, b->size);
}

static void bad_access(const void* p, size_t n, bool write, void* pc)
{
  size_t off = (const char*)p - ARENA;
  bool freed = false;
  for (size_t i = 0; i < n; ++i) if (off + i < ARENA_SIZE && SHADOW[off + i] == 2) freed = true;
  char b[200];
  snprintf(b, sizeof b, "%s of %lu bytes of %s memory", write ? "write" : "read", (unsigned long)n, freed ? "freed" : "unallocated");
  report(freed ? "heap-use-after-free" : "heap-out-of-bounds", b, pc);
}

static inline void check_range(const void* p, size_t n, bool write, void* pc)
{
  size_t off = (const char*)p - ARENA;
  if (off >= ARENA_SIZE) return;
  const unsigned char* s = SHADOW + off;
  for (size_t i = 0; i < n; ++i)
    if (s[i] != 1) { bad_access(p, n, write, pc); return; }
}

static inline bool race_tracked(const void* p)
{
  return in_arena(p) || ((const char*)p >= &__data_start && (const char*)p < &_end);
}

static inline void mem_access(const void* p, size_t n, bool write, bool atomic, void* pc)
{
  if (!g_on || g_quiet || g_core) return;
  g_res->mem++;
  if (__builtin_expect(--g_gap <= 0, 0)) {
    arm_gap();
    yield_impl(true);
  } else if (__builtin_expect((g_res->mem & 0xfffff) == 0, 0)) check_budget();
  size_t off = (const char*)p - ARENA;
  if (off < ARENA_SIZE) {
    const unsigned char* s = SHADOW + off;
    bool ok;
    switch (n) {
      case 1: ok = s[0] == 1; break;
      case 2: { uint16_t v; memcpy(&v, s, 2); ok = v == 0x0101; break; }
      case 4: { uint32_t v; memcpy(&v, s, 4); ok = v == 0x01010101u; break; }
      case 8: { uint64_t v; memcpy(&v, s, 8); ok = v == 0x0101010101010101ull; break; }
      default: { ok = true; for (size_t i = 0; i < n; ++i) ok &= s[i] == 1; }
    }
    if (__builtin_expect(!ok, 0)) bad_access(p, n, write, pc);
  }
  if (g_race && race_tracked(p)) race_access((uintptr_t)p, n, write, atomic, pc);
}

static void atomic_sync(const void* p)
{
  if (!g_race) return;
  AtomVC*& v = (*g_atoms)[(uintptr_t)p];
  if (!v) { v = (AtomVC*)rmalloc(sizeof(AtomVC)); memset(v, 0, sizeof *v); }
  vc_acquire(v->vc);
  vc_release(v->vc);
}

void check_access(const void* p, size_t n, bool write)
{
  if (!n || g_quiet) return;
  check_range(p, n, write, 0);
  if (g_race && n <= 65536 && race_tracked(p)) race_access((uintptr_t)p, n, write, false, 0);
}

// ------------------------------------------------------------------ mutexes etc.
struct Mutex { int owner; int depth; bool recursive; uint64_t vc[MAXTHREADS]; };
static Map<const void*, Mutex>* g_mutex;
struct Cond { Vec<int> waiters; };
static Map<const void*, Cond>* g_cond;

static Mutex& mtx(const void* p)
{
  auto it = g_mutex->find(p);
  if (it != g_mutex->end()) return it->second;
  Mutex m; memset(&m, 0, sizeof m); m.owner = -1;
  return (*g_mutex)[p] = m;
}


static int m_lock(const void* p, bool tryit, uint64_t deadline = ~0ull)
{
  InCore ic;
  check_range(p, 40, true, 0);
  if (!g_quiet) yield_point();
  check_range(p, 40, true, 0);
  for (;;) {
    Mutex& m = mtx(p);
    if (m.owner == -1) { m.owner = g_cur->id; m.depth = 1; if (g_race) vc_acquire(m.vc); return 0; }
    if (m.owner == g_cur->id && m.recursive) { m.depth++; return 0; }
    if (tryit) return EBUSY;
    if (m.owner == g_cur->id) { report("deadlock", "a thread locks a mutex it already holds", 0); return 0; }
    if (!block("mutex", p, deadline)) return ETIMEDOUT;
  }
}
static int m_unlock(const void* p, bool yield_after = true)
{
  InCore ic;
  check_range(p, 40, true, 0);
  Mutex& m = mtx(p);
  if (m.owner != g_cur->id) { report("unlock-not-owner", "a thread unlocks a mutex it does not hold", 0); return EPERM; }
  if (--m.depth > 0) return 0;
  m.owner = -1;
  if (g_race) vc_release(m.vc);
  g_cur->last_unlock = ++g_seq;
  wake_all(p);
  if (yield_after && !g_quiet) yield_point();
  return 0;
}

// ------------------------------------------------------------------ threads
static void exit_thread()
{
  Thread* me = g_cur;
  me->st = t_finished;
  me->wake_token++;
  wake_all(me);
  ev("thread-exit", me->id);
  for (;;) {
    run_due();
    Thread* run[MAXTHREADS];
    int n = collect(run, false);
    if (n == 0) {
      if (g_events.empty()) deadlock();
      if (g_events.front().when > g_now) g_now = g_events.front().when;
      continue;
    }
    Thread* t = pick(run, n, 0, false);
    switch_to(t);
    return;
  }
}

static void* thread_main(void* p)
{
  Thread* t = (Thread*)p;
  futex_wait(&t->go);
  t->ret = t->fn(t->arg);
  g_quiet = 0; g_core = 0;
  exit_thread();
  return t->ret;
}

static void init_thread(Thread* t, int id)
{
  memset(t, 0, sizeof *t);
  t->id = id;
  t->st = t_runnable;
  t->prio = 1 + (int)(rnd() & 0xffff);
  t->vc[id] = 1;
}

// ------------------------------------------------------------------ run
static void on_signal(int s)
{
  char b[900];
  snprintf(b, sizeof b, "signal %d (%s)", s, s == SIGSEGV ? "SIGSEGV" : s == SIGABRT ? "SIGABRT" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : "SIGILL");
  if (g_on) report("crash", b, 0);
  finish(4, "crash-outside-run", b);
}

static void on_terminate()
{
  char b[600]; snprintf(b, sizeof b, "std::terminate was called");
  std::type_info* ti = abi::__cxa_current_exception_type();
  if (ti) {
    snprintf(b, sizeof b, "std::terminate was called (%s)", ti->name());
  }
  if (g_on) report("terminate", b, 0);
  finish(4, "terminate-outside-run", b);
}

static void run_scenario_here(const Scenario* sc)
{
  // single threaded here
  RunResult* r = g_res;
  snprintf(r->scenario, sizeof r->scenario, "%s.%s", sc->prop, sc->name);
  seed_rng(g_cfg.rng_seed);
  raw_map();
  arena_map();
  g_mutex = new (rmalloc(sizeof(*g_mutex))) Map<const void*, Mutex>();
  g_cond = new (rmalloc(sizeof(*g_cond))) Map<const void*, Cond>();
  g_atoms = new (rmalloc(sizeof(*g_atoms))) Map<uintptr_t, AtomVC*>();
  init_thread(&g_thr[0], 0);
  g_nthr = 1;
  g_cur = &g_thr[0];
  g_thr[0].real = pthread_self();
  kernel_init();
  int sigs[] = {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL};
  static char altstack[65536];
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
  sigaltstack(&ss, 0);
  for (int s : sigs) {
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    sigaction(s, &sa, 0);
  }
  std::set_terminate(on_terminate);
  g_switch_p = 0;
  g_on = true;
  try {
    sc->fn();
  } catch (std::exception& e) {
    char b[500]; snprintf(b, sizeof b, "an exception escaped to the scenario: %s", e.what());
    report("unexpected-exception", b, 0);
  } catch (...) {
    report("unexpected-exception", "an unknown exception escaped to the scenario", 0);
  }
  g_quiet = 0;
  int alive = 0;
  for (int i = 0; i < g_nthr; ++i) if (g_thr[i].st == t_runnable || g_thr[i].st == t_blocked) ++alive;
  if (alive > 1) report("thread-leak", "threads are still running at the end of the run", 0);
  finish(1, "", "");
}

// Stacks at fixed addresses, one per simulated thread, never used twice.
enum { STACK_SIZE = 512 * 1024, MAIN_STACK = MAXTHREADS + 1 };
static void* thread_stack(int id)
{
  char* p = (char*)0x300000000000ull + (size_t)id * 2 * STACK_SIZE;
  if (mmap(p, STACK_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0) != p) fatal("mmap");
  return p;
}
static const Scenario* g_main_scen;
static void main_entry() { run_scenario_here(g_main_scen); }
void run_scenario(const Scenario* sc)
{
  static ucontext_t me, uc;
  g_main_scen = sc;
  getcontext(&uc);
  uc.uc_stack.ss_sp = thread_stack(MAIN_STACK); uc.uc_stack.ss_size = STACK_SIZE; uc.uc_link = 0;
  makecontext(&uc, main_entry, 0);
  swapcontext(&me, &uc);
}

static Scenario* g_scen;
const Scenario* scenarios() { return g_scen; }

template <class T> static T real(const char* n)
{
  void* p = dlsym(RTLD_NEXT, n);
  if (!p) { fprintf(stderr, "no %s\n", n); _exit(3); }
  return (T)p;
}

} // namespace simcore

// ====================================================================== public API
namespace sim {
using namespace simcore;

const char* const fault_names[NFAULTS] = {
  "eintr", "short_transfer", "eio", "enospc", "emfile", "enfile", "open_error", "close_error",
  "fstat_error", "ftruncate_error", "lseek_error", "fchmod_error", "futimens_error",
  "dup_error", "stalled_call", "alloc_failure", "spurious_wakeup", "concurrent_shrink", "concurrent_create",
  "net_segmentation", "net_reset", "net_eof", "net_delay", "net_refuse", "net_eagain",
  "socket_error", "resolve_error", "connect_error", "handler_throw", "lost_race", "net_bad_bytes",
  "outside_change", "clock_jump"
};

Scenario::Scenario(const char* p, const char* n, ScenarioFn f, int w) : prop(p), name(n), fn(f), weight(w), next(0)
{
  Scenario** q = &g_scen;
  while (*q) q = &(*q)->next;
  *q = this;
}

uint32_t draw(Stream s, uint32_t n) { InCore ic; return choose(s, n, [&]() { return (uint32_t)(rnd() % n); }); }
uint32_t draw_p(Stream s, uint32_t p)
{
  InCore ic;
  return choose(s, 2, [&]() { return (uint32_t)((rnd() & 0xffff) < p); });
}
uint32_t wl_size(uint32_t max)
{
  InCore ic;
  return choose(W, max + 1, [&]() -> uint32_t {
    switch (rnd() % 4) {
      case 0: return (uint32_t)(rnd() % (max < 4 ? max + 1 : 4));
      case 1: return (uint32_t)(rnd() % (max / 4 + 1));
      default: return (uint32_t)(rnd() % (max + 1));
    }
  });
}

static uint32_t g_fp[NFAULTS];
static bool g_fon = true;
void set_fault(Fault f, uint32_t p) { g_fp[f] = p; }
uint32_t get_fault(Fault f) { return g_fp[f]; }
void swarm_fault(Fault f, uint32_t percent_on)
{
  InCore ic;
  static const uint32_t rates[] = {0, 1300, 4000, 10000, 26000};
  uint32_t v = choose(F, 5, [&]() -> uint32_t { return rnd() % 100 < percent_on ? 1 + (uint32_t)(rnd() % 4) : 0; });
  g_fp[f] = rates[v];
}
void count_fault(Fault f) { g_res->faults[f]++; }
bool fire(Fault f)
{
  if (!g_on || g_quiet || !g_fon || !g_fp[f]) return false;
  if (!draw_p(F, g_fp[f])) return false;
  g_res->faults[f]++;
  ev(fault_names[f]);
  return true;
}
void faults_enabled(bool on) { g_fon = on; }
bool faults_are_enabled() { return g_fon; }

void swarm_sched(bool mem)
{
  InCore ic;
  // all drawn from S so that the minimiser may simplify them
  uint32_t pol = choose(S, 8, []() { return (uint32_t)(rnd() % 8); });
  static const uint32_t sw[] = {1500, 4000, 8000, 16000, 24000, 32768, 12000, 6000};
  if (pol < 5) { g_pol = pol_random; g_switch_p = sw[pol]; }
  else {
    g_pol = pol_pct;
    g_pct_n = (int)(pol - 4);
    for (int i = 0; i < g_pct_n; ++i) g_pct_points[i] = 1 + rnd() % 400;
  }
  uint32_t g = choose(S, 6, []() { return (uint32_t)(rnd() % 6); });
  static const uint32_t gaps[] = {0, 0, 3000, 800, 200, 50};
  g_mean_gap = mem ? gaps[g] : 0;
  if (g_mean_gap) arm_gap();
}
void allow_steps(uint64_t n) { g_step_limit += n; g_mem_limit += n * 200; g_extra += n; }
void yield() { InCore ic; yield_point(); }
void sleep_us(uint64_t us) { InCore ic; block("sleep", &g_now, g_now + us * 1000); }
uint64_t now_ns() { return g_now; }
uint64_t system_ns() { return g_now + REAL_BASE + (uint64_t)g_real_off; }
void set_system_clock(int64_t off) { g_real_off = off; }
uint64_t seq() { return g_seq; }
uint64_t next_seq() { return ++g_seq; }
int self() { return g_cur->id; }
uint64_t last_unlock_seq(int tid) { return g_thr[tid].last_unlock; }
int nthreads_alive()
{
  int a = 0;
  for (int i = 0; i < g_nthr; ++i) if (g_thr[i].st == t_runnable || g_thr[i].st == t_blocked) ++a;
  return a;
}
static void after_cb(void* p, uint64_t f) { ((void (*)(void*))f)(p); }
void after_us(uint64_t us, void (*f)(void*), void* arg) { InCore ic; at(g_now + us * 1000, after_cb, arg, (uint64_t)f); }

void race_detector(bool on)
{
  if (on && !g_gran) {
    g_gran = (Gran*)mmap(0, sizeof(Gran) * (size_t)GRANS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (g_gran == MAP_FAILED) fatal("mmap");
  }
  g_race = on;
}

uint64_t alloc_mark() { return g_serial; }
LeakInfo live_since(uint64_t mark)
{
  LeakInfo li = {0, 0, 0, 0};
  // walk the arena
  size_t off = 0;
  while (off + sizeof(Blk) <= g_bump) {
    Blk* b = (Blk*)(ARENA + off);
    if (b->magic != MAGIC) { off += 16; continue; }
    if (b->state == 1 && b->serial > mark) {
      if (!li.count) { li.first_size = b->size; li.first_serial = b->serial; }
      li.count++; li.bytes += b->size;
    }
    off += sizeof(Blk) + ((b->size + 15) & ~(size_t)15);
  }
  return li;
}
void* raw_malloc(size_t n) { return rmalloc(n); }
void raw_free(void* p) { rfree(p); }
void* arena_alloc(size_t n, size_t a) { return arena_new(n, a); }
void arena_free(void* p) { arena_delete(p, (size_t)-1, __builtin_return_address(0)); }
bool is_live(const void* p) { return in_arena(p) && SHADOW[(const char*)p - ARENA] == 1; }
size_t block_size(const void* p)
{
  if (!in_arena(p)) return 0;
  const Blk* b = (const Blk*)((const char*)p - sizeof(Blk));
  return b->magic == MAGIC && b->state == 1 ? b->size : 0;
}

void classify(const char* sig) { g_classify = sig; }
bool is_known(const char* sig)
{
  for (auto& k : g_known) if (k.sig == sig) return true;
  return false;
}
void violation(const char* sig, const char* fmt, ...)
{
  InCore ic;
  char buf[800];
  va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  report(sig, buf, 0);
}
void end_run(const char* why) { finish(3, why, why); __builtin_unreachable(); }
void probe(const char* name, uint64_t n)
{
  RunResult* r = g_res;
  for (int i = 0; i < r->nprobes; ++i) if (r->probes[i].name == name) { r->probes[i].n += n; return; }
  if (r->nprobes < NPROBES) { r->probes[r->nprobes].name = name; r->probes[r->nprobes++].n = n; }
}
void nontrivial() { g_res->nontriv = true; }
void ev(const char* name, int64_t a, int64_t b, int64_t c, int64_t d)
{
  RunResult* r = g_res;
  ++g_seq;
  uint64_t h = 1469598103934665603ull;
  for (const char* p = name; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull;
  hash_u64(h); hash_u64((uint64_t)a); hash_u64((uint64_t)b); hash_u64((uint64_t)c); hash_u64((uint64_t)d);
  hash_u64(g_now);
  hash_u64((uint64_t)g_cur->id);
  if (g_cfg.verbose) {
    InCore ic; char buf[300];
    snprintf(buf, sizeof buf, "#%-6lu %10.3fus t%d  %s %ld %ld %ld %ld", (unsigned long)g_seq, (double)g_now / 1000.0, g_cur->id, name, (long)a, (long)b, (long)c, (long)d);
    trace_text(buf);
  }
  (void)r;
}
void note(const char* fmt, ...)
{
  if (!g_cfg.verbose) return;
  InCore ic; char buf[600]; int k = snprintf(buf, sizeof buf, "#%-6lu %10.3fus t%d  ", (unsigned long)g_seq, (double)g_now / 1000.0, g_cur->id);
  va_list ap; va_start(ap, fmt); vsnprintf(buf + k, sizeof buf - k, fmt, ap); va_end(ap);
  trace_text(buf);
}
bool verbose() { return g_cfg.verbose; }
bool thorough() { return g_cfg.thorough; }
void hash_bytes(const void* p, size_t n)
{
  const unsigned char* c = (const unsigned char*)p;
  uint64_t h = 1469598103934665603ull;
  for (size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
  hash_u64(h);
}
} // namespace sim

using namespace simcore;
using namespace sim;

// ====================================================================== operator new / malloc
static inline bool use_arena() { return g_on && !g_quiet && !g_core; }

static void* sim_alloc(size_t n, size_t align, bool may_fail)
{
  if (may_fail && g_alloc_faults && fire(f_alloc)) return 0;
  return arena_new(n, align);
}

void* operator new(size_t n)
{
  if (!use_arena()) return rmalloc(n);
  InCore ic;
  void* p = sim_alloc(n, 16, true);
  if (!p) { g_core--; struct Re { ~Re() { g_core++; } } re; throw std::bad_alloc(); }
  return p;
}
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept
{
  if (!use_arena()) return rmalloc(n);
  InCore ic;
  return sim_alloc(n, 16, true);
}
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void* operator new(size_t n, std::align_val_t a)
{
  if (!use_arena()) return rmalloc(n, (size_t)a);
  InCore ic;
  void* p = sim_alloc(n, (size_t)a, true);
  if (!p) { g_core--; struct Re { ~Re() { g_core++; } } re; throw std::bad_alloc(); }
  return p;
}
void* operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
static void sim_free(void* p, size_t n, void* pc)
{
  if (!p) return;
  if (in_arena(p)) { InCore ic; arena_delete(p, n, pc); }
  else rfree(p);
}
void operator delete(void* p) noexcept { sim_free(p, (size_t)-1, __builtin_return_address(0)); }
void operator delete[](void* p) noexcept { sim_free(p, (size_t)-1, __builtin_return_address(0)); }
void operator delete(void* p, size_t n) noexcept { sim_free(p, n, __builtin_return_address(0)); }
void operator delete[](void* p, size_t n) noexcept { sim_free(p, n, __builtin_return_address(0)); }
void operator delete(void* p, const std::nothrow_t&) noexcept { sim_free(p, (size_t)-1, __builtin_return_address(0)); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { sim_free(p, (size_t)-1, __builtin_return_address(0)); }
void operator delete(void* p, std::align_val_t) noexcept { sim_free(p, (size_t)-1, __builtin_return_address(0)); }
void operator delete[](void* p, std::align_val_t) noexcept { sim_free(p, (size_t)-1, __builtin_return_address(0)); }
void operator delete(void* p, size_t n, std::align_val_t) noexcept { sim_free(p, n, __builtin_return_address(0)); }
void operator delete[](void* p, size_t n, std::align_val_t) noexcept { sim_free(p, n, __builtin_return_address(0)); }

extern "C" {
void* __wrap_malloc(size_t n) { if (!use_arena()) return rmalloc(n); InCore ic; return sim_alloc(n, 16, true); }
void __wrap_free(void* p) { sim_free(p, (size_t)-1, __builtin_return_address(0)); }
void* __wrap_calloc(size_t a, size_t b) { void* p = __wrap_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void* __wrap_realloc(void* p, size_t n)
{
  if (!p) return __wrap_malloc(n);
  void* q = __wrap_malloc(n);
  if (!q) return 0;
  size_t o = in_arena(p) ? block_size(p) : raw_size(p);
  if (!o) { o = n; }
  memcpy(q, p, o < n ? o : n);
  __wrap_free(p);
  return q;
}
void* __wrap_aligned_alloc(size_t a, size_t n) { if (!use_arena()) return rmalloc(n, a); InCore ic; return sim_alloc(n, a, true); }
int __wrap_posix_memalign(void** r, size_t a, size_t n)
{
  void* p = use_arena() ? (InCore(), sim_alloc(n, a, true)) : rmalloc(n, a);
  if (!p) return ENOMEM;
  *r = p; return 0;
}

// memory functions called (not inlined) by the instrumented code
void* __wrap_memcpy(void* d, const void* s, size_t n)
{
  if (g_on && !g_quiet && !g_core && n) {
    mem_access(s, n, false, false, __builtin_return_address(0));
    mem_access(d, n, true, false, __builtin_return_address(0));
    if (d != s && (char*)d < (const char*)s + n && (const char*)s < (char*)d + n) {
      InCore ic; report("memcpy-overlap", "memcpy called with overlapping ranges", __builtin_return_address(0));
    }
  }
  return memmove(d, s, n);
}
void* __real_memmove(void*, const void*, size_t);
void* __wrap_memmove(void* d, const void* s, size_t n)
{
  if (g_on && !g_quiet && !g_core && n) {
    mem_access(s, n, false, false, __builtin_return_address(0));
    mem_access(d, n, true, false, __builtin_return_address(0));
  }
  return __real_memmove(d, s, n);
}
void* __real_memset(void*, int, size_t);
void* __wrap_memset(void* d, int c, size_t n)
{
  if (g_on && !g_quiet && !g_core && n) mem_access(d, n, true, false, __builtin_return_address(0));
  return __real_memset(d, c, n);
}

// ====================================================================== __tsan_* runtime
void __tsan_init() {}
void __tsan_func_entry(void* pc)
{
  int id = stk_id();
  if (g_depth[id] < STKMAX) g_stk[id][g_depth[id]] = pc;
  g_depth[id]++;
}
void __tsan_func_exit() { int id = stk_id(); if (g_depth[id] > 0) g_depth[id]--; }
#define RW(n) \
  void __tsan_read##n(void* p) { mem_access(p, n, false, false, __builtin_return_address(0)); } \
  void __tsan_write##n(void* p) { mem_access(p, n, true, false, __builtin_return_address(0)); } \
  void __tsan_unaligned_read##n(void* p) { mem_access(p, n, false, false, __builtin_return_address(0)); } \
  void __tsan_unaligned_write##n(void* p) { mem_access(p, n, true, false, __builtin_return_address(0)); } \
  void __tsan_volatile_read##n(void* p) { mem_access(p, n, false, true, __builtin_return_address(0)); } \
  void __tsan_volatile_write##n(void* p) { mem_access(p, n, true, true, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, long n) { if (n > 0) mem_access(p, (size_t)n, false, false, __builtin_return_address(0)); }
void __tsan_write_range(void* p, long n) { if (n > 0) mem_access(p, (size_t)n, true, false, __builtin_return_address(0)); }
// (what exceptions are allocated in isn't ours, and holds whatever real memory held before)
void __tsan_vptr_update(void** p, void* v) { if (!in_arena(p) || *p != v) mem_access(p, 8, true, false, __builtin_return_address(0)); }
void __tsan_vptr_read(void** p) { mem_access(p, 8, false, false, __builtin_return_address(0)); }

static inline void pre_atomic(const volatile void* p, size_t n, bool write, void* pc)
{
  if (!g_on || g_quiet || g_core) return;
  mem_access((const void*)p, n, write, true, pc);
  InCore ic;
  atomic_sync((const void*)p);
}
#define ATOM(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T* a, int) { pre_atomic(a, sizeof(T), false, __builtin_return_address(0)); return *a; } \
  void __tsan_atomic##bits##_store(volatile T* a, T v, int) { pre_atomic(a, sizeof(T), true, __builtin_return_address(0)); *a = v; } \
  T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { pre_atomic(a, sizeof(T), true, __builtin_return_address(0)); T o = *a; *a = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { pre_atomic(a, sizeof(T), true, __builtin_return_address(0)); T o = *a; *a = (T)(o + v); return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { pre_atomic(a, sizeof(T), true, __builtin_return_address(0)); T o = *a; *a = (T)(o - v); return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { pre_atomic(a, sizeof(T), true, __builtin_return_address(0)); T o = *a; *a = (T)(o & v); return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { pre_atomic(a, sizeof(T), true, __builtin_return_address(0)); T o = *a; *a = (T)(o | v); return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { pre_atomic(a, sizeof(T), true, __builtin_return_address(0)); T o = *a; *a = (T)(o ^ v); return o; } \
  T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { pre_atomic(a, sizeof(T), true, __builtin_return_address(0)); T o = *a; *a = (T)~(o & v); return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { pre_atomic(a, sizeof(T), true, __builtin_return_address(0)); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { pre_atomic(a, sizeof(T), true, __builtin_return_address(0)); T o = *a; if (o == *c) { *a = v; return 1; } *c = o; return 0; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// ====================================================================== pthreads
typedef int (*mfn)(pthread_mutex_t*);
#define REALFN(name, type) static type fn_##name; if (!fn_##name) fn_##name = real<type>(#name)

int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) noexcept
{
  typedef int (*fn)(pthread_mutex_t*, const pthread_mutexattr_t*);
  if (!g_on) { REALFN(pthread_mutex_init, fn); return fn_pthread_mutex_init(m, a); }
  InCore ic;
  memset(m, 0, sizeof *m);
  Mutex x; memset(&x, 0, sizeof x); x.owner = -1;
  if (a) { int k; pthread_mutexattr_gettype(a, &k); x.recursive = k == PTHREAD_MUTEX_RECURSIVE; }
  (*g_mutex)[m] = x;
  return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m) noexcept
{
  if (!g_on) { REALFN(pthread_mutex_destroy, mfn); return fn_pthread_mutex_destroy(m); }
  InCore ic;
  auto it = g_mutex->find(m);
  if (it != g_mutex->end()) {
    if (it->second.owner != -1) report("destroy-locked-mutex", "a locked mutex is destroyed", __builtin_return_address(0));
    g_mutex->erase(it);
  }
  return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m) noexcept
{
  if (!g_on) { REALFN(pthread_mutex_lock, mfn); return fn_pthread_mutex_lock(m); }
  return m_lock(m, false);
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept
{
  if (!g_on) { REALFN(pthread_mutex_trylock, mfn); return fn_pthread_mutex_trylock(m); }
  return m_lock(m, true);
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept
{
  if (!g_on) { REALFN(pthread_mutex_unlock, mfn); return fn_pthread_mutex_unlock(m); }
  return m_unlock(m);
}
typedef int (*cfn)(pthread_cond_t*);
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t* a) noexcept
{
  typedef int (*fn)(pthread_cond_t*, const pthread_condattr_t*);
  if (!g_on) { REALFN(pthread_cond_init, fn); return fn_pthread_cond_init(c, a); }
  InCore ic; memset(c, 0, sizeof *c); (*g_cond)[c] = Cond(); return 0;
}
int pthread_cond_destroy(pthread_cond_t* c) noexcept
{
  if (!g_on) { REALFN(pthread_cond_destroy, cfn); return fn_pthread_cond_destroy(c); }
  InCore ic;
  auto it = g_cond->find(c);
  if (it != g_cond->end()) {
    if (!it->second.waiters.empty()) report("destroy-busy-condvar", "a condition variable is destroyed while a thread waits on it", __builtin_return_address(0));
    g_cond->erase(it);
  }
  return 0;
}
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t deadline)
{
  InCore ic;
  if (fire(f_spurious_wakeup)) { m_unlock(m); m_lock(m, false); return 0; }
  check_range(c, 48, true, 0);
  (*g_cond)[c].waiters.push_back(g_cur->id);
  m_unlock(m, false);
  bool ok = true;
  // a signal may only come once we are blocked: nothing ran in between
  ok = block("condition variable", c, deadline);
  auto it = g_cond->find(c);
  if (it != g_cond->end()) {
    auto& w = it->second.waiters;
    w.erase(std::remove(w.begin(), w.end(), g_cur->id), w.end());
  }
  m_lock(m, false);
  return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
  typedef int (*fn)(pthread_cond_t*, pthread_mutex_t*);
  if (!g_on) { REALFN(pthread_cond_wait, fn); return fn_pthread_cond_wait(c, m); }
  return cond_wait(c, m, ~0ull);
}
static uint64_t abs_to_sim(const timespec* ts)
{
  uint64_t t = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
  uint64_t base = (uint64_t)ts->tv_sec > 100000000ull ? REAL_BASE + (uint64_t)g_real_off : MONO_BASE;
  return t > base ? t - base : 0;
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts)
{
  typedef int (*fn)(pthread_cond_t*, pthread_mutex_t*, const timespec*);
  if (!g_on) { REALFN(pthread_cond_timedwait, fn); return fn_pthread_cond_timedwait(c, m, ts); }
  return cond_wait(c, m, abs_to_sim(ts));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* ts)
{
  typedef int (*fn)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const timespec*);
  if (!g_on) { REALFN(pthread_cond_clockwait, fn); return fn_pthread_cond_clockwait(c, m, 1, ts); }
  return cond_wait(c, m, abs_to_sim(ts));
}
int pthread_cond_signal(pthread_cond_t* c) noexcept
{
  if (!g_on) { REALFN(pthread_cond_signal, cfn); return fn_pthread_cond_signal(c); }
  InCore ic;
  check_range(c, 48, true, __builtin_return_address(0));
  auto& w = (*g_cond)[c].waiters;
  if (!w.empty()) {
    uint32_t k = draw(S, (uint32_t)w.size());
    int id = w[k];
    w.erase(w.begin() + k);
    wake(&g_thr[id]);
  }
  yield_point();
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) noexcept
{
  if (!g_on) { REALFN(pthread_cond_broadcast, cfn); return fn_pthread_cond_broadcast(c); }
  InCore ic;
  check_range(c, 48, true, __builtin_return_address(0));
  auto& w = (*g_cond)[c].waiters;
  for (int id : w) wake(&g_thr[id]);
  w.clear();
  yield_point();
  return 0;
}
int pthread_once(pthread_once_t* o, void (*f)())
{
  typedef int (*fn)(pthread_once_t*, void (*)());
  if (!g_on) { REALFN(pthread_once, fn); return fn_pthread_once(o, f); }
  for (;;) {
    if (*o == 2) return 0;
    if (*o == 0) { *o = 1; f(); *o = 2; InCore ic; wake_all(o); return 0; }
    InCore ic; block("pthread_once", o);
  }
}
// Reader-writer locks and spin locks, semaphores, timed locking, futexes and the
// guards of function-local statics: the library and Asio use none or few of these
// today, but nothing here may block for real while it holds the run's only turn.
struct Rw { int writer; int readers; uint64_t vc[MAXTHREADS]; };
static Map<const void*, Rw>* g_rw;
static Rw& rw_of(const void* p)
{
  if (!g_rw) g_rw = new (rmalloc(sizeof *g_rw)) Map<const void*, Rw>();
  auto it = g_rw->find(p);
  if (it != g_rw->end()) return it->second;
  Rw r; memset(&r, 0, sizeof r); r.writer = -1;
  return (*g_rw)[p] = r;
}
static int rw_lock(const void* p, bool wr, bool tryit, uint64_t deadline)
{
  InCore ic;
  check_range(p, 4, true, 0);
  if (!g_quiet) yield_point();
  check_range(p, 4, true, 0);
  for (;;) {
    Rw& r = rw_of(p);
    if (r.writer == -1 && (!wr || r.readers == 0)) {
      if (wr) r.writer = g_cur->id; else r.readers++;
      if (g_race) vc_acquire(r.vc);
      return 0;
    }
    if (tryit) return EBUSY;
    if (r.writer == g_cur->id) { report("deadlock", "a thread locks a lock it already holds", 0); return 0; }
    if (!block("lock", p, deadline)) return ETIMEDOUT;
  }
}
static int rw_unlock(const void* p)
{
  InCore ic;
  check_range(p, 4, true, 0);
  Rw& r = rw_of(p);
  if (r.writer == g_cur->id) r.writer = -1;
  else if (r.readers > 0) r.readers--;
  else { report("unlock-not-owner", "a thread unlocks a lock it does not hold", 0); return EPERM; }
  if (g_race) vc_release(r.vc);
  g_cur->last_unlock = ++g_seq;
  wake_all(p);
  if (!g_quiet) yield_point();
  return 0;
}
#define RWFN(name, params, args, body) int name params noexcept { typedef int (*fn) params; if (!g_on) { REALFN(name, fn); return fn_##name args; } body }
RWFN(pthread_rwlock_init, (pthread_rwlock_t* l, const pthread_rwlockattr_t* a), (l, a), { InCore ic; memset((void*)l, 0, sizeof *l); rw_of(l) = Rw(); rw_of(l).writer = -1; return 0; })
RWFN(pthread_rwlock_destroy, (pthread_rwlock_t* l), (l), { InCore ic; Rw& r = rw_of(l); if (r.writer != -1 || r.readers) report("destroy-locked-mutex", "a locked lock is destroyed", __builtin_return_address(0)); g_rw->erase(l); return 0; })
RWFN(pthread_rwlock_rdlock, (pthread_rwlock_t* l), (l), { return rw_lock(l, false, false, ~0ull); })
RWFN(pthread_rwlock_wrlock, (pthread_rwlock_t* l), (l), { return rw_lock(l, true, false, ~0ull); })
RWFN(pthread_rwlock_tryrdlock, (pthread_rwlock_t* l), (l), { return rw_lock(l, false, true, ~0ull); })
RWFN(pthread_rwlock_trywrlock, (pthread_rwlock_t* l), (l), { return rw_lock(l, true, true, ~0ull); })
RWFN(pthread_rwlock_unlock, (pthread_rwlock_t* l), (l), { return rw_unlock(l); })
RWFN(pthread_rwlock_timedrdlock, (pthread_rwlock_t* l, const timespec* t), (l, t), { return rw_lock(l, false, false, abs_to_sim(t)); })
RWFN(pthread_rwlock_timedwrlock, (pthread_rwlock_t* l, const timespec* t), (l, t), { return rw_lock(l, true, false, abs_to_sim(t)); })
RWFN(pthread_rwlock_clockrdlock, (pthread_rwlock_t* l, clockid_t c, const timespec* t), (l, c, t), { return rw_lock(l, false, false, abs_to_sim(t)); })
RWFN(pthread_rwlock_clockwrlock, (pthread_rwlock_t* l, clockid_t c, const timespec* t), (l, c, t), { return rw_lock(l, true, false, abs_to_sim(t)); })
RWFN(pthread_spin_init, (pthread_spinlock_t* l, int s), (l, s), { InCore ic; *l = 0; rw_of((void*)l) = Rw(); rw_of((void*)l).writer = -1; return 0; })
RWFN(pthread_spin_destroy, (pthread_spinlock_t* l), (l), { InCore ic; rw_of((void*)l); g_rw->erase((void*)l); return 0; })
RWFN(pthread_spin_lock, (pthread_spinlock_t* l), (l), { return rw_lock((void*)l, true, false, ~0ull); })
RWFN(pthread_spin_trylock, (pthread_spinlock_t* l), (l), { return rw_lock((void*)l, true, true, ~0ull); })
RWFN(pthread_spin_unlock, (pthread_spinlock_t* l), (l), { return rw_unlock((void*)l); })
RWFN(pthread_mutex_timedlock, (pthread_mutex_t* m, const timespec* t), (m, t), { return m_lock(m, false, abs_to_sim(t)); })
RWFN(pthread_mutex_clocklock, (pthread_mutex_t* m, clockid_t c, const timespec* t), (m, c, t), { return m_lock(m, false, abs_to_sim(t)); })

static int sem_lock(sem_t* s, bool tryit, uint64_t deadline)
{
  InCore ic;
  check_range(s, sizeof(int), true, 0);
  if (!g_quiet) yield_point();
  int* v = (int*)(void*)s;
  while (*v <= 0) {
    if (tryit) { errno = EAGAIN; return -1; }
    if (!block("semaphore", s, deadline)) { errno = ETIMEDOUT; return -1; }
  }
  --*v;
  atomic_sync(s);
  return 0;
}
RWFN(sem_init, (sem_t* s, int p, unsigned v), (s, p, v), { InCore ic; memset((void*)s, 0, sizeof *s); *(int*)(void*)s = (int)v; return 0; })
RWFN(sem_destroy, (sem_t* s), (s), { (void)s; return 0; })
RWFN(sem_trywait, (sem_t* s), (s), { return sem_lock(s, true, ~0ull); })
RWFN(sem_post, (sem_t* s), (s), { InCore ic; check_range(s, sizeof(int), true, 0); ++*(int*)(void*)s; atomic_sync(s); wake_all(s); if (!g_quiet) yield_point(); return 0; })
int sem_wait(sem_t* s) { typedef int (*fn)(sem_t*); if (!g_on) { REALFN(sem_wait, fn); return fn_sem_wait(s); } return sem_lock(s, false, ~0ull); }
int sem_timedwait(sem_t* s, const timespec* t) { typedef int (*fn)(sem_t*, const timespec*); if (!g_on) { REALFN(sem_timedwait, fn); return fn_sem_timedwait(s, t); } return sem_lock(s, false, abs_to_sim(t)); }
int sem_clockwait(sem_t* s, clockid_t c, const timespec* t) { typedef int (*fn)(sem_t*, clockid_t, const timespec*); if (!g_on) { REALFN(sem_clockwait, fn); return fn_sem_clockwait(s, c, t); } return sem_lock(s, false, abs_to_sim(t)); }

// std::atomic::wait and friends
long __wrap_syscall(long nr, long a, long b, long c, long d, long e, long f)
{
  if (!g_on || nr != SYS_futex) { long r = rsys(nr, a, b, c, d, e, f); if (r < 0 && r > -4096) { errno = (int)-r; r = -1; } return r; }
  InCore ic;
  int op = (int)b & ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
  if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
    check_range((void*)a, 4, false, 0);
    if (!g_quiet) yield_point();
    if (*(volatile int*)a != (int)c) { errno = EAGAIN; return -1; }
    uint64_t dl = ~0ull;
    const timespec* ts = (const timespec*)d;
    if (ts) dl = op == FUTEX_WAIT ? g_now + (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec : abs_to_sim(ts);
    if (!block("futex", (void*)a, dl)) { errno = ETIMEDOUT; return -1; }
    return 0;
  }
  if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
    long n = 0;
    for (int i = 0; i < g_nthr && n < (int)c; ++i)
      if (g_thr[i].st == t_blocked && g_thr[i].wobj == (void*)a) { wake(&g_thr[i]); ++n; }
    if (!g_quiet) yield_point();
    return n;
  }
  fatal("futex operation %d is not simulated", op);
  return -1;
}

int __cxa_guard_acquire(uint64_t* g)
{
  char* s = (char*)g;
  if (s[0]) return 0;
  if (!g_on || g_quiet) { s[1] = 1; return 1; }
  for (;;) {
    { InCore ic; if (s[0]) { atomic_sync(g); return 0; } }
    if (!s[1]) { s[1] = 1; return 1; }
    InCore ic;
    block("static initialisation", g);
  }
}
void __cxa_guard_release(uint64_t* g)
{
  char* s = (char*)g;
  s[0] = 1; s[1] = 0;
  if (!g_on) return;
  InCore ic; atomic_sync(g); wake_all(g);
}
void __cxa_guard_abort(uint64_t* g)
{
  char* s = (char*)g;
  s[1] = 0;
  if (!g_on) return;
  InCore ic; atomic_sync(g); wake_all(g);
}

int pthread_create(pthread_t* out, const pthread_attr_t* a, void* (*f)(void*), void* arg) noexcept
{
  typedef int (*fn)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  REALFN(pthread_create, fn);
  if (!g_on) return fn_pthread_create(out, a, f, arg);
  InCore ic;
  yield_point();
  if (g_nthr >= MAXTHREADS) { finish(3, "too-many-threads", ""); }
  int id = g_nthr;
  Thread* t = &g_thr[id];
  init_thread(t, id);
  g_depth[id] = 0;
  t->fn = f; t->arg = arg;
  memcpy(t->vc, g_cur->vc, sizeof t->vc);
  t->vc[id] = 1;
  g_cur->vc[g_cur->id]++;
  if (a) { int ds = 0; pthread_attr_getdetachstate(a, &ds); t->detached = ds == PTHREAD_CREATE_DETACHED; }
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, thread_stack(id), STACK_SIZE);
  int r = fn_pthread_create(&t->real, &at, thread_main, t);
  pthread_attr_destroy(&at);
  if (r) fatal("pthread_create failed: %d", r);
  g_nthr = id + 1;
  *out = t->real;
  ev("thread-start", id);
  yield_point();
  return 0;
}
static Thread* by_real(pthread_t p)
{
  for (int i = g_nthr - 1; i >= 0; --i) if (g_thr[i].real == p && !g_thr[i].joined) return &g_thr[i];
  return 0;
}
int pthread_join(pthread_t p, void** ret)
{
  typedef int (*fn)(pthread_t, void**);
  REALFN(pthread_join, fn);
  if (!g_on) return fn_pthread_join(p, ret);
  InCore ic;
  yield_point();
  Thread* t = by_real(p);
  if (!t) { report("bad-join", "joining an unknown thread", 0); return ESRCH; }
  while (t->st != t_finished) block("thread join", t);
  for (int i = 0; i < MAXTHREADS; ++i) if (t->vc[i] > g_cur->vc[i]) g_cur->vc[i] = t->vc[i];
  t->joined = true;
  fn_pthread_join(p, 0);
  if (ret) *ret = t->ret;
  return 0;
}
int pthread_detach(pthread_t p) noexcept
{
  typedef int (*fn)(pthread_t);
  REALFN(pthread_detach, fn);
  if (!g_on) return fn_pthread_detach(p);
  InCore ic;
  Thread* t = by_real(p);
  if (t) t->detached = true;
  return 0;
}
int sched_yield() noexcept
{
  if (!g_on) return (int)rsys(SYS_sched_yield);
  InCore ic; yield_impl(true); return 0;
}
int clock_gettime(clockid_t c, timespec* ts) noexcept
{
  if (!g_on) { long r = rsys(SYS_clock_gettime, c, (long)ts); if (r < 0) { errno = (int)-r; return -1; } return 0; }
  bool real = c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE;
  if (real && get_fault(f_clock_jump) && fire(f_clock_jump)) {
    InCore ic;
    int64_t d = 0;
    switch (draw(F, 4)) {
    case 0: d = 1 + (int64_t)draw(F, 1000000000); break;
    case 1: d = -1 - (int64_t)draw(F, 1000000000); break;
    case 2: d = (int64_t)draw(F, 100000) * 1000000000ll; break;
    default: d = -(int64_t)draw(F, 100000) * 1000000000ll; break;
    }
    g_real_off += d;
  }
  uint64_t t = g_now + (real ? REAL_BASE + (uint64_t)g_real_off : MONO_BASE);
  ts->tv_sec = (time_t)(t / 1000000000ull); ts->tv_nsec = (long)(t % 1000000000ull);
  return 0;
}
int gettimeofday(struct timeval* tv, void*) noexcept
{
  timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
  tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
time_t time(time_t* o) noexcept { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); if (o) *o = ts.tv_sec; return ts.tv_sec; }
int clock_nanosleep(clockid_t c, int flags, const timespec* ts, timespec* rem)
{
  if (!g_on) return (int)-rsys(SYS_clock_nanosleep, c, flags, (long)ts, (long)rem);
  InCore ic;
  uint64_t t = (uint64_t)ts->tv_sec * 1000000000ull + (uint64_t)ts->tv_nsec;
  block("sleep", &g_now, flags & TIMER_ABSTIME ? abs_to_sim(ts) : g_now + t);
  return 0;
}
int nanosleep(const timespec* ts, timespec* rem) { return clock_nanosleep(CLOCK_MONOTONIC, 0, ts, rem); }
int usleep(useconds_t us) { timespec ts = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return nanosleep(&ts, 0); }
unsigned sleep(unsigned s) { timespec ts = {(time_t)s, 0}; nanosleep(&ts, 0); return 0; }

long syscall(long n, ...) noexcept
{
  va_list ap; va_start(ap, n);
  long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
  va_end(ap);
  if (g_on && n == SYS_futex) {
    int op = (int)b & 127;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (*(volatile int*)a == (int)c) { InCore ic; block("futex", (void*)a); }
      return 0;
    }
    InCore ic; wake_all((void*)a); yield_point();
    return 0;
  }
  long r = rsys(n, a, b, c, d, e, f);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
// The size of Asio's own pool must not depend on the machine.
int get_nprocs() noexcept { return 1; }
long __sysconf(int);
long sysconf(int n) noexcept { return g_on && n == _SC_NPROCESSORS_ONLN ? 1 : __sysconf(n); }

} // extern "C"
