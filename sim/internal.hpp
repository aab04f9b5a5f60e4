// Shared between core.cpp, kernel.cpp and driver.cpp (never included by scenarios).
#ifndef SIM_INTERNAL_HPP
#define SIM_INTERNAL_HPP
#include "sim.hpp"
#include <pthread.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <errno.h>
#include <vector>
#include <map>
#include <string>

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
}

namespace simcore {

// Memory of the simulator and of the scenarios' bookkeeping. Inside a run it comes
// from a fixed region of its own: glibc's heap differs between processes, and no
// address may.
void* rmalloc(size_t n, size_t align = 16);
void rfree(void* p);

// Containers of the simulator use an allocator of their own, so that no template
// instantiation is shared with the (instrumented) scenario translation unit.
template <class T> struct CA {
  typedef T value_type;
  CA() {}
  template <class U> CA(const CA<U>&) {}
  T* allocate(size_t n) { return (T*)rmalloc(n * sizeof(T)); }
  void deallocate(T* p, size_t) { rfree(p); }
  template <class U> bool operator==(const CA<U>&) const { return true; }
  template <class U> bool operator!=(const CA<U>&) const { return false; }
};
template <class T> using Vec = std::vector<T, CA<T>>;
template <class K, class V> using Map = std::map<K, V, std::less<K>, CA<std::pair<const K, V>>>;
typedef std::basic_string<char, std::char_traits<char>, CA<char>> Str;

enum { MAXTHREADS = 24, LOGCAP = 1 << 16, NPROBES = 160, TRACECAP = 1 << 20 };

struct Probe { const char* name; uint64_t n; };

// Result of one run, in memory shared between a worker and its run processes.
struct RunResult {
  uint64_t seed;
  uint32_t nlog[sim::NSTREAMS];
  uint32_t log[sim::NSTREAMS][LOGCAP];
  bool log_overflow;
  int status;             // 0 running, 1 ok, 2 violation, 3 cut short (end_run), 4 simulator error
  char sig[200];
  char msg[1000];
  char scenario[64];
  uint64_t hash, events, yields, switches, mem, sim_ns;
  bool nontriv;
  uint64_t faults[sim::NFAULTS];
  Probe probes[NPROBES];
  int nprobes;
  int nknown;
  char known[16][200];
  char known_msg[16][300];
  uint32_t tracelen;
  char trace[TRACECAP];   // only written in verbose mode
};
extern RunResult* g_res;

struct Config {
  bool replay;
  bool verbose;
  bool thorough;
  uint64_t rng_seed;
  int scenario;           // index into the scenarios of the property
  const uint32_t* rlog[sim::NSTREAMS];
  uint32_t rlen[sim::NSTREAMS];
};
extern Config g_cfg;

// known signatures (set up by the driver before forking)
struct Known { Str sig, text; };
extern Vec<Known> g_known;

// ------------------------------------------------------------ threads
enum TState { t_free, t_runnable, t_blocked, t_finished };
struct Thread {
  int id;
  TState st;
  pthread_t real;
  int go;                 // futex word
  int quiet, core, allocf;
  uint64_t last_unlock;
  uint64_t sys_enter;
  uint64_t nsyscalls;
  int last_err;
  const char* why;        // reason for being blocked
  const void* wobj;
  bool timed_out;
  uint64_t wake_token;    // invalidates stale timer wake-ups
  void* (*fn)(void*);
  void* arg;
  void* ret;
  bool detached, joined;
  int prio;
  uint64_t vc[MAXTHREADS];
};
extern Thread g_thr[MAXTHREADS];
extern Thread* g_cur;
extern bool g_on;         // inside a run
extern int g_core;        // inside simulator code
extern uint64_t g_seq, g_now;

struct InCore { InCore() { ++g_core; } ~InCore() { --g_core; } };

void yield_point();
// Blocks the current thread until woken (or until the absolute deadline, ~0 = none).
// Returns false on timeout.
bool block(const char* why, const void* obj, uint64_t deadline = ~0ull);
void wake(Thread* t);
void wake_all(const void* obj);
void at(uint64_t when, void (*f)(void*, uint64_t), void* arg, uint64_t arg2);
void check_access(const void* p, size_t n, bool write); // a simulated system call touching user memory
[[noreturn]] void fatal(const char* fmt, ...);          // simulator error (status 4)
void kernel_init();
void run_scenario(const sim::Scenario* s);               // in the child
const sim::Scenario* scenarios();
bool in_arena(const void* p);
uint64_t mix(uint64_t h, uint64_t v);

// happens-before edges created by the simulated kernel
void vc_release(uint64_t* vc);
void vc_acquire(const uint64_t* vc);

} // namespace simcore
#endif
