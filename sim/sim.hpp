// Deterministic simulator: public interface used by the scenarios.
// Everything declared here is implemented in core.cpp / kernel.cpp / driver.cpp,
// which are compiled WITHOUT instrumentation.  Scenarios (and the library under
// test inside them) are compiled with -fsanitize=thread against the simulator's
// own __tsan_* runtime, so every memory access is a potential preemption point.
#ifndef SIM_SIM_HPP
#define SIM_SIM_HPP
#include <cstdint>
#include <cstddef>
#include <cstdarg>

namespace sim {

// ---------------------------------------------------------------- choices
enum Stream { W = 0, S = 1, F = 2, NSTREAMS = 3 };
// Uniform in [0,n). 0 is always the simplest alternative (minimiser target).
uint32_t draw(Stream s, uint32_t n);
// 1 with probability p/65536, else 0.
uint32_t draw_p(Stream s, uint32_t p65536);
inline uint32_t wl(uint32_t n) { return draw(W, n); }
inline uint32_t wl_range(uint32_t lo, uint32_t hi) { return lo + draw(W, hi - lo + 1); }
inline bool wl_chance(uint32_t percent) { return draw_p(W, percent * 655) != 0; }
// Sizes: biased towards small values and interesting boundaries.
uint32_t wl_size(uint32_t max);

// ---------------------------------------------------------------- faults
enum Fault {
  f_eintr, f_short, f_eio, f_enospc, f_emfile, f_enfile, f_open_err, f_close_err,
  f_fstat_err, f_ftruncate_err, f_lseek_err, f_fchmod_err, f_futimens_err,
  f_dup_err, f_stall, f_alloc, f_spurious_wakeup, f_shrink, f_race_create,
  f_net_segment, f_net_rst, f_net_fin, f_net_delay, f_net_refuse, f_net_eagain,
  f_sock_err, f_resolve_err, f_conn_err, f_handler_throw, f_lost_race, f_net_bytes,
  f_outside, f_clock_jump,
  NFAULTS
};
extern const char* const fault_names[NFAULTS];
// Enable a fault kind for this run with a per-site probability (swarm: drawn).
// `percent_on` is the chance that the kind is enabled at all for the run.
void swarm_fault(Fault f, uint32_t percent_on);
void set_fault(Fault f, uint32_t p65536);   // explicit probability; 0 disables
uint32_t get_fault(Fault f);
bool fire(Fault f);                         // draws; counts when it fires
void count_fault(Fault f);
void faults_enabled(bool on);               // master switch ("faults stop")
bool faults_are_enabled();

// ---------------------------------------------------------------- scheduling
void swarm_sched(bool mem_preempt_allowed = true); // draw policy for this run
void yield();                               // explicit yield point
void allow_steps(uint64_t n);                // a scenario has just decided to do about n steps more than usual
void sleep_us(uint64_t us);                 // block for simulated time
uint64_t now_ns();
uint64_t system_ns();                       // the system clock, in nanoseconds since 1970
void set_system_clock(int64_t off);         // how far it is off (it may also jump: f_clock_jump)
uint64_t seq();                             // global event sequence number
uint64_t next_seq();
int self();                                 // sim thread id (0 = scenario main)
uint64_t last_unlock_seq(int tid);
int nthreads_alive();
void race_detector(bool on);
struct PoolMark { };
// run f at simulated time now+us (in core context; must not yield)
void after_us(uint64_t us, void (*f)(void*), void* arg);

// Quiet region: no yields, no faults, no arena allocation, no access checks.
extern int g_quiet;
#define SIM_NOTSAN __attribute__((no_sanitize_thread))
struct Quiet { SIM_NOTSAN Quiet() { ++g_quiet; } SIM_NOTSAN ~Quiet() { --g_quiet; } };
// The opposite inside a quiet region.
struct Loud { int s; SIM_NOTSAN Loud() : s(g_quiet) { g_quiet = 0; } SIM_NOTSAN ~Loud() { g_quiet = s; } };
// Allocation failures may be injected inside this scope only.
extern int g_alloc_faults;
struct AllocFaults { SIM_NOTSAN AllocFaults() { ++g_alloc_faults; } SIM_NOTSAN ~AllocFaults() { --g_alloc_faults; } };
// Suppresses allocation failures inside an AllocFaults scope.
struct NoAllocFaults { int s; SIM_NOTSAN NoAllocFaults() : s(g_alloc_faults) { g_alloc_faults = 0; } SIM_NOTSAN ~NoAllocFaults() { g_alloc_faults = s; } };

// ---------------------------------------------------------------- memory
uint64_t alloc_mark();                      // current allocation serial
struct LeakInfo { uint64_t count, bytes, first_size, first_serial; };
LeakInfo live_since(uint64_t mark);         // live arena blocks allocated since
void* raw_malloc(size_t);
void raw_free(void*);
// Arena allocation helpers for allocators of scenarios
void* arena_alloc(size_t n, size_t align);
void arena_free(void* p);
bool is_live(const void* p);                // p points into a live arena block
size_t block_size(const void* p);           // size of the live block starting at p, 0 if none

// ---------------------------------------------------------------- reporting
// Ends the run with a violation unless the signature is a listed known finding.
void violation(const char* sig, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
#define SIM_CHECK(cond, sig, ...) do { if (!(cond)) ::sim::violation(sig, __VA_ARGS__); } while (0)
bool is_known(const char* sig);
// From here on, whatever goes wrong in this run is an instance of the given finding
// (the literal's history has happened); the run ends there. 0 ends this.
void classify(const char* sig);
// Ends the run: nothing further can be decided (not a violation).
[[noreturn]] void end_run(const char* why);
void probe(const char* name, uint64_t n = 1);  // name must be a literal
void nontrivial();
void ev(const char* name, int64_t a = 0, int64_t b = 0, int64_t c = 0, int64_t d = 0);
void note(const char* fmt, ...) __attribute__((format(printf, 1, 2))); // verbose only, not hashed
bool verbose();
void hash_bytes(const void* p, size_t n);

// ---------------------------------------------------------------- kernel: files
struct SysRec {
  uint64_t seq;          // order of the effect
  uint64_t last_unlock;  // calling thread's last mutex release before the call
  uint64_t entered;      // sequence number when the call was entered
  int tid;
  const char* name;      // "readv", "writev", "open", ...
  int fd, ofd, inode;    // ofd/inode ids (-1 when not applicable)
  int64_t off;           // file offset used
  uint64_t len;          // requested
  int64_t ret;
  int err;
  const void* base;      // first non-empty user buffer address
  uint64_t ovl;
};
void kreset();                                   // fresh file system, no fds
void set_fd_base(int lowest);                    // lowest descriptor handed out
void set_fd_reuse(bool on);                      // off: closed descriptor numbers stay unused for the run
void mkfile(const char* path, const void* p, size_t n, unsigned mode = 0644);
bool exists(const char* path);
void rmfile(const char* path);
int inode_of_path(const char* path);             // -1 if missing
int inode_of_fd(int fd);                         // -1 if not open
int ofd_of_fd(int fd);
bool fd_open(int fd);
bool fd_cloexec(int fd);
int open_fd_count();
int open_ofd_count();
int first_open_fd();
int64_t fd_offset(int fd);
void fd_seek(int fd, int64_t pos);               // not as a system call of the code under test
int64_t inode_size(int inode);
const unsigned char* inode_data(int inode);
void inode_resize(int inode, size_t n);
// A sparse file of any size up to 2^62, filled with a function of the offset. Transfers are
// recorded: which memory, which offset, how many bytes. Those from or to huge_memory(), which
// cannot be accessed, move no bytes.
struct HugeSeg { const void* p; int64_t off; uint64_t n; bool wr; };
void mkhuge(const char* path, int64_t size);
inline unsigned char huge_fill(int64_t off) { return (unsigned char)(((uint64_t)off * 0x9E3779B97F4A7C15ull) >> 56); }
unsigned char huge_byte(int inode, int64_t off);
char* huge_memory(size_t n);
size_t nhugesegs();
const HugeSeg& hugeseg(size_t i);
unsigned inode_mode(int inode);
void inode_times(int inode, int64_t* a_s, int64_t* a_ns, int64_t* m_s, int64_t* m_ns);
void inode_set_times(int inode, int64_t a_s, int64_t a_ns, int64_t m_s, int64_t m_ns);
int open_flags_of_fd(int fd);
void set_umask(unsigned m);
size_t nsys();
const SysRec& sysrec(size_t i);
// last errno that a simulated call returned to the given thread (0 = success) and count of calls
int last_sys_errno(int tid);
uint64_t syscalls_by(int tid);
// When an application-level file is concurrently shrunk/created (see f_shrink, f_race_create)
int kernel_open(const char* path, int flags, unsigned mode); // quiet open by "another process"
void kernel_close(int fd);
// Called, when f_outside fires, before a metadata system call on the file takes effect:
// somebody else changes the file.
extern void (*outside_hook)(int inode);
void set_io_cap(int64_t disk_bytes_left);        // -1 unlimited: ENOSPC when exhausted
int64_t io_cap();

// ---------------------------------------------------------------- kernel: network
struct NetEndpoint { uint8_t addr[16]; int family; uint16_t port; };
enum ConnOutcome { c_accept = 0, c_refuse, c_unreach, c_timeout, c_sockfail, c_hang };
struct HostEntry { const char* host; const char* service; };
void net_reset();
// Adds a resolver record: host -> endpoint (order preserved).
void net_host(const char* host);             // known, but without any address
void net_host(const char* host, const NetEndpoint& ep);
void net_resolve_error(const char* host, int gai_err, int sys_err);
// Outcome for connection attempts to an endpoint, with delays.
void net_outcome(const NetEndpoint& ep, ConnOutcome o, uint64_t delay_us);
// Peer model for connected sockets: called (quiet) whenever bytes arrive at / connection reaches the peer.
struct Peer {
  virtual ~Peer() {}
  virtual void on_connect(int conn) = 0;
  virtual void on_data(int conn, const unsigned char* p, size_t n) = 0;
  virtual void on_close(int conn, bool rst) = 0;
};
void net_peer(Peer* p);
void peer_send(int conn, const void* p, size_t n);   // queued for delivery with drawn segmentation/delays
void peer_fin(int conn);
void peer_rst(int conn);
void net_resolve_delay(uint64_t us);
struct ConnRec { uint64_t seq; int fd; int ofd; NetEndpoint ep; int err; bool async; bool reused, unknown; int outcome; }; // one connect() call
struct ResolveRec { uint64_t entered, seq; char host[300], service[32]; int flags, family, socktype, gai, sys; };
size_t nresolve();
const ResolveRec& resolverec(size_t i);
size_t nconn();
const ConnRec& connrec(size_t i);
int open_sockets();
bool socket_connected(int fd, NetEndpoint* ep);
int conn_of_fd(int fd);
size_t conn_unread(int conn);            // bytes delivered or queued but not read by the application

// ---------------------------------------------------------------- scenarios
typedef void (*ScenarioFn)();
struct Scenario {
  const char* prop;
  const char* name;
  ScenarioFn fn;
  int weight;
  Scenario* next;
  Scenario(const char* p, const char* n, ScenarioFn f, int w = 1);
};
#define SCENARIO(prop, name) \
  static void scen_##prop##_##name(); \
  static ::sim::Scenario reg_##prop##_##name(#prop, #name, &scen_##prop##_##name); \
  static void scen_##prop##_##name()
#define SCENARIO_W(prop, name, weight) \
  static void scen_##prop##_##name(); \
  static ::sim::Scenario reg_##prop##_##name(#prop, #name, &scen_##prop##_##name, weight); \
  static void scen_##prop##_##name()
bool thorough();

} // namespace sim
#endif
