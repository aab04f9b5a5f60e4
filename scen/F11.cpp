// Metadata and position operations against the reference model.
#include "scen/fsync.hpp"
#include "scen/huge.hpp"
#include <asioext/chrono.hpp>
using namespace fsw;
SCENARIO_W(F11, metadata, 5)
{
  static const int k[] = {o_position, o_seek, o_size, o_truncate, o_perms, o_set_perms, o_attrs, o_set_attrs, o_times, o_set_times, o_read, o_write, o_close};
  sync_run(a_meta, k, sizeof k / sizeof *k, 20);
}

// The clock of file times: it is the file system's, and the system clock may be set at any time.
typedef asioext::file_clock fc;
static int64_t ns_of(fc::time_point t) { return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count(); }
static fc::time_point read_clock()
{
  uint64_t m0, m1; int64_t s0, s1;
  { Quiet q; m0 = now_ns(); s0 = (int64_t)system_ns(); }
  fc::time_point t = fc::now();
  Quiet q; m1 = now_ns(); s1 = (int64_t)system_ns();
  // the time when the call was made, on the clock as it was before or after it was set
  int64_t el = (int64_t)(m1 - m0), v = ns_of(t);
  if (!(v >= s0 && v <= s0 + el) && !(v <= s1 && v >= s1 - el))
    violation("clock", "now() returned %lld, the system clock went from %lld to %lld", (long long)v, (long long)s0, (long long)s1);
  ev("clock", v); if (s1 - s0 != el) probe("clock set while it is read");
  return t;
}
static int64_t rnd_secs()
{
  switch (wl(5)) {
  case 0: return 0;
  case 1: return -(int64_t)wl(2000000000) * 4;
  case 2: return 9223372035ll - (int64_t)wl(3);
  case 3: return -9223372035ll + (int64_t)wl(3);
  default: return (int64_t)wl(2000000000) * 4;
  }
}
SCENARIO_W(F11, clock, 1)
{
  int n; uint64_t am = alloc_mark();
  {
    Quiet q; swarm_sched(true); set_umask(022); mkfile("a", "x", 1, 0600); n = 2 + (int)wl(10);
    swarm_fault(f_clock_jump, 60); swarm_fault(f_futimens_err, 15); swarm_fault(f_fstat_err, 15);
    if (wl_chance(40)) set_system_clock(((int64_t)wl(3000000) - 1700000) * 1000000000ll);
  }
  {
    asioext::error_code ec;
    asioext::unique_file_handle h = asioext::open("a", asioext::open_flags::access_read_write | asioext::open_flags::open_existing, ec);
    if (!ec) for (int i = 0; i < n; ++i) {
      int what; uint64_t us; int64_t secs, frac; { Quiet q; us = wl_chance(50) ? 0 : wl(2000000); what = (int)wl(4); secs = rnd_secs(); frac = wl(1000000000); }
      if (us) sleep_us(us);
      switch (what) {
      case 0: read_clock(); break;
      case 1: { // seconds
        fc::time_point t = fc::from_time_t((time_t)secs); time_t b = fc::to_time_t(t);
        fc::time_point tf = t + std::chrono::duration_cast<fc::duration>(std::chrono::nanoseconds(frac)); time_t bf = fc::to_time_t(tf);
        Quiet q;
        if (ns_of(t) != secs * 1000000000ll) violation("time_t", "from_time_t(%lld) is %lld ns after 1970", (long long)secs, (long long)ns_of(t));
        if (b != secs) violation("time_t", "%lld became %lld on the way through a file time", (long long)secs, (long long)b);
        if (bf != secs && bf != secs + (secs < 0 && frac)) violation("time_t", "to_time_t of %lld.%09lld is %lld", (long long)secs, (long long)frac, (long long)bf);
        break; }
      default: { // a file that gets the current time, or a whole second
        fc::time_point t = what == 2 ? read_clock() : fc::from_time_t((time_t)secs);
        asioext::file_times s; s.atime = t; s.mtime = t;
        size_t mark; { Quiet q; mark = nsys(); }
        asioext::error_code e; h.times(s, e);
        int64_t a[4]; { Quiet q; inode_times(inode_of_path("a"), a, a + 1, a + 2, a + 3); }
        if (e) { Quiet q; bool f = false; for (size_t k = mark; k < nsys(); ++k) f |= sysrec(k).err != 0; if (!f) violation("times-range", "setting the time %lld reports %d", (long long)ns_of(t), e.value()); break; }
        if (ns_of(t)) { Quiet q; int64_t want = ns_of(t); for (int k = 0; k < 4; k += 2) if (a[k] * 1000000000ll + a[k + 1] != want) violation("times", "a file that was given the time %lld has the time %lld.%09lld", (long long)want, (long long)a[k], (long long)a[k + 1]); }
        { Quiet q; mark = nsys(); }
        asioext::file_times g = h.times(e);
        Quiet q;
        if (e) { bool f = false; for (size_t k = mark; k < nsys(); ++k) f |= sysrec(k).err != 0; if (!f) violation("times-range", "reading the time %lld back reports %d", (long long)ns_of(t), e.value()); break; }
        if (ns_of(t) && (g.atime != t || g.mtime != t)) violation("times", "a file that was given the time %lld reports %lld", (long long)ns_of(t), (long long)ns_of(g.mtime));
        nontrivial(); break; }
      }
    }
  }
  LeakInfo li = live_since(am);
  if (li.count) { Quiet q; violation("leak", "%lu blocks were never freed", (unsigned long)li.count); }
}

SCENARIO_W(F11, huge, 1) { static const int k[] = {o_position, o_seek, o_size, o_truncate, o_seek, o_truncate, o_write_at, o_write}; hg::huge_run(k, 8, false); }
