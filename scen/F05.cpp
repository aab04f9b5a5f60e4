// Ownership of descriptors: histories over every kind of holder, one or several threads
// sharing the descriptor table, with open, dup and close failing.
#include "scen/fsync.hpp"
#include <asioext/read_file.hpp>
#include <asioext/write_file.hpp>
using namespace fsw;
typedef asioext::open_flags OF;
namespace {
struct Id { int fd, ofd; bool operator==(const Id&) const = default; };
const Id none{-1, -1};
struct Hist {
  int id; asio::io_context* io[2]; asioext::unique_file_handle* u[3]; asioext::file* f[3];
  std::vector<Id> loose; uint64_t n = 0, fails = 0; int steps; bool shared;
};
struct Exp { Id u[3], f[3]; std::vector<Id> loose; };
const int ANY = -2;
Id of(int fd) { return fd < 0 ? none : Id{fd, ofd_of_fd(fd)}; }
uint64_t g_total, g_fails; int g_std = 3; // descriptors 0 to 2 are the standard streams, or free (0)

struct Op05 {
  Hist& h; Exp e; size_t mark; const char* nm = "?"; bool thr; error_code ec; bool threw = false;
  Op05(Hist& x) : h(x) {}
  Id uid(int i) { return h.u[i]->is_open() ? of(h.u[i]->get().native_handle()) : none; }
  Id fid(int i) { return h.f[i]->is_open() ? of(h.f[i]->native_handle()) : none; }
  void snap() { for (int i = 0; i < 3; ++i) { e.u[i] = uid(i); e.f[i] = fid(i); } Quiet q; e.loose = h.loose; mark = nsys(); }
  template <class F> void run(F fn)
  {
    try { fn(); } catch (std::system_error& x) { threw = true; ec = x.code(); }
  }
  // a descriptor the library opened in this step (the last successful open or dup of this thread)
  Id opened()
  {
    int me = self(); Id r = none;
    for (size_t i = mark; i < nsys(); ++i) { const SysRec& s = sysrec(i); if (s.tid == me && s.ret >= 0 && (!strcmp(s.name, "open") || !strcmp(s.name, "dup") || !strcmp(s.name, "fcntl_dup"))) r = Id{(int)s.ret, s.ofd}; }
    return r;
  }
  bool close_failed() { int me = self(); for (size_t i = mark; i < nsys(); ++i) { const SysRec& s = sysrec(i); if (s.tid == me && s.ret < 0 && !strcmp(s.name, "close")) return true; } return false; }
  void check_id(const char* what, int i, Id want, Id got)
  {
    if (want.fd == ANY) return;
    if (!(want == got)) violation("holder", "after %s %s %d holds descriptor %d instead of %d%s", nm, what, i, got.fd, want.fd, want.fd == got.fd ? " (another file)" : "");
  }
  void verify()
  {
    Id gu[3], gf[3];
    for (int i = 0; i < 3; ++i) { gu[i] = uid(i); gf[i] = fid(i); }
    Quiet q;
    ++h.n;
    int me = self();
    for (size_t i = mark; i < nsys(); ++i) {
      const SysRec& s = sysrec(i); if (s.tid != me) continue;
      if (s.ret < 0) h.fails++;
      if (strcmp(s.name, "close")) continue;
      if (s.err == EBADF) violation("double-close", "%s closed descriptor %d, which is not open", nm, s.fd);
      if (s.fd >= 0 && s.fd < g_std) violation("closed-standard-stream", "%s closed descriptor %d", nm, s.fd);
    }
    ev(nm, ec.value(), threw, h.id);
    for (int i = 0; i < 3; ++i) { check_id("unique_file_handle", i, e.u[i], gu[i]); check_id("file", i, e.f[i], gf[i]); }
    int held = 0; std::vector<int> fds;
    for (int i = 0; i < 3; ++i) { if (gu[i].fd >= 0) fds.push_back(gu[i].fd); if (gf[i].fd >= 0) fds.push_back(gf[i].fd); }
    for (auto& l : h.loose) { if (!(of(l.fd) == l)) violation("closed-foreign", "%s closed descriptor %d, which it does not own", nm, l.fd); fds.push_back(l.fd); }
    for (size_t i = 0; i < fds.size(); ++i) { held++; if (!fd_open(fds[i])) violation("closed-held", "after %s descriptor %d is closed but still held", nm, fds[i]); for (size_t k = 0; k < i; ++k) if (fds[k] == fds[i]) violation("two-owners", "after %s descriptor %d has two owners", nm, fds[i]); }
    if (!h.shared && open_fd_count() != held + g_std) violation("leak", "after %s %d descriptors are open but %d are held", nm, open_fd_count() - g_std, held);
    if (h.shared) { // the table belongs to all threads: those opened by this one
      int me2 = self(), mine = 0;
      for (int fd = g_std; fd < 64; ++fd) if (fd_open(fd) && owner_of(fd, ofd_of_fd(fd)) == me2) mine++;
      if (mine != held) violation("leak", "after %s %d descriptors opened by this thread are open but %d are held", nm, mine, held);
    }
  }
  static int owner_of(int fd, int ofd)
  { // the thread that obtained this descriptor
    for (size_t i = nsys(); i-- > 0;) { const SysRec& s = sysrec(i); if (s.ret == fd && s.ofd == ofd && (!strcmp(s.name, "open") || !strcmp(s.name, "dup") || !strcmp(s.name, "fcntl_dup"))) return s.tid; }
    return -1;
  }
  void step()
  {
    int k, i, j; uint32_t x; bool lo; const char* path; size_t li = 0; asioext::open_args args(OF::open_always | OF::access_read_write);
    {
      Quiet q; k = (int)wl(24); i = (int)wl(3); j = (int)wl(3); x = wl(1000); thr = flip(); path = wl_chance(85) ? names[wl(3)] : "missing/file";
      lo = !h.loose.empty(); if (lo) li = wl((uint32_t)h.loose.size());
      if (h.loose.size() > 4 && (k == 2 || k == 18)) k = 1;
    }
    snap();
    asioext::unique_file_handle &ui = *h.u[i], &uj = *h.u[j]; asioext::file &fi = *h.f[i], &fj = *h.f[j];
    switch (k) {
    case 0: case 21: { nm = "open() and move assignment";
      run([&] { if (thr) ui = asioext::open(path, args); else ui = asioext::open(path, args, ec); });
      Quiet q;
      Id o = opened();
      if (!threw) e.u[i] = o; // also when opening failed: the target was closed and replaced
      else if (close_failed()) { e.u[i].fd = ANY; } // closing the previous one failed: the other checks decide
      break; }
    case 1: { if (!lo) return; nm = "adopting";
      Id l = h.loose[li]; asioext::unique_file_handle* n = (x & 1) ? new asioext::unique_file_handle(asioext::file_handle(l.fd)) : new asioext::unique_file_handle(l.fd);
      delete h.u[i]; Quiet q; h.u[i] = n; e.u[i] = l; take_loose(li); break; }
    case 2: { nm = "release()"; asioext::file_handle r = ui.release(); Quiet q; int fd = r.native_handle(); if (fd != e.u[i].fd) violation("release", "release() returned %d instead of %d", fd, e.u[i].fd); if (fd >= 0) { h.loose.push_back(e.u[i]); e.loose = h.loose; } e.u[i] = none; break; }
    case 3: { nm = "reset()"; Id l = lo && (x & 3) ? h.loose[li] : none;
      run([&] { if (thr) ui.reset(asioext::file_handle(l.fd)); else ui.reset(asioext::file_handle(l.fd), ec); });
      Quiet q; e.u[i] = l; if (l.fd >= 0) take_loose(li); break; }
    case 4: { if (i == j) return; nm = "move construction"; delete h.u[j]; h.u[j] = new asioext::unique_file_handle(std::move(ui)); Quiet q; e.u[j] = e.u[i]; e.u[i] = none; break; }
    case 5: case 22: { nm = "move assignment"; run([&] { uj = std::move(ui); });
      Quiet q;
      if (i == j) { e.u[i].fd = ANY; break; }
      if (!threw) { e.u[j] = e.u[i]; e.u[i] = none; }
      else { // the target's previous descriptor is gone; the other one is held by either
        Id a = uid2(j), b = uid2(i), want = e.u[i];
        if (!close_failed()) violation("move-throws", "move assignment threw without a failing close");
        if (!((a == want && b == none) || (b == want && a == none))) violation("holder", "after a failed move assignment the operands hold %d and %d", a.fd, b.fd);
        e.u[j] = a; e.u[i] = b;
      }
      break; }
    case 6: { if (i == j) return; nm = "swap"; run([&] { std::swap(ui, uj); }); Quiet q; std::swap(e.u[i], e.u[j]); break; }
    case 7: { nm = "close()"; run([&] { if (thr) ui.close(); else ui.close(ec); }); Quiet q; bool cf = close_failed(); if (cf != !!ec) violation("close-error", "close() %s although the system's close() %s", ec ? "failed" : "succeeded", cf ? "failed" : "did not"); e.u[i] = none; break; }
    case 8: { nm = "destruction"; run([&] { delete h.u[i]; h.u[i] = new asioext::unique_file_handle; }); if (threw) violation("destructor-throws", "a destructor threw"); Quiet q; e.u[i] = none; break; }
    case 9: { nm = "duplicate()"; int src = x % 5 == 0 && g_std ? 1 : (x & 1) ? e.u[j].fd : e.f[j].fd; if (i == j && (x & 1)) src = e.f[j].fd;
      run([&] { asioext::unique_file_handle d = thr ? asioext::duplicate(asioext::file_handle(src)) : asioext::duplicate(asioext::file_handle(src), ec); delete h.u[i]; h.u[i] = new asioext::unique_file_handle(std::move(d)); });
      Quiet q; if (threw) break; e.u[i] = opened(); if (!ec && (e.u[i].fd == src || e.u[i].ofd != ofd_of_fd(src))) violation("duplicate", "duplicate() of descriptor %d yields %d of another file", src, e.u[i].fd); break; }
    case 10: { nm = "using plain handles"; { asioext::file_handle a = ui.get(), b = a, c; c = b; b.clear(); a = asioext::file_handle(); asioext::file_handle s = asioext::get_stdout(), s2(asioext::get_stderr()), s3 = asioext::get_stdin(ec); (void)s; (void)s2; (void)s3; } break; }
    case 11: case 23: { nm = "file::open()"; run([&] { if (thr) fi.open(path, args); else fi.open(path, args, ec); }); Quiet q; if (e.f[i] == none) e.f[i] = opened(); break; }
    case 12: { nm = "constructing a file with a name"; asioext::file* n = 0;
      run([&] { if (thr) n = new asioext::file(*h.io[x & 1], path, args); else n = new asioext::file(h.io[x & 1]->get_executor(), path, args, ec); });
      if (!n) break;
      delete h.f[i]; Quiet q; h.f[i] = n; e.f[i] = opened(); break; }
    case 13: { if (!lo) return; nm = "constructing a file from a handle"; Id l = h.loose[li]; asioext::file* n;
      switch (x % 4) { case 0: n = new asioext::file(*h.io[i & 1], asioext::file_handle(l.fd)); break; case 1: n = new asioext::file(*h.io[1], l.fd); break; case 2: n = new asioext::file(h.io[0]->get_executor(), asioext::file_handle(l.fd)); break; default: n = new asioext::file(h.io[1]->get_executor(), l.fd); }
      delete h.f[i]; Quiet q; h.f[i] = n; e.f[i] = l; take_loose(li); break; }
    case 14: { if (i == j) return; nm = "file move construction"; delete h.f[j]; h.f[j] = new asioext::file(std::move(fi)); Quiet q; e.f[j] = e.f[i]; e.f[i] = none; break; }
    case 15: { if (i == j) return; nm = "file move assignment"; run([&] { fj = std::move(fi); }); if (threw) violation("move-throws", "file move assignment threw"); Quiet q; e.f[j] = e.f[i]; e.f[i] = none; break; }
    case 16: { nm = "file::close()"; run([&] { if (thr) fi.close(); else fi.close(ec); }); Quiet q; bool cf = close_failed(); if (cf != !!ec) violation("close-error", "close() %s although the system's close() %s", ec ? "failed" : "succeeded", cf ? "failed" : "did not"); e.f[i] = none; break; }
    case 17: { nm = "file destruction"; run([&] { delete h.f[i]; h.f[i] = new asioext::file(*h.io[x & 1]); }); if (threw) violation("destructor-throws", "a destructor threw"); Quiet q; e.f[i] = none; break; }
    case 18: { nm = "a failing or unused open()"; run([&] { if (thr) asioext::open(path, args); else asioext::open(path, args, ec); }); break; }
    case 19: { nm = "read_file/write_file"; run([&] { std::vector<char> v(10); if (x & 1) { if (thr) asioext::read_file(path, v); else asioext::read_file(path, v, ec); } else { if (thr) asioext::write_file(path, asio::buffer(v)); else asioext::write_file(path, asio::buffer(v), ec); } }); break; }
    case 20: { nm = "moving a file into a handler"; // and destroying the context
      if (h.shared) return;
      asio::io_context* io = new asio::io_context;
      int cnt = 1 + (int)(x % 3);
      std::vector<asioext::file> v; 
      for (int m = 0; m < cnt; ++m) { error_code e2; v.emplace_back(*io); v.back().open(names[m % 3], args, e2); }
      if (x & 4) { asio::post(*io, [v = std::move(v)]() mutable {}); if (x & 8) io->run(); }
      else { for (auto& y : v) { static char c[4]; y.async_read_some_at(0, asio::buffer(c), [z = std::make_shared<int>(1)](error_code, std::size_t) {}); } v.clear(); }
      run([&] { delete io; });
      if (threw) violation("destructor-throws", "a destructor threw");
      break; }
    }
    verify();
  }
  Id uid2(int i) { Loud l; return uid(i); }
  void take_loose(size_t li) { h.loose.erase(h.loose.begin() + (long)li); e.loose = h.loose; }
};
void init(Hist& h, int id, bool shared)
{
  { Quiet q; h.id = id; h.shared = shared; h.steps = 4 + (int)wl(shared ? 15 : 40); }
  for (int i = 0; i < 2; ++i) h.io[i] = new asio::io_context;
  for (int i = 0; i < 3; ++i) { h.u[i] = new asioext::unique_file_handle; h.f[i] = new asioext::file(*h.io[i & 1]); }
}
void history(void* p)
{
  Hist& h = *(Hist*)p;
  for (int i = 0; i < h.steps; ++i) { Op05* o = raw_new<Op05>(h); o->step(); raw_delete(o); }
  bool bad = false;
  try { for (int i = 0; i < 3; ++i) { delete h.u[i]; delete h.f[i]; } } catch (...) { bad = true; }
  if (bad) violation("destructor-throws", "a destructor threw");
  Quiet q; for (auto& l : h.loose) { if (!(of(l.fd) == l)) violation("closed-foreign", "descriptor %d was closed by something that does not own it", l.fd); kernel_close(l.fd); }
  g_total += h.n; g_fails += h.fails;
}
void setup()
{
  set_fd_base(0);
  for (int i = 0; i < 3; ++i) { mkfile(names[i], "some data", 9); }
  g_std = wl_chance(25) ? 0 : 3; // a daemon that has closed them
  for (int i = 0; i < g_std; ++i) { char nm[8] = "std0"; nm[3] = (char)('0' + i); mkfile(nm, "", 0); kernel_open(nm, O_RDWR, 0); }
  set_fd_base(g_std);
  swarm_fault(f_close_err, 65); swarm_fault(f_dup_err, 40); swarm_fault(f_open_err, 40); swarm_fault(f_eintr, 30); swarm_fault(f_emfile, 20); swarm_fault(f_eio, 20); swarm_fault(f_fstat_err, 20);
}
void finish()
{
  Quiet q; faults_enabled(false);
  if (open_fd_count() != g_std) violation("leak", "%d descriptors are open after everything was destroyed", open_fd_count() - g_std);
  probe("steps", g_total); if (g_fails) { probe("failed system calls", g_fails); nontrivial(); }
}
}
SCENARIO_W(F05, histories, 3)
{
  Hist* h;
  { Quiet q; h = raw_new<Hist>(); race_detector(false); swarm_sched(false); setup(); }
  init(*h, 0, false); history(h);
  for (int i = 0; i < 2; ++i) delete h->io[i];
  finish();
}
SCENARIO_W(F05, threads, 1)
{
  Hist* h[3]; int n; pthread_t t[3];
  { Quiet q; race_detector(true); swarm_sched(true); setup(); n = 2 + (int)wl(2); for (int i = 0; i < n; ++i) h[i] = raw_new<Hist>(); }
  for (int i = 0; i < n; ++i) init(*h[i], i, true);
  for (int i = 1; i < n; ++i) t[i] = go(history, h[i]);
  history(h[0]);
  for (int i = 1; i < n; ++i) join(t[i]);
  for (int i = 0; i < n; ++i) for (int k = 0; k < 2; ++k) delete h[i]->io[k];
  finish();
}
