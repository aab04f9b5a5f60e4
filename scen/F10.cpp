// Errors: every function of the file API in both overload styles, with stale error codes and
// failing system calls.
#include "scen/fsync.hpp"
#include <asioext/read_file.hpp>
#include <asioext/write_file.hpp>
#include <string>
using namespace fsw;
SCENARIO_W(F10, operations, 2)
{
  static const int k[] = {o_read, o_write, o_read_at, o_write_at, o_position, o_seek, o_size, o_truncate, o_perms, o_set_perms, o_attrs, o_set_attrs, o_times, o_set_times, o_close, o_cancel};
  sync_run(a_err, k, sizeof k / sizeof *k, 30);
}
namespace {
struct FW { asio::io_context* io; std::vector<asioext::file*> f; std::vector<asioext::unique_file_handle*> u; uint64_t errs = 0, n = 0; };
FW* w;
int open_fds() { return open_fd_count(); }
// Calls f(ec) or, when thr, g(). Checks the error against the system calls made.
template <class A, class B> bool both(const char* nm, bool thr, A f, B g, int extra_ok = 0)
{
  error_code ec; bool threw = false, alien = false; size_t mark;
  { Quiet q; if (!thr) ec = random_stale(); mark = nsys(); }
  try { if (thr) g(); else f(ec); }
  catch (std::system_error& e) { threw = true; ec = e.code(); }
  catch (...) { threw = alien = true; }
  Quiet q;
  Calls c = calls_since(mark); int due = due_error(c);
  ev(nm, ec.value(), due, thr); ++w->n; w->errs += c.fails > 0;
  if (alien) violation("exception-type", "%s threw something that is no system_error", nm);
  if (threw && !thr) violation("ec-overload-throws", "%s(..., ec) threw", nm);
  if (threw && !ec) violation("throws-success", "%s threw a system_error without an error", nm);
  if (extra_ok) { if (!is_sys(ec, extra_ok)) violation("wrong-error", "%s: %s:%d instead of %d was %s", nm, ec.category().name(), ec.value(), extra_ok, thr ? "thrown" : "reported"); }

  else if (due ? !is_sys(ec, due) : (bool)ec) violation("wrong-error", "%s: %s:%d was %s although the system calls %s (%d)", nm, ec.category().name(), ec.value(), thr ? "thrown" : "reported", due ? "failed" : "succeeded", due);
  return !ec;
}
// eof counts as the result of a call whose last transfer found no more data
template <class A, class B> bool both_eof(const char* nm, bool thr, A f, B g)
{
  error_code ec; bool threw = false, alien = false; size_t mark;
  { Quiet q; if (!thr) ec = random_stale(); mark = nsys(); }
  try { if (thr) g(); else f(ec); }
  catch (std::system_error& e) { threw = true; ec = e.code(); }
  catch (...) { threw = alien = true; }
  Quiet q;
  int me = self(), err = 0; bool eof = false, rd = nm[0] == 'r';
  for (size_t i = mark; i < nsys(); ++i) {
    const SysRec& r = sysrec(i); if (r.tid != me) continue;
    bool closing = !strcmp(r.name, "close");
    if (closing && rd) continue; // closing a file that was only read
    if (r.ret < 0 && (r.err != EINTR || closing) && !err) err = r.err;
    if (r.ret == 0 && r.len && !strncmp(r.name + (r.name[0] == 'p'), "read", 4)) eof = true;
  }
  ev(nm, ec.value(), err, thr); ++w->n; w->errs += err != 0;
  if (alien) violation("exception-type", "%s threw something that is no system_error", nm);
  if (threw && !thr) violation("ec-overload-throws", "%s(..., ec) threw", nm);
  if (threw && !ec) violation("throws-success", "%s threw a system_error without an error", nm);
  if (err && !is_sys(ec, err)) violation("wrong-error", "%s: %s:%d was %s although a system call failed with %d", nm, ec.category().name(), ec.value(), thr ? "thrown" : "reported", err);
  if (!err && eof && ec != asio::error::eof) violation("wrong-error", "%s: %s:%d was %s although the file ended early", nm, ec.category().name(), ec.value(), thr ? "thrown" : "reported");
  if (!err && !eof && ec) violation("wrong-error", "%s: %s:%d was %s although nothing failed", nm, ec.category().name(), ec.value(), thr ? "thrown" : "reported");
  return !ec;
}
}

SCENARIO(F10, functions)
{
  int n; g_mask = a_err;
  {
    Quiet q; w = raw_new<FW>(); race_detector(false); swarm_sched(false); n = 3 + (int)wl(25);
    set_fd_base(wl_chance(20) ? 0 : 3); set_umask(022);
    for (int i = 0; i < 2; ++i) { Bytes b(wl_size(300)); for (auto& c : b) c = (uint8_t)wl(256); mkfile(names[i], b.data(), b.size()); }
    swarm_fault(f_eintr, 50); swarm_fault(f_short, 50); swarm_fault(f_eio, 40); swarm_fault(f_enospc, 40); swarm_fault(f_close_err, 50);
    swarm_fault(f_fstat_err, 30); swarm_fault(f_open_err, 50); swarm_fault(f_emfile, 30); swarm_fault(f_enfile, 20); swarm_fault(f_dup_err, 50);
  }
  w->io = new asio::io_context;
  { Quiet q; }
  for (int i = 0; i < 2; ++i) { asioext::file* f = new asioext::file(*w->io); asioext::unique_file_handle* u = new asioext::unique_file_handle; Quiet q; w->f.push_back(f); w->u.push_back(u); }
  for (int i = 0; i < n; ++i) {
    int k, a; bool thr; uint32_t x, y; const char* nm; asioext::open_flags fl;
    {
      Quiet q; k = (int)wl(16); a = (int)wl(2); thr = flip(); x = wl(1000); y = wl(1000); nm = wl_chance(80) ? names[wl(3)] : "missing/file";
      static const asioext::open_flags disp[] = {asioext::open_flags::open_existing, asioext::open_flags::create_always, asioext::open_flags::open_always, asioext::open_flags::create_new,
        asioext::open_flags::create_new | asioext::open_flags::open_always, asioext::open_flags::create_always | asioext::open_flags::open_existing | asioext::open_flags::truncate_existing};
      fl = disp[wl_chance(15) ? 4 + wl(2) : wl(4)] | (wl_chance(60) ? asioext::open_flags::access_read_write : asioext::open_flags::access_write);
    }
    asioext::file& f = *w->f[(size_t)a]; asioext::unique_file_handle& u = *w->u[(size_t)a];
    asioext::open_args args(fl);
    bool valid = asioext::is_valid(fl);
    int inv = valid ? 0 : EINVAL;
    int before = open_fds(), unused = 0; (void)unused;
    switch (k) {
    case 0: { asioext::unique_file_handle r; bool ok = both("open", thr, [&](error_code& ec) { r = asioext::open(nm, args, ec); }, [&] { r = asioext::open(nm, args); }, inv);
      if (ok != r.is_open() || open_fds() != before + ok) violation("state", "open() %s but %d descriptors are open", ok ? "succeeded" : "failed", open_fds() - before);
      break; }
    case 1: { boost::filesystem::path p(nm); asioext::unique_file_handle r; bool ok = both("open(path)", thr, [&](error_code& ec) { r = asioext::open(p, args, ec); }, [&] { r = asioext::open(p, args); }, inv);
      if (ok != r.is_open() || open_fds() != before + ok) violation("state", "open() %s but %d descriptors are open", ok ? "succeeded" : "failed", open_fds() - before);
      break; }
    case 2: case 3: { // file::open
      bool was = f.is_open(); int fd0 = f.native_handle(); boost::filesystem::path p(nm); bool ok;
      if (was) { // already_open, without a system call
        size_t m = nsys();
        error_code ec = asio::error::eof; bool threw = false;
        try { if (thr) f.open(nm, args); else if (k == 2) f.open(nm, args, ec); else f.open(p, args, ec); } catch (std::system_error& e) { threw = true; ec = e.code(); }
        if (threw != thr || ec != asio::error::already_open || nsys() != m || f.native_handle() != fd0) violation("already-open", "opening an open file: %s:%d", ec.category().name(), ec.value());
        break;
      }
      if (k == 2) ok = both("file::open", thr, [&](error_code& ec) { f.open(nm, args, ec); }, [&] { f.open(nm, args); }, inv);
      else ok = both("file::open(path)", thr, [&](error_code& ec) { f.open(p, args, ec); }, [&] { f.open(p, args); }, inv);
      if (f.is_open() != ok || open_fds() != before + ok || (!ok && f.native_handle() != -1)) violation("state", "file::open() %s but the file is %s", ok ? "succeeded" : "failed", f.is_open() ? "open" : "closed");
      break; }
    case 4: { bool was = f.is_open(); both("file::close", thr, [&](error_code& ec) { f.close(ec); }, [&] { f.close(); });
      if (f.is_open() || open_fds() != before - was) violation("state", "file::close() left the file open");
      break; }
    case 5: { // construction
      asioext::file* r = 0; int form = (int)(x % 4); boost::filesystem::path p(nm);
      bool ok = both("file(filename)", thr, [&](error_code& ec) {
        switch (form) { case 0: r = new asioext::file(*w->io, nm, args, ec); break; case 1: r = new asioext::file(*w->io, p, args, ec); break;
          case 2: r = new asioext::file(w->io->get_executor(), nm, args, ec); break; default: r = new asioext::file(w->io->get_executor(), p, args, ec); } }, [&] {
        switch (form) { case 0: r = new asioext::file(*w->io, nm, args); break; case 1: r = new asioext::file(*w->io, p, args); break;
          case 2: r = new asioext::file(w->io->get_executor(), nm, args); break; default: r = new asioext::file(w->io->get_executor(), p, args); } }, inv);
      if (r && r->is_open() != ok) violation("state", "a file constructed with a file name is %s", r->is_open() ? "open" : "closed");
      if (open_fds() != before + ok) violation("state", "construction with a file name %s but %d descriptors are open", ok ? "succeeded" : "failed", open_fds() - before);
      delete r;
      break; }
    case 6: { // duplicate
      asioext::unique_file_handle r; int fd = f.native_handle(); bool ok = both("duplicate", thr, [&](error_code& ec) { r = asioext::duplicate(asioext::file_handle(fd), ec); }, [&] { r = asioext::duplicate(asioext::file_handle(fd)); });
      if (ok != r.is_open() || open_fds() != before + ok || (ok && (fd == r.get().native_handle() || ofd_of_fd(fd) != ofd_of_fd(r.get().native_handle())))) violation("state", "duplicate() %s but %d descriptors are open", ok ? "succeeded" : "failed", open_fds() - before);
      break; }
    case 7: { asioext::file_handle h; int want = (int)(x % 3);
      both("standard stream", thr, [&](error_code& ec) { h = want == 0 ? asioext::get_stdin(ec) : want == 1 ? asioext::get_stdout(ec) : asioext::get_stderr(ec); }, [&] { h = want == 0 ? asioext::get_stdin() : want == 1 ? asioext::get_stdout() : asioext::get_stderr(); });
      if (h.native_handle() != want) violation("state", "a standard stream has descriptor %d instead of %d", h.native_handle(), want);
      break; }
    case 8: { // reset
      bool was = u.is_open(); int fd; { Quiet q; fd = kernel_open(names[0], O_RDWR, 0); }
      both("reset", thr, [&](error_code& ec) { u.reset(asioext::file_handle(fd), ec); }, [&] { u.reset(asioext::file_handle(fd)); });
      if (u.get().native_handle() != fd || open_fds() != before + !was) violation("state", "after reset() the handle is %d instead of %d", u.get().native_handle(), fd);
      break; }
    case 9: { bool was = u.is_open(); both("unique_file_handle::close", thr, [&](error_code& ec) { u.close(ec); }, [&] { u.close(); });
      if (u.is_open() || open_fds() != before - was) violation("state", "close() left the handle open");
      break; }
    case 10: { std::string s(x % 5, 'x'); std::vector<char> v; bool sv = y & 1; boost::filesystem::path p(nm); bool path = y & 2;
      if (path) both_eof("read_file(path, container)", thr, [&](error_code& ec) { if (sv) asioext::read_file(p, s, ec); else asioext::read_file(p, v, ec); }, [&] { if (sv) asioext::read_file(p, s); else asioext::read_file(p, v); });
      else both_eof("read_file(container)", thr, [&](error_code& ec) { if (sv) asioext::read_file(nm, s, ec); else asioext::read_file(nm, v, ec); }, [&] { if (sv) asioext::read_file(nm, s); else asioext::read_file(nm, v); });
      if (open_fds() != before) violation("state", "read_file() left a descriptor open");
      break; }
    case 11: { std::vector<char> v(1 + x % 400), v2(y % 50); std::array<asio::mutable_buffer, 2> b{{asio::buffer(v), asio::buffer(v2)}}; boost::filesystem::path p(nm);
      if (x & 1) both_eof("read_file(buffers)", thr, [&](error_code& ec) { asioext::read_file(nm, b, ec); }, [&] { asioext::read_file(nm, b); });
      else both_eof("read_file(path, buffers)", thr, [&](error_code& ec) { asioext::read_file(p, b, ec); }, [&] { asioext::read_file(p, b); });
      if (open_fds() != before) violation("state", "read_file() left a descriptor open");
      break; }
    case 12: { int fd; { Quiet q; fd = kernel_open(names[a], O_RDWR, 0); } std::string s; std::vector<char> v(1 + x % 400);
      if (y & 1) both_eof("read_file(handle, container)", thr, [&](error_code& ec) { asioext::read_file(asioext::file_handle(fd), s, ec); }, [&] { asioext::read_file(asioext::file_handle(fd), s); });
      else both_eof("read_file(handle, buffers)", thr, [&](error_code& ec) { asioext::read_file(asioext::file_handle(fd), asio::buffer(v), ec); }, [&] { asioext::read_file(asioext::file_handle(fd), asio::buffer(v)); });
      if (!fd_open(fd)) violation("state", "read_file() closed the caller's handle");
      Quiet q; kernel_close(fd);
      break; }
    case 13: case 14: { std::string s(x % 600, 'x'), s2(y % 10, 'y'); std::vector<asio::const_buffer> b; b.push_back(asio::buffer(s)); b.push_back(asio::buffer(s2)); boost::filesystem::path p(nm);
      if (k == 13) both_eof("write_file", thr, [&](error_code& ec) { asioext::write_file(nm, b, ec); }, [&] { asioext::write_file(nm, b); });
      else both_eof("write_file(path)", thr, [&](error_code& ec) { asioext::write_file(p, b, ec); }, [&] { asioext::write_file(p, b); });
      if (open_fds() != before) violation("state", "write_file() left a descriptor open");
      break; }
    case 15: { bool was = f.is_open(); error_code ec; bool threw = false; { Quiet q; ec = thr ? error_code() : random_stale(); }
      try { if (thr) f.cancel(); else f.cancel(ec); } catch (std::system_error& e) { threw = true; ec = e.code(); }
      if (was ? (bool)ec : !is_sys(ec, EBADF)) violation("wrong-error", "cancel() on %s file: %s:%d", was ? "an open" : "a closed", ec.category().name(), ec.value());
      if (threw != (thr && !was)) violation("ec-overload-throws", "cancel()");
      break; }
    }
  }
  for (auto f : w->f) delete f;
  for (auto u : w->u) delete u;
  delete w->io;
  Quiet q; faults_enabled(false);
  if (open_fds()) violation("state", "%d descriptors were left open", open_fds());
  probe("functions", w->n); if (w->errs) { probe("functions with failing system calls", w->errs); nontrivial(); }
}
