#include "scen/fworld.hpp"
#include "scen/ftpool.hpp"
#include <asio/use_future.hpp>
#include <asioext/file.hpp>
using namespace fw;
static Profile base() { Profile p; p.mask = C_COMPLETE; return p; }
SCENARIO_W(F01, drained, 3) { Profile p = base(); p.w_close = 1; p.w_cancel = 1; run_world(p); }
SCENARIO_W(F01, busy, 2) { Profile p = base(); p.actions = 20; p.w_op = 20; p.w_cancel = 2; p.w_close = 2; run_world(p); }
SCENARIO_W(F01, torn_down, 1) { Profile p = base(); p.teardown = 2; run_world(p); }
SCENARIO_W(F01, memory_level, 1) { Profile p = base(); p.race = true; p.actions = 8; run_world(p); }
SCENARIO_W(F01, files_on_thread_pool, 1) { ftp::files_on_pool(false); }

// Operations whose result is waited for through a future: it becomes ready exactly once, with
// what the operation did, or broken when the operation is abandoned.
namespace {
struct FOp { std::future<size_t> f; bool wr; uint64_t off; size_t len; unsigned char* buf; };
// What the system calls at this offset amount to; false: none was made.
bool fut_calls(size_t mark, const FOp& o, int& err, int64_t& ret)
{
  bool any = false;
  for (size_t i = mark; i < nsys(); ++i) { const SysRec& r = sysrec(i); if (r.off != (int64_t)o.off || r.inode < 0) continue; any = true; err = r.err; ret = r.ret; }
  return any;
}
}
SCENARIO_W(F01, futures, 1)
{
  // use_future's handlers run in Asio's own threads.
  asio::system_context& sys = asio::query(asio::system_executor(), asio::execution::context);
  uint64_t am = alloc_mark(); int n, nt, cancel_at, fd; bool leave, closes; size_t mark; unsigned char content[64 * 12];
  {
    Quiet q; race_detector(true); swarm_sched(true); set_fd_base(wl_chance(20) ? 0 : 3); set_umask(022);
    n = 1 + (int)wl(10); nt = (int)wl(3); leave = wl_chance(30); cancel_at = wl_chance(40) ? (int)wl((uint32_t)n) : -1; closes = flip();
    for (size_t i = 0; i < sizeof content; ++i) content[i] = (unsigned char)(i * 5 + 1);
    mkfile("a", content, sizeof content); fd = kernel_open("a", O_RDWR, 0); mark = nsys();
    swarm_fault(f_eintr, 40); swarm_fault(f_short, 50); swarm_fault(f_eio, 30); swarm_fault(f_enospc, 20); swarm_fault(f_stall, 40);
  }
  auto* io = new asio::io_context; auto* f = new asioext::file(*io, asioext::file_handle(fd));
  auto* guard = new asio::executor_work_guard<asio::io_context::executor_type>(io->get_executor());
  pthread_t t[2]; for (int i = 0; i < nt; ++i) t[i] = go([](void* a) { ((asio::io_context*)a)->run(); }, io);
  auto* ops = new std::vector<FOp>; ops->reserve((size_t)n);
  bool cancelled = false; int before = n;
  for (int i = 0; i < n; ++i) {
    if (i == cancel_at) { asioext::error_code ec; if (closes) f->close(ec); else f->cancel(ec); before = i; cancelled = true; if (closes) break; }
    FOp o; { Quiet q; o.wr = flip(); o.off = 64 * (uint64_t)i; o.len = 1 + wl(64); }
    o.buf = new unsigned char[o.len]; for (size_t k = 0; k < o.len; ++k) o.buf[k] = 0xcc;
    if (o.wr) o.f = f->async_write_some_at(o.off, asio::buffer(o.buf, o.len), asio::use_future);
    else o.f = f->async_read_some_at(o.off, asio::buffer(o.buf, o.len), asio::use_future);
    ops->push_back(std::move(o));
  }
  if (leave) { // the file, the context and its threads go while operations are under way
    io->stop(); delete guard; for (int i = 0; i < nt; ++i) join(t[i]);
    delete f; delete io; io = 0;
  }
  uint64_t ok = 0, failed = 0, aborted = 0, broken = 0;
  for (size_t i = 0; i < ops->size(); ++i) {
    FOp& o = (*ops)[i]; size_t v = 0; int how = 0; asioext::error_code ec;
    try { v = o.f.get(); } catch (const std::system_error& e) { how = 1; ec = e.code(); } catch (const std::future_error& e) { how = 2; }
    Quiet q; int err = 0; int64_t ret = 0; bool any = fut_calls(mark, o, err, ret);
    ev("future", (int64_t)i, how, ec.value(), (int64_t)v);
    if (how == 2 || (how == 1 && ec.category() == std::future_category())) { ++broken; if (!leave) violation("handler-lost", "the promise of an operation was broken"); continue; }
    if (how == 1 && ec == asio::error::operation_aborted) { ++aborted; if (!(cancelled && (int)i < before) && !leave) violation("aborted", "an operation was aborted although nothing was cancelled"); if (any) violation("aborted", "an operation is reported as aborted although it was executed"); continue; }
    if (how == 1 && ec.value() == EBADF && (leave || (closes && cancelled && (int)i < before))) { ++failed; continue; } // begun after the file was closed
    bool eof = how == 1 && ec == asio::error::eof;
    if (!any) { violation("no-call", "an operation completed without a system call"); continue; }
    if (how == 0) { ++ok; if (err || ret != (int64_t)v) violation("result", "a future reports %lu bytes, the system call %lld with error %d", (unsigned long)v, (long long)ret, err); }
    else if (!eof) { ++failed; if (ec.value() != err) violation("result", "a future reports %d, the system call failed with %d", ec.value(), err); }
    else violation("result", "a future reports the end of the file");
  }
  if (!leave) { delete guard; for (int i = 0; i < nt; ++i) join(t[i]); delete f; delete io; }
  for (FOp& o : *ops) {
    for (size_t k = 0; k < o.len && !o.wr; ++k) { unsigned char c = o.buf[k]; Quiet q; if (c != 0xcc && c != content[o.off + k]) { violation("result", "other bytes were read than the file has"); break; } }
    delete[] o.buf;
  }
  delete ops; sys.stop(); sys.join();
  { Quiet q; if (ok) probe("futures with a value", ok); if (failed) probe("futures with an error", failed); if (aborted) probe("futures aborted", aborted); if (broken) probe("futures broken", broken); if (aborted || failed || broken || n > 1) nontrivial(); if (open_fd_count()) violation("leak-descriptor", "%d descriptors were never closed", open_fd_count()); }
  LeakInfo li = live_since(am);
  if (li.count) violation("leak", "%lu blocks were never freed", (unsigned long)li.count);
}
