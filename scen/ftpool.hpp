// Files whose execution context is an asio::thread_pool and whose executor type is known
// statically: join() must not return before the last handler has been invoked there, and
// stop() leaves handlers behind, which are to be destroyed, not invoked.
#ifndef SCEN_FTPOOL_HPP
#define SCEN_FTPOOL_HPP
#include "scen/common.hpp"
#include <asio/any_io_executor.hpp>
#include <asio/thread_pool.hpp>
#include <asioext/basic_file.hpp>
#include <asioext/thread_pool_file_service.hpp>
namespace ftp {
using namespace scen;
typedef asio::thread_pool::executor_type PEx;
struct Rec { int id, file; bool wr; uint64_t off; size_t len; unsigned char* buf; int invoked = 0, chain = 0; bool gone = false, threw = false, own = false; asioext::error_code ec; size_t n = 0; };
template <class File> struct World {
  asio::thread_pool* tp = 0; std::vector<File*> files; std::vector<Rec*> ops; int tag = 0; bool stopped = false, dead = false; int slots = 0; uint32_t chains = 0; size_t mark = 0;
};
template <class File> World<File>*& the() { static World<File>* w = 0; return w; }
template <class File> struct H {
  Rec* r; Counted counted;
  explicit H(Rec* x) : r(x) {}
  H(H&& o) noexcept : r(o.r) { o.r = 0; }
  H(const H&) = delete;
  ~H() { Quiet q; if (r && !r->invoked) { if (r->gone) violation("destroyed-twice", "handler %d destroyed twice", r->id); r->gone = true; if (!the<File>()->stopped && !r->threw) violation("handler-lost", "the handler of operation %d was destroyed without being invoked, though its context is neither stopped nor destroyed", r->id); } }
  void operator()(asioext::error_code ec, size_t n);
};
template <class File> struct HEx : H<File> { // with an executor of its own
  using H<File>::H;
  typedef TagEx<PEx> executor_type;
  executor_type get_executor() const noexcept { return TagEx<PEx>(the<File>()->tp->get_executor(), 1000 + this->r->id); }
};
// The last file is only used by one chain of operations, each started by the handler before.
template <class File> void start(int chain)
{
  World<File>* w = the<File>(); Rec* r; bool own; File* f;
  {
    Quiet q; r = raw_new<Rec>(); r->id = (int)w->ops.size(); w->ops.push_back(r); r->file = chain ? (int)w->files.size() - 1 : (int)wl((uint32_t)w->files.size() - 1); r->wr = flip();
    r->off = 64 * (uint64_t)w->slots++; r->len = 1 + wl(64); r->chain = chain; own = r->own = flip(); f = w->files[(size_t)r->file]; ev("start", r->id, r->file, r->wr, own); th().in_init = r;
  }
  r->buf = new unsigned char[r->len]; for (size_t k = 0; k < r->len; ++k) r->buf[k] = r->wr ? (unsigned char)(r->off / 64 + k) : 0xcc;
  try {
    if (r->wr) { if (own) f->async_write_some_at(r->off, asio::buffer(r->buf, r->len), HEx<File>(r)); else f->async_write_some_at(r->off, asio::buffer(r->buf, r->len), H<File>(r)); }
    else { if (own) f->async_read_some_at(r->off, asio::buffer(r->buf, r->len), HEx<File>(r)); else f->async_read_some_at(r->off, asio::buffer(r->buf, r->len), H<File>(r)); }
  } catch (const std::bad_alloc&) { r->threw = true; }
  Quiet q; th().in_init = 0;
}
template <class File> void H<File>::operator()(asioext::error_code ec, size_t n)
{
  World<File>* w = the<File>(); Rec* me = r; int chain;
  {
    Quiet q; ev("handler", me->id, ec.value(), (int64_t)n);
    if (me->invoked++) violation("handler-twice", "the handler of operation %d was invoked twice", me->id);
    if (w->dead) violation("handler-late", "the handler of operation %d was invoked after its context was destroyed", me->id);
    if (th().in_init) violation("handler-inline", "the handler of operation %d was invoked from within an initiating function", me->id);
    if (!w->dead && !w->tp->get_executor().running_in_this_thread()) violation("wrong-executor", "the handler of operation %d was invoked outside of its thread pool", me->id);
    if (me->own ? !has_tag(1000 + me->id) : w->tag && !has_tag(w->tag)) violation("wrong-executor", "the handler of operation %d was not invoked through its executor", me->id);
    me->ec = ec; me->n = n; chain = me->chain; r = 0;
  }
  if (chain > 1) start<File>(chain - 1);
}
template <class File, class MakeEx> void run(MakeEx make, int tag, bool may_stop)
{
  uint64_t am = alloc_mark(); unsigned char content[64 * 64]; int nfiles, nt, n, cancel_at; bool stop;
  World<File>* w;
  {
    Quiet q; race_detector(true); swarm_sched(true); set_fd_base(wl_chance(20) ? 0 : 3); set_umask(022);
    w = the<File>() = raw_new<World<File>>(); w->tag = tag; nfiles = 2 + (int)wl(2); nt = 1 + (int)wl(3); n = 1 + (int)wl(8); w->chains = wl(5);
    stop = may_stop && flip(); cancel_at = wl_chance(30) ? (int)wl((uint32_t)n) : -1;
    for (size_t i = 0; i < sizeof content; ++i) content[i] = (unsigned char)(i * 5 + 1);
    for (int i = 0; i < nfiles; ++i) { char nm[2] = {(char)('a' + i), 0}; mkfile(nm, content, sizeof content); }
    w->mark = nsys();
    swarm_fault(f_eintr, 40); swarm_fault(f_short, 50); swarm_fault(f_eio, 30); swarm_fault(f_enospc, 20); swarm_fault(f_stall, 60);
  }
  w->tp = new asio::thread_pool((size_t)nt);
  for (int i = 0; i < nfiles; ++i) {
    char nm[2] = {(char)('a' + i), 0}; int fd; { Quiet q; fd = kernel_open(nm, O_RDWR, 0); }
    File* f = new File(make(*w->tp), asioext::file_handle(fd)); { Quiet q; w->files.push_back(f); }
  }
  for (int i = 0; i < n; ++i) { if (i == 0 && w->chains) start<File>((int)w->chains); start<File>(0); if (i == cancel_at) { asioext::error_code ec; w->files[0]->cancel(ec); } }
  if (stop) { { Quiet q; w->stopped = true; } w->tp->stop(); }
  w->tp->join();
  uint64_t done = 0, left = 0, aborted = 0;
  {
    Quiet q;
    for (size_t i = 0; i < w->ops.size(); ++i) {
      Rec& o = *w->ops[i]; if (o.threw) continue;
      if (!o.invoked) { ++left; if (!stop) violation("run-returned-early", "thread_pool::join() returned although operation %d is outstanding", o.id); continue; }
      ++done; int err = 0; int64_t ret = 0; bool any = false;
      for (size_t k = w->mark; k < nsys(); ++k) { const SysRec& s = sysrec(k); if (s.off == (int64_t)o.off && s.inode >= 0) { any = true; err = s.err; ret = s.ret; } }
      if (o.ec == asio::error::operation_aborted) { ++aborted; if (cancel_at < 0) violation("aborted", "operation %d was aborted although nothing was cancelled", o.id); if (any || o.n) violation("aborted", "operation %d is reported as aborted although it was executed", o.id); continue; }
      if (!any) violation("no-call", "operation %d completed without a system call", o.id);
      else if (o.ec ? (o.ec.value() != err || o.n) : (err || ret != (int64_t)o.n)) violation("result", "operation %d reports %lu bytes and error %d, the system call %lld and %d", o.id, (unsigned long)o.n, o.ec.value(), (long long)ret, err);
      else if (!o.ec && !o.wr) for (size_t k = 0; k < o.n; ++k) if (o.buf[k] != content[o.off + k]) { violation("result", "operation %d has read other bytes than the file has", o.id); break; }
    }
    w->stopped = true;
  }
  // The files go before their context.
  for (File* f : w->files) delete f;
  delete w->tp; { Quiet q; w->dead = true; }
  for (Rec* r : w->ops) delete[] r->buf;
  {
    Quiet q;
    for (Rec* r : w->ops) { if (!r->threw && r->invoked + r->gone != 1) violation("handler-lost", "the handler of operation %d was invoked %d times and destroyed %d times uninvoked", r->id, r->invoked, (int)r->gone); raw_delete(r); }
    if (done) probe("operations of files on a thread_pool", done); if (left) probe("handlers left behind by stop()", left); if (aborted) probe("aborted", aborted); if (done + left > 1) nontrivial();
    if (open_fd_count()) violation("leak-descriptor", "%d descriptors were never closed", open_fd_count());
    raw_delete(w); the<File>() = 0;
  }
  check_counted("handler objects (moved from, perhaps)");
  LeakInfo li = live_since(am);
  if (li.count) violation("leak", "%lu blocks were never freed", (unsigned long)li.count);
}
inline void files_on_pool(bool may_stop)
{
  typedef asioext::basic_file<asioext::thread_pool_file_service> F0;
  int k; { Quiet q; k = (int)wl(3); }
  if (k == 0) run<F0>([](asio::thread_pool& t) { return F0::executor_type(t.get_executor()); }, 0, may_stop);
  else if (k == 1) run<typename F0::rebind_executor<PEx>::other>([](asio::thread_pool& t) { return t.get_executor(); }, 0, may_stop);
  else run<typename F0::rebind_executor<TagEx<PEx>>::other>([](asio::thread_pool& t) { return TagEx<PEx>(t.get_executor(), 7); }, 7, may_stop);
}
}
#endif
