// Data transfer: single calls and concurrent asynchronous operations against the reference model.
#include "scen/fsync.hpp"
#include "scen/huge.hpp"
#include <asioext/linear_buffer.hpp>
#include <asio.hpp>
using namespace fsw;
SCENARIO_W(F02, sync, 2)
{
  static const int k[] = {o_read, o_write, o_read_at, o_write_at, o_read, o_write, o_read_at, o_write_at, o_seek, o_truncate, o_position};
  sync_run(a_data, k, sizeof k / sizeof *k, 0);
}
// Asynchronous operations. Those in flight together on one file do not overlap unless all of
// them read, and at most one of them uses the position of an open file, so that the outcome
// does not depend on their order.
namespace {
struct AOp { Op op; Pattern pat; int oi; int done = 0; error_code ec; uint64_t n = 0; int64_t pos0; uint64_t first, last; };
struct Handler {
  AOp* a;
  void operator()(error_code ec, std::size_t n) { Quiet q; a->done++; a->ec = ec; a->n = n; }
};
struct AW { std::vector<asioext::file*> f; std::vector<int> fd; asio::io_context* io; std::vector<AOp*> ops; int runners; Snap before, after; };
AW* aw;
void runner(void*) { aw->io->run(); }
void start(AOp& a)
{
  asioext::file& f = *aw->f[(size_t)a.oi]; const Op& op = a.op; Handler h{&a};
  switch (op.kind) {
  case o_read: with_seq<asio::mutable_buffer>(op, [&](const auto& s) { f.async_read_some(s, h); }); break;
  case o_write: with_seq<asio::const_buffer>(op, [&](const auto& s) { f.async_write_some(s, h); }); break;
  case o_read_at: with_seq<asio::mutable_buffer>(op, [&](const auto& s) { f.async_read_some_at(op.off, s, h); }); break;
  default: with_seq<asio::const_buffer>(op, [&](const auto& s) { f.async_write_some_at(op.off, s, h); }); break;
  }
}
void judge()
{
  take(aw->after);
  Snap& b = aw->before; Snap& a = aw->after;
  for (AOp* x : aw->ops) {
    const char* nm = op_names[x->op.kind]; bool wr = x->op.kind == o_write || x->op.kind == o_write_at, at = x->op.kind >= o_read_at;
    int fd = aw->fd[(size_t)x->oi], ino = inode_of_fd(fd);
    if (x->done != 1) violation("completion", "async %s completed %d times", nm, x->done);
    Bytes flat, now; size_t k = 0; std::vector<bool> in(x->pat.n, false);
    for (auto& bf : x->op.b) { if (k++ >= 64) break; for (size_t i = 0; i < bf.n; ++i) { size_t y = (size_t)(bf.p - x->pat.mem) + i; in[y] = true; flat.push_back(x->pat.copy[y]); now.push_back(bf.p[i]); } }
    for (size_t i = 0; i < x->pat.n; ++i) if (!in[i] && x->pat.mem[i] != x->pat.copy[i]) { violation("wrote-outside", "async %s changed memory outside the buffers", nm); break; }
    Bytes old = b.ino[(size_t)ino].d; size_t tot = flat.size();
    size_t avail = (uint64_t)x->pos0 >= old.size() ? 0 : old.size() - (size_t)x->pos0;
    int due = 0; bool eintr_last = false;
    for (size_t i = 0; i < nsys(); ++i) { // the operation's system calls are those on its memory
      const SysRec& r = sysrec(i);
      const uint8_t* rb = (const uint8_t*)r.base;
      if (x->op.b.empty() || !(rb >= x->pat.mem && rb < x->pat.mem + x->pat.n)) continue;
      if (r.ret < 0) { if (r.err != EINTR) { due = r.err; } else eintr_last = true; } else eintr_last = false;
    }
    ++g_n.ops; g_n.errs += due != 0;
    bool err = (bool)x->ec; uint64_t n = x->n;
    ev(nm, err ? x->ec.value() : 0, (int64_t)n, fd);
    if (err && n) violation("count", "async %s failed but reports %llu bytes", nm, (unsigned long long)n);
    if (due) { if (!is_sys(x->ec, due)) violation("wrong-error", "async %s: the system call failed with %d but %s:%d was reported", nm, due, x->ec.category().name(), x->ec.value()); }
    else if (x->op.b.empty() || !tot) { if (n || (err && x->ec.category() != asio::error::get_system_category())) violation("zero-length", "async %s without bytes reports %s:%d and %llu bytes", nm, x->ec.category().name(), x->ec.value(), (unsigned long long)n); }
    else if (!wr && !avail) { if (x->ec != asio::error::eof) violation("eof", "async %s at the end of the file reports %s:%d", nm, x->ec.category().name(), x->ec.value()); g_n.eofs++; }
    else {
      if (err || eintr_last) violation("wrong-error", "async %s: the system calls succeeded but %s:%d was reported", nm, x->ec.category().name(), x->ec.value());
      if (n > tot || (!wr && n > avail) || (!n && tot)) violation("count", "async %s of %lu bytes reports %llu", nm, (unsigned long)tot, (unsigned long long)n);
      g_n.shorts += n < tot;
    }
    if (err) n = 0;
    if (wr) {
      if (flat != now) violation("buffers", "async %s changed the caller's buffers", nm);
      Bytes& d = b.ino[(size_t)ino].d;
      // operations that ran together do not overlap: apply to the expectation in any order
      if (n) { if (d.size() < (size_t)x->pos0 + n) d.resize((size_t)x->pos0 + n); for (size_t i = 0; i < n; ++i) d[(size_t)x->pos0 + i] = flat[i]; }
    } else for (size_t i = 0; i < tot; ++i) {
      if (i < n ? now[i] != old[(size_t)x->pos0 + i] : now[i] != flat[i]) { violation("buffers", i < n ? "async %s delivered bytes that are not those of the file" : "async %s changed the buffers beyond the bytes it reports", nm); break; }
    }
    if (!at && n) for (size_t i = 0; i < b.ofd.size(); ++i) if (b.ofd[i] == b.ofd[(size_t)fd]) b.pos[i] = x->pos0 + (int64_t)n;
  }
  for (size_t i = 0; i < b.ino.size(); ++i) if (!(a.ino[i] == b.ino[i])) violation("contents", "file %lu does not hold what the completed operations amount to", (unsigned long)i);
  for (size_t i = 0; i < b.pos.size(); ++i) if (a.pos[i] != b.pos[i] || a.ofd[i] != b.ofd[i]) violation("position", "the position of descriptor %lu is %lld instead of %lld", (unsigned long)i, (long long)a.pos[i], (long long)b.pos[i]);
}
}
SCENARIO_W(F02, async, 3)
{
  int nf, rounds; g_mask = a_data;
  {
    Quiet q; aw = raw_new<AW>(); race_detector(true); swarm_sched(true); nf = 1 + (int)wl(3); rounds = 1 + (int)wl(3); aw->runners = 1 + (int)wl(2);
    set_fd_base(wl_chance(20) ? 0 : 3); set_umask(022);
    for (int i = 0; i < 3; ++i) { Bytes b(100 + wl(500)); for (auto& c : b) c = (uint8_t)wl(256); mkfile(names[i], b.data(), b.size()); }
    g_ninodes = 3; g_nfds = 3 + nf;
    swarm_fault(f_eintr, 60); swarm_fault(f_short, 70); swarm_fault(f_eio, 30); swarm_fault(f_enospc, 30); swarm_fault(f_stall, 30);
  }
  aw->io = new asio::io_context;
  for (int i = 0; i < nf; ++i) {
    int fd, ino; { Quiet q; ino = (int)wl(3); fd = kernel_open(names[ino], O_RDWR, 0); aw->fd.push_back(fd); }
    asioext::file* f = new asioext::file(*aw->io, asioext::file_handle(fd));
    Quiet q; aw->f.push_back(f);
  }
  for (int r = 0; r < rounds; ++r) {
    int n;
    {
      Quiet q; n = 1 + (int)wl(5); take(aw->before);
      std::vector<bool> posused(3 + (size_t)nf, false);
      for (int i = 0; i < n; ++i) {
        AOp* a = raw_new<AOp>(); a->oi = (int)wl((uint32_t)nf); Op& op = a->op; int fd = aw->fd[(size_t)a->oi], ino = inode_of_fd(fd);
        op.kind = (int)wl(4); op.seq = (int)wl(5);
        op.b = a->pat.make(op.seq == 0 ? 1 : op.seq == 2 ? 3 : wl(5), wl_chance(10));
        bool at = op.kind >= o_read_at;
        if (!at && posused[(size_t)fd]) { op.kind += 2; at = true; }
        op.off = wl_chance(10) ? wl(900) : wl((uint32_t)aw->before.ino[(size_t)ino].d.size() + 1);
        size_t tot = 0; for (auto& b : op.b) tot += b.n;
        a->pos0 = at ? (int64_t)op.off : aw->before.pos[(size_t)fd]; a->first = (uint64_t)a->pos0; a->last = a->first + tot;
        bool wr = op.kind == o_write || op.kind == o_write_at, clash = false;
        for (AOp* o : aw->ops) {
          if (inode_of_fd(aw->fd[(size_t)o->oi]) != ino) continue;
          bool owr = o->op.kind == o_write || o->op.kind == o_write_at;
          uint64_t sz = aw->before.ino[(size_t)ino].d.size();
          // growing a file is seen by every reader of its end
          if (wr != owr && ((wr ? a->last : o->last) > sz)) clash = true;
          if ((wr || owr) && a->first < o->last && o->first < a->last) clash = true;
        }
        if (clash) { { Loud l; } raw_delete(a); continue; }
        if (!at) posused[(size_t)fd] = true;
        aw->ops.push_back(a);
      }
    }
    for (AOp* a : aw->ops) start(*a);
    std::vector<pthread_t> t; for (int i = 1; i < aw->runners; ++i) t.push_back(go(runner, 0));
    aw->io->run();
    for (auto x : t) join(x);
    aw->io->restart();
    Quiet q; judge();
    for (AOp* a : aw->ops) { raw_delete(a); } aw->ops.clear();
  }
  { Quiet q; faults_enabled(false); probe("async operations", g_n.ops); if (g_n.errs) probe("failed operations", g_n.errs); if (g_n.shorts) probe("short transfers", g_n.shorts); if (g_n.eofs) probe("reads at the end", g_n.eofs); if (g_n.errs || g_n.shorts || rounds > 1) nontrivial(); }
  for (auto f : aw->f) delete f;
  delete aw->io;
}
// Whole transfers that Asio composes from the file's operations, synchronously and not, and
// reading to the end through a dynamic buffer.
namespace {
struct CH { // a handler with its own executor and allocator
  typedef asio::strand<asio::io_context::executor_type> executor_type; typedef std::allocator<char> allocator_type;
  AOp* a; executor_type ex;
  executor_type get_executor() const noexcept { return ex; }
  allocator_type get_allocator() const noexcept { return allocator_type(); }
  void operator()(error_code ec, std::size_t n) { if (!ex.running_in_this_thread()) violation("wrong-executor", "the handler of a composed transfer runs outside of its executor"); Quiet q; a->done++; a->ec = ec; a->n = n; }
};
template <class F> void transfer(F& f, AOp& a, asioext::linear_buffer& lb, size_t extra)
{
  const Op& op = a.op; error_code ec = op.stale; size_t n = 0;
  switch (op.kind) {
  case o_read: with_seq<asio::mutable_buffer>(op, [&](const auto& s) { n = asio::read(f, s, ec); }); break;
  case o_write: with_seq<asio::const_buffer>(op, [&](const auto& s) { n = asio::write(f, s, ec); }); break;
  case o_read_at: with_seq<asio::mutable_buffer>(op, [&](const auto& s) { n = asio::read_at(f, op.off, s, ec); }); break;
  case o_write_at: with_seq<asio::const_buffer>(op, [&](const auto& s) { n = asio::write_at(f, op.off, s, ec); }); break;
  default: n = asio::read(f, asioext::dynamic_linear_buffer(lb, lb.size() + extra), ec);
  }
  Quiet q; a.done = 1; a.ec = ec; a.n = n;
}
void async_transfer(asioext::file& f, AOp& a, asioext::linear_buffer& lb, size_t extra, bool own, const CH::executor_type& ex)
{
  const Op& op = a.op;
  auto go = [&](auto h) {
    switch (op.kind) {
    case o_read: with_seq<asio::mutable_buffer>(op, [&](const auto& s) { asio::async_read(f, s, h); }); break;
    case o_write: with_seq<asio::const_buffer>(op, [&](const auto& s) { asio::async_write(f, s, h); }); break;
    case o_read_at: with_seq<asio::mutable_buffer>(op, [&](const auto& s) { asio::async_read_at(f, op.off, s, h); }); break;
    case o_write_at: with_seq<asio::const_buffer>(op, [&](const auto& s) { asio::async_write_at(f, op.off, s, h); }); break;
    default: asio::async_read(f, asioext::dynamic_linear_buffer(lb, lb.size() + extra), h);
    }
  };
  if (own) go(CH{&a, ex}); else go(Handler{&a});
}
}
SCENARIO_W(F02, composed, 2)
{
  int rounds, obj, fd; Snap before, after; uint64_t parts = 0, whole = 0;
  g_mask = a_data;
  {
    Quiet q; aw = raw_new<AW>(); race_detector(true); swarm_sched(true); rounds = 1 + (int)wl(5); obj = (int)wl(3); aw->runners = 1 + (int)wl(2);
    set_fd_base(wl_chance(20) ? 0 : 3); set_umask(022);
    for (int i = 0; i < 3; ++i) { Bytes b(100 + wl(500)); for (auto& c : b) c = (uint8_t)wl(256); mkfile(names[i], b.data(), b.size()); }
    g_ninodes = 3; g_nfds = 4;
    swarm_fault(f_eintr, 60); swarm_fault(f_short, 70); swarm_fault(f_eio, 20); swarm_fault(f_enospc, 20); swarm_fault(f_stall, 30);
    fd = kernel_open(names[0], O_RDWR, 0);
  }
  aw->io = new asio::io_context;
  auto* strand = new asio::strand<asio::io_context::executor_type>(aw->io->get_executor()); auto& ex = *strand;
  asioext::file_handle h(fd); asioext::unique_file_handle u; auto* file = obj == 2 ? new asioext::file(*aw->io, h) : new asioext::file(*aw->io); auto& f = *file;
  if (obj == 1) u = asioext::unique_file_handle(h);
  for (int r = 0; r < rounds; ++r) {
    AOp* a; bool async, own; size_t mark, extra, had = 0;
    {
      Quiet q; a = raw_new<AOp>(); Op& op = a->op; take(before);
      async = obj == 2 && wl_chance(70); own = flip(); op.kind = (int)wl(5); op.seq = (int)wl(5); op.stale = random_stale(); op.thr = false;
      op.b = a->pat.make(op.seq == 0 ? 1 : op.seq == 2 ? 3 : wl_chance(5) ? 70 : wl(5), wl_chance(40));
      size_t sz = before.ino[0].d.size(); op.off = wl_chance(10) ? sz + wl(50) : wl((uint32_t)sz + 1); if (op.kind < 2 || op.kind == 4) { int64_t p = wl_chance(70) ? (int64_t)wl((uint32_t)sz + 1) : -1; if (p >= 0) { fd_seek(fd, p); before.pos[(size_t)fd] = p; } }
      a->pos0 = op.kind == o_read_at || op.kind == o_write_at ? (int64_t)op.off : before.pos[(size_t)fd]; extra = wl_chance(70) ? 1u << 20 : wl(300);
      mark = nsys(); ev("transfer", op.kind, async, obj);
    }
    asioext::linear_buffer lb; uint8_t old[5] = {1, 2, 3, 4, 5}; bool pre; { Quiet q; pre = flip(); } if (pre) lb.append(old, had = 5);
    if (async) {
      async_transfer(f, *a, lb, extra, own, ex);
      { Quiet q; if (a->done) violation("inline", "a composed transfer completed inside its initiating call"); }
      std::vector<pthread_t> t; for (int i = 1; i < aw->runners; ++i) t.push_back(go(runner, 0));
      aw->io->run();
      for (auto x : t) join(x);
      aw->io->restart();
    } else if (obj == 0) transfer(h, *a, lb, extra); else if (obj == 1) transfer(u, *a, lb, extra); else transfer(f, *a, lb, extra);
    Bytes flat, now; size_t lbn = lb.size(); for (size_t i = 0; i < lbn; ++i) { uint8_t c = lb[i]; Quiet q; now.push_back(c); }
    Quiet q;
    const Op& op = a->op; bool wr = op.kind == o_write || op.kind == o_write_at, at = op.kind == o_read_at || op.kind == o_write_at, dyn = op.kind == 4;
    static const char* const nm5[] = {"read", "write", "read_at", "write_at", "read into a dynamic buffer"}; const char* nm = nm5[op.kind];
    int due = 0; uint64_t moved = 0; bool zero = false;
    for (size_t i = mark; i < nsys(); ++i) { const SysRec& s = sysrec(i); if (!strstr(s.name, "read") && !strstr(s.name, "write")) continue; if (s.ret < 0) { if (s.err != EINTR) due = s.err; } else { moved += (uint64_t)s.ret; if (s.ret && (uint64_t)s.ret < s.len) parts++; if (!s.ret && s.len) zero = true; } }
    if (a->done != 1) violation("completion", "a composed %s completed %d times", nm, a->done);
    std::vector<bool> in(a->pat.n, false); Bytes got;
    for (auto& b : op.b) for (size_t i = 0; i < b.n; ++i) { size_t y = (size_t)(b.p - a->pat.mem) + i; in[y] = true; flat.push_back(a->pat.copy[y]); got.push_back(b.p[i]); }
    for (size_t i = 0; i < a->pat.n; ++i) if ((dyn || wr || !in[i]) && a->pat.mem[i] != a->pat.copy[i]) { violation("wrote-outside", "a composed %s changed memory it should not", nm); break; }
    Bytes& d = before.ino[0].d; size_t avail = (uint64_t)a->pos0 >= d.size() ? 0 : d.size() - (size_t)a->pos0;
    size_t tot = dyn ? extra : flat.size(), n = a->n;
    if (n != moved) violation("count", "a composed %s reports %lu bytes, its system calls moved %llu", nm, (unsigned long)n, (unsigned long long)moved);
    if (n > tot || (!wr && n > avail)) violation("count", "a composed %s of %lu bytes reports %lu", nm, (unsigned long)tot, (unsigned long)n);
    ++g_n.ops;
    if (due) { g_n.errs++; if (!is_sys(a->ec, due)) violation("wrong-error", "a composed %s met error %d but reports %s:%d", nm, due, a->ec.category().name(), a->ec.value()); }
    else if (zero) { g_n.eofs++; if (a->ec != asio::error::eof || n != avail) violation("eof", "a composed %s met the end of the file but reports %s:%d and %lu of %lu bytes", nm, a->ec.category().name(), a->ec.value(), (unsigned long)n, (unsigned long)avail); }
    else { whole++; if (a->ec || n != tot) violation("wrong-error", "a composed %s met no error but reports %s:%d and %lu of %lu bytes", nm, a->ec.category().name(), a->ec.value(), (unsigned long)n, (unsigned long)tot); }
    if (n > tot) n = tot;
    if (wr) { if (n) { if (d.size() < (size_t)a->pos0 + n) d.resize((size_t)a->pos0 + n); std::copy(flat.begin(), flat.begin() + (long)n, d.begin() + (long)a->pos0); } }
    else if (dyn) {
      if (lbn != had + n) violation("buffers", "a composed %s of %lu bytes leaves %lu in the buffer", nm, (unsigned long)n, (unsigned long)(lbn - had));
      else for (size_t i = 0; i < lbn; ++i) if (now[i] != (i < had ? (uint8_t)(i + 1) : d[(size_t)a->pos0 + i - had])) { violation("buffers", "a composed %s delivered bytes that are not those of the file", nm); break; }
    } else for (size_t i = 0; i < tot; ++i) if (got[i] != (i < n ? d[(size_t)a->pos0 + i] : flat[i])) { violation("buffers", i < n ? "a composed %s delivered bytes that are not those of the file" : "a composed %s changed the buffers beyond the bytes it reports", nm); break; }
    if (!at) before.pos[(size_t)fd] = a->pos0 + (int64_t)n;
    take(after);
    if (!(after.ino[0] == before.ino[0])) violation("contents", "the file does not hold what a composed %s amounts to", nm);
    if (after.pos[(size_t)fd] != before.pos[(size_t)fd]) violation("position", "a composed %s leaves the position at %lld instead of %lld", nm, (long long)after.pos[(size_t)fd], (long long)before.pos[(size_t)fd]);
    ev("transferred", a->ec.value(), (int64_t)n);
    raw_delete(a);
  }
  { Quiet q; faults_enabled(false); probe("composed transfers", g_n.ops); if (parts) { probe("partial system calls", parts); nontrivial(); } if (g_n.errs) { probe("failed transfers", g_n.errs); nontrivial(); } if (g_n.eofs) probe("transfers that met the end", g_n.eofs); if (whole) probe("whole transfers", whole); if (!obj) kernel_close(fd); }
  { asioext::unique_file_handle x(std::move(u)); } delete file; delete strand; delete aw->io;
}

SCENARIO_W(F02, huge, 1) { static const int k[] = {o_read, o_write, o_read_at, o_write_at, o_truncate, o_seek}; bool as; { Quiet q; as = wl_chance(30); } hg::huge_run(k, as ? 4 : 6, as); }
