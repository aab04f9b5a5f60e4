// Files of up to 2^62 bytes and buffers of some GiB: every size and offset has to go through the
// library unharmed. The kernel keeps such files as a function of the offset plus what was written
// to them, and records which memory was transferred from or to which offset.
#pragma once
#include "scen/fsync.hpp"
#include <map>
namespace hg {
using namespace fsw;
struct Model { int64_t size, limit, pos; std::map<int64_t, uint8_t> over;
  uint8_t at(int64_t o) const { if (o >= size) return 0; auto i = over.find(o); return i != over.end() ? i->second : o < limit ? huge_fill(o) : 0; }
  void truncate(int64_t n) { size = n; if (n < limit) limit = n; over.erase(over.lower_bound(n), over.end()); } };
const size_t region_size = 24ull << 30;
inline char* region;
inline bool in_region(const void* p) { return (char*)p >= region && (char*)p < region + region_size; }
inline int64_t rnd_off()
{
  static const int64_t at[] = {0, 1ll << 31, 1ll << 32, 3ll << 32, 0x7ffff000, 1ll << 40, 1ll << 53, (1ll << 62) - 200};
  int64_t b = at[wl(8)]; return b + (b && flip() ? -(int64_t)wl(100) : (int64_t)wl(100));
}
inline size_t rnd_len()
{
  static const size_t at[] = {1ull << 31, 1ull << 32, 0x7ffff000, 5ull << 30, 3ull << 20};
  size_t b = at[wl(5)]; return b - 50 + wl(100);
}
// Buffers: small ones with memory, and sometimes huge ones without.
inline void make_bufs(Op& op, Pattern& pat, bool& huge)
{
  op.seq = wl_chance(30) ? 0 : 3;
  op.b = pat.make(op.seq == 0 ? 1 : 1 + wl(4), false);
  huge = wl_chance(30); size_t used = 0;
  if (huge) for (auto& b : op.b) if (op.b.size() == 1 || flip()) { b.n = rnd_len(); b.p = (decltype(b.p))(region + used); used += b.n + 4096; if (used > region_size - (6ull << 30)) break; }
}
// Which file bytes went where: the transfers since the mark must be [pos, pos + n) of the buffers.
inline void check_segs(size_t mark, const Op& op, int64_t pos, uint64_t n, bool wr, const char* nm)
{
  uint64_t sum = 0, want = 0, start = 0;
  for (auto& b : op.b) { uint64_t m = start >= n ? 0 : std::min<uint64_t>(b.n, n - start); if (in_region(b.p)) want += m; start += b.n; }
  for (size_t i = mark; i < nhugesegs(); ++i) {
    const HugeSeg& g = hugeseg(i);
    if (!in_region(g.p)) continue;
    uint64_t s = 0; bool ok = false; sum += g.n;
    for (auto& b : op.b) { if ((char*)g.p >= (char*)b.p && (char*)g.p + g.n <= (char*)b.p + b.n) ok = g.wr == wr && g.off == pos + (int64_t)(s + (uint64_t)((char*)g.p - (char*)b.p)); s += b.n; }
    if (!ok) { violation("buffers", "%s at %lld transferred %llu bytes from or to offset %lld, which are not those of the buffers", nm, (long long)pos, (unsigned long long)g.n, (long long)g.off); return; }
  }
  if (sum != want) violation("count", "%s reports %llu bytes, but %llu bytes of its large buffers were transferred instead of %llu", nm, (unsigned long long)n, (unsigned long long)sum, (unsigned long long)want);
}
struct Before { size_t segs, mark; Bytes flat; uint64_t tot; };
inline void before(Before& b, const Op& op, Pattern& pat)
{
  b.segs = nhugesegs(); b.mark = nsys(); b.tot = 0; (void)pat;
  for (auto& x : op.b) { b.tot += x.n; if (!in_region(x.p)) b.flat.insert(b.flat.end(), (uint8_t*)x.p, (uint8_t*)x.p + x.n); }
}
// Judges one read or write: n bytes and ec were reported, pos is where it had to happen.
inline void judge_rw(Model& m, const Op& op, const Before& b, error_code ec, uint64_t n, int64_t pos, bool at, int due, int ino, const char* nm)
{
  bool wr = op.kind == o_write || op.kind == o_write_at, toobig = at && op.off > (uint64_t)INT64_MAX;
  if (ec) { if (n) violation("count", "%s failed but reports %llu bytes", nm, (unsigned long long)n); n = 0; }
  uint64_t avail = m.size > pos ? (uint64_t)(m.size - pos) : 0;
  if (due) {
    if (!is_sys(ec, due)) violation("wrong-error", "%s: the system call failed with %d, %d was reported", nm, due, ec.value());
    if (due == EINVAL && !toobig) violation("refused", "%s was refused with EINVAL", nm);
    if (due == EFBIG && pos <= (1ll << 62)) violation("refused", "%s at %lld was refused as being too far", nm, (long long)pos);
  } else if (toobig) {
    if (!ec && b.tot) violation("count", "%s at an offset that does not exist succeeded", nm); return;
  } else if (!wr && b.tot && !avail) { if (ec != asio::error::eof) violation("eof", "%s at the end of the file reports %d", nm, ec.value()); }
  else {
    if (ec) violation("wrong-error", "%s at %lld of a file of %lld bytes reports %d", nm, (long long)pos, (long long)m.size, ec.value());
    else if (n > b.tot || (!wr && n > avail) || (!n && b.tot)) violation("count", "%s of %llu bytes at %lld of a file of %lld bytes reports %llu", nm, (unsigned long long)b.tot, (long long)pos, (long long)m.size, (unsigned long long)n);
  }
  if (n > b.tot || (!wr && n > avail)) return;
  check_segs(b.segs, op, pos, n, wr, nm);
  if (wr && n && m.size < pos + (int64_t)n) m.size = pos + (int64_t)n;
  uint64_t s = 0; size_t f = 0;
  for (auto& x : op.b) {
    if (in_region(x.p)) { s += x.n; continue; }
    for (size_t i = 0; i < x.n; ++i, ++s, ++f) {
      uint8_t now = ((uint8_t*)x.p)[i];
      if (wr) { if (now != b.flat[f]) { violation("buffers", "%s changed the caller's buffers", nm); return; } if (s < n) m.over[pos + (int64_t)s] = now; }
      else if (now != (s < n ? m.at(pos + (int64_t)s) : b.flat[f])) { violation("buffers", s < n ? "%s delivered bytes that are not those of the file" : "%s changed the buffers beyond what it reports", nm); return; }
    }
  }
  if (!at) m.pos = pos + (int64_t)n;
  (void)ino;
}
inline void same_file(const Model& m, int ino, const char* nm, int64_t around)
{
  if (inode_size(ino) != m.size) { violation("size", "after %s the file has %lld bytes instead of %lld", nm, (long long)inode_size(ino), (long long)m.size); return; }
  for (auto& e : m.over) if (huge_byte(ino, e.first) != e.second) { violation("contents", "after %s the byte at %lld is wrong", nm, (long long)e.first); return; }
  for (int64_t o = around > 40 ? around - 40 : 0; o < around + 300; ++o) if (huge_byte(ino, o) != m.at(o)) { violation("contents", "after %s the byte at %lld is wrong", nm, (long long)o); return; }
}
// Synchronous and asynchronous operations on one such file.
inline void huge_run(const int* kinds, int nk, bool async)
{
  Model* m; int fd, ino, n, kind; 
  {
    Quiet q; region = huge_memory(region_size); m = raw_new<Model>(); kind = async ? (int)k_file : (int)wl(3); n = 3 + (int)wl(12);
    set_fd_base(wl_chance(20) ? 0 : 3); set_umask(022); m->pos = 0; m->size = m->limit = rnd_off(); mkhuge("huge", m->size); fd = kernel_open("huge", O_RDWR, 0); ino = inode_of_fd(fd);
    swarm_fault(f_eintr, 60); swarm_fault(f_short, 70); swarm_fault(f_eio, 20); swarm_fault(f_lseek_err, 20); swarm_fault(f_fstat_err, 20); swarm_fault(f_ftruncate_err, 20);
    if (flip()) { m->pos = rnd_off(); fd_seek(fd, m->pos); }
  }
  asio::io_context* io = new asio::io_context; Obj ob{kind, 0, 0, 0, fd};
  if (kind == k_plain) ob.h = new asioext::file_handle(fd); else if (kind == k_unique) ob.u = new asioext::unique_file_handle(fd); else ob.f = new asioext::file(*io, asioext::file_handle(fd));
  Pattern* pat; { Quiet q; pat = raw_new<Pattern>(); }
  uint64_t big = 0, far = 0;
  for (int k = 0; k < n; ++k) {
    Op op; Before b; bool hb = false; int64_t around;
    {
      Quiet q; op.kind = kinds[wl((uint32_t)nk)]; op.thr = flip(); op.stale = random_stale(); op.form = 0;
      op.origin = (int)wl(3); op.off = wl_chance(40) ? (uint64_t)std::max<int64_t>(0, m->size - (int64_t)wl(100)) : (uint64_t)rnd_off(); if (wl_chance(3)) op.off = (uint64_t)INT64_MAX + wl(20);
      op.soff = wl_chance(20) ? -rnd_off() : rnd_off(); op.size = (uint64_t)rnd_off();
      if (op.kind <= o_write_at) make_bufs(op, *pat, hb);
      before(b, op, *pat);
    }
    bool rw = op.kind <= o_write_at, at = op.kind == o_read_at || op.kind == o_write_at; const char* nm = op_names[op.kind];
    Out o; bool called = !async;
    if (!async) o = obj_call(ob, op);
    else {
      auto done = [&](error_code ec, size_t v) { called = true; o.ec = ec; o.v = v; };
      asioext::file& f = *ob.f;
      if (op.kind == o_read) with_seq<asio::mutable_buffer>(op, [&](const auto& s) { f.async_read_some(s, done); });
      else if (op.kind == o_write) with_seq<asio::const_buffer>(op, [&](const auto& s) { f.async_write_some(s, done); });
      else if (op.kind == o_read_at) with_seq<asio::mutable_buffer>(op, [&](const auto& s) { f.async_read_some_at(op.off, s, done); });
      else with_seq<asio::const_buffer>(op, [&](const auto& s) { f.async_write_some_at(op.off, s, done); });
      io->run(); io->restart();
    }
    Quiet q;
    if (!called) { violation("handler-lost", "%s never completed", nm); break; }
    Calls c; int err = 0; bool last_eintr = false; // of any thread: there is one operation at a time
    for (size_t i = b.mark; i < nsys(); ++i) { const SysRec& r = sysrec(i); if (r.inode != ino && r.fd != fd) continue; last_eintr = false; if (r.ret < 0) { if (r.err == EINTR) last_eintr = true; else err = r.err; } }
    int due = err ? err : last_eintr ? EINTR : 0;
    ev(nm, o.ec.value(), (int64_t)o.v, (int64_t)op.off, hb); big += hb; far += rw && (at ? (int64_t)op.off : m->pos) > INT32_MAX;
    around = rw ? at ? (int64_t)op.off : m->pos : m->size;
    if (o.alien) { violation("exception-type", "%s threw something that is no system_error", nm); break; }
    if (rw) judge_rw(*m, op, b, o.ec, o.threw ? 0 : o.v, at ? (int64_t)op.off : m->pos, at, due, ino, nm);
    else {
      __int128 w = op.kind == o_seek ? (op.origin == 0 ? 0 : op.origin == 1 ? m->pos : m->size) + (__int128)op.soff : 0;
      bool must = (op.kind != o_seek || (w >= 0 && w <= INT64_MAX));
      if (due) {
        if (!is_sys(o.ec, due)) violation("wrong-error", "%s: the system call failed with %d, %d was reported", nm, due, o.ec.value());
        bool injected = op.kind == o_truncate || op.kind == o_seek || op.kind == o_position || op.kind == o_size; (void)injected;
      } else if (o.ec) violation("wrong-error", "%s reports %d", nm, o.ec.value());
      else switch (op.kind) {
        case o_position: if ((int64_t)o.v != m->pos) violation("position", "position() returned %lld instead of %lld", (long long)o.v, (long long)m->pos); break;
        case o_size: if ((int64_t)o.v != m->size) violation("size", "size() returned %lld instead of %lld", (long long)o.v, (long long)m->size); break;
        case o_seek: if (!must || (__int128)o.v != w) violation("position", "seek() returned %lld", (long long)o.v); else m->pos = (int64_t)w; break;
        case o_truncate: m->truncate((int64_t)op.size); break;
      }
    }
    if (fd_offset(fd) != m->pos) violation("position", "after %s the position is %lld instead of %lld", nm, (long long)fd_offset(fd), (long long)m->pos);
    same_file(*m, ino, nm, around > 0 && around < (1ll << 62) ? around : 0);
  }
  delete ob.h; delete ob.u; delete ob.f; delete io;
  Quiet q; if (big) probe("transfers of gigabytes", big); if (far) probe("transfers beyond 2^31", far); nontrivial();
}
}
