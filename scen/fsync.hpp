// The file API one call at a time: every kind of file object against a reference model of
// the simulated file system.  The state of the whole file system before a call plus what the
// call is documented to do give the state expected after it; the record of system calls says
// which errors and short transfers were injected.
#ifndef SCEN_FSYNC_HPP
#define SCEN_FSYNC_HPP
#include "scen/common.hpp"
#include <asioext/file.hpp>
#include <asioext/file_handle.hpp>
#include <asioext/unique_file_handle.hpp>
#include <asioext/duplicate.hpp>
#include <asioext/open.hpp>
#include <asioext/standard_streams.hpp>
#include <list>
#include <array>
#include <fcntl.h>
#include <errno.h>
namespace fsw {
using namespace scen;
using asioext::error_code;
typedef std::vector<uint8_t> Bytes;
enum Aspect { a_data = 1, a_err = 2, a_meta = 4 };
inline unsigned g_mask;
#define FS_CHECK(a, cond, sig, ...) do { if ((g_mask & (a)) && !(cond)) violation(sig, __VA_ARGS__); } while (0)

enum OpKind { o_read, o_write, o_read_at, o_write_at, o_position, o_seek, o_size, o_truncate, o_perms, o_set_perms,
  o_attrs, o_set_attrs, o_times, o_set_times, o_close, o_cancel, o_count };
inline const char* const op_names[] = {"read_some", "write_some", "read_some_at", "write_some_at", "position", "seek", "size", "truncate",
  "permissions()", "permissions(perms)", "attributes()", "attributes(attrs)", "times()", "times(times)", "close", "cancel"};

struct Buf { uint8_t* p; size_t n; };
struct Op {
  int kind; bool thr; error_code stale;
  uint64_t off; int64_t soff; int origin; uint64_t size; unsigned perms; int popt; asioext::file_times t;
  std::vector<Buf> b; int seq;   // buffers and the type of sequence they are passed as
  int form;
};
struct Out { bool threw = false, alien = false; error_code ec; uint64_t v = 0; asioext::file_times t; };

template <class B, class F> void with_seq(const Op& op, F f)
{
  switch (op.seq) {
  case 0: f(B(op.b[0].p, op.b[0].n)); break;
  case 1: { std::list<B> l; for (auto& x : op.b) l.push_back(B(x.p, x.n)); f(l); break; }
  case 2: { std::array<B, 3> a{{B(op.b[0].p, op.b[0].n), B(op.b[1].p, op.b[1].n), B(op.b[2].p, op.b[2].n)}}; f(a); break; }
  default: { std::vector<B> v; for (auto& x : op.b) v.push_back(B(x.p, x.n)); f(v); }
  }
}
#define FS_CALL(R, ec_expr, thr_expr) \
  do { \
    try { if (op.thr) R thr_expr; else R ec_expr; } \
    catch (std::system_error& e) { o.threw = true; o.ec = e.code(); } \
    catch (...) { o.threw = o.alien = true; } \
  } while (0)
// Calls the library; no Quiet region is active here.
template <class T> Out call(T& f, const Op& op)
{
  Out o; error_code& ec = o.ec; if (!op.thr) ec = op.stale;
  using asioext::file_perms; using asioext::file_perm_options; using asioext::file_attrs; using asioext::file_attr_options;
  switch (op.kind) {
  case o_read: with_seq<asio::mutable_buffer>(op, [&](const auto& s) { FS_CALL(o.v =, f.read_some(s, ec), f.read_some(s)); }); break;
  case o_write: with_seq<asio::const_buffer>(op, [&](const auto& s) { FS_CALL(o.v =, f.write_some(s, ec), f.write_some(s)); }); break;
  case o_read_at: with_seq<asio::mutable_buffer>(op, [&](const auto& s) { FS_CALL(o.v =, f.read_some_at(op.off, s, ec), f.read_some_at(op.off, s)); }); break;
  case o_write_at: with_seq<asio::const_buffer>(op, [&](const auto& s) { FS_CALL(o.v =, f.write_some_at(op.off, s, ec), f.write_some_at(op.off, s)); }); break;
  case o_position: FS_CALL(o.v =, f.position(ec), f.position()); break;
  case o_seek: FS_CALL(o.v =, f.seek((asioext::seek_origin)op.origin, op.soff, ec), f.seek((asioext::seek_origin)op.origin, op.soff)); break;
  case o_size: FS_CALL(o.v =, f.size(ec), f.size()); break;
  case o_truncate: FS_CALL(, f.truncate(op.size, ec), f.truncate(op.size)); break;
  case o_perms: FS_CALL(o.v = (uint64_t), f.permissions(ec), f.permissions()); break;
  case o_set_perms:
    if (op.popt == 1 && op.form) FS_CALL(, f.permissions((file_perms)op.perms, ec), f.permissions((file_perms)op.perms));
    else FS_CALL(, f.permissions((file_perms)op.perms, (file_perm_options)op.popt, ec), f.permissions((file_perms)op.perms, (file_perm_options)op.popt));
    break;
  case o_attrs: FS_CALL(o.v = (uint64_t), f.attributes(ec), f.attributes()); break;
  case o_set_attrs:
    if (op.popt == 1 && op.form) FS_CALL(, f.attributes((file_attrs)op.perms, ec), f.attributes((file_attrs)op.perms));
    else FS_CALL(, f.attributes((file_attrs)op.perms, (file_attr_options)op.popt, ec), f.attributes((file_attrs)op.perms, (file_attr_options)op.popt));
    break;
  case o_times: FS_CALL(o.t =, f.times(ec), f.times()); break;
  case o_set_times: FS_CALL(, f.times(op.t, ec), f.times(op.t)); break;
  case o_close: FS_CALL(, f.close(ec), f.close()); break;
  case o_cancel:
    if constexpr (requires { f.cancel(); }) FS_CALL(, f.cancel(ec), f.cancel());
    break;
  }
  return o;
}
// ------------------------------------------------------------------ file system snapshots
struct SI { Bytes d; unsigned mode; int64_t t[4]; bool operator==(const SI&) const = default; };
struct Snap { std::vector<SI> ino; std::vector<int64_t> pos; std::vector<int> ofd; };
inline int g_ninodes, g_nfds; // inodes 0..n-1 and descriptors 0..n-1 are watched
inline void take(Snap& s)
{
  s.ino.resize((size_t)g_ninodes); s.pos.resize((size_t)g_nfds); s.ofd.resize((size_t)g_nfds);
  for (int i = 0; i < g_ninodes; ++i) {
    SI& x = s.ino[(size_t)i]; const unsigned char* p = inode_data(i); size_t n = (size_t)inode_size(i);
    x.d.assign(p, p + n); x.mode = inode_mode(i); inode_times(i, &x.t[0], &x.t[1], &x.t[2], &x.t[3]);
  }
  for (int i = 0; i < g_nfds; ++i) { s.ofd[(size_t)i] = ofd_of_fd(i); s.pos[(size_t)i] = fd_offset(i); }
}
// What the calling thread's system calls of one library call did.
struct Calls { int n = 0, fails = 0, err = 0, eintr = 0; bool last_eintr = false; uint64_t shorts = 0; };
inline Calls calls_since(size_t mark)
{
  Calls c; int me = self();
  for (size_t i = mark; i < nsys(); ++i) {
    const SysRec& r = sysrec(i);
    if (r.tid != me) continue;
    c.n++; c.last_eintr = false;
    if (r.ret < 0) { c.fails++; if (r.err == EINTR) { c.eintr++; c.last_eintr = true; } else c.err = r.err; }
    else if ((uint64_t)r.ret < r.len) c.shorts++;
  }
  return c;
}
// The error a call that made these system calls has to report (0: none).
inline int due_error(const Calls& c) { return c.err ? c.err : c.last_eintr ? EINTR : 0; }
inline bool is_sys(const error_code& ec, int e) { return ec.category() == asio::error::get_system_category() && ec.value() == e; }
inline error_code random_stale()
{
  switch (wl(4)) {
  case 0: return error_code();
  case 1: return error_code(ENOENT, std::system_category());
  case 2: return asio::error::eof;
  default: return asio::error::operation_aborted;
  }
}
enum Kind { k_plain, k_unique, k_file };
struct Obj { int kind; asioext::file_handle* h; asioext::unique_file_handle* u; asioext::file* f; int fd; };
inline bool obj_open(Obj& o) { return o.kind == k_plain ? o.h->is_open() : o.kind == k_unique ? o.u->is_open() : o.f->is_open(); }
inline int obj_fd(Obj& o) { return o.kind == k_plain ? o.h->native_handle() : o.kind == k_unique ? o.u->get().native_handle() : o.f->native_handle(); }
inline Out obj_call(Obj& o, const Op& op) { return o.kind == k_plain ? call(*o.h, op) : o.kind == k_unique ? call(*o.u, op) : call(*o.f, op); }

struct Pattern { // memory with buffers in it
  uint8_t* mem = 0; size_t n = 0; Bytes copy;
  std::vector<Buf> make(size_t nbufs, bool big)
  {
    std::vector<Buf> b; std::vector<size_t> len; size_t tot = 8;
    size_t lead = nbufs > 1 && wl_chance(12) ? wl((uint32_t)nbufs + 1) : 0; // a run of empty ones first
    for (size_t i = 0; i < nbufs; ++i) { size_t l = i < lead || wl_chance(20) ? 0 : big ? wl(700) : wl(40); len.push_back(l); tot += l + 3; }
    { Loud l; delete[] mem; mem = new uint8_t[tot]; }
    n = tot; copy.resize(n);
    for (size_t i = 0; i < n; ++i) copy[i] = mem[i] = (uint8_t)wl(256);
    size_t at = 4;
    for (size_t i = 0; i < nbufs; ++i) { b.push_back(Buf{mem + at, len[i]}); at += len[i] + wl(4); }
    return b;
  }
  ~Pattern() { if (mem) { Loud l; delete[] mem; } }
};
inline const char* const names[3] = {"one", "two", "three"};
inline __int128 total_ns(int64_t s, int64_t ns) { return (__int128)s * 1000000000 + ns; }
inline asioext::file_time_type ft(int64_t ns) { return asioext::file_time_type(asioext::file_time_type::duration(ns)); }
inline int64_t rnd_ns()
{
  switch (wl(8)) {
  case 0: return 0;
  case 1: return 1 + wl(2000000000);
  case 2: return -1 - (int64_t)wl(2000000000);
  case 3: return INT64_MAX - wl(3);
  case 4: return INT64_MIN + wl(3);
  case 5: return -(int64_t)wl(2000000000) * 1000000000;
  default: return (int64_t)wl(2000000000) * 1000000000 + wl(1000000000);
  }
}
struct Counts { uint64_t ops = 0, errs = 0, shorts = 0, eintr = 0, eofs = 0; };
inline Counts g_n;

// Times set by somebody else while a call is in progress.
struct Outside { int n = 0, ino = -1; int64_t t[4]; };
inline Outside g_out;
struct World;
inline World* g_world;
struct World {
  std::vector<Obj> objs; asio::io_context* io = 0; Pattern pat; Snap before, after; bool closes;
  void setup(int nobj)
  {
    io = new asio::io_context;
    {
      Quiet q; set_fd_base(wl_chance(20) ? 0 : 3); set_umask(022);
      for (int i = 0; i < 3; ++i) {
        Bytes b(wl_size(600)); for (auto& c : b) c = (uint8_t)wl(256);
        mkfile(names[i], b.data(), b.size(), wl_chance(20) ? 04755 : wl(512));
        if (wl_chance(30)) ext_times(i);
      }
      g_ninodes = 3; g_nfds = 3 + nobj * 2;
    }
    for (int i = 0; i < nobj; ++i) add();
  }
  void ext_times(int ino) // times set by somebody else
  {
    int64_t v[4];
    for (int k = 0; k < 4; k += 2) {
      switch (wl(6)) {
      case 0: v[k] = wl(2000000000); break;
      case 1: v[k] = -(int64_t)wl(2000000000); break;
      case 2: v[k] = 9223372036ll - 1 + wl(3); break;
      case 3: v[k] = -9223372036ll - 2 + wl(4); break;
      case 4: v[k] = -1; break;
      default: v[k] = wl_chance(50) ? (int64_t)1 << 40 : -((int64_t)1 << 40);
      }
      v[k + 1] = wl_chance(30) ? 0 : wl_chance(20) ? 999999999 : wl_chance(20) ? 854775807 : wl_chance(20) ? 145224192 : wl(1000000000);
    }
    inode_set_times(ino, v[0], v[1], v[2], v[3]);
  }
  void add()
  {
    Obj o{}; int share = -1, acc, ino;
    {
      Quiet q; o.kind = (int)wl(3); acc = wl_chance(70) ? O_RDWR : wl(2) ? O_RDONLY : O_WRONLY; ino = (int)wl(3);
      if (!objs.empty() && wl_chance(25)) share = (int)wl((uint32_t)objs.size());
      o.fd = kernel_open(names[ino], acc, 0);
    }
    if (share >= 0 && objs[(size_t)share].fd >= 0) { // the same open file through another descriptor
      { Quiet q; kernel_close(o.fd); }
      asioext::unique_file_handle d = asioext::duplicate(asioext::file_handle(objs[(size_t)share].fd));
      o.fd = d.release().native_handle();
    }
    switch (o.kind) {
    case k_plain: o.h = new asioext::file_handle(o.fd); break;
    case k_unique: o.u = new asioext::unique_file_handle(asioext::file_handle(o.fd)); break;
    case k_file: o.f = new asioext::file(*io, asioext::file_handle(o.fd)); break;
    }
    Quiet q; objs.push_back(o);
  }
  void teardown()
  {
    for (auto& o : objs) { { Quiet q; faults_enabled(false); if (o.kind == k_plain && o.fd >= 0) kernel_close(o.fd); } delete o.h; delete o.u; delete o.f; }
    delete io;
  }
  void gen(Op& op, Obj& o)
  {
    size_t fsz = o.fd >= 0 && inode_of_fd(o.fd) >= 0 ? (size_t)inode_size(inode_of_fd(o.fd)) : 10;
    op.thr = flip(); op.stale = random_stale(); op.form = (int)wl(2);
    bool rw = op.kind <= o_write_at;
    op.seq = (int)wl(5);
    size_t nb = op.seq == 0 ? 1 : op.seq == 2 ? 3 : wl_chance(10) ? 64 : wl_chance(5) ? 65 + wl(20) : wl(6);
    if (rw) op.b = pat.make(nb, wl_chance(20));
    switch (wl(10)) {
    case 0: op.off = 0; break;
    case 1: op.off = fsz; break;
    case 2: op.off = fsz + wl(50); break;
    case 3: op.off = wl_chance(50) ? (uint64_t)INT64_MAX - wl(3) : (uint64_t)1 << 63 | wl(100); break;
    case 4: op.off = (5u << 20) + wl(3); break;
    default: op.off = wl((uint32_t)fsz + 1);
    }
    op.origin = (int)wl(3);
    switch (wl(8)) { case 0: op.soff = -(int64_t)wl(700); break; case 1: op.soff = INT64_MAX; break; case 2: op.soff = INT64_MIN; break; default: op.soff = wl((uint32_t)fsz + 5); }
    switch (wl(8)) { case 0: op.size = 0; break; case 1: op.size = fsz + wl(100); break; case 2: op.size = ~(uint64_t)0 - wl(2); break; case 3: op.size = (uint64_t)1 << 63; break; default: op.size = wl((uint32_t)fsz + 20); }
    op.popt = 1 << wl(3); op.perms = op.kind == o_set_attrs ? wl(512) : wl(512);
    op.t.ctime = ft(rnd_ns()); op.t.atime = ft(rnd_ns()); op.t.mtime = ft(rnd_ns());
  }
  void step(int kind)
  {
    Op op; int oi; size_t mark; int fd, ofd, ino;
    {
      Quiet q; oi = (int)wl((uint32_t)objs.size()); op.kind = kind;
      gen(op, objs[(size_t)oi]); take(before); g_out.n = 0;
      fd = objs[(size_t)oi].fd; ofd = fd >= 0 ? ofd_of_fd(fd) : -1; ino = fd >= 0 ? inode_of_fd(fd) : -1; mark = nsys();
    }
    Obj& ob = objs[(size_t)oi];
    if (kind == o_cancel && ob.kind != k_file) return;
    Out o = obj_call(ob, op);
    bool open_now = obj_open(ob); int fd_now = obj_fd(ob);
    Quiet q;
    take(after);
    Calls c = calls_since(mark);
    const char* nm = op_names[kind]; bool rw = kind <= o_write_at, wr = kind == o_write || kind == o_write_at, at = kind == o_read_at || kind == o_write_at;
    bool err = (bool)o.ec;
    ev(nm, err ? o.ec.value() : 0, (int64_t)o.v, fd, op.thr);
    ++g_n.ops; g_n.errs += c.fails > 0; g_n.shorts += c.shorts; g_n.eintr += (uint64_t)c.eintr;
    // ---- the error
    int64_t old_t[4] = {}; // the times before somebody else changed them
    bool changed = g_out.n > 0;
    if (changed) { SI& x = before.ino[(size_t)g_out.ino]; std::copy(x.t, x.t + 4, old_t); std::copy(g_out.t, g_out.t + 4, x.t); probe("times changed during a call"); nontrivial(); }
    FS_CHECK(a_err, !o.alien, "exception-type", "%s threw something that is no system_error", nm);
    FS_CHECK(a_err, !o.threw || op.thr, "ec-overload-throws", "%s(..., ec) threw", nm);
    FS_CHECK(a_err, !o.threw || err, "throws-success", "%s threw a system_error without an error", nm);
    size_t tot = 0, n64 = 0;
    if (rw) for (auto& b : op.b) if (n64++ < 64) tot += b.n;
    int64_t pos0 = rw ? (at ? (int64_t)op.off : fd >= 0 ? before.pos[(size_t)fd] : 0) : 0;
    int due = due_error(c);
    if (fd < 0) {
      // nothing is open: bad_descriptor, except for close() and where the system is not involved
      bool may = kind == o_close || kind == o_attrs || kind == o_set_attrs;
      if (kind == o_close) FS_CHECK(a_err, !err, "wrong-error", "closing a closed file reports %d", o.ec.value());
      else if (kind == o_set_times && due == 0 && err) {}
      else FS_CHECK(a_err, is_sys(o.ec, EBADF) || (may && !err), "wrong-error", "%s on a closed file reports %s:%d", nm, o.ec.category().name(), o.ec.value());
    } else if (due) {
      // a request the system calls can carry out must not be refused because it was passed on wrongly
      if (due == EINVAL) FS_CHECK(a_err | a_meta, rw ? at && op.off > (uint64_t)INT64_MAX : kind == o_position || kind == o_seek || kind == o_truncate, "refused", "%s was refused with EINVAL", nm);
      FS_CHECK(a_err, is_sys(o.ec, due), "wrong-error", "%s: the system call failed with %d but %s:%d was %s", nm, due, o.ec.category().name(), o.ec.value(), op.thr ? "thrown" : "reported");
    } else if (!rw && kind != o_times && kind != o_set_times) {
      FS_CHECK(a_err, !err, "wrong-error", "%s: every system call succeeded but %s:%d was %s", nm, o.ec.category().name(), o.ec.value(), op.thr ? "thrown" : "reported");
    }
    FS_CHECK(a_err, kind == o_close ? !open_now && fd_now == -1 : fd_now == fd && open_now == (fd >= 0), "state", "after %s the object is %s with handle %d", nm, open_now ? "open" : "closed", fd_now);
    if (kind == o_close && fd >= 0) { FS_CHECK(a_err, !fd_open(fd) || ofd_of_fd(fd) != ofd, "state", "close() did not close"); ob.fd = -1; }
    if (ob.fd < 0 && fd < 0) { resync(false, -1, -1, nm); return; }
    if (kind == o_close) { if (fd >= 0) { before.ofd[(size_t)fd] = -1; before.pos[(size_t)fd] = -1; } }
    // ---- what it did
    if (rw) {
      if (tot) { Bytes& d = before.ino[(size_t)ino].d; g_n.eofs += !wr && (uint64_t)pos0 >= d.size(); }
      data(op, o, c, fd, ofd, ino, tot, pos0, wr, at, nm, due);
      return;
    }
    SI* in = &before.ino[(size_t)ino];
    switch (kind) {
    case o_position: if (!err) FS_CHECK(a_meta, (int64_t)o.v == before.pos[(size_t)fd], "position", "position() returned %lld instead of %lld", (long long)o.v, (long long)before.pos[(size_t)fd]); break;
    case o_seek:
      if (!err) {
        __int128 w = (op.origin == 0 ? 0 : op.origin == 1 ? before.pos[(size_t)fd] : (int64_t)in->d.size()) + (__int128)op.soff;
        FS_CHECK(a_meta, w >= 0 && (__int128)o.v == w, "position", "seek() returned %lld", (long long)o.v);
        set_pos(ofd, (int64_t)w);
      }
      break;
    case o_size: if (!err) FS_CHECK(a_meta, o.v == in->d.size(), "size", "size() returned %lld instead of %lu", (long long)o.v, (unsigned long)in->d.size()); break;
    case o_truncate: if (!err) { FS_CHECK(a_meta, op.size <= (8u << 20), "size", "truncate(%llu) succeeded", (unsigned long long)op.size); if (op.size <= (8u << 20)) in->d.resize((size_t)op.size); } break;
    case o_perms: if (!err) FS_CHECK(a_meta, (o.v & 0777) == (in->mode & 0777), "permissions", "permissions() returned %o instead of %o", (unsigned)o.v, in->mode); break;
    case o_set_perms:
      if (!err) {
        unsigned m = op.perms;
        if (op.popt == 1) in->mode = m | (after.ino[(size_t)ino].mode & 07000); // the special bits are not covered
        else if (op.popt == 2) in->mode |= m;
        else in->mode &= ~m;
      }
      break;
    case o_attrs: break;
    case o_set_attrs: break;
    case o_times: {
      if (changed && !err && o.t.atime.time_since_epoch().count() == (int64_t)total_ns(old_t[0], old_t[1]) && o.t.mtime.time_since_epoch().count() == (int64_t)total_ns(old_t[2], old_t[3])) break;
      if (changed && !due && err) { __int128 a = total_ns(old_t[0], old_t[1]), m = total_ns(old_t[2], old_t[3]); if (a < INT64_MIN || a > INT64_MAX || m < INT64_MIN || m > INT64_MAX) break; }
      __int128 a = total_ns(in->t[0], in->t[1]), m = total_ns(in->t[2], in->t[3]);
      bool fits = a >= INT64_MIN && a <= INT64_MAX && m >= INT64_MIN && m <= INT64_MAX;
      if (!due) FS_CHECK(a_meta | a_err, err == !fits, "times-range", "times() of a file with times %lld.%09lld and %lld.%09lld reports %d", (long long)in->t[0], (long long)in->t[1], (long long)in->t[2], (long long)in->t[3], o.ec.value());
      if (!err) FS_CHECK(a_meta, o.t.atime.time_since_epoch().count() == (int64_t)a && o.t.mtime.time_since_epoch().count() == (int64_t)m, "times", "times() of a file with times %lld.%09lld and %lld.%09lld returned %lld and %lld", (long long)in->t[0], (long long)in->t[1], (long long)in->t[2], (long long)in->t[3], (long long)o.t.atime.time_since_epoch().count(), (long long)o.t.mtime.time_since_epoch().count());
      break; }
    case o_set_times:
      if (!due) FS_CHECK(a_meta | a_err, !err, "times-range", "setting times %lld and %lld reports %d", (long long)op.t.atime.time_since_epoch().count(), (long long)op.t.mtime.time_since_epoch().count(), o.ec.value());
      if (!err) for (int k = 0; k < 2; ++k) {
        int64_t v = (k ? op.t.mtime : op.t.atime).time_since_epoch().count();
        if (!v) continue;
        int64_t s = v / 1000000000, ns = v % 1000000000; if (ns < 0) { ns += 1000000000; --s; }
        SI& now = after.ino[(size_t)ino]; // either of the two may have come first
        if (changed && now.t[2 * k] == g_out.t[2 * k] && now.t[2 * k + 1] == g_out.t[2 * k + 1]) continue;
        in->t[2 * k] = s; in->t[2 * k + 1] = ns;
      }
      break;
    default: break;
    }
    resync(kind != o_close && kind != o_cancel, ino, ofd, nm);
  }
  void set_pos(int ofd, int64_t p) { for (size_t i = 0; i < before.ofd.size(); ++i) if (ofd >= 0 && before.ofd[i] == ofd) before.pos[i] = p; }
  // Compares the file system with the expected one.
  void resync(bool, int ino, int ofd, const char* nm)
  {
    for (size_t i = 0; i < before.ino.size(); ++i) {
      SI &a = before.ino[i], &b = after.ino[i];
      if (a == b) continue;
      unsigned asp = a_meta | a_data | a_err;
      if (a.d != b.d) FS_CHECK(asp, false, "contents", "after %s file %lu%s has %lu bytes that are not the expected %lu bytes", nm, (unsigned long)i, (int)i == ino ? " (the one operated on)" : "", (unsigned long)b.d.size(), (unsigned long)a.d.size());
      else if (a.mode != b.mode) FS_CHECK(asp, false, "permissions", "after %s the mode of file %lu is %o instead of %o", nm, (unsigned long)i, b.mode, a.mode);
      else FS_CHECK(asp, false, "times", "after %s the times of file %lu are %lld.%lld, %lld.%lld instead of %lld.%lld, %lld.%lld", nm, (unsigned long)i, (long long)b.t[0], (long long)b.t[1], (long long)b.t[2], (long long)b.t[3], (long long)a.t[0], (long long)a.t[1], (long long)a.t[2], (long long)a.t[3]);
    }
    for (size_t i = 0; i < before.ofd.size(); ++i) {
      FS_CHECK(a_err | a_meta | a_data, before.ofd[i] == after.ofd[i], "descriptors", "after %s descriptor %lu refers to something else", nm, (unsigned long)i);
      FS_CHECK(a_meta | a_data | a_err, before.pos[i] == after.pos[i] || before.ofd[i] != after.ofd[i], "position", "after %s the position of descriptor %lu is %lld instead of %lld", nm, (unsigned long)i, (long long)after.pos[i], (long long)before.pos[i]);
    }
    (void)ofd;
  }
  void data(Op& op, Out& o, Calls& c, int fd, int ofd, int ino, size_t tot, int64_t pos0, bool wr, bool at, const char* nm, int due)
  {
    Bytes flat, now; size_t k = 0;
    bool same_outside = true;
    { // memory: what lies outside the buffers must be unchanged
      Bytes cur(pat.mem, pat.mem + pat.n);
      std::vector<bool> in(pat.n, false);
      for (auto& b : op.b) { if (k++ >= 64) break; for (size_t i = 0; i < b.n; ++i) { size_t x = (size_t)(b.p - pat.mem) + i; in[x] = true; flat.push_back(pat.copy[x]); now.push_back(cur[x]); } }
      for (size_t i = 0; i < pat.n; ++i) if (!in[i] && cur[i] != pat.copy[i]) same_outside = false;
    }
    SI& fi = before.ino[(size_t)ino]; bool err = (bool)o.ec; uint64_t n = o.threw ? 0 : o.v;
    size_t avail = (uint64_t)pos0 >= fi.d.size() ? 0 : fi.d.size() - (size_t)pos0;
    FS_CHECK(a_data, same_outside, "wrote-outside", "%s changed memory outside the buffers", nm);
    if (due) {
      FS_CHECK(a_data | a_err, is_sys(o.ec, due), "wrong-error", "%s: the system call failed with %d but %s:%d was reported", nm, due, o.ec.category().name(), o.ec.value());
    } else if (!wr && tot && avail == 0) {
      FS_CHECK(a_data | a_err, o.ec == asio::error::eof, "eof", "%s at the end of the file reports %s:%d", nm, o.ec.category().name(), o.ec.value());
    } else {
      FS_CHECK(a_data | a_err, !err, "wrong-error", "%s: the system calls succeeded but %s:%d was %s", nm, o.ec.category().name(), o.ec.value(), o.threw ? "thrown" : "reported");
      FS_CHECK(a_data, n <= tot && (wr || n <= avail), "count", "%s of %lu bytes reports %llu", nm, (unsigned long)tot, (unsigned long long)n);
      FS_CHECK(a_data, n || !tot, "count", "%s of %lu bytes made no progress", nm, (unsigned long)tot);
    }
    if (err) FS_CHECK(a_data, o.v == 0, "count", "%s failed but returned %llu", nm, (unsigned long long)o.v);
    if (err) n = 0;
    if (n > tot || (!wr && n > avail)) return;
    if (wr) {
      FS_CHECK(a_data, flat == now, "buffers", "%s changed the caller's buffers", nm);
      if (n) {
        if (fi.d.size() < (size_t)pos0 + n) fi.d.resize((size_t)pos0 + n);
        for (size_t i = 0; i < n; ++i) fi.d[(size_t)pos0 + i] = flat[i];
      }
    } else {
      bool head = true, tail = true;
      for (size_t i = 0; i < tot; ++i) { if (i < n) { if (now[i] != fi.d[(size_t)pos0 + i]) head = false; } else if (now[i] != flat[i]) tail = false; }
      FS_CHECK(a_data, head, "buffers", "%s delivered bytes that are not those of the file", nm);
      FS_CHECK(a_data, tail, "buffers", "%s changed the buffers beyond the %llu bytes it reports", nm, (unsigned long long)n);
    }
    if (!at && n) set_pos(ofd, pos0 + (int64_t)n);
    (void)fd; (void)c;
    resync(true, ino, ofd, nm);
  }
  void finish()
  {
    Quiet q;
    probe("calls", g_n.ops); if (g_n.errs) probe("calls with failing system calls", g_n.errs); if (g_n.shorts) probe("short transfers", g_n.shorts);
    if (g_n.eintr) probe("interrupted calls", g_n.eintr); if (g_n.eofs) probe("reads at the end", g_n.eofs);
    if (g_n.errs || g_n.shorts) nontrivial();
  }
};
inline void outside_times(int ino)
{
  if (g_out.n++) return;
  Quiet q; g_world->ext_times(ino); g_out.ino = ino;
  inode_times(ino, &g_out.t[0], &g_out.t[1], &g_out.t[2], &g_out.t[3]);
}
inline void sync_run(unsigned mask, const int* kinds, int nk, uint32_t close_pct)
{
  g_mask = mask; World* w; int n;
  {
    Quiet q; w = raw_new<World>(); race_detector(false); swarm_sched(false); n = 5 + (int)wl(60);
    swarm_fault(f_fstat_err, 50); swarm_fault(f_ftruncate_err, 50); swarm_fault(f_lseek_err, 50); swarm_fault(f_fchmod_err, 50);  swarm_fault(f_futimens_err, 50);
    if (mask & (a_data | a_err)) { swarm_fault(f_eintr, 60); swarm_fault(f_short, 70); swarm_fault(f_eio, 40); swarm_fault(f_enospc, 40); swarm_fault(f_close_err, 50); if (wl_chance(15)) set_io_cap(wl(3000)); }
    faults_enabled(false);
  }
  { Quiet q; g_world = w; outside_hook = outside_times; if (mask & a_meta) swarm_fault(f_outside, 60); }
  w->setup(1 + (int)wl(5));
  { Quiet q; faults_enabled(true); }
  for (int i = 0; i < n; ++i) {
    int k; { Quiet q; k = kinds[wl((uint32_t)nk)]; if (k == o_close && !wl_chance(close_pct)) k = kinds[0]; if (wl_chance(3)) w->ext_times((int)wl(3)); }
    w->step(k);
  }
  w->finish(); w->teardown();
  raw_delete(w);
}
} // namespace fsw
#endif
