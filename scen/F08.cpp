// Whole-file transfers: read_file and write_file of every kind against a reference copy of
// the file system, with short, interrupted and failing calls, files shrinking meanwhile, full
// disks and containers whose memory runs out.
#include "scen/fsync.hpp"
#include <asioext/read_file.hpp>
#include <asioext/write_file.hpp>
#include <asioext/linear_buffer.hpp>
#include <string>
using namespace fsw;
namespace {
struct Small : std::vector<char> { size_type max_size() const { return 300; } };
struct Res { error_code ec; bool threw = false, alien = false, nomem = false, toolong = false; size_t mark; };
// What happened inside the calls: the first error other than an interruption that was not
// a close of a file only read, and whether a read met the end.
struct Seen { int err = 0; bool eof = false, shrunk = false; int shorts = 0, eintr = 0; };
Seen seen(size_t mark, bool rd)
{
  Seen r; int me = self();
  for (size_t i = mark; i < nsys(); ++i) {
    const SysRec& s = sysrec(i); if (s.tid != me) continue;
    bool closing = !strcmp(s.name, "close");
    if (s.ret < 0 && s.err == EINTR && !closing) { r.eintr++; continue; }
    if (closing && rd) continue;
    if (s.ret < 0) { if (!r.err) r.err = s.err ? s.err : -1; continue; }
    bool io = strstr(s.name, "read") || strstr(s.name, "write");
    if (io && s.ret == 0 && s.len) r.eof = true; else if (io && (uint64_t)s.ret < s.len) r.shorts++;
  }
  return r;
}
template <class A, class B> Res invoke(bool thr, A f, B g)
{
  Res r;
  { Quiet q; if (!thr) r.ec = random_stale(); r.mark = nsys(); }
  try { if (thr) g(); else f(r.ec); }
  catch (std::system_error& e) { r.threw = true; r.ec = e.code(); }
  catch (std::bad_alloc&) { r.threw = r.nomem = true; }
  catch (std::length_error&) { r.threw = r.toolong = true; }
  catch (...) { r.threw = r.alien = true; }
  return r;
}
struct St { Bytes ref[4]; int64_t ino[4]; uint64_t n = 0, ok = 0, bad = 0, shorts = 0, eintr = 0, nomem = 0, shrunk = 0; } *st;
const char* const paths[] = {"one", "two", "three", "four", "missing/file", "absent"};

void judge_common(const char* nm, bool thr, const Res& r, const Seen& s, int fds)
{
  if (r.alien) violation("exception-type", "%s threw something unknown", nm);
  if (r.threw && !thr && !r.nomem && !r.toolong) violation("ec-overload-throws", "%s(..., ec) threw", nm);
  if (r.threw && !r.nomem && !r.toolong && !r.ec) violation("throws-success", "%s threw a system_error without an error", nm);
  if (open_fd_count() != fds) violation("left-open", "%s left %d descriptors open", nm, open_fd_count() - fds);
  ++st->n; st->shorts += (uint64_t)s.shorts; st->eintr += (uint64_t)s.eintr; st->nomem += r.nomem;
  ev(nm, r.ec.value(), r.nomem, s.err);
}
Bytes contents(int64_t ino) { const unsigned char* p = inode_data((int)ino); return Bytes(p, p + inode_size((int)ino)); }

// Compares every file with its reference; file `may` may only have become shorter (by the
// simulated other process), file `any` may hold anything.
void check_files(const char* nm, int may, int any)
{
  for (int i = 0; i < 4; ++i) {
    Bytes c = contents(st->ino[i]);
    if (i == may && c.size() < st->ref[i].size()) { st->shrunk++; st->ref[i].resize(c.size()); }
    if (i != any && c != st->ref[i]) violation("contents", "%s changed file %s", nm, paths[i]);
    st->ref[i] = c;
  }
}
template <class C> void read_container(const char* nm, bool thr, int how, int pi, bool af, const Bytes& old)
{
  C c; for (uint8_t b : old) { c.resize(c.size() + 1); c[c.size() - 1] = (typename C::value_type)b; }
  boost::filesystem::path p(paths[pi]); int fd = -1; size_t size0;
  { Quiet q; if (how == 2) fd = kernel_open(paths[pi], O_RDWR, 0); size0 = pi < 4 ? st->ref[pi].size() : 0; }
  int fds = open_fd_count();
  Res r;
  auto go = [&] {
    return invoke(thr, [&](error_code& ec) { if (how == 0) asioext::read_file(paths[pi], c, ec); else if (how == 1) asioext::read_file(p, c, ec); else asioext::read_file(asioext::file_handle(fd), c, ec); },
      [&] { if (how == 0) asioext::read_file(paths[pi], c); else if (how == 1) asioext::read_file(p, c); else asioext::read_file(asioext::file_handle(fd), c); });
  };
  if (af) { AllocFaults a; r = go(); } else r = go();
  size_t n = c.size(); bool same = true;
  {
    Quiet q;
    Seen s = seen(r.mark, true);
    judge_common(nm, thr, r, s, fds);
    bool ok = !r.ec && !r.threw;
    if (ok) {
      ++st->ok;
      if (s.err) violation("hidden-error", "%s succeeded although a system call failed with %d", nm, s.err);
      Bytes cur = pi < 4 ? contents(st->ino[pi]) : Bytes(); Bytes& f = st->ref[pi];
      // a file that became shorter meanwhile: an error, or exactly what it holds now
      bool trimmed = cur.size() < size0 && n == cur.size();
      if (n > c.max_size()) violation("size", "%s put %lu bytes into a container for %lu", nm, (unsigned long)n, (unsigned long)c.max_size());
      if (s.eof && !trimmed) violation("hidden-error", "%s succeeded although the file ended early", nm);
      if (pi >= 4) violation("hidden-error", "%s of a missing file succeeded", nm);
      // nothing else changes the file but the truncation that may come with a read
      if (n != size0 && !trimmed) violation("size", "%s of %lu bytes left %lu bytes in the container", nm, (unsigned long)size0, (unsigned long)n);
      for (size_t i = 0; i < n && i < f.size(); ++i) if ((uint8_t)c[i] != f[i]) same = false;
      if (!same) violation("container", "%s delivered bytes that are not those of the file", nm);
      if (how == 2 && !trimmed && fd_offset(fd) != (int64_t)size0) violation("position", "%s left the file position at %lld", nm, (long long)fd_offset(fd));
    } else {
      ++st->bad;
      bool big = size0 > c.max_size(), shrunk = pi < 4 && contents(st->ino[pi]).size() < size0;
      if (!s.err && !(s.eof && shrunk) && !r.nomem && !r.toolong && !big) violation("spurious-error", "%s failed with %s:%d although no call failed", nm, r.ec.category().name(), r.ec.value());
      if (r.toolong && !big) violation("spurious-error", "%s threw length_error", nm);
    }
    check_files(nm, pi, -1);
    if (fd >= 0) { if (!fd_open(fd)) violation("left-open", "%s closed the caller's handle", nm); kernel_close(fd); }
  }
}
void read_bufs(const char* nm, bool thr, int how, int pi, Op& op, Pattern& pat, uint64_t at)
{
  boost::filesystem::path p(paths[pi]); int fd = -1;
  { Quiet q; if (how == 2) { fd = kernel_open(paths[pi], O_RDWR, 0); if (fd >= 0) fd_seek(fd, (int64_t)at); } else at = 0; }
  int fds = open_fd_count();
  Res r;
  with_seq<asio::mutable_buffer>(op, [&](const auto& b) {
    r = invoke(thr, [&](error_code& ec) { if (how == 0) asioext::read_file(paths[pi], b, ec); else if (how == 1) asioext::read_file(p, b, ec); else asioext::read_file(asioext::file_handle(fd), b, ec); },
      [&] { if (how == 0) asioext::read_file(paths[pi], b); else if (how == 1) asioext::read_file(p, b); else asioext::read_file(asioext::file_handle(fd), b); });
  });
  Quiet q;
  Seen s = seen(r.mark, true);
  judge_common(nm, thr, r, s, fds);
  std::vector<bool> in(pat.n, false); Bytes got; size_t tot = 0;
  for (auto& b : op.b) { tot += b.n; for (size_t i = 0; i < b.n; ++i) { in[(size_t)(b.p - pat.mem) + i] = true; got.push_back(b.p[i]); } }
  for (size_t i = 0; i < pat.n; ++i) if (!in[i] && pat.mem[i] != pat.copy[i]) violation("wrote-outside", "%s changed memory outside the buffers", nm);
  Bytes f = pi < 4 ? st->ref[pi] : Bytes();
  if (!r.ec && !r.threw) {
    ++st->ok;
    if (s.err) violation("hidden-error", "%s succeeded although a system call failed with %d", nm, s.err);
    if (pi >= 4 && how != 2) violation("hidden-error", "%s of a missing file succeeded", nm);
    if (pi >= 4 && tot) violation("hidden-error", "%s of a closed handle succeeded", nm);
    if (tot && at + tot > f.size()) violation("hidden-error", "%s of %lu bytes succeeded although the file has only %lu", nm, (unsigned long)tot, (unsigned long)f.size());
    else for (size_t i = 0; i < tot; ++i) if (got[i] != f[at + i]) violation("buffers", "%s delivered bytes that are not those of the file", nm);
    if (fd >= 0 && fd_offset(fd) != (int64_t)(at + tot)) violation("position", "%s left the file position at %lld", nm, (long long)fd_offset(fd));
  } else {
    ++st->bad;
    if (!s.err && !s.eof && !(at + tot > f.size())) violation("spurious-error", "%s failed with %s:%d although no call failed", nm, r.ec.category().name(), r.ec.value());
  }
  check_files(nm, pi, -1);
  if (fd >= 0) { if (!fd_open(fd)) violation("left-open", "%s closed the caller's handle", nm); kernel_close(fd); }
}
void write_bufs(const char* nm, bool thr, int how, int pi, Op& op, Pattern& pat)
{
  boost::filesystem::path p(paths[pi]);
  int fds = open_fd_count();
  Res r;
  with_seq<asio::const_buffer>(op, [&](const auto& b) {
    r = invoke(thr, [&](error_code& ec) { if (how == 0) asioext::write_file(paths[pi], b, ec); else asioext::write_file(p, b, ec); },
      [&] { if (how == 0) asioext::write_file(paths[pi], b); else asioext::write_file(p, b); });
  });
  Quiet q;
  Seen s = seen(r.mark, false);
  judge_common(nm, thr, r, s, fds);
  for (size_t i = 0; i < pat.n; ++i) if (pat.mem[i] != pat.copy[i]) violation("wrote-outside", "%s changed the caller's memory", nm);
  Bytes want; for (auto& b : op.b) want.insert(want.end(), b.p, b.p + b.n);
  if (!r.ec && !r.threw) {
    ++st->ok;
    if (s.err) violation("hidden-error", "%s succeeded although a system call failed with %d", nm, s.err);
    if (pi == 4) violation("hidden-error", "%s into a missing directory succeeded", nm);
    if (pi < 4) st->ref[pi] = want;
    else if (pi == 5) {
      int64_t ino = inode_of_path(paths[5]);
      if (ino < 0) violation("contents", "%s succeeded without creating the file", nm);
      else if (contents(ino) != want) violation("contents", "%s succeeded but the new file has %lu bytes that are not the %lu bytes written", nm, (unsigned long)contents(ino).size(), (unsigned long)want.size());
    }
    check_files(nm, -1, -1);
  } else {
    ++st->bad;
    if (!s.err) violation("spurious-error", "%s failed with %s:%d although no call failed", nm, r.ec.category().name(), r.ec.value());
    check_files(nm, -1, pi);
  }
  if (exists(paths[5])) rmfile(paths[5]);
}
}
SCENARIO_W(F08, transfers, 9)
{
  int n; Pattern* pat;
  {
    Quiet q; st = raw_new<St>(); pat = raw_new<Pattern>(); race_detector(false); swarm_sched(false); n = 2 + (int)wl(16);
    set_fd_base(wl_chance(20) ? 0 : 3); set_umask(022);
    bool big = wl_chance(6);
    for (int i = 0; i < 4; ++i) {
      Bytes b(wl_size(big && i == 0 ? 300000 : 900));
      uint32_t x = wl(65536) + 1;
      for (auto& c : b) { x = x * 1664525u + 1013904223u; c = (uint8_t)(x >> 24); }
      mkfile(paths[i], b.data(), b.size()); st->ref[i] = b; st->ino[i] = inode_of_path(paths[i]);
    }
    if (big) n = 1 + (int)wl(4);
    swarm_fault(f_eintr, 50); swarm_fault(f_short, 60); swarm_fault(f_eio, 35); swarm_fault(f_enospc, 35); swarm_fault(f_close_err, 40);
    swarm_fault(f_fstat_err, 30); swarm_fault(f_open_err, 30); swarm_fault(f_emfile, 20); swarm_fault(f_enfile, 20); swarm_fault(f_alloc, 30);
    swarm_fault(f_shrink, 25); swarm_fault(f_lseek_err, 20); swarm_fault(f_ftruncate_err, 20);
    if (wl_chance(10)) set_io_cap(wl(4000));
  }
  for (int i = 0; i < n; ++i) {
    int k, how, pi, type; bool thr, af; Op op; Bytes old; uint64_t at = 0; size_t fsz;
    {
      Quiet q; k = (int)wl(3); pi = wl_chance(85) ? (int)wl(4) : 4 + (int)wl(2); thr = flip(); type = (int)wl(5); af = wl_chance(40); op.seq = (int)wl(5); how = (int)wl(3);
      fsz = pi < 4 ? st->ref[pi].size() : 0;
      if (k == 0) { old.resize(wl_size(200)); for (auto& c : old) c = (uint8_t)wl(256); }
      else {
        if (k == 2) how = (int)wl(2);
        size_t nb = op.seq == 0 ? 1 : op.seq == 2 ? 3 : wl_chance(10) ? 60 + wl(30) : wl(6);
        op.b = pat->make(nb, wl_chance(20));
        if (k == 1 && wl_chance(50)) { // exactly the file, or one byte more or less
          size_t want = fsz; if (how == 2 && wl_chance(40) && fsz) { at = wl((uint32_t)fsz + 1); want -= at; }
          uint32_t d = wl(6); if (d == 0) ++want; else if (d == 1 && want) --want;
          if (want < 4000) {
            { Loud l; delete[] pat->mem; pat->mem = new uint8_t[want + 8]; }
            pat->n = want + 8; pat->copy.resize(pat->n); for (size_t j = 0; j < pat->n; ++j) pat->copy[j] = pat->mem[j] = (uint8_t)(j * 7 + 3);
            size_t left = want, o = 4;
            for (size_t j = 0; j < nb; ++j) { size_t l = j + 1 == nb ? left : wl((uint32_t)left + 1); op.b[j] = Buf{pat->mem + o, l}; o += l; left -= l; }
          }
        }
      }
    }
    switch (k) {
    case 0:
      switch (type) {
      case 0: read_container<std::string>("read_file(string)", thr, how, pi, af, old); break;
      case 1: read_container<std::vector<char>>("read_file(vector<char>)", thr, how, pi, af, old); break;
      case 2: read_container<std::vector<unsigned char>>("read_file(vector<unsigned char>)", thr, how, pi, af, old); break;
      case 3: read_container<asioext::linear_buffer>("read_file(linear_buffer)", thr, how, pi, af, old); break;
      case 4: read_container<Small>("read_file(small container)", thr, how, pi, af, old); break;
      }
      break;
    case 1: read_bufs("read_file(buffers)", thr, how, pi, op, *pat, at); break;
    case 2: write_bufs("write_file", thr, how, pi, op, *pat); break;
    }
    { Quiet q; Op e; std::swap(e.b, op.b); Bytes e2; e2.swap(old); }
  }
  {
    Quiet q; faults_enabled(false);
    if (open_fd_count()) violation("left-open", "%d descriptors were left open", open_fd_count());
    probe("whole-file transfers", st->n); probe("successful", st->ok); if (st->bad) probe("failed", st->bad); if (st->shorts) probe("short transfers", st->shorts);
    if (st->eintr) probe("interrupted calls", st->eintr); if (st->nomem) probe("allocation failures", st->nomem); if (st->shrunk) probe("files shrunk meanwhile", st->shrunk);
    if (st->bad || st->shorts || st->eintr) nontrivial();
  }
  { Quiet q; raw_delete(pat); raw_delete(st); }
}

// Files of gigabytes: into and from memory that nothing can touch, see scen/huge.hpp.
#include "scen/huge.hpp"
namespace {
template <class S> struct Ghost {
  typedef char value_type; typedef S size_type; S n = 0; uint64_t max = 0;
  char* data() { return hg::region; } const char* data() const { return hg::region; }
  char& operator[](size_t i) { return hg::region[i]; } const char& operator[](size_t i) const { return hg::region[i]; }
  S size() const { return n; } S max_size() const { return (S)max; } bool empty() const { return !n; }
  void resize(S k) { if (k > max) throw std::length_error("Ghost"); n = k; } void clear() { n = 0; }
};
uint64_t huge_size()
{
  static const uint64_t at[] = {1ull << 32, 1ull << 32, 1ull << 31, 1ull << 33, 3ull << 20, 40ull << 20};
  return at[wl(6)] - 50 + wl(100);
}
// The transfers since the mark: bytes 0 to n, in order, each once.
bool tiled(size_t mark, uint64_t n, bool wr)
{
  uint64_t at = 0;
  for (size_t i = mark; i < nhugesegs(); ++i) { const HugeSeg& g = hugeseg(i); if (g.wr != wr || (uint64_t)g.off != at || (char*)g.p != hg::region + at) return false; at += g.n; }
  return at == n;
}
template <class C> void huge_container(const char* nm, C& c, bool thr, uint64_t size, uint64_t limit)
{
  size_t segs; int fds; { Quiet q; segs = nhugesegs(); fds = open_fd_count(); }
  Res r = invoke(thr, [&](error_code& ec) { asioext::read_file("huge", c, ec); }, [&] { asioext::read_file("huge", c); });
  uint64_t n = c.size(); Quiet q; Seen s = seen(r.mark, true);
  if (open_fd_count() != fds) violation("left-open", "%s left descriptors open", nm);
  bool ok = !r.ec && !r.threw; ev(nm, ok, (int64_t)n);
  if (ok) {
    probe("files of gigabytes read", n > (1ull << 30));
    if (s.err) violation("hidden-error", "%s succeeded although a system call failed with %d", nm, s.err);
    if (n != size) violation("size", "%s of %llu bytes left %llu bytes in the container", nm, (unsigned long long)size, (unsigned long long)n);
    else if (!tiled(segs, n, false)) violation("container", "%s did not read each byte of the file once", nm);
  } else {
    probe("files of gigabytes refused or failed");
    if (!s.err && size <= limit && !r.nomem && !r.toolong) violation("spurious-error", "%s of %llu bytes failed with %d although no call failed", nm, (unsigned long long)size, r.ec.value());
    if (size <= limit && r.toolong) violation("spurious-error", "%s threw length_error", nm);
  }
}
}
SCENARIO_W(F08, huge, 1)
{
  uint64_t size, len; int what; bool thr; size_t segs; int fds;
  {
    Quiet q; hg::region = huge_memory(hg::region_size); size = huge_size(); what = (int)wl(5); thr = flip(); set_fd_base(wl_chance(20) ? 0 : 3); set_umask(022); mkhuge("huge", (int64_t)size);
    len = what == 3 ? (flip() ? size : size - 1 - wl(40)) : huge_size(); if (what == 3 && wl_chance(20)) len = size + 1 + wl(10);
    swarm_fault(f_eintr, 20); swarm_fault(f_short, 30);
    // Whole transfers of gigabytes take long, as Asio does them in small pieces: most meet an error.
    if (std::max(size, len) > (200u << 20)) { if (wl(300) == 299 && std::max(size, len) < (5ull << 30)) set_fault(f_short, 0), set_fault(f_eintr, 0); else set_fault(f_eio, 65536 / 400); } else swarm_fault(f_eio, 3);
    swarm_fault(f_close_err, 30); swarm_fault(f_fstat_err, 30);
  }
  { Quiet q; segs = nhugesegs(); fds = open_fd_count(); }
  if (what == 0) { Ghost<size_t> c; c.max = hg::region_size; huge_container("read_file(large container)", c, thr, size, c.max); }
  else if (what == 1) { Ghost<uint32_t> c; c.max = 0xffffffffu; huge_container("read_file(container with 32-bit sizes)", c, thr, size, c.max); }
  else if (what == 2) { Ghost<size_t> c; { Quiet q; c.max = size - 60 + wl(120); } huge_container("read_file(limited container)", c, thr, size, c.max); }
  else {
    bool rd = what == 3; const char* nm = rd ? "read_file(large buffer)" : "write_file(large buffer)"; asio::mutable_buffer mb(hg::region, (size_t)len); asio::const_buffer cb(hg::region, (size_t)len);
    Res r = rd ? invoke(thr, [&](error_code& ec) { asioext::read_file("huge", mb, ec); }, [&] { asioext::read_file("huge", mb); })
               : invoke(thr, [&](error_code& ec) { asioext::write_file("huge", cb, ec); }, [&] { asioext::write_file("huge", cb); });
    Quiet q; Seen s = seen(r.mark, rd);
    if (open_fd_count() != fds) violation("left-open", "%s left descriptors open", nm);
    bool ok = !r.ec && !r.threw; ev(nm, ok, (int64_t)len);
    if (ok) {
      probe("files of gigabytes transferred", len > (1ull << 30));
      if (s.err) violation("hidden-error", "%s succeeded although a system call failed with %d", nm, s.err);
      if (rd && len > size) violation("hidden-error", "%s succeeded although the file is shorter", nm);
      else if (!tiled(segs, len, !rd)) violation("buffers", "%s of %llu bytes did not transfer each byte once", nm, (unsigned long long)len);
      if (!rd && inode_size(inode_of_path("huge")) != (int64_t)len) violation("size", "%s of %llu bytes left %lld in the file", nm, (unsigned long long)len, (long long)inode_size(inode_of_path("huge")));
    } else {
      probe("transfers of gigabytes failed");
      if (!s.err && !(rd && len > size)) violation("spurious-error", "%s of %llu bytes failed with %d although no call failed", nm, (unsigned long long)len, r.ec.value());
    }
  }
  nontrivial();
}
