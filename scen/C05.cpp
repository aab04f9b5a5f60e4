// dynamic_linear_buffer against a model of the DynamicBuffer requirements (both versions),
// and stream operations that fill it from a simulated stream.
#include "scen/common.hpp"
#include <asioext/linear_buffer.hpp>
#include <asio/read.hpp>
#include <asio/read_until.hpp>
#include <asio/write.hpp>
#include <asio/completion_condition.hpp>
#include <stdexcept>
using namespace scen;
namespace {
typedef std::vector<uint8_t> Bytes;
typedef asioext::dynamic_linear_buffer<std::allocator<uint8_t>> DB;
typedef asioext::linear_buffer LB;
uint64_t g_fail, g_len, g_ops;
uint8_t rnd() { return (uint8_t)wl(256); }
size_t amount(size_t room)
{
  uint32_t k = wl(12);
  if (k < 6) return wl(24);
  if (k < 9) return wl_chance(4) ? wl(20000) : wl(300);
  if (k == 9) return room <= 5000 ? room : wl(2000);
  if (k == 10) return room <= 5000 ? room + 1 + wl(3) : ~(size_t)0 - wl(3);
  return ~(size_t)0 - wl(2000);
}
// The storage: bytes of the linear_buffer; the first min(size, max) of them are readable.
struct M {
  LB* lb; DB* d; Bytes st; size_t max; bool v1; size_t used; // v1: readable bytes; the rest of st is prepared
  size_t readable() const { return v1 ? used : st.size() < max ? st.size() : max; }
};
void check(M& m, const char* op)
{
  size_t sz = m.d->size(), mx = m.d->max_size(), cap = m.d->capacity(), lbs = m.lb->size();
  const DB& cd = *m.d;
  size_t want; { Quiet q; want = m.readable(); }
  asio::const_buffer db = cd.data(); asio::mutable_buffer md = m.d->data();
  if (sz != want) violation("size", "after %s size() is %lu instead of %lu", op, (unsigned long)sz, (unsigned long)want);
  if (mx != m.max) violation("max-size", "after %s max_size() is %lu instead of %lu", op, (unsigned long)mx, (unsigned long)m.max);
  if (cap < sz || cap > mx) violation("capacity", "after %s size %lu, capacity %lu, max_size %lu", op, (unsigned long)sz, (unsigned long)cap, (unsigned long)mx);
  if (db.size() != want || md.size() != want || md.data() != db.data()) violation("data", "after %s data() covers %lu bytes instead of %lu", op, (unsigned long)db.size(), (unsigned long)want);
  if (!m.v1 && lbs != m.st.size()) violation("storage", "after %s the linear_buffer holds %lu bytes instead of %lu", op, (unsigned long)lbs, (unsigned long)m.st.size());
  const uint8_t* p = (const uint8_t*)db.data();
  for (size_t i = 0; i < want; ++i) if (p[i] != m.st[i]) { violation("contents", "after %s readable byte %lu is wrong", op, (unsigned long)i); break; }
  { // any clipped view
    size_t pos, n; { Quiet q; pos = wl_chance(80) ? wl((uint32_t)want + 3) : amount(0); n = amount(want); }
    asio::const_buffer c = cd.data(pos, n); asio::mutable_buffer w2 = m.d->data(pos, n);
    if (m.v1) { if (pos > want) pos = want; if (n > want - pos) n = want - pos; // the underlying memory may be longer
      if (c.size() < n || c.size() > lbs || (n && c.data() != p + pos)) violation("view", "data(pos, n) does not cover the bytes asked for"); }
    else {
      if (pos > want) pos = want; if (n > want - pos) n = want - pos;
      if (c.size() != n || w2.size() != n || (n && (c.data() != p + pos || w2.data() != c.data()))) violation("view", "data(%lu, n) covers %lu bytes instead of %lu", (unsigned long)pos, (unsigned long)c.size(), (unsigned long)n);
    }
  }
}
template <class F> int tried(const char* op, bool le, F f)
{
  int r = 0;
  try { AllocFaults af; f(); } catch (std::bad_alloc&) { r = 1; } catch (std::length_error&) { r = 2; }
  Quiet q; ev(op, r); ++g_ops; g_fail += r == 1; g_len += r == 2;
  if (le ? r == 0 : r == 2) violation("length-error", "%s %s length_error", op, r == 2 ? "threw" : "did not throw");
  return r;
}
void fill(M& m, asio::mutable_buffer b, size_t at)
{
  uint8_t* p = (uint8_t*)b.data();
  for (size_t i = 0; i < b.size(); ++i) { uint8_t v; { Quiet q; v = rnd(); } p[i] = v; Quiet q; m.st[at + i] = v; }
}
void setup(M& m, bool v1, LB& lb)
{
  size_t init, lbmax, max; bool lim;
  { Quiet q; init = flip() ? 0 : wl(40); lbmax = wl_chance(50) ? 40 + wl(400) : 1 << 20; lim = wl_chance(60); max = lim ? wl(300) : ~(size_t)0; race_detector(false); swarm_sched(false); }
  lb = LB(init, lbmax);
  { Quiet q; m.lb = &lb; m.v1 = v1; m.max = max < lbmax ? max : lbmax; m.st.assign(init, 0); if (wl_chance(50)) set_fault(f_alloc, 8000); if (v1 && m.max < init) m.max = init; }
  for (size_t i = 0; i < init; ++i) { uint8_t v; { Quiet q; v = rnd(); m.st[i] = v; } lb[i] = v; }
  m.d = lim || m.max != lbmax ? new DB(lb, m.max) : new DB(asioext::dynamic_buffer(lb));
  m.used = init;
}
void remake(M& m) // a new adapter for the same storage, or a moved one
{
  bool mv; { Quiet q; mv = flip(); ev("remake", mv); }
  if (mv) { DB* d = new DB(std::move(*m.d)); delete m.d; m.d = d; return; }
  // only what is committed may be in the storage
  if (m.v1) { m.lb->resize(m.used); Quiet q; m.st.resize(m.used); }
  delete m.d; m.d = new DB(*m.lb, m.max);
}
void finish(M& m)
{
  check(m, "everything");
  delete m.d;
  Quiet q;
  probe("operations", g_ops); if (g_fail) probe("allocation failures", g_fail); if (g_len) probe("length errors", g_len);
  if (g_fail || g_len) nontrivial();
  Bytes().swap(m.st);
}
void v1()
{
  uint64_t mark = alloc_mark();
  {
    LB lb; M m; setup(m, true, lb);
    int n; { Quiet q; n = 4 + (int)wl(50); }
    check(m, "construction");
    for (int i = 0; i < n; ++i) {
      int k; size_t a; { Quiet q; k = (int)wl(10); a = amount(m.max - m.used); }
      switch (k) {
      case 0: case 1: case 2: case 3: { // prepare, write, commit
        bool le = a > m.max - m.used, withec; { Quiet q; withec = wl_chance(30); }
        asio::mutable_buffer b(0, 0); int r;
        if (withec) {
          asioext::error_code ec; { Quiet q; if (flip()) ec = asio::error::eof; }
          r = tried("prepare(n, ec)", false, [&] { b = m.d->prepare(a, ec); });
          if (r == 0 && !!ec != le && !(ec == asio::error::no_memory)) violation("length-error", "prepare(n, ec) reports the wrong error");
          if (r == 0 && le && (!ec || ec == asio::error::eof)) violation("length-error", "prepare(n, ec) beyond max_size() sets no error");
          if (r == 0 && ec) { if (b.size()) violation("prepare", "prepare(n, ec) failed but returned a buffer"); r = 2; }
        } else r = tried("prepare", le, [&] { b = m.d->prepare(a); });
        if (r) { check(m, "a failed prepare"); break; }
        if (b.size() != a) violation("prepare", "prepare(%lu) returned %lu bytes", (unsigned long)a, (unsigned long)b.size());
        { Quiet q; m.st.resize(m.used + a); }
        if (a && b.data() != (uint8_t*)m.d->data().data() + m.used) violation("prepare", "the prepared area does not follow the readable bytes");
        fill(m, b, m.used);
        check(m, "prepare");
        size_t c; bool commit; { Quiet q; commit = !wl_chance(15); c = flip() ? a : wl((uint32_t)a + 1); if (wl_chance(10)) c = a + 1 + wl(5); }
        if (commit) {
          tried("commit", false, [&] { m.d->commit(c); });
          Quiet q; m.used += c < a ? c : a; m.st.resize(m.used);
          if (m.lb->size() != m.used) violation("storage", "after commit(%lu) of %lu prepared bytes the linear_buffer holds %lu bytes, %lu are committed", (unsigned long)c, (unsigned long)a, (unsigned long)m.lb->size(), (unsigned long)m.used);
        }
        break; }
      case 4: case 5: case 6: {
        size_t c; { Quiet q; c = flip() ? wl((uint32_t)m.used + 1) : a; }
        tried("consume", false, [&] { m.d->consume(c); });
        Quiet q; if (c > m.used) c = m.used;
        m.st.erase(m.st.begin(), m.st.begin() + (long)c); m.used -= c;
        break; }
      case 7: remake(m); break;
      default: break;
      }
      check(m, "an operation");
    }
    finish(m);
  }
  LeakInfo li = live_since(mark);
  if (li.count) violation("leak", "%lu blocks were never freed", (unsigned long)li.count);
}
void v2()
{
  uint64_t mark = alloc_mark();
  {
    LB lb; M m; setup(m, false, lb);
    int n; { Quiet q; n = 4 + (int)wl(50); }
    check(m, "construction");
    for (int i = 0; i < n; ++i) {
      int k; size_t a, rd; { Quiet q; k = (int)wl(10); rd = m.readable(); a = amount(m.max - rd); }
      switch (k) {
      case 0: case 1: case 2: case 3: {
        bool le = a > m.max - rd;
        if (tried("grow", le, [&] { m.d->grow(a); })) { check(m, "a failed grow"); break; }
        { Quiet q; m.st.resize(rd + a); }
        asio::mutable_buffer b = m.d->data(rd, a);
        if (b.size() != a) violation("view", "after grow(%lu) the new area has %lu bytes", (unsigned long)a, (unsigned long)b.size());
        else fill(m, b, rd);
        break; }
      case 4: case 5: {
        size_t c; { Quiet q; c = flip() ? wl((uint32_t)rd + 1) : a; }
        tried("shrink", false, [&] { m.d->shrink(c); });
        Quiet q; m.st.resize(rd - (c < rd ? c : rd));
        break; }
      case 6: case 7: {
        size_t c; { Quiet q; c = flip() ? wl((uint32_t)rd + 1) : a; }
        tried("consume", false, [&] { m.d->consume(c); });
        Quiet q; if (c > rd) c = rd; m.st.erase(m.st.begin(), m.st.begin() + (long)c);
        break; }
      case 8: remake(m); break;
      default: break;
      }
      check(m, "an operation");
    }
    finish(m);
  }
  LeakInfo li = live_since(mark);
  if (li.count) violation("leak", "%lu blocks were never freed", (unsigned long)li.count);
}

// A stream whose reads return arbitrary pieces, an error or the end of the stream.
struct Src { Bytes data; size_t at = 0; bool fail = false; asio::io_context* io; uint64_t reads = 0; };
template <class Bufs> size_t some(Src& s, const Bufs& bufs, asio::error_code& ec)
{
  size_t room = asio::buffer_size(bufs), n, left; bool err;
  { Quiet q; ++s.reads; left = s.data.size() - s.at; err = s.fail && room && draw_p(F, 4000); if (err) count_fault(f_conn_err); n = room < left ? room : left; if (n > 1 && draw_p(F, 45000)) { n = 1 + draw(F, (uint32_t)(n < 64 ? n : 64)); count_fault(f_short); } if (n > room) n = room; if (n > left) n = left; }
  if (err) { ec = asio::error::connection_reset; return 0; }
  ec = asio::error_code();
  if (!room) return 0;
  if (!left) { ec = asio::error::eof; return 0; }
  size_t c = asio::buffer_copy(bufs, asio::buffer(s.data.data() + s.at, n));
  s.at += c;
  return c;
}
struct Stream {
  Src* s;
  typedef asio::io_context::executor_type executor_type;
  executor_type get_executor() { return s->io->get_executor(); }
  template <class B> size_t read_some(const B& b, asio::error_code& ec) { return some(*s, b, ec); }
  template <class B> size_t read_some(const B& b) { asio::error_code ec; size_t n = some(*s, b, ec); if (ec) throw asio::system_error(ec); return n; }
  template <class B, class H> void async_read_some(const B& b, H&& h)
  {
    auto* st = s;
    asio::post(*st->io, [st, b, h = std::move(h)]() mutable { asio::error_code ec; size_t n = some(*st, b, ec); h(ec, n); });
  }
};
void streams()
{
  uint64_t mark = alloc_mark();
  {
    asio::io_context io(1);
    LB lb; M m; setup(m, false, lb);
    Src src; { Quiet q; src.io = &io; src.fail = wl_chance(40); size_t n = wl_chance(20) ? wl_chance(15) ? wl(90000) : wl(3000) : wl(200); src.data.resize(n); for (auto& c : src.data) c = (uint8_t)('a' + wl(6)); race_detector(false); }
    Stream st{&src};
    Bytes all; { Quiet q; all = m.st; all.insert(all.end(), src.data.begin(), src.data.end()); }
    size_t dropped = 0; // consumed from the front
    int n; { Quiet q; n = 1 + (int)wl(8); }
    for (int i = 0; i < n; ++i) {
      int k; size_t want; char dl; bool async, faulty;
      { Quiet q; k = (int)wl(5); want = wl(src.data.size() > 3000 ? 70000 : 400); dl = (char)('a' + wl(6)); async = flip(); faulty = !async; }
      size_t before = src.at, had = lb.size(); asio::error_code ec; size_t got = 0; bool bad = false;
      bool over = had > m.max;
      if (over && k < 4) { Quiet q; ev("oversized"); k = 4; }
      auto done = [&](asio::error_code e, size_t g) { ec = e; got = g; };
      delete m.d; m.d = new DB(lb, m.max);
      std::string ds; { NoAllocFaults x; ds.assign(1, dl); if (k == 3) ds.push_back('b'); }
      try {
        if (faulty) ++g_alloc_faults;
        if (k <= 1) { if (async) asio::async_read(st, std::move(*m.d), asio::transfer_exactly(want), done); else got = asio::read(st, std::move(*m.d), asio::transfer_exactly(want), ec); }
        else if (k <= 3) { if (async) asio::async_read_until(st, std::move(*m.d), ds, done); else got = asio::read_until(st, std::move(*m.d), ds, ec); }
        if (faulty) --g_alloc_faults;
      } catch (std::bad_alloc&) { --g_alloc_faults; bad = true; ++g_fail; }
      if (async) { io.restart(); io.run(); }
      { Quiet q; ev("stream op", k, (int64_t)got, ec.value(), bad); ++g_ops; if (ec) ++g_len; }
      if (k == 4) { size_t c; { Quiet q; c = wl((uint32_t)lb.size() + 1); } DB d(lb, m.max); size_t r = d.size(); d.consume(c); if (c > r) c = r; dropped += c; }
      // nothing lost, duplicated or invented
      size_t expect = (all.size() - src.data.size()) + src.at - dropped;
      if (lb.size() != expect) violation("stream-bytes", "the buffer holds %lu bytes instead of %lu after a stream operation", (unsigned long)lb.size(), (unsigned long)expect);
      for (size_t j = 0; j < expect; ++j) if (lb[j] != all[dropped + j]) { violation("stream-bytes", "byte %lu is not the stream's", (unsigned long)j); break; }
      if (bad || k == 4) continue;
      if (k <= 1) {
        if (got != src.at - before) violation("stream-count", "%lu bytes reported, %lu read", (unsigned long)got, (unsigned long)(src.at - before));
        if (!ec && got != want && lb.size() < m.max) violation("stream-count", "read() of %lu bytes completed after %lu without an error", (unsigned long)want, (unsigned long)got);
      } else {
        // position of the first delimiter in the readable bytes
        size_t pos = ~(size_t)0;
        for (size_t j = 0; j + ds.size() <= expect; ++j) { bool eq = true; for (size_t z = 0; z < ds.size(); ++z) eq &= all[dropped + j + z] == (uint8_t)ds[z]; if (eq) { pos = j + ds.size(); break; } }
        if (!ec && got != pos) violation("stream-until", "read_until() reports position %lu, the delimiter ends at %lu", (unsigned long)got, (unsigned long)pos);
        if (ec == asio::error::not_found && lb.size() < m.max) violation("stream-until", "read_until() gave up although the buffer is not full");
        if (ec && pos != ~(size_t)0 && pos <= m.max) violation("stream-until", "read_until() failed although the delimiter is there");
      }
    }
    Quiet q; probe("stream operations", g_ops); if (src.reads > 1) nontrivial();
    delete m.d; Bytes().swap(m.st); Bytes().swap(all); Bytes().swap(src.data);
  }
  LeakInfo li = live_since(mark);
  if (li.count) violation("leak", "%lu blocks were never freed", (unsigned long)li.count);
}
}
SCENARIO(C05, v1) { v1(); }
SCENARIO(C05, v2) { v2(); }
SCENARIO(C05, streams) { streams(); }
