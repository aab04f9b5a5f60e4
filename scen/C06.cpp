// C06: buffered_stream over a simulated stream.
#include "scen/app.hpp"
#include "scen/simstream.hpp"
#include "scen/bsock.hpp"
#include <asioext/experimental/buffered_stream.hpp>

namespace {
using namespace ss;
using asioext::error_code;
// An allocator with an identity that it doesn't hand on: every block goes back to where it came from.
template <class T> struct TagAl
{
  typedef T value_type; int id;
  explicit TagAl(int i = 0) : id(i) {}
  template <class U> TagAl(const TagAl<U>& o) : id(o.id) {}
  T* allocate(size_t n) { char* p = (char*)::operator new(n * sizeof(T) + 16); *(int*)p = id; return (T*)(p + 16); }
  void deallocate(T* p, size_t) { char* b = (char*)p - 16; if (*(int*)b != id) violation("allocator", "memory of allocator %d was given to allocator %d", *(int*)b, id); ::operator delete(b); }
  template <class U> bool operator==(const TagAl<U>& o) const { return id == o.id; }
  template <class U> bool operator!=(const TagAl<U>& o) const { return id != o.id; }
};
extern int g_alloc_id;
// Reports the allocations of the buffers that weren't made with the allocator they were given.
template <class T> struct OwnAl : TagAl<T>
{
  explicit OwnAl(int i = 0) : TagAl<T>(i) {}
  template <class U> OwnAl(const OwnAl<U>& o) : TagAl<T>(o.id) {}
  T* allocate(size_t n) { if (this->id != g_alloc_id) violation("allocator", "a buffer uses allocator %d instead of %d", this->id, g_alloc_id); return TagAl<T>::allocate(n); }
};
int g_alloc_id;
typedef asioext::buffered_stream<SimStream, OwnAl<uint8_t>> BS;

struct Sim {
  asio::io_context* io; BS* s; Net* n; IoEx* hex; StrandTag* sx; bool threads, big;
  // what the user handed over on this connection, and what must have become of it
  Bytes given; size_t locked_end = 0;      // bytes [0, locked_end) were taken by flushes
  size_t in_user = 0;                      // received bytes the user has taken out of the read buffer
  size_t in_have = 0;                      // received bytes that completed fills have reported
  Rec* flush = 0; Rec* fill = 0; size_t flush_out0 = 0; error_code flush_err, fill_err;
  bool closed = false, closing = false;    // closing: operations of the closed connection are outstanding
  bool discard_fill = false;
  size_t wmax, rmax, wlim, rlim;           // as given; as the buffers report them
  uint64_t ok_flush = 0, bad_flush = 0, ok_fill = 0, bad_fill = 0, busy = 0, closes = 0, reopened = 0, aborted = 0, nop = 0, nostart = 0;
  size_t fill_room = 0, out_seen = 0;      // bytes of `out` known to be right
} *g;

void out_check(Net& n)
{
  Sim& w = *g;
  if (n.out.size() > w.locked_end) { violation("out-of-thin-air", "%lu bytes were sent, only %lu were being flushed", (unsigned long)n.out.size(), (unsigned long)w.locked_end); return; }
  for (size_t& i = w.out_seen; i < n.out.size(); ++i) if (n.out[i] != w.given[i]) { violation("bytes-sent", "byte %lu of the stream is wrong", (unsigned long)i); return; }
}
error_code stale() { return wl_chance(60) ? error_code() : error_code(flip() ? asio::error::connection_refused : asio::error::operation_aborted); }
uint8_t rnd8() { return (uint8_t)wl(256); }

// The write buffer always holds what was given and not taken by a flush.
void check_write_buffer(const char* op)
{
  Sim& w = *g; auto& b = w.s->write_buffer();
  size_t n = b.size(), want; { Quiet q; want = w.given.size() - w.locked_end; }
  if (b.max_size() != w.wlim) violation("limit", "after %s the write buffer may hold %lu bytes instead of %lu", op, (unsigned long)b.max_size(), (unsigned long)w.wlim);
  if (n != want) { violation("write-buffer", "after %s the write buffer holds %lu bytes instead of %lu", op, (unsigned long)n, (unsigned long)want); return; }
  for (size_t i = 0; i < n; ++i) if (b[i] != w.given[w.locked_end + i]) { violation("write-buffer", "after %s byte %lu of the write buffer is wrong", op, (unsigned long)i); return; }
}
void check_read_buffer(const char* op)
{
  Sim& w = *g; if (w.fill) return;
  auto& b = w.s->read_buffer();
  size_t n = b.size(), want; { Quiet q; want = w.in_have - w.in_user; }
  if (b.max_size() != w.rlim) violation("limit", "after %s the read buffer may hold %lu bytes instead of %lu", op, (unsigned long)b.max_size(), (unsigned long)w.rlim);
  if (n != want) { violation("read-buffer", "after %s the read buffer holds %lu bytes, %lu were received and not taken", op, (unsigned long)n, (unsigned long)want); return; }
  for (size_t i = 0; i < n; ++i) if (b[i] != w.n->in[w.in_user + i]) { violation("read-buffer", "after %s byte %lu of the read buffer is wrong", op, (unsigned long)i); return; }
}
// What a flush that may start now has to deliver.
void begin_flush()
{
  Sim& w = *g;
  if (w.n->out.size() == w.locked_end) w.locked_end = w.given.size(); // nothing is left over
  w.flush_out0 = w.n->out.size();
  w.n->first_error = error_code();
}
void end_flush(const char* op, error_code ec, size_t n)
{
  Sim& w = *g; Net& net = *w.n;
  size_t sent = net.out.size() - w.flush_out0;
  if (n != sent) violation("flush-count", "%s reports %lu bytes, %lu were sent", op, (unsigned long)n, (unsigned long)sent);
  if (!ec && net.out.size() != w.locked_end) violation("flush-incomplete", "%s succeeded with %lu of %lu bytes sent", op, (unsigned long)net.out.size(), (unsigned long)w.locked_end);
  ec ? ++w.bad_flush : ++w.ok_flush;
  ev("flushed", (int64_t)n, ec.value());
}
struct Err { error_code w, r; };
// First error of the writes and of the reads since the given marks.
error_code g_werr, g_rerr;

void step();
// The handler may use the stream at once.
void more()
{
  Sim& w = *g;
  bool a, p; { Quiet q; a = wl_chance(40); p = w.flush != 0; }
  if (w.s->flush_pending() != p) violation("flush-pending", "flush_pending() is %d in a handler", !p);
  if (a) { { Quiet q; probe("actions in handlers"); } step(); }
}
void on_flush(Rec& r)
{
  {
    Quiet q;
    Sim& w = *g;
    w.flush = 0;
    if (w.closing) { // the connection was closed meanwhile: what it still had to send is dropped
      ++w.aborted;
    } else {
      end_flush("async_flush", r.ec, (size_t)r.val);
      if (r.ec != w.n->werr) violation("flush-error", "async_flush reports %d, its transfers %d", r.ec.value(), w.n->werr.value());
    }
  }
  Loud l; more();
}
void filled(Rec& r)
{
  Quiet q;
  Sim& w = *g;
  w.fill = 0;
  if (w.discard_fill) { w.discard_fill = false; ++w.aborted; return; }
  if (r.ec != w.n->rerr) violation("fill-error", "async_fill reports %d, its transfers %d", r.ec.value(), w.n->rerr.value());
  if (r.ec && r.val) violation("fill-count", "a failed async_fill reports %lld bytes", (long long)r.val);
  if (!r.ec && !r.val && w.fill_room) violation("fill-count", "async_fill succeeded without a byte");
  if (w.in_have + (size_t)r.val != w.n->in_at) violation("fill-count", "async_fill reports %lld bytes, %lu were received", (long long)r.val, (unsigned long)(w.n->in_at - w.in_have));
  w.in_have = w.n->in_at;
  r.ec ? ++w.bad_fill : ++w.ok_fill;
}
void on_fill(Rec& r) { filled(r); Loud l; more(); }
template <class F> void with_handler(Rec* r, int hk, F f)
{ if (hk == 0) f(H0(r)); else if (hk == 1) f(H1(r, *g->hex)); else f(H2(r, *g->sx)); }
Rec* new_rec(int& hk, void (*then)(Rec&))
{
  hk = g->threads ? 2 : (int)wl(3);
  Rec* r = raw_new<Rec>(); r->tag = hk + 1; r->then = then; return r;
}
std::vector<Rec*>* recs;
// An initiating function may run out of memory, and has then started nothing.
template <class F> bool initiate(bool may_fail, F f)
{
  try { if (may_fail) { AllocFaults af; f(); } else f(); return true; } catch (std::bad_alloc&) { return false; }
}

void step()
{
  Sim& w = *g; BS& s = *w.s;
  int k; { Quiet q; k = (int)wl(17); ++w.nop; }
  switch (k) {
  case 0: case 1: case 2: case 3: { // the user writes
    size_t n; { Quiet q; n = wl_size(w.big ? 9000 : 700); size_t room = w.wmax - (w.given.size() - w.locked_end); if (n > room) n = room; }
    if (w.closed && !w.closing) { bool skip; { Quiet q; skip = flip(); } if (skip) break; }
    bool a; { Quiet q; a = flip(); }
    auto& b = s.write_buffer();
    if (a) { std::vector<uint8_t> d(n); for (auto& x : d) { uint8_t v; { Quiet q; v = rnd8(); } x = v; } b.append(d.data(), n); for (auto x : d) { Quiet q; w.given.push_back(x); } }
    else { size_t z = b.size(); b.resize(z + n); uint8_t* p = b.data() + z; for (size_t i = 0; i < n; ++i) { uint8_t v; { Quiet q; v = rnd8(); w.given.push_back(v); } p[i] = v; } }
    check_write_buffer("writing");
    break; }
  case 4: case 5: case 6: { // async_flush
    if (w.closed) break;
    bool pend; Rec* r; int hk;
    { Quiet q; pend = w.flush != 0; if (pend && !wl_chance(20)) break; r = new_rec(hk, pend ? 0 : on_flush); recs->push_back(r); if (!pend) { begin_flush(); w.n->werr = error_code(); w.flush = r; } else { ++w.busy; r->then = [](Rec& x) { if (x.ec != asio::error::already_started || x.val) violation("second-flush", "a second async_flush reports %d", x.ec.value()); }; } ev("async_flush", pend); }
    th().in_init = r; r->abandoning = true;
    // (a strand that cannot be scheduled keeps the handler, and is of no use afterwards)
    bool started = initiate(!(pend && hk == 2), [&] { with_handler(r, hk, [&](auto&& h) { s.async_flush(std::move(h)); }); });
    th().in_init = 0;
    if (started) r->abandoning = false;
    else { // not started, so nothing is pending and the next flush may start
      { Quiet q; if (r->invoked) violation("flush-failed-start", "async_flush threw and invoked its handler"); if (!r->dropped) violation("flush-failed-start", "async_flush threw and kept its handler"); r->invoked = 1; if (!pend) w.flush = 0; ++w.nostart; ev("async_flush threw"); }
      if (!pend && s.flush_pending()) violation("flush-failed-start", "async_flush threw, but leaves a flush pending");
    }
    check_write_buffer("async_flush");
    break; }
  case 7: { // flush
    bool pend, thr; { Quiet q; pend = w.flush != 0; thr = flip(); if (w.closed) break; if (!pend) { begin_flush(); w.n->werr = error_code(); } ev("flush", pend); }
    if (pend && w.threads) { } // the pending one may progress meanwhile
    error_code ec; { Quiet q; ec = stale(); }
    size_t n = 0; bool threw = false;
    if (thr) { try { n = s.flush(); ec = error_code(); } catch (asio::system_error& e) { threw = true; ec = e.code(); } }
    else n = s.flush(ec);
    Quiet q;
    if (thr && threw != !!ec) violation("flush-error", "flush() threw without an error");
    if (pend) { if (ec != asio::error::already_started || n) violation("second-flush", "flush() during an async_flush reports %d and %lu bytes", ec.value(), (unsigned long)n); break; }
    if (threw) n = w.n->out.size() - w.flush_out0;
    end_flush("flush", ec, n);
    if (ec != w.n->werr) violation("flush-error", "flush reports %d, its transfers %d", ec.value(), w.n->werr.value());
    { Loud l; check_write_buffer("flush"); }
    break; }
  case 8: case 9: case 10: { // async_fill
    if (w.closed || w.fill) break;
    Rec* r; int hk;
    { Quiet q; r = new_rec(hk, on_fill); recs->push_back(r); w.fill = r; w.fill_room = w.rmax - (w.in_have - w.in_user); w.n->rerr = error_code(); ev("async_fill"); }
    th().in_init = r; r->abandoning = true;
    bool started = initiate(true, [&] { with_handler(r, hk, [&](auto&& h) { s.async_fill(std::move(h)); }); });
    th().in_init = 0;
    if (started) { r->abandoning = false; break; }
    { Quiet q; if (r->invoked) violation("fill-failed-start", "async_fill threw and invoked its handler"); if (!r->dropped) violation("fill-failed-start", "async_fill threw and kept its handler"); r->invoked = 1; w.fill = 0; ++w.nostart; ev("async_fill threw"); }
    check_read_buffer("async_fill");
    break; }
  case 11: { // fill
    if (w.closed || w.fill) break;
    bool thr; error_code ec; size_t have0 = w.in_have, room;
    { Quiet q; thr = flip(); ec = stale(); w.n->rerr = error_code(); room = w.rmax - (w.in_have - w.in_user); }
    size_t n = 0; bool threw = false;
    try {
    AllocFaults af;
    if (thr) { try { n = s.fill(); ec = error_code(); } catch (asio::system_error& e) { threw = true; ec = e.code(); } }
    else n = s.fill(ec);
    } catch (std::bad_alloc&) { { Quiet q; ev("fill threw"); ++w.nostart; } check_read_buffer("a fill that ran out of memory"); break; }
    {
      Quiet q;
      ev("fill", (int64_t)n, ec.value());
      if (thr && threw != !!ec) violation("fill-error", "fill() threw without an error");
      if (ec != w.n->rerr) violation("fill-error", "fill reports %d, its transfers %d", ec.value(), w.n->rerr.value());
      if (ec && n) violation("fill-count", "a failed fill reports %lu bytes", (unsigned long)n);
      if (!ec && !n && room) violation("fill-count", "fill succeeded without a byte");
      if (w.in_have + n != w.n->in_at) violation("fill-count", "fill reports %lu bytes, %lu were received", (unsigned long)n, (unsigned long)(w.n->in_at - have0));
      w.in_have = w.n->in_at;
      ec ? ++w.bad_fill : ++w.ok_fill;
    }
    check_read_buffer("fill");
    break; }
  case 12: case 13: { // the user takes bytes
    if (w.fill) break;
    check_read_buffer("reading");
    size_t n; { Quiet q; n = w.in_have - w.in_user; if (!n) break; n = flip() ? n : 1 + wl((uint32_t)n); }
    s.read_buffer().erase(0, n);
    { Quiet q; w.in_user += n; }
    check_read_buffer("reading");
    break; }
  case 14: { // close
    bool c; { Quiet q; c = wl_chance(40); } if (!c) break;
    error_code ec; bool thr; { Quiet q; thr = flip(); ec = stale(); ev("close", w.flush != 0, w.fill != 0); ++w.closes; }
    // what was given before is gone
    { Quiet q; w.closed = true; w.closing = w.flush != 0; w.discard_fill = w.fill != 0; w.n->on_out = 0; w.n->closed = false; }
    if (thr) s.close(); else { s.close(ec); if (ec) violation("close-error", "close reports %d", ec.value()); }
    { Quiet q; w.given.clear(); w.locked_end = 0; w.in_have = w.in_user = 0; if (!w.fill) { Bytes().swap(w.n->in); w.n->in_at = 0; } }
    { bool cl; { Quiet q; cl = w.n->closed; } if (!cl) violation("close", "close() did not close the underlying stream"); }
    check_write_buffer("close");
    if (!w.fill) check_read_buffer("close");
    break; }
  case 15: { // a new connection
    if (!w.closed || w.flush || w.fill) break;
    size_t n; { Quiet q; w.closed = w.closing = false; ++w.reopened; Net& t = *w.n; t.out.clear(); w.out_seen = 0; t.in.clear(); t.in_at = 0; w.in_have = w.in_user = 0; n = wl(w.big ? 30000 : 3000); for (size_t i = 0; i < n; ++i) t.in.push_back(rnd8()); t.broken = false; t.closed = false; t.on_out = out_check; ev("reopened"); }
    check_read_buffer("reconnecting"); check_write_buffer("reconnecting");
    break; }
  default: {
    bool p = s.flush_pending(), cf = s.can_flush(); bool wp, we; { Quiet q; wp = w.flush != 0; we = w.given.size() == w.locked_end; }
    if (p != wp) violation("flush-pending", "flush_pending() is %d", p);
    if (cf != (!wp && !we)) violation("flush-pending", "can_flush() is %d", cf);
  } }
}

void buffered()
{
  uint64_t mark = alloc_mark();
  Net* net = new Net; Sim* w; bool leave; int n; pthread_t nt;
  {
    Quiet q;
    race_detector(true); swarm_sched(true);
    swarm_fault(f_net_segment, 85); if (wl_chance(50)) set_fault(f_net_segment, 50000);
    swarm_fault(f_net_delay, 60); set_fault(f_conn_err, wl_chance(50) ? 8000 : 0); set_fault(f_net_rst, wl_chance(25) ? 2500 : 0); set_fault(f_alloc, wl_chance(30) ? 3000 : 0);
    w = g = raw_new<Sim>(); w->n = net; w->threads = wl_chance(40);
    recs = raw_new<std::vector<Rec*>>();
    net->on_out = out_check;
    w->big = wl_chance(12); size_t k = wl(w->big ? 40000 : 3000); for (size_t i = 0; i < k; ++i) net->in.push_back(rnd8());
    net->end = wl_chance(80) ? Net::e_eof : Net::e_rst;
    w->wmax = flip() ? ~(size_t)0 : 1 + wl(w->big ? 20000 : 1500); w->rmax = flip() ? ~(size_t)0 : 1 + wl(w->big ? 20000 : 900);
    leave = wl_chance(20); n = 8 + (int)wl(50);
  }
  w->io = new asio::io_context;
  w->hex = new IoEx(w->io->get_executor(), 2); w->sx = new StrandTag(asio::make_strand(*w->io), 3);
  IoEx sex(w->io->get_executor(), 1);
  bool al; { Quiet q; al = flip(); }
  g_alloc_id = al ? 7 : 0;
  if (al) w->s = new BS(SimStream(sex, net), OwnAl<uint8_t>(7), w->wmax, w->rmax); else w->s = new BS(SimStream(sex, net), w->wmax, w->rmax);
  { Quiet q; size_t all = std::allocator_traits<OwnAl<uint8_t>>::max_size(OwnAl<uint8_t>()); w->wlim = std::min(all, w->wmax); w->rlim = std::min(all, w->rmax); }
  nt = go(net_main, net);
  if (w->threads) {
    auto* guard = new asio::executor_work_guard<asio::io_context::executor_type>(w->io->get_executor());
    pthread_t a = go(run_main, w->io), b = go(run_main, w->io);
    for (int i = 0; i < n; ++i) {
      asio::post(*w->sx, [] { step(); });
      uint64_t us; { Quiet q; us = flip() ? 0 : wl(4000); } if (us) sleep_us(us);
    }
    delete guard;
    join(a); join(b); settle(*net);
  } else {
    for (int i = 0; i < n; ++i) {
      step();
      th().running++;
      bool r; { Quiet q; r = wl_chance(60); }
      if (r) { w->io->restart(); w->io->poll_one(); }
      th().running--;
      uint64_t us; { Quiet q; us = wl_chance(70) ? 0 : wl(8000); } if (us) sleep_us(us);
    }
    if (!leave) { settle(*net); w->io->restart(); run_main(w->io); settle(*net); }
  }
  if (!leave || w->threads) {
    for (Rec* r : *recs) if (!r->invoked) violation("handler-lost", "run() ran out of work but a handler was not invoked");
    // the remaining bytes follow once the errors stop
    bool c; { Quiet q; c = w->closed; }
    if (!c) {
      faults_enabled(false);
      if (!net->broken) for (int i = 0; i < 2; ++i) { { Quiet q; begin_flush(); } error_code ec; size_t k = w->s->flush(ec); Quiet q; end_flush("flush", ec, k); if (ec) violation("flush-error", "the final flush failed with %d", ec.value()); }
      Quiet q; if (!net->broken && net->out.size() != w->given.size()) violation("bytes-lost", "%lu of %lu bytes were sent in the end", (unsigned long)net->out.size(), (unsigned long)w->given.size());
    }
    check_write_buffer("everything"); check_read_buffer("everything");
    stop_net(*net, nt);
  } else {
    { Quiet q; for (Rec* r : *recs) r->abandoning = true; }
    stop_net(*net, nt);
    int k = abandon(*net); { Quiet q; if (k) probe("operations abandoned", (uint64_t)k); }
  }
  delete w->hex; delete w->sx; 
  delete w->io;
  delete w->s;
  {
    Quiet q;
    for (Rec* r : *recs) { if (!r->invoked && !r->dropped) violation("handler-lost", "a handler was neither invoked nor destroyed"); if (r->live) violation("allocator", "%lu blocks of a handler's allocator were never returned", (unsigned long)r->live); raw_delete(r); }
    probe("actions", w->nop); if (w->ok_flush) probe("flushes", w->ok_flush); if (w->bad_flush) probe("failed flushes", w->bad_flush); if (w->ok_fill) probe("fills", w->ok_fill); if (w->bad_fill) probe("failed fills", w->bad_fill);
    if (w->busy) probe("second flushes", w->busy); if (w->nostart) probe("out of memory", w->nostart); if (w->closes) probe("closes", w->closes); if (w->aborted) probe("operations closed", w->aborted); if (w->reopened) probe("connections reopened", w->reopened);
    if (net->partial || w->bad_flush || w->aborted) nontrivial();
    Bytes().swap(net->in); Bytes().swap(net->out); raw_delete(recs); raw_delete(w); g = 0;
  }
  delete net;
  check_counted("handler objects (moved from, perhaps)");
  LeakInfo li = live_since(mark);
  if (li.count) violation("leak", "%lu blocks were never freed", (unsigned long)li.count);
}
}
SCENARIO_W(C06, buffered, 4) { buffered(); }
SCENARIO_W(C06, sockets, 1) { bsk::sockets(); }
SCENARIO_W(C06, application, 1) { app::app(false); }
