// C06: buffered_stream over real Asio sockets on the simulated network, with a peer that echoes.
#ifndef SCEN_BSOCK_HPP
#define SCEN_BSOCK_HPP
#include "scen/simstream.hpp"
#include <asioext/experimental/buffered_stream.hpp>
#include <asio/ip/tcp.hpp>
#include <asio/steady_timer.hpp>
#include <asio/bind_executor.hpp>

namespace bsk {
using namespace ss;
using asioext::error_code;
typedef asio::ip::tcp tcp;
typedef asioext::buffered_stream<tcp::socket> BSS;

struct Hk : HBase {
  typedef StrandTag executor_type; typedef RecAlloc<void> allocator_type;
  StrandTag ex; Rec* ar = r;
  Hk(Rec* x, const StrandTag& e) : HBase(x), ex(e) {}
  executor_type get_executor() const noexcept { return ex; }
  allocator_type get_allocator() const noexcept { return allocator_type(ar); }
  void operator()(const error_code& ec, size_t n = 0)
  {
    { Quiet q; if (ar->live) violation("memory", "%lu blocks of the handler's allocator are still allocated when the handler runs", (unsigned long)ar->live); }
    call(ec, (int64_t)n);
  }
};
struct Sess {
  asio::io_context* io; BSS* s; StrandTag* sx; asio::steady_timer* tm;
  Bytes given; size_t total = 0, seen = 0, taken = 0; // handed over, at the peer, echoed bytes read
  size_t after = ~(size_t)0; int how = 0; bool broken = false;        // the peer ends the connection
  bool posted = false, closed = false, connected = false, done = false, timeout = false;
  Rec* flush = 0; Rec* fill = 0; size_t fill_had = 0, flush_seen = 0, flush_len = 0; int conn = -1;
  std::vector<Rec*> recs; uint64_t nflush = 0, nfill = 0, errs = 0;
};
inline Sess* g;
struct Echo : Peer {
  void on_connect(int) override {}
  void on_close(int, bool) override {}
  void on_data(int conn, const unsigned char* b, size_t n) override
  {
    Sess& w = *g; Bytes e;
    for (size_t i = 0; i < n; ++i) {
      if (w.seen >= w.given.size() || w.given[w.seen] != b[i]) { violation("bytes-sent", "byte %lu of the stream that reaches the peer is wrong", (unsigned long)w.seen); return; }
      ++w.seen; e.push_back((uint8_t)(b[i] ^ 0xa5));
    }
    if (w.broken) return;
    if (w.seen >= w.after) { w.broken = true; if (flip_f()) peer_send(conn, e.data(), e.size()); w.how ? peer_rst(conn) : peer_fin(conn); return; }
    peer_send(conn, e.data(), e.size());
  }
  static bool flip_f() { return draw(F, 2) != 0; }
};
inline Rec* rec(std::function<void(Rec&)> f) { Quiet q; Rec* r = raw_new<Rec>(); r->tag = 41; r->then = f; g->recs.push_back(r); return r; }
inline void put() // some more data for the write buffer
{
  Sess& w = *g; size_t n;
  { Quiet q; n = w.total - w.given.size(); if (!n) return; n = 1 + wl((uint32_t)(n > 700 ? 700 : n)); }
  auto& b = w.s->write_buffer(); size_t o = b.size();
  b.resize(o + n);
  for (size_t i = 0; i < n; ++i) { uint8_t c; { Quiet q; c = (uint8_t)wl(256); w.given.push_back(c); } b[o + i] = c; }
}
inline void take(const char* op) // whatever has been received
{
  Sess& w = *g; auto& b = w.s->read_buffer(); size_t n = b.size();
  for (size_t i = 0; i < n; ++i) {
    uint8_t c = b[i]; Quiet q;
    if (w.taken + i >= w.seen || c != (uint8_t)(w.given[w.taken + i] ^ 0xa5)) { violation("bytes-received", "after %s byte %lu of what was received is wrong", op, (unsigned long)(w.taken + i)); return; }
  }
  { Quiet q; w.taken += n; }
  b.clear();
}
inline void check_fill(const char* op, error_code ec, size_t n)
{
  Sess& w = *g; size_t sz = w.s->read_buffer().size();
  Quiet q; ++w.nfill; w.errs += !!ec;
  if (w.closed) return; // closing takes the buffers away
  if (sz != w.fill_had + n) violation("fill-count", "%s reports %lu bytes, the read buffer went from %lu to %lu", op, (unsigned long)n, (unsigned long)w.fill_had, (unsigned long)sz);
  if (!ec && !n) violation("fill-empty", "%s succeeded without any bytes", op);
  if (ec && !w.broken) violation("fill-error", "%s failed with %s:%d", op, ec.category().name(), ec.value());
  if (ec == asio::error::eof && w.broken && !w.how && w.after == ~(size_t)0) violation("fill-error", "%s reports the end of the stream", op);
}
inline void check_flush(const char* op, error_code ec, size_t n)
{
  Sess& w = *g; bool p = w.s->flush_pending();
  Quiet q; ++w.nflush; w.errs += !!ec;
  if (p) violation("flush-pending", "flush_pending() after %s", op);
  if (w.closed) return;
  if (n > w.flush_len || (!ec && n != w.flush_len)) violation("flush-count", "%s of %lu bytes reports %lu and %s:%d", op, (unsigned long)w.flush_len, (unsigned long)n, ec.category().name(), ec.value());
  if (ec && !w.broken) violation("flush-error", "%s failed with %s:%d", op, ec.category().name(), ec.value());
}
inline void shut()
{
  Sess& w = *g; error_code ec;
  bool was; { Quiet q; was = w.closed; w.closed = true; }
  if (was) return;
  w.s->close(ec);
  if (ec) violation("close", "close() failed with %d", ec.value());
  bool op = w.s->next_layer().is_open() || w.s->lowest_layer().is_open();
  if (op || w.s->write_buffer().size() || w.s->read_buffer().size()) violation("close", "close() left something behind");
}
inline void go_on()
{
  Sess& w = *g; bool fl, fi, end, mv;
  { Quiet q; end = w.closed || w.broken || (w.taken == w.total && !w.flush); mv = w.given.size() < w.total && wl_chance(70); }
  if (end) {
    bool rest; { Quiet q; rest = !w.closed && !w.fill; } // nothing that was received is lost
    if (rest) take("the end");
    bool now; { Quiet q; now = (!w.flush && !w.fill) || !w.broken; w.done = true; }
    if (now || flip()) { w.tm->cancel(); shut(); }
    return;
  }
  if (mv) put();
  fl = w.s->can_flush();
  { Quiet q; bool want = !w.flush; if (fl && !want) violation("flush-pending", "can_flush() while a flush is pending"); if (fl && w.given.size() < w.total) fl = wl_chance(80); fi = !w.fill && (w.given.size() > w.taken || wl_chance(20)); }
  if (fl) {
    size_t len = w.s->write_buffer().size();
    Rec* r = rec([](Rec& r) { { Quiet q; g->flush = 0; } check_flush("async_flush", r.ec, (size_t)r.val); go_on(); });
    { Quiet q; w.flush = r; w.flush_len = len; }
    w.s->async_flush(Hk(r, *w.sx));
    bool p = w.s->flush_pending(); if (!p) violation("flush-pending", "flush_pending() is false after async_flush() in the strand of its handler");
  }
  if (fi) {
    size_t had = w.s->read_buffer().size();
    Rec* r = rec([](Rec& r) { { Quiet q; g->fill = 0; } check_fill("async_fill", r.ec, (size_t)r.val); bool c; { Quiet q; c = g->closed; } if (!c) take("async_fill"); go_on(); });
    { Quiet q; w.fill = r; w.fill_had = had; }
    w.s->async_fill(Hk(r, *w.sx));
  }
  // nothing under way although there is something to be done: later
  bool idle; { Quiet q; idle = !w.posted && !w.flush && (!w.fill || w.seen < w.given.size() || w.given.size() < w.total); if (idle) w.posted = true; }
  if (idle) { if (!w.s->write_buffer().size()) put(); asio::post(*w.sx, [] { bool c; { Quiet q; g->posted = false; c = g->closed; } if (!c) go_on(); }); }
}
inline void sync_run()
{
  Sess& w = *g; error_code ec;
  tcp::endpoint ep(asio::ip::make_address_v4("10.1.0.1"), 7);
  w.s->next_layer().connect(ep, ec);
  if (ec) { violation("connect", "connecting to the peer failed with %d", ec.value()); return; }
  for (int i = 0; i < 400; ++i) {
    int k; bool stop, thr; { Quiet q; stop = w.taken == w.total; k = (int)wl(3); thr = flip(); if (k == 2 && w.seen == w.taken && w.s->write_buffer().size()) k = 1; }
    if (stop) break;
    if (k == 0) { put(); continue; }
    if (k == 1) {
      size_t len = w.s->write_buffer().size(); { Quiet q; w.flush_len = len; }
      size_t n = 0; ec = asio::error::in_progress;
      if (thr) { try { n = w.s->flush(); ec = error_code(); } catch (std::system_error& e) { ec = e.code(); } } else n = w.s->flush(ec);
      if (thr && ec) n = 0;
      check_flush("flush", ec, n);
    } else {
      bool due; { Quiet q; due = w.given.size() - w.s->write_buffer().size() > w.taken; }
      if (!due) continue; // it would wait for ever
      size_t had = w.s->read_buffer().size(); { Quiet q; w.fill_had = had; }
      size_t n = 0; ec = asio::error::in_progress;
      if (thr) { try { n = w.s->fill(); ec = error_code(); } catch (std::system_error& e) { ec = e.code(); } } else n = w.s->fill(ec);
      if (thr && ec) n = w.s->read_buffer().size() - had;
      check_fill("fill", ec, n);
      take("fill");
    }
    if (ec) break;
  }
  shut();
}
inline void sockets()
{
  uint64_t am = alloc_mark(); Sess* w; Echo* peer; int nt; bool sync, leave; size_t wmax;
  {
    Quiet q; race_detector(true); swarm_sched(true); net_reset(); w = g = raw_new<Sess>(); peer = raw_new<Echo>(); net_peer(peer);
    swarm_fault(f_net_segment, 70); swarm_fault(f_net_delay, 50); swarm_fault(f_net_eagain, 35); swarm_fault(f_stall, 25);
    set_fd_base(3 + (int)wl(3)); sync = wl_chance(30); nt = 1 + (int)wl(2); leave = !sync && wl_chance(10);
    w->total = 1 + wl(wl_chance(70) ? 600 : 6000); wmax = 6000 + wl(2000);
    if (wl_chance(30)) { w->after = wl((uint32_t)w->total + 1); w->how = (int)wl(2); }
    if (!sync && wl_chance(15)) w->timeout = true;
    NetEndpoint e; memset(&e, 0, sizeof e); e.family = AF_INET; e.port = 7; e.addr[0] = 10; e.addr[1] = 1; e.addr[3] = 1; net_outcome(e, c_accept, wl(2000));
  }
  w->io = new asio::io_context; asio::io_context& io = *w->io;
  w->s = new BSS(tcp::socket(io), wmax); w->sx = new StrandTag(asio::make_strand(io), 41); w->tm = new asio::steady_timer(io);
  if (!(w->s->get_executor() == io.get_executor())) violation("executor", "the stream's executor is not its socket's");
  if (sync) sync_run();
  else {
    if (w->timeout) {
      uint32_t us; { Quiet q; us = 1 + wl(30000); }
      w->tm->expires_after(std::chrono::microseconds(us));
      w->tm->async_wait(asio::bind_executor(*w->sx, [](const error_code& ec) { if (!ec) { { Quiet q; g->done = true; probe("closed by a timer"); } shut(); } }));
    }
    Rec* r = rec([](Rec& r) { bool c; { Quiet q; c = g->closed; if (r.ec && !c) violation("connect", "connecting to the peer failed with %d", r.ec.value()); g->connected = !c; } if (!c) { put(); go_on(); } });
    w->s->next_layer().async_connect(tcp::endpoint(asio::ip::make_address_v4("10.1.0.1"), 7), Hk(r, *w->sx));
    pthread_t t[2];
    for (int i = 0; i < nt; ++i) t[i] = go(run_main, &io);
    if (leave) {
      uint64_t us; { Quiet q; us = wl(20000); } sleep_us(us);
      io.stop(); for (int i = 0; i < nt; ++i) join(t[i]);
      Quiet q; for (Rec* x : w->recs) x->abandoning = true;
    } else {
      for (int i = 0; i < nt; ++i) join(t[i]);
      Quiet q; if (!w->done) violation("handler-lost", "run() ran out of work in the middle of the session");
      for (Rec* x : w->recs) if (!x->invoked) violation("handler-lost", "run() ran out of work but a handler was not invoked");
      if (!w->timeout && !w->broken && w->taken != w->total) violation("bytes-lost", "%lu of %lu bytes came back", (unsigned long)w->taken, (unsigned long)w->total);
    }
  }
  faults_enabled(false);
  delete w->tm;
  bool order; { Quiet q; order = flip(); }
  if (order || !leave) { delete w->s; delete w->sx; delete w->io; }
  else { shut(); delete w->s; delete w->sx; delete w->io; }
  {
    Quiet q; if (open_fd_count()) violation("leak-descriptor", "%d descriptors were never closed", open_fd_count());
    for (Rec* r : w->recs) { if (r->invoked + r->dropped != 1) violation("handler-lost", "a handler was %s", r->invoked ? "invoked and dropped" : "neither invoked nor destroyed"); if (r->live) violation("memory", "memory of a handler's allocator was never returned"); raw_delete(r); }
    probe("flushes", w->nflush); probe("fills", w->nfill); if (w->errs) probe("errors", w->errs); if (w->broken) probe("connections ended by the peer");
    if (w->nflush > 2 && w->nfill > 1) nontrivial();
    net_peer(0); raw_delete(peer); raw_delete(w); g = 0;
  }
  check_counted("handler objects (moved from, perhaps)");
  LeakInfo li = live_since(am);
  if (li.count) violation("leak", "%lu blocks were never freed", (unsigned long)li.count);
}
} // namespace bsk
#endif
