// The whole way through a proxy: resolve, connect, the SOCKS exchanges, then data, with
// real Asio sockets, timers, resolver and reactor on the simulated network.
#ifndef SCEN_TUNNEL_HPP
#define SCEN_TUNNEL_HPP
#include "scen/socks.hpp"
#include <asio/ip/tcp.hpp>
#include <asio/read.hpp>
#include <asio/write.hpp>
#include <asio/steady_timer.hpp>
#include <asio/bind_executor.hpp>
#include <asioext/connect.hpp>
#include <netdb.h>
#include <sys/socket.h>

namespace tn {
using namespace sk;
typedef asio::ip::tcp tcp;
// A completion token that starts the operation later, when the call has long returned, as
// coroutines and deferred operations do.
template <class H> struct Later { H h; };
}
namespace asio {
template <class H, class Sig> class async_result<tn::Later<H>, Sig> {
public:
  typedef H completion_handler_type; typedef void return_type;
  explicit async_result(completion_handler_type&) {}
  return_type get() {}
  template <class I, class T, class... A> static void initiate(I&& i, T&& t, A&&... a)
  {
    auto ex = t.h.get_executor();
    asio::post(ex, [i = std::decay_t<I>((I&&)i), h = std::move(t.h), a = std::tuple<std::decay_t<A>...>((A&&)a...)]() mutable {
      std::apply([&](auto&... x) { std::move(i)(std::move(h), std::move(x)...); }, a); });
  }
};
}
namespace tn {

struct H3 : HBase {
  typedef StrandTag executor_type; typedef RecAlloc<void> allocator_type;
  StrandTag ex; Rec* ar = r;
  H3(Rec* x, const StrandTag& e) : HBase(x), ex(e) {}
  executor_type get_executor() const noexcept { return ex; }
  allocator_type get_allocator() const noexcept { return allocator_type(ar); }
  void check() { Quiet q; if (ar->live) violation("memory", "%lu blocks of the handler's allocator are still allocated when the handler runs", (unsigned long)ar->live); }
  void operator()(const error_code& ec) { check(); call(ec, 0); }
  void operator()(const error_code& ec, const tcp::endpoint&) { check(); call(ec, 0); }
  template <class V> void operator()(const error_code& ec, V v) { check(); call(ec, (int64_t)v); }
};
struct TW { tcp::socket* s; Proxy* p; Rec* rec; StrandTag* sx; int bufk; asioext::linear_buffer* lb; std::string* str; std::vector<char>* vec; size_t max; int hk; bool later; };
template <class F> void with_both(TW& w, F f)
{
  if (w.later) { if (w.bufk == 0) f(asioext::dynamic_linear_buffer(*w.lb, w.max), Later<H3>{H3(w.rec, *w.sx)}); else f(asio::dynamic_buffer(*w.str, w.max), Later<H3>{H3(w.rec, *w.sx)}); }
  else if (w.bufk == 0) f(asioext::dynamic_linear_buffer(*w.lb, w.max), H3(w.rec, *w.sx));
  else if (w.bufk == 1) f(asio::dynamic_buffer(*w.str, w.max), H3(w.rec, *w.sx));
  else f(asio::dynamic_buffer(*w.vec, w.max), H3(w.rec, *w.sx));
}
enum Stage { t_connect, t_exchange, t_write, t_read, t_done };
struct Client {
  int id; TW w; Proxy p; tcp::resolver* res = 0; asio::steady_timer* tm = 0;
  Stage stage = t_connect; Ex plan[4]; int np = 0, at = 0; int conn = -1; bool closed = false, broken = false, answered = false, started = true;
  Bytes got, said; uint8_t* say = 0; size_t nsay = 0; uint8_t* in = 0; size_t nin = 0, nleft = 0; Bytes tail;
  std::vector<Rec*> recs; char host[24]; uint64_t timeout = 0;
};
struct All { Client* c[3]; int n = 0, left = 0; asio::io_context* io; uint64_t granted = 0, refused = 0, timeouts = 0, bytes = 0, ended = 0; } *all;

struct ProxyPeer : Peer {
  void on_connect(int) override {}
  void on_close(int, bool) override {}
  void on_data(int conn, const unsigned char* b, size_t n) override
  {
    Client* c = 0;
    for (int i = 0; i < all->n; ++i) if (all->c[i]->conn == conn) c = all->c[i];
    if (!c) { violation("request", "%lu bytes were sent to a proxy that no client is connected to", (unsigned long)n); return; }
    const char* x = xnames[c->p.x];
    if (c->stage == t_exchange) {
      if (!c->p.valid) { violation("request", "%s sent something although its arguments cannot be encoded", x); return; }
      c->got.insert(c->got.end(), b, b + n);
      if (c->got.size() > c->p.want.size() || !std::equal(c->got.begin(), c->got.end(), c->p.want.begin())) { violation("request", "%s sent %lu bytes that are not the start of its request of %lu", x, (unsigned long)c->got.size(), (unsigned long)c->p.want.size()); return; }
      if (c->got.size() < c->p.want.size()) return;
      c->answered = true;
      peer_send(conn, c->p.reply.data(), c->p.reply.size());
      if (judge(c->p).v == Verdict::fail) switch (draw(F, 4)) {
      case 0: case 1: c->broken = true; peer_fin(conn); break;
      case 2: c->broken = true; peer_rst(conn); break;
      default: break; // and never says anything again
      }
    } else if (c->stage == t_write || c->stage == t_read) {
      Bytes e;
      for (size_t i = 0; i < n; ++i) { c->said.push_back(b[i]); e.push_back((uint8_t)(b[i] ^ 0x5a)); }
      peer_send(conn, e.data(), e.size());
    } else violation("request", "%lu bytes were sent when nothing was to be sent", (unsigned long)n);
  }
};
void step(Client& c);
inline Rec* new_rec(Client& c)
{
  Quiet q; Rec* r = raw_new<Rec>(); r->tag = 31 + c.id; Client* pc = &c; r->then = [pc](Rec&) { step(*pc); };
  c.recs.push_back(r); c.w.rec = r; return r;
}
inline void finish(Client& c)
{
  error_code ec;
  { Quiet q; c.stage = t_done; }
  c.tm->cancel();
  c.w.s->close(ec);
  Quiet q; --all->left;
}
inline void next_exchange(Client& c)
{
  { Quiet q; c.p.x = c.plan[c.at]; c.p.last = c.at == c.np - 1; c.got.clear(); c.answered = false; c.stage = t_exchange; }
  Rec* r = new_rec(c);
  if (start(c.w)) return;
  { Quiet q; if (r->invoked) violation("failed-start", "%s threw and invoked its handler", xnames[c.p.x]); if (!r->dropped) violation("failed-start", "%s threw but keeps its handler", xnames[c.p.x]); if (r->live) violation("allocator", "%s threw and left %lu blocks of the handler's allocator", xnames[c.p.x], (unsigned long)r->live); if (!c.got.empty()) violation("failed-start", "%s threw and sent %lu bytes", xnames[c.p.x], (unsigned long)c.got.size()); }
  finish(c);
}
// Runs in the handler of the step that has just completed.
void step(Client& c)
{
  Rec& r = *c.w.rec;
  switch (c.stage) {
  case t_connect: {
    bool go_on; int fd = c.w.s->is_open() ? c.w.s->native_handle() : -1;
    { Quiet q; go_on = !r.ec && !c.closed; if (go_on) c.conn = conn_of_fd(fd); ev("tunnel-connected", c.id, r.ec.value()); }
    if (!go_on) { finish(c); return; }
    next_exchange(c);
    return; }
  case t_exchange: {
    const char* x = xnames[c.p.x]; bool ok = false, more = false; Verdict v; size_t left = stored(c.w);
    {
      Quiet q;
      v = judge(c.p);
      ev("tunnel-exchange", c.id, c.p.x, r.ec.value());
      if (!c.p.valid) {
        if (!r.ec) violation("invalid-accepted", "%s succeeded with arguments that cannot be encoded", x);
        else if (r.ec != asio::error::invalid_argument && !c.closed) violation("invalid-accepted", "%s with arguments that cannot be encoded reports %s:%d", x, r.ec.category().name(), r.ec.value());
      } else if (!r.ec) {
        if (!c.answered) violation("request", "%s succeeded although its request was not sent completely", x);
        else if (v.v == Verdict::fail) violation("bad-reply-accepted", "%s succeeded although the reply was negative or malformed", x);
        else if (c.p.x == x_greet && r.val != c.p.reply[1]) violation("method", "%s reports method %lld, the proxy chose %u", x, (long long)r.val, c.p.reply[1]);
        else ok = true;
      } else if (!c.closed) {
        if (!c.answered) violation("transport-error", "%s reports %s:%d before its request was sent", x, r.ec.category().name(), r.ec.value());
        else if (v.v == Verdict::ok) violation("good-reply-refused", "%s failed with %s:%d although the reply was positive and well-formed", x, r.ec.category().name(), r.ec.value());
        else if (v.v == Verdict::fail && v.exact && r.ec != v.ec) violation("wrong-error", "%s reports %s:%d instead of %s:%d", x, r.ec.category().name(), r.ec.value(), v.ec.category().name(), v.ec.value());
      }
      if (!ok || c.closed) all->refused++;
      more = ok && !c.closed && c.at + 1 < c.np;
      if (more && left) violation("stream-position", "%s left %lu bytes in the buffer although nothing follows the reply", x, (unsigned long)left);
    }
    if (!ok || c.closed) { finish(c); return; }
    if (more) { { Quiet q; c.at++; } next_exchange(c); return; }
    // the way to the target is open
    { Quiet q; c.stage = t_write; all->granted++; c.tail.assign(c.p.reply.begin() + (long)v.used, c.p.reply.end()); c.nsay = 1 + wl(wl_chance(80) ? 60 : 3000); c.nleft = left; if (left > c.tail.size()) { violation("stream-position", "%s left %lu bytes in the buffer, %lu follow the reply", x, (unsigned long)left, (unsigned long)c.tail.size()); c.tail.resize(left); } }
    for (size_t i = 0; i < left; ++i) { uint8_t b = stored_at(c.w, i); Quiet q; if (b != c.tail[i]) violation("stream-position", "%s left other bytes in the buffer than follow the reply", x); }
    c.say = new uint8_t[c.nsay];
    for (size_t i = 0; i < c.nsay; ++i) c.say[i] = (uint8_t)(i * 7 + (size_t)c.id);
    Rec* n = new_rec(c);
    asio::async_write(*c.w.s, asio::buffer(c.say, c.nsay), H3(n, *c.w.sx));
    return; }
  case t_write: {
    bool bad; size_t total;
    { Quiet q; bad = !!r.ec; if (bad && !c.closed) violation("unusable", "writing to the target failed with %s:%d", r.ec.category().name(), r.ec.value()); c.stage = t_read; total = c.nin = c.tail.size() - c.nleft + c.nsay; }
    if (bad) { finish(c); return; }
    c.in = new uint8_t[total];
    Rec* n = new_rec(c);
    asio::async_read(*c.w.s, asio::buffer(c.in, total), H3(n, *c.w.sx));
    return; }
  case t_read: {
    Bytes got; bool bad;
    { Quiet q; bad = !!r.ec; if (bad && !c.closed) violation("unusable", "reading from the target failed with %s:%d", r.ec.category().name(), r.ec.value()); }
    for (size_t i = 0; !bad && i < c.nin; ++i) { uint8_t b = c.in[i]; Quiet q; got.push_back(b); }
    if (!bad) {
      Quiet q; size_t t = c.tail.size() - c.nleft, wrong = 0;
      for (size_t i = 0; i < c.nin; ++i) if (got[i] != (i < t ? c.tail[c.nleft + i] : (uint8_t)(((i - t) * 7 + (size_t)c.id) ^ 0x5a))) ++wrong;
      if (wrong || c.said.size() != c.nsay) violation("stream-position", "%lu of %lu bytes that came from the target are wrong", (unsigned long)wrong, (unsigned long)c.nin);
      all->bytes += c.nin + c.nsay; nontrivial();
    }
    finish(c);
    return; }
  default: violation("handler-invoked-twice", "a handler was invoked after the end"); return;
  }
}
inline NetEndpoint proxy_ep(int id, int k)
{ NetEndpoint e; memset(&e, 0, sizeof e); e.family = AF_INET; e.port = 1080; e.addr[0] = 10; e.addr[1] = (uint8_t)id; e.addr[3] = (uint8_t)(1 + k); return e; }

inline void tunnel(bool v5)
{
  uint64_t am = alloc_mark();
  ProxyPeer* peer; int nt; bool leave, noalloc;
  {
    Quiet q; race_detector(true); swarm_sched(true); net_reset(); all = raw_new<All>(); peer = raw_new<ProxyPeer>();
    all->n = all->left = wl_chance(60) ? 1 : 2 + (int)wl(2); nt = 1 + (int)wl(2); leave = wl_chance(12);
    swarm_fault(f_net_segment, 70); swarm_fault(f_net_delay, 40); swarm_fault(f_net_eagain, 30); swarm_fault(f_stall, 25); set_fault(f_net_fin, wl_chance(40) ? 10000 : 0); set_fault(f_net_bytes, wl_chance(50) ? 14000 : 0); noalloc = wl_chance(10); if (noalloc) set_fault(f_alloc, 3000);
    set_fd_base(3 + (int)wl(3)); net_peer(peer);
  }
  faults_enabled(false);
  all->io = new asio::io_context; asio::io_context& io = *all->io;
  for (int i = 0; i < all->n; ++i) {
    Client* c;
    {
      Quiet q; c = all->c[i] = raw_new<Client>(); c->id = i; c->w = TW(); c->w.p = &c->p; c->w.bufk = (int)wl(3); c->w.later = !noalloc && wl_chance(25); if (c->w.later) { c->w.bufk &= 1; probe("exchanges started later"); }
      if (v5) { c->plan[c->np++] = x_greet; if (wl_chance(60)) c->plan[c->np++] = x_login; c->plan[c->np++] = flip() ? x_exec_host : x_exec_ep; }
      else c->plan[c->np++] = flip() ? x_v4_host : x_v4_ep;
      snprintf(c->host, sizeof c->host, "proxy%d.example", i);
      int ne = 1 + (int)wl(3); for (int k = 0; k < ne; ++k) { NetEndpoint e = proxy_ep(i, k); net_host(c->host, e); net_outcome(e, k == ne - 1 || flip() ? c_accept : c_refuse, wl_chance(50) ? 0 : wl(5000)); }
      c->timeout = wl_chance(75) ? 2000000 : 1 + wl(30000);
    }
    c->w.s = new tcp::socket(io); c->res = new tcp::resolver(io);
    c->w.sx = new StrandTag(asio::make_strand(io), 31 + i); c->tm = new asio::steady_timer(io);
    c->w.lb = new asioext::linear_buffer; c->w.str = new std::string; c->w.vec = new std::vector<char>;
  }
  faults_enabled(true);
  for (int i = 0; i < all->n; ++i) {
    Client* c = all->c[i];
    c->tm->expires_after(std::chrono::microseconds(c->timeout));
    c->tm->async_wait(asio::bind_executor(*c->w.sx, [c](const error_code& ec) {
      if (ec) return;
      bool act; { Quiet q; act = c->stage != t_done && !c->closed; c->closed = true; if (act) all->timeouts++; ev("tunnel-timeout", c->id, c->stage); }
      error_code e; if (act) { c->res->cancel(); c->w.s->close(e); }
    }));
    Rec* r = new_rec(*c);
    asioext::async_connect(*c->w.s, *c->res, c->host, "1080", asio::ip::resolver_base::flags(), H3(r, *c->w.sx));
  }
  pthread_t t[2];
  for (int i = 0; i < nt; ++i) t[i] = go(run_main, &io);
  if (leave) {
    uint64_t us; { Quiet q; us = wl(40000); } sleep_us(us);
    { Quiet q; for (int i = 0; i < all->n; ++i) for (Rec* r : all->c[i]->recs) r->abandoning = true; }
    bool more; do { // steps that start while the context is being stopped
      io.stop(); for (int i = 0; i < nt; ++i) if (t[i]) { join(t[i]); t[i] = 0; }
      more = false;
      Quiet q; for (int i = 0; i < all->n; ++i) for (Rec* r : all->c[i]->recs) r->abandoning = true;
    } while (more);
  } else {
    for (int i = 0; i < nt; ++i) join(t[i]);
    Quiet q; if (all->left) violation("handler-lost", "run() ran out of work although %d clients have not come to an end", all->left);
  }
  faults_enabled(false);
  for (int i = 0; i < all->n; ++i) {
    Client* c = all->c[i];
    delete c->tm; delete c->w.s; delete c->res; delete c->w.sx;
  }
  delete all->io;
  for (int i = 0; i < all->n; ++i) {
    Client* c = all->c[i];
    delete c->w.lb; delete c->w.str; delete c->w.vec; delete[] c->say; delete[] c->in;
    Quiet q;
    for (Rec* r : c->recs) {
      if (r->invoked + r->dropped != 1) violation("handler-lost", "client %d: a handler was %s", i, r->invoked ? "invoked and dropped" : "neither invoked nor destroyed");
      if (r->live) violation("memory", "client %d: memory of a handler's allocator was never returned", i);
      raw_delete(r);
    }
    raw_delete(c);
  }
  {
    Quiet q; if (open_fd_count()) violation("leak-descriptor", "%d descriptors were never closed", open_fd_count());
    probe("tunnels opened", all->granted); if (all->refused) probe("tunnels refused", all->refused); if (all->timeouts) probe("timeouts", all->timeouts); if (all->bytes) probe("bytes through tunnels", all->bytes);
    net_peer(0); raw_delete(peer); raw_delete(all); all = 0;
  }
  check_counted("handler objects (moved from, perhaps)");
  LeakInfo li = live_since(am);
  if (li.count) violation("leak", "%lu blocks were never freed", (unsigned long)li.count);
}
} // namespace tn
#endif
