// N03: connect() and async_connect() with real Asio sockets, resolver and reactor on
// the simulated network.
#include "scen/simstream.hpp"
#include <asio/ip/tcp.hpp>
#include <asio/read.hpp>
#include <asio/write.hpp>
#include <asio/bind_cancellation_slot.hpp>
#include <asio/cancellation_signal.hpp>
#include <asio/bind_executor.hpp>
#include <asio/steady_timer.hpp>
#include <asio/use_future.hpp>
#include <asio/use_awaitable.hpp>
#include <asio/co_spawn.hpp>
#include <asio/detached.hpp>
#include <asio/deferred.hpp>
#include <asioext/connect.hpp>
#include <netdb.h>
#include <sys/socket.h>

namespace {
using namespace ss;
using asio::error_code;
typedef asio::ip::tcp tcp;
typedef asio::ip::tcp::endpoint Endpoint;

struct Plan {
  char host[300], service[12]; unsigned port; int flags;
  int n; NetEndpoint ep[6]; int out[6]; uint64_t delay[6];
  bool empty;            // the resolver has no address for the host
  int gai, gsys; uint64_t rdelay;
  bool hang;
};
struct PeerP : Peer { // greets every connection with the number of the endpoint, echoes
  Plan* p; int conns = 0, closed = 0;
  void on_connect(int c) override { conns++; }
  void on_data(int c, const unsigned char* b, size_t n) override { peer_send(c, b, n); }
  void on_close(int, bool) override { closed++; }
};
NetEndpoint rnd_ep(unsigned port, int id)
{
  NetEndpoint e; memset(&e, 0, sizeof e);
  e.port = (uint16_t)port; e.family = flip() ? AF_INET : AF_INET6; e.addr[1] = (uint8_t)(id + 1);
  if (e.family == AF_INET) { e.addr[0] = 10; e.addr[3] = (uint8_t)(1 + wl(5)); } else { e.addr[0] = 0x20; e.addr[15] = (uint8_t)(1 + wl(5)); }
  return e;
}
bool eq(const NetEndpoint& a, const NetEndpoint& b) { return a.family == b.family && a.port == b.port && !memcmp(a.addr, b.addr, a.family == AF_INET ? 4 : 16); }
bool eq(const NetEndpoint& a, const Endpoint& b)
{
  if (a.port != b.port()) return false;
  if (a.family == AF_INET) { if (!b.address().is_v4()) return false; auto x = b.address().to_v4().to_bytes(); return !memcmp(x.data(), a.addr, 4); }
  if (!b.address().is_v6()) return false; auto x = b.address().to_v6().to_bytes(); return !memcmp(x.data(), a.addr, 16);
}
Endpoint to_asio(const NetEndpoint& e)
{
  if (e.family == AF_INET) { asio::ip::address_v4::bytes_type b; memcpy(b.data(), e.addr, 4); return Endpoint(asio::ip::address_v4(b), e.port); }
  asio::ip::address_v6::bytes_type b; memcpy(b.data(), e.addr, 16); return Endpoint(asio::ip::address_v6(b), e.port);
}
void make_plan(Plan& p, int id, bool may_hang)
{
  // (sometimes as long as a name gets)
  int pad = wl_chance(15) ? (int)wl(235) : 0; char label[240]; for (int i = 0; i < pad; ++i) label[i] = i % 50 == 49 ? '.' : (char)('a' + (i + id) % 26); label[pad] = 0;
  snprintf(p.host, sizeof p.host, "host%d.%sexample", id, label);
  p.port = 1 + wl(65535); snprintf(p.service, sizeof p.service, "%u", p.port);
  if (wl_chance(10)) { p.port = 0; p.service[0] = 0; }
  static const int fl[] = {0, AI_CANONNAME, AI_PASSIVE, AI_NUMERICSERV, AI_ADDRCONFIG, AI_V4MAPPED, AI_ALL | AI_V4MAPPED, AI_NUMERICSERV | AI_ADDRCONFIG};
  p.flags = fl[wl(8)];
  p.n = wl_chance(8) ? 0 : 1 + (int)wl(6); p.empty = p.n == 0; p.gai = 0; p.hang = false;
  uint32_t good = wl(4); // how likely an endpoint accepts
  static const int bad[] = {c_refuse, c_unreach, c_timeout};
  if (p.empty) net_host(p.host);
  for (int i = 0; i < p.n; ++i) {
    int tries = 0;
    for (;;) { // mostly distinct, sometimes the same endpoint twice
      p.ep[i] = rnd_ep(p.port, id); bool dup = false;
      for (int j = 0; j < i; ++j) if (eq(p.ep[j], p.ep[i])) { dup = true; p.out[i] = p.out[j]; p.delay[i] = p.delay[j]; }
      if (!dup) { p.out[i] = wl(4) < good ? c_accept : bad[wl(3)]; p.delay[i] = wl_chance(40) ? 0 : wl(wl_chance(10) ? 2000000 : 20000); if (may_hang && wl_chance(20)) { p.out[i] = c_hang; } }
      if (!dup || wl_chance(30) || ++tries > 5) break;
    }
    if (p.out[i] == c_hang) p.hang = true;
    net_host(p.host, p.ep[i]); net_outcome(p.ep[i], (ConnOutcome)p.out[i], p.delay[i]);
  }
  if (wl_chance(8)) { static const int g[] = {EAI_NONAME, EAI_AGAIN, EAI_FAIL, EAI_MEMORY, EAI_SYSTEM}; p.gai = g[wl(5)]; p.gsys = EIO; net_resolve_error(p.host, p.gai, p.gsys); }
  p.rdelay = wl_chance(50) ? 0 : wl(30000); net_resolve_delay(p.rdelay);
  ev("plan", p.n, p.gai, p.flags, p.port);
}
// A name in the midst of other text, as parsers hand it out.
struct Part
{
  std::string buf; std::string_view v;
  explicit Part(const char* t) { size_t n = strlen(t); buf = std::string("=") + t + "9x"; v = std::string_view(buf).substr(1, n); }
  Part(const Part&) = delete;
  ~Part() { for (auto& c : buf) c = '!'; }
};
error_code gai_code(int g, int sys)
{ // as Asio translates the resolver's errors
  switch (g) {
  case 0: return error_code();
  case EAI_AGAIN: return asio::error::host_not_found_try_again;
  case EAI_BADFLAGS: return asio::error::invalid_argument;
  case EAI_FAIL: return asio::error::no_recovery;
  case EAI_FAMILY: return asio::error::address_family_not_supported;
  case EAI_MEMORY: return asio::error::no_memory;
  case EAI_NONAME: case EAI_NODATA: return asio::error::host_not_found;
  case EAI_SERVICE: return asio::error::service_not_found;
  case EAI_SOCKTYPE: return asio::error::socket_type_not_supported;
  default: return error_code(sys, asio::system_category());
  }
}
int conn_errno(int out) { return out == c_accept ? 0 : out == c_refuse ? ECONNREFUSED : out == c_unreach ? ENETUNREACH : out == c_timeout ? ETIMEDOUT : EHOSTUNREACH; }

struct Mark { size_t sys, conn, res; uint64_t seq; int max_ofd; };
Mark mark() { Mark m = {nsys(), nconn(), nresolve(), seq(), -1}; return m; }
struct Expect { error_code ec; int idx = -1; int attempts = 0; bool cut = false; int fd = -1; bool nosock = false, last_nosock = false; };
// What the recorded system calls of one operation amount to; checks their order. Quiet.
Expect judge(const Plan& p, const Mark& m, bool async, bool cancelled, int id = -1)
{
  Expect x;
  size_t nr = 0, ri = 0, nc = 0; // with several operations at work, each has its host and its addresses
  for (size_t k = m.res; k < nresolve(); ++k) if (id < 0 || !strcmp(resolverec(k).host, p.host)) { ++nr; ri = k; }
  for (size_t k = m.conn; k < nconn(); ++k) if (id < 0 || connrec(k).ep.addr[1] == id + 1) ++nc;
  if (nr != 1) { if (!(cancelled && nr == 0)) violation("resolve", "the host was resolved %lu times", (unsigned long)nr); x.cut = true; return x; }
  const ResolveRec& r = resolverec(ri);
  if (strcmp(r.host, p.host) || strcmp(r.service, p.service)) violation("resolve", "resolved \"%s\" \"%s\" instead of \"%s\" \"%s\"", r.host, r.service, p.host, p.service);
  if (r.flags != p.flags) violation("resolve-flags", "resolved with flags %d instead of %d", r.flags, p.flags);
  if (r.gai) {
    if (nc) violation("attempts", "a connection was attempted although the host could not be resolved");
    x.ec = gai_code(r.gai, r.sys);
    return x;
  }
  if (p.empty) { if (nc) violation("attempts", "a connection was attempted although there is no endpoint"); x.ec = asio::error::not_found; return x; }
  int i = 0; size_t c = m.conn; std::vector<int> used;
  for (size_t k = m.sys; k < nsys(); ++k) {
    const SysRec& s = sysrec(k);
    bool sock = !strcmp(s.name, "socket") && s.ret < 0, con = !strcmp(s.name, "connect");
    if (!sock && !con) continue;
    if (con && id >= 0 && connrec(c).ep.addr[1] != id + 1) { ++c; continue; }
    if (s.seq < r.seq) { violation("attempts", "a connection was attempted before the host was resolved"); return x; }
    if (x.idx >= 0 && cancelled) x.idx = -1; // its attempt was aborted in time
    if (x.idx >= 0) { violation("attempts", "after an endpoint accepted, another connection was attempted"); return x; }
    if (i >= p.n) { violation("attempts", "more connections were attempted than there are endpoints"); return x; }
    x.attempts++;
    if (sock) { x.ec = error_code(s.err, asio::system_category()); x.nosock = true; ++i; continue; }
    x.nosock = false;
    const ConnRec& a = connrec(c++);
    if (!eq(a.ep, p.ep[i])) { violation("order", "attempt %d was made to another endpoint", i); return x; }
    if (a.reused) { violation("fresh-socket", "attempt %d was made on a socket whose earlier attempt failed", i); return x; }
    for (int o : used) if (o == a.ofd) { violation("fresh-socket", "attempt %d was made on the socket of an earlier attempt", i); return x; }
    used.push_back(a.ofd);
    if (a.ofd <= m.max_ofd) { violation("fresh-socket", "attempt %d was made on the socket that was open before", i); return x; }
    int e = a.err == EINPROGRESS ? conn_errno(p.out[i]) : a.err;
    x.ec = error_code(e, asio::system_category());
    if (!e) { x.idx = i; x.fd = a.fd; }
    ++i;
  }
  // Asio's async_connect takes a socket that could not be created for one that was closed, and gives up
  if (async && x.idx < 0 && x.nosock && i < p.n) x.ec = asio::error::operation_aborted;
  else if (async && x.idx < 0 && x.nosock) x.last_nosock = true;
  else if (x.idx < 0 && i < p.n) { if (!cancelled) violation("attempts", "only %d of %d endpoints were tried although none accepted", i, p.n); x.cut = true; }
  return x;
}
struct Totals { uint64_t ops = 0, ok = 0, attempts = 0, resfail = 0, empty = 0, cancels = 0, abandoned = 0; } tot;
void check_result(const Plan& p, const Mark& m, const Expect& x, const error_code& ec, const Endpoint* ep)
{
  tot.ops++; tot.attempts += (uint64_t)x.attempts; if (!ec) tot.ok++;
  if (x.ec != ec && (x.ec || ec) && !(x.last_nosock && ec == asio::error::operation_aborted)) {
    if (p.empty && ec) violation("not-found", "there is no endpoint to try, reported is %s", ec.message().c_str());
    else violation("error", "reported is \"%s\", the last attempt ended with \"%s\"", ec.message().c_str(), x.ec.message().c_str());
  }
  if (ep) {
    if (!ec) { if (!eq(p.ep[x.idx], *ep)) violation("endpoint", "another endpoint is reported than the one that accepted"); }
    else if (*ep != Endpoint()) violation("endpoint", "an endpoint is reported together with an error");
  }
}
// Talks over a connected socket.
template <class S> void use(S& s, int fd)
{
  unsigned char out[5] = {1, 2, 3, 4, 5}, in[5] = {0}; error_code ec;
  asio::write(s, asio::buffer(out), ec);
  if (!ec) asio::read(s, asio::buffer(in), ec);
  Quiet q;
  if (ec) violation("unusable", "the connected socket cannot be used: %s", ec.message().c_str());
  else if (memcmp(in, out, 5)) violation("unusable", "the connected socket does not carry data");
}
int max_ofd() { int m = -1; for (size_t i = 0; i < nsys(); ++i) if (!strcmp(sysrec(i).name, "socket") && sysrec(i).ofd > m) m = sysrec(i).ofd; return m; }
// A socket in some earlier state: closed, open, connected, or with a failed attempt.
void prepare(tcp::socket& s, int how)
{
  error_code ec;
  if (how == 1) s.open(tcp::v4(), ec);
  else if (how == 2) s.open(tcp::v6(), ec);
  else if (how >= 3) {
    NetEndpoint e; { Quiet q; memset(&e, 0, sizeof e); e.family = AF_INET; e.port = 9; e.addr[0] = 127; e.addr[3] = 99; net_outcome(e, how == 3 ? c_accept : c_refuse, 0); }
    s.connect(to_asio(e), ec);
    bool nb; { Quiet q; nb = flip(); }
    if (nb) s.non_blocking(true, ec);
  }
}
void common(PeerP* peer)
{
  net_reset(); tot = Totals();
  swarm_fault(f_resolve_err, 15); swarm_fault(f_sock_err, 30); swarm_fault(f_conn_err, 25); swarm_fault(f_close_err, 30);
  swarm_fault(f_net_segment, 30); swarm_fault(f_net_delay, 40); swarm_fault(f_net_eagain, 20); swarm_fault(f_stall, 30);
  set_fd_base(3 + (int)wl(3)); net_peer(peer);
}

// ------------------------------------------------------------------ synchronous
void sync_connect()
{
  uint64_t am = alloc_mark();
  PeerP* peer; int n;
  { Quiet q; race_detector(false); swarm_sched(true); peer = raw_new<PeerP>(); n = 1 + (int)wl(4); }
  { Quiet q; common(peer); }
  auto* io = new asio::io_context; 
  {
    faults_enabled(false); // the context's own descriptors are not the subject
    tcp::socket s(*io); tcp::resolver r(*io);
    faults_enabled(true);
    for (int k = 0; k < n; ++k) {
      Plan p; int how; bool thr; Mark m; error_code ec;
      { Quiet q; make_plan(p, k, false); peer->p = &p; how = (int)wl(5); thr = flip(); ec = wl_chance(30) ? error_code(asio::error::fault) : error_code(); }
      if (how < 5) { bool pr; { Quiet q; pr = k == 0 || flip(); if (pr) faults_enabled(false); } if (pr) { error_code e2; s.close(e2); prepare(s, how); Quiet q; faults_enabled(true); } }
      { Quiet q; m = mark(); m.max_ofd = max_ofd(); }
      auto fl = (asio::ip::resolver_base::flags)p.flags; Part hb(p.host), sb(p.service);
      if (thr) { try { asioext::connect(s, r, hb.v, sb.v, fl); ec = error_code(); } catch (const asio::system_error& e) { ec = e.code(); } }
      else asioext::connect(s, r, hb.v, sb.v, fl, ec);
      Expect x; int fds; bool open = s.is_open(); int fd = open ? s.native_handle() : -1;
      {
        Quiet q;
        x = judge(p, m, false, false);
        check_result(p, m, x, ec, 0);
        fds = open_sockets();
        if (fds != (open ? 1 : 0)) violation("leak-descriptor", "%d sockets are open although the socket object is %s", fds, open ? "open" : "closed");
        if (!ec) { NetEndpoint e; if (!open || !socket_connected(fd, &e) || !eq(e, p.ep[x.idx])) violation("connected", "success is reported but the socket is not connected to the endpoint that accepted"); }
        if (x.attempts && (x.attempts > 1 || ec)) nontrivial();
      }
      if (!ec) use(s, fd);
      else if (open) { Quiet q; if (socket_connected(fd, 0) && x.attempts) violation("connected", "an error is reported but the socket is connected"); }
    }
    faults_enabled(false);
  }
  { Quiet q; if (open_sockets()) violation("leak-descriptor", "%d sockets are still open after the socket object was destroyed", open_sockets()); }
  delete io;
  {
    Quiet q;
    if (open_fd_count()) violation("leak-descriptor", "%d descriptors were never closed", open_fd_count());
    probe("connect operations", tot.ops); probe("successful", tot.ok); probe("attempts", tot.attempts);
    net_peer(0); raw_delete(peer);
  }
  check_counted("handler objects (moved from, perhaps)");
  LeakInfo li = live_since(am);
  if (li.count) violation("leak", "%lu blocks were never freed", (unsigned long)li.count);
}

// ------------------------------------------------------------------ asynchronous
struct AOp;
struct Shared { asio::io_context* io; AOp* op[3]; int n; bool stop_done; int left; } *sh;
struct AOp {
  Rec r; Plan p; Mark m; int hk = 0, id = 0; Endpoint ep; bool has = false; uint64_t done_seq = 0; size_t nsys_at_end = 0;
  tcp::socket* s = 0; tcp::resolver* res = 0; bool cancelled = false; int cancel_kind = 0; uint64_t cancel_at = 0;
  asio::cancellation_signal* sig = 0; int fd = -1; bool open = false; bool connected = false; NetEndpoint cep;
};
struct AH : HBase {
  AOp* o;
  explicit AH(AOp* x) : HBase(&x->r), o(x) {}
  AH(AH&&) = default;
  void operator()(const error_code& ec, const Endpoint& ep)
  {
    AOp* x = o;
    { Quiet q; x->ep = ep; x->has = true; if (x->r.live) violation("memory", "%lu blocks of the handler's allocator are still allocated when the handler runs", (unsigned long)x->r.live); }
    call(ec, 0);
  }
};
struct AH1 : AH {
  typedef IoEx executor_type; typedef RecAlloc<void> allocator_type; IoEx ex;
  AH1(AOp* x, const IoEx& e) : AH(x), ex(e) {}
  executor_type get_executor() const noexcept { return ex; }
  allocator_type get_allocator() const noexcept { return allocator_type(&o->r); }
};
struct AH2 : AH {
  typedef StrandTag executor_type; typedef RecAlloc<void> allocator_type; StrandTag ex;
  AH2(AOp* x, const StrandTag& e) : AH(x), ex(e) {}
  executor_type get_executor() const noexcept { return ex; }
  allocator_type get_allocator() const noexcept { return allocator_type(&o->r); }
};
void on_done(Rec& r)
{
  for (int i = 0; i < sh->n; ++i) if (&sh->op[i]->r == &r) {
    AOp& o = *sh->op[i];
    bool open = o.s->is_open(); int fd = open ? o.s->native_handle() : -1;
    Quiet q;
    o.open = open; o.fd = fd; o.done_seq = seq(); o.nsys_at_end = nsys();
    o.connected = open && socket_connected(fd, &o.cep);
    --sh->left;
  }
}
void do_cancel(AOp* o)
{
  { Quiet q; if (o->r.invoked) return; o->cancelled = true; tot.cancels++; ev("cancel", o->cancel_kind); }
  error_code ec;
  switch (o->cancel_kind) {
  case 0: o->res->cancel(); break;
  case 1: o->s->cancel(ec); break;
  case 2: o->s->close(ec); break;
  default: if (o->sig) o->sig->emit(asio::cancellation_type::terminal); break;
  }
}
void async_connect()
{
  uint64_t am = alloc_mark();
  PeerP* peer; int nt; bool leave, cancels;
  {
    Quiet q; race_detector(true); swarm_sched(true); peer = raw_new<PeerP>(); sh = raw_new<Shared>();
    sh->n = wl_chance(75) ? 1 : 2 + (int)wl(2); nt = 1 + (int)wl(2); leave = wl_chance(15); cancels = wl_chance(30); sh->stop_done = false; sh->left = sh->n;
    common(peer); if (sh->n > 1) set_fault(f_sock_err, 0); // which one could not create its socket would not be known
  }
  faults_enabled(false);
  sh->io = new asio::io_context;
  asio::io_context& io = *sh->io;
  // the resolver may belong to another context
  asio::io_context* io2 = 0; asio::executor_work_guard<asio::io_context::executor_type>* guard2 = 0; pthread_t t2;
  bool two; { Quiet q; two = !leave && wl_chance(25); if (two) probe("resolver of another context"); }
  if (two) { io2 = new asio::io_context; guard2 = new asio::executor_work_guard<asio::io_context::executor_type>(io2->get_executor()); t2 = go(run_main, io2); }
  auto* hex = new IoEx(io.get_executor(), 11);
  StrandTag* sx[3];
  for (int i = 0; i < sh->n; ++i) {
    AOp* o; int how;
    { Quiet q; o = sh->op[i] = raw_new<AOp>(); o->id = i; make_plan(o->p, i, leave || cancels); o->hk = (int)wl(3); if (cancels) o->hk = 2; how = (int)wl(5); o->r.then = on_done; }
    sx[i] = new StrandTag(asio::make_strand(io), 21 + i);
    { Quiet q; o->r.tag = o->hk == 0 ? 31 + i : o->hk == 1 ? 11 : 21 + i; if (cancels) { o->cancel_kind = (int)wl(4); o->cancel_at = 1 + wl(40000); } }
    // the socket's executor is what a handler without its own runs on
    o->s = o->hk ? new tcp::socket(io) : new tcp::socket(asio::any_io_executor(IoEx(io.get_executor(), 31 + i))); o->res = new tcp::resolver(io2 ? *io2 : io);
    if (o->cancel_kind == 3) o->sig = new asio::cancellation_signal;
    prepare(*o->s, how);
  }
  { Quiet q; int mo = max_ofd(); for (int i = 0; i < sh->n; ++i) { sh->op[i]->m = mark(); sh->op[i]->m.max_ofd = mo; } }
  faults_enabled(true);
  auto guard = new asio::executor_work_guard<asio::io_context::executor_type>(io.get_executor());
  pthread_t t[2];
  for (int i = 0; i < nt; ++i) t[i] = go(run_main, &io);
  for (int i = 0; i < sh->n; ++i) {
    AOp* o = sh->op[i];
    auto fl = (asio::ip::resolver_base::flags)o->p.flags;
    Part hb(o->p.host), sb(o->p.service); std::string_view h = hb.v, sv = sb.v;
    { Quiet q; th().in_init = o; }
    if (o->hk == 0) asioext::async_connect(*o->s, *o->res, h, sv, fl, AH(o));
    else if (o->hk == 1) asioext::async_connect(*o->s, *o->res, h, sv, fl, AH1(o, *hex));
    else if (o->sig) asioext::async_connect(*o->s, *o->res, h, sv, fl, asio::bind_cancellation_slot(o->sig->slot(), AH2(o, *sx[i])));
    else asioext::async_connect(*o->s, *o->res, h, sv, fl, AH2(o, *sx[i]));
    { Quiet q; th().in_init = 0; }
  }
  { // no more work is needed than the operations have themselves
    bool early; { Quiet q; early = !cancels && flip(); } if (early) { delete guard; guard = 0; }
  }
  uint64_t waited = 0, limit; { Quiet q; limit = leave ? wl(60000) : 120000000; }
  for (;;) {
    bool done; { Quiet q; done = sh->left == 0; }
    if (done || waited > limit) break;
    if (cancels && !leave) for (int i = 0; i < sh->n; ++i) {
      AOp* o = sh->op[i]; bool now;
      { Quiet q; now = o->cancel_at && waited >= o->cancel_at && !o->r.invoked; if (now) { if (o->cancelled) o->cancel_kind = 2; o->cancel_at = waited + 500000; } }
      if (now) asio::post(*sx[i], [o] { do_cancel(o); });
    }
    uint64_t us = waited < 5000 ? 100 : waited < 100000 ? 2000 : 50000; sleep_us(us); waited += us;
  }
  if (!leave) { for (int i = 0; i < sh->n; ++i) if (!sh->op[i]->r.invoked) { Plan& p = sh->op[i]->p; (void)p; violation("handler-lost", "operation %d never completed", i); } }
  else { Quiet q; for (int i = 0; i < sh->n; ++i) if (!sh->op[i]->r.invoked) { sh->op[i]->r.abandoning = true; tot.abandoned++; } Loud l; io.stop(); }
  delete guard;
  for (int i = 0; i < nt; ++i) join(t[i]); // hangs when work is never released
  if (io2) { delete guard2; join(t2); }
  faults_enabled(false);
  for (int i = 0; i < sh->n; ++i) {
    AOp* o = sh->op[i]; bool ok;
    {
      Quiet q;
      ok = o->r.invoked == 1 && !o->r.ec;
      if (o->r.invoked) {
        Expect x = judge(o->p, o->m, true, o->cancelled, sh->n > 1 ? i : -1);
        if (!o->cancelled) check_result(o->p, o->m, x, o->r.ec, &o->ep);
        else {
          tot.ops++;
          bool abo = o->r.ec == asio::error::operation_aborted;
          if (!o->r.ec && (x.idx < 0 || !eq(o->p.ep[x.idx], o->ep))) violation("endpoint", "success is reported with an endpoint that did not accept");
          if (o->r.ec && !abo && !x.cut && x.idx < 0 && o->r.ec != x.ec) violation("error", "reported is \"%s\", the last attempt ended with \"%s\"", o->r.ec.message().c_str(), x.ec.message().c_str());
          if (o->r.ec && o->ep != Endpoint()) violation("endpoint", "an endpoint is reported together with an error");
        }
        if (x.attempts && (x.attempts > 1 || o->r.ec)) nontrivial();
      }
      if (ok) {
        int at = -1; for (int k = 0; k < o->p.n; ++k) if (eq(o->p.ep[k], o->ep)) at = k;
        if (at < 0 || o->p.out[at] != c_accept) violation("endpoint", "success is reported with an endpoint that did not accept");
        if (!o->connected || !eq(o->cep, o->ep)) violation("connected", "success is reported but the socket is not connected to the reported endpoint");
      } else if (o->r.invoked && o->connected && !o->cancelled) {
        bool mine = false; for (int k = 0; k < o->p.n; ++k) if (eq(o->p.ep[k], o->cep)) mine = true;
        if (mine) violation("connected", "an error is reported but the socket is connected");
      }
    }
    if (ok && !leave) { faults_enabled(true); use(*o->s, o->fd); faults_enabled(false); }
  }
  if (!leave) { // no descriptors but those of the socket objects
    Quiet q; int want = 0; for (int i = 0; i < sh->n; ++i) { Loud l; if (sh->op[i]->s->is_open()) ++want; }
    if (open_sockets() != want) violation("leak-descriptor", "%d sockets are open, %d socket objects are", open_sockets(), want);
  }
  bool ctx_first; { Quiet q; ctx_first = leave && flip(); }
  if (!ctx_first) for (int i = 0; i < sh->n; ++i) { delete sh->op[i]->s; delete sh->op[i]->res; }
  for (int i = 0; i < sh->n; ++i) delete sx[i];
  if (!ctx_first) { delete hex; delete sh->io; }
  else { // sockets must not outlive their context in Asio; they go right before it
    for (int i = 0; i < sh->n; ++i) { delete sh->op[i]->res; delete sh->op[i]->s; }
    delete hex; delete sh->io;
  }
  delete io2;
  for (int i = 0; i < sh->n; ++i) delete sh->op[i]->sig;
  {
    Quiet q;
    for (int i = 0; i < sh->n; ++i) {
      AOp* o = sh->op[i];
      if (o->r.invoked + o->r.dropped != 1) violation("handler-lost", "operation %d: its handler was %s", i, o->r.invoked ? "invoked and dropped" : "neither invoked nor destroyed");
      if (o->r.live) violation("memory", "operation %d: memory of the handler's allocator was never returned", i);
    }
    if (open_fd_count()) violation("leak-descriptor", "%d descriptors were never closed", open_fd_count());
    probe("connect operations", tot.ops); probe("successful", tot.ok); probe("attempts", tot.attempts); if (tot.cancels) probe("cancelled", tot.cancels); if (tot.abandoned) probe("abandoned", tot.abandoned);
    for (int i = 0; i < sh->n; ++i) raw_delete(sh->op[i]);
    net_peer(0); raw_delete(peer); raw_delete(sh); sh = 0;
  }
  check_counted("handler objects (moved from, perhaps)");
  LeakInfo li = live_since(am);
  if (li.count) violation("leak", "%lu blocks were never freed", (unsigned long)li.count);
}

// ------------------------------------------------------------------ completion tokens
// Futures, coroutines and operations that are started long after they have been put together.
struct Tok { tcp::socket* s; tcp::resolver* r; Plan p; Mark m; asio::ip::resolver_base::flags fl; bool done = false; error_code ec; Endpoint ep; bool has = false; } *tk;
void tok_done(const error_code& ec, const Endpoint* ep)
{ Quiet q; if (tk->done) violation("handler-invoked-twice", "the operation completed twice"); tk->done = true; tk->ec = ec; if (ep) { tk->ep = *ep; tk->has = true; } ev("completed", ec.value()); }
template <class T> auto tok_start(T&& t)
{
  Part hb(tk->p.host), sb(tk->p.service); std::string_view h = hb.v, sv = sb.v; // gone when this returns
  return asioext::async_connect(*tk->s, *tk->r, h, sv, tk->fl, std::forward<T>(t));
}
asio::awaitable<void> tok_coro(int how, uint64_t us)
{
  error_code ec; Endpoint ep; bool ok = false;
  try {
    if (how == 1) ep = co_await asioext::async_connect(*tk->s, *tk->r, std::string(tk->p.host), std::string(tk->p.service), tk->fl, asio::use_awaitable);
    else {
      auto a = tok_start(asio::use_awaitable);
      if (us) { asio::steady_timer t(co_await asio::this_coro::executor); t.expires_after(std::chrono::microseconds(us)); co_await t.async_wait(asio::use_awaitable); }
      ep = co_await std::move(a);
    }
    ok = true;
  } catch (const asio::system_error& e) { ec = e.code(); }
  tok_done(ec, ok ? &ep : 0);
}
void tokens()
{
  uint64_t am = alloc_mark();
  PeerP* peer; int nt, how, pre; uint64_t us;
  {
    Quiet q; race_detector(true); swarm_sched(true); peer = raw_new<PeerP>(); tk = raw_new<Tok>(); common(peer);
    nt = 1 + (int)wl(2); how = (int)wl(4); pre = (int)wl(5); us = wl_chance(60) ? 0 : wl(20000);
    make_plan(tk->p, 0, false); peer->p = &tk->p; tk->fl = (asio::ip::resolver_base::flags)tk->p.flags;
  }
  faults_enabled(false);
  auto* io = new asio::io_context; tk->s = new tcp::socket(*io); tk->r = new tcp::resolver(*io);
  prepare(*tk->s, pre);
  { Quiet q; tk->m = mark(); tk->m.max_ofd = max_ofd(); }
  faults_enabled(true);
  pthread_t t[2];
  {
    auto* guard = new asio::executor_work_guard<asio::io_context::executor_type>(io->get_executor());
    for (int i = 0; i < nt; ++i) t[i] = go(run_main, io);
    if (how == 0) {
      std::future<Endpoint> f = tok_start(asio::use_future);
      if (us) sleep_us(us);
      error_code ec; Endpoint ep; bool ok = false;
      try { ep = f.get(); ok = true; } catch (const asio::system_error& e) { ec = e.code(); }
      tok_done(ec, ok ? &ep : 0);
      delete guard;
    } else if (how < 3) {
      asio::co_spawn(*io, tok_coro(how, us), asio::detached);
      delete guard;
    } else {
      auto d = tok_start(asio::deferred);
      if (us) sleep_us(us);
      std::move(d)(asio::bind_executor(io->get_executor(), [](const error_code& ec, const Endpoint& ep) { tok_done(ec, &ep); }));
      delete guard;
    }
  }
  for (int i = 0; i < nt; ++i) join(t[i]);
  faults_enabled(false);
  bool open = tk->s->is_open(); int fd = open ? tk->s->native_handle() : -1;
  {
    Quiet q;
    if (!tk->done) violation("handler-lost", "run() ran out of work but the operation has not completed");
    Expect x = judge(tk->p, tk->m, true, false);
    check_result(tk->p, tk->m, x, tk->ec, tk->has ? &tk->ep : 0);
    if (open_sockets() != (open ? 1 : 0)) violation("leak-descriptor", "%d sockets are open although the socket object is %s", open_sockets(), open ? "open" : "closed");
    if (!tk->ec) { NetEndpoint e; if (!open || !socket_connected(fd, &e) || !eq(e, tk->ep)) violation("connected", "success is reported but the socket is not connected to the reported endpoint"); }
    if (x.attempts) nontrivial();
    static const char* const names[] = {"futures", "coroutines", "coroutines started later", "operations started later"}; probe(names[how]);
  }
  if (!tk->ec) use(*tk->s, fd);
  delete tk->s; delete tk->r; delete io;
  {
    Quiet q;
    if (open_fd_count()) violation("leak-descriptor", "%d descriptors were never closed", open_fd_count());
    probe("connect operations", tot.ops); probe("successful", tot.ok); probe("attempts", tot.attempts);
    net_peer(0); raw_delete(peer); raw_delete(tk); tk = 0;
  }
  check_counted("handler objects (moved from, perhaps)");
  LeakInfo li = live_since(am);
  if (li.count) violation("leak", "%lu blocks were never freed", (unsigned long)li.count);
}
}
SCENARIO_W(N03, sync, 2) { sync_connect(); }
SCENARIO_W(N03, async, 4) { async_connect(); }
SCENARIO(N03, tokens) { tokens(); }
