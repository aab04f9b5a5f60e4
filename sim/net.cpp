// Simulated kernel, part 2: sockets, resolver, epoll, eventfd, timerfd, poll.
// Connections lead to simulated peers; every outcome and delay is decided by the
// run's seed (or set per endpoint by the scenario).
#include "kernel.hpp"
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/timerfd.h>
#include <sys/ioctl.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <poll.h>
#include <new>

namespace simcore {
using namespace sim;

enum SState { s_new, s_connecting, s_connected, s_failed };
struct SockState {
  int state = s_new, err = 0, family = 0, conn = -1;
  NetEndpoint ep;
  uint64_t token = 0;
  Vec<unsigned char> in; size_t rd = 0;
  bool eof = false, rst = false, wshut = false;
};
struct ResRec { Str host; int gai = 0, sys = 0; Vec<NetEndpoint> eps; };
struct OutRec { NetEndpoint ep; int outcome; uint64_t delay; };
struct Conn { Ofd* o; uint64_t last; }; // last: latest delivery time scheduled
static Vec<ResRec>* g_hosts;
static Vec<OutRec>* g_outs;
static Vec<Conn>* g_conns;
static Vec<ConnRec>* g_attempts;
static Vec<ResolveRec>* g_resolves;
static Peer* g_peer;
static uint64_t g_resolve_delay;

static bool same(const NetEndpoint& a, const NetEndpoint& b)
{
  return a.family == b.family && a.port == b.port && !memcmp(a.addr, b.addr, a.family == AF_INET ? 4 : 16);
}
static void init()
{
  if (g_hosts) return;
  g_hosts = new (rmalloc(sizeof *g_hosts)) Vec<ResRec>();
  g_outs = new (rmalloc(sizeof *g_outs)) Vec<OutRec>();
  g_conns = new (rmalloc(sizeof *g_conns)) Vec<Conn>();
  g_attempts = new (rmalloc(sizeof *g_attempts)) Vec<ConnRec>();
  g_resolves = new (rmalloc(sizeof *g_resolves)) Vec<ResolveRec>();
}

// ---------------------------------------------------------------- readiness
static uint32_t mask_of(Ofd* o)
{
  switch (o->kind) {
  case k_event: return EPOLLOUT | (o->counter ? EPOLLIN : 0);
  case k_timer: return o->counter ? EPOLLIN : 0;
  case k_sock: {
    SockState& s = *o->sock;
    switch (s.state) {
    case s_new: return EPOLLOUT | EPOLLHUP;
    case s_connecting: return 0;
    case s_failed: return EPOLLIN | EPOLLOUT | EPOLLHUP | (s.err ? EPOLLERR : 0);
    default: return EPOLLOUT | (s.rd < s.in.size() || s.eof || s.rst ? EPOLLIN : 0) | (s.eof ? EPOLLRDHUP : 0) | (s.rst ? EPOLLERR | EPOLLHUP : 0);
    } }
  default: return 0;
  }
}
static void notify(Ofd* o)
{
  wake_all(o);
  uint32_t m = mask_of(o);
  for (Ofd* e : K->ofds) if (e->kind == k_epoll && !e->closed)
    for (auto& w : e->watch) if (w.ofd == o->id && (m & (w.events | EPOLLERR | EPOLLHUP))) { w.edge_armed = true; wake_all(e); }
}
void net_ofd_closed(Ofd* o)
{
  for (Ofd* e : K->ofds) {
    if (e->kind != k_epoll) continue;
    for (size_t i = 0; i < e->watch.size();) if (e->watch[i].ofd == o->id) e->watch.erase(e->watch.begin() + (long)i); else ++i;
  }
  o->token++;
  if (o->kind == k_sock) {
    SockState& s = *o->sock;
    s.token++;
    if (s.conn >= 0) { int c = s.conn; bool unread = s.rd < s.in.size(); (*g_conns)[(size_t)c].o = 0; if (g_peer) g_peer->on_close(c, unread); }
  }
}
int net_available(Ofd* o) { return o->kind == k_sock ? (int)(o->sock->in.size() - o->sock->rd) : 0; }

// ---------------------------------------------------------------- connections
static int errno_of(int outcome) { return outcome == c_accept ? 0 : outcome == c_refuse ? ECONNREFUSED : outcome == c_unreach ? ENETUNREACH : outcome == c_timeout ? ETIMEDOUT : EHOSTUNREACH; }
static void finish_connect(Ofd* o, int outcome)
{
  SockState& s = *o->sock;
  if (outcome == c_accept) {
    s.state = s_connected; s.conn = (int)g_conns->size(); g_conns->push_back(Conn{o, 0});
    ev("connected", s.conn, s.ep.port);
    if (g_peer) g_peer->on_connect(s.conn);
  } else { s.state = s_failed; s.err = errno_of(outcome); ev("connect-failed", s.err, s.ep.port); }
  notify(o);
}
struct Later { Ofd* o; int outcome; };
static void connect_done(void* a, uint64_t token)
{
  Later* l = (Later*)a;
  if (l->o->sock->token == token && !l->o->closed) finish_connect(l->o, l->outcome);
  rfree(l);
}
static bool ep_of(const sockaddr* a, socklen_t n, NetEndpoint* e)
{
  memset(e, 0, sizeof *e);
  if (n >= sizeof(sockaddr_in) && a->sa_family == AF_INET) { auto* i = (const sockaddr_in*)a; e->family = AF_INET; e->port = ntohs(i->sin_port); memcpy(e->addr, &i->sin_addr, 4); return true; }
  if (n >= sizeof(sockaddr_in6) && a->sa_family == AF_INET6) { auto* i = (const sockaddr_in6*)a; e->family = AF_INET6; e->port = ntohs(i->sin6_port); memcpy(e->addr, &i->sin6_addr, 16); return true; }
  return false;
}
static socklen_t addr_of(const NetEndpoint& e, sockaddr_storage* ss)
{
  memset(ss, 0, sizeof *ss);
  if (e.family == AF_INET) { auto* i = (sockaddr_in*)ss; i->sin_family = AF_INET; i->sin_port = htons(e.port); memcpy(&i->sin_addr, e.addr, 4); return sizeof *i; }
  auto* i = (sockaddr_in6*)ss; i->sin6_family = AF_INET6; i->sin6_port = htons(e.port); memcpy(&i->sin6_addr, e.addr, 16); return sizeof *i;
}
static Ofd* sock_of(Sys& s, int fd)
{
  Ofd* o = get_ofd(fd);
  if (!o) s.done(-1, EBADF); else if (o->kind != k_sock) { s.done(-1, ENOTSOCK); o = 0; }
  return o;
}
static long sys_socket(int family, int type)
{
  Sys s("socket", -1);
  if (fire(f_sock_err)) { static const int e[] = {EMFILE, ENFILE, ENOBUFS, EAFNOSUPPORT, EACCES}; s.done(-1, e[draw(F, 5)]); return s.leave(); }
  if (family != AF_INET && family != AF_INET6) { s.done(-1, EAFNOSUPPORT); return s.leave(); }
  Ofd* o = K->ofds[(size_t)new_ofd(k_sock)];
  o->sock = new (rmalloc(sizeof(SockState))) SockState();
  o->sock->family = family;
  if (type & SOCK_NONBLOCK) o->flags |= O_NONBLOCK;
  int fd = alloc_fd(o->id, (type & SOCK_CLOEXEC) != 0, 0);
  s.fd = s.rec.fd = fd; s.rec.ofd = o->id;
  s.done(fd, 0);
  return s.leave();
}
static long sys_connect(int fd, const sockaddr* a, socklen_t n)
{
  Sys s("connect", fd);
  check_access(a, n, false);
  Ofd* o = sock_of(s, fd);
  if (!o) return s.leave();
  SockState& k = *o->sock;
  NetEndpoint ep;
  if (!ep_of(a, n, &ep)) { s.done(-1, EINVAL); return s.leave(); }
  if (ep.family != k.family) { s.done(-1, EAFNOSUPPORT); return s.leave(); }
  bool nb = (o->flags & O_NONBLOCK) != 0;
  ConnRec r; memset(&r, 0, sizeof r); r.fd = fd; r.ofd = o->id; r.ep = ep; r.async = nb; r.err = 0;
  auto fail = [&](int e) { r.err = e; s.done(-1, e); r.seq = g_seq; g_attempts->push_back(r); return s.leave(); };
  if (k.state == s_connecting) return fail(EALREADY);
  if (k.state == s_connected) return fail(EISCONN);
  if (k.state == s_failed) { // a socket whose connection attempt failed may not be used again (portably)
    int e = k.err ? k.err : EINVAL; k.err = 0; r.reused = true; return fail(e);
  }
  int out = c_refuse; uint64_t delay = 0; bool found = false;
  for (auto& x : *g_outs) if (same(x.ep, ep)) { out = x.outcome; delay = x.delay; found = true; break; }
  r.unknown = !found;
  if (fire(f_conn_err)) { static const int e[] = {EADDRNOTAVAIL, ENETUNREACH, EPERM, EADDRINUSE}; return fail(e[draw(F, 4)]); }
  k.ep = ep;
  r.outcome = out;
  if (out != c_hang && delay == 0 && !nb) { // settled at once
    if (out == c_accept) { finish_connect(o, out); s.done(0, 0); r.seq = g_seq; g_attempts->push_back(r); return s.leave(); }
    k.state = s_failed; return fail(errno_of(out));
  }
  k.state = s_connecting;
  if (out != c_hang) { Later* l = (Later*)rmalloc(sizeof(Later)); l->o = o; l->outcome = out; at(g_now + delay * 1000 + 1, connect_done, l, k.token); }
  if (nb) { r.err = EINPROGRESS; s.done(-1, EINPROGRESS); r.seq = g_seq; g_attempts->push_back(r); return s.leave(); }
  while (k.state == s_connecting) block("connect", o, ~0ull);
  if (k.state == s_connected) { s.done(0, 0); r.seq = g_seq; g_attempts->push_back(r); return s.leave(); }
  int e = k.err; k.err = 0;
  return fail(e);
}

// ---------------------------------------------------------------- data
struct Piece { int conn; size_t n; int what; unsigned char b[1]; };
static void deliver(void* a, uint64_t)
{
  Piece* p = (Piece*)a;
  Ofd* o = (*g_conns)[(size_t)p->conn].o;
  if (o) {
    SockState& s = *o->sock;
    if (!s.rst && !s.eof) {
      if (p->what == 0) s.in.insert(s.in.end(), p->b, p->b + p->n); else if (p->what == 1) s.eof = true; else { s.rst = true; s.err = ECONNRESET; }
      ev("delivered", p->conn, (int64_t)p->n, p->what);
      notify(o);
    }
  }
  rfree(p);
}
static void enqueue(int conn, const unsigned char* b, size_t n, int what)
{
  Conn& c = (*g_conns)[(size_t)conn];
  uint64_t t = g_now + 1;
  if (fire(f_net_delay)) t += 1000ull * draw(F, 50000);
  if (t < c.last) t = c.last;
  c.last = t;
  Piece* p = (Piece*)rmalloc(sizeof(Piece) + n);
  p->conn = conn; p->n = n; p->what = what; if (n) memcpy(p->b, b, n);
  at(t, deliver, p, 0);
}
long net_rw(Sys& s, Ofd* o, const iovec* v, int n, bool wr)
{
  size_t total = 0; for (int i = 0; i < n; ++i) total += v[i].iov_len;
  if (o->kind == k_event || o->kind == k_timer) {
    if (total < 8) { s.done(-1, EINVAL); return s.leave(); }
    check_access(v[0].iov_base, 8, !wr);
    if (wr) {
      if (o->kind == k_timer) { s.done(-1, EINVAL); return s.leave(); }
      uint64_t x; memcpy(&x, v[0].iov_base, 8); o->counter += x; vc_release(o->vc); notify(o);
    } else {
      if (!o->counter) {
        if (o->flags & O_NONBLOCK) { s.done(-1, EAGAIN); return s.leave(); }
        while (!o->counter) block("read", o, ~0ull);
      }
      memcpy(v[0].iov_base, &o->counter, 8); o->counter = 0; vc_acquire(o->vc);
    }
    s.done(8, 0); return s.leave();
  }
  if (o->kind != k_sock) { s.done(-1, EINVAL); return s.leave(); }
  SockState& k = *o->sock;
  bool nb = (o->flags & O_NONBLOCK) != 0;
  if (wr) {
    if (k.rst) { int e = k.err ? k.err : EPIPE; k.err = 0; s.done(-1, e); return s.leave(); }
    if (k.state != s_connected) { s.done(-1, k.state == s_connecting ? EAGAIN : k.wshut ? EPIPE : ENOTCONN); return s.leave(); }
    if (k.wshut) { s.done(-1, EPIPE); return s.leave(); }
    if (total && nb && fire(f_net_eagain)) { // the send buffer is full for a while
      at(g_now + 1000ull * (1 + draw(F, 5000)), [](void* a, uint64_t) { Ofd* x = (Ofd*)a; if (!x->closed) notify(x); }, o, 0);
      s.done(-1, EAGAIN); return s.leave();
    }
    size_t lim = total; if (total > 1 && fire(f_net_segment)) lim = 1 + draw(F, (uint32_t)(total - 1));
    // there was no more room in the send buffer: there will be
    if (nb && lim < total) at(g_now + 1000ull * draw(F, 3000), [](void* a, uint64_t) { Ofd* x = (Ofd*)a; if (!x->closed) notify(x); }, o, 0);
    size_t done = 0;
    for (int i = 0; i < n && done < lim; ++i) {
      size_t m = v[i].iov_len < lim - done ? v[i].iov_len : lim - done;
      check_access(v[i].iov_base, m, false);
      if (g_peer && m) g_peer->on_data(k.conn, (const unsigned char*)v[i].iov_base, m);
      done += m;
    }
    s.done((int64_t)done, 0); return s.leave();
  }
  for (;;) {
    if (k.rd < k.in.size()) break;
    if (k.rst) { int e = k.err ? k.err : ECONNRESET; k.err = 0; s.done(-1, e); return s.leave(); }
    if (k.eof || !total) { s.done(0, 0); return s.leave(); }
    if (k.state != s_connected) { s.done(-1, ENOTCONN); return s.leave(); }
    if (nb) { s.done(-1, EAGAIN); return s.leave(); }
    block("recv", o, ~0ull);
  }
  size_t done = 0, av = k.in.size() - k.rd;
  for (int i = 0; i < n && done < av; ++i) {
    size_t m = v[i].iov_len < av - done ? v[i].iov_len : av - done;
    check_access(v[i].iov_base, m, true);
    memcpy(v[i].iov_base, &k.in[k.rd], m); k.rd += m; done += m;
  }
  s.done((int64_t)done, 0);
  return s.leave();
}

// ---------------------------------------------------------------- epoll, timers
static long sys_make(const char* name, int kind, int flags, bool cloexec)
{
  Sys s(name, -1);
  Ofd* o = K->ofds[(size_t)new_ofd(kind)];
  o->flags = flags;
  int fd = alloc_fd(o->id, cloexec, 0);
  s.fd = s.rec.fd = fd; s.rec.ofd = o->id;
  s.done(fd, 0);
  return s.leave();
}
static long sys_epoll_ctl(int ep, int op, int fd, epoll_event* e)
{
  Sys s("epoll_ctl", ep);
  Ofd* p = get_ofd(ep); Ofd* o = get_ofd(fd);
  if (!p || !o) { s.done(-1, EBADF); return s.leave(); }
  if (p->kind != k_epoll) { s.done(-1, EINVAL); return s.leave(); }
  if (o->kind == k_file) { s.done(-1, EPERM); return s.leave(); }
  size_t i = 0; while (i < p->watch.size() && !(p->watch[i].fd == fd && p->watch[i].ofd == o->id)) ++i;
  bool have = i < p->watch.size();
  if (op == EPOLL_CTL_DEL) { if (!have) { s.done(-1, ENOENT); return s.leave(); } p->watch.erase(p->watch.begin() + (long)i); s.done(0, 0); return s.leave(); }
  if (op == EPOLL_CTL_ADD) { if (have) { s.done(-1, EEXIST); return s.leave(); } p->watch.push_back(Ofd::Watch{fd, o->id, e->events, e->data.u64, false}); i = p->watch.size() - 1; }
  else { if (!have) { s.done(-1, ENOENT); return s.leave(); } p->watch[i].events = e->events; p->watch[i].data = e->data.u64; }
  vc_release(p->vc);
  auto& w = p->watch[i];
  if (mask_of(o) & (w.events | EPOLLERR | EPOLLHUP)) { w.edge_armed = true; wake_all(p); }
  s.done(0, 0);
  return s.leave();
}
static long sys_epoll_wait(int ep, epoll_event* evs, int max, int timeout)
{
  Sys s("epoll_wait", ep);
  Ofd* p = get_ofd(ep);
  if (!p || p->kind != k_epoll) { s.done(-1, p ? EINVAL : EBADF); return s.leave(); }
  uint64_t dl = timeout < 0 ? ~0ull : g_now + 1000000ull * (uint64_t)timeout;
  if (fire(f_eintr)) { s.done(-1, EINTR); return s.leave(); }
  for (;;) {
    int n = 0;
    for (auto& w : p->watch) {
      if (n == max || !w.edge_armed) continue;
      uint32_t m = mask_of(K->ofds[(size_t)w.ofd]) & (w.events | EPOLLERR | EPOLLHUP);
      if (!m || (w.events & EPOLLET)) w.edge_armed = false;
      if (!m) continue;
      check_access(&evs[n], sizeof *evs, true);
      evs[n].events = m; evs[n].data.u64 = w.data; ++n;
    }
    if (n) { vc_acquire(p->vc); s.done(n, 0); return s.leave(); }
    if (timeout == 0 || g_now >= dl) break;
    if (p->closed) fatal("epoll descriptor closed while waiting");
    if (!block("epoll_wait", p, dl)) break;
  }
  s.done(0, 0);
  return s.leave();
}
static void timer_fired(void* a, uint64_t token)
{
  Ofd* o = (Ofd*)a;
  if (o->token != token || o->closed) return;
  o->counter++; notify(o);
}
static long sys_timerfd_settime(int fd, int flags, const itimerspec* n, itimerspec* old)
{
  Sys s("timerfd_settime", fd);
  Ofd* o = get_ofd(fd);
  if (!o || o->kind != k_timer) { s.done(-1, o ? EINVAL : EBADF); return s.leave(); }
  if (old) memset(old, 0, sizeof *old);
  o->token++; o->counter = 0;
  uint64_t ns = (uint64_t)n->it_value.tv_sec * 1000000000ull + (uint64_t)n->it_value.tv_nsec;
  if (ns) { if (!(flags & TFD_TIMER_ABSTIME)) ns += g_now; at(ns < g_now ? g_now : ns, timer_fired, o, o->token); }
  s.done(0, 0);
  return s.leave();
}
static long sys_poll(pollfd* f, nfds_t n, int timeout)
{
  Sys s("poll", n ? f[0].fd : -1);
  if (n != 1) fatal("poll on %lu descriptors", (unsigned long)n);
  uint64_t dl = timeout < 0 ? ~0ull : g_now + 1000000ull * (uint64_t)timeout;
  for (;;) {
    Ofd* o = get_ofd(f->fd);
    f->revents = 0;
    if (!o) { f->revents = POLLNVAL; s.done(1, 0); return s.leave(); }
    uint32_t m = mask_of(o);
    f->revents = (short)(((m & EPOLLIN) ? POLLIN : 0) | ((m & EPOLLOUT) ? POLLOUT : 0));
    f->revents &= f->events;
    if (m & EPOLLERR) f->revents |= POLLERR;
    if (m & EPOLLHUP) f->revents |= POLLHUP;
    if (f->revents) { s.done(1, 0); return s.leave(); }
    if (timeout == 0 || !block("poll", o, dl)) break;
  }
  s.done(0, 0);
  return s.leave();
}

// ---------------------------------------------------------------- resolver
static int sys_getaddrinfo(const char* host, const char* service, const addrinfo* hints, addrinfo** res)
{
  Sys s("getaddrinfo", -1);
  ResolveRec r; memset(&r, 0, sizeof r);
  snprintf(r.host, sizeof r.host, "%s", host ? host : ""); snprintf(r.service, sizeof r.service, "%s", service ? service : "");
  r.flags = hints ? hints->ai_flags : 0; r.family = hints ? hints->ai_family : 0; r.socktype = hints ? hints->ai_socktype : 0; r.entered = s.entered;
  if (host) check_access(host, strlen(host) + 1, false);
  if (service) check_access(service, strlen(service) + 1, false);
  if (g_resolve_delay) block("getaddrinfo", &g_resolve_delay, g_now + g_resolve_delay * 1000);
  auto ret = [&](int gai, int sys) { r.gai = gai; r.sys = sys; s.done(gai, gai == EAI_SYSTEM ? sys : 0); r.seq = g_seq; g_resolves->push_back(r); s.leave(); return gai; };
  if (fire(f_resolve_err)) {
    static const int e[] = {EAI_AGAIN, EAI_FAIL, EAI_NONAME, EAI_MEMORY, EAI_SYSTEM, EAI_SERVICE, EAI_FAMILY};
    static const int se[] = {EMFILE, EIO, ECONNREFUSED};
    int g = e[draw(F, 7)];
    return ret(g, g == EAI_SYSTEM ? se[draw(F, 3)] : 0);
  }
  for (auto& h : *g_hosts) if (host && h.host == host) {
    if (h.gai) return ret(h.gai, h.sys);
    addrinfo* first = 0; addrinfo** tail = &first;
    unsigned port = service && *service ? (unsigned)atoi(service) : 0;
    for (auto& e : h.eps) {
      NetEndpoint x = e; if (!x.port) x.port = (uint16_t)port;
      addrinfo* a = (addrinfo*)rmalloc(sizeof(addrinfo) + sizeof(sockaddr_storage));
      memset(a, 0, sizeof *a);
      auto* ss = (sockaddr_storage*)(a + 1);
      a->ai_addrlen = addr_of(x, ss); a->ai_family = x.family;
      a->ai_addr = (sockaddr*)ss; a->ai_socktype = SOCK_STREAM; a->ai_protocol = IPPROTO_TCP;
      *tail = a; tail = &a->ai_next;
    }
    *res = first;
    return ret(0, 0);
  }
  return ret(EAI_NONAME, 0);
}
} // namespace simcore

namespace sim {
using namespace simcore;
void net_reset()
{
  InCore ic;
  init();
  g_hosts->clear(); g_outs->clear(); g_conns->clear(); g_attempts->clear(); g_resolves->clear();
  g_peer = 0; g_resolve_delay = 0;
}
static ResRec& host_rec(const char* h)
{
  for (auto& r : *g_hosts) if (r.host == h) return r;
  ResRec r; r.host = h; g_hosts->push_back(r);
  return g_hosts->back();
}
void net_host(const char* h) { InCore ic; host_rec(h); }
void net_host(const char* h, const NetEndpoint& ep) { InCore ic; host_rec(h).eps.push_back(ep); }
void net_resolve_error(const char* h, int gai, int sys) { InCore ic; ResRec& r = host_rec(h); r.gai = gai; r.sys = sys; }
void net_resolve_delay(uint64_t us) { g_resolve_delay = us; }
void net_outcome(const NetEndpoint& ep, ConnOutcome o, uint64_t d)
{
  InCore ic;
  for (auto& x : *g_outs) if (same(x.ep, ep)) { x.outcome = o; x.delay = d; return; }
  g_outs->push_back(OutRec{ep, o, d});
}
void net_peer(Peer* p) { g_peer = p; }
void peer_send(int c, const void* p, size_t n)
{
  InCore ic;
  const unsigned char* b = (const unsigned char*)p;
  while (n) {
    size_t m = n; if (n > 1 && fire(f_net_segment)) m = 1 + draw(F, (uint32_t)(n - 1));
    enqueue(c, b, m, 0); b += m; n -= m;
  }
}
void peer_fin(int c) { InCore ic; enqueue(c, 0, 0, 1); }
void peer_rst(int c) { InCore ic; enqueue(c, 0, 0, 2); }
size_t nconn() { return g_attempts->size(); }
const ConnRec& connrec(size_t i) { return (*g_attempts)[i]; }
size_t nresolve() { return g_resolves->size(); }
const ResolveRec& resolverec(size_t i) { return (*g_resolves)[i]; }
int open_sockets() { int n = 0; for (auto& f : K->fds) if (f.ofd >= 0 && K->ofds[(size_t)f.ofd]->kind == k_sock) ++n; return n; }
bool socket_connected(int fd, NetEndpoint* ep)
{
  Ofd* o = get_ofd(fd);
  if (!o || o->kind != k_sock || o->sock->state != s_connected) return false;
  if (ep) *ep = o->sock->ep;
  return true;
}
int conn_of_fd(int fd) { Ofd* o = get_ofd(fd); return o && o->kind == k_sock ? o->sock->conn : -1; }
size_t conn_unread(int c) { Ofd* o = (*g_conns)[(size_t)c].o; return o ? o->sock->in.size() - o->sock->rd : 0; }
}

using namespace simcore;
using namespace sim;

extern "C" {
int __wrap_socket(int f, int t, int) { return (int)sys_socket(f, t); }
int __wrap_connect(int fd, const sockaddr* a, socklen_t n) { return (int)sys_connect(fd, a, n); }
int __wrap_epoll_create1(int f) { return (int)sys_make("epoll_create", k_epoll, 0, (f & EPOLL_CLOEXEC) != 0); }
int __wrap_epoll_create(int) { return (int)sys_make("epoll_create", k_epoll, 0, false); }
int __wrap_epoll_ctl(int e, int op, int fd, epoll_event* v) { return (int)sys_epoll_ctl(e, op, fd, v); }
int __wrap_epoll_wait(int e, epoll_event* v, int n, int t) { return (int)sys_epoll_wait(e, v, n, t); }
int __wrap_eventfd(unsigned v, int f) { (void)v; return (int)sys_make("eventfd", k_event, (f & EFD_NONBLOCK) ? O_NONBLOCK : 0, (f & EFD_CLOEXEC) != 0); }
int __wrap_timerfd_create(int, int f) { return (int)sys_make("timerfd_create", k_timer, (f & TFD_NONBLOCK) ? O_NONBLOCK : 0, (f & TFD_CLOEXEC) != 0); }
int __wrap_timerfd_settime(int fd, int f, const itimerspec* n, itimerspec* o) { return (int)sys_timerfd_settime(fd, f, n, o); }
int __wrap_poll(pollfd* f, nfds_t n, int t) { return (int)sys_poll(f, n, t); }
int __wrap_getaddrinfo(const char* h, const char* s, const addrinfo* i, addrinfo** r) { return sys_getaddrinfo(h, s, i, r); }
void __wrap_freeaddrinfo(addrinfo* a) { InCore ic; while (a) { addrinfo* n = a->ai_next; rfree(a); a = n; } }
int __wrap_getsockopt(int fd, int level, int opt, void* v, socklen_t* n)
{
  Sys s("getsockopt", fd);
  Ofd* o = sock_of(s, fd);
  if (!o) return (int)s.leave();
  if (*n >= sizeof(int)) {
    int x = 0;
    if (level == SOL_SOCKET && opt == SO_ERROR) { x = o->sock->err; o->sock->err = 0; }
    memcpy(v, &x, sizeof x); *n = sizeof x;
  }
  s.done(0, 0);
  return (int)s.leave();
}
int __wrap_setsockopt(int fd, int, int, const void*, socklen_t) { Sys s("setsockopt", fd); if (sock_of(s, fd)) s.done(0, 0); return (int)s.leave(); }
int __wrap_shutdown(int fd, int how)
{
  Sys s("shutdown", fd);
  Ofd* o = sock_of(s, fd);
  if (!o) return (int)s.leave();
  if (o->sock->state != s_connected) { s.done(-1, ENOTCONN); return (int)s.leave(); }
  if (how != SHUT_RD) o->sock->wshut = true;
  if (how != SHUT_WR) { o->sock->eof = true; notify(o); }
  s.done(0, 0);
  return (int)s.leave();
}
static int name_of(const char* nm, int fd, sockaddr* a, socklen_t* n, bool peer)
{
  Sys s(nm, fd);
  Ofd* o = sock_of(s, fd);
  if (!o) return (int)s.leave();
  if (peer && o->sock->state != s_connected) { s.done(-1, ENOTCONN); return (int)s.leave(); }
  NetEndpoint e; memset(&e, 0, sizeof e); e.family = o->sock->family;
  if (peer) e = o->sock->ep;
  sockaddr_storage ss; socklen_t m = addr_of(e, &ss);
  memcpy(a, &ss, *n < m ? *n : m); *n = m;
  s.done(0, 0);
  return (int)s.leave();
}
int __wrap_getpeername(int fd, sockaddr* a, socklen_t* n) { return name_of("getpeername", fd, a, n, true); }
int __wrap_getsockname(int fd, sockaddr* a, socklen_t* n) { return name_of("getsockname", fd, a, n, false); }
static long msg_rw(const char* nm, int fd, iovec* v, size_t n, bool wr)
{
  Sys s(nm, fd);
  Ofd* o = sock_of(s, fd);
  if (!o) return s.leave();
  return net_rw(s, o, v, (int)n, wr);
}
ssize_t __wrap_recvmsg(int fd, msghdr* m, int) { m->msg_flags = 0; return msg_rw("recvmsg", fd, m->msg_iov, m->msg_iovlen, false); }
ssize_t __wrap_sendmsg(int fd, const msghdr* m, int) { return msg_rw("sendmsg", fd, m->msg_iov, m->msg_iovlen, true); }
ssize_t __wrap_recv(int fd, void* b, size_t n, int) { iovec v = {b, n}; return msg_rw("recv", fd, &v, 1, false); }
ssize_t __wrap_recvfrom(int fd, void* b, size_t n, int, sockaddr*, socklen_t* m) { if (m) *m = 0; iovec v = {b, n}; return msg_rw("recv", fd, &v, 1, false); }
ssize_t __wrap_sendto(int fd, const void* b, size_t n, int, const sockaddr*, socklen_t) { iovec v = {(void*)b, n}; return msg_rw("send", fd, &v, 1, true); }
ssize_t __wrap_send(int fd, const void* b, size_t n, int) { iovec v = {(void*)b, n}; return msg_rw("send", fd, &v, 1, true); }
}
