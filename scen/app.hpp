// A whole application: coroutines that resolve and connect to a SOCKS proxy, ask for files
// over a buffered stream, store what arrives with asynchronous file operations and read it
// back - real Asio sockets, reactor, resolver, timers and strands and the file service's
// thread pools, on the simulated kernel, network and scheduler.
#ifndef SCEN_APP_HPP
#define SCEN_APP_HPP
#include "scen/common.hpp"
#include <asio/awaitable.hpp>
#include <asio/bind_executor.hpp>
#include <asio/co_spawn.hpp>
#include <asio/detached.hpp>
#include <asio/ip/tcp.hpp>
#include <asio/read_at.hpp>
#include <asio/steady_timer.hpp>
#include <asio/use_awaitable.hpp>
#include <asio/write_at.hpp>
#include <asioext/connect.hpp>
#include <asioext/experimental/buffered_stream.hpp>
#include <asioext/file.hpp>
#include <asioext/linear_buffer.hpp>
#include <asioext/read_file.hpp>
#include <asioext/socks/client.hpp>
#include <netdb.h>
#include <sys/socket.h>
#include <algorithm>

namespace app {
using namespace scen;
typedef asio::ip::tcp tcp;
typedef std::vector<unsigned char> Bytes;
namespace so = asioext::socks;
enum { greet = 0, command, serving, over };
struct Cl {
  int id, nreq, nparts, phase = greet, conn = -1; bool v5, refused, back_async, moves, early; uint32_t len[3], at[3]; uint64_t timeout;
  char host[24], name[4];
  Bytes in; uint32_t sent = 0, asked = 0; size_t stored = 0;          // at the peer; in the file
  bool closed = false, ended = false, spawned = false, destroyed = false, failed = false; const char* doing = "nothing";
  tcp::socket* sock = 0; asioext::file* out = 0; asio::steady_timer* tm = 0; Bytes said;
};
struct World { Cl* c[3]; int n = 0, left = 0; bool leaving = false; asio::io_context* io; uint64_t ok = 0, bytes = 0, timeouts = 0, refusals = 0, disk = 0; };
inline World* w;
inline unsigned char content(const Cl& c, size_t k) { return (unsigned char)(k * 11 + (size_t)c.id * 3 + k / 256); }

struct Server : Peer {
  void on_connect(int) override {}
  void on_close(int, bool) override {}
  void on_data(int conn, const unsigned char* b, size_t n) override
  {
    Cl* c = 0;
    for (int i = 0; i < w->n; ++i) if (w->c[i]->conn == conn) c = w->c[i];
    if (!c) { violation("request", "%lu bytes were sent to a proxy that no client is connected to", (unsigned long)n); return; }
    c->in.insert(c->in.end(), b, b + n);
    while (answer(*c)) {}
  }
  static bool is(const Bytes& in, const Bytes& want, const char* what)
  {
    if (in.size() > want.size() || !std::equal(in.begin(), in.end(), want.begin())) violation("request", "%s is not what the protocol prescribes", what);
    return in.size() == want.size();
  }
  static bool answer(Cl& c)
  {
    Bytes want; unsigned char p0 = (unsigned char)(c.id + 1), p1 = 80;
    switch (c.phase) {
    case greet: {
      static const unsigned char g[] = {5, 1, 0};
      want.assign(g, g + 3); if (!is(c.in, want, "the greeting")) return false;
      unsigned char r[2] = {5, 0}; c.in.clear(); c.phase = command; peer_send(c.conn, r, 2); return true; }
    case command: {
      std::string h = std::string("target") + (char)('0' + c.id) + ".example";
      if (c.in.empty()) return false;
      if (c.v5) { static const unsigned char g[] = {5, 1, 0, 3}; want.assign(g, g + 4); want.push_back((unsigned char)h.size()); want.insert(want.end(), h.begin(), h.end()); want.push_back(p0); want.push_back(p1); }
      else { unsigned char g[] = {4, 1, p0, p1, 0, 0, 0, 1, 'm', 'e', 0}; want.assign(g, g + sizeof g); Bytes& x = want; x.insert(x.end(), h.begin(), h.end()); x.push_back(0); }
      if (!is(c.in, want, "the command")) return false;
      c.in.clear(); c.phase = c.refused ? over : serving;
      if (c.v5) { unsigned char r[] = {5, (unsigned char)(c.refused ? 5 : 0), 0, 1, 9, 8, 7, 6, 5, 4}; peer_send(c.conn, r, sizeof r); }
      else { unsigned char r[] = {0, (unsigned char)(c.refused ? 0x5b : 0x5a), 0, 0, 0, 0, 0, 0}; peer_send(c.conn, r, sizeof r); }
      return true; }
    case serving: {
      if (c.in.size() < 5) return false;
      uint32_t len = 0, k = c.asked; for (int i = 0; i < 4; ++i) len |= (uint32_t)c.in[(size_t)i + 1] << (8 * i);
      if (c.in[0] != 'G' || k >= (uint32_t)c.nreq || len != c.len[k]) { violation("bytes-sent", "request %u reaches the peer in another form than it was written", k); return false; }
      c.in.erase(c.in.begin(), c.in.begin() + 5); c.asked++;
      Bytes out; for (uint32_t i = 0; i < len; ++i) out.push_back(content(c, c.sent + i));
      c.sent += len; if (len) peer_send(c.conn, out.data(), out.size());
      return true; }
    default: if (!c.in.empty()) violation("bytes-sent", "%lu bytes were sent after a refusal", (unsigned long)c.in.size()); return false;
    }
  }
};
// What a client has to undo when its coroutine ends or is destroyed.
struct Scope { Cl* c; ~Scope() { Quiet q; c->destroyed = true; c->sock = 0; c->out = 0; c->tm = 0; if (!c->ended && !w->leaving) violation("handler-lost", "client %d: a coroutine was destroyed although its context was not (%s)", c->id, c->doing); } };
inline bool disk_error(const Cl& c, int e) { int ino = inode_of_path(c.name); for (size_t k = 0; k < nsys(); ++k) if (sysrec(k).inode == ino && sysrec(k).err == e) return true; return false; }
inline void doing(Cl& c, const char* s) { Quiet q; c.doing = s; ev("app", c.id, (int64_t)(s[0] * 256 + s[1])); }

inline asio::awaitable<void> client(Cl* c)
{
  Scope scope{c}; auto ex = co_await asio::this_coro::executor; asio::io_context& io = *w->io;
  asio::steady_timer tm(ex); tcp::resolver res(ex); asioext::error_code failure; int where = 0;
  tm.expires_after(std::chrono::microseconds(c->timeout));
  tm.async_wait(asio::bind_executor(ex, [c](const asioext::error_code& ec) {
    if (ec) return;
    tcp::socket* s; asioext::file* f; { Quiet q; if (c->ended || c->destroyed) return; c->closed = true; w->timeouts++; s = c->sock; f = c->out; ev("app-timeout", c->id); }
    asioext::error_code e; if (s) s->close(e); if (f) f->cancel(e);
  }));
  { Quiet q; c->tm = &tm; }
  try {
    doing(*c, "connecting");
    tcp::socket s(ex); { Quiet q; c->sock = &s; }
    co_await asioext::async_connect(s, res, std::string(c->host), "1080", asio::ip::resolver_base::flags(), asio::use_awaitable);
    { int fd = s.is_open() ? s.native_handle() : -1; Quiet q; if (fd >= 0) c->conn = conn_of_fd(fd); }
    bool gone; { Quiet q; gone = c->closed; } if (gone) throw asio::system_error(asio::error::operation_aborted);
    asioext::linear_buffer lb; std::string target = std::string("target") + (char)('0' + c->id) + ".example"; uint16_t port = (uint16_t)((c->id + 1) * 256 + 80);
    where = 1;
    if (c->v5) {
      static const so::auth_method none[] = {so::auth_method::none};
      doing(*c, "greeting");
      so::auth_method m = co_await so::async_greet(s, none, (std::size_t)1, asioext::dynamic_buffer(lb), asio::use_awaitable);
      { Quiet q; if (m != so::auth_method::none) violation("method", "client %d: a method is reported that the proxy did not choose", c->id); }
      doing(*c, "the command");
      co_await so::async_execute(s, so::command::connect, target, port, asioext::dynamic_buffer(lb), asio::use_awaitable);
    } else {
      doing(*c, "the command");
      co_await so::async_execute(s, so::command::connect, target, port, std::string("me"), asioext::dynamic_buffer(lb), asio::use_awaitable);
    }
    { size_t left = lb.size(); Quiet q; if (c->refused && !c->closed) violation("bad-reply-accepted", "client %d: the proxy's refusal was taken for success", c->id); if (left) violation("stream-position", "client %d: %lu bytes are left in the buffer although nothing follows the reply", c->id, (unsigned long)left); }
    where = 2; { Quiet q; c->sock = 0; }
    asioext::buffered_stream<tcp::socket> bs(std::move(s)); { Quiet q; c->sock = &bs.next_layer(); }
    doing(*c, "opening the file");
    asioext::file first(io), out(io);
    {
      asioext::error_code ec; (c->moves ? first : out).open(c->name, asioext::open_args(asioext::open_flags::create_always | asioext::open_flags::access_write), ec);
      if (ec) throw asio::system_error(ec);
      if (c->moves) out = std::move(first);
    }
    { Quiet q; c->out = &out; }
    size_t off = 0, total = 0;
    for (int r = 0; r < c->nreq; ++r) {
      // Some requests are made before everything that was asked for earlier has arrived.
      doing(*c, "asking");
      unsigned char q5[5] = {'G', (unsigned char)c->len[r], (unsigned char)(c->len[r] >> 8), (unsigned char)(c->len[r] >> 16), 0};
      bs.write_buffer().append(q5, 2); bs.write_buffer().append(q5 + 2, 3);
      total += c->len[r];
      if (c->early && r + 1 < c->nreq) continue;
      size_t n = co_await bs.async_flush(asio::use_awaitable);
      { Quiet q; size_t want = c->early ? (size_t)c->nreq * 5 : 5; if (n != want) violation("flush-count", "client %d: a flush reports %lu bytes instead of %lu", c->id, (unsigned long)n, (unsigned long)want); }
      while (off < total) {
        doing(*c, "receiving");
        size_t had = bs.read_buffer().size(), got = co_await bs.async_fill(asio::use_awaitable), have = bs.read_buffer().size();
        { Quiet q; if (!c->closed && (had + got != have || !got)) violation("fill-count", "client %d: a fill reports %lu bytes, the buffer went from %lu to %lu", c->id, (unsigned long)got, (unsigned long)had, (unsigned long)have); }
        bool wait; { Quiet q; wait = off + have < total && flip(); } // several fills before the data is stored
        if (wait) continue;
        doing(*c, "storing"); where = 3;
        size_t stored = co_await asio::async_write_at(out, off, asio::buffer(bs.read_buffer()), asio::use_awaitable);
        { Quiet q; if (stored != have) violation("result", "client %d: %lu of %lu bytes were stored without an error", c->id, (unsigned long)stored, (unsigned long)have); }
        bs.read_buffer().erase(0, stored); off += stored; where = 2;
        { Quiet q; c->stored = off; }
      }
    }
    doing(*c, "closing"); where = 3;
    { Quiet q; c->out = 0; c->sock = 0; }
    out.close(); bs.close();
    // The stored file, as somebody else sees it and as the library reads it.
    {
      Quiet q; int ino = inode_of_path(c->name); size_t wrong = 0;
      if (inode_size(ino) != (int64_t)total) violation("content", "client %d: %lld bytes are stored instead of %lu", c->id, (long long)inode_size(ino), (unsigned long)total);
      else { const unsigned char* d = inode_data(ino); for (size_t i = 0; i < total; ++i) wrong += d[i] != content(*c, i); if (wrong) violation("content", "client %d: %lu of %lu stored bytes are wrong", c->id, (unsigned long)wrong, (unsigned long)total); }
    }
    doing(*c, "reading back"); where = 4;
    std::vector<unsigned char> v;
    if (c->back_async) {
      asioext::file in(io, c->name, asioext::open_flags::open_existing | asioext::open_flags::access_read); { Quiet q; c->out = &in; }
      v.resize((size_t)in.size());
      if (!v.empty()) co_await asio::async_read_at(in, 0, asio::buffer(v), asio::use_awaitable);
      { Quiet q; c->out = 0; }
    } else asioext::read_file(c->name, v);
    size_t n = v.size(), wrong = 0;
    for (size_t i = 0; i < n; ++i) wrong += v[i] != content(*c, i);
    { Quiet q; if (n != total || wrong) violation("content", "client %d: reading back gives %lu bytes of %lu, %lu of them wrong", c->id, (unsigned long)n, (unsigned long)total, (unsigned long)wrong); w->ok++; w->bytes += total; nontrivial(); }
  } catch (const std::system_error& e) { failure = e.code(); }
  if (failure) {
    Quiet q; ev("app-failed", c->id, where, failure.value()); c->failed = true;
    bool fine = c->closed || (where == 1 && c->refused && (c->v5 ? failure == asio::error::connection_refused : failure == so::error::generic))
             || (where >= 3 && failure.category() == asio::error::get_system_category() && disk_error(*c, failure.value()));
    if (!fine) violation("unexpected-error", "client %d: %s failed with %s:%d", c->id, c->doing, failure.category().name(), failure.value());
    if (where == 1 && !c->closed) w->refusals++; else if (where >= 3 && !c->closed) w->disk++;
    // Nothing that was reported as stored may be missing, whatever happened afterwards.
    int ino = inode_of_path(c->name); if (ino >= 0) { const unsigned char* d = inode_data(ino); if (inode_size(ino) < (int64_t)c->stored) violation("content", "client %d: stored bytes are missing", c->id); else for (size_t i = 0; i < c->stored; ++i) if (d[i] != content(*c, i)) { violation("content", "client %d: stored byte %lu is wrong", c->id, (unsigned long)i); break; } }
  }
  { Quiet q; c->ended = true; c->tm = 0; w->left--; }
  tm.cancel();
}
inline void app(bool leaves)
{
  uint64_t am = alloc_mark(); Server* peer; int nt; bool leave;
  {
    Quiet q; race_detector(true); swarm_sched(true); net_reset(); set_umask(022); w = raw_new<World>(); peer = raw_new<Server>(); net_peer(peer);
    w->n = w->left = 1 + (int)wl(3); nt = 1 + (int)wl(3); leave = leaves && wl_chance(70); set_fd_base(wl_chance(20) ? 0 : 3);
    swarm_fault(f_net_segment, 70); swarm_fault(f_net_delay, 40); swarm_fault(f_net_eagain, 30); swarm_fault(f_stall, 35);
    swarm_fault(f_eintr, 40); swarm_fault(f_short, 50); if (wl_chance(20)) { swarm_fault(f_eio, 40); swarm_fault(f_enospc, 40); }
  }
  faults_enabled(false);
  w->io = new asio::io_context;
  for (int i = 0; i < w->n; ++i) {
    Quiet q; Cl* c = w->c[i] = raw_new<Cl>(); c->id = i; c->v5 = !flip(); if (!c->v5) c->phase = command; c->refused = wl_chance(8); c->back_async = flip(); c->moves = flip(); c->early = flip();
    c->nreq = 1 + (int)wl(3); for (int r = 0; r < c->nreq; ++r) c->len[r] = wl_chance(15) ? 0 : 1 + wl(wl_chance(80) ? 100 : wl_chance(80) ? 3000 : 40000);
    snprintf(c->host, sizeof c->host, "proxy%d.example", i); snprintf(c->name, sizeof c->name, "f%d", i);
    int ne = 1 + (int)wl(2); for (int k = 0; k < ne; ++k) { NetEndpoint e; memset(&e, 0, sizeof e); e.family = AF_INET; e.port = 1080; e.addr[0] = 10; e.addr[1] = (uint8_t)i; e.addr[3] = (uint8_t)(1 + k); net_host(c->host, e); net_outcome(e, k == ne - 1 || flip() ? c_accept : c_refuse, wl_chance(50) ? 0 : wl(5000)); }
    c->timeout = wl_chance(85) ? 5000000 : 1 + wl(40000);
  }
  faults_enabled(true);
  for (int i = 0; i < w->n; ++i) asio::co_spawn(asio::make_strand(*w->io), client(w->c[i]), asio::detached);
  pthread_t t[3];
  for (int i = 0; i < nt; ++i) t[i] = go([](void* a) { try { ((asio::io_context*)a)->run(); } catch (...) { violation("exception", "an exception left run()"); } }, w->io);
  if (leave) { uint64_t us; { Quiet q; us = wl(30000); } sleep_us(us); { Quiet q; w->leaving = true; } w->io->stop(); }
  for (int i = 0; i < nt; ++i) join(t[i]);
  if (!leave) { Quiet q; if (w->left) violation("run-returned-early", "run() ran out of work although %d clients have not come to an end", w->left); }
  faults_enabled(false);
  delete w->io;
  {
    Quiet q; uint64_t cut = 0;
    for (int i = 0; i < w->n; ++i) { Cl* c = w->c[i]; if (!c->ended && !c->destroyed && !leave) violation("handler-lost", "client %d has not come to an end", i); cut += !c->ended; raw_delete(c); }
    if (open_fd_count()) violation("leak-descriptor", "%d descriptors were never closed", open_fd_count());
    if (w->ok) probe("downloads", w->ok); if (w->bytes) probe("bytes downloaded and stored", w->bytes); if (w->timeouts) probe("downloads timed out", w->timeouts); if (w->refusals) probe("downloads refused by the proxy", w->refusals); if (w->disk) probe("downloads failed by the disk", w->disk); if (cut) { probe("downloads cut off by the end of their context", cut); nontrivial(); }
    net_peer(0); raw_delete(peer); raw_delete(w); w = 0;
  }
  LeakInfo li = live_since(am);
  if (li.count) violation("leak", "%lu blocks were never freed", (unsigned long)li.count);
}
} // namespace app
#endif
