// SOCKS clients against a simulated proxy.
#ifndef SCEN_SOCKS_HPP
#define SCEN_SOCKS_HPP
#include "scen/simstream.hpp"
#include <asioext/socks/client.hpp>
#include <asioext/linear_buffer.hpp>

namespace sk {
using namespace ss;
namespace so = asioext::socks;
using asioext::error_code;

enum Ex { x_greet, x_login, x_exec_ep, x_exec_host, x_v4_ep, x_v4_host };
static const char* const xnames[] = {"async_greet", "async_login", "SOCKS5 async_execute(endpoint)", "SOCKS5 async_execute(host)", "SOCKS4 async_execute(endpoint)", "SOCKS4a async_execute(host)"};

// What the client must send and how its reply must be judged.
struct Proxy {
  Ex x; Bytes want; bool valid = true;   // valid: the arguments can be encoded
  bool last = true;                      // the target's data may follow the reply
  Bytes reply; bool released = false;
  Net::End end = Net::e_eof;
  Bytes offered;
};
inline void proxy_out(Net& n)
{
  Proxy& p = *(Proxy*)n.peer;
  if (!p.valid) { violation("request", "%s sent something although its arguments cannot be encoded", xnames[p.x]); return; }
  if (n.out.size() > p.want.size()) { violation("request", "%s sent %lu bytes, the request has %lu", xnames[p.x], (unsigned long)n.out.size(), (unsigned long)p.want.size()); return; }
  for (size_t i = 0; i < n.out.size(); ++i) if (n.out[i] != p.want[i]) { violation("request", "%s: byte %lu of the request is 0x%02x instead of 0x%02x", xnames[p.x], (unsigned long)i, n.out[i], p.want[i]); return; }
  if (n.out.size() == p.want.size() && !p.released) { p.released = true; n.in.insert(n.in.end(), p.reply.begin(), p.reply.end()); n.end = p.end; ev("replied", (int64_t)p.reply.size()); }
}

// The reference reading of a reply.
struct Verdict { enum { ok, fail, either } v; error_code ec; size_t used; bool exact; };
inline Verdict err(error_code e = error_code()) { Verdict v{Verdict::fail, e, 0, !!e}; return v; }
inline Verdict judge(const Proxy& p)
{
  const Bytes& r = p.reply;
  auto ok = [](size_t n) { return Verdict{Verdict::ok, error_code(), n, true}; };
  switch (p.x) {
  case x_greet:
    if (r.size() < 2) return err();
    if (r[0] != 5) return err(so::make_error_code(so::error::invalid_version));
    if (r[1] == 0xff) return err(so::make_error_code(so::error::no_acceptable_auth_method));
    for (uint8_t m : p.offered) if (m == r[1]) return ok(2);
    return Verdict{Verdict::either, error_code(), 2, false};
  case x_login:
    if (r.size() < 2) return err();
    if (r[0] != 1) return err(so::make_error_code(so::error::invalid_auth_version));
    if (r[1] != 0) return err(so::make_error_code(so::error::login_failed));
    return ok(2);
  case x_exec_ep: case x_exec_host: {
    if (r.size() < 5) return err();
    if (r[0] != 5) return err(so::make_error_code(so::error::invalid_version));
    switch (r[1]) {
    case 0: break;
    case 2: return err(asio::error::no_permission);
    case 3: return err(asio::error::network_unreachable);
    case 4: return err(asio::error::host_unreachable);
    case 5: return err(asio::error::connection_refused);
    case 6: return err(asio::error::timed_out);
    case 7: return err(so::make_error_code(so::error::command_not_supported));
    case 8: return err(asio::error::address_family_not_supported);
    default: return err();
    }
    size_t need = 4;
    if (r[3] == 1) need += 4; else if (r[3] == 4) need += 16; else if (r[3] == 3) need += 1u + r[4]; else return err();
    need += 2;
    if (r.size() < need) return err();
    if (r[2] != 0) return Verdict{Verdict::either, error_code(), need, false};
    return ok(need);
  }
  default:
    if (r.size() < 8) return err();
    if (r[0] != 0) return err(so::make_error_code(so::error::invalid_version));
    switch (r[1]) {
    case 0x5a: return ok(8);
    case 0x5c: return err(so::make_error_code(so::error::identd_not_reachable));
    case 0x5d: return err(so::make_error_code(so::error::login_failed));
    case 0x5b: return err(so::make_error_code(so::error::generic));
    default: return err();
    }
  }
}

inline uint8_t rb() { return (uint8_t)wl(256); }
inline void text(std::string& s, size_t n, bool nul)
{ s.clear(); for (size_t i = 0; i < n; ++i) { uint8_t c = wl_chance(80) ? (uint8_t)('a' + wl(26)) : rb(); if (!c && !nul) c = 1; s.push_back((char)c); } }
inline size_t text_len(size_t over) { return wl_chance(70) ? wl(20) : wl_chance(60) ? 250 + wl(6) : over ? 256 + wl((uint32_t)over) : wl(255); }
inline void gen_reply(Proxy& p)
{
  Bytes& r = p.reply; r.clear();
  bool bad = qfire(f_net_bytes);
  switch (p.x) {
  case x_greet: r = {5, p.offered.empty() ? (uint8_t)0 : p.offered[wl((uint32_t)p.offered.size())]}; if (wl_chance(10)) r[1] = 0xff; break;
  case x_login: r = {1, (uint8_t)(wl_chance(70) ? 0 : rb())}; break;
  case x_exec_ep: case x_exec_host: {
    uint8_t t = wl_chance(40) ? 1 : flip() ? 3 : 4;
    r = {5, (uint8_t)(wl_chance(60) ? 0 : wl_chance(80) ? 1 + wl(8) : rb()), 0, t};
    size_t n = t == 1 ? 4 : t == 4 ? 16 : (flip() ? wl(12) : wl(256));
    if (t == 3) r.push_back((uint8_t)n);
    for (size_t i = 0; i < n + 2; ++i) r.push_back(rb());
    break; }
  default:
    r = {0, (uint8_t)(wl_chance(60) ? 0x5a : wl_chance(70) ? 0x5b + wl(3) : rb())};
    for (int i = 0; i < 6; ++i) r.push_back(rb());
  }
  if (bad) {
    switch (draw(F, 4)) {
    case 0: r[draw(F, (uint32_t)(r.size() < 5 ? r.size() : 5))] = (uint8_t)draw(F, 256); break;
    case 1: r[draw(F, (uint32_t)r.size())] ^= (uint8_t)(1u << draw(F, 8)); break;
    case 2: for (auto& b : r) b = (uint8_t)draw(F, 256); break;
    default: if (p.x >= x_exec_ep && p.x <= x_exec_host) r[3] = (uint8_t)draw(F, 8); else r[1] = (uint8_t)draw(F, 256); break;
    }
  }
  size_t more = p.last && wl_chance(60) ? wl(40) : 0; // what the proxied connection already delivers
  for (size_t i = 0; i < more; ++i) r.push_back(rb());
  if (qfire(f_net_fin)) r.resize(draw(F, (uint32_t)r.size() + 1));
  p.end = wl_chance(25) ? Net::e_rst : Net::e_eof;
}

struct World { asio::io_context* io; SimStream* s; Net* n; Proxy* p; Rec* rec; int hk; IoEx* ex; StrandTag* sx; int bufk; asioext::linear_buffer* lb; std::string* str; std::vector<char>* vec; size_t max; };
template <class F> void with_handler(World& w, F f)
{ if (w.hk == 0) f(H0(w.rec)); else if (w.hk == 1) f(H1(w.rec, *w.ex)); else f(H2(w.rec, *w.sx)); }
template <class F> void with_both(World& w, F f)
{
  with_handler(w, [&](auto&& h) {
    typedef std::decay_t<decltype(h)> H;
    if (w.bufk == 0) f(asioext::dynamic_linear_buffer(*w.lb, w.max), (H&&)h); else if (w.bufk == 1) f(asio::dynamic_buffer(*w.str, w.max), (H&&)h); else f(asio::dynamic_buffer(*w.vec, w.max), (H&&)h);
  });
}
inline asio::ip::tcp::endpoint gen_ep(bool v6, Bytes& addr, uint16_t port)
{
  if (v6) { asio::ip::address_v6::bytes_type b; for (auto& x : b) x = flip() ? rb() : 0; addr.assign(b.begin(), b.end()); return asio::ip::tcp::endpoint(asio::ip::address_v6(b), port); }
  asio::ip::address_v4::bytes_type b; for (auto& x : b) x = rb(); addr.assign(b.begin(), b.end()); return asio::ip::tcp::endpoint(asio::ip::address_v4(b), port);
}
// Starts one exchange; its arguments do not outlive the initiating call. False: there was no memory to start it.
template <class World> bool start(World& w)
{
  Proxy& p = *w.p;
  std::string* a; std::string* b; asio::ip::tcp::endpoint ep; uint16_t port = 0; so::command cmd = so::command::connect; uint8_t* methods = 0; size_t nm = 0;
  {
    Quiet q;
    a = new std::string; b = new std::string;
    p.want.clear(); p.valid = true; p.offered.clear();
    auto put = [&](const std::string& s) { p.want.insert(p.want.end(), s.begin(), s.end()); };
    port = (uint16_t)(flip() ? rb() : wl(65536)); cmd = (so::command)(1 + wl(3));
    switch (p.x) {
    case x_greet:
      nm = wl_chance(85) ? 1 + wl(4) : wl_chance(50) ? 250 + wl(12) : 255;
      for (size_t i = 0; i < nm; ++i) p.offered.push_back(wl_chance(80) ? (uint8_t)wl(3) : rb());
      if (nm > 255) p.valid = false;
      p.want = {5, (uint8_t)nm}; p.want.insert(p.want.end(), p.offered.begin(), p.offered.end());
      break;
    case x_login:
      text(*a, 1 + text_len(20), true); text(*b, 1 + text_len(20), true);
      if (a->size() > 255 || b->size() > 255) p.valid = false;
      p.want = {1, (uint8_t)a->size()}; put(*a); p.want.push_back((uint8_t)b->size()); put(*b);
      break;
    case x_exec_ep: {
      Bytes ad; bool v6 = flip(); ep = gen_ep(v6, ad, port);
      p.want = {5, (uint8_t)cmd, 0, (uint8_t)(v6 ? 4 : 1)}; p.want.insert(p.want.end(), ad.begin(), ad.end()); p.want.push_back((uint8_t)(port >> 8)); p.want.push_back((uint8_t)port);
      break; }
    case x_exec_host:
      text(*a, 1 + text_len(20), true);
      if (a->size() > 255) p.valid = false;
      p.want = {5, (uint8_t)cmd, 0, 3, (uint8_t)a->size()}; put(*a); p.want.push_back((uint8_t)(port >> 8)); p.want.push_back((uint8_t)port);
      break;
    case x_v4_ep: case x_v4_host: {
      bool nul = wl_chance(8), v6 = p.x == x_v4_ep && wl_chance(10); Bytes ad;
      text(*b, text_len(200), nul);
      if (p.x == x_v4_ep) { ep = gen_ep(v6, ad, port); if (v6) p.valid = false; }
      else { text(*a, 1 + text_len(200), nul); ad = {0, 0, 0, 1}; }
      if (a->find('\0') != std::string::npos || b->find('\0') != std::string::npos) p.valid = false;
      p.want = {4, (uint8_t)cmd, (uint8_t)(port >> 8), (uint8_t)port}; p.want.insert(p.want.end(), ad.begin(), ad.end());
      put(*b); p.want.push_back(0);
      if (p.x == x_v4_host) { put(*a); p.want.push_back(0); }
      break; }
    }
    // a buffer of limited size, not always large enough for the request
    w.max = wl_chance(70) ? 1u << 20 : p.want.size() + wl(10); if (wl_chance(3)) w.max = wl(20);
    p.released = false;
    gen_reply(p);
    ev("exchange", p.x, p.valid, (int64_t)p.reply.size());
    note("%s valid %d, reply %lu bytes %02x %02x %02x %02x, handler %d buffer %d", xnames[p.x], p.valid, (unsigned long)p.reply.size(), p.reply.size() > 0 ? p.reply[0] : 0, p.reply.size() > 1 ? p.reply[1] : 0, p.reply.size() > 2 ? p.reply[2] : 0, p.reply.size() > 3 ? p.reply[3] : 0, w.hk, w.bufk);
  }
  std::string* ha = new std::string(*a); std::string* hb = new std::string(*b);
  if (p.x == x_greet) { methods = new uint8_t[nm + 1]; for (size_t i = 0; i < nm; ++i) { uint8_t v; { Quiet q; v = p.offered[i]; } methods[i] = v; } }
  bool started = true;
  th().in_init = w.rec;
  { Quiet q; w.rec->abandoning = true; } // an exchange that cannot be started destroys its handler
  try { AllocFaults af;
  with_both(w, [&](auto&& buf, auto&& h) {
    typedef std::decay_t<decltype(buf)> D; typedef std::decay_t<decltype(h)> H;
    switch (p.x) {
    case x_greet: so::async_greet(*w.s, (const so::auth_method*)methods, nm, (D&&)buf, (H&&)h); break;
    case x_login: so::async_login(*w.s, *ha, *hb, (D&&)buf, (H&&)h); break;
    case x_exec_ep: so::async_execute(*w.s, cmd, ep, (D&&)buf, (H&&)h); break;
    case x_exec_host: so::async_execute(*w.s, cmd, *ha, port, (D&&)buf, (H&&)h); break;
    case x_v4_ep: so::async_execute(*w.s, cmd, ep, *hb, (D&&)buf, (H&&)h); break;
    case x_v4_host: so::async_execute(*w.s, cmd, *ha, port, *hb, (D&&)buf, (H&&)h); break;
    }
  });
  } catch (std::bad_alloc&) { started = false; } catch (std::length_error&) { started = false; Quiet q; if (w.max >= p.want.size()) violation("length-error", "%s does not fit its request of %lu bytes into a buffer for %lu", xnames[p.x], (unsigned long)p.want.size(), (unsigned long)w.max); }
  th().in_init = 0;
  { Quiet q; if (started) w.rec->abandoning = false; }
  for (size_t i = 0; i < ha->size(); ++i) (*ha)[i] = '#';
  for (size_t i = 0; i < hb->size(); ++i) (*hb)[i] = '#';
  for (size_t i = 0; methods && i < nm; ++i) methods[i] = 0xee;
  delete[] methods; delete ha; delete hb;
  Quiet q; delete a; delete b;
  return started;
}
template <class World> size_t stored(World& w) { return w.bufk == 0 ? w.lb->size() : w.bufk == 1 ? w.str->size() : w.vec->size(); }
template <class World> uint8_t stored_at(World& w, size_t i) { return w.bufk == 0 ? (*w.lb)[i] : w.bufk == 1 ? (uint8_t)(*w.str)[i] : (uint8_t)(*w.vec)[i]; }

// true: the exchange succeeded and the connection goes on
inline bool check(World& w, bool abandoned)
{
  Bytes got;
  size_t n = stored(w);
  for (size_t i = 0; i < n; ++i) { uint8_t v = stored_at(w, i); Quiet q; got.push_back(v); }
  Quiet q;
  Proxy& p = *w.p; Rec& r = *w.rec; Net& net = *w.n;
  const char* x = xnames[p.x];
  if (abandoned) { if (!r.invoked && !r.dropped) violation("handler-lost", "%s: the handler was neither invoked nor destroyed", x); if (!r.invoked) return false; }
  if (!r.invoked) { violation("handler-lost", "%s: run() ran out of work but the handler was not invoked", x); return false; }
  if (r.live && !abandoned) violation("allocator", "%s: %lu blocks of the handler's allocator are still allocated after completion", x, (unsigned long)r.live);
  if (!p.valid) {
    if (!r.ec) violation("invalid-accepted", "%s succeeded with arguments that cannot be encoded", x);
    else if (r.ec != asio::error::invalid_argument) violation("invalid-accepted", "%s with arguments that cannot be encoded reports %s:%d", x, r.ec.category().name(), r.ec.value());
    return false;
  }
  if (r.ec && net.first_error) { if (r.ec != net.first_error) violation("transport-error", "%s reports %s:%d, the transfer failed with %d", x, r.ec.category().name(), r.ec.value(), net.first_error.value()); 
    if (p.x == x_greet && r.val != 0xff) violation("method", "%s failed but reports method %lld", x, (long long)r.val);
    return false; }
  if (!r.ec && net.first_error) { violation("transport-error", "%s succeeded although a transfer failed with %d", x, net.first_error.value()); return false; }
  if (net.out.size() != p.want.size()) { violation("request", "%s completed with %d after sending %lu of %lu bytes", x, r.ec.value(), (unsigned long)net.out.size(), (unsigned long)p.want.size()); return false; }
  Verdict v = judge(p);
  if (!r.ec) {
    if (v.v == Verdict::fail) { violation("bad-reply-accepted", "%s succeeded although the reply was negative or malformed (%02x %02x ...)", x, p.reply.size() > 0 ? p.reply[0] : 0, p.reply.size() > 1 ? p.reply[1] : 0); return false; }
    if (p.x == x_greet && r.val != p.reply[1]) violation("method", "%s reports method %lld, the proxy chose %u", x, (long long)r.val, p.reply[1]);
    // what follows the reply: in the buffer or still in the stream
    Bytes rest = got; rest.insert(rest.end(), net.in.begin() + (long)net.in_at, net.in.end());
    Bytes wantrest(p.reply.begin() + (long)v.used, p.reply.end());
    if (rest != wantrest) violation("stream-position", "%s: %lu bytes are left (%lu of them in the buffer), %lu bytes follow the reply", x, (unsigned long)rest.size(), (unsigned long)got.size(), (unsigned long)wantrest.size());
    return true;
  }
  if (v.v == Verdict::ok) violation("good-reply-refused", "%s failed with %s:%d although the reply was positive and well-formed", x, r.ec.category().name(), r.ec.value());
  if (v.v == Verdict::fail && v.exact && r.ec != v.ec) violation("wrong-error", "%s reports %s:%d instead of %s:%d", x, r.ec.category().name(), r.ec.value(), v.ec.category().name(), v.ec.value());
  if (p.x == x_greet && r.val != 0xff) violation("method", "%s failed but reports method %lld", x, (long long)r.val);
  // the parsed part of a refusal is consumed, what was received after it is kept
  size_t parsed = p.x >= x_v4_ep ? 8 : 2;
  if (net.in_at >= parsed) {
    bool tail = got.size() <= net.in_at - parsed && std::equal(got.begin(), got.end(), net.in.begin() + (long)(net.in_at - got.size()));
    if (!tail) violation("refusal-kept", "%s was refused and left %lu bytes in the buffer, %lu were received", x, (unsigned long)got.size(), (unsigned long)net.in_at);
    else probe("buffers checked after a refusal");
  }
  return false;
}

inline void session(bool v5)
{
  uint64_t mark = alloc_mark();
  World w{}; pthread_t nt; bool threads, abort_it; int steps = 0, hmode;
  Net* net = new Net;
  {
    Quiet q;
    race_detector(true); swarm_sched(true); faults_enabled(true);
    swarm_fault(f_net_segment, 80); if (wl_chance(50)) set_fault(f_net_segment, 50000); swarm_fault(f_net_delay, 50); swarm_fault(f_net_rst, 25); if (get_fault(f_net_rst) > 8000) set_fault(f_net_rst, 8000); set_fault(f_net_fin, wl_chance(50) ? 16000 : 0); set_fault(f_net_bytes, wl_chance(60) ? 24000 : 0); if (wl_chance(15)) set_fault(f_alloc, 4000);
    w.p = raw_new<Proxy>(); w.n = net; net->peer = w.p; net->on_out = proxy_out;
    threads = wl_chance(40); abort_it = wl_chance(15); steps = (int)wl(6); hmode = (int)wl(4);
    w.bufk = (int)wl(3);
  }
  w.io = new asio::io_context(threads ? 2 : 1);
  IoEx sex(w.io->get_executor(), 1);
  w.ex = new IoEx(w.io->get_executor(), 2); w.sx = new StrandTag(asio::make_strand(*w.io), 3);
  SimStream* s = new SimStream(sex, net); w.s = s;
  w.lb = new asioext::linear_buffer; w.str = new std::string; w.vec = new std::vector<char>;
  nt = go(net_main, net);
  int nx; uint64_t done = 0, good = 0, bad = 0; bool stopped = false;
  { Quiet q; nx = 1 + (int)wl(3); }
  for (int i = 0; i < nx && !stopped; ++i) {
    bool ab;
    {
      Quiet q;
      w.rec = raw_new<Rec>(); w.hk = hmode == 3 ? (int)wl(3) : hmode; w.rec->tag = w.hk + 1;
      w.p->x = v5 ? (Ex)wl(4) : (Ex)(x_v4_ep + wl(2));
      ab = abort_it && i == nx - 1;
      // between two exchanges nothing is left over
      net->in.clear(); net->in_at = 0; net->out.clear(); net->end = Net::e_open; net->first_error = asio::error_code();
      done++;
    }
    w.str->clear(); w.vec->clear(); w.lb->clear();
    if (i) w.io->restart();
    if (!start(w)) {
      Quiet q; Rec& r = *w.rec; probe("exchanges that could not be started");
      if (r.invoked) violation("failed-start", "%s threw and invoked its handler", xnames[w.p->x]);
      if (!r.dropped) violation("failed-start", "%s threw but keeps its handler", xnames[w.p->x]);
      if (r.live) violation("allocator", "%s threw and left %lu blocks of the handler's allocator", xnames[w.p->x], (unsigned long)r.live);
      if (!net->out.empty()) violation("failed-start", "%s threw and sent %lu bytes", xnames[w.p->x], (unsigned long)net->out.size());
      raw_delete(w.rec); continue;
    }
    if (ab) {
      th().running++;
      for (int k = 0; k < steps; ++k) { int us; { Quiet q; us = (int)wl(3000); } if (w.io->poll_one() == 0) sleep_us((uint64_t)us + 1); }
      th().running--;
      { Quiet q; w.rec->abandoning = true; }
      stop_net(*net, nt);
      abandon(*net);
      delete w.ex; delete w.sx; delete w.io; stopped = true;
    } else {
      pthread_t t2; if (threads) t2 = go(run_main, w.io);
      run_main(w.io);
      if (threads) join(t2);
      settle(*net);
    }
    bool goes_on = check(w, ab);
    { Quiet q; (goes_on ? good : bad)++; if (net->partial || net->failed || !goes_on) nontrivial(); raw_delete(w.rec); if (net->broken) i = nx; }
  }
  if (!stopped) { stop_net(*net, nt); delete w.ex; delete w.sx; delete w.io; }
  delete s; delete w.lb; delete w.str; delete w.vec;
  { Quiet q; probe("exchanges", done); if (good) probe("granted", good); if (bad) probe("refused, failed or abandoned", bad); if (net->partial) probe("partial transfers", net->partial); if (net->failed) probe("failed transfers", net->failed); Bytes().swap(net->in); Bytes().swap(net->out); raw_delete(w.p); }
  delete net;
  check_counted("handler objects (moved from, perhaps)");
  LeakInfo li = live_since(mark);
  if (li.count) violation("leak", "%lu blocks were never freed", (unsigned long)li.count);
}
} // namespace sk
#endif
