// A simulated stream connection for asynchronous and synchronous clients: a network
// thread decides when each transfer completes, how much of it is done and which fail.
#ifndef SCEN_SIMSTREAM_HPP
#define SCEN_SIMSTREAM_HPP
#include "scen/common.hpp"
#include <mutex>
#include <condition_variable>
#include <asio/error.hpp>
#include <asio/append.hpp>
#include <asio/async_result.hpp>
#include <asio/associated_executor.hpp>
#include <asio/associated_allocator.hpp>

namespace ss {
using namespace scen;
typedef std::vector<uint8_t> Bytes;
typedef TagEx<asio::io_context::executor_type> IoEx;

inline bool qfire(Fault f) { Loud l; return fire(f); } // from within bookkeeping

struct Pending {
  Pending* next = 0;
  bool write = false;
  uint64_t no = 0;
  struct Piece { uint8_t* p; size_t n; } piece[24]; int np = 0; size_t total = 0;
  virtual void complete(asio::error_code ec, size_t n) = 0;
  virtual void destroy() = 0;
protected:
  ~Pending() {}
};

// One connection, seen from the client: what has arrived, what was sent.
struct Net {
  std::mutex m; std::condition_variable cv;
  Pending* head = 0;
  bool quit = false, closed = false, busy = false;
  // harness bookkeeping (Quiet only)
  Bytes in; size_t in_at = 0; enum End { e_open, e_eof, e_rst } end = e_open;
  bool broken = false;             // the connection was reset
  Bytes out;
  void (*on_out)(Net&) = 0; void* peer = 0;
  uint64_t transfers = 0, partial = 0, failed = 0; int reads = 0, writes = 0;
  asio::error_code werr, rerr;      // first error of a write / read since the user reset it
  asio::error_code first_error;    // first error a transfer completed with
  uint64_t ops = 0;
  size_t avail() const { return in.size() - in_at; }
};

template <class Bufs> void describe(Pending& p, const Bufs& b)
{
  Quiet q;
  for (auto i = asio::buffer_sequence_begin(b); i != asio::buffer_sequence_end(b); ++i) {
    asio::const_buffer c(*i);
    if (p.np < 24) { p.piece[p.np].p = (uint8_t*)c.data(); p.piece[p.np].n = c.size(); p.np++; p.total += c.size(); }
  }
}
// The outcome of a transfer that can complete now. Quiet.
struct Outcome { asio::error_code ec; size_t n; };
inline bool ready(Net& n, const Pending& p)
{ return n.closed || n.broken || p.write || !p.total || n.avail() || n.end != Net::e_open; }
inline Outcome decide(Net& n, const Pending& p)
{
  Outcome o{asio::error_code(), 0};
  n.transfers++;
  if (n.closed) o.ec = asio::error::operation_aborted;
  else if (!p.total) return o;
  else if (!n.broken && qfire(f_net_rst)) { n.broken = true; o.ec = asio::error::connection_reset; }
  else if (n.broken) o.ec = p.write ? asio::error::broken_pipe : asio::error::connection_reset;
  else if (qfire(f_conn_err)) o.ec = asio::error::no_buffer_space; // passes
  else if (p.write) o.n = p.total;
  else if (n.avail()) o.n = p.total < n.avail() ? p.total : n.avail();
  else if (n.end == Net::e_rst) { n.broken = true; o.ec = asio::error::connection_reset; }
  else o.ec = asio::error::eof;
  if (o.n > 1 && qfire(f_net_segment)) { size_t k = draw(F, 3) ? 1 + draw(F, (uint32_t)(o.n < 1000 ? o.n - 1 : 1000)) : 1; if (k < o.n) { o.n = k; n.partial++; } }
  if (o.ec) { n.failed++; if (!n.first_error) n.first_error = o.ec; asio::error_code& d = p.write ? n.werr : n.rerr; if (!d) d = o.ec; }
  return o;
}
// Moves the bytes; the accesses to the client's memory are checked.
inline void transfer(Net& n, Pending& p, size_t k)
{
  size_t left = k;
  for (int i = 0; i < p.np && left; ++i) {
    size_t c = p.piece[i].n < left ? p.piece[i].n : left;
    for (size_t j = 0; j < c; ++j) {
      if (p.write) { uint8_t v = p.piece[i].p[j]; Quiet q; n.out.push_back(v); }
      else { uint8_t v; { Quiet q; v = n.in[n.in_at++]; } p.piece[i].p[j] = v; }
    }
    left -= c;
  }
  Quiet q;
  ev(p.write ? "sent" : "received", (int64_t)k, (int64_t)n.out.size());
  if (p.write && k && n.on_out) n.on_out(n);
}

inline void net_main(void* a)
{
  Net& n = *(Net*)a;
  std::unique_lock<std::mutex> lk(n.m);
  for (;;) {
    Pending* p = 0; bool slow = false; uint64_t us = 0, no = 0;
    {
      Quiet q;
      int c = 0;
      for (Pending* i = n.head; i; i = i->next) if (ready(n, *i)) ++c;
      if (c) {
        int k = c > 1 ? (int)draw(S, (uint32_t)c) : 0;
        for (Pending* i = n.head; i; i = i->next) if (ready(n, *i) && !k--) { p = i; break; }
        slow = qfire(f_net_delay); if (slow) us = 1 + draw(F, 20000);
        no = p->no;
      }
    }
    (void)no;
    if (n.quit) break;
    if (!p) { n.cv.wait(lk); continue; }
    if (slow) { lk.unlock(); sleep_us(us); lk.lock(); if (n.quit) break; }
    Outcome o;
    { Quiet q; o = decide(n, *p); }
    if (!o.ec) transfer(n, *p, o.n);
    { // unlink
      Quiet q;
      Pending** l = &n.head; while (*l != p) l = &(*l)->next;
      *l = p->next;
      if (p->write) n.writes--; else n.reads--;
    }
    n.busy = true;
    lk.unlock();
    p->complete(o.ec, o.n);
    lk.lock();
    n.busy = false;
  }
}

template <class H, class Ex> struct OpT : Pending {
  typedef typename std::allocator_traits<typename asio::associated_allocator<H>::type>::template rebind_alloc<OpT> A;
  typedef std::decay_t<decltype(asio::prefer(std::declval<Ex>(), asio::execution::outstanding_work.tracked))> WEx;
  typedef std::decay_t<decltype(asio::prefer(std::declval<IoEx>(), asio::execution::outstanding_work.tracked))> WIo;
  H h; WEx ex; WIo io;
  OpT(H&& hh, const Ex& e, const IoEx& i) : h(std::move(hh)), ex(asio::prefer(e, asio::execution::outstanding_work.tracked)), io(asio::prefer(i, asio::execution::outstanding_work.tracked)) {}
  static OpT* make(H&& h, const Ex& e, const IoEx& i)
  {
    A a(asio::get_associated_allocator(h));
    OpT* p = std::allocator_traits<A>::allocate(a, 1);
    try { new (p) OpT(std::move(h), e, i); } catch (...) { std::allocator_traits<A>::deallocate(a, p, 1); throw; }
    return p;
  }
  void release() { A a(asio::get_associated_allocator(h)); this->~OpT(); std::allocator_traits<A>::deallocate(a, this, 1); }
  void complete(asio::error_code ec, size_t n) override
  {
    A a(asio::get_associated_allocator(h));
    H hh(std::move(h)); WEx e(std::move(ex)); WIo i(std::move(io));
    this->~OpT(); std::allocator_traits<A>::deallocate(a, this, 1);
    asio::post(e, asio::append(std::move(hh), ec, n));
  }
  void destroy() override
  {
    A a(asio::get_associated_allocator(h));
    H hh(std::move(h));
    this->~OpT(); std::allocator_traits<A>::deallocate(a, this, 1);
  }
};

class SimStream {
public:
  typedef IoEx executor_type;
  typedef SimStream lowest_layer_type;
  SimStream(const executor_type& ex, Net* n) : ex_(ex), n_(n) {}
  executor_type get_executor() noexcept { return ex_; }
  lowest_layer_type& lowest_layer() { return *this; }
  const lowest_layer_type& lowest_layer() const { return *this; }
  Net& net() { return *n_; }

  template <class B, class T> auto async_read_some(const B& b, T&& token)
  { return asio::async_initiate<T, void(asio::error_code, std::size_t)>(Init{this, false}, token, b); }
  template <class B, class T> auto async_write_some(const B& b, T&& token)
  { return asio::async_initiate<T, void(asio::error_code, std::size_t)>(Init{this, true}, token, b); }
  template <class B> std::size_t read_some(const B& b, asio::error_code& ec) { return sync(false, b, ec); }
  template <class B> std::size_t write_some(const B& b, asio::error_code& ec) { return sync(true, b, ec); }
  template <class B> std::size_t read_some(const B& b) { asio::error_code ec; std::size_t n = read_some(b, ec); if (ec) throw asio::system_error(ec); return n; }
  template <class B> std::size_t write_some(const B& b) { asio::error_code ec; std::size_t n = write_some(b, ec); if (ec) throw asio::system_error(ec); return n; }
  void close(asio::error_code& ec)
  {
    ec = asio::error_code();
    std::lock_guard<std::mutex> l(n_->m);
    { Quiet q; n_->closed = true; ev("closed"); }
    n_->cv.notify_all();
  }
  void close() { asio::error_code ec; close(ec); }

private:
  struct Init {
    SimStream* s; bool write;
    template <class H, class B> void operator()(H&& h, const B& b) const { s->start(write, std::forward<H>(h), b); }
  };
  template <class H0, class B> void start(bool write, H0&& h0, const B& b)
  {
    typedef std::decay_t<H0> H;
    H h(std::forward<H0>(h0));
    auto ex = asio::get_associated_executor(h, ex_);
    auto* p = OpT<H, std::decay_t<decltype(ex)>>::make(std::move(h), ex, ex_);
    p->write = write;
    describe(*p, b);
    std::lock_guard<std::mutex> l(n_->m);
    {
      Quiet q;
      p->no = ++n_->ops;
      if (write ? n_->writes++ : n_->reads++) violation("overlapping-transfers", "a %s was started on the stream while another one was outstanding", write ? "write" : "read");
      Pending** e = &n_->head; while (*e) e = &(*e)->next;
      *e = p;
    }
    n_->cv.notify_all();
  }
  struct SyncP : Pending { void complete(asio::error_code, size_t) override {} void destroy() override {} };
  template <class B> std::size_t sync(bool write, const B& b, asio::error_code& ec)
  {
    SyncP p; p.write = write;
    describe(p, b);
    std::unique_lock<std::mutex> l(n_->m);
    Outcome o; bool slow; uint64_t us = 0;
    {
      Quiet q;
      if (write ? n_->writes : n_->reads) violation("overlapping-transfers", "a %s was made on the stream while another one was outstanding", write ? "write" : "read");
      slow = qfire(f_net_delay); if (slow) us = 1 + draw(F, 20000);
      if (write) n_->writes++; else n_->reads++;
    }
    if (slow) { l.unlock(); sleep_us(us); l.lock(); }
    for (;;) { bool r; { Quiet q; r = ready(*n_, p); } if (r) break; n_->cv.wait(l); }
    { Quiet q; o = decide(*n_, p); }
    if (!o.ec) transfer(*n_, p, o.n);
    { Quiet q; if (write) n_->writes--; else n_->reads--; }
    ec = o.ec;
    return o.ec ? 0 : o.n;
  }
  executor_type ex_; Net* n_;
};

// Ends the network; outstanding transfers are abandoned and their handlers destroyed.
inline void stop_net(Net& n, pthread_t t)
{
  { std::lock_guard<std::mutex> l(n.m); { Quiet q; n.quit = true; } n.cv.notify_all(); }
  join(t);
}
// Until the network thread holds no more work (it must not stop a restarted io_context).
inline void settle(Net& n)
{ for (;;) { bool b; { std::lock_guard<std::mutex> l(n.m); b = n.busy; } if (!b) return; sleep_us(1); } }
inline int abandon(Net& n)
{
  int c = 0;
  while (Pending* p = n.head) { n.head = p->next; p->destroy(); ++c; }
  return c;
}

// ------------------------------------------------------------------ handlers
struct Rec {
  int invoked = 0, dropped = 0; int tag = 0; bool strand = false; asio::error_code ec; int64_t val = 0;
  std::function<void(Rec&)> then;
  bool abandoning = false;
  uint64_t live = 0, allocs = 0; // blocks of the handler's allocator
};
// The handler's own allocator.
template <class T> struct RecAlloc {
  typedef T value_type;
  Rec* r;
  explicit RecAlloc(Rec* x) : r(x) {}
  template <class U> RecAlloc(const RecAlloc<U>& o) : r(o.r) {}
  T* allocate(size_t n) { T* p = (T*)::operator new(n * sizeof(T)); Quiet q; r->live++; r->allocs++; return p; }
  void deallocate(T* p, size_t) { { Quiet q; if (!r->live) violation("allocator", "more memory returned to the handler's allocator than taken from it"); r->live--; } ::operator delete(p); }
  template <class U> bool operator==(const RecAlloc<U>& o) const { return r == o.r; }
  template <class U> bool operator!=(const RecAlloc<U>& o) const { return r != o.r; }
};
struct HBase {
  Rec* r;
  Counted counted;
  explicit HBase(Rec* x) : r(x) {}
  HBase(HBase&& o) noexcept : r(o.r) { o.r = 0; }
  HBase(const HBase&) = delete;
  HBase& operator=(HBase&&) = delete;
  ~HBase() { if (r) { Quiet q; r->dropped++; ev("handler-dropped"); if (!r->abandoning) violation("handler-dropped", "a handler was destroyed without having been invoked"); } }
  void call(const asio::error_code& ec, int64_t v)
  {
    Rec* x = r; r = 0;
    {
      Quiet q;
      if (!x) { violation("handler-moved-from", "a moved-from handler was invoked"); return; }
      ev("handler", ec.value(), v);
      if (x->invoked++) violation("handler-invoked-twice", "a handler was invoked twice");
      x->ec = ec; x->val = v;
      if (th().in_init) violation("handler-inline", "a handler was invoked from within the initiating function");
      if (!th().running) violation("wrong-executor", "a handler was invoked outside of run()");
      if (x->tag && !has_tag(x->tag)) violation("wrong-executor", "a handler was not invoked through its executor");
    }
    if (x->then) x->then(*x);
  }
  void operator()(const asio::error_code& ec) { call(ec, 0); }
  template <class V> void operator()(const asio::error_code& ec, V v) { call(ec, (int64_t)v); }
};
struct H0 : HBase { using HBase::HBase; }; // uses the stream's executor
struct H1 : HBase { // its own executor and allocator
  typedef IoEx executor_type;
  typedef RecAlloc<void> allocator_type;
  IoEx ex;
  H1(Rec* x, const IoEx& e) : HBase(x), ex(e) {}
  executor_type get_executor() const noexcept { return ex; }
  allocator_type get_allocator() const noexcept { return allocator_type(ar); }
  Rec* ar = r;
};
typedef TagEx<asio::strand<asio::io_context::executor_type>> StrandTag;
struct H2 : HBase { // a strand
  typedef StrandTag executor_type;
  StrandTag ex;
  H2(Rec* x, const StrandTag& e) : HBase(x), ex(e) {}
  executor_type get_executor() const noexcept { return ex; }
};

inline void run_main(void* a) { asio::io_context* io = (asio::io_context*)a; th().running++; io->run(); th().running--; }
} // namespace ss
#endif
