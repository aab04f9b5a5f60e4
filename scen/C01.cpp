// C01: composed operations, bound handlers and work tuples.
#include "scen/simstream.hpp"
#include <asioext/compose.hpp>
#include <asioext/bind_handler.hpp>
#include <asioext/work.hpp>
#include <memory_resource>

namespace {
using namespace ss;
using asio::error_code;

// ------------------------------------------------------------------ whole operations
struct Io : asio::io_context { using asio::io_context::shutdown; };
struct Ctx { Io* io = 0; asio::executor_work_guard<asio::io_context::executor_type>* guard = 0; pthread_t t; bool ended = false; uint64_t end_seq = 0; int id; };
struct Op; 
struct World {
  int nc; Ctx c[3]; Net* n; std::vector<Op*> ops; IoEx* plain[3]; IoEx* hex[3]; StrandTag* sx[3]; SimStream* st[3];
  bool abandoning = false; uint64_t steps = 0, throws = 0, aborts = 0;
} *w;
struct Thrown {};
struct Op {
  Rec r; unsigned held = 0; int hk = 0, hctx = 0, left = 0, id = 0; bool started = false; int n = 0;
  bool cont = false;           // what the handler says about being a continuation
  bool direct = false;         // the first step runs in the caller
  int posts = 0;               // steps whose memory came from the handler's allocator
  error_code pass; size_t pass_n = 0; bool has_pass = false;
  error_code fin; int64_t fin_n = 0; bool finishing = false, bound = false; std::string* text = 0; bool throws_ = false, aborted = false;
  uint64_t seed = 0;
};
// No context the operation holds work on has run out of work (stop() ends run() too).
void check_work(Op& o, const char* when, uint64_t at)
{
  if (w->abandoning) return;
  for (int i = 0; i < w->nc; ++i) if ((o.held >> i & 1) && w->c[i].ended && w->c[i].end_seq < at)
    violation("work-lost", "operation %d: run() of an io_context it keeps work on returned before %s", o.id, when);
}
uint64_t entry_seq(int tag) { Th& t = th(); for (int i = t.ntags - 1; i >= 0; --i) if (i < 16 && t.tags[i] == tag) return t.tag_seq[i]; return next_seq(); }

template <class Self> struct Ext : Pending { // leaves every executor, without any work of its own
  Self s; IoEx ex;
  Ext(Self&& x, const IoEx& e) : s(std::move(x)), ex(e) { write = true; }
  void complete(error_code, size_t) override
  {
    Self x(std::move(s)); IoEx e(ex); Op* o = x.get_handler().op;
    error_code ec; size_t n; { Quiet q; ec = o->pass; n = o->pass_n; }
    delete this;
    asio::post(e, asio::append(std::move(x), ec, n));
  }
  void destroy() override { Self x(std::move(s)); delete this; }
};
struct Impl {
  Counted counted; int my_steps = 0; std::vector<int> state; // a member that must survive every move
  template <class Self> void operator()(Self& self, error_code ec = error_code(), size_t n = 0)
  {
    Op& o = *self.get_handler().op;
    int k, tgt; bool ok = true;
    {
      Quiet q;
      ev("step", o.id, my_steps, ec.value(), (int64_t)n); w->steps++;
      if (my_steps != o.n) violation("state", "operation %d: step %d sees the state of step %d", o.id, o.n, my_steps);
      o.n++;
      if (o.r.invoked) violation("step-after-completion", "operation %d: a step ran after completion", o.id);
      if (my_steps || !o.direct) { if (!has_tag(o.r.tag)) violation("step-executor", "operation %d: step %d does not run through the handler's executor", o.id, my_steps); }
      check_work(o, "its completion", next_seq());
      if (o.has_pass) { if (ec != o.pass || n != o.pass_n) violation("step-arguments", "operation %d: step %d received other arguments than were passed", o.id, my_steps); o.has_pass = false; }
      k = o.left > 0 ? (int)wl(6) : 6; tgt = (int)wl((uint32_t)w->nc); o.left--;
      if (k >= 4 && k < 6 && w->ops.size() > 1) k = 3;
      bool cont, want = my_steps > 0 || o.cont; { Loud l; cont = asio_handler_cont_helpers::is_continuation(self); }
      if (cont != want) violation("continuation", "operation %d: in step %d it says it is %s continuation", o.id, my_steps, cont ? "a" : "no");
      if (wl_chance(3)) { k = 7; o.aborted = o.r.abandoning = true; w->aborts++; count_fault(f_handler_throw); ev("step throws"); }
    }
    if (k == 7) throw Thrown(); // nothing continues the operation, so it is destroyed with its handler and its work
    for (size_t i = 0; i < state.size(); ++i) if (state[i] != (int)i) ok = false;
    if (!ok || (int)state.size() != my_steps) violation("state", "operation %d: the state of its implementation was lost", o.id);
    state.push_back(my_steps++);
    if (k < 3) {
      { Quiet q; o.posts++; }
      if (k == 0) asio::post(*w->plain[tgt], std::move(self)); else if (k == 1) asio::defer(*w->plain[tgt], std::move(self)); else asio::post(*w->plain[tgt], asio::append(std::move(self), error_code(), size_t(0)));
    } else if (k == 3) {
      { Quiet q; o.pass = wl_chance(50) ? error_code() : error_code(asio::error::timed_out); o.pass_n = rnd_n(); o.has_pass = true; o.posts++; }
      auto* e = new Ext<Self>(std::move(self), *w->plain[tgt]);
      std::lock_guard<std::mutex> l(w->n->m);
      { Quiet q; Pending** p = &w->n->head; while (*p) p = &(*p)->next; *p = e; w->n->writes++; }
      w->n->cv.notify_all();
    } else if (k < 6) {
      static uint8_t buf[64];
      { Quiet q; o.posts++; }
      w->st[tgt]->async_write_some(asio::buffer(buf, 8), std::move(self));
    } else {
      bool bnd; int bt; unsigned held; int tag;
      { Quiet q; o.finishing = true; o.fin = flip() ? error_code() : error_code(asio::error::eof); o.fin_n = (int64_t)rnd_n(); bnd = o.bound = flip(); bt = (int)wl((uint32_t)w->nc); held = o.held; tag = o.hctx; if (bnd) o.posts++; }
      error_code fe; size_t fn; { Quiet q; fe = o.fin; fn = (size_t)o.fin_n; }
      if (bnd) {
        auto b = self.complete_to_bound_handler(fe, fn);
        bool cont = asio_handler_cont_helpers::is_continuation(b);
        { Quiet q; if (cont != o.cont) violation("continuation", "operation %d: its handler says it is %s continuation, the bound handler the opposite", o.id, o.cont ? "a" : "no"); }
        asio::post(*w->plain[bt], std::move(b)); return;
      }
      Op* po = &o;
      self.complete(fe, fn);
      { Quiet q; if (po->r.invoked != 1) violation("completion", "operation %d: complete() returned without invoking the handler", po->id); }
      // complete() has released the work although the operation object still exists
      bool watch; { Quiet q; watch = wl_chance(40) && !w->abandoning; }
      if (!watch) return;
      for (int i = 0; i < w->nc; ++i) {
        bool mine; { Quiet q; mine = !(held >> i & 1) || th().running == i + 1 || w->c[i].guard || tag == i; for (Op* x : w->ops) if (x != po && (x->held >> i & 1)) mine = true; if (w->ops.size() > 1) mine = true; }
        if (mine) continue;
        int t = 0; for (; t < 300; ++t) { bool e; { Quiet q; e = w->c[i].ended; } if (e) break; sleep_us(500); }
        if (t == 300) violation("work-kept", "operation %d: after complete() the io_context it kept work on does not run out of work", po->id);
      }
    }
  }
  static size_t rnd_n() { return wl(100000); }
};
struct Final : HBase { // the final handler
  Op* op;
  explicit Final(Op* o) : HBase(&o->r), op(o) {}
  Final(Final&&) = default;
  friend bool asio_handler_is_continuation(Final* f) { return f->op->cont; }
  void operator()(const error_code& ec, std::size_t n)
  {
    Op* o = op;
    {
      Quiet q;
      if (!o->finishing) violation("completion", "operation %d: its handler was invoked before it completed", o->id);
      if (ec != o->fin || (int64_t)n != o->fin_n) violation("arguments", "operation %d: the handler received other arguments than were given to complete()", o->id);
      check_work(*o, "its handler was invoked", o->bound ? entry_seq(o->r.tag) : next_seq());
    }
    call(ec, (int64_t)n);
    yield();
    {
      Quiet q;
      if (!o->bound) check_work(*o, "its handler returned", next_seq());
      if (o->r.live) violation("memory", "operation %d: %lu blocks of the handler's allocator are still allocated when the handler runs", o->id, (unsigned long)o->r.live);
      if (o->hk && (int64_t)o->r.allocs < o->posts) violation("allocator", "operation %d: %d steps, %lu allocations from the handler's allocator", o->id, o->posts, (unsigned long)o->r.allocs);
    }
    if (o->throws_) { { Quiet q; w->throws++; count_fault(f_handler_throw); ev("throws"); } throw Thrown(); }
  }
};
// Like H1/H2: own executor and allocator.
struct F1 : Final {
  typedef IoEx executor_type; typedef RecAlloc<void> allocator_type; IoEx ex;
  F1(Op* o, const IoEx& e) : Final(o), ex(e) {}
  F1(F1&&) = default;
  executor_type get_executor() const noexcept { return ex; }
  allocator_type get_allocator() const noexcept { return allocator_type(&op->r); }
};
struct F2 : Final {
  typedef StrandTag executor_type; typedef RecAlloc<void> allocator_type; StrandTag ex;
  F2(Op* o, const StrandTag& e) : Final(o), ex(e) {}
  F2(F2&&) = default;
  executor_type get_executor() const noexcept { return ex; }
  allocator_type get_allocator() const noexcept { return allocator_type(&op->r); }
};
struct Starter { virtual void go() = 0; virtual ~Starter() {} };
template <class C> struct StarterT : Starter { C c; int ctx; bool direct; IoEx ex; StarterT(C&& x, bool d, const IoEx& e) : c(std::move(x)), direct(d), ex(e) {} void go() override { if (direct) { C x(std::move(c)); x(); } else asio::post(ex, std::move(c)); } };
template <class C> Starter* starter(C&& c, bool d, const IoEx& e) { return new StarterT<std::decay_t<C>>(std::move(c), d, e); }
template <class H> Starter* compose(Op& o, H&& h)
{
  unsigned held = o.held; IoEx** p = w->plain; bool d = o.direct; const IoEx& e = *p[o.hctx];
  bool obj; { Quiet q; obj = flip(); }
  int i0 = -1, i1 = -1, i2 = -1;
  for (int i = 0; i < w->nc; ++i) if (held >> i & 1) (i0 < 0 ? i0 : i1 < 0 ? i1 : i2) = i;
  if (i0 < 0) return starter(asioext::make_composed_operation(Impl(), std::move(h)), d, e);
  if (i1 < 0) { if (obj) return starter(asioext::make_composed_operation(Impl(), std::move(h), *w->st[i0]), d, e); return starter(asioext::make_composed_operation(Impl(), std::move(h), *p[i0]), d, e); }
  if (i2 < 0) { if (obj) return starter(asioext::make_composed_operation(Impl(), std::move(h), *p[i1], *w->st[i0]), d, e); return starter(asioext::make_composed_operation(Impl(), std::move(h), *p[i0], *p[i1]), d, e); }
  return starter(asioext::make_composed_operation(Impl(), std::move(h), *p[i2], *w->st[i0], *p[i1]), d, e);
}
void runner(void* a)
{
  Ctx& c = *(Ctx*)a;
  th().running = c.id + 1;
  for (;;) try { c.io->run(); break; } catch (Thrown&) { }
  Quiet q; th().running = 0; c.ended = true; c.end_seq = next_seq(); ev("ran-out-of-work", c.id);
}
void composed()
{
  uint64_t mark = alloc_mark();
  Net* net = new Net; bool leave; int no; pthread_t nt;
  {
    Quiet q;
    race_detector(true); swarm_sched(true);
    swarm_fault(f_net_delay, 70);
    w = raw_new<World>(); w->n = net; w->nc = 1 + (int)wl(3); no = wl_chance(60) ? 1 : 1 + (int)wl(3); leave = wl_chance(15);
  }
  for (int i = 0; i < w->nc; ++i) {
    w->c[i].id = i; w->c[i].io = new Io;
    w->plain[i] = new IoEx(w->c[i].io->get_executor(), 1 + i); w->hex[i] = new IoEx(w->c[i].io->get_executor(), 11 + i); w->sx[i] = new StrandTag(asio::make_strand(*w->c[i].io), 21 + i);
    w->st[i] = new SimStream(*w->plain[i], net);
  }
  std::vector<Starter*> st;
  unsigned all = 0;
  for (int i = 0; i < no; ++i) {
    Op* o;
    { Quiet q; o = raw_new<Op>(); o->id = i; o->held = wl(1u << w->nc); o->hctx = (int)wl((uint32_t)w->nc); o->hk = 1 + (int)wl(2); o->cont = flip(); o->direct = flip(); o->left = o->direct + (int)wl(7); o->throws_ = wl_chance(15); w->ops.push_back(o); all |= o->held; o->r.tag = (o->hk == 1 ? 11 : 21) + o->hctx; ev("operation", o->held, o->hctx, o->hk, o->left); }
    st.push_back(o->hk == 1 ? compose(*o, F1(o, *w->hex[o->hctx])) : compose(*o, F2(o, *w->sx[o->hctx])));
  }
  // contexts that no operation keeps alive are kept alive here (or also, at times)
  for (int i = 0; i < w->nc; ++i) { bool g; { Quiet q; g = no > 1 || !(w->ops[0]->held >> i & 1) || wl_chance(10); } if (g) w->c[i].guard = new asio::executor_work_guard<asio::io_context::executor_type>(w->c[i].io->get_executor()); }
  if (no > 1) for (int i = 0; i < w->nc; ++i) { // with several operations: only those that all of them hold are left alone
    bool every = true; for (Op* o : w->ops) if (!(o->held >> i & 1)) every = false;
    if (every) { delete w->c[i].guard; w->c[i].guard = 0; }
  }
  // every operation is judged only on what it alone keeps alive, so ended contexts are real losses
  nt = go(net_main, net);
  for (int i = 0; i < w->nc; ++i) w->c[i].t = go(runner, &w->c[i]);
  for (Starter* s : st) { uint64_t us; { Quiet q; us = flip() ? 0 : wl(3000); } if (us) sleep_us(us); try { s->go(); } catch (Thrown&) {} }
  uint64_t waited = 0, limit; { Quiet q; limit = leave ? wl(20000) : 60000000; }
  for (;;) {
    bool all_done = true; { Quiet q; for (Op* o : w->ops) if (!o->r.invoked && !(o->aborted && o->r.dropped)) all_done = false; }
    if (all_done || waited > limit) break;
    uint64_t us = waited < 5000 ? 100 : 2000; sleep_us(us); waited += us;
  }
  if (!leave) { for (Op* o : w->ops) if (o->aborted) { if (o->r.invoked) violation("completion", "operation %d: its handler was invoked although a step threw", o->id); if (!o->r.dropped) violation("handler-lost", "operation %d: a step threw but its handler was not destroyed", o->id); } else if (!o->r.invoked) violation("handler-lost", "operation %d: its handler was never invoked (%d steps, %d left)", o->id, o->n, o->left); }
  else { Quiet q; w->abandoning = true; for (Op* o : w->ops) o->r.abandoning = true; for (int i = 0; i < w->nc; ++i) { Loud l; w->c[i].io->stop(); } }
  for (int i = 0; i < w->nc; ++i) { delete w->c[i].guard; }
  for (int i = 0; i < w->nc; ++i) join(w->c[i].t); // hangs when work is never released
  stop_net(*net, nt);
  abandon(*net);
  for (Starter* s : st) delete s;
  for (int i = 0; i < w->nc; ++i) { delete w->st[i]; delete w->plain[i]; delete w->hex[i]; delete w->sx[i]; }
  // what one context still has queued may keep work on another: all are emptied before any is gone
  for (int i = 0; i < w->nc; ++i) w->c[i].io->shutdown();
  for (int i = 0; i < w->nc; ++i) delete w->c[i].io;
  std::vector<Starter*>().swap(st);
  {
    Quiet q;
    uint64_t inv = 0;
    for (Op* o : w->ops) { if (!o->r.invoked && !o->r.dropped) violation("handler-lost", "operation %d: its handler was neither invoked nor destroyed", o->id); if (o->r.live) violation("memory", "operation %d: memory of the handler's allocator was never returned", o->id); inv += (uint64_t)o->r.invoked; raw_delete(o); }
    probe("steps", w->steps); probe("operations completed", inv); if (w->throws) probe("handlers that threw", w->throws); if (w->aborts) probe("steps that threw", w->aborts);
    if (w->steps > 2) nontrivial();
    Bytes().swap(net->out); raw_delete(w); w = 0;
  }
  delete net;
  check_counted("handler objects (moved from, perhaps)");
  LeakInfo li = live_since(mark);
  if (li.count) violation("leak", "%lu blocks were never freed", (unsigned long)li.count);
}

// ------------------------------------------------------------------ work, exactly counted
typedef asio::io_context::executor_type Ex;
struct BoundRec { int invoked = 0; asio::io_context** c = 0; const std::vector<struct Held*>* hs = 0; int released = -1; }; // released: context on which nobody keeps work when the handler runs
void check_released(BoundRec* b);
struct BH {
  typedef RecAlloc<void> allocator_type; typedef Ex executor_type;
  BoundRec* b; Rec* r; Ex ex; int* work; int held;
  BH(BoundRec* x, Rec* y, const Ex& e) : b(x), r(y), ex(e), work(0), held(0) {}
  executor_type get_executor() const noexcept { return ex; }
  allocator_type get_allocator() const noexcept { return allocator_type(r); }
  void operator()(const error_code& ec, int n, const std::string& s)
  {
    check_released(b);
    Quiet q;
    b->invoked++;
    if (ec != error_code(asio::error::eof) || n != 4711 || s != "a string that is longer than any small buffer") violation("arguments", "the bound handler received other arguments than were bound");
  }
};
struct Held { virtual ~Held() {} unsigned on = 0; virtual Held* copy() = 0; virtual Held* move() = 0; virtual void reset() = 0; virtual bool call() { return false; } };
template <class T> struct HeldTuple : Held {
  T t;
  HeldTuple(const T& x) : t(x) {}
  HeldTuple(T&& x) : t(std::move(x)) {}
  Held* copy() override { auto* h = new HeldTuple(t); h->on = on; return h; }
  Held* move() override { auto* h = new HeldTuple(std::move(t)); h->on = on; on = 0; return h; }
  void reset() override { t.reset(); on = 0; }
};
template <class T> struct HeldBound : Held {
  T t; bool alive = true;
  HeldBound(const T& x) : t(x) {}
  HeldBound(T&& x) : t(std::move(x)) {}
  Held* copy() override { if (!alive) return 0; auto* h = new HeldBound(t); h->on = on; return h; }
  Held* move() override { if (!alive) return 0; alive = false; auto* h = new HeldBound(std::move(t)); h->on = on; on = 0; return h; }
  void reset() override { }
  bool call() override { if (!alive) return false; alive = false; on = 0; t(); return true; }
};
void check_counts(asio::io_context** c, const std::vector<Held*>& hs, const char* when)
{
  for (int j = 0; j < 3; ++j) {
    unsigned want = 0; for (Held* h : hs) want += h->on >> (4 * j) & 15;
    c[j]->restart(); c[j]->poll();
    if (c[j]->stopped() != (want == 0)) violation(want ? "work-lost" : "work-kept", "io_context %d has %s work although %u guards exist for it%s", j, want ? "no" : "still", want, when);
  }
}
void check_released(BoundRec* b)
{
  if (b->hs) check_counts(b->c, *b->hs, ", in a bound handler's handler");
  if (b->released >= 0) { asio::io_context* k = b->c[b->released]; k->restart(); k->poll(); if (!k->stopped()) violation("work-kept", "a bound handler keeps its work while its handler runs"); }
}
// An operation whose object lives on after complete_to_bound_handler().
struct Plain { // nothing associated with it
  BoundRec* b;
  explicit Plain(BoundRec* x) : b(x) {}
  Plain(Plain&&) = default;
  void operator()(const error_code& ec, int n, const std::string&) { check_released(b); Quiet q; b->invoked++; if (ec || n != 17) violation("arguments", "the bound handler received other arguments than were bound"); }
};
struct Finish {
  asio::io_context** c; int a, k; bool post, early;
  template <class Self> void operator()(Self& self)
  {
    BoundRec* b = self.get_handler().b; int before; { Quiet q; before = b->invoked; }
    Ex ea = c[a]->get_executor(); asio::any_io_executor ia(ea); std::pmr::polymorphic_allocator<char> al(std::pmr::null_memory_resource());
    if (asio::get_associated_executor(self, ia) != ia) violation("wrong-executor", "an operation whose handler has no executor is not run through the default one");
    if (asio::get_associated_allocator(self, al) != al) violation("allocator", "an operation whose handler has no allocator does not use the default one");
    bool held; { c[k]->restart(); c[k]->poll(); held = !c[k]->stopped(); }
    if (!held) violation("work-lost", "an operation does not keep work before it completes");
    {
      auto h = self.complete_to_bound_handler(error_code(), 17, std::string("x"));
      if (asio::get_associated_executor(h, ia) != ia) violation("wrong-executor", "a bound handler whose handler has no executor is not run through the default one");
      if (asio::get_associated_allocator(h, al) != al) violation("allocator", "a bound handler whose handler has no allocator does not use the default one");
      c[k]->restart(); c[k]->poll(); if (c[k]->stopped()) violation("work-lost", "a bound handler does not take over its operation's work");
      b->released = k;
      if (post) { c[a]->restart(); asio::post(ia, std::move(h)); c[k]->restart(); c[k]->poll(); if (c[k]->stopped()) violation("work-lost", "a posted bound handler does not keep its work"); if (!early) c[a]->poll(); }
      else if (early) { auto x(std::move(h)); x(); } else h();
    }
    if (post && early) c[a]->poll();
    b->released = -1;
    { Quiet q; if (b->invoked != before + 1) violation("completion", "a bound handler was invoked %d times", b->invoked - before); }
    c[k]->restart(); c[k]->poll(); if (!c[k]->stopped()) violation("work-kept", "an operation still keeps work after it has completed through a bound handler");
  }
};
template <class T> Held* tuple(T&& t) { return new HeldTuple<std::decay_t<T>>(std::move(t)); }
template <class T> Held* bound(T&& t) { return new HeldBound<std::decay_t<T>>(std::move(t)); }
void counted()
{
  uint64_t mark = alloc_mark();
  std::vector<Held*> hs; BoundRec* br; Rec* rec; int n; uint64_t calls = 0, copies = 0, moves = 0, resets = 0;
  { Quiet q; race_detector(false); swarm_sched(false); br = raw_new<BoundRec>(); rec = raw_new<Rec>(); n = 5 + (int)wl(40); }
  asio::io_context* c[3]; for (auto& x : c) x = new asio::io_context(1);
  br->c = c; br->hs = &hs;
  for (int i = 0; i < n; ++i) {
    int k; size_t at; { Quiet q; k = (int)wl(9); at = hs.empty() ? 0 : wl((uint32_t)hs.size()); if (k > 3 && hs.empty()) k = 0; ev("action", k, (int64_t)at); }
    switch (k) {
    case 0: case 1: case 2: {
      int a, b, d, m; bool bd; { Quiet q; a = (int)wl(3); b = (int)wl(3); d = (int)wl(3); m = (int)wl(4); bd = flip(); }
      Ex ea = c[a]->get_executor(), eb = c[b]->get_executor(), ed = c[d]->get_executor(); Held* h; unsigned on;
      auto mk = [&](auto&& t) { if (!bd) return tuple(std::move(t)); return bound(asioext::bind_handler(BH(br, rec, ea), std::move(t), error_code(asio::error::eof), 4711, std::string("a string that is longer than any small buffer"))); };
      // one octal digit per context counts the work units on it
      auto u = [](int x) { return 1u << (4 * x); };
      if (m == 0) { h = mk(asioext::make_work_tuple()); on = 0; } else if (m == 1) { h = mk(asioext::make_work_tuple(ea)); on = u(a); }
      else if (m == 2) { h = mk(asioext::make_work_tuple(ea, eb)); on = u(a) + u(b); } else { h = mk(asioext::make_work_tuple(ea, eb, ed)); on = u(a) + u(b) + u(d); }
      h->on = on; hs.push_back(h);
      break; }
    case 3: { // without work
      BH h(br, rec, c[0]->get_executor());
      hs.push_back(bound(asioext::bind_handler(std::move(h), error_code(asio::error::eof), 4711, std::string("a string that is longer than any small buffer"))));
      break; }
    case 4: { Held* h = hs[at]->copy(); if (h) hs.push_back(h); ++copies; break; }
    case 5: { Held* h = hs[at]->move(); if (h) hs.push_back(h); ++moves; break; }
    case 6: hs[at]->reset(); ++resets; break;
    case 7: { int before = br->invoked; bool r = hs[at]->call(); if (br->invoked != before + (r ? 1 : 0)) violation("completion", "calling a bound handler invoked its handler %d times", br->invoked - before); calls += r; break; }
    default: delete hs[at]; hs.erase(hs.begin() + (long)at); break;
    }
    check_counts(c, hs, "");
  }
  br->hs = 0;
  // bound handlers through executors: exactly one invocation, the handler's executor and allocator
  for (Held* h : hs) delete h;
  std::vector<Held*>().swap(hs);
  for (int j = 0; j < 3; ++j) { c[j]->restart(); c[j]->poll(); if (!c[j]->stopped()) violation("work-kept", "io_context %d still has work although nothing is left", j); }
  {
    int a, b; { Quiet q; a = (int)wl(3); b = (int)wl(3); }
    int before = br->invoked; uint64_t al = rec->allocs;
    for (auto* x : c) x->restart();
    asio::post(c[b]->get_executor(), asioext::bind_handler(BH(br, rec, c[a]->get_executor()), asioext::make_work_tuple(c[(b + 1) % 3]->get_executor()), error_code(asio::error::eof), 4711, std::string("a string that is longer than any small buffer")));
    if (rec->allocs == al) violation("allocator", "posting a bound handler does not use the handler's allocator");
    if (c[(b + 1) % 3]->poll(), c[(b + 1) % 3]->stopped()) violation("work-lost", "a posted bound handler does not keep its work");
    if ((b + 1) % 3 != a) br->released = (b + 1) % 3;
    if (a != b) { c[a]->restart(); c[a]->poll(); c[b]->restart(); c[b]->poll(); if (br->invoked != before) violation("wrong-executor", "a bound handler ran outside of its handler's executor"); c[a]->restart(); c[a]->poll(); }
    else { c[b]->restart(); c[b]->poll(); }
    br->released = -1;
    if (br->invoked != before + 1) violation("completion", "a posted bound handler was invoked %d times", br->invoked - before);
    if (rec->live) violation("memory", "memory of the handler's allocator was not returned");
    int k = (b + 1) % 3; c[k]->restart(); c[k]->poll(); if (!c[k]->stopped()) violation("work-kept", "an invoked bound handler still keeps its work");
  }
  {
    int a, k, d; bool post, early, two; { Quiet q; a = (int)wl(3); k = (a + 1 + (int)wl(2)) % 3; d = 3 - a - k; post = flip(); early = flip(); two = flip(); }
    for (auto* x : c) x->restart();
    if (two) asioext::make_composed_operation(Finish{c, a, k, post, early}, Plain(br), c[d]->get_executor(), *c[k])();
    else asioext::make_composed_operation(Finish{c, a, k, post, early}, Plain(br), c[k]->get_executor())();
    for (auto* x : c) { x->restart(); x->poll(); if (!x->stopped()) violation("work-kept", "work is left after an operation has gone"); }
  }
  for (auto* x : c) delete x;
  { Quiet q; if (calls) probe("bound handlers called", calls); if (copies) probe("copies", copies); if (moves) probe("moves", moves); if (resets) probe("resets", resets); if (calls && copies && moves) nontrivial(); raw_delete(br); raw_delete(rec); }
  check_counted("handler objects (moved from, perhaps)");
  LeakInfo li = live_since(mark);
  if (li.count) violation("leak", "%lu blocks were never freed", (unsigned long)li.count);
}
}
SCENARIO_W(C01, composed, 3) { composed(); }
SCENARIO(C01, counted) { counted(); }
