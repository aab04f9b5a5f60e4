// unique_handler: histories of storing, moving, invoking, resetting and failing.
#include "scen/common.hpp"
#include <asioext/unique_handler.hpp>
#include <asioext/exception.hpp>
using namespace scen;
namespace {
struct Rec { int id; int alloc; bool alive = true, invoked = false; };
typedef asioext::unique_handler<void(int, std::string)> UH;
struct World {
  std::vector<Rec*> recs;
  struct Blk { void* p; size_t n; int alloc; Rec* r; }; std::vector<Blk> blocks;
  bool throw_moves = false; uint32_t pthrow = 0; Rec* in_store = nullptr;
  uint64_t calls = 0, aborts = 0, failures = 0, reentrant = 0, nested = 0;
  // What the destructor of a handler does to the object that holds or held it (a handler often
  // owns what the object is part of): 0 nothing, 1 looks, 2 resets it, 3 destroys it, 4 stores a handler
  int act = 0; UH* act_on = nullptr; bool acted = false; Rec* act_stored = nullptr; Rec* act_rec = nullptr; int armed = 0;
  int nalloc = 0;
};
World* w;
struct Boom {};
template <class T> struct Al {
  typedef T value_type;
  int id;
  explicit Al(int i) : id(i) {}
  template <class U> Al(const Al<U>& o) : id(o.id) {}
  T* allocate(size_t n)
  {
    void* p = ::operator new(n * sizeof(T));
    Quiet q; w->blocks.push_back({p, n * sizeof(T), id, 0}); ++w->nalloc;
    return (T*)p;
  }
  void deallocate(T* p, size_t n)
  {
    {
      Quiet q; size_t i;
      for (i = 0; i < w->blocks.size(); ++i) if (w->blocks[i].p == p) break;
      if (i == w->blocks.size()) violation("foreign-free", "memory returned to an allocator was not allocated by it");
      else {
        if (w->blocks[i].alloc != id) violation("wrong-allocator", "memory of allocator %d returned to allocator %d", w->blocks[i].alloc, id);
        if (w->blocks[i].n != n * sizeof(T)) violation("wrong-size", "%lu bytes allocated, %lu returned", (unsigned long)w->blocks[i].n, (unsigned long)(n * sizeof(T)));
        w->blocks.erase(w->blocks.begin() + (long)i);
      }
    }
    ::operator delete(p);
  }
  template <class U> bool operator==(const Al<U>& o) const { return id == o.id; }
  template <class U> bool operator!=(const Al<U>& o) const { return id != o.id; }
};
bool blocks_of(int alloc) { for (auto& b : w->blocks) if (b.alloc == alloc) return true; return false; }

int g_objs; // handler objects, also those that have been moved from
void on_call(Rec* r, int a, const std::string& s);
void on_destroy(Rec* r);

// Handler with its own allocator; its moves may throw while it is being stored.
struct H {
  typedef Al<char> allocator_type;
  Rec* r;
  std::string payload;
  explicit H(Rec* x) : r(x), payload("a string that does not fit inside the object") { ++g_objs; }
  H(H&& o) : r(o.r)
  {
    {
      bool boom = false;
      { Quiet q; boom = r && w->in_store == r && w->throw_moves && draw_p(F, 13000); if (boom) count_fault(f_handler_throw); }
      if (boom) throw Boom();
    }
    payload = std::move(o.payload);
    o.r = 0; ++g_objs;
  }
  H(const H&) = delete;
  H& operator=(const H&) = delete;
  ~H() { --g_objs; if (r) { Rec* x = r; r = 0; { Quiet q; if (!x->alive) violation("destroyed-twice", "handler %d destroyed twice", x->id); x->alive = false; } on_destroy(x); } }
  allocator_type get_allocator() const noexcept { return Al<char>(r ? r->alloc : -1); }
  void operator()(int a, std::string s) { on_call(r, a, s); }
};
// Default allocator and copyable.
struct P {
  Rec* r; char pad[90];
  explicit P(Rec* x) : r(x) { ++g_objs; }
  P(P&& o) noexcept : r(o.r) { o.r = 0; ++g_objs; }
  P(const P&) = delete;
  ~P() { --g_objs; if (r) { Rec* x = r; r = 0; { Quiet q; if (!x->alive) violation("destroyed-twice", "handler %d destroyed twice", x->id); x->alive = false; } on_destroy(x); } }
  void operator()(int a, std::string s) const { on_call(r, a, s); }
};
struct Slot { UH* u; Rec* model; };
std::vector<Slot>* slots;
int g_arg; Rec* g_expect; UH* g_calling; bool g_called; Rec* g_on_destroy;
uint64_t g_live_base;

Rec* new_rec(bool own_alloc) { Quiet q; Rec* r = raw_new<Rec>(); r->id = (int)w->recs.size(); r->alloc = own_alloc ? 100 + r->id : 0; w->recs.push_back(r); return r; }

// Arms the destructor of the handler in s; deep: the object may get another handler.
void arm(Slot& s, bool deep) { Quiet q; w->act = 0; w->acted = false; w->act_stored = 0; w->act_rec = s.model; w->act_on = s.u; if (s.model && wl_chance(15)) w->act = 1 + (int)wl(deep ? 4 : 3); w->armed = w->act; }
bool disarm(int* what) { Quiet q; w->act = 0; w->act_rec = 0; *what = w->armed; bool a = w->acted; w->acted = false; return a; }
// mode 0: construct a new UH; 1: assign rvalue; 2: assign lvalue; 3: temporary, then move assignment
template <class HT> void store(Slot& s, int mode, bool own)
{
  Rec* r = new_rec(own);
  bool ok = false;
  Rec* old;
  int did = 0; bool acted = false;
  { Quiet q; old = s.model; }
  try {
    HT h(r);
    { Quiet q; w->in_store = r; }
    struct Off { ~Off() { Quiet q; w->in_store = nullptr; } } off;
    if (mode && mode < 4) arm(s, false);
    if (mode == 0) {
      UH* n;
      { AllocFaults af; NoAllocFaults* no = 0; (void)no; void* mem; { NoAllocFaults x; mem = ::operator new(sizeof(UH)); }
        try { n = new (mem) UH(std::move(h)); } catch (...) { ::operator delete(mem); throw; } }
      delete s.u; s.u = n; ok = true;
    } else if (mode == 1) { AllocFaults af; *s.u = std::move(h); ok = true; }
    else if (mode == 2) { AllocFaults af; *s.u = h; ok = true; }
    else { AllocFaults af; *s.u = UH(std::move(h)); ok = true; }
  } catch (Boom&) { Quiet q; ++w->failures; }
  catch (std::bad_alloc&) { Quiet q; ++w->failures; probe("allocation failed"); }
  acted = disarm(&did);
  Quiet q;
  ev("store", mode, ok);
  if (acted && did == 3 && ok) { // the object has gone, and the new handler with it
    if (r->alive || (old && old->alive)) violation("not-destroyed", "the destructor did not destroy the handler");
    Loud l; s.u = new UH; s.model = 0;
  } else if (acted && did == 2 && ok && !*s.u) { // the new handler was there already and has been reset
    if (r->alive) violation("not-destroyed", "reset() did not destroy the handler");
    if (old && old->alive) violation("not-destroyed", "the overwritten handler %d was not destroyed", old->id);
    s.model = 0;
  } else if (ok) {
    if (old && old->alive) violation("not-destroyed", "the overwritten handler %d was not destroyed", old->id);
    if (!r->alive) violation("handler-lost", "a stored handler was destroyed");
    if (!*s.u) violation("empty-after-store", "a unique_handler is empty after a handler was stored");
    s.model = r;
  } else {
    if (r->alive) violation("leak", "the handler that could not be stored was not destroyed");
    if (own && blocks_of(r->alloc)) violation("leak", "memory allocated for a handler that could not be stored was not returned");
    // the old handler is either still held or destroyed
    bool has = (bool)*s.u;
    if (has != (old && old->alive)) violation("unusable", "after a failed assignment the object is %s but its handler is %s", has ? "not empty" : "empty", old && old->alive ? "alive" : "destroyed");
    if (old && !old->alive) s.model = 0;
  }
}
// After an operation on s whose handler's destructor used or destroyed the object.
void settle(Slot& s, bool acted, int did)
{
  if (!acted) return;
  if (did == 3) { Rec* m = s.model; { Quiet q; if (m && m->alive) violation("not-destroyed", "the destructor did not destroy the handler"); } s.u = new UH; s.model = 0; }
  Quiet q;
  if (did == 2 && !*s.u) { if (s.model && s.model->alive) violation("not-destroyed", "reset() did not destroy the handler"); s.model = 0; }
  if (did == 4) s.model = w->act_stored;
}
void check(Slot& s)
{
  Quiet q;
  if ((bool)*s.u != (s.model != 0)) violation("empty-state", "unique_handler is %s but should %s a handler", *s.u ? "not empty" : "empty", s.model ? "hold" : "not hold");
  if (s.model && !s.model->alive) violation("handler-lost", "the held handler %d has been destroyed", s.model->id);
}
void on_destroy(Rec* r)
{
  int k; UH* u;
  { Quiet q; ++w->aborts; ev("destroyed", r->id); k = w->act; u = w->act_on; if (!k || !u || r != w->act_rec) return; w->act = 0; w->acted = true; w->in_store = nullptr; ++w->nested; }
  NoAllocFaults no;
  switch (k) {
  case 1: if (*u) { } break;
  case 2: u->reset(); break;
  case 3: delete u; break;
  case 4: { Rec* n = new_rec(true); { Quiet q; w->act_stored = n; } *u = H(n); break; }
  }
}
void on_call(Rec* r, int a, const std::string& s)
{
  bool again = false;
  {
    Quiet q;
    ++w->calls; ev("called", r ? r->id : -1);
    if (!r) { violation("moved-from-call", "a moved-from handler was invoked"); return; }
    if (r->invoked) violation("called-twice", "handler %d invoked twice", r->id);
    r->invoked = true;
    if (r != g_expect) violation("wrong-handler", "handler %d was invoked instead of %d", r->id, g_expect ? g_expect->id : -1);
    if (a != g_arg || s != "argument that is longer than fifteen") violation("wrong-arguments", "the handler got other arguments");
    if (r->alloc && blocks_of(r->alloc)) violation("memory-in-handler", "handler %d runs although its storage was not returned yet", r->id);
    if (*g_calling) violation("not-empty-in-handler", "the unique_handler is not empty while its handler runs");
    g_called = true;
    again = wl_chance(20);
  }
  if (again) { // a new handler for the same object, from within the old one
    Slot* sl = 0; { Quiet q; for (auto& x : *slots) if (x.u == g_calling) sl = &x; ++w->reentrant; probe("stored from within the handler"); }
    if (sl) { { Quiet q; sl->model = 0; } int m; { Quiet q; m = 1 + (int)wl(3); } store<H>(*sl, m, true); }
  }
  bool thr; { Quiet q; thr = wl_chance(10); if (thr) count_fault(f_handler_throw); }
  if (thr) throw 42;
}
void history()
{
  int n; uint64_t mark;
  std::vector<Slot> sl;
  {
    Quiet q;
    w = raw_new<World>();
    w->throw_moves = wl_chance(40); n = 2 + (int)wl(30);
    if (wl_chance(50)) set_fault(f_alloc, 10000);
    slots = &sl; race_detector(false); swarm_sched(false);
  }
  mark = alloc_mark();
  for (int i = 0; i < 3; ++i) { UH* u = new UH; Quiet q; sl.push_back({u, 0}); }
  for (int i = 0; i < n; ++i) {
    int k, a, b;
    { Quiet q; k = (int)wl(13); a = (int)wl(3); b = (int)wl(3); }
    Slot& s = sl[(size_t)a]; Slot& t = sl[(size_t)b];
    switch (k) {
    case 0: case 1: case 2: case 3: { int m; bool own; { Quiet q; m = (int)wl(4); own = !wl_chance(25); } if (own) store<H>(s, m, true); else store<P>(s, m, false); break; }
    case 4: case 5: case 6: {
      Rec* r = s.model; bool threw = false, bad = false;
      { Quiet q; g_expect = r; g_calling = s.u; g_called = false; g_arg = i * 3 + 1; }
      arm(s, true); s.model = 0;
      try { s.u->complete(g_arg, std::string("argument that is longer than fifteen")); }
      catch (int) { threw = true; } catch (asioext::bad_function_call&) { bad = true; }
      { int did; bool a2 = disarm(&did); settle(s, a2, did); }
      Quiet q; (void)threw;
      ev("complete", r ? r->id : -1, bad);
      if (bad != (r == 0)) violation("bad-function-call", "complete() on %s unique_handler %s", r ? "a full" : "an empty", bad ? "throws bad_function_call" : "does not throw");
      if (r && !g_called) violation("not-called", "complete() did not invoke the handler");
      if (!r && g_called) violation("wrong-handler", "complete() on an empty object invoked something");
      if (r && r->alive) violation("not-destroyed", "handler %d is alive after complete()", r->id);
      break; }
    case 7: { Rec* r = s.model; int did; arm(s, true); s.u->reset(); s.model = 0; { bool a2 = disarm(&did); settle(s, a2, did); } Quiet q; ev("reset"); if (r && r->alive) violation("not-destroyed", "reset() did not destroy the handler"); if (r && r->alloc && blocks_of(r->alloc)) violation("leak", "reset() did not return the storage"); break; }
    case 8: case 9: { // move assignment
      if (a == b) break;
      Rec* old = t.model;
      arm(t, false);
      *t.u = std::move(*s.u);
      t.model = s.model; s.model = 0;
      { int did; bool a2 = disarm(&did); settle(t, a2, did); }
      Quiet q; ev("move-assign");
      if (old && old->alive) violation("not-destroyed", "move assignment did not destroy the overwritten handler");
      break; }
    case 10: { UH* u = new UH(std::move(*s.u)); delete s.u; s.u = u; Quiet q; ev("move-construct"); break; }
    case 11: { Rec* r = s.model; delete s.u; { Quiet q; if (r && r->alive) violation("not-destroyed", "the destructor did not destroy the handler"); ev("destruct"); } s.u = new UH; s.model = 0; break; }
    case 12: { // swap through moves
      if (a == b) break;
      std::swap(*s.u, *t.u); std::swap(s.model, t.model); Quiet q; ev("swap"); break; }
    }
    for (auto& x : sl) check(x);
    { Quiet q; int held = 0; for (auto& x : sl) held += x.model != 0; if (g_objs != held) violation("leak", "%d handler objects exist, %d are held", g_objs, held); }
    { Quiet q; for (auto& b2 : w->blocks) { bool held = false; for (auto& x : sl) held |= x.model && x.model->alloc == b2.alloc; if (!held) violation("leak", "storage of a handler that is not held any more was not returned"); } }
  }
  for (auto& x : sl) { Rec* r = x.model; delete x.u; Quiet q; if (r && r->alive) violation("not-destroyed", "the destructor did not destroy the handler"); }
  Quiet q;
  for (Rec* r : w->recs) if (r->alive) violation("leak", "handler %d was never destroyed", r->id);
  if (g_objs) violation("leak", "%d handler objects (moved from, perhaps) were never destroyed", g_objs);
  if (!w->blocks.empty()) violation("leak", "storage was never returned");
  LeakInfo li = live_since(mark);
  if (li.count) violation("leak", "%lu blocks (%lu bytes) were never freed", (unsigned long)li.count, (unsigned long)li.bytes);
  probe("handlers invoked", w->calls); if (w->failures) probe("stores that failed", w->failures); if (w->nested) probe("destructors that use the object", w->nested);
  if (w->calls || w->failures) nontrivial();
}
}
SCENARIO(C02, history) { history(); }
