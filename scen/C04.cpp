// linear_buffer against a vector with a maximum size, with failing allocations.
#include "scen/common.hpp"
#include <asioext/linear_buffer.hpp>
#include <stdexcept>
using namespace scen;
namespace {
struct Blk { void* p; size_t n; int alloc; };
struct World { std::vector<Blk> blocks; size_t limit = 1 << 20; uint64_t throws = 0, lengths = 0, ops = 0; };
World* w;
template <class T, bool Propagate> struct Al {
  typedef T value_type;
  typedef std::integral_constant<bool, Propagate> propagate_on_container_move_assignment;
  typedef std::false_type is_always_equal;
  template <class U> struct rebind { typedef Al<U, Propagate> other; };
  int id;
  Al() noexcept : id(0) {}
  explicit Al(int i) noexcept : id(i) {}
  Al(const Al& o) noexcept : id(o.id) {}
  Al& operator=(const Al& o) noexcept { id = o.id; return *this; }
  template <class U> Al(const Al<U, Propagate>& o) noexcept : id(o.id) {}
  size_t max_size() const noexcept { return w->limit / sizeof(T); }
  T* allocate(size_t n)
  {
    void* p = ::operator new(n * sizeof(T));
    Quiet q; w->blocks.push_back({p, n * sizeof(T), id});
    return (T*)p;
  }
  void deallocate(T* p, size_t n)
  {
    {
      Quiet q; size_t i;
      for (i = 0; i < w->blocks.size(); ++i) if (w->blocks[i].p == p) break;
      if (i == w->blocks.size()) { violation("foreign-free", "%s returned to the allocator was not allocated by it", p ? "memory" : "a null pointer"); return; }
      if (w->blocks[i].alloc != id) violation("wrong-allocator", "memory of allocator %d was returned to allocator %d", w->blocks[i].alloc, id);
      if (w->blocks[i].n != n * sizeof(T)) violation("wrong-size", "%lu bytes allocated, %lu returned", (unsigned long)w->blocks[i].n, (unsigned long)(n * sizeof(T)));
      w->blocks.erase(w->blocks.begin() + (long)i);
    }
    ::operator delete(p);
  }
  friend bool operator==(const Al& a, const Al& b) noexcept { return a.id == b.id; }
  friend bool operator!=(const Al& a, const Al& b) noexcept { return a.id != b.id; }
};
template <class A> struct Kind { static const bool tracked = true; static A make(int id) { return A(id); } };
template <> struct Kind<std::allocator<uint8_t>> { static const bool tracked = false; static std::allocator<uint8_t> make(int) { return std::allocator<uint8_t>(); } };

typedef std::vector<uint8_t> Bytes;
uint8_t rnd() { return (uint8_t)(1 + wl(255)); }
uint32_t size_arg() { uint32_t k = wl(10); return k < 6 ? wl(20) : k < 9 ? wl(100) : wl_chance(90) ? wl(700) : wl(20000); }

template <class A> struct Hist {
  typedef asioext::basic_linear_buffer<A> LB;
  struct S { LB* b; Bytes m; size_t max; };
  std::vector<S> s;
  size_t deflt = 0;

  struct Snap { size_t size, cap, max; const uint8_t* p; };
  static Snap snap(LB* b) { return Snap{b->size(), b->capacity(), b->max_size(), b->data()}; }

  void check(const char* op)
  {
    size_t owned = 0;
    for (size_t i = 0; i < s.size(); ++i) {
      const LB& b = *s[i].b; const Bytes& m = s[i].m;
      size_t sz = b.size(), cap = b.capacity(), mx = b.max_size(); const uint8_t* p = b.data();
      const uint8_t* bg = b.begin(); const uint8_t* en = b.end(); bool em = b.empty();
      uint8_t* mb = s[i].b->begin(); uint8_t* me = s[i].b->end(); uint8_t* md = s[i].b->data();
      asio::const_buffer cb = b.as_buffers(); asio::mutable_buffer mbuf = s[i].b->as_buffers();
      asio::const_buffer fb = asioext::buffer(b); asio::mutable_buffer fm = asioext::buffer(*s[i].b);
      Bytes got; got.reserve(0);
      bool same = sz == m.size();
      if (same) for (size_t k = 0; k < sz; ++k) if (b[k] != m[k] || (*s[i].b)[k] != m[k]) { same = false; break; }
      Quiet q;
      if (!same) violation("contents", "after %s buffer %lu does not hold the bytes a vector would (size %lu, expected %lu)", op, (unsigned long)i, (unsigned long)sz, (unsigned long)m.size());
      if (mx != s[i].max) violation("max-size", "after %s max_size() of buffer %lu is %lu instead of %lu", op, (unsigned long)i, (unsigned long)mx, (unsigned long)s[i].max);
      if (cap < sz || cap > mx) violation("capacity", "after %s: size %lu, capacity %lu, max_size %lu", op, (unsigned long)sz, (unsigned long)cap, (unsigned long)mx);
      if (bg != p || en != p + sz || mb != p || me != p + sz || md != p || em != (sz == 0)) violation("iterators", "after %s begin/end/data/empty are inconsistent", op);
      if (cb.data() != p || cb.size() != sz || mbuf.data() != p || mbuf.size() != sz || fb.data() != (sz ? p : fb.data()) || fb.size() != sz || fm.size() != sz)
        violation("as-buffers", "after %s the buffer views do not cover the contents", op);
      if (Kind<A>::tracked) {
        size_t n = 0; bool found = false;
        for (auto& x : w->blocks) if (x.p == p) { found = true; n = x.n; }
        owned += found;
        if (p && !found) violation("storage", "after %s data() is no live block", op);
        if (cap != n) violation("capacity", "after %s capacity() is %lu but %lu bytes are allocated", op, (unsigned long)cap, (unsigned long)n);
      } else if (p && block_size(p) < cap) violation("capacity", "after %s capacity() is %lu but only %lu bytes are allocated", op, (unsigned long)cap, (unsigned long)block_size(p));
    }
    Quiet q;
    if (Kind<A>::tracked && owned != w->blocks.size()) violation("leak", "after %s %lu blocks are allocated for %lu buffers", op, (unsigned long)w->blocks.size(), (unsigned long)owned);
  }
  // Runs one modifying operation. Returns 0 ok, 1 bad_alloc, 2 length_error. On failure nothing may have changed.
  template <class F> int tried(LB* b, const char* op, bool len_expected, F f)
  {
    Snap a = snap(b); int r = 0;
    try { AllocFaults af; f(); }
    catch (std::bad_alloc&) { r = 1; } catch (std::length_error&) { r = 2; }
    Snap c = snap(b);
    Quiet q;
    ev(op, r, (int64_t)a.size, (int64_t)c.size);
    ++w->ops; if (r == 1) ++w->throws; if (r == 2) ++w->lengths;
    if (len_expected ? r == 0 : r == 2) violation("length-error", "%s %s length_error (size %lu, max_size %lu)", op, r == 2 ? "threw" : "did not throw", (unsigned long)a.size, (unsigned long)a.max);
    if (r && (a.size != c.size || a.cap != c.cap || a.max != c.max || a.p != c.p)) violation("changed-on-failure", "%s failed but changed size, capacity or storage", op);
    return r;
  }
  void fill(LB& b, Bytes& m, size_t from) // bytes that resize() left indeterminate
  {
    for (size_t k = from; k < b.size(); ++k) { uint8_t v; { Quiet q; v = rnd(); } b[k] = v; Quiet q; m[k] = v; }
  }
  A alloc() { int id; { Quiet q; id = (int)wl(3); } return Kind<A>::make(id); }
  void replace(S& x, LB* n) { delete x.b; x.b = n; }

  void step()
  {
    int k, a, b2; uint32_t n, n2;
    { Quiet q; k = (int)wl(20); a = (int)wl((uint32_t)s.size()); b2 = (int)wl((uint32_t)s.size()); n = size_arg(); n2 = wl(wl_chance(90) ? 1000 : 50000); }
    S& x = s[(size_t)a]; S& y = s[(size_t)b2];
    const char* op = "?";
    size_t sz = x.m.size();
    switch (k) {
    case 0: case 1: case 2: { // append
      op = "append";
      Bytes d; { Quiet q; d.resize(n); for (auto& v : d) v = rnd(); }
      size_t huge = 0; { Quiet q; if (wl_chance(4)) huge = ~(size_t)0 - (flip() ? wl(10) : wl((uint32_t)sz + 1)); } // sums that wrap around
      if (huge) { tried(x.b, op, true, [&] { x.b->append(d.data(), huge); }); break; }
      bool le = sz + n > x.max; size_t cap = x.b->capacity(); const uint8_t* p = x.b->data();
      if (tried(x.b, op, le, [&] { x.b->append(d.data(), n); }) == 0) {
        if (sz + n <= cap && x.b->data() != p) violation("invalidated", "append() within the capacity reallocated");
        Quiet q; x.m.insert(x.m.end(), d.begin(), d.end());
      }
      break; }
    case 3: case 4: case 5: case 6: { // insert
      op = "insert";
      Bytes d; { Quiet q; d.resize(n); for (auto& v : d) v = rnd(); }
      size_t pos = n2 % (sz + 1); bool le = sz + n > x.max; bool it; size_t huge = 0;
      { Quiet q; it = flip(); if (wl_chance(4)) huge = ~(size_t)0 - (flip() ? wl(10) : wl((uint32_t)sz + 1)); }
      if (huge) { tried(x.b, op, true, [&] { if (it) x.b->insert(x.b->begin() + pos, d.data(), huge); else x.b->insert(pos, d.data(), huge); }); break; }
      size_t cap = x.b->capacity(); const uint8_t* p = x.b->data();
      if (tried(x.b, op, le, [&] { if (it) x.b->insert(x.b->begin() + pos, d.data(), n); else x.b->insert(pos, d.data(), n); }) == 0) {
        if (sz + n <= cap && x.b->data() != p) violation("invalidated", "insert() within the capacity reallocated");
        Quiet q; x.m.insert(x.m.begin() + (long)pos, d.begin(), d.end());
      }
      break; }
    case 7: { // erase one
      if (!sz) return;
      op = "erase(pos)"; size_t pos = n2 % sz; bool it; { Quiet q; it = flip(); }
      tried(x.b, op, false, [&] { if (it) x.b->erase(x.b->begin() + pos); else x.b->erase(pos); });
      Quiet q; x.m.erase(x.m.begin() + (long)pos);
      break; }
    case 8: case 9: { // erase range
      op = "erase(first, last)"; size_t f = n2 % (sz + 1), l = f + n % (sz - f + 1); bool it; { Quiet q; it = flip(); }
      tried(x.b, op, false, [&] { if (it) x.b->erase(x.b->begin() + f, x.b->begin() + l); else x.b->erase(f, l); });
      Quiet q; x.m.erase(x.m.begin() + (long)f, x.m.begin() + (long)l);
      break; }
    case 10: { // reserve
      op = "reserve"; size_t c = n; { Quiet q; if (wl_chance(10)) c = x.max + wl(3) - 1; else if (wl_chance(4)) c = ~(size_t)0 - wl(100); if (c > 5000 && c <= x.max) c = 5000; }
      if (tried(x.b, op, c > x.max, [&] { x.b->reserve(c); }) == 0 && x.b->capacity() < c) violation("capacity", "reserve(%lu) left a capacity of %lu", (unsigned long)c, (unsigned long)x.b->capacity());
      break; }
    case 11: case 12: { // resize
      op = "resize"; size_t c = n; { Quiet q; if (wl_chance(10)) c = x.max + wl(3) - 1; else if (wl_chance(4)) c = ~(size_t)0 - wl(100); if (c > 5000 && c <= x.max) c = 5000; }
      if (tried(x.b, op, c > x.max, [&] { x.b->resize(c); }) == 0) { size_t old = sz; { Quiet q; x.m.resize(c); } if (x.b->size() == c) fill(*x.b, x.m, old); }
      break; }
    case 13: op = "clear"; tried(x.b, op, false, [&] { x.b->clear(); }); { Quiet q; x.m.clear(); } break;
    case 14: { // copy construction
      op = "copy construction"; LB* nb = 0;
      if (a == b2) return;
      if (tried(y.b, op, false, [&] { nb = new LB(*y.b); }) == 0) { replace(x, nb); Quiet q; x.m = y.m; x.max = y.max; }
      break; }
    case 15: { // copy assignment (also to itself)
      op = "copy assignment"; bool le = y.m.size() > x.max;
      if (a == b2 && sz == 0) return;
      if (tried(x.b, op, le, [&] { *x.b = *y.b; }) == 0) { Quiet q; if (a != b2) x.m = y.m; }
      break; }
    case 16: { // move construction
      if (a == b2) return;
      op = "move construction"; LB* nb = 0;
      { NoAllocFaults x2; tried(y.b->capacity() ? x.b : x.b, op, false, [&] { NoAllocFaults x3; nb = new LB(std::move(*y.b)); }); }
      size_t ym = y.b->max_size();
      moved_from(y, op);
      replace(x, nb); Quiet q; x.m = y.m; x.max = y.max; y.m.clear(); y.max = ym;
      break; }
    case 17: { // move assignment
      if (a == b2) return;
      op = "move assignment";
      Snap c = snap(y.b); bool bad = false;
      Snap o = snap(x.b);
      try { AllocFaults af; *x.b = std::move(*y.b); } catch (std::bad_alloc&) { bad = true; }
      size_t xm = x.b->max_size(), ym = y.b->max_size();
      { Quiet q; ev(op, bad); ++w->ops; w->throws += bad; }
      if (bad) {
        Snap d = snap(y.b), e = snap(x.b);
        if (c.size != d.size || c.p != d.p || e.p != o.p || e.size != o.size || e.cap != o.cap) violation("changed-on-failure", "%s failed but changed an operand", op);
        break;
      }
      moved_from(y, op);
      Quiet q; x.m = y.m; y.m.clear();
      // the limit is that of the source, or the target's own
      if (xm != x.max && xm != y.max) violation("max-size", "move assignment produced a new max_size %lu", (unsigned long)xm);
      x.max = xm; y.max = ym;
      break; }
    case 18: { // swap
      if (a == b2) return;
      op = "swap"; { NoAllocFaults x2; std::swap(*x.b, *y.b); } size_t xm = x.b->max_size(), ym = y.b->max_size();
      Quiet q; ev(op);
      if ((xm != x.max && xm != y.max) || (ym != x.max && ym != y.max)) violation("max-size", "swap produced a new max_size");
      std::swap(x.m, y.m); x.max = xm; y.max = ym;
      break; }
    case 19: make(x, n2); op = "construction"; break;
    }
    check(op);
  }
  void moved_from(S& y, const char* op)
  {
    if (y.b->size() || y.b->capacity() || !y.b->empty()) violation("moved-from", "after %s the moved-from buffer has size %lu and capacity %lu", op, (unsigned long)y.b->size(), (unsigned long)y.b->capacity());
  }
  void make(S& x, uint32_t r)
  {
    LB* nb = 0; size_t init = r % 40, max = 0; int k; bool le = false;
    { Quiet q; k = (int)wl(5); max = wl_chance(30) ? wl(30) : wl(600); }
    int res = 0;
    try {
      AllocFaults af;
      switch (k) {
      case 0: nb = new LB; init = 0; max = deflt; break;
      case 1: nb = new LB(alloc()); init = 0; max = deflt; break;
      case 2: max = max < deflt ? max : deflt; le = init > max; nb = new LB(init, max); break;
      case 3: max = max < deflt ? max : deflt; le = init > max; nb = new LB(alloc(), init, max); break;
      case 4: max = deflt; nb = new LB(init); break;
      }
    } catch (std::bad_alloc&) { res = 1; } catch (std::length_error&) { res = 2; }
    { Quiet q; ev("construct", k, res); w->throws += res == 1; w->lengths += res == 2; }
    if (le ? res == 0 : res == 2) violation("length-error", "construction with size %lu and max_size %lu %s length_error", (unsigned long)init, (unsigned long)max, res == 2 ? "throws" : "does not throw");
    if (!nb) return;
    if (nb->size() != init) violation("contents", "a buffer constructed with %lu bytes has %lu", (unsigned long)init, (unsigned long)nb->size());
    replace(x, nb);
    { Quiet q; x.m.assign(init, 0); x.max = max; }
    fill(*x.b, x.m, 0);
  }
  void run()
  {
    int n; uint64_t mark;
    {
      Quiet q; w = raw_new<World>();
      race_detector(false); swarm_sched(false);
      n = 5 + (int)wl(60); if (wl_chance(60)) set_fault(f_alloc, 6000);
      if (wl_chance(30)) w->limit = 200 + wl(600);
    }
    mark = alloc_mark();
    { LB d; Quiet q; deflt = d.max_size(); }
    for (int i = 0; i < 3; ++i) { LB* b = new LB; Quiet q; s.push_back(S{b, Bytes(), deflt}); }
    for (int i = 0; i < n; ++i) step();
    for (auto& x : s) delete x.b;
    Quiet q;
    if (!w->blocks.empty()) violation("leak", "storage was never returned");
    for (auto& x : s) Bytes().swap(x.m);
    LeakInfo li = live_since(mark);
    if (li.count) violation("leak", "%lu blocks (%lu bytes) were never freed", (unsigned long)li.count, (unsigned long)li.bytes);
    probe("operations", w->ops); if (w->throws) probe("allocation failures", w->throws); if (w->lengths) probe("length errors", w->lengths);
    if (w->throws || w->lengths) nontrivial();
  }
};
template <class A> void run() { Hist<A> h; h.run(); Quiet q; std::vector<typename Hist<A>::S>().swap(h.s); }
}
SCENARIO(C04, std_allocator) { run<std::allocator<uint8_t>>(); }
SCENARIO(C04, stateful_propagating) { run<Al<uint8_t, true>>(); }
SCENARIO(C04, stateful_fixed) { run<Al<uint8_t, false>>(); }
