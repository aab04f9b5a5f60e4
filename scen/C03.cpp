// Cancellation tokens: sources are used by their owner thread, tokens by everybody.
#include "scen/common.hpp"
#include <asioext/cancellation_token.hpp>
using namespace scen;
using namespace asioext;
namespace {
// One "epoch" of a source: tokens issued in it share one fate.
struct Epoch { uint64_t cancel_begin = ~0ull, cancel_end = ~0ull; bool unspecified = false; };
struct Tok {
  cancellation_token* t; Epoch* e; bool born_cancelled;
  uint64_t seen_true_end = ~0ull; // earliest end of a query that returned true
};
struct World {
  pthread_mutex_t mu;
  std::vector<Tok*> toks;         // guarded by mu
  int owners_left = 0, nq = 0; bool faults = false;
  uint64_t queries = 0, trues = 0, raced = 0;
};
World* w;
struct Src { cancellation_token_source* s = 0; Epoch* e = 0; }; // e: null while destroyed

Epoch* fresh() { return raw_new<Epoch>(); }
void begin_cancel(Epoch* e) { Quiet q; if (e && e->cancel_begin == ~0ull) e->cancel_begin = next_seq(); }
void end_cancel(Epoch* e) { Quiet q; if (e && e->cancel_end == ~0ull) e->cancel_end = next_seq(); }
void undo_cancel(Epoch* e, bool was) { Quiet q; if (e && !was) e->cancel_begin = ~0ull; }

void query(Tok* t)
{
  uint64_t b, e; bool r;
  { Quiet q; b = next_seq(); }
  r = t->t->cancelled();
  Quiet q;
  e = next_seq();
  ++w->queries; w->trues += r;
  ev("query", r);
  if (t->born_cancelled) {
    if (!r) violation("not-cancelled", "a token taken from a destroyed source reports not cancelled");
    return;
  }
  if (!r) {
    if (t->e->cancel_end < b) violation("not-cancelled", "a token reports not cancelled although the cancellation of its source had returned before");
    if (t->seen_true_end < b) violation("uncancelled", "a token that was reported cancelled reports not cancelled later");
  } else {
    if (t->e->cancel_begin > e) violation("cancelled", "a token reports cancelled although its source was neither cancelled nor destroyed");
    if (e < t->seen_true_end) t->seen_true_end = e;
  }
  if (t->e->cancel_begin < e && t->e->cancel_end > b) ++w->raced;
}
Tok* take(Src& s)
{
  cancellation_token* t = new cancellation_token(*s.s);
  Tok* k;
  { Quiet q; k = raw_new<Tok>(); k->t = t; k->e = s.e ? s.e : fresh(); k->born_cancelled = !s.e; ev("token", s.e != 0); }
  pthread_mutex_lock(&w->mu);
  { Quiet q; w->toks.push_back(k); }
  pthread_mutex_unlock(&w->mu);
  return k;
}
Tok* pick()
{
  Tok* k = 0;
  pthread_mutex_lock(&w->mu);
  {
    Quiet q; size_t n = w->toks.size();
    // mostly recent ones: those may still be cancelled
    if (n) k = wl_chance(75) ? w->toks[n - 1 - wl((uint32_t)(n < 3 ? n : 3))] : w->toks[wl((uint32_t)n)];
  }
  pthread_mutex_unlock(&w->mu);
  return k;
}
void querier(void*)
{
  int n; { Quiet q; n = 6 + (int)wl(40); }
  for (int i = 0; i < n; ++i) {
    Tok* k = pick();
    if (!k) { yield(); continue; }
    bool copy; { Quiet q; copy = wl_chance(25); }
    if (copy) { // tokens may be copied anywhere
      cancellation_token c(*k->t);
      Tok* t; { Quiet q; t = raw_new<Tok>(*k); t->t = &c; t->seen_true_end = k->seen_true_end; }
      query(t);
      Quiet q; if (t->seen_true_end < k->seen_true_end) k->seen_true_end = t->seen_true_end;
    } else { int m; { Quiet q; m = wl_chance(40) ? 1 + (int)wl(12) : 1; } while (m--) query(k); }
    if (i % 4 == 3) sleep_us(1);
  }
}
template <class F> bool guarded(F f) // an operation that may fail to allocate
{
  bool af; { Quiet q; af = w->faults; }
  try {
    if (af) { AllocFaults a; f(); } else f();
    return true;
  } catch (std::bad_alloc&) { Quiet q; probe("allocation failed"); return false; }
}
void owner(void*)
{
  Src s[2]; int ns, n;
  { Quiet q; ns = 2; n = 3 + (int)wl(18); }
  for (int i = 0; i < ns; ++i) { s[i].s = new cancellation_token_source; s[i].e = fresh(); }
  for (int i = 0; i < n; ++i) {
    int k; { Quiet q; k = (int)wl(16); }
    Src& a = s[i % ns == 0 ? 0 : 1]; Src& b = s[i % ns == 0 ? 1 : 0];
    switch (k) {
    case 0: case 1: case 2: case 3: case 4: take(a); break;
    case 5: case 6: case 7: { // cancel
      bool was = a.e && a.e->cancel_begin != ~0ull;
      begin_cancel(a.e);
      bool ok = guarded([&] { a.s->cancel(); });
      { Quiet q; ev("cancel", ok); }
      if (ok) { end_cancel(a.e); if (a.e) a.e = fresh(); } else undo_cancel(a.e, was);
      break; }
    case 8: case 9: begin_cancel(a.e); a.s->destroy(); end_cancel(a.e); a.e = 0; { Quiet q; ev("destroy"); } break;
    case 10: case 11: { bool ok = guarded([&] { a.s->reset(); }); if (ok && !a.e) a.e = fresh(); { Quiet q; ev("reset", ok); } break; }
    case 12: { // move construction
      cancellation_token_source* m = new cancellation_token_source(std::move(*a.s));
      Tok* t = 0; Src old = a; old.e = 0;
      bool probe_old; { Quiet q; probe_old = flip(); ev("move"); }
      if (probe_old) { t = take(old); query(t); }
      delete a.s; a.s = m;
      break; }
    case 13: { // move assignment
      Epoch* over = b.e;
      begin_cancel(over); *b.s = std::move(*a.s); end_cancel(over);
      b.e = a.e; a.e = 0;
      { Quiet q; ev("move-assign"); }
      break; }
    case 14: begin_cancel(a.e); delete a.s; end_cancel(a.e); a.s = new cancellation_token_source; a.e = fresh(); { Quiet q; ev("replace"); } break;
    case 15: { Tok* k2 = pick(); if (k2) query(k2); break; }
    }
    { bool y; { Quiet q; y = wl_chance(20); } if (y) sleep_us(1); }
  }
  for (int i = 0; i < ns; ++i) { begin_cancel(s[i].e); delete s[i].s; end_cancel(s[i].e); s[i].e = 0; }
}
void world(bool race)
{
  int no; std::vector<pthread_t> th; uint64_t mark;
  {
    Quiet q;
    w = raw_new<World>();
    no = 1 + (int)wl(2); w->nq = 1 + (int)wl(3); w->faults = wl_chance(30);
    race_detector(race); swarm_sched(race);
    if (w->faults) set_fault(f_alloc, 16000);
  }
  mark = alloc_mark();
  pthread_mutex_init(&w->mu, 0);
  for (int i = 0; i < w->nq; ++i) { pthread_t t = go(querier, 0); Quiet q; th.push_back(t); }
  for (int i = 1; i < no; ++i) { pthread_t t = go(owner, 0); Quiet q; th.push_back(t); }
  owner(0);
  for (pthread_t t : th) join(t);
  // every source is gone: every token is cancelled now, and for ever
  std::vector<Tok*> all; { Quiet q; all = w->toks; }
  for (Tok* t : all) { query(t); query(t); delete t->t; }
  Quiet q;
  probe("queries", w->queries); if (w->raced) probe("queries concurrent with the cancellation", w->raced);
  if (w->raced) nontrivial();
  LeakInfo li = live_since(mark);
  if (li.count) violation("leak", "%lu blocks were never freed", (unsigned long)li.count);
}
}
SCENARIO_W(C03, tokens, 1) { world(false); }
SCENARIO_W(C03, tokens_memory_level, 3) { world(true); }
