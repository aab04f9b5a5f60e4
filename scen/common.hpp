// Helpers shared by all scenario units.
#ifndef SCEN_COMMON_HPP
#define SCEN_COMMON_HPP
#include "sim/sim.hpp"
#include <pthread.h>
#include <errno.h>
#include <fcntl.h>
#include <string.h>
#include <stdio.h>
#include <stdlib.h>
#include <string>
#include <vector>
#include <memory>
#include <new>
#include <functional>

#include <asio/io_context.hpp>
#include <asio/strand.hpp>
#include <asio/thread_pool.hpp>
#include <asio/any_io_executor.hpp>
#include <asio/executor_work_guard.hpp>
#include <asio/post.hpp>
#include <asio/buffer.hpp>
#include <asio/query.hpp>
#include <asio/prefer.hpp>
#include <asio/require.hpp>

namespace scen {

using namespace sim;
// Counts the objects that contain one: also handlers that have been moved from must be destroyed.
inline int g_counted = 0;
struct Counted {
  Counted() noexcept { Quiet q; ++g_counted; }
  Counted(const Counted&) noexcept { Quiet q; ++g_counted; }
  Counted& operator=(const Counted&) noexcept { return *this; }
  ~Counted() { Quiet q; --g_counted; }
};
inline void check_counted(const char* what) { Quiet q; if (g_counted) violation("leak", "%d %s were never destroyed", g_counted, what); }

// ------------------------------------------------------------------ threads
typedef void (*ThreadFn)(void*);
struct ThreadArg { ThreadFn f; void* a; };
inline void* thread_entry(void* p) { ThreadArg t = *(ThreadArg*)p; raw_free(p); t.f(t.a); return 0; }
inline pthread_t go(ThreadFn f, void* a)
{
  ThreadArg* t;
  { Quiet q; t = (ThreadArg*)raw_malloc(sizeof(ThreadArg)); t->f = f; t->a = a; }
  pthread_t r;
  pthread_create(&r, 0, thread_entry, t);
  return r;
}
inline void join(pthread_t t) { pthread_join(t, 0); }

// Bookkeeping objects never live in the simulated heap.
template <class T, class... A> T* raw_new(A&&... a)
{
  Quiet q;
  return new (raw_malloc(sizeof(T))) T(std::forward<A>(a)...);
}
template <class T> void raw_delete(T* p) { Quiet q; p->~T(); raw_free(p); }

// ------------------------------------------------------------------ per-thread state of the harness
struct Th {
  const void* in_init;     // operation whose initiating function is on this thread's stack
  int running;             // context whose run() is on the stack (+1), 0 = none
  int tags[16]; int ntags; uint64_t tag_seq[16]; // executors whose functions are on the stack
  int in_handler;
};
inline Th g_th[32];
inline Th& th() { return g_th[self()]; }
inline bool has_tag(int t) { Th& h = th(); for (int i = 0; i < h.ntags; ++i) if (h.tags[i] == t) return true; return false; }
struct TagScope {
  TagScope(int t) { Quiet q; Th& h = th(); if (h.ntags < 16) { h.tags[h.ntags] = t; h.tag_seq[h.ntags] = next_seq(); } h.ntags++; }
  ~TagScope() { Quiet q; th().ntags--; }
};

// An executor adapter that marks what runs through it.
template <class F> struct TagFn {
  int tag; F f;
  template <class G> TagFn(int t, G&& x) : tag(t), f(std::forward<G>(x)) {}
  TagFn(const TagFn&) = default;
  TagFn(TagFn&&) = default;
  void operator()() { TagScope s(tag); f(); }
};
template <class E> class TagEx {
public:
  typedef E inner_executor_type;
  TagEx(const E& e, int t) : inner_(e), tag_(t) {}
  const E& inner() const noexcept { return inner_; }
  int tag() const noexcept { return tag_; }
  template <class P>
  auto query(const P& p) const noexcept -> std::enable_if_t<asio::can_query<const E&, P>::value, decltype(asio::query(std::declval<const E&>(), p))>
  { return asio::query(inner_, p); }
  template <class P>
  auto require(const P& p) const -> std::enable_if_t<asio::can_require<const E&, P>::value, TagEx<std::decay_t<decltype(asio::require(std::declval<const E&>(), p))>>>
  { return TagEx<std::decay_t<decltype(asio::require(std::declval<const E&>(), p))>>(asio::require(inner_, p), tag_); }
  template <class P>
  auto prefer(const P& p) const -> std::enable_if_t<asio::can_prefer<const E&, P>::value, TagEx<std::decay_t<decltype(asio::prefer(std::declval<const E&>(), p))>>>
  { return TagEx<std::decay_t<decltype(asio::prefer(std::declval<const E&>(), p))>>(asio::prefer(inner_, p), tag_); }
  template <class F> void execute(F&& f) const { inner_.execute(TagFn<std::decay_t<F>>(tag_, static_cast<F&&>(f))); }
  friend bool operator==(const TagEx& a, const TagEx& b) noexcept { return a.tag_ == b.tag_ && a.inner_ == b.inner_; }
  friend bool operator!=(const TagEx& a, const TagEx& b) noexcept { return !(a == b); }
private:
  E inner_; int tag_;
};

inline bool flip() { return wl(2) != 0; }
} // namespace scen
#endif
