// The file world: io_contexts, file services, file objects, the threads that use
// them and the history of everything that happened, judged against the properties.
#ifndef SCEN_FWORLD_HPP
#define SCEN_FWORLD_HPP
#include "scen/common.hpp"
#include <asioext/file.hpp>
#include <asioext/file_handle.hpp>
#include <asioext/unique_file_handle.hpp>
#include <asioext/duplicate.hpp>
#include <asioext/thread_pool_file_service.hpp>
#include <asioext/basic_file.hpp>
#include <asioext/open_flags.hpp>

namespace fw {
using namespace scen;
typedef asioext::basic_file<asioext::thread_pool_file_service> File;
typedef asioext::thread_pool_file_service Service;
using asioext::error_code;

// Which part of the specification a violation belongs to; a check judges its own parts.
enum Cat { C_COMPLETE = 1, C_RESULT = 2, C_ABORT = 4, C_CANCELRES = 8, C_IOCANCEL = 16, C_IOCLOSE = 32, C_REUSE = 64,
           C_MOVE = 128, C_LEAK = 256, C_FDS = 512, C_SHUTDOWN = 1024, C_BUFFER = 2048, C_ALL = 0xffff };
#define VIO(cat, ...) do { if (w->p.mask & (cat)) violation(__VA_ARGS__); } while (0)

struct Profile {
  unsigned mask = C_ALL;
  bool race = false;         // happens-before race detector and memory-level preemption
  bool fd_reuse = false;     // descriptor numbers are reused (lowest first)
  int teardown = 0;          // 0 drain, 1 destroy with operations outstanding, 2 either
  int w_op = 10, w_open = 6, w_cancel = 2, w_close = 2, w_destroy = 1, w_move = 1, w_sleep = 2, w_chain = 1, w_sync = 1;
  int actions = 12;
  int min_actors = 1, max_actors = 3;
  int w_abandon = 25;        // percent of the files left open to the service's shutdown
  bool custom_exec = true;
  bool late_strand = false;  // the strand service may be younger than the file service
  bool want_io_race = false; // F07: known residual race is judged
};

enum MarkKind { m_cancel, m_close, m_destroy, m_assign, m_shutdown };
static const char* const mark_names[] = {"cancel()", "close()", "destruction", "move assignment", "destruction of its io_context"};
struct Mark { int kind; uint64_t begin, end; };
struct Lineage { int id, fd, ofd, inode; std::vector<Mark> marks; bool open; };

enum Kind { k_read, k_write, k_read_at, k_write_at };
static const char* const kind_names[] = {"async_read_some", "async_write_some", "async_read_some_at", "async_write_some_at"};
enum ExKind { e_none, e_ctx, e_tag, e_strand, e_pool };

enum { max_seg = 24 };
template <int N> struct SegBuf { // operations hold a copy, whose size therefore varies
  asio::mutable_buffer b[N]; int n = 0;
  typedef asio::mutable_buffer value_type;
  typedef const asio::mutable_buffer* const_iterator;
  const_iterator begin() const { return b; }
  const_iterator end() const { return b + n; }
};
template <int N> struct CSegBuf {
  asio::const_buffer b[N]; int n = 0;
  typedef asio::const_buffer value_type;
  typedef const asio::const_buffer* const_iterator;
  const_iterator begin() const { return b; }
  const_iterator end() const { return b + n; }
};

struct Strand;
struct Op {
  int id; Kind kind; Lineage* L; int slot;
  unsigned char* buf; size_t cap, total; uint64_t off;
  struct { size_t at, len; } seg[max_seg]; int nseg; bool wide;
  uint64_t start_begin = 0, start_end = 0; int tid = -1; bool from_handler = false; int from_ctx = -1;
  int exkind = 0, ctx = 0, tag = 0; Strand* strand = 0;
  int invoked = 0, dropped = 0; uint64_t done_seq = 0, drop_seq = 0;
  error_code ec; size_t n = 0;
  bool chain = false;
  bool starting = false, threw = false; // the initiating function ran out of memory
};
typedef asio::strand<asio::io_context::executor_type> StrandEx;
struct Strand { StrandEx* ex; int ctx; int active = 0; };

struct Ctx {
  int id; asio::io_context* io = 0; Service* svc = 0; bool dead = false, dying = false;
  int runners = 0; bool strict = false; bool stop = false;
  asio::executor_work_guard<asio::io_context::executor_type>* guard = 0;
  Strand* strand = 0; bool late_strand = false;
};
struct Slot { File* f = 0; Lineage* L = 0; int ctx = 0, extag = 0; Strand* exstrand = 0; };

struct World {
  Profile p;
  std::vector<Ctx*> ctx;
  asio::thread_pool* pool = 0;
  std::vector<Op*> ops;
  std::vector<Lineage*> lins;
  std::vector<Strand*> strands;
  std::vector<Slot*> all_slots;
  bool teardown_destroy = false;
  bool ctx_dying = false;
  int ntag = 100;
  bool alloc = false; // an initiation that throws releases work, which may stop a context: no restarts then
  int actors_left = 0;
  bool cycled = false;
  uint64_t aborted = 0, completed = 0, failed = 0, eofs = 0;
  std::vector<std::string> paths;
};
static World* w;


struct Chain { File* f; Lineage* L; int left; int ctx; ~Chain(); };
static void mark_begin(Lineage* L, int kind) { Quiet q; if (L) { L->marks.push_back(Mark{kind, next_seq(), ~0ull}); } }
static void mark_end(Lineage* L, bool closes) { Quiet q; if (L) { L->marks.back().end = next_seq(); if (closes) L->open = false; } }

inline Chain::~Chain()
{
  if (!f) return;
  mark_begin(L, m_destroy);
  delete f;
  mark_end(L, true);
  f = 0;
}

static void start_on(File& f, Op* o, Chain* chain);
static Op* make_op(Lineage* L, int fctx, bool allow_cross);

// ------------------------------------------------------------------ handlers
struct HBase {
  Op* o; Chain* chain;
  Counted counted;
  HBase(Op* op, Chain* c) : o(op), chain(c) {}
  HBase(HBase&& x) noexcept : o(x.o), chain(x.chain) { x.o = 0; x.chain = 0; }
  HBase(const HBase&) = delete;
  HBase& operator=(HBase&& x) noexcept
  {
    if (this != &x) { release(); o = x.o; chain = x.chain; x.o = 0; x.chain = 0; }
    return *this;
  }
  ~HBase() { release(); }
  void release()
  {
    if (!o) return;
    Op* op = o; Chain* c = chain; o = 0; chain = 0;
    {
      Quiet q;
      op->dropped++; op->drop_seq = next_seq();
      ev("handler-dropped", op->id);
      Ctx* x = op->ctx >= 0 ? w->ctx[op->ctx] : 0;
      if (op->invoked) VIO(C_COMPLETE, "handler-dropped-after-invocation", "operation %d: handler destroyed as uninvoked after it was invoked", op->id);
      if (!w->ctx_dying && !op->starting)
        VIO(C_COMPLETE, "handler-dropped", "operation %d (%s): its handler was destroyed without being invoked although no io_context is being destroyed", op->id, kind_names[op->kind]);
      (void)x;
    }
    arena_free(op->buf);
    if (c) delete c;
  }
  void operator()(const error_code& ec, std::size_t n)
  {
    Op* op = o; Chain* c = chain; o = 0; chain = 0;
    {
      Quiet q;
      if (!op) { VIO(C_COMPLETE, "handler-moved-from", "a moved-from handler was invoked"); return; }
      ev("handler", op->id, ec.value(), (int64_t)n, op->ctx);
      if (op->invoked) VIO(C_COMPLETE, "handler-invoked-twice", "operation %d: handler invoked more than once", op->id);
      op->invoked++; op->done_seq = next_seq(); op->ec = ec; op->n = n;
      Th& t = th();
      if (t.in_init) VIO(C_COMPLETE, "handler-inline", "operation %d (%s): handler invoked from within an initiating call", op->id, kind_names[op->kind]);
      Ctx* x = op->ctx >= 0 ? w->ctx[op->ctx] : 0;
      if (x && x->dead) VIO(C_COMPLETE | C_SHUTDOWN, "handler-after-context", "operation %d: handler invoked after its io_context was destroyed", op->id);
      if (x && t.running != op->ctx + 1)
        VIO(C_COMPLETE, "wrong-executor", "operation %d (%s): handler invoked outside of run() of the io_context of its executor", op->id, kind_names[op->kind]);
      if (op->tag && !has_tag(op->tag))
        VIO(C_COMPLETE, "wrong-executor", "operation %d (%s): handler not invoked through %s executor", op->id, kind_names[op->kind], op->exkind == e_none ? "the file's" : "its associated");
      if (op->strand) {
        if (!op->strand->ex->running_in_this_thread()) VIO(C_COMPLETE, "wrong-executor", "operation %d: handler not invoked in its strand", op->id);
        if (op->strand->active) VIO(C_COMPLETE, "strand-concurrent", "operation %d: two handlers of one strand run at the same time", op->id);
        op->strand->active++;
      }
      t.in_handler++;
      // bytes the operation did not report are untouched
      if (op->kind == k_read || op->kind == k_read_at) {
        size_t left = n;
        for (int i = 0; i < op->nseg; ++i)
          for (size_t k = 0; k < op->seg[i].len; ++k)
            if (left) --left;
            else if (op->buf[op->seg[i].at + k] != 0xAA) { VIO(C_BUFFER, "buffer-touched", "operation %d: %lu bytes reported, but more of the buffer was written", op->id, (unsigned long)n); i = op->nseg - 1; break; }
      }
    }
    arena_free(op->buf);
    yield();
    if (c) {
      bool more;
      { Quiet q; more = c->left > 0 && !w->ctx_dying; }
      if (more) {
        Op* o2;
        { Quiet q; c->left--; o2 = make_op(c->L, c->ctx, false); o2->chain = true; }
        start_on(*c->f, o2, c);
      } else delete c;
    }
    { Quiet q; th().in_handler--; if (op->strand) op->strand->active--; }
  }
};
struct H0 : HBase { using HBase::HBase; H0(H0&&) = default; H0& operator=(H0&&) = default; };
struct H1 : HBase {
  typedef asio::any_io_executor executor_type;
  executor_type ex;
  H1(Op* o, Chain* c, const executor_type& e) : HBase(o, c), ex(e) {}
  H1(H1&&) = default; H1& operator=(H1&&) = default;
  const executor_type& get_executor() const noexcept { return ex; }
};
typedef TagEx<asio::io_context::executor_type> TagIo;
struct H2 : HBase {
  typedef TagIo executor_type;
  executor_type ex;
  H2(Op* o, Chain* c, const executor_type& e) : HBase(o, c), ex(e) {}
  H2(H2&&) = default;
  const executor_type& get_executor() const noexcept { return ex; }
};

template <int N, class H> static void initiate_n(File& f, Op* o, H&& h)
{
  SegBuf<N> b; CSegBuf<N> cb;
  {
    Quiet q;
    for (int i = 0; i < o->nseg; ++i) {
      b.b[i] = asio::mutable_buffer(o->buf + o->seg[i].at, o->seg[i].len);
      cb.b[i] = asio::const_buffer(o->buf + o->seg[i].at, o->seg[i].len);
    }
    b.n = cb.n = o->nseg;
    o->tid = self(); o->from_handler = th().in_handler > 0; o->from_ctx = th().running - 1;
    ev("start", o->id, o->kind, (int64_t)o->total, o->L ? o->L->id : -1);
    note("op %d %s total %lu off %ld lineage %d exkind %d ctx %d tag %d strand %p", o->id, kind_names[o->kind], (unsigned long)o->total, (long)o->off, o->L ? o->L->id : -1, o->exkind, o->ctx, o->tag, (void*)o->strand);
    o->start_begin = next_seq();
  }
  const void* prev = th().in_init;
  th().in_init = o;
  o->starting = true;
  try {
  AllocFaults af;
  switch (o->kind) {
  case k_read: f.async_read_some(b, std::move(h)); break;
  case k_write: f.async_write_some(cb, std::move(h)); break;
  case k_read_at: f.async_read_some_at(o->off, b, std::move(h)); break;
  case k_write_at: f.async_write_some_at(o->off, cb, std::move(h)); break;
  }
  } catch (std::bad_alloc&) { Quiet q; o->threw = true; ev("start-threw", o->id); probe("initiations out of memory"); }
  th().in_init = prev;
  {
    Quiet q; o->starting = false; o->start_end = next_seq();
    if (o->threw && o->invoked) VIO(C_COMPLETE, "threw-and-completed", "operation %d (%s): the initiating function threw, but the handler was invoked", o->id, kind_names[o->kind]);
    if (o->threw && !o->dropped) VIO(C_COMPLETE, "threw-and-kept", "operation %d (%s): the initiating function threw, but the handler was not destroyed", o->id, kind_names[o->kind]);
    if (!o->threw && o->dropped && !w->ctx_dying) VIO(C_COMPLETE, "handler-dropped", "operation %d (%s): its handler was destroyed without being invoked by the initiating function", o->id, kind_names[o->kind]);
  }
}

template <class H> static void initiate(File& f, Op* o, H&& h)
{ if (o->wide) initiate_n<max_seg>(f, o, std::move(h)); else initiate_n<3>(f, o, std::move(h)); }

static void start_on(File& f, Op* o, Chain* chain)
{
  if (o->exkind == e_none) { initiate(f, o, H0(o, chain)); return; }
  Ctx* x = o->ctx >= 0 ? w->ctx[o->ctx] : 0;
  switch (o->exkind) {
  case e_ctx: initiate(f, o, H1(o, chain, x->io->get_executor())); break;
  case e_tag: {
    bool st; { Quiet q; st = (o->id & 1) != 0; }
    if (st) initiate(f, o, H2(o, chain, TagIo(x->io->get_executor(), o->tag)));
    else initiate(f, o, H1(o, chain, TagIo(x->io->get_executor(), o->tag)));
    break; }
  case e_strand: initiate(f, o, H1(o, chain, *o->strand->ex)); break;
  case e_pool: initiate(f, o, H1(o, chain, TagEx<asio::thread_pool::executor_type>(w->pool->get_executor(), o->tag))); break;
  }
}

// (quiet) draws an operation; ctx -1 means the handler runs on the user's own pool
static Op* make_op(Lineage* L, int fctx, bool allow_cross)
{
  Op* o = raw_new<Op>();
  o->id = (int)w->ops.size(); w->ops.push_back(o);
  o->L = L; o->kind = (Kind)wl(4); o->off = 0;
  if (o->kind == k_read_at || o->kind == k_write_at) o->off = wl_size(300);
  o->nseg = wl_chance(70) ? 1 : (int)wl(4); o->wide = wl_chance(8);
  if (o->wide) o->nseg = (int)wl(max_seg + 1);
  size_t at = 8; o->total = 0;
  for (int i = 0; i < o->nseg; ++i) { o->seg[i].at = at; o->seg[i].len = wl_size(120); at += o->seg[i].len + 8; o->total += o->seg[i].len; }
  o->cap = at + 8;
  o->buf = (unsigned char*)arena_alloc(o->cap, 16);
  for (size_t i = 0; i < o->cap; ++i) o->buf[i] = (o->kind == k_read || o->kind == k_read_at) ? 0xAA : (unsigned char)(o->id * 7 + i);
  o->exkind = e_none; o->ctx = fctx;
  if (wl_chance(45)) {
    o->exkind = 1 + (int)wl(w->pool && allow_cross ? 4 : 3);
    if (allow_cross && w->ctx.size() > 1 && wl_chance(40)) {
      int c = (int)wl((uint32_t)w->ctx.size());
      if (!w->teardown_destroy || c >= fctx) o->ctx = c;
    }
    if (o->exkind == e_tag || o->exkind == e_pool) o->tag = ++w->ntag;
    if (o->exkind == e_pool) o->ctx = -1;
    if (o->exkind == e_strand) o->strand = w->ctx[o->ctx]->strand;
  }
  return o;
}

// ------------------------------------------------------------------ contexts
static void check_run_return(Ctx* c, uint64_t begin, uint64_t begin_of_ops, const char* what)
{
  Quiet q;
  uint64_t end = next_seq(); (void)end;
  for (Op* o : w->ops) {
    if (o->ctx != c->id || o->invoked || o->dropped) continue;
    if ((o->start_end && o->start_end <= begin) ||
        (o->from_handler && o->from_ctx == c->id && o->start_end > begin_of_ops && o->start_end))
      VIO(C_COMPLETE, "run-returned-early", "%s of io_context %d returned although operation %d (%s) is outstanding", what, c->id, o->id, kind_names[o->kind]);
  }
}
static void run_ctx(Ctx* c)
{
  uint64_t begin; int mode;
  { Quiet q; begin = next_seq(); mode = (int)wl(4); th().running = c->id + 1; }
  if (mode == 0) while (c->io->run_one()) {}
  else c->io->run();
  { Quiet q; th().running = 0; }
  if (!c->io->stopped()) {} // run() stops the context when it runs out of work
  if (!c->stop) check_run_return(c, begin, begin, "run()");
}
static void io_thread(void* p)
{
  Ctx* c = (Ctx*)p;
  if (c->strict) {
    for (int i = 0;; ++i) {
      run_ctx(c);
      bool end; { Quiet q; end = c->stop || (w->actors_left == 0 && i > 0); }
      if (end) break;
      c->io->restart();
      sleep_us(3);
    }
  } else run_ctx(c);
}

static void open_slot(Slot* s)
{
  char path[32]; int fl;
  {
    Quiet q;
    snprintf(path, sizeof path, "%s", w->paths[wl((uint32_t)w->paths.size())].c_str());
    fl = (int)wl(5);
  }
  error_code ec;
  asioext::open_flags flags = asioext::open_flags::access_read_write |
    (fl == 0 ? asioext::open_flags::open_existing : fl == 1 ? asioext::open_flags::create_always : asioext::open_flags::open_always);
  if (fl == 4) {
    int fd; { Quiet q; fd = kernel_open(path, O_RDWR | O_CLOEXEC, 0644); }
    delete s->f;
    s->f = new File(*w->ctx[s->ctx]->io, fd);
    s->extag = 0; s->exstrand = 0;
  } else s->f->open(path, asioext::open_args(flags), ec);
  Quiet q;
  if (ec) { ev("open-failed", ec.value()); if (s->f->is_open()) VIO(C_ALL, "open-after-error", "open failed with %d but the file is open", ec.value()); return; }
  if (!s->f->is_open()) { VIO(C_ALL, "not-open", "open succeeded but is_open() is false"); return; }
  Lineage* L = raw_new<Lineage>();
  L->id = (int)w->lins.size(); L->fd = s->f->native_handle(); L->ofd = ofd_of_fd(L->fd); L->inode = inode_of_fd(L->fd); L->open = true;
  if (L->ofd < 0) VIO(C_ALL, "bad-native-handle", "the opened file's descriptor %d is not open", L->fd);
  w->lins.push_back(L);
  s->L = L;
  note("slot opened: lineage %d fd %d", L->id, L->fd);
}

static void create_slot(Slot* s)
{
  int ex; Ctx* c;
  { Quiet q; s->ctx = (int)wl((uint32_t)w->ctx.size()); c = w->ctx[s->ctx]; ex = w->p.custom_exec ? (int)wl(5) : 0; s->extag = 0; s->exstrand = 0; s->L = 0; }
  bool oom; { Quiet q; oom = w->alloc && wl_chance(30); }
  if (oom) { // a constructor that fails leaves nothing behind
    try { AllocFaults af; File* f = new File(*c->io); { NoAllocFaults na; delete f; } } catch (std::bad_alloc&) { Quiet q; probe("constructors out of memory"); }
  }
  if (ex <= 1) s->f = new File(*c->io);
  else if (ex == 2) s->f = new File(c->io->get_executor());
  else if (ex == 3) { { Quiet q; s->extag = ++w->ntag; } s->f = new File(File::executor_type(TagIo(c->io->get_executor(), s->extag))); }
  else { { Quiet q; s->exstrand = c->strand; } s->f = new File(File::executor_type(*c->strand->ex)); }
}
static void destroy_slot(Slot* s)
{
  mark_begin(s->L, m_destroy);
  delete s->f;
  mark_end(s->L, true);
  s->f = 0; s->L = 0;
}
static void check_slot(Slot* s, const char* after)
{
  Quiet q;
  bool o = s->f->is_open();
  if (o != (s->L != 0)) { VIO(C_MOVE, "open-state", "after %s the file is %s but should be %s", after, o ? "open" : "closed", s->L ? "open" : "closed"); return; }
  if (s->L && s->f->native_handle() != s->L->fd)
    VIO(C_MOVE, "wrong-handle", "after %s native_handle() is %d instead of %d", after, s->f->native_handle(), s->L->fd);
  asio::io_context& io = *w->ctx[s->ctx]->io;
  File::executor_type want = s->extag ? File::executor_type(TagIo(io.get_executor(), s->extag)) : s->exstrand ? File::executor_type(*s->exstrand->ex) : File::executor_type(io.get_executor());
  if (s->f->get_executor() != want) VIO(C_MOVE, "wrong-executor", "after %s the file has another file's executor", after);
  const File& cf = *s->f;
  if (&s->f->lowest_layer() != s->f || &cf.lowest_layer() != s->f) VIO(C_MOVE, "wrong-layer", "lowest_layer() is not the file");
}

static void set_file_default(Op* o, Slot* s)
{
  if (o->exkind == e_none) { o->tag = s->extag; o->strand = s->exstrand; }
}

// Once in a while something is repeated so often that a narrow counter would wrap around.
static int generations(int most, int steps)
{
  static const int k[] = {127, 254, 255, 256, 257, 511, 1023};
  if (!wl_chance(2)) return 0;
  probe("repeated until a counter may wrap around");
  int n = wl_chance(3) ? 65534 + (int)wl(3) : k[wl(7)];
  if (n > most) n = 257;
  allow_steps((uint64_t)steps * (uint64_t)n); // others run while this thread's calls are stalled
  return n;
}

static void act(std::vector<Slot*>& slots)
{
  Profile& p = w->p;
  int k; Slot* s; Slot* t;
  {
    Quiet q;
    int tot = p.w_op + p.w_open + p.w_cancel + p.w_close + p.w_destroy + p.w_move + p.w_sleep + p.w_chain + p.w_sync;
    int r = (int)wl((uint32_t)tot); k = 0;
    const int ws[] = {p.w_op, p.w_open, p.w_cancel, p.w_close, p.w_destroy, p.w_move, p.w_sleep, p.w_chain, p.w_sync};
    while (r >= ws[k]) r -= ws[k++];
    s = slots[wl((uint32_t)slots.size())]; t = slots[wl((uint32_t)slots.size())];
  }
  switch (k) {
  case 0: {
    bool go; { Quiet q; go = s->L || wl_chance(20); }
    if (!go) { open_slot(s); if (!s->L) break; }
    Op* o; { Quiet q; o = make_op(s->L, s->ctx, true); set_file_default(o, s); }
    start_on(*s->f, o, 0);
    break; }
  case 1: if (!s->L) open_slot(s); break;
  case 2: {
    error_code ec; { Quiet q; if (wl_chance(50)) ec = asio::error::make_error_code(asio::error::access_denied); }
    mark_begin(s->L, m_cancel);
    note("cancel lineage %d", s->L ? s->L->id : -1);
    s->f->cancel(ec);
    mark_end(s->L, false);
    int again; { Quiet q; again = generations(65536, 100); }
    for (int i = 0; i < again; ++i) s->f->cancel(ec);
    Quiet q;
    if (s->L && ec) VIO(C_CANCELRES, "cancel-result", "cancel() of an open file reports error %d", ec.value());
    if (!s->L && ec != asio::error::bad_descriptor) VIO(C_CANCELRES, "cancel-result", "cancel() of a closed file reports %d instead of bad_descriptor", ec.value());
    break; }
  case 3: {
    error_code ec;
    mark_begin(s->L, m_close);
    s->f->close(ec);
    mark_end(s->L, true);
    s->L = 0;
    check_slot(s, "close()");
    int again; { Quiet q; again = w->cycled ? 0 : generations(600, 8000); w->cycled |= again > 0; }
    for (int i = 0; i < again; ++i) { // what was closed stays closed however often it's opened again
      s->f->open("cycle", asioext::open_args(asioext::open_flags::access_read_write | asioext::open_flags::open_always), ec);
      s->f->close(ec);
    }
    if (again) check_slot(s, "many cycles of open() and close()");
    break; }
  case 4: destroy_slot(s); create_slot(s); break;
  case 5: {
    if (s == t) { // nothing happens
      File& self = *s->f; *s->f = std::move(self);
      check_slot(s, "self-move");
      break;
    }
    bool assign; { Quiet q; assign = wl_chance(60); }
    if (assign) {
      mark_begin(t->L, m_assign);
      *t->f = std::move(*s->f);
      mark_end(t->L, true);
    } else {
      mark_begin(t->L, m_destroy);
      delete t->f;
      mark_end(t->L, true);
      t->f = new File(std::move(*s->f));
    }
    t->L = s->L; s->L = 0; t->ctx = s->ctx; t->extag = s->extag; t->exstrand = s->exstrand;
    check_slot(t, assign ? "move assignment (target)" : "move construction (target)");
    check_slot(s, assign ? "move assignment (source)" : "move construction (source)");
    { Quiet q; ev(assign ? "move-assign" : "move-construct", t->L ? t->L->id : -1); }
    break; }
  case 6: { uint32_t us; { Quiet q; us = wl_chance(50) ? 0 : wl(400); } if (us) sleep_us(us); else yield(); break; }
  case 7: { // a file that lives in its own handlers
    Slot tmp; tmp.f = 0;
    create_slot(&tmp);
    open_slot(&tmp);
    if (!tmp.L) { destroy_slot(&tmp); break; }
    Chain* c = new Chain; Op* o;
    { Quiet q; c->f = tmp.f; c->L = tmp.L; c->left = (int)wl(4); c->ctx = tmp.ctx; o = make_op(c->L, c->ctx, false); set_file_default(o, &tmp); o->chain = true; }
    start_on(*c->f, o, c);
    break; }
  case 8: {
    error_code ec;
    int which; { Quiet q; which = (int)wl(12); }
    typedef asioext::file_time_type FT; typedef FT::duration FD;
    using asioext::file_perms; using asioext::file_perm_options;
    asioext::file_times ft; ft.atime = FT(FD(1000000007)); ft.mtime = FT(FD(-5));
    auto rights = [](auto& f, error_code& e) { f.permissions(file_perms::owner_read | file_perms::owner_write, file_perm_options::add, e); };
    switch (which) {
    case 0: (void)s->f->position(ec); break;
    case 1: (void)s->f->seek(asioext::seek_origin::from_begin, 0, ec); break;
    case 2: (void)s->f->permissions(ec); break;
    case 3: rights(*s->f, ec); break;
    case 4: (void)s->f->attributes(ec); break;
    case 5: (void)s->f->times(ec); break;
    case 6: s->f->times(ft, ec); break;
    case 7: try { (void)s->f->size(); } catch (std::system_error&) {} break;
    case 8: if (s->L) { // the same through a second handle
      asioext::unique_file_handle u = asioext::duplicate(asioext::file_handle(s->f->native_handle()), ec);
      if (ec) break;
      (void)u.size(ec); rights(u, ec);
      break; }
    default: (void)s->f->size(ec);
    }
    break; }
  }
}

struct Actor { int id; int actions; std::vector<Slot*> slots; };
static void actor_thread(void* p)
{
  Actor* a = (Actor*)p;
  for (Slot* s : a->slots) create_slot(s);
  for (int i = 0; i < a->actions; ++i) act(a->slots);
  { Quiet q; w->actors_left--; }
}

// ------------------------------------------------------------------ the judge
static void judge()
{
  Quiet q;
  // all data transfers, by operation
  struct R { const unsigned char* base; size_t idx; };
  std::vector<std::vector<size_t>> recs(w->ops.size());
  std::vector<std::pair<const unsigned char*, Op*>> idx;
  for (Op* o : w->ops) idx.push_back({o->buf, o});
  std::sort(idx.begin(), idx.end(), [](auto& a, auto& b) { return a.first < b.first; });
  for (size_t i = 0; i < nsys(); ++i) {
    const SysRec& r = sysrec(i);
    if (!r.base) continue;
    auto it = std::upper_bound(idx.begin(), idx.end(), (const unsigned char*)r.base, [](const unsigned char* a, auto& b) { return a < b.first; });
    if (it == idx.begin()) continue;
    Op* o = (--it)->second;
    if ((const unsigned char*)r.base >= o->buf + o->cap) continue;
    recs[(size_t)o->id].push_back(i);
  }
  for (Op* o : w->ops) {
    auto& rs = recs[(size_t)o->id];
    const char* kn = kind_names[o->kind];
    if (o->start_end == 0) VIO(C_COMPLETE, "initiation-lost", "operation %d: the initiating function did not return", o->id);
    if (!o->invoked && !o->dropped) VIO(C_COMPLETE, "handler-lost", "operation %d (%s): its handler was neither invoked nor destroyed", o->id, kn);
    if (o->threw && !rs.empty()) VIO(C_RESULT, "threw-and-io", "operation %d (%s): the initiating function threw, but the operation performed I/O", o->id, kn);
    // I/O only on its own file, and only if begun before any cancellation returned
    const SysRec* first = rs.empty() ? 0 : &sysrec(rs[0]);
    const Mark* mk = 0; // first mark after the start
    const Mark* cm = 0; // the one that closes the descriptor
    if (o->L) for (const Mark& m : o->L->marks) if (m.begin >= o->start_end) { if (!mk) mk = &m; if (m.kind != m_cancel) { cm = &m; break; } }
    int64_t sum = 0;
    bool begun_before = first && mk && first->last_unlock <= mk->end;
    // dequeued before its descriptor was actually closed
    bool dequeued_before = first && cm;
    if (first && cm) for (size_t i = 0; i < nsys(); ++i) { const SysRec& c = sysrec(i); if (c.ofd == o->L->ofd && c.fd == o->L->fd && !strcmp(c.name, "close") && c.seq < first->last_unlock) dequeued_before = false; }
    for (size_t i : rs) {
      const SysRec& r = sysrec(i);
      if (r.ret > 0) sum += r.ret;
      bool wr = o->kind == k_write || o->kind == k_write_at;
      if (wr != (strstr(r.name, "write") != 0)) VIO(C_RESULT, "wrong-direction", "operation %d (%s) issued %s", o->id, kn, r.name);
      if (!o->L) { if (r.ofd >= 0) VIO(C_REUSE, "io-on-other-file", "operation %d started on a closed file performed %s on descriptor %d", o->id, r.name, r.fd); continue; }
      if (r.ofd >= 0 && r.ofd != o->L->ofd) {
        if (begun_before && dequeued_before)
          VIO(C_REUSE, "io-on-reused-descriptor-inflight", "operation %d (%s), already dequeued when %s of its file closed descriptor %d, then performed %s on another file that had received the descriptor", o->id, kn, mark_names[cm->kind], r.fd, r.name);
        else
          VIO(C_REUSE, "io-on-reused-descriptor", "operation %d (%s) performed %s on descriptor %d, which belongs to another file", o->id, kn, r.name, r.fd);
      }
    }
    if (first && mk && !begun_before)
      VIO(mk->kind == m_cancel ? C_IOCANCEL : C_IOCLOSE, mk->kind == m_cancel ? "io-after-cancel" : "io-after-close", "operation %d (%s) was begun (%s) after %s of its file had returned", o->id, kn, first->name, mark_names[mk->kind]);
    if (!o->invoked) continue;
    // the result is the one of its system call
    if (o->ec == asio::error::operation_aborted) {
      w->aborted++;
      if (o->n) VIO(C_RESULT, "aborted-with-bytes", "operation %d aborted but reports %lu bytes", o->id, (unsigned long)o->n);
      if (!rs.empty()) VIO(C_ABORT, "aborted-after-io", "operation %d (%s) reports operation_aborted although it performed I/O", o->id, kn);
      if (o->L && !mk) VIO(C_ABORT, "aborted-unjustified", "operation %d (%s) on an open file was aborted although nothing cancelled it", o->id, kn);
      if (o->L && mk && mk->begin > o->done_seq) VIO(C_ABORT, "aborted-unjustified", "operation %d (%s) was aborted before %s was called", o->id, kn, mark_names[mk->kind]);
      continue;
    }
    if (!o->L) {
      if (!o->ec) { if (o->total) VIO(C_RESULT, "closed-file-success", "operation %d (%s) on a closed file succeeded", o->id, kn); }
      if (o->n) VIO(C_RESULT, "closed-file-success", "operation %d on a closed file reports %lu bytes", o->id, (unsigned long)o->n);
      continue;
    }
    if (o->total == 0) {
      if (o->n) VIO(C_RESULT, "result", "operation %d of size 0 reports %lu bytes", o->id, (unsigned long)o->n);
      if (!o->ec) w->completed++;
      continue;
    }
    if (rs.empty()) { VIO(C_RESULT, "result", "operation %d (%s) reports %d and %lu bytes without any I/O", o->id, kn, o->ec.value(), (unsigned long)o->n); continue; }
    const SysRec& last = sysrec(rs.back());
    bool rd = o->kind == k_read || o->kind == k_read_at;
    if (!o->ec) {
      w->completed++;
      if ((int64_t)o->n != sum) VIO(C_RESULT, "result", "operation %d (%s) reports %lu bytes, the system transferred %ld", o->id, kn, (unsigned long)o->n, (long)sum);
      if (rd && o->n == 0) VIO(C_RESULT, "result", "operation %d: read of %lu bytes reports success with 0 bytes", o->id, (unsigned long)o->total);
    } else if (o->ec == asio::error::eof) {
      w->eofs++;
      if (!rd || sum || o->n || last.ret != 0) VIO(C_RESULT, "result", "operation %d (%s) reports end of file, the system call returned %ld", o->id, kn, (long)last.ret);
    } else {
      w->failed++;
      if (last.ret >= 0 || o->ec.value() != last.err || o->ec.category() != asio::error::get_system_category())
        VIO(C_RESULT, "result", "operation %d (%s) reports error %d, its last system call returned %ld with errno %d", o->id, kn, o->ec.value(), (long)last.ret, last.err);
      if (o->n || sum) VIO(C_RESULT, "result", "operation %d failed but reports %lu bytes (%ld transferred)", o->id, (unsigned long)o->n, (long)sum);
    }
  }
  probe("ops", w->ops.size());
  if (w->aborted) probe("aborted", w->aborted);
  if (w->completed) probe("completed", w->completed);
  if (w->failed) probe("failed", w->failed);
  if (w->eofs) probe("eof", w->eofs);
  uint64_t dropped = 0; for (Op* o : w->ops) dropped += (uint64_t)o->dropped;
  if (dropped) probe("handlers destroyed uninvoked", dropped);
  if (w->completed + w->aborted + dropped) nontrivial();
}

static void run_world(const Profile& prof)
{
  Actor actors[3]; int nact;
  uint64_t mark;
  std::vector<pthread_t> iothr, acthr;
  {
    Quiet q;
    w = raw_new<World>();
    memset(g_th, 0, sizeof g_th);
    w->p = prof;
    kreset();
    set_fd_base((int)wl(3) == 0 ? 0 : 3);
    set_fd_reuse(prof.fd_reuse);
    std::string data(200, 'x'); for (size_t i = 0; i < data.size(); ++i) data[i] = (char)(i * 31 + 7);
    int np = 1 + (int)wl(4);
    for (int i = 0; i < np; ++i) {
      char b[16]; snprintf(b, sizeof b, "f%d", i); w->paths.push_back(b);
      mkfile(b, data.data(), wl_size(200));
    }
    w->teardown_destroy = prof.teardown == 1 || (prof.teardown == 2 && flip());
    nact = prof.min_actors + (int)wl((uint32_t)(prof.max_actors - prof.min_actors + 1));
    race_detector(prof.race);
    swarm_sched(prof.race);
    swarm_fault(f_eintr, 35); swarm_fault(f_short, 35); swarm_fault(f_eio, 30); swarm_fault(f_close_err, 30);
    swarm_fault(f_stall, 60); swarm_fault(f_open_err, 15); swarm_fault(f_emfile, 10); swarm_fault(f_spurious_wakeup, 25);
    w->alloc = wl_chance(15); if (w->alloc) set_fault(f_alloc, 4000);
  }
  mark = alloc_mark();
  int nctx; bool upool;
  { Quiet q; nctx = wl_chance(35) ? 2 : 1; upool = wl_chance(15); }
  for (int i = 0; i < nctx; ++i) {
    Ctx* c = raw_new<Ctx>(); c->id = i;
    int conc, thr;
    { Quiet q; w->ctx.push_back(c); conc = (int)wl(3); thr = 1 + (int)wl(3); }
    c->io = conc == 0 ? new asio::io_context() : conc == 1 ? new asio::io_context(1) : new asio::io_context(2);
    { Quiet q; c->strand = raw_new<Strand>(); c->late_strand = prof.late_strand && wl_chance(20); }
    if (!c->late_strand) { c->strand->ex = new StrandEx(c->io->get_executor()); c->strand->ctx = i; }
    if (c->late_strand || thr > 1 || flip()) { c->svc = new Service(*c->io, (std::size_t)thr); asio::add_service(*c->io, c->svc); }
    if (c->late_strand) { c->strand->ex = new StrandEx(c->io->get_executor()); c->strand->ctx = i; }
    { Quiet q; c->runners = (int)wl(3); c->strict = c->runners == 1 && flip() && !w->alloc; if (conc == 1 && c->runners > 1) c->runners = 1; }
    if (c->runners && !c->strict) c->guard = new asio::executor_work_guard<asio::io_context::executor_type>(c->io->get_executor());
  }
  if (upool) w->pool = new asio::thread_pool(1);
  {
    Quiet q;
    w->actors_left = nact;
    for (int i = 0; i < nact; ++i) {
      actors[i].id = i; actors[i].actions = 2 + (int)wl((uint32_t)prof.actions);
      int ns = 1 + (int)wl(3);
      for (int k = 0; k < ns; ++k) { Slot* s = raw_new<Slot>(); actors[i].slots.push_back(s); w->all_slots.push_back(s); }
    }
  }
  for (Ctx* c : w->ctx) for (int i = 0; i < c->runners; ++i) { pthread_t t = go(io_thread, c); Quiet q; iothr.push_back(t); }
  for (int i = 1; i < nact; ++i) { pthread_t t = go(actor_thread, &actors[i]); Quiet q; acthr.push_back(t); }
  actor_thread(&actors[0]);
  for (pthread_t t : acthr) join(t);

  if (!w->teardown_destroy) {
    if (w->pool && flip()) {
      w->pool->join();
      Quiet q;
      for (Op* o : w->ops)
        if (o->exkind == e_pool && !o->invoked && !o->threw) VIO(C_COMPLETE, "run-returned-early", "thread_pool::join() returned although operation %d, whose handler is to run there, is outstanding", o->id);
      probe("user pool joined first");
    }
    for (Ctx* c : w->ctx) if (c->guard) { delete c->guard; c->guard = 0; }
    for (pthread_t t : iothr) join(t);
    // whatever is left is run by this thread
    for (int pass = 0; pass < 3; ++pass)
      for (Ctx* c : w->ctx) { c->io->restart(); run_ctx(c); }
    for (int i = 0; i < 200; ++i) { // chains across contexts
      bool left = false; { Quiet q; for (Op* o : w->ops) left |= !o->invoked && !o->threw; }
      if (!left) break;
      for (Ctx* c : w->ctx) { c->io->restart(); run_ctx(c); }
      sleep_us(100);
    }
    // A pool thread may still hold a copy of another context's executor after it
    // has posted the completion there; contexts referring to each other have to
    // be idle before the first one goes (as with any Asio executor).
    bool idle; { Quiet q; idle = w->ctx.size() > 1 || w->pool; }
    if (idle) sleep_us(10000000);
    Quiet q;
    for (Op* o : w->ops) if (!o->invoked && !o->threw) VIO(C_COMPLETE, "handler-lost", "operation %d (%s) never completed although its context was run to the end", o->id, kind_names[o->kind]);
  } else {
    bool sl; { Quiet q; sl = flip(); probe("torn down with operations outstanding possible"); }
    if (sl) { uint32_t us; { Quiet q; us = wl(300); } sleep_us(us); }
    { Quiet q; for (Ctx* c : w->ctx) c->stop = true; }
    for (Ctx* c : w->ctx) c->io->stop();
    for (pthread_t t : iothr) join(t);
    for (Ctx* c : w->ctx) if (c->guard) { delete c->guard; c->guard = 0; }
    uint64_t out = 0; { Quiet q; for (Op* o : w->ops) out += !o->invoked && !o->threw; if (out) probe("operations outstanding at teardown", out); }
  }
  // the objects go before their contexts; some open ones are left to the service
  // Now and then also closed ones stay behind, between the open ones (they are never
  // destroyed, so the memory they own isn't accounted for in these runs).
  std::vector<Slot*> abandoned; bool keep_closed, kept_closed = false; { Quiet q; keep_closed = wl_chance(w->p.w_abandon > 50 ? 30 : 5); }
  for (Slot* s : w->all_slots) {
    bool ab; { Quiet q; ab = (s->L || keep_closed) && s->f && !s->extag && !s->exstrand && wl_chance((uint32_t)w->p.w_abandon); if (ab) { abandoned.push_back(s); kept_closed |= !s->L; } }
    if (!ab) destroy_slot(s);
    else mark_begin(s->L, m_shutdown);
  }
  { Quiet q; if (w->teardown_destroy) w->ctx_dying = true; }
  for (Ctx* c : w->ctx) {
    {
      Quiet q; c->dying = true;
      // io_context shuts its services down youngest first: the file service's threads may
      // still use a strand whose service has been shut down.
      bool st = false;
      if (c->late_strand) for (Op* o : w->ops) st |= !o->invoked && !o->threw && o->strand == c->strand;
      note("ctx %d dying, late_strand %d st %d", c->id, (int)c->late_strand, (int)st);
      if (st) { probe("younger strand service at teardown"); classify("shutdown-younger-strand-service"); }
    }
    delete c->strand->ex;
    delete c->io;
    { Quiet q; classify(0); }
    { Quiet q; c->dead = true; }
    for (Slot* s : abandoned) if (s->ctx == c->id) {
      mark_end(s->L, true);
      if (s->L) { Quiet q; if (fd_open(s->L->fd) && ofd_of_fd(s->L->fd) == s->L->ofd) VIO(C_SHUTDOWN, "not-closed-by-shutdown", "file %d is still open after its io_context was destroyed", s->L->id); probe("file left to service shutdown"); }
      ::operator delete(s->f); s->f = 0; s->L = 0;
    }
  }
  if (w->pool) { w->pool->stop(); w->pool->join(); delete w->pool; w->pool = 0; }
  judge();
  Quiet q;
  if (g_counted) VIO(C_LEAK, "leak", "%d handler objects (moved from, perhaps) were never destroyed", g_counted);
  LeakInfo li = live_since(mark);
  if (kept_closed) probe("closed file left behind");
  if (li.count && !kept_closed) VIO(C_LEAK, "leak", "%lu blocks (%lu bytes) allocated during the run were never freed; the first has %lu bytes (allocation %lu)", (unsigned long)li.count, (unsigned long)li.bytes, (unsigned long)li.first_size, (unsigned long)li.first_serial);
  if (open_fd_count()) VIO(C_FDS, "descriptor-leak", "descriptor %d is still open at the end", first_open_fd());
  if (nthreads_alive() != 1) VIO(C_LEAK, "thread-leak", "%d threads are still alive at the end", nthreads_alive() - 1);
}
} // namespace fw
#endif
