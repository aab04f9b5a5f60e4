// Simulated kernel, part 1: files and descriptors.
#include "kernel.hpp"
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <sys/ioctl.h>
#include <unistd.h>
#include <limits.h>
#include <new>

namespace simcore {
using namespace sim;

Kern* K;

void kernel_init()
{
  K = new (rmalloc(sizeof(Kern))) Kern();
  kreset();
}

int new_ofd(int kind)
{
  Ofd* o = new (rmalloc(sizeof(Ofd))) Ofd();
  o->id = (int)K->ofds.size();
  o->kind = kind;
  K->ofds.push_back(o);
  return o->id;
}

int alloc_fd(int ofd, bool cloexec, int min)
{
  int fd = K->fd_base > min ? K->fd_base : min;
  if (!K->fd_reuse && fd < K->fd_top) fd = K->fd_top;
  while (fd < (int)K->fds.size() && K->fds[fd].ofd >= 0) ++fd;
  if (fd >= (int)K->fds.size()) K->fds.resize(fd + 1);
  K->fds[fd].ofd = ofd; K->fds[fd].cloexec = cloexec;
  K->ofds[ofd]->refs++;
  if (fd >= K->fd_top) K->fd_top = fd + 1;
  return fd;
}

Ofd* get_ofd(int fd)
{
  if (fd < 0 || fd >= (int)K->fds.size() || K->fds[fd].ofd < 0) return 0;
  return K->ofds[K->fds[fd].ofd];
}

void drop_fd(int fd)
{
  Ofd* o = K->ofds[K->fds[fd].ofd];
  K->fds[fd].ofd = -1;
  if (--o->refs == 0) { o->closed = true; if (o->kind != k_file) net_ofd_closed(o); }
}

static const int64_t MAXHUGE = 1ll << 62;
static Vec<HugeSeg>* g_segs;
static char* g_nomem; static size_t g_nomem_size;
static int64_t file_size(const Inode* in) { return in->huge ? in->huge->size : (int64_t)in->data.size(); }
static void set_size(Inode* in, int64_t n)
{
  Huge* h = in->huge;
  if (!h) { in->data.resize((size_t)n); return; }
  h->size = n; if (n < h->limit) h->limit = n;
  h->over.erase(h->over.lower_bound(n), h->over.end());
}
static unsigned char huge_byte_(const Huge* h, int64_t off)
{
  if (off >= h->size) return 0;
  auto it = h->over.find(off);
  return it != h->over.end() ? it->second : off < h->limit ? huge_fill(off) : 0;
}
static void huge_move(Huge* h, unsigned char* b, int64_t pos, size_t k, bool wr)
{
  HugeSeg g{b, pos, k, wr}; g_segs->push_back(g);
  if (wr && h->size < pos + (int64_t)k) h->size = pos + (int64_t)k;
  if ((char*)b >= g_nomem && (char*)b < g_nomem + g_nomem_size) return;
  for (size_t i = 0; i < k; ++i) if (wr) h->over[pos + (int64_t)i] = b[i]; else b[i] = huge_byte_(h, pos + (int64_t)i);
}

Sys::Sys(const char* n, int f) : name(n), fd(f)
{
  ++g_core;
  if (!g_on) fatal("system call %s outside of a run", n);
  entered = ++g_seq;
  last_unlock = g_cur->last_unlock;
  g_cur->nsyscalls++;
  rec.seq = 0; rec.name = n; rec.fd = f; rec.ofd = -1; rec.inode = -1; rec.off = -1; rec.len = 0; rec.base = 0; rec.ovl = 0;
  quiet = g_quiet != 0;
  if (!quiet) {
    yield_point();
    if (get_fault(f_stall) && fire(f_stall)) block("stalled system call", &K->fds, g_now + 1000ull * (1 + draw(F, 3000)));
  }
}
int64_t Sys::done(int64_t ret, int err)
{
  rec.entered = entered; rec.last_unlock = last_unlock; rec.tid = g_cur->id; rec.ret = ret; rec.err = err;
  Ofd* o = 0;
  if (rec.ofd < 0 && (o = get_ofd(fd))) { rec.ofd = o->id; rec.inode = o->inode; }
  ev(name, fd, rec.off, (int64_t)ret, err);
  rec.seq = g_seq;
  g_cur->last_err = err;
  K->sys.push_back(rec);
  result = ret; error = err;
  return ret;
}
long Sys::leave()
{
  if (!quiet) yield_point();
  --g_core;
  if (error) errno = error;
  return (long)result;
}

static const int64_t MAXFILE = 4 << 20;

static int find_path(const char* path)
{
  for (size_t i = 0; i < K->names.size(); ++i) if (K->names[i].path == path) return (int)i;
  return -1;
}
static int new_inode(unsigned mode)
{
  Inode* n = new (rmalloc(sizeof(Inode))) Inode();
  n->id = (int)K->inodes.size();
  n->mode = mode;
  K->inodes.push_back(n);
  return n->id;
}

// effect of open(); no faults, no yields
static int do_open(const char* path, int flags, unsigned mode, int* err)
{
  *err = 0;
  if (strlen(path) == 0) { *err = ENOENT; return -1; }
  int ni = find_path(path);
  if (flags & O_PATH) { // every flag but these is ignored by the system
    *err = ni < 0 ? ENOENT : (flags & O_DIRECTORY) ? ENOTDIR : EBADF;
    return -1;
  }
  if (flags & O_DIRECTORY) { *err = ni < 0 ? ENOENT : ENOTDIR; return -1; }
  int ino;
  if (ni < 0) {
    if (!(flags & O_CREAT)) { *err = ENOENT; return -1; }
    if (strchr(path, '/') && strstr(path, "missing/")) { *err = ENOENT; return -1; }
    ino = new_inode(mode & 07777 & ~K->umask);
    Name nm; nm.path = path; nm.inode = ino;
    K->names.push_back(nm);
  } else {
    if ((flags & O_CREAT) && (flags & O_EXCL)) { *err = EEXIST; return -1; }
    ino = K->names[ni].inode;
    if (flags & O_TRUNC) set_size(K->inodes[ino], 0);
  }
  int o = new_ofd(k_file);
  K->ofds[o]->inode = ino;
  K->ofds[o]->flags = flags;
  return o;
}

static long sys_open(const char* path, int flags, unsigned mode)
{
  Sys s("open", -1);
  check_access(path, strlen(path) + 1, false);
  if (fire(f_eintr)) { s.rec.ovl = (uint64_t)flags; s.rec.len = mode; s.done(-1, EINTR); return s.leave(); }
  if (fire(f_emfile)) { s.rec.ovl = (uint64_t)flags; s.rec.len = mode; s.done(-1, EMFILE); return s.leave(); }
  if (fire(f_enfile)) { s.rec.ovl = (uint64_t)flags; s.rec.len = mode; s.done(-1, ENFILE); return s.leave(); }
  if (fire(f_open_err)) {
    static const int errs[] = {EACCES, EIO, ENOSPC, ELOOP, EROFS, ENOMEM, EAGAIN};
    s.rec.ovl = (uint64_t)flags; s.rec.len = mode;
    s.done(-1, errs[draw(F, 7)]); return s.leave();
  }
  if ((flags & O_CREAT) && find_path(path) < 0 && get_fault(f_race_create) && fire(f_race_create)) {
    // another process creates the file first
    int ino = new_inode(0600);
    static const char txt[] = "created by another process";
    for (const char* p = txt; *p; ++p) K->inodes[ino]->data.push_back((unsigned char)*p);
    Name nm; nm.path = path; nm.inode = ino;
    K->names.push_back(nm);
  }
  int err;
  int o = do_open(path, flags, mode, &err);
  s.rec.ovl = (uint64_t)flags; s.rec.len = mode;
  if (o < 0) { s.done(-1, err); return s.leave(); }
  int fd = alloc_fd(o, (flags & O_CLOEXEC) != 0, 0);
  K->ofds[o]->opened_cloexec = (flags & O_CLOEXEC) != 0;
  s.rec.ofd = o; s.rec.inode = K->ofds[o]->inode;
  s.fd = fd; s.rec.fd = fd;
  s.done(fd, 0);
  return s.leave();
}

static long sys_close(int fd)
{
  Sys s("close", fd);
  Ofd* o = get_ofd(fd);
  if (!o) { s.done(-1, EBADF); return s.leave(); }
  s.rec.ofd = o->id; s.rec.inode = o->inode;
  drop_fd(fd); // the descriptor is gone in any case (Linux semantics)
  if (fire(f_close_err)) {
    static const int errs[] = {EIO, EINTR, ENOSPC, EDQUOT};
    s.done(-1, errs[draw(F, 4)]);
    return s.leave();
  }
  s.done(0, 0);
  return s.leave();
}

static size_t iov_total(const iovec* v, int n) { size_t t = 0; for (int i = 0; i < n; ++i) t += v[i].iov_len; return t; }

// A data transfer on a regular file. off < 0: use and advance the position.
static long sys_rw(const char* name, int fd, const iovec* v, int n, bool wr, int64_t off, bool positional)
{
  Sys s(name, fd);
  if (n > 0 && n <= IOV_MAX) check_access(v, sizeof(iovec) * (size_t)n, false);
  if (n < 0 || n > IOV_MAX) { s.done(-1, EINVAL); return s.leave(); }
  size_t total = iov_total(v, n);
  s.rec.len = total;
  for (int i = 0; i < n; ++i) if (v[i].iov_len) { s.rec.base = v[i].iov_base; break; }
  if (!s.rec.base && n > 0) s.rec.base = v[0].iov_base;
  Ofd* o = get_ofd(fd);
  if (!o) { s.done(-1, EBADF); return s.leave(); }
  if (o->kind != k_file) {
    if (positional) { s.done(-1, ESPIPE); return s.leave(); }
    return net_rw(s, o, v, n, wr);
  }
  if (positional) s.rec.off = off;
  int acc = o->flags & O_ACCMODE;
  if ((wr && acc == O_RDONLY) || (!wr && acc == O_WRONLY)) { s.done(-1, EBADF); return s.leave(); }
  if (positional && off < 0) { s.done(-1, EINVAL); return s.leave(); }
  if (fire(f_eintr)) { s.done(-1, EINTR); return s.leave(); }
  if (fire(f_eio)) { static const int e[] = {EIO, EAGAIN, ENOMEM, ESTALE, EPERM, EDQUOT, EPIPE}; s.done(-1, e[draw(F, wr ? 7 : 5)]); return s.leave(); }
  if (wr && total && fire(f_enospc)) { s.done(-1, ENOSPC); return s.leave(); }
  size_t want = total;
  if (total > 0x7ffff000) total = want = 0x7ffff000; // as Linux does
  if (total > 1 && fire(f_short)) want = 1 + draw(F, (uint32_t)(total - 1));
  Inode* in = K->inodes[o->inode];
  if (!wr && get_fault(f_shrink) && !in->huge && !in->data.empty() && fire(f_shrink)) {
    // another process truncates the file
    in->data.resize(draw(F, (uint32_t)in->data.size()));
  }
  int64_t pos = positional ? off : o->pos;
  s.rec.off = pos;
  if (wr) {
    if (o->flags & O_APPEND) pos = file_size(in);
    if (want && pos > (in->huge ? MAXHUGE : MAXFILE)) { s.done(-1, EFBIG); return s.leave(); }
    if (K->disk >= 0 && want) {
      if (K->disk == 0) { count_fault(f_enospc); s.done(-1, ENOSPC); return s.leave(); }
      if ((int64_t)want > K->disk) want = (size_t)K->disk;
      K->disk -= (int64_t)want;
    }
  }
  size_t done = 0;
  for (int i = 0; i < n && done < want; ++i) {
    size_t k = v[i].iov_len;
    if (k > want - done) k = want - done;
    unsigned char* b = (unsigned char*)v[i].iov_base;
    if (!k) continue;
    if (wr) {
      check_access(b, k, false);
      if (in->huge) huge_move(in->huge, b, pos, k, true);
      else {
      if (in->data.size() < (size_t)pos + k) in->data.resize((size_t)pos + k);
      memcpy(&in->data[(size_t)pos], b, k);
      }
    } else {
      if (pos >= file_size(in)) break;
      if ((int64_t)k > file_size(in) - pos) k = (size_t)(file_size(in) - pos);
      check_access(b, k, true);
      if (in->huge) huge_move(in->huge, b, pos, k, false);
      else memcpy(b, &in->data[(size_t)pos], k);
    }
    pos += (int64_t)k; done += k;
    if (k < v[i].iov_len) break;
  }
  if (!positional && done) o->pos = pos;
  s.done((int64_t)done, 0);
  if (get_fault(f_stall) && fire(f_stall)) block("stalled system call", &K->fds, g_now + 1000ull * (1 + draw(F, 3000)));
  return s.leave();
}

static long sys_lseek(int fd, int64_t off, int whence)
{
  Sys s("lseek", fd);
  Ofd* o = get_ofd(fd);
  if (!o) { s.done(-1, EBADF); return s.leave(); }
  if (o->kind != k_file) { s.done(-1, ESPIPE); return s.leave(); }
  if (fire(f_lseek_err)) { static const int e[] = {EINVAL, EOVERFLOW, EIO, ESPIPE}; s.done(-1, e[draw(F, 4)]); return s.leave(); }
  int64_t b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? o->pos : whence == SEEK_END ? file_size(K->inodes[o->inode]) : INT64_MIN;
  int64_t r;
  if (b == INT64_MIN || __builtin_add_overflow(b, off, &r) || r < 0) { s.done(-1, EINVAL); return s.leave(); }
  o->pos = r;
  s.done(r, 0);
  return s.leave();
}

static void fill_stat(Inode* in, struct stat* st)
{
  memset(st, 0, sizeof *st);
  st->st_ino = (ino_t)in->id + 100; st->st_nlink = 1;
  st->st_mode = S_IFREG | in->mode;
  st->st_size = (off_t)file_size(in);
  st->st_blksize = 4096; st->st_blocks = (st->st_size + 511) / 512;
  st->st_atim.tv_sec = in->t[0]; st->st_atim.tv_nsec = in->t[1];
  st->st_mtim.tv_sec = in->t[2]; st->st_mtim.tv_nsec = in->t[3];
  st->st_ctim.tv_sec = 1111; st->st_ctim.tv_nsec = 0;
}

static void outside(Ofd* o) { if (sim::outside_hook && o->kind == k_file && fire(f_outside)) sim::outside_hook(o->inode); }

static long sys_fstat(int fd, struct stat* st)
{
  Sys s("fstat", fd);
  Ofd* o = get_ofd(fd);
  if (!o) { s.done(-1, EBADF); return s.leave(); }
  check_access(st, sizeof *st, true);
  if (fire(f_fstat_err)) { static const int e[] = {EOVERFLOW, EIO, ENOMEM}; s.done(-1, e[draw(F, 3)]); return s.leave(); }
  outside(o);
  if (o->kind == k_file) fill_stat(K->inodes[o->inode], st);
  else { memset(st, 0, sizeof *st); st->st_mode = S_IFSOCK | 0777; }
  s.done(0, 0);
  return s.leave();
}
static long sys_stat(const char* path, struct stat* st)
{
  Sys s("stat", -1);
  int ni = find_path(path);
  if (ni < 0) { s.done(-1, ENOENT); return s.leave(); }
  fill_stat(K->inodes[K->names[ni].inode], st);
  s.done(0, 0);
  return s.leave();
}
static long sys_ftruncate(int fd, int64_t n)
{
  Sys s("ftruncate", fd);
  Ofd* o = get_ofd(fd);
  s.rec.off = n;
  if (!o) { s.done(-1, EBADF); return s.leave(); }
  if (o->kind != k_file || (o->flags & O_ACCMODE) == O_RDONLY || n < 0) { s.done(-1, EINVAL); return s.leave(); }
  if (fire(f_ftruncate_err)) { static const int e[] = {EIO, EINTR, EFBIG, EPERM}; s.done(-1, e[draw(F, 4)]); return s.leave(); }
  if (n > (K->inodes[o->inode]->huge ? MAXHUGE : MAXFILE)) { s.done(-1, EFBIG); return s.leave(); }
  set_size(K->inodes[o->inode], n);
  s.done(0, 0);
  return s.leave();
}
static long sys_fchmod(int fd, unsigned mode)
{
  Sys s("fchmod", fd);
  Ofd* o = get_ofd(fd);
  s.rec.off = mode;
  if (!o) { s.done(-1, EBADF); return s.leave(); }
  if (o->kind != k_file) { s.done(-1, EINVAL); return s.leave(); }
  if (fire(f_fchmod_err)) { static const int e[] = {EPERM, EROFS, EIO}; s.done(-1, e[draw(F, 3)]); return s.leave(); }
  outside(o);
  K->inodes[o->inode]->mode = mode & 07777;
  s.done(0, 0);
  return s.leave();
}
static long sys_futimens(int fd, const timespec* ts)
{
  Sys s("futimens", fd);
  Ofd* o = get_ofd(fd);
  if (!o) { s.done(-1, EBADF); return s.leave(); }
  if (o->kind != k_file) { s.done(-1, EINVAL); return s.leave(); }
  if (ts) check_access(ts, 2 * sizeof *ts, false);
  timespec now; clock_gettime(CLOCK_REALTIME, &now);
  timespec v[2];
  for (int i = 0; i < 2; ++i) {
    v[i] = ts ? ts[i] : now;
    if (v[i].tv_nsec == UTIME_NOW) v[i] = now;
    else if (v[i].tv_nsec != UTIME_OMIT && (v[i].tv_nsec < 0 || v[i].tv_nsec > 999999999)) { s.done(-1, EINVAL); return s.leave(); }
  }
  if (fire(f_futimens_err)) { static const int e[] = {EPERM, EROFS, EACCES}; s.done(-1, e[draw(F, 3)]); return s.leave(); }
  outside(o);
  Inode* in = K->inodes[o->inode];
  for (int i = 0; i < 2; ++i)
    if (v[i].tv_nsec != UTIME_OMIT) { in->t[2 * i] = v[i].tv_sec; in->t[2 * i + 1] = v[i].tv_nsec; }
  s.done(0, 0);
  return s.leave();
}
static long sys_dup(int fd, int min, bool cloexec, const char* name)
{
  Sys s(name, fd);
  Ofd* o = get_ofd(fd);
  if (!o) { s.done(-1, EBADF); return s.leave(); }
  if (fire(f_dup_err)) { s.done(-1, EMFILE); return s.leave(); }
  int n = alloc_fd(o->id, cloexec, min);
  s.rec.ofd = o->id; s.rec.inode = o->inode;
  s.done(n, 0);
  return s.leave();
}
static long sys_dup3(int fd, int nfd, bool cloexec)
{
  Sys s("dup3", fd);
  Ofd* o = get_ofd(fd);
  if (!o || nfd < 0 || nfd > 100000) { s.done(-1, EBADF); return s.leave(); }
  if (fd == nfd) { s.done(nfd, 0); return s.leave(); }
  if (get_ofd(nfd)) drop_fd(nfd);
  if (nfd >= (int)K->fds.size()) K->fds.resize(nfd + 1);
  K->fds[nfd].ofd = o->id; K->fds[nfd].cloexec = cloexec; o->refs++;
  s.done(nfd, 0);
  return s.leave();
}
static long sys_simple(const char* name, int fd, int need_kind = -1)
{
  Sys s(name, fd);
  Ofd* o = get_ofd(fd);
  (void)need_kind;
  if (!o) { s.done(-1, EBADF); return s.leave(); }
  if (fire(f_eio)) { s.done(-1, EIO); return s.leave(); }
  s.done(0, 0);
  return s.leave();
}

} // namespace simcore

namespace sim {
using namespace simcore;

static void free_all()
{
  K->fds.clear(); K->ofds.clear(); K->inodes.clear(); K->names.clear(); K->sys.clear();
}
void kreset()
{
  InCore ic;
  free_all();
  K->fd_base = 3; K->umask = 022; K->disk = -1; K->fd_reuse = true; K->fd_top = 0;
}
void set_fd_base(int b) { K->fd_base = b; }
void set_fd_reuse(bool on) { K->fd_reuse = on; }
void mkfile(const char* path, const void* p, size_t n, unsigned mode)
{
  InCore ic;
  int ni = find_path(path);
  int ino;
  if (ni >= 0) ino = K->names[ni].inode;
  else { ino = new_inode(mode); Name nm; nm.path = path; nm.inode = ino; K->names.push_back(nm); }
  K->inodes[ino]->data.assign((const unsigned char*)p, (const unsigned char*)p + n);
  K->inodes[ino]->mode = mode;
}
bool exists(const char* path) { return find_path(path) >= 0; }
void rmfile(const char* path)
{
  InCore ic;
  int ni = find_path(path);
  if (ni >= 0) K->names.erase(K->names.begin() + ni);
}
int inode_of_path(const char* p) { int ni = find_path(p); return ni < 0 ? -1 : K->names[ni].inode; }
int inode_of_fd(int fd) { Ofd* o = get_ofd(fd); return o ? o->inode : -1; }
int ofd_of_fd(int fd) { Ofd* o = get_ofd(fd); return o ? o->id : -1; }
bool fd_open(int fd) { return get_ofd(fd) != 0; }
bool fd_cloexec(int fd) { return get_ofd(fd) && K->fds[fd].cloexec; }
int open_fd_count() { int n = 0; for (auto& f : K->fds) if (f.ofd >= 0) ++n; return n; }
int open_ofd_count() { int n = 0; for (auto* o : K->ofds) if (o->refs > 0) ++n; return n; }
int first_open_fd() { for (size_t i = 0; i < K->fds.size(); ++i) if (K->fds[i].ofd >= 0) return (int)i; return -1; }
int64_t fd_offset(int fd) { Ofd* o = get_ofd(fd); return o ? o->pos : -1; }
void fd_seek(int fd, int64_t p) { Ofd* o = get_ofd(fd); if (o) o->pos = p; }
int64_t inode_size(int i) { return file_size(K->inodes[i]); }
void mkhuge(const char* path, int64_t size)
{
  mkfile(path, "", 0); InCore ic;
  Huge* h = new (rmalloc(sizeof(Huge))) Huge(); h->size = h->limit = size;
  K->inodes[inode_of_path(path)]->huge = h;
  if (!g_segs) g_segs = new (rmalloc(sizeof(*g_segs))) Vec<HugeSeg>();
}
unsigned char huge_byte(int i, int64_t off) { return huge_byte_(K->inodes[i]->huge, off); }
char* huge_memory(size_t n)
{
  g_nomem_size = n;
  g_nomem = (char*)mmap((void*)0x400000000000ull, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (g_nomem == MAP_FAILED) fatal("no address space for huge buffers");
  return g_nomem;
}
size_t nhugesegs() { return g_segs->size(); }
const HugeSeg& hugeseg(size_t i) { return (*g_segs)[i]; }
const unsigned char* inode_data(int i) { return K->inodes[i]->data.data(); }
void inode_resize(int i, size_t n) { InCore ic; K->inodes[i]->data.resize(n); }
unsigned inode_mode(int i) { return K->inodes[i]->mode; }
void inode_times(int i, int64_t* a, int64_t* b, int64_t* c, int64_t* d) { Inode* n = K->inodes[i]; *a = n->t[0]; *b = n->t[1]; *c = n->t[2]; *d = n->t[3]; }
void (*outside_hook)(int inode);
void inode_set_times(int i, int64_t a, int64_t b, int64_t c, int64_t d) { Inode* n = K->inodes[i]; n->t[0] = a; n->t[1] = b; n->t[2] = c; n->t[3] = d; }
int open_flags_of_fd(int fd) { Ofd* o = get_ofd(fd); return o ? o->flags : -1; }
void set_umask(unsigned m) { K->umask = m; }
size_t nsys() { return K->sys.size(); }
const SysRec& sysrec(size_t i) { return K->sys[i]; }
int last_sys_errno(int tid) { return g_thr[tid].last_err; }
uint64_t syscalls_by(int tid) { return g_thr[tid].nsyscalls; }
int kernel_open(const char* path, int flags, unsigned mode)
{
  InCore ic;
  int err; int o = do_open(path, flags, mode, &err);
  if (o < 0) return -1;
  return alloc_fd(o, true, 0);
}
void kernel_close(int fd) { InCore ic; if (get_ofd(fd)) drop_fd(fd); }
void set_io_cap(int64_t n) { K->disk = n; }
int64_t io_cap() { return K->disk; }
} // namespace sim

using namespace simcore;
using namespace sim;

// The library only ever runs inside a run; descriptors of the simulator itself
// (worker pipes, evidence files) are handled through stdio, outside of runs.
extern "C" {
#define PASS(call) if (!g_on) return call
int __real_open(const char*, int, ...); int __real_close(int);
ssize_t __real_read(int, void*, size_t); ssize_t __real_write(int, const void*, size_t);

static unsigned mode_arg(int flags, va_list ap) { return (flags & (O_CREAT | __O_TMPFILE)) ? va_arg(ap, unsigned) : 0; }
int __wrap_open(const char* p, int f, ...) { va_list ap; va_start(ap, f); unsigned m = mode_arg(f, ap); va_end(ap); PASS(__real_open(p, f, m)); return (int)sys_open(p, f, m); }
int __wrap_open64(const char* p, int f, ...) { va_list ap; va_start(ap, f); unsigned m = mode_arg(f, ap); va_end(ap); PASS(__real_open(p, f, m)); return (int)sys_open(p, f, m); }
int __wrap_openat(int, const char* p, int f, ...) { va_list ap; va_start(ap, f); unsigned m = mode_arg(f, ap); va_end(ap); return (int)sys_open(p, f, m); }
int __wrap_openat64(int, const char* p, int f, ...) { va_list ap; va_start(ap, f); unsigned m = mode_arg(f, ap); va_end(ap); return (int)sys_open(p, f, m); }
int __wrap_creat(const char* p, unsigned m) { return (int)sys_open(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int __wrap_close(int fd) { PASS(__real_close(fd)); return (int)sys_close(fd); }
ssize_t __wrap_read(int fd, void* b, size_t n) { PASS(__real_read(fd, b, n)); iovec v = {b, n}; return sys_rw("read", fd, &v, 1, false, 0, false); }
ssize_t __wrap_write(int fd, const void* b, size_t n) { PASS(__real_write(fd, b, n)); iovec v = {(void*)b, n}; return sys_rw("write", fd, &v, 1, true, 0, false); }
ssize_t __wrap_readv(int fd, const iovec* v, int n) { return sys_rw("readv", fd, v, n, false, 0, false); }
ssize_t __wrap_writev(int fd, const iovec* v, int n) { return sys_rw("writev", fd, v, n, true, 0, false); }
ssize_t __wrap_pread(int fd, void* b, size_t n, off_t o) { iovec v = {b, n}; return sys_rw("pread", fd, &v, 1, false, o, true); }
ssize_t __wrap_pread64(int fd, void* b, size_t n, off_t o) { iovec v = {b, n}; return sys_rw("pread", fd, &v, 1, false, o, true); }
ssize_t __wrap_pwrite(int fd, const void* b, size_t n, off_t o) { iovec v = {(void*)b, n}; return sys_rw("pwrite", fd, &v, 1, true, o, true); }
ssize_t __wrap_pwrite64(int fd, const void* b, size_t n, off_t o) { iovec v = {(void*)b, n}; return sys_rw("pwrite", fd, &v, 1, true, o, true); }
ssize_t __wrap_preadv(int fd, const iovec* v, int n, off_t o) { return sys_rw("preadv", fd, v, n, false, o, true); }
ssize_t __wrap_preadv64(int fd, const iovec* v, int n, off_t o) { return sys_rw("preadv", fd, v, n, false, o, true); }
ssize_t __wrap_pwritev(int fd, const iovec* v, int n, off_t o) { return sys_rw("pwritev", fd, v, n, true, o, true); }
ssize_t __wrap_pwritev64(int fd, const iovec* v, int n, off_t o) { return sys_rw("pwritev", fd, v, n, true, o, true); }
ssize_t __wrap_preadv2(int fd, const iovec* v, int n, off_t o, int) { return sys_rw("preadv", fd, v, n, false, o == -1 ? 0 : o, o != -1); }
ssize_t __wrap_preadv64v2(int fd, const iovec* v, int n, off_t o, int) { return sys_rw("preadv", fd, v, n, false, o == -1 ? 0 : o, o != -1); }
ssize_t __wrap_pwritev2(int fd, const iovec* v, int n, off_t o, int) { return sys_rw("pwritev", fd, v, n, true, o == -1 ? 0 : o, o != -1); }
ssize_t __wrap_pwritev64v2(int fd, const iovec* v, int n, off_t o, int) { return sys_rw("pwritev", fd, v, n, true, o == -1 ? 0 : o, o != -1); }
off_t __wrap_lseek(int fd, off_t o, int w) { return sys_lseek(fd, o, w); }
off_t __wrap_lseek64(int fd, off_t o, int w) { return sys_lseek(fd, o, w); }
int __wrap_fstat(int fd, struct stat* st) { return (int)sys_fstat(fd, st); }
int __wrap_fstat64(int fd, struct stat* st) { return (int)sys_fstat(fd, st); }
int __wrap_stat(const char* p, struct stat* st) { return (int)sys_stat(p, st); }
int __wrap_lstat(const char* p, struct stat* st) { return (int)sys_stat(p, st); }
int __wrap_stat64(const char* p, struct stat* st) { return (int)sys_stat(p, st); }
int __wrap_lstat64(const char* p, struct stat* st) { return (int)sys_stat(p, st); }
int __wrap_fstatat(int fd, const char* p, struct stat* st, int fl) { return (fl & AT_EMPTY_PATH) && !*p ? (int)sys_fstat(fd, st) : (int)sys_stat(p, st); }
int __wrap_fstatat64(int fd, const char* p, struct stat* st, int fl) { return (fl & AT_EMPTY_PATH) && !*p ? (int)sys_fstat(fd, st) : (int)sys_stat(p, st); }
int __wrap_ftruncate(int fd, off_t n) { return (int)sys_ftruncate(fd, n); }
int __wrap_ftruncate64(int fd, off_t n) { return (int)sys_ftruncate(fd, n); }
int __wrap_fchmod(int fd, mode_t m) { return (int)sys_fchmod(fd, m); }
int __wrap_futimens(int fd, const timespec* ts) { return (int)sys_futimens(fd, ts); }
int __wrap_utimensat(int fd, const char*, const timespec* ts, int) { return (int)sys_futimens(fd, ts); }
int __wrap_futimes(int fd, const struct timeval* tv)
{
  timespec ts[2];
  for (int i = 0; tv && i < 2; ++i) { ts[i].tv_sec = tv[i].tv_sec; ts[i].tv_nsec = tv[i].tv_usec * 1000; }
  return (int)sys_futimens(fd, tv ? ts : 0);
}
int __wrap_dup(int fd) { return (int)sys_dup(fd, 0, false, "dup"); }
int __wrap_dup2(int fd, int n) { return (int)sys_dup3(fd, n, false); }
int __wrap_dup3(int fd, int n, int f) { return (int)sys_dup3(fd, n, (f & O_CLOEXEC) != 0); }
static int do_fcntl(int fd, int cmd, long arg)
{
  switch (cmd) {
    case F_DUPFD: return (int)sys_dup(fd, (int)arg, false, "fcntl_dup");
    case F_DUPFD_CLOEXEC: return (int)sys_dup(fd, (int)arg, true, "fcntl_dup");
    default: break;
  }
  Sys s("fcntl", fd);
  Ofd* o = get_ofd(fd);
  s.rec.off = cmd;
  if (!o) { s.done(-1, EBADF); return (int)s.leave(); }
  switch (cmd) {
    case F_GETFD: s.done(K->fds[fd].cloexec ? FD_CLOEXEC : 0, 0); break;
    case F_SETFD: K->fds[fd].cloexec = (arg & FD_CLOEXEC) != 0; s.done(0, 0); break;
    case F_GETFL: s.done(o->flags & ~O_CLOEXEC, 0); break;
    case F_SETFL: o->flags = (o->flags & O_ACCMODE) | ((int)arg & ~O_ACCMODE); s.done(0, 0); break;
    default: s.done(0, 0); break;
  }
  return (int)s.leave();
}
int __wrap_fcntl(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int __wrap_fcntl64(int fd, int cmd, ...) { va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap); return do_fcntl(fd, cmd, a); }
int __wrap_ioctl(int fd, unsigned long req, ...)
{
  va_list ap; va_start(ap, req); void* a = va_arg(ap, void*); va_end(ap);
  Sys s("ioctl", fd);
  Ofd* o = get_ofd(fd);
  if (!o) { s.done(-1, EBADF); return (int)s.leave(); }
  if (req == FIONBIO) { if (*(int*)a) o->flags |= O_NONBLOCK; else o->flags &= ~O_NONBLOCK; s.done(0, 0); return (int)s.leave(); }
  if (req == FIONREAD) { *(int*)a = net_available(o); s.done(0, 0); return (int)s.leave(); }
  s.done(-1, ENOTTY);
  return (int)s.leave();
}
int __wrap_fsync(int fd) { return (int)sys_simple("fsync", fd); }
int __wrap_fdatasync(int fd) { return (int)sys_simple("fdatasync", fd); }
int __wrap_posix_fallocate(int fd, off_t, off_t) { return sys_simple("posix_fallocate", fd) < 0 ? errno : 0; }
int __wrap_posix_fadvise(int, off_t, off_t, int) { return 0; }
int __wrap_posix_fadvise64(int, off_t, off_t, int) { return 0; }
int __wrap_syncfs(int fd) { return (int)sys_simple("syncfs", fd); }
int __wrap_unlink(const char* p)
{
  Sys s("unlink", -1);
  int ni = find_path(p);
  if (ni < 0) { s.done(-1, ENOENT); return (int)s.leave(); }
  K->names.erase(K->names.begin() + ni);
  s.done(0, 0);
  return (int)s.leave();
}
int __wrap_access(const char* p, int)
{
  Sys s("access", -1);
  if (find_path(p) < 0) s.done(-1, ENOENT); else s.done(0, 0);
  return (int)s.leave();
}
mode_t __wrap_umask(mode_t m) { mode_t o = K->umask; K->umask = m & 0777; return o; }
}
