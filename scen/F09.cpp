// Opening: every combination of flags, permissions and file system state, racing openers.
#include "scen/fsync.hpp"
#include <asioext/open_args.hpp>
#include <boost/filesystem/path.hpp>
using namespace fsw;
typedef asioext::open_flags OF;
namespace {
const OF disp[] = {OF::none, OF::create_new, OF::create_always, OF::open_existing, OF::open_always, OF::truncate_existing};
bool has(OF f, OF b) { return (f & b) != OF::none; }
int ndisp(OF f) { int n = 0; for (int i = 1; i < 6; ++i) n += has(f, disp[i]); return n; }
OF random_flags(bool valid)
{
  OF f = OF::none;
  if (valid || wl_chance(60)) f = disp[wl(6)];
  else { int n = 2 + (int)wl(4); for (int i = 0; i < n; ++i) f = f | disp[wl(6)]; }
  OF acc = wl_chance(45) ? OF::access_read_write : wl_chance(50) ? OF::access_write : OF::access_read;
  if (has(f, OF::truncate_existing) || has(f, OF::create_always)) acc = acc | OF::access_write;
  f = f | acc;
  if (wl_chance(15)) f = f | OF::exclusive_read;
  if (wl_chance(15)) f = f | OF::exclusive_write;
  return f;
}
int want_acc(OF f) { return (f & OF::access_read_write) == OF::access_read_write ? O_RDWR : has(f, OF::access_write) ? O_WRONLY : O_RDONLY; }
struct Try {
  OF flags; unsigned perms; int form; const char* path; // request
  bool def_perms;
  asioext::unique_file_handle u; asioext::file* f = 0; // result
  error_code ec; bool ok = false, other = false; int fd = -1; size_t first = 0; uint64_t t0 = 0, t1 = 0; int tid = -1;
};
struct OW { asio::io_context* io; uint64_t n = 0, fails = 0, invalid = 0, eintr = 0, raced = 0; unsigned um; };
OW* w;
void attempt(Try& t)
{
  error_code ec; { Quiet q; if (t.form & 1) ec = random_stale(); t.first = nsys(); t.t0 = next_seq(); t.tid = self(); }
  asioext::open_args args = t.def_perms ? asioext::open_args(t.flags) : asioext::open_args(t.flags, (asioext::file_perms)t.perms);
  try {
    boost::filesystem::path p(t.path);
    switch (t.form) {
    case 0: t.u = asioext::open(t.path, args); break;
    case 1: t.u = asioext::open(t.path, args, ec); break;
    case 2: t.u = asioext::open(p, args); break;
    case 3: t.u = asioext::open(p, args, ec); break;
    case 4: t.f = new asioext::file(*w->io); t.f->open(t.path, args); break;
    case 5: t.f = new asioext::file(*w->io); t.f->open(t.path, args, ec); break;
    case 6: t.f = new asioext::file(w->io->get_executor(), p, args); break;
    case 7: t.f = new asioext::file(*w->io, t.path, args, ec); break;
    case 8: t.f = new asioext::file(*w->io); t.f->open(p, args); break;
    case 9: t.f = new asioext::file(*w->io); t.f->open(p, args, ec); break;
    }
  } catch (std::system_error& e) { ec = e.code(); } catch (...) { t.other = true; }
  t.ok = t.form < 4 ? t.u.is_open() : t.f && t.f->is_open();
  t.fd = t.form < 4 ? t.u.get().native_handle() : t.f ? t.f->native_handle() : -1;
  Quiet q; t.ec = ec; t.t1 = next_seq();
}
void drop(Try& t) { error_code ec; t.u.close(ec); if (t.f) { t.f->close(ec); delete t.f; t.f = 0; } }
// What one attempt did, given its system calls.
void judge(Try& t)
{
  int n = 0, err = 0, fd = -1; bool eintr_last = false, others = false; const SysRec* good = 0;
  bool valid = ndisp(t.flags) <= 1;
  for (size_t i = t.first; i < nsys(); ++i) {
    const SysRec& r = sysrec(i); if (r.tid != t.tid || r.seq < t.t0 || r.seq > t.t1) continue;
    if (strcmp(r.name, "open")) { if (strcmp(r.name, "fcntl")) others = true; continue; }
    ++n; eintr_last = false;
    if (r.ret < 0) { if (r.err == EINTR) eintr_last = true, ++w->eintr; else err = r.err; } else { fd = (int)r.ret; good = &r; }
    int fl = (int)r.ovl;
    if (!valid) continue;
    bool c = has(t.flags, OF::create_new) || has(t.flags, OF::create_always) || has(t.flags, OF::open_always);
    if (!(fl & O_CLOEXEC)) violation("cloexec", "a file was opened without O_CLOEXEC");
    if ((fl & O_ACCMODE) != want_acc(t.flags)) violation("access", "a file was opened with access mode %d instead of %d", fl & O_ACCMODE, want_acc(t.flags));
    if (fl & (O_APPEND | O_PATH | O_DIRECTORY | O_NONBLOCK)) violation("access", "a file was opened with the system's flags 0%o", fl);
    if (c && ((unsigned)r.len & 07777) != (t.def_perms ? 0666u : t.perms & 0777)) violation("permissions", "a file was created with permissions %o instead of %o", (unsigned)r.len, t.def_perms ? 0666u : t.perms);
  }
  (void)others;
  ++w->n; w->fails += !t.ok; w->invalid += !valid;
  ev("open", t.form, t.ok, t.ec.value(), (int64_t)t.flags);
  if (t.other) violation("exception-type", "opening threw something that is no system_error");
  if (t.ok != !t.ec) violation("state", "opening %s %s:%d but the object is %s", t.ec ? "failed with" : "succeeded,", t.ec.category().name(), t.ec.value(), t.ok ? "open" : "closed");
  if (!valid) {
    if (t.ok || !is_sys(t.ec, EINVAL)) violation("invalid-flags", "mutually exclusive flags: %s:%d instead of invalid_argument", t.ec.category().name(), t.ec.value());
    if (n) violation("invalid-flags", "open() was called for mutually exclusive flags");
    return;
  }
  if (t.ok) {
    if (!good || t.fd != fd) { violation("state", "the object has descriptor %d but the system opened %d", t.fd, fd); return; }
    if (!fd_open(t.fd) || !fd_cloexec(t.fd)) violation("cloexec", "the descriptor is not close-on-exec");
  } else {
    int due = err ? err : eintr_last ? -1 : 0;
    if (good) violation("leak", "opening failed with %s:%d although the system opened the file", t.ec.category().name(), t.ec.value());
    if (due == -1) violation("interrupted", "an interrupted open was not retried");
    else if (!is_sys(t.ec, due)) violation("wrong-error", "opening failed with %s:%d instead of %d", t.ec.category().name(), t.ec.value(), due);
  }
}
void faults()
{
  swarm_fault(f_eintr, 50); swarm_fault(f_open_err, 30); swarm_fault(f_emfile, 20); swarm_fault(f_enfile, 10);
}
void fill(Try& t, const char* path, bool valid)
{
  t.flags = random_flags(valid); t.def_perms = wl_chance(25); t.perms = wl(512); t.form = (int)wl(10); t.path = path;
}
}
// One opener at a time: what the file system looks like afterwards is known exactly.
SCENARIO(F09, single)
{
  int n;
  { Quiet q; w = raw_new<OW>(); race_detector(false); swarm_sched(false); set_fd_base(wl_chance(20) ? 0 : 3); n = 1 + (int)wl(12); faults(); swarm_fault(f_race_create, 30); }
  w->io = new asio::io_context;
  asioext::file* warm = new asioext::file(*w->io); // the service exists
  for (int i = 0; i < n; ++i) {
    Try t; bool existed; Bytes old; unsigned mode = 0, um; int ino0; bool nodir; size_t inodes_before;
    {
      Quiet q; um = wl(512); set_umask(um); nodir = wl_chance(5);
      fill(t, nodir ? "missing/file" : names[wl(3)], false);
      if (wl_chance(50) && !nodir) { Bytes b(wl(60)); for (auto& c : b) c = (uint8_t)wl(256); mkfile(t.path, b.data(), b.size(), wl(512)); }
      else if (wl_chance(60)) rmfile(t.path);
      existed = exists(t.path); ino0 = inode_of_path(t.path);
      if (existed) { old.assign(inode_data(ino0), inode_data(ino0) + inode_size(ino0)); mode = inode_mode(ino0); }
      inodes_before = (size_t)open_fd_count();
    }
    attempt(t);
    {
      Quiet q; judge(t);
      bool now = exists(t.path); int ino = inode_of_path(t.path); Bytes cur; if (now) cur.assign(inode_data(ino), inode_data(ino) + inode_size(ino));
      bool raced = !existed && now && cur.size() == 26 && inode_mode(ino) == 0600 && memcmp(cur.data(), "created by another process", 26) == 0;
      bool create = has(t.flags, OF::create_new) || has(t.flags, OF::create_always) || has(t.flags, OF::open_always);
      bool trunc = has(t.flags, OF::create_always) || has(t.flags, OF::truncate_existing);
      w->raced += raced;
      if (open_fd_count() != (int)inodes_before + t.ok) violation("leak", "opening %s but %d descriptors appeared", t.ok ? "succeeded" : "failed", open_fd_count() - (int)inodes_before);
      if (t.ok) {
        if (has(t.flags, OF::create_new) && (existed || raced)) violation("create-new", "create_new opened a file that existed");
        if (!existed && !create) violation("created", "a file was created without a flag that asks for it");
        if (!now) { violation("state", "the opened file does not exist"); }
        else {
          if (inode_of_fd(t.fd) != ino) violation("state", "another file was opened");
          if (trunc && !cur.empty()) violation("truncate", "the opened file was not truncated");
          if (!trunc && existed && cur != old) violation("truncate", "the contents of the opened file changed");
          if (fd_offset(t.fd) != 0) violation("position", "the position of the opened file is not 0");
          if (existed && (inode_mode(ino) != mode || ino != ino0)) violation("permissions", "opening an existing file changed its permissions");
          if (!existed && !raced && !trunc && inode_mode(ino) != ((t.def_perms ? 0666u : t.perms & 0777) & ~um)) violation("permissions", "the new file has mode %o", inode_mode(ino));
        }
      } else if (now != (existed || raced) || (existed && cur != old)) violation("failed-open", "a failed open changed the file system");
      else if (existed && ndisp(t.flags) <= 1 && has(t.flags, OF::create_new) && get_fault(f_open_err) + get_fault(f_emfile) + get_fault(f_enfile) == 0 && !is_sys(t.ec, EEXIST)) violation("wrong-error", "create_new of an existing file reports %d", t.ec.value());
      if (t.ok && t.f) { // open again
        size_t m = nsys(); error_code ec; Loud l; asioext::open_args a2(OF::create_always | OF::access_write);
        int fd0 = t.fd; t.f->open(names[0], a2, ec);
        if (ec != asio::error::already_open || nsys() != m || t.f->native_handle() != fd0 || !fd_open(fd0)) violation("already-open", "opening an open file reports %s:%d", ec.category().name(), ec.value());
      }
    }
    drop(t);
    Quiet q; if (open_fd_count()) violation("leak", "%d descriptors are open although everything was closed", open_fd_count());
    Bytes().swap(old);
  }
  delete warm; delete w->io;
  Quiet q; probe("opens", w->n); if (w->fails) probe("failed opens", w->fails); if (w->invalid) probe("invalid flags", w->invalid); if (w->eintr) probe("interrupted opens", w->eintr); if (w->raced) probe("files created meanwhile by another process", w->raced);
  if (w->fails) nontrivial();
}
// Several threads open the same few names at once.
namespace {
struct Thr { Try* t; int n; };
void opener(void* p) { Thr* x = (Thr*)p; for (int i = 0; i < x->n; ++i) attempt(x->t[i]); }
}
SCENARIO(F09, racing)
{
  int nt; Thr thr[4]; bool existed[2]; Bytes old[2]; int ino0[2]; unsigned um;
  {
    Quiet q; w = raw_new<OW>(); race_detector(true); swarm_sched(true); set_fd_base(wl_chance(20) ? 0 : 3); nt = 2 + (int)wl(3); faults(); set_umask(um = wl(512));
    for (int k = 0; k < 2; ++k) {
      existed[k] = wl_chance(35); if (existed[k]) { old[k].assign(1 + wl(40), 'o'); mkfile(names[k], old[k].data(), old[k].size()); }
      ino0[k] = inode_of_path(names[k]);
    }
  }
  w->io = new asio::io_context;
  { asioext::file warm(*w->io); }
  for (int i = 0; i < nt; ++i) {
    { Quiet q; thr[i].n = 1 + (int)wl(2); }
    thr[i].t = new Try[2];
    Quiet q; for (int k = 0; k < thr[i].n; ++k) { fill(thr[i].t[k], names[wl_chance(75) ? 0 : 1], true); if (wl_chance(40)) { thr[i].t[k].flags = OF::create_new | OF::access_read_write; } }
  }
  pthread_t pt[4];
  for (int i = 1; i < nt; ++i) pt[i] = go(opener, &thr[i]);
  opener(&thr[0]);
  for (int i = 1; i < nt; ++i) join(pt[i]);
  {
    Quiet q; int created[2] = {0, 0}, nopen = 0, fails = 0;
    for (int i = 0; i < nt; ++i) for (int k = 0; k < thr[i].n; ++k) {
      Try& t = thr[i].t[k]; judge(t); nopen += t.ok; fails += !t.ok;
      int f = t.path == names[0] ? 0 : 1;
      if (t.ok && has(t.flags, OF::create_new)) { created[f]++; if (existed[f]) violation("create-new", "create_new opened a file that existed"); }
      if (t.ok && inode_of_fd(t.fd) != inode_of_path(t.path)) violation("state", "another file was opened");
    }
    for (int f = 0; f < 2; ++f) {
      if (created[f] > 1) violation("create-new", "%d concurrent create_new opens of one file succeeded", created[f]);
      bool now = exists(names[f]), tr = false, cr = false;
      for (int i = 0; i < nt; ++i) for (int k = 0; k < thr[i].n; ++k) {
        Try& t = thr[i].t[k]; if (!t.ok || t.path != names[f]) continue;
        tr |= has(t.flags, OF::create_always) || has(t.flags, OF::truncate_existing);
        cr |= has(t.flags, OF::create_new) || has(t.flags, OF::create_always) || has(t.flags, OF::open_always);
      }
      if (now != (existed[f] || cr)) violation("created", "a file %s", now ? "was created although no open asked for it" : "is missing");
      if (existed[f]) { int i = ino0[f]; if (i != inode_of_path(names[f])) violation("state", "the file was replaced"); bool empty = inode_size(i) == 0; if (empty != tr) violation("truncate", "the file was %s", empty ? "truncated by no open that may" : "not truncated"); }
    }
    if (open_fd_count() != nopen) violation("leak", "%d opens succeeded but %d descriptors are open", nopen, open_fd_count());
    for (int f = 0; f < 2; ++f) Bytes().swap(old[f]);
    faults_enabled(false);
    probe("racing opens", w->n); if (w->fails) probe("failed opens", w->fails); if (w->eintr) probe("interrupted opens", w->eintr);
    if (nopen && fails) nontrivial();
  }
  for (int i = 0; i < nt; ++i) { for (int k = 0; k < thr[i].n; ++k) drop(thr[i].t[k]); delete[] thr[i].t; }
  delete w->io;
  Quiet q; if (open_fd_count()) violation("leak", "%d descriptors are open although everything was closed", open_fd_count());
}
