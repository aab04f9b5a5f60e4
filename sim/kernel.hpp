#ifndef SIM_KERNEL_HPP
#define SIM_KERNEL_HPP
#include "internal.hpp"
#include <fcntl.h>
#include <sys/uio.h>
#include <sys/socket.h>
namespace simcore {
enum OfdKind { k_file, k_sock, k_epoll, k_event, k_timer };
// A sparse file of any size: the byte at x is huge_fill(x) below limit unless it was written, else 0.
struct Huge { int64_t size = 0, limit = 0; Map<int64_t, unsigned char> over; };
struct Inode { int id; unsigned mode; int64_t t[4] = {1000, 1, 2000, 2}; Vec<unsigned char> data; Huge* huge = 0; };
struct Name { Str path; int inode; };
struct SockState;
struct Ofd {
  int id = 0, kind = 0, refs = 0, inode = -1, flags = 0;
  bool closed = false, opened_cloexec = false;
  int64_t pos = 0;
  SockState* sock = 0;
  // eventfd / timerfd
  uint64_t counter = 0;
  uint64_t expiry = 0, token = 0;
  // epoll: watched descriptors
  struct Watch { int fd; int ofd; uint32_t events; uint64_t data; bool edge_armed; };
  Vec<Watch> watch;
  uint64_t vc[MAXTHREADS] = {};
};
struct FdEnt { int ofd = -1; bool cloexec = false; };
struct Kern {
  Vec<FdEnt> fds;
  Vec<Ofd*> ofds;
  Vec<Inode*> inodes;
  Vec<Name> names;
  Vec<sim::SysRec> sys;
  int fd_base = 3;
  bool fd_reuse = true;
  int fd_top = 0;
  unsigned umask = 022;
  int64_t disk = -1;
};
extern Kern* K;
int new_ofd(int kind);
int alloc_fd(int ofd, bool cloexec, int min);
Ofd* get_ofd(int fd);
void drop_fd(int fd);

// One simulated system call: yields on entry and exit, records its result.
struct Sys {
  const char* name; int fd; uint64_t entered, last_unlock; bool quiet;
  sim::SysRec rec; int64_t result; int error;
  Sys(const char* n, int f);
  int64_t done(int64_t ret, int err);
  long leave();
};
// network part
void net_ofd_closed(Ofd* o);
long net_rw(Sys& s, Ofd* o, const iovec* v, int n, bool wr);
int net_available(Ofd* o);
}
#endif
