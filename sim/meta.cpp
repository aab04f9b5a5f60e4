// Texts for the evidence files.
#include "internal.hpp"
extern const char* const sim_components_real =
  "asio-extensions as in /repo (header-only build), standalone Asio 1.28.1 (io_context, executors, strands, thread_pool, timers), "
  "libstdc++, glibc string functions";
extern const char* const sim_components_stub =
  "operating system calls (files, descriptors, sockets, resolver), pthread mutexes/condition variables/thread switching, clocks, "
  "operator new/malloc: all replaced by the simulator in this process";
const char* sim_rule(const char*)
{
  return "one evaluation is one seeded run: workload, schedule, delays and faults are all drawn from the seed; a run counts as non-trivial "
         "when the scenario's own condition held (it got to the behaviour the property is about, e.g. a completed operation, a cancel that "
         "raced with one, an injected fault that was survived); distinct runs are counted by the hash of their complete event trace";
}
