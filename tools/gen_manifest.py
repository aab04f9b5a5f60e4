#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks (those whose scenario unit exists)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: seeded search over %s"
CHECKS = {
 "F01": ("schedules of client, io_context and pool threads with EINTR, short transfers, I/O errors and stalls; history checked per handler",
         "Sampled, not exhaustive. Linux/POSIX implementation, standalone Asio, thread_pool_file_service, header-only build."),
 "F02": ("short transfers, EINTR, I/O errors and end-of-file positions of synchronous and asynchronous transfers against a reference file and buffer model",
         "Sampled. POSIX implementation only; the kernel side is the simulator's file model."),
 "F03": ("schedules of cancel() against queued and running operations; history checked against the begin/end order of calls",
         "Sampled. An operation counts as begun from the last lock its pool thread released before its system call."),
 "F04": ("schedules and sequences of move constructions and assignments with operations pending",
         "Sampled; moves also between io_contexts with services of different pool sizes."),
 "F05": ("operation histories on files, unique handles and plain handles with close errors; every descriptor is tracked by the simulated kernel",
         "Sampled histories against an ownership model."),
 "F06": ("schedules in which files and io_contexts are destroyed at arbitrary points; use-after-free, leaks, deadlocks and lost handlers are detected by the simulator",
         "Sampled. One known finding (a strand service younger than the file service)."),
 "F07": ("schedules of close, destruction and move assignment with descriptor numbers being reused",
         "Sampled. One known finding (operation already dequeued when the file is closed)."),
 "F08": ("short transfers, EINTR, errors, full disks and concurrent size changes of whole-file transfers",
         "Sampled."),
 "F09": ("open histories with EINTR, racing creators, descriptor exhaustion and open errors against a reference file system",
         "Sampled."),
 "F10": ("failures injected into every system call of both overload styles with stale error codes, compared with the error the recorded system calls returned",
         "Sampled."),
 "F11": ("metadata operation histories with failing calls against a reference inode model",
         "Sampled."),
 "F12": ("memory-access-level schedules of several threads with a happens-before race detector",
         "Sampled. The race detector sees every access of the instrumented library and of the inlined Asio code."),
 "N01": ("stream segmentations, delays, truncations, transport errors and proxy replies of SOCKS5 exchanges against a reference proxy",
         "Sampled; simulated stream instead of TCP."),
 "N02": ("stream segmentations, delays, truncations, transport errors and proxy replies of SOCKS4a exchanges against a reference proxy",
         "Sampled; simulated stream instead of TCP."),
 "N03": ("resolver results, connection outcomes, delays and socket errors with real Asio sockets on a simulated network",
         "Sampled; the operating system's socket, epoll and resolver interface is simulated."),
 "C01": ("schedules of composed operations with several contexts, custom executors and allocators",
         "Sampled."),
 "C02": ("handler store/move/reset/invoke histories with failing allocations and throwing moves",
         "Sampled histories."),
 "C03": ("memory-access-level schedules of token queries against cancel, move and destruction of the source",
         "Sampled."),
 "C04": ("operation histories on linear_buffer with failing allocations against a reference vector",
         "Sampled histories; memory checked on every access."),
 "C05": ("stream segmentations into dynamic buffers and adapter histories with failing allocations against a reference model",
         "Sampled histories."),
 "C06": ("segmentations, failures and completion orders of the underlying stream of a buffered_stream",
         "Sampled."),
}
NA = {
 "U01": "a pure function of its input: parsing has no schedule, clock, fault or I/O for a simulator to decide",
 "T01": "a pure function of its input: time conversions have no schedule, clock, fault or I/O for a simulator to decide",
 "W01": "Windows-only code, which cannot be built or run in this sandbox, and a pure function of its input",
}
m = {"version": 1, "setup_cmd": "make -s -f tools/sim.mk -j8 core", "checks": [], "not_applicable": []}
for p in sorted(CHECKS):
    if not os.path.exists(os.path.join(V, "scen", p + ".cpp")): continue
    what, note = CHECKS[p]
    m["checks"].append({"property": p, "quick_cmd": "tools/check.sh %s quick" % p, "thorough_cmd": "tools/check.sh %s thorough" % p,
                        "evidence_file": "evidence/%s.json" % p, "technique": T % what, "level": "exploration", "level_note": note})
for p in sorted(set(CHECKS) | set(NA)):
    if p in NA: m["not_applicable"].append({"property": p, "reason": NA[p]})
    elif not os.path.exists(os.path.join(V, "scen", p + ".cpp")):
        m["not_applicable"].append({"property": p, "reason": "its simulation is not built yet"})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(m["checks"]), "checks")
