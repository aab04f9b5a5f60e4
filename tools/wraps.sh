#!/bin/bash
# Names the simulated kernel wraps, as linker options.
cd "$(dirname "$0")/../sim" || exit 1
for f in malloc free calloc realloc aligned_alloc posix_memalign memcpy memmove memset syscall \
  $(grep -ohE '__wrap_[a-z0-9_]+\(' kernel.cpp net.cpp | sed 's/__wrap_//; s/(//' | sort -u); do
  printf -- '-Wl,--wrap=%s ' "$f"
done
