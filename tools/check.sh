#!/bin/bash
# check.sh PROP quick|thorough : builds the simulation of PROP from /repo's working tree
# and searches. exit 0 held / 1 violation (prints VIOLATION line) / 2 the check itself failed.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
P=$1; TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
unset VERIF_TIER
REPO=${REPO:-/repo}
B=${SIM_BUILD:-$V/build}
mkdir -p "$B" "$V/evidence" "$V/replays"
LOG=$B/build-$P.log
# Whatever the time stamps say, other sources mean another binary.
H=$( { cat "$V"/sim/* "$V"/scen/*.hpp "$V/scen/$P.cpp" "$V"/tools/sim.mk "$V"/tools/wraps.sh; echo "$REPO"
       find "$REPO/include" -type f -print0 | sort -z | xargs -0 sha1sum; } | sha1sum | cut -d' ' -f1)
if [ ! -x "$B/bin/$P" ] || [ "$(cat "$B/$P.hash" 2>/dev/null)" != "$H" ]; then
  rm -f "$B/obj/scen_$P.o" "$B/bin/$P" "$B/$P.hash"
  if ! make -s -f "$V/tools/sim.mk" -j8 REPO="$REPO" V="$V" B="$B" "$B/bin/$P" > "$LOG" 2>&1; then
    echo "build of the simulation failed:"; grep -m 20 -E 'error|Error|undefined' "$LOG" || tail -20 "$LOG"
    exit 2
  fi
  echo "$H" > "$B/$P.hash"
fi
case $TIER in quick) S=${SIM_SECS:-20};; *) S=${SIM_SECS:-600};; esac
exec "$B/bin/$P" --prop "$P" --tier "$TIER" --secs "$S" --evidence "$V/evidence/$P.json" \
  --replays "$V/replays" --known "$V/known_findings.txt"
