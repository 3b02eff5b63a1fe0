#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
# Builds the simulator and the instrumented modules from /repo's working tree and
# searches seeded schedules and fault sequences for a violation of one property.
# exit 0: the property held on everything explored; 1: violation (line printed).
set -u
here=$(cd "$(dirname "$0")" && pwd)
id=$1; tier=${2:-${VERIF_TIER:-quick}}
export DREAM_REPO=${DREAM_REPO:-/repo}
export SIM_CLK=$here/sim/clk.py
export VERIF_BUILD=${VERIF_BUILD:-$here/.build}
seed=${VERIF_SEED:-1}
B=$VERIF_BUILD
mkdir -p "$B" "$here/evidence" "$here/out"
broken() { echo "$id: $1"; exit "${2:-1}"; }
exec 9>"$B/lock"; flock 9
"$here/sim/build.sh" cpu || broken "the simulator does not build" 3
info=$("$B/sim_oct" --modules "$id") || broken "unknown property" 3
set -- $info
host=$1; kind=$2; shift 2
pre=oct_; [ "$host" = sim_py ] && pre=py_; [ "$host" = sim_mex ] && pre=mex_; [ "$host" = sim_jl ] && pre=jl_
t=(); for m in "$@"; do t+=("$pre$m"); done
if ! "$here/sim/build.sh" "$kind" "${t[@]}"; then
  broken "the toolbox does not build" 3
fi
flock -u 9
case $tier in
  quick) secs=${VERIF_SECS:-25};;
  *) secs=${VERIF_SECS:-480};;
esac
"$B/$host" --build "$B/mods_$kind" --prop "$id" --tier "$tier" --seed "$seed" --secs "$secs" --workers "${VERIF_WORKERS:-8}" \
   --out "$here/evidence/$id.json" --replays "$here/out" --known "$here/KNOWN_FINDINGS.txt"
exit $?
