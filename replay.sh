#!/bin/bash
# usage: replay.sh FILE   -- rebuilds from /repo's working tree and replays a recorded violation
set -u
here=$(cd "$(dirname "$0")" && pwd)
f=$(readlink -f "$1"); id=$(awk '$1=="prop"{print $2;exit}' "$f")
export SIM_CLK=$here/sim/clk.py
export DREAM_REPO=${DREAM_REPO:-/repo} VERIF_BUILD=${VERIF_BUILD:-$here/.build}
B=$VERIF_BUILD
"$here/sim/build.sh" cpu || exit 3
set -- $("$B/sim_oct" --modules "$id"); host=$1; kind=$2; shift 2
pre=oct_; [ "$host" = sim_py ] && pre=py_
t=(); for m in "$@"; do t+=("$pre$m"); done
"$here/sim/build.sh" "$kind" "${t[@]}" || exit 3
exec "$B/$host" --build "$B/mods_$kind" --replay "$f"
