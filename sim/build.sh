#!/bin/bash
# usage: build.sh MODS_DIR_KIND target...     (kind: cpu | cl | mex | jl)
# Builds the simulator (driver) and the requested instrumented modules from the
# working tree of the repository under test.
set -u
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME=${HOME:-/root} LANG=C.UTF-8 CC=gcc CXX=g++
unset CFLAGS CXXFLAGS CPPFLAGS LDFLAGS
here=$(cd "$(dirname "$0")" && pwd)
root=$(dirname "$here")
REPO=${DREAM_REPO:-/repo}
B=${VERIF_BUILD:-$root/.build}
mkdir -p "$B/obj"
kind=$1; shift
# ---------------------------------------------------------------- driver
CXXF="-O2 -g -fPIC -w"; CXX17="-std=gnu++17 -fno-threadsafe-statics"
OCTI=$(mkoctfile -p INCFLAGS)
PYI=$(python3-config --includes 2>/dev/null || echo "-I/usr/include/python3.12")
need() { # obj src flags
  local o="$B/obj/$1.o" s="$here/$2"
  if [ ! -f "$o" ] || [ -n "$(find "$here" -newer "$o" \( -name '*.h' -o -path "$s" \) | head -1)" ]; then
    ( g++ $CXXF ${3:-} $( [ "${2##*.}" = cc ] && echo $CXX17 ) -c "$s" -o "$o.tmp" && mv "$o.tmp" "$o" ) || { echo "build of $2 failed" >&2; touch "$B/obj/FAILED"; } 
  fi
}
rm -f "$B/obj/FAILED"
for f in core models props driver clstub; do
  [ -f "$here/$f.cc" ] && need $f $f.cc "" &
done
need host_oct host_oct.cc "$OCTI" &
need host_mex host_mex.cc "-I$here/mex" &
need host_jl host_jl.cc "-I$here/julia/include" &
need clmath clmath.c "-xc -std=gnu11 -ffp-contract=off" &
[ -f "$here/host_py.cc" ] && need host_py host_py.cc "$PYI -I$(python3 -c 'import numpy;print(numpy.get_include())')" &
wait
[ -f "$B/obj/FAILED" ] && exit 2
OBJS=""
for f in core models props driver clstub clmath; do [ -f "$B/obj/$f.o" ] && OBJS="$OBJS $B/obj/$f.o"; done
link() { # exe host libs
  local e="$B/$1"
  if [ ! -f "$e" ] || [ -n "$(find $OBJS "$B/obj/$2.o" -newer "$e" | head -1)" ]; then
    g++ -g -rdynamic -o "$e.tmp" $OBJS "$B/obj/$2.o" $3 -lfftw3 -ldl -lpthread && mv "$e.tmp" "$e" || exit 2
  fi
}
link sim_oct host_oct "-L$(mkoctfile -p OCTLIBDIR) -Wl,-rpath,$(mkoctfile -p OCTLIBDIR) -loctinterp -loctave" || exit 2
link sim_mex host_mex "-Wl,--no-as-needed" || exit 2
link sim_jl host_jl "-Wl,--no-as-needed" || exit 2
[ -f "$B/obj/host_py.o" ] && { link sim_py host_py "-lpython3.12 -Wl,--no-as-needed" || exit 2; }
# ---------------------------------------------------------------- modules
[ $# = 0 ] && exit 0
M="$B/mods_$kind"
CL=OFF; [ "$kind" = cl ] && CL=ON
HOSTS="-DBUILD_OCT=ON -DBUILD_PYTHON=ON -DBUILD_MEX=OFF"
[ "$kind" = mex ] && HOSTS="-DBUILD_OCT=OFF -DBUILD_PYTHON=OFF -DBUILD_MEX=ON -DCMAKE_MODULE_PATH=$here/mex"
JULIA="-DBUILD_JULIA=OFF"
[ "$kind" = jl ] && HOSTS="-DBUILD_OCT=OFF -DBUILD_PYTHON=OFF -DBUILD_MEX=OFF" && JULIA="-DBUILD_JULIA=ON -DCMAKE_MODULE_PATH=$here/julia -DCXXWRAP_PREFIX=$here/julia"
if [ ! -f "$M/build.ninja" ]; then
  cmake -S "$REPO" -B "$M" -G Ninja -DCMAKE_C_COMPILER=gcc -DCMAKE_CXX_COMPILER=g++ -DCMAKE_BUILD_TYPE=RelWithDebInfo \
    -DCMAKE_CXX_FLAGS=-Wno-error -DPython_EXECUTABLE=/usr/local/bin/python3 $HOSTS -DBUILD_TESTS=OFF \
    $JULIA -DBUILD_USERMAN=OFF -DUSE_OPENCL=$CL -DCMAKE_CXX_COMPILER_LAUNCHER="$here/launch.sh" \
    -DCMAKE_CXX_FLAGS_RELWITHDEBINFO="-O1 -g1 -DNDEBUG" >"$B/cmake_$kind.log" 2>&1 || { echo "cmake failed"; tail -30 "$B/cmake_$kind.log"; exit 2; }
fi
if [ "$kind" = cl ]; then   # the kernels become headers when cmake runs, and native code for the simulated device
  sum=$(cat "$REPO"/opencl/*.cl | md5sum)
  if [ "$sum" != "$(cat "$M/.clsum" 2>/dev/null)" ]; then
    cmake "$M" >"$B/cmake_$kind.log" 2>&1 || { echo "cmake failed"; exit 2; }
    rm -rf "$B/clk"; python3 "$here/clk.py" "$B/clk" "$REPO"/opencl/*.cl || { echo "the kernels cannot be prepared"; exit 2; }
    echo "$sum" > "$M/.clsum"
  fi
fi
ninja -C "$M" "$@" >"$B/ninja_$kind.log" 2>&1 || { echo "module build failed"; tail -30 "$B/ninja_$kind.log"; exit 2; }
exit 0
