#!/bin/bash
# compiler launcher: instrument compile steps with memory-access callbacks (the
# callbacks are defined by the simulator, not by a sanitizer runtime), and route
# memcpy/memmove/memset of the code under test through the simulator.
out=; compile=0; args=()
prev=
for a in "$@"; do
  case "$a" in
    -flto*|-fno-fat-lto-objects) ;;
    -c) compile=1; args+=("$a") ;;
    *) args+=("$a") ;;
  esac
  [ "$prev" = "-o" ] && out="$a"
  prev="$a"
done
if [ $compile = 1 ]; then
  "${args[@]}" -fsanitize=thread || exit $?
  case "$out" in *.o) objcopy --redefine-sym memcpy=sim_memcpy --redefine-sym memmove=sim_memmove --redefine-sym memset=sim_memset "$out" || exit 1;; esac
  exit 0
fi
exec "${args[@]}"
