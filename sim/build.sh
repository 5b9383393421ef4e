#!/bin/bash
# build.sh OUTDIR TARGET...   builds the simulators from /repo's working tree
set -e
OUT=$1; shift
REPO=${REPO:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT"
CC=gcc-11; CXX=g++-11
command -v $CC >/dev/null || { CC=gcc; CXX=g++; }
DEF="-DNDEBUG -march=native -fno-strict-aliasing -w"
INC="-I$REPO/include -I$REPO/include/wormhole -I$HERE"
WRAP=""
for f in malloc calloc realloc free posix_memalign aligned_alloc mmap munmap mlock malloc_usable_size; do WRAP="$WRAP -Wl,--wrap=$f"; done
WRAP2=""
for f in memcpy memmove memset memcmp pthread_mutex_{init,lock,trylock,unlock,destroy} pthread_spin_{init,lock,trylock,unlock} sleep usleep nanosleep sched_yield time clock_gettime sysconf \
  pthread_{self,create,join,detach,getname_np,setname_np,attr_init,attr_destroy,attr_setaffinity_np} sched_getaffinity sched_setaffinity \
  slab_{create,alloc_safe,alloc_unsafe,free_safe,free_unsafe,free_all,destroy,reserve_unsafe,get_nalloc}; do WRAP2="$WRAP2 -Wl,--wrap=$f"; done
pids=()
bg() { "$@" & pids+=($!); }
join() { for p in "${pids[@]}"; do wait "$p" || exit 1; done; pids=(); }
for T in "$@"; do case $T in
divasim)
  for f in kv lib wh wh_int; do bg $CC -std=gnu11 -O2 -g1 $DEF $INC -c "$REPO/include/wormhole/$f.c" -o "$OUT/f_$f.o"; done
  bg $CXX -std=gnu++17 -O1 -g1 $DEF $INC -c "$HERE/divasim.cpp" -o "$OUT/f_divasim.o"
  bg $CXX -std=gnu++17 -O2 -g1 $DEF $INC -c "$HERE/simmem.cpp" -o "$OUT/f_simmem.o"
  join
  $CXX -no-pie $WRAP "$OUT"/f_{divasim,simmem,kv,lib,wh,wh_int}.o -lpthread -o "$OUT/divasim"
  ;;
divasan)   # the filter with every memory access checked against what is allocated
  TS="-fsanitize=thread --param tsan-instrument-func-entry-exit=0 -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset -fno-builtin-memcmp"
  for f in kv lib wh wh_int; do bg $CC -std=gnu11 -O1 -g1 $DEF -DDIVA_SIM $TS $INC -c "$REPO/include/wormhole/$f.c" -o "$OUT/s_$f.o"; done
  bg $CXX -std=gnu++17 -O1 -g1 $DEF -DDIVA_SIM -DSIM_SAN $TS $INC -c "$HERE/divasim.cpp" -o "$OUT/s_divasim.o"
  for f in simmem simrt; do bg $CXX -std=gnu++17 -O2 -g1 $DEF $INC -c "$HERE/$f.cpp" -o "$OUT/s_$f.o"; done
  join
  $CXX -no-pie $WRAP $WRAP2 "$OUT"/s_{divasim,simmem,simrt,kv,lib,wh,wh_int}.o -lpthread -o "$OUT/divasan"
  ;;
whsim)
  TS="-fsanitize=thread --param tsan-instrument-func-entry-exit=0 -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset -fno-builtin-memcmp"
  for f in kv lib wh wh_int; do bg $CC -std=gnu11 -O1 -g1 $DEF -DDIVA_SIM $TS $INC -c "$REPO/include/wormhole/$f.c" -o "$OUT/t_$f.o"; done
  bg $CXX -std=gnu++17 -O1 -g1 $DEF -DDIVA_SIM $TS $INC -c "$HERE/divaglue.cpp" -o "$OUT/t_divaglue.o"
  for f in whsim simmem simrt; do bg $CXX -std=gnu++17 -O1 -g1 $DEF $INC -c "$HERE/$f.cpp" -o "$OUT/t_$f.o"; done
  join
  $CXX -no-pie $WRAP $WRAP2 "$OUT"/t_{whsim,divaglue,simmem,simrt,kv,lib,wh,wh_int}.o -lpthread -o "$OUT/whsim"
  ;;
esac; done
