#!/bin/bash
# build.sh OUTDIR HARNESS CFG  -> OUTDIR/HARNESS.CFG : compiles /repo's working tree with the simulator
set -e
out=$1; h=$2; cfg=$3
V=$(cd "$(dirname "$0")" && pwd); R=${REPO:-/repo}
mkdir -p "$out/$h.$cfg.d"; o="$out/$h.$cfg.d"
COMMON="-std=c++14 -O1 -g1 -fno-pie -fno-omit-frame-pointer -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0"
LIB="-fsanitize=thread -DNDEBUG -DHAVE_CONFIG_H -include $R/src/stdio-gets-hack.h -I$V/cfg/$cfg -I$R/src -I/usr/include/tcl8.6 -w"
pids=()
cc() { g++ $COMMON "$@" & pids+=($!); }
for f in core fs main; do cc -c "$V/sim/$f.cpp" -o "$o/$f.o"; done
for s in "$R"/src/*.cpp; do
  b=$(basename "$s" .cpp)
  if [ "$b" = ScriptInterpTCL ] && [ "$h" != h_script ]; then continue; fi
  cc $LIB -c "$s" -o "$o/repo_$b.o"
done
cc $LIB -c "$V/harness/$h.cpp" -o "$o/harness.o"
for p in "${pids[@]}"; do wait "$p"; done
W=""
for f in malloc calloc realloc free strdup strndup memcpy memmove memset memcmp memchr memmem strlen strcpy strncpy pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock exit _exit; do W="$W -Wl,--wrap=$f"; done
L=""
if [ "$h" = h_script ]; then
  L="-ltcl8.6"
  for f in SetObjResult SetVar2Ex ObjSetVar2 EvalObjEx EvalObjv ListObjAppendElement ListObjAppendList ListObjReplace AppendToObj AppendObjToObj SetStringObj; do W="$W -Wl,--wrap=Tcl_$f"; done
fi
g++ -no-pie -rdynamic $W "$o"/*.o -o "$out/$h.$cfg" $L -lpthread -ldl
rm -rf "$out/$h.$cfg.d"
