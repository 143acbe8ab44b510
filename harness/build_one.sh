#!/bin/bash
# developer helper: build_one.sh <out> <src...>   (compiles for the 4 groups if -g is given first)
set -e
B=/verif/build/cfg
FL="-std=c++17 -O1 -g0 -DNDEBUG -fsanitize=address -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -ftrivial-auto-var-init=pattern -w -fmax-errors=2 -I$B/include -I/repo/src -I/usr/include/eigen3 -I/verif/harness $XFLAGS"
out=$1; shift
pids=()
objs=()
for s in "$@"; do
  o=/tmp/dev_$(basename $out)_$(echo $s|tr ':/' '__').o
  objs+=($o)
  f=${s%%:*}; g=${s##*:}; [ "$g" = "$s" ] && g=-1
  g++ $FL -DVP_GROUP=$g -c $f -o $o & pids+=($!)
done
for p in ${pids[@]}; do wait $p; done
[ -f /tmp/vp_main.o ] && [ /tmp/vp_main.o -nt vp_main.cpp ] || g++ $FL -c vp_main.cpp -o /tmp/vp_main.o
g++ -fsanitize=address -o $out ${objs[@]} /tmp/vp_main.o $XLINK
