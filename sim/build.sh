#!/bin/bash
# build.sh OUTDIR: builds the simulated executables from the current
# /repo/Source and this directory, and the driver.  Nothing is written to /repo.
# simexec: shipped constants; simexec_small: FILE_BLOCK_SIZE and BIG_FILE_SIZE
# shrunk so that short files take the big-file path.
set -u
HERE=$(cd "$(dirname "$0")" && pwd)
SRC=${VSIM_SRC:-/repo/Source}
OUT=$1; shift
CXX=/usr/bin/clang++-18
mkdir -p "$OUT"
INST="-O1 -g1 -fsanitize=thread -mllvm -tsan-handle-cxx-exceptions=1 -fno-omit-frame-pointer -w -I$SRC -I$HERE"
PLAIN="-std=c++17 -O2 -g1 -w -I$HERE"
cmds="$OUT/cmds.txt"; : > "$cmds"
[ -f "$HERE/driver.cpp" ] && echo "$CXX $PLAIN $HERE/driver.cpp -o $OUT/driver -lpthread" >> "$cmds"
variant() { # name defs
  for f in $(cd "$SRC" && find . -name '*.cpp' | sort); do o=$(echo "${f#./}" | tr / _); echo "$CXX $INST -std=c++14 $2 -c $SRC/${f#./} -o $OUT/$1_lib_${o%.cpp}.o" >> "$cmds"; done
  for f in ops_s ops_i ops_l ops_d ops_b ops_h ops_u ops_f ops_c ops_y ops_k ops_w ops_z ops_req ops_box interp; do echo "$CXX $INST -std=c++17 $2 -c $HERE/$f.cpp -o $OUT/$1_h_$f.o" >> "$cmds"; done
}
variant a "-DNDEBUG"
for f in rt zyg; do echo "$CXX $PLAIN -c $HERE/$f.cpp -o $OUT/p_$f.o" >> "$cmds"; done
[ -n "${VSIM_SMALL:-}" ] && variant b "-DNDEBUG -DFILE_BLOCK_SIZE=16 -DBIG_FILE_SIZE=40"
[ -n "${VSIM_DEBUG:-}" ] && variant c ""
if ! xargs -P 8 -I{} sh -c '{} || { echo "FAILED: {}"; exit 255; }' < "$cmds" > "$OUT/build.log" 2>&1; then cat "$OUT/build.log"; exit 2; fi
link() { $CXX -no-pie -g $OUT/$1_lib_*.o $OUT/$1_h_*.o $OUT/p_rt.o $OUT/p_zyg.o -o $OUT/$2 -ldl -lpthread -rdynamic > "$OUT/link.log" 2>&1 || { cat "$OUT/link.log"; exit 2; }; }
link a simexec
[ -n "${VSIM_SMALL:-}" ] && link b simexec_small
[ -n "${VSIM_DEBUG:-}" ] && link c simexec_debug
exit 0
