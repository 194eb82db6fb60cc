#!/bin/bash
# Builds the explorers (C and C++ cleanup flavours) from /repo's working tree into /verif/build.
set -eo pipefail
HERE=$(cd "$(dirname "$0")/.." && pwd); REPO=${PTW_REPO:-/repo}; B=${PTW_BUILD:-$HERE/build}
export PTW_REPO=$REPO
CC=clang-18; CXX=clang++-18; OBJCOPY=objcopy
mkdir -p "$B"; exec 9>"$B/.lock"; flock 9
KEY=$( (cd "$REPO" && find . -maxdepth 1 -type f \( -name '*.[ch]' -o -name '*.cpp' \) -print0 | sort -z | xargs -0 sha256sum; cd "$HERE" && find sim harness tools -type f ! -name '*.pyc' -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
if [ -f "$B/key" ] && [ "$(cat "$B/key")" = "$KEY" ] && [ -x "$B/explore-c" ] && [ -x "$B/explore-cxx" ]; then exit 0; fi
rm -f "$B/key"
DEF="-U_FORTIFY_SOURCE -D__MINGW32__ -D__MINGW64__ -D_WIN32 -D_WIN64 -D__MSVCRT__ -D_AMD64_ -DMINGW_HAS_SECURE_API -DHAVE_CONFIG_H -DPTW32_ARCHAMD64 -DPTW32_BUILD_INLINED -DPTW32_STATIC_LIB -D_CONSOLE -D_MBCS -D__PtW32NoCatchWarn -D_GNU_SOURCE -isystem $HERE/sim -isystem $HERE/sim/winshim -iquote $REPO -I$HERE/harness -include windows.h"
INS="-O1 -g -fno-omit-frame-pointer -fno-inline-functions -fsanitize-coverage=trace-loads,trace-stores,inline-8bit-counters -w -fno-strict-aliasing"
OUTC="-O1 -g -fno-omit-frame-pointer -w -fno-strict-aliasing"
lib() { # name source flags out-ext compiler
  local n=$1 s=$2 e=$3 c=$4 f=$5
  $c -E $DEF $f "$REPO/$s" -o "$B/$n.raw.$e"
  python3 "$HERE/tools/rewrite.py" "$B/$n.raw.$e" "$B/$n.body.$e" lib "$REPO/"
  { echo '#pragma clang section bss="ptw_bss" data="ptw_data"'; cat "$B/$n.body.$e"; } > "$B/$n.$e"
  $c $INS ${f/-std=gnu++17/-std=gnu++17} -c "$B/$n.$e" -o "$B/$n.o0"
  $OBJCOPY --rename-section .ctors=ptw_ctors --rename-section .dtors=ptw_dtors --rename-section .init_array=ptw_ctors --rename-section .fini_array=ptw_dtors "$B/$n.o0" "$B/$n.o"
}
client() { # base flavour-def suffix
  local b=$1 d=$2 s=$3
  $CXX -E $DEF -std=gnu++17 $d "$HERE/harness/$b.cpp" -o "$B/$b-$s.raw.ii"
  python3 "$HERE/tools/rewrite.py" "$B/$b-$s.raw.ii" "$B/$b-$s.ii" client "$HERE/harness/"
  $CXX $OUTC -std=gnu++17 -c "$B/$b-$s.ii" -o "$B/$b-$s.o"
}
mcs() { # the internal queue lock exerciser: sees the library's private headers
  local d=$1 s=$2
  $CXX -E $DEF -std=gnu++17 $d "$HERE/harness/internal.cc" -o "$B/internal-$s.raw.ii"
  python3 "$HERE/tools/rewrite.py" "$B/internal-$s.raw.ii" "$B/internal-$s.ii" client "$HERE/harness/"
  $CXX $OUTC -std=gnu++17 -c "$B/internal-$s.ii" -o "$B/internal-$s.o"
}
P=()
run() { "$@" & P+=($!); }
run lib libc pthread-JMP.c i $CC "-fexceptions -fgnu89-inline -DPTW32_CLEANUP_C"
run lib libx pthread-EH.cpp ii $CXX "-std=gnu++17 -DPTW32_CLEANUP_CXX"
run $CXX -O2 -g -w -std=gnu++17 -U_FORTIFY_SOURCE -I"$HERE/sim/winshim" -I"$HERE/sim" -c "$HERE/sim/sim.cpp" -o "$B/sim.o"
run $CXX -O1 -g -w -std=gnu++17 -I"$HERE/sim" -I"$HERE/harness" -c "$HERE/harness/core.cpp" -o "$B/core-c.o"
run $CXX -O1 -g -w -std=gnu++17 -DFLAVOUR_CXX -I"$HERE/sim" -I"$HERE/harness" -c "$HERE/harness/core.cpp" -o "$B/core-x.o"
OBJC=(); OBJX=()
for f in "$HERE"/harness/fam_*.cpp; do b=$(basename "$f" .cpp); run client "$b" -DPTW32_CLEANUP_C c; run client "$b" -DPTW32_CLEANUP_CXX x; OBJC+=("$B/$b-c.o"); OBJX+=("$B/$b-x.o"); done
if [ -f "$HERE/harness/internal.cc" ]; then rm -f "$B/internal-c.o" "$B/internal-x.o"; mcs -DPTW32_CLEANUP_C c & IC=$!; mcs -DPTW32_CLEANUP_CXX x & IX=$!; fi
for p in "${P[@]}"; do wait "$p"; done
# the exerciser of internals is left out (only C25 depends on it) if the internals it uses have changed shape
wait "$IC" || { echo "internal-c does not compile"; rm -f "$B/internal-c.o"; }
wait "$IX" || { echo "internal-x does not compile"; rm -f "$B/internal-x.o"; }
lnk() { # suffix lib out objs
  local s=$1 l=$2 o=$3; shift 3
  if [ -f "$B/internal-$s.o" ] && $CXX -g -no-pie "$B/$l.o" "$B/sim.o" "$B/core-$s.o" "$@" "$B/internal-$s.o" -o "$B/$o"; then return 0; fi
  $CXX -g -no-pie "$B/$l.o" "$B/sim.o" "$B/core-$s.o" "$@" -o "$B/$o"
}
lnk c libc explore-c "${OBJC[@]}" & a=$!
lnk x libx explore-cxx "${OBJX[@]}"
wait $a
rm -f "$B"/*.i "$B"/*.ii "$B"/*.o0
echo "$KEY" > "$B/key"
