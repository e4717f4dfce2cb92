#!/bin/bash
# compiles demo.cpp together with the sources below the working directory (/repo) and runs it
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
d=$(mktemp -d) || exit 2
trap '/bin/rm -r "$d"' EXIT
for f in $(find "$PWD/src" -name '*.cpp' | sort); do echo "#include \"$f\""; done > "$d/units.inc"
mpicxx -std=c++20 -DUSE_PETSC -include functional -fpermissive -w -O0 -fsanitize=address -I"$PWD/src" -I"$d" -I"$here" -I/usr/lib/petsc/include \
  "$here/demo.cpp" -o "$d/demo" -Wl,-rpath,/usr/lib/petsc/lib -L/usr/lib/petsc/lib -llapack -lblas -lsc -lp4est -lz -lpetsc || exit 2
cd "$d" && ASAN_OPTIONS=detect_leaks=0 TMPDIR="$d" timeout 200 ./demo
