#!/bin/bash
# build.sh SRC.cpp OUT INCDIR : compiles a replay program against /repo's current sources
. /opt/vp/env.sh 2>/dev/null
exec mpicxx -std=c++20 -DUSE_PETSC -include functional -w -O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=vptr \
  -I"${VC_REPO:-/repo}/src" -I"$(dirname "$0")/../vc" -I"$3" -I/usr/lib/petsc/include "$1" -o "$2" -Wl,-rpath,/usr/lib/petsc/lib -L/usr/lib/petsc/lib -llapack -lblas -lsc -lp4est -lz -lpetsc
