#!/bin/bash
# Builds the library with OpenMP from /repo's sources and runs demo.c against it in a scratch directory.
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
INC="-I/repo/MDLIB/include -I/repo/MDLIB -I/usr/include/suitesparse -I/usr/include/hdf5/serial"
SRC=$(python3 -c "
import re
m=re.search(r'add_library\s*\(\s*mdoodz\s+\w+([^)]*)\)',open('/repo/MDLIB/CMakeLists.txt').read())
print(' '.join(s for s in m.group(1).split() if s.endswith('.c')))")
cd "$W" || exit 3
for s in $SRC; do [ -f /repo/MDLIB/$s ] && echo $s; done | xargs -P8 -I{} sh -c "gcc -w -std=gnu11 -O1 -fPIC -fopenmp -D_OMP_ -DNPARTITION $INC -c /repo/MDLIB/{} -o \$(basename {} .c).o" || exit 3
gcc -w -std=gnu11 -g -O1 -fopenmp $INC "$D/demo.c" *.o -o demo -rdynamic -lamd -lccolamd -lcolamd -lcholmod -lbtf -lcxsparse -lumfpack -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5 -lm -ldl -lpthread || exit 3
cp "$D"/*.txt "$W" 2>/dev/null
timeout 200 ./demo
