#!/bin/bash
# builds demo.c against the object files of the built tree and runs it in a scratch folder
here=$(cd "$(dirname "$0")" && pwd); top=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$t"' EXIT
B=$top/_build/main/sgrid
I="-I$B/src/main/main -I/usr/include/suitesparse"
for d in "$B"/src/*/* "$B"/src/physics/ScalarOnKerr/*/; do [ -d "$d" ] && I="$I -I$d"; done
D="-DNONICOFUNCS -DUMPFACK -DUMFPACK -DSUITESPARSEQR -DLAPACK -DCBLAS -DFFTW3 -DGSL -DTOPLEVEL_Pragmas -DLEVEL6_Pragmas"
i=0
for o in $(find "$B/lib/obj" -name '*.o'); do i=$((i+1)); objcopy --redefine-sym main=sgrid_c_main "$o" "$t/$i.o" || exit 9; done
gcc -w -fopenmp -O1 $D $I -c "$here/demo.c" -o "$t/demo.obj" || exit 9
g++ -fopenmp -Wl,--allow-multiple-definition "$t/demo.obj" "$t"/*.o -lspqr -lcholmod -lumfpack -lamd -lfftw3 -llapack -lblas -lgsl -lgslcblas -lm -o "$t/demo" || exit 9
cd "$t" && OMP_NUM_THREADS=${OMP_NUM_THREADS:-1} timeout 120 ./demo > out.txt 2>&1; r=$?
tail -5 out.txt
exit $r
