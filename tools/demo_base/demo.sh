#!/bin/bash
# exit 0: the behaviour holds; non-zero: it is broken.  Run with cwd /repo after the build.
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d /tmp/demo.XXXXXX)" || exit 2
trap 'rm -rf "$W"' EXIT
OBJ=$(ls src/*.o | grep -v -E '/(gandalf|gandalf_debug|SphSim_wrap|Simulation_wrap|TestScaling|swig_.*|test.*|Test.*|gtest.*)\.o$')
g++ -w -DDEBUG1 -DGANDALF_DOUBLE_PRECISION -DGANDALF_GSL -Isrc/Headers -Isrc -I. -o "$W/gdrv" "$D/gdrv.cpp" $OBJ -lgsl -lgslcblas -lfftw3 -lm 2>"$W/link.log" || { tail -5 "$W/link.log"; exit 3; }
cd "$W" && GDRV="$W/gdrv" PYTHONDONTWRITEBYTECODE=1 timeout 250 python3 "$D/check.py"
