#!/bin/bash
# Builds the abstract interpreter (LLVM 18 C++ API).  Offline; output in /verif/build (git-ignored).
set -e
cd "$(dirname "$0")"
mkdir -p build
CXX="clang++ -O2 -std=c++17 -fno-rtti -fno-exceptions -w $(llvm-config-18 --cppflags)"
pids=()
for f in core values memory prog interp accel models main; do
  if [ ! -f build/$f.o ] || [ -n "$(find engine -name '*.h' -newer build/$f.o)" ] || [ engine/$f.cpp -nt build/$f.o ]; then
    $CXX -c engine/$f.cpp -o build/$f.o.tmp && mv build/$f.o.tmp build/$f.o & pids+=($!)
  fi
done
for p in "${pids[@]}"; do wait $p; done
clang++ build/{core,values,memory,prog,interp,accel,models,main}.o -o build/absint.tmp $(llvm-config-18 --ldflags) -lLLVM-18
mv build/absint.tmp build/absint
echo "absint built"
