#!/bin/bash
# build.sh OUT : builds csim from the tree in $REPO into directory OUT
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1; R=${REPO:-/repo}
mkdir -p "$out"
INC="-I$here/${SHIM:-shim} -I$R -I$R/third_party -I$R/third_party/stb/include -I$R/third_party/half/include -I$R/third_party/dlpack/include -I$R/third_party/xxHash/include -I$R/third_party/utfcpp/include -I$R/third_party/json"
BASE="-std=c++20 -g1 -fno-pie -fno-strict-aliasing -w -I$here"
SUT="$BASE ${OPTX} -O1 -fsanitize=thread -DFMT_HEADER_ONLY $INC"
{
  for f in rt io; do echo "g++ $BASE -O2 -fno-builtin-malloc -c $here/$f.cpp -o $out/$f.o"; done
  echo "g++ $BASE -O1 $INC -c $here/main.cpp -o $out/main.o"
  for f in $WORKS; do echo "g++ $SUT -c $here/w_$f.cpp -o $out/w_$f.o"; done
  for f in $SRCS; do echo "g++ $SUT -c $R/mllm/$f.cpp -o $out/s_${f//\//_}.o"; done
} | xargs -P 8 -d '\n' -I{} sh -c '{}'
o=""
for f in $WORKS; do o="$o $out/w_$f.o"; done
for f in $SRCS; do o="$o $out/s_${f//\//_}.o"; done
g++ -no-pie $LDX -o "$out/csim" $out/main.o $o $out/rt.o $out/io.o $LIBS -ldl -lpthread
