#!/bin/bash
# Line coverage of /repo/src by one execution of every catalogue call
# (development aid; not registered). Usage: tools/cover.sh [N]
set -e
D=/tmp/simcov
mkdir -p $D
B=$(ls -d /root/.rustup/toolchains/stable-*/lib/rustlib/*/bin)
cd "$(dirname "$0")/../sim"
RUSTFLAGS="-C instrument-coverage --cfg sim_cov" CARGO_TARGET_DIR=$D/t cargo build --release --offline -q 2>/dev/null
rm -f $D/*.profraw
LLVM_PROFILE_FILE=$D/p-%4m.profraw $D/t/release/sim dump 1 ${1:-6} >/dev/null
$B/llvm-profdata merge -o $D/p.profdata $D/*.profraw
$B/llvm-cov report $D/t/release/sim -instr-profile=$D/p.profdata /repo/src
$B/llvm-cov show $D/t/release/sim -instr-profile=$D/p.profdata /repo/src --show-instantiations=false > $D/show.txt
echo "uncovered lines: $D/show.txt"
