#!/bin/bash
# prof.sh HARNESS [SECONDS]: fork profile of one harness (after a check.py run has built everything)
B=${VERIF_BUILD:-/verif/.build}; OPT=$(RUSTUP_TOOLCHAIN=stable rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin/opt
BC=$(ls $B/harness/release/deps/harness-*.rcgu.bc)
O=$(mktemp -d)
$OPT "-passes=internalize,globaldce,function(lower-invoke,simplifycfg,scalarizer<load-store>),globaldce" --internalize-public-api-list=$1 -strip-debug $BC -S -o $O/x.ll
$B/engine/release/symex --ll $O/x.ll --entry $1 --out $O/x.json --time ${2:-30} --prof $3 $4 2>&1 | head -${LINES_:-45}
rm -r $O
