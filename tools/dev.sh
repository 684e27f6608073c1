#!/bin/bash
# dev.sh FEATURE [harness substring] [symex args]: build the IR of one property and run it (for development).
f=$1; shift
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
CARGO_TARGET_DIR=/verif/build/engine cargo build --release --offline -q --manifest-path /verif/symex/Cargo.toml || exit 2
E=/verif/build/engine/release/symex
cd /verif/harness || exit 2
export CARGO_TARGET_DIR=/verif/build/dev
D=$CARGO_TARGET_DIR/debug/deps
rm -f $D/*vh*.bc $D/*vh*.o
touch src/lib.rs
cargo rustc --offline --lib --features ${f}${DEEP:+,thorough} --crate-type cdylib -- --cfg symex -C save-temps -C linker=/bin/true 2>/tmp/dev.log || { grep -E "^error" -A12 /tmp/dev.log | head -${L:-60}; exit 2; }
S=$(dirname $(ls ~/.rustup/toolchains/stable*/lib/rustlib/x86_64*/bin/opt))
BC=$(ls -t $D/*.lto.after-restriction.bc | head -1)
$S/opt -passes='globaldce,default<O1>' -S $BC -o /tmp/$f.ll || exit 2
rm -f $D/*vh*.bc $D/*vh*.o
Z="--z3 /opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib/libz3.so"
pat=${1:-h_}; shift
H=$($E $Z --ll /tmp/$f.ll --list | grep "$pat")
time $E --ll /tmp/$f.ll $Z --wall ${WALL:-60} --json /tmp/$f.json "$@" $H
python3 - /tmp/$f.json <<'P'
import json,sys
d=json.load(open(sys.argv[1]))
print({k:v for k,v in d.items() if k not in('functions','harnesses')}, len(d['functions']))
for n,h in d['harnesses'].items():
    print(n, 'complete' if h['complete'] else 'INCOMPLETE '+h['stopped'], {k:h[k] for k in('paths','ok','assume','insts','branches','unknown','bytes','cpu_ms','covers','known','aborts')})
    for v in h['violations']:
        print('   VIOL',v['kind'],v['msg'],v['input']); 
        for s in v['stack'][:9]: print('       ',s)
P
