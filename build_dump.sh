#!/bin/bash
# dev helper: build driver and dump
set -e
mkdir -p /tmp/md
SR=$(rustc +nightly --print sysroot)
if [ ! -x /tmp/md/mirdump ] || [ /verif/driver/mirdump.rs -nt /tmp/md/mirdump ]; then rustc +nightly --edition 2021 -O /verif/driver/mirdump.rs -o /tmp/md/mirdump; fi
R=${1:-/repo}; O=${2:-/tmp/md/o.json}
cd $R; T=$(mktemp -d /tmp/mdt.XXXX)
LD_LIBRARY_PATH=$SR/lib MIRDUMP_OUT=$O RUSTC_WORKSPACE_WRAPPER=/tmp/md/mirdump CARGO_TARGET_DIR=$T cargo +nightly check --lib --offline 2>&1 | tail -3
rm -rf "$T"
ls -la $O
