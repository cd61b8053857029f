#!/bin/bash
# tools/seed.sh ID..   confirms seeded bugs in a scratch copy and runs the property's check against them
# (NOCHECK=1: only confirm)
V=/verif; S=/tmp/seed; mkdir -p $S
export HOME=/root RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never
if [ ! -d $S/r ] || [ "$(git -C $S/r rev-parse HEAD)" != "$(git -C /repo rev-parse HEAD)" ]; then rm -rf $S/r; cp -a /repo $S/r; fi
b() { (cd $S/r && cargo build --workspace --offline -q && cargo test --workspace --no-run --offline -q && { [ -z "$PYB" ] || (cd bindings/python && cargo build --offline -q --features pyo3/extension-module); }) >$S/build.log 2>&1; }
for id in "$@"; do
  d=$V/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  PYB=; grep -q "bindings/python" $d/patch.diff $d/demo.sh && PYB=1
  rm -rf $S/demo; mkdir $S/demo; cp -a $d/. $S/demo/; rm -f $S/demo/*.diff $S/demo/meta.json
  git -C $S/r checkout -q -- .; b || { echo "$id: base build fails"; tail -5 $S/build.log; continue; }
  (cd $S/r && timeout 300 bash $S/demo/demo.sh) >$S/demo0.log 2>&1; r0=$?
  git -C $S/r apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  b || { echo "$id: patched build fails"; tail -15 $S/build.log; git -C $S/r checkout -q -- .; continue; }
  (cd $S/r && cargo test --workspace --no-fail-fast --offline -- --test-threads 8) >$S/test.log 2>&1
  fails=$(grep -E "^test [^r].* FAILED|^test r[^e].* FAILED" $S/test.log | sort -u | grep -vE "test_regexes|regex" | wc -l)
  (cd $S/r && timeout 300 bash $S/demo/demo.sh) >$S/demo1.log 2>&1; r1=$?
  echo -n "$id ($p): demo $r0/$r1 failing-tests $fails "
  if [ -z "$NOCHECK" ]; then
    VERIF_BUILD=$S/vb VERIF_REPO=$S/r timeout 900 python3 $V/check.py ${CHECK:-$p} quick >$S/check.log 2>&1; echo -n "check rc=$? "; grep VIOLATION $S/check.log | sed 's/replay=[^ ]*//'; grep -A3 undecided $S/check.log | head -5
  fi
  echo
  git -C $S/r checkout -q -- .
done
