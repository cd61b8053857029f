#!/usr/bin/env python3
"""mkseed.py FILE: turn a description (python dict list) into seeded/<id>/ directories."""
import json, os, subprocess, sys, tempfile
V = "/verif"
src = {}
exec(open(sys.argv[1]).read(), src)
only = set(sys.argv[2:])
RUN = '''#!/bin/bash
# compiles demo.rs against the library that build.sh built and runs it; cwd is the repository
D="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export RUSTUP_TOOLCHAIN=stable HOME="${HOME:-/root}"
RL=$(ls -t target/debug/libtokengeex.rlib | head -1)
SJ=$(ls -t target/debug/deps/libserde_json-*.rlib | head -1)
rustc --edition 2021 -O -A warnings "$D/demo.rs" -o "$T/demo" --extern tokengeex="$RL" --extern serde_json="$SJ" -L dependency=target/debug/deps || exit 3
timeout 120 "$T/demo" "$T"
'''
CLI = '''#!/bin/bash
# drives the command line program that build.sh built; cwd is the repository
D="$(cd "$(dirname "$0")" && pwd)"
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
timeout 250 python3 "$D/demo.py" "$PWD/target/debug/tokengeex" "$T"
'''
for s in src["SEEDS"]:
    if only and s["id"] not in only:
        continue
    d = f"{V}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        subprocess.run(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.run(f"git -C /repo archive HEAD | tar x -C {t} && cd {t} && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x", shell=True, check=True)
        for f, a, b in s["edits"]:
            p = f"{t}/{f}"
            x = open(p).read()
            assert x.count(a) == 1, (s["id"], f, x.count(a), a)
            open(p, "w").write(x.replace(a, b))
        diff = subprocess.run(["git", "-C", t, "diff"], stdout=subprocess.PIPE, check=True).stdout
        open(d + "/patch.diff", "wb").write(diff)
    if "rs" in s:
        open(d + "/demo.rs", "w").write(s["rs"])
        open(d + "/demo.sh", "w").write(RUN)
    else:
        open(d + "/demo.py", "w").write(s["py"])
        open(d + "/demo.sh", "w").write(s.get("sh", CLI))
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
