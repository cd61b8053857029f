#!/usr/bin/env python3
"""tools/refactor.py SET.py [ids..]: behaviour-preserving edits of a scratch copy of /repo; what the proofs say.
HARNESS=1 also runs the whole check."""
import importlib.util, json, os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = "/verif"; S = "/tmp/ref"
os.makedirs(S, exist_ok=True)
env = dict(os.environ, HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
sp = importlib.util.spec_from_file_location("s", sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
want = sys.argv[2:]
props = json.load(open(V + "/props.json"))
only = os.environ.get("PROPS", "").split(",") if os.environ.get("PROPS") else None
srcs = {}
for f in os.listdir(V + "/contracts"):
    if f.endswith(".vc"):
        x = re.search(r"^@module (\S+) (\S+)", open(f"{V}/contracts/{f}").read(), re.M)
        srcs[x.group(1)] = x.group(2)
def relevant(file):
    r = [p for p, c in props.items() if any(srcs.get(t.split("::")[0], "").endswith(file) for t in c.get("targets", []))]
    return [p for p in r if not only or p in only]
NW = int(os.environ.get("W", "2"))
DRIVER = r'''
import sys, json, os
sys.path.insert(0, "/verif"); import check
pid = sys.argv[1]
v = check.Verifier(pid, check.PROPS[pid], "quick"); t = __import__("time").time()
r = v.decide()
if r["all_undecided"]: print("UNDECIDED-ALL", r["all_undecided"][:400])
for k, w in r["undecided"].items(): print("UNDECIDED", k, w[:400])
for f in r["failed"]: print("FAILED", f["function"], "\n      ".join(o[:500] for o in f["obligations"]))
print("TIME %.0f" % (__import__("time").time() - t))
'''
import queue
slots = queue.Queue()
for i in range(NW): slots.put(i)
def one(r):
    rid, file, subs = r
    i = slots.get()
    try:
        d = f"{S}/r{i}"
        if not os.path.isdir(d) or subprocess.run(["git", "-C", d, "rev-parse", "HEAD"], capture_output=True).stdout != subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], capture_output=True).stdout:
            subprocess.run(["rm", "-rf", d]); subprocess.run(["cp", "-a", "/repo", d])
        subprocess.run(["git", "-C", d, "checkout", "-q", "--", "."])
        p = f"{d}/{file}"; t = open(p).read()
        for a, b in subs:
            if t.count(a) < 1: return f"{rid}: PATTERN MISSING {a[:60]!r}"
            t = t.replace(a, b, 1)
        open(p, "w").write(t)
        if "python" in file: b = subprocess.run(["cargo", "check", "--offline", "-q", "--features", "pyo3/extension-module"], cwd=d + "/bindings/python", env=dict(env, CARGO_TARGET_DIR=f"{S}/py{i}", PYO3_PYTHON="/usr/bin/python3"), capture_output=True, text=True)
        else: b = subprocess.run(["cargo", "check", "--workspace", "--offline", "-q"], cwd=d, env=env, capture_output=True, text=True)
        if b.returncode: return f"{rid}: BUILD FAILS {b.stderr[-1500:]}"
        out = [rid]
        B = f"{S}/b{i}"; os.makedirs(B + "/extract/release", exist_ok=True)
        subprocess.run(["cp", V + "/build/extract/release/extract", B + "/extract/release/extract"])
        for pid in relevant(file):
            e = dict(env, VERIF_REPO=d, VERIF_BUILD=B)
            if os.environ.get("HARNESS"):
                x = subprocess.run(["python3", V + "/check.py", pid], env=e, capture_output=True, text=True)
                o = f"rc={x.returncode} " + x.stdout[-600:]
            else:
                x = subprocess.run(["python3", "-c", DRIVER, pid], env=e, capture_output=True, text=True)
                o = x.stdout + x.stderr[-800:]
            out.append(f"  {pid}: " + o.strip().replace("\n", "\n      "))
        return "\n".join(out)
    except Exception as ex:
        return f"{rid}: {ex!r}"
    finally:
        slots.put(i)
with ThreadPoolExecutor(NW) as ex:
    for o in ex.map(one, [r for r in m.R if not want or r[0] in want]):
        print(o, flush=True)
