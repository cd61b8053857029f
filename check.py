#!/usr/bin/env python3
"""check.py ID [quick|thorough]

Decides one property: contracts on /repo's current functions, discharged by Verus; the bounded
harness over the real code replays and stands in where DESIGN.md says so.
Exit 0 (held) or 1 (with a VIOLATION line)."""
import json, os, re, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/tools")
sys.dont_write_bytecode = True
import lits
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.environ.get("VERIF_BUILD", os.path.join(V, "build"))
PYLIB = B + "/pybind/debug/libtokengeex.so"
T0 = time.time()
PROPS = json.load(open(os.path.join(V, "props.json")))


def run(cmd, timeout, cwd=None, env=None):
    e = dict(os.environ)
    e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        return p.returncode, p.stdout.decode("utf8", "replace"), p.stderr.decode("utf8", "replace")
    except subprocess.TimeoutExpired as x:
        return 124, (x.stdout or b"").decode("utf8", "replace"), (x.stderr or b"").decode("utf8", "replace") + "\ntimeout"


def build_extract():
    rc, o, e = run(["cargo", "build", "--release", "--offline", "-q"], 600, os.path.join(V, "extract"), {"CARGO_TARGET_DIR": B + "/extract"})
    return rc == 0, e[-2000:]


def build_pylib():
    """the Python module from this tree"""
    rc, o, e = run(["cargo", "build", "--offline", "-q", "--features", "pyo3/extension-module"], 800, REPO + "/bindings/python",
                   {"CARGO_TARGET_DIR": B + "/pybind", "PYO3_PYTHON": "/usr/bin/python3", "CARGO_PROFILE_DEV_DEBUG": "0"})
    return rc == 0, e[-3000:]


def build_harness():
    os.makedirs(B + "/gen", exist_ok=True)
    rc, o, e = run(["python3", V + "/tools/gen_root.py", REPO, B + "/gen/main.rs", V], 60)
    if rc != 0:
        return False, "gen_root: " + e[-2000:]
    # the crate's manifest, pointed at this tree
    os.makedirs(B + "/hcrate", exist_ok=True)
    t = open(V + "/harness/Cargo.toml").read().replace('path = "/repo"', f'path = "{REPO}"').replace('path = "../build/gen/main.rs"', f'path = "{B}/gen/main.rs"')
    if not os.path.exists(B + "/hcrate/Cargo.toml") or open(B + "/hcrate/Cargo.toml").read() != t:
        open(B + "/hcrate/Cargo.toml", "w").write(t)
    lock = open(V + "/harness/Cargo.lock").read()
    open(B + "/hcrate/Cargo.lock", "w").write(lock)
    rc, o, e = run(["cargo", "build", "--release", "--offline", "-q"], 800, B + "/hcrate", {"CARGO_TARGET_DIR": B + "/harness"})
    return rc == 0, e[-3000:]


# ------------------------------------------------------------------------------------ verifier
class Verifier:
    """extract + verus for one property, with undecided functions taken out of the proof"""

    def __init__(self, pid, cfg, tier):
        self.pid, self.cfg, self.tier = pid, cfg, tier
        self.dir = f"{B}/vx/{pid}"
        self.external = {}  # key -> reason
        self.cmd = ""

    def extract(self, extra=()):
        os.makedirs(self.dir, exist_ok=True)
        args = [B + "/extract/release/extract", REPO, V + "/contracts", self.dir, ",".join(self.cfg["modules"]), "prop=" + self.pid,
                "targets=" + ",".join(self.cfg["targets"]), "baseline=" + V + "/contracts/baseline.json"]
        if self.external:
            args.append("external=" + ",".join(self.external))
        args += list(extra)
        rc, o, e = run(args, 120)
        if rc != 0:
            return None, e[-1500:]
        m = json.load(open(self.dir + "/map.json"))
        shim = open(V + "/contracts/shim.rs").read()
        open(self.dir + "/shim.rs", "w").write(shim)
        main = "#![allow(unused_imports, unused_variables, dead_code, non_snake_case, unused_mut, unused_parens, unused_braces, unused_assignments)]\nmod shim;\n"
        main += "".join(f"mod {x};\n" for x in self.cfg["modules"]) + "fn main() {}\n"
        open(self.dir + "/main.rs", "w").write(main)
        return m, ""

    def settled(self):
        return False

    def verus(self, seed=0, rlimit=None, fn=None, timeout=None):
        rl = rlimit or self.cfg.get("rlimit", 60)
        cmd = ["verus", "main.rs", "--output-json", "--time-expanded", "--error-format=json", "--rlimit", str(rl), "--multiple-errors", "4", "--num-threads", "6"]
        if seed:
            cmd += ["--smt-option", f"smt.random_seed={seed}", "--smt-option", f"sat.random_seed={seed}"]
        if fn:
            cmd += ["--verify-only-module", fn[0], "--verify-function", fn[1]]
        self.cmd = " ".join(cmd)
        rc, o, e = run(cmd, timeout or max(10, min(240, 520 - (time.time() - T0))), self.dir)
        diags = []
        for l in e.splitlines():
            if l.startswith("{"):
                try:
                    d = json.loads(l)
                except ValueError:
                    continue
                if d.get("level") == "error":
                    diags.append(d)
        out = {}
        i = o.find("{")
        if i >= 0:
            try:
                out = json.JSONDecoder().raw_decode(o[i:])[0]
            except ValueError:
                out = {}
        return rc, out, diags, e

    def locate(self, m, d):
        """(module, key or None) of a diagnostic"""
        spans = sorted(d.get("spans", []), key=lambda s: not s.get("is_primary"))
        best = None
        for s in spans:
            f = os.path.basename(s.get("file_name", ""))
            if not f.endswith(".rs"):
                continue
            mod = f[:-3]
            if mod not in m:
                continue
            for fn in m[mod]["fns"]:
                a, b = fn["lines"]
                if a <= s["line_start"] <= b:
                    return mod, fn["key"], s["line_start"]
            if best is None:
                best = (mod, None, s["line_start"])
        return best or (None, None, 0)

    def decide(self):
        """-> dict(obligations, discharged, failed=[..], undecided={key: reason}, ...)"""
        res = {"failed": [], "undecided": {}, "fns": [], "smt_ms": 0, "verified": 0, "errors": 0, "assumed": [], "map": {}, "all_undecided": None, "runs": 0}
        m, err = self.extract()
        if m is None:
            res["all_undecided"] = "extraction failed: " + err
            return res
        tg = set(self.cfg["targets"])
        for mod in self.cfg["modules"]:
            mm = m[mod]
            if mm.get("error"):
                res["all_undecided"] = mm["error"]
                return res
            for x in mm["missing"]:
                k = f"{mod}::{x}"
                if x.startswith("struct "):
                    res["all_undecided"] = f"{k} is gone"
                    return res
                res["undecided"][k] = "not found in the source"
            for fn in mm["fns"]:
                k = f"{mod}::{fn['key']}"
                if k not in tg:
                    continue
                why = None
                if fn["errors"]:
                    why = "extraction: " + "; ".join(fn["errors"])
                elif fn["unknown_calls"]:
                    why = "calls without contract: " + ", ".join(fn["unknown_calls"])
                elif fn["skeleton_changed"]:
                    why = "loop structure changed"
                if why:
                    self.external[k] = why
        diags = []
        for it in range(8):
            m, err = self.extract()
            if m is None:
                res["all_undecided"] = "extraction failed: " + err
                return res
            rc, out, diags, raw = self.verus()
            res["runs"] += 1
            vr = out.get("verification-results")
            if rc == 124:
                res["all_undecided"] = "verifier timed out"
                return res
            compile_errs = [d for d in diags if (d.get("code") or not self.is_obligation(d)) and not d["message"].startswith("aborting due")]
            if not self.smt(out) and not compile_errs:
                # nothing was put to the solver: whatever is reported is about the text
                compile_errs = [d for d in diags if not d["message"].startswith("aborting due")]
            if (vr is None or vr.get("encountered-vir-error") or "times-ms" not in out or not self.smt(out)) and compile_errs:
                bad = {}
                for d in compile_errs:
                    mod, key, _ = self.locate(m, d)
                    if key is None:
                        # an item hoisted out of a function: charge the function that owns it
                        bad[None] = f"{mod}: {d['message']}"
                    else:
                        bad[f"{mod}::{key}"] = "not in the verifier's language: " + d["message"][:200]
                new = {k: v for k, v in bad.items() if k and k not in self.external}
                if not new:
                    res["all_undecided"] = "does not compile for the verifier: " + str(bad.get(None) or list(bad.values())[:1])[:300]
                    return res
                self.external.update(new)
                continue
            if vr is None or not self.smt(out):
                res["all_undecided"] = "verifier gave no result: " + raw[-300:]
                return res
            break
        else:
            res["all_undecided"] = "too many functions outside the verifier's language"
            return res
        unplaced = {f"{mod}::{fn['key']}": fn.get("unplaced") for mod in self.cfg["modules"] for fn in m[mod]["fns"]}
        # obligations
        fb = self.smt(out)
        res["smt_ms"] = out["times-ms"]["smt"]["smt-run"]
        res["verified"], res["errors"] = vr["verified"], vr["errors"]
        res["undecided"].update(self.external)
        fails = {}
        for d in diags:
            if d["message"].startswith("aborting due"):
                continue
            mod, key, line = self.locate(m, d)
            k = f"{mod}::{key}" if key else f"{mod}::(ghost code)"
            fails.setdefault(k, []).append((d, line))
        for k, ds in list(fails.items()):
            if k.endswith("(ghost code)"):
                # a lemma about the types: retry, else undecided as a whole
                ok = False
                for s in (1, 2):
                    rc2, out2, d2, _ = self.verus(seed=s, rlimit=200)
                    res["runs"] += 1
                    if rc2 == 124 or "verification-results" not in out2:
                        continue
                    if not any(f"{self.locate(m, d)[0]}::(ghost code)" == k for d in d2 if not d["message"].startswith("aborting")):
                        ok = True
                        break
                if not ok:
                    res["all_undecided"] = "lemma not proved: " + ds[0][0]["message"]
                    return res
                del fails[k]
        # other solver seeds for what failed
        if fails:
            for s in (1, 2, 3) if self.tier == "quick" else (1, 2, 3, 4, 5, 6):
                if time.time() - T0 > 400 and s > 1 and self.tier == "quick":
                    break
                if self.tier == "quick" and self.settled():
                    # a failing input is known: the verdict does not wait for a second opinion
                    break
                rc2, out2, d2, _ = self.verus(seed=s, rlimit=150)
                res["runs"] += 1
                if rc2 == 124 or "verification-results" not in out2:
                    continue
                still = {}
                for d in d2:
                    if d["message"].startswith("aborting due"):
                        continue
                    mod, key, line = self.locate(m, d)
                    if key:
                        still.setdefault(f"{mod}::{key}", []).append((d, line))
                for k in list(fails):
                    if k not in still:
                        del fails[k]
                    elif all("Resource limit" in d["message"] for d, _ in fails[k]):
                        fails[k] = still[k]
                if not fails:
                    break
        for k, ds in fails.items():
            if all("Resource limit" in d["message"] for d, _ in ds):
                res["undecided"][k] = "solver resource limit"
                continue
            lost = unplaced.get(k)
            if lost:
                # the proof's hints for this function have no place in this text
                res["undecided"][k] = "not proved, and the hints after the binding of " + ", ".join(lost) + " have no place: " + ds[0][0]["message"]
                continue
            obl = []
            for d, line in ds:
                txt = d["message"]
                for sp in d.get("spans", []):
                    if sp.get("label") or sp.get("is_primary"):
                        t = " ".join(x["text"].strip() for x in sp.get("text", [])[:3])
                        txt += f" | {sp.get('label') or ''} {t[:240]}"
                obl.append(txt)
            res["failed"].append({"function": k, "obligations": obl, "output": "\n".join(d.get("rendered", "") for d, _ in ds)[:6000]})
        for mod in self.cfg["modules"]:
            for fn in m[mod]["fns"]:
                k = f"{mod}::{fn['key']}"
                if k in tg:
                    st = "failed" if k in fails and k not in res["undecided"] else "undecided" if k in res["undecided"] else "discharged"
                    res["fns"].append({"function": k, "source": f"{m[mod]['src']}:{fn['src_line']}", "status": st, "loops": fn["loops"], "inlined": fn["inlined"], "dropped": fn["dropped"]})
                else:
                    res["assumed"].append(k)
        res["breakdown"] = fb
        res["map"] = {mod: {"trusted": m[mod].get("trusted")} for mod in self.cfg["modules"]}
        return res

    @staticmethod
    def is_obligation(d):
        msg = d["message"]
        return any(x in msg for x in ("not satisfied", "assertion failed", "Resource limit", "overflow", "decreases", "failed", "possible", "unreachable", "could not", "termination"))

    @staticmethod
    def smt(out):
        try:
            t = out["times-ms"]["smt"]["smt-run-module-times"]
        except (KeyError, TypeError):
            return []
        return [f for x in t for f in x.get("function-breakdown", [])]

    def vacuity(self):
        """every target's `false` at entry must fail: preconditions and axioms are consistent"""
        d0 = self.dir
        self.dir = d0 + "_vac"
        try:
            m, err = self.extract(["vacuity=1"])
            if m is None:
                return None
            rc, out, diags, raw = self.verus(rlimit=20)
            hit = set()
            for d in diags:
                if "assertion failed" in d["message"]:
                    for s in d.get("spans", []):
                        if any("vx_vacuity" in x["text"] for x in s.get("text", [])):
                            mod, key, _ = self.locate(m, {"spans": [s]})
                            if key:
                                hit.add(f"{mod}::{key}")
            want = {f"{mod}::{fn['key']}" for mod in self.cfg["modules"] for fn in m[mod]["fns"] if not fn["external"]}
            return {"checked": len(want), "vacuous": sorted(want - hit)}
        finally:
            self.dir = d0


# ------------------------------------------------------------------------------------ harness
def harness(pid, seed, millis, tag):
    out = f"{B}/h/{pid}.{tag}.json"
    os.makedirs(B + "/h", exist_ok=True)
    tmp = f"{B}/h/tmp.{pid}.{tag}"
    os.makedirs(tmp, exist_ok=True)
    if os.path.exists(out):
        os.remove(out)
    rc, o, e = run([B + "/harness/release/harness", "check", pid, "--seed", str(seed), "--millis", str(millis), "--out", out], millis / 1000 * 3 + 120, tmp, {"HARNESS_TMP": tmp, "HARNESS_PYLIB": PYLIB, "VERIF_LITS": json.dumps(lits.new(REPO))})
    subprocess.run(["rm", "-rf", tmp])
    try:
        r = json.load(open(out))
    except (OSError, ValueError):
        r = None
    return rc, r, o, e


def main():
    pid = sys.argv[1]
    if pid == "--setup":
        os.makedirs(B, exist_ok=True)
        a, b, c = build_extract(), build_harness(), build_pylib()
        print(a, b, c)
        sys.exit(0 if a[0] else 1)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = PROPS[pid]
    os.makedirs(B, exist_ok=True)
    os.makedirs(V + "/evidence", exist_ok=True)
    quick_ms = cfg.get("harness_ms", 8000)
    ms = quick_ms if tier == "quick" else 120000
    st = {}

    def hjob():
        st["hb"] = build_harness()
        if pid == "C22" and st["hb"][0]:
            st["hb"] = build_pylib()
        if st["hb"][0]:
            st["h"] = harness(pid, seed, ms, "main")

    def vjob():
        st["eb"] = build_extract()
        if not st["eb"][0]:
            return
        if cfg.get("targets"):
            v = Verifier(pid, cfg, tier)
            v.settled = lambda: bool(st.get("h") and st["h"][1] and st["h"][1].get("broken"))
            try:
                st["v"] = v.decide()
            except Exception as x:
                st["verr"] = f"the verifier's output was not understood: {x!r}"
                return
            st["vcmd"] = v.cmd
            if not st["v"]["failed"] and not st["v"]["all_undecided"]:
                st["vac"] = v.vacuity()

    ts = [threading.Thread(target=hjob), threading.Thread(target=vjob)]
    [t.start() for t in ts]
    [t.join() for t in ts]

    violations, notes = [], []
    v = st.get("v")
    bounded = []
    broken = None

    def harness_result(h):
        rc, r, o, e = h
        if r is None:
            # the real code took the process down (abort, stack overflow) or ran past every limit
            return {"case": None, "message": f"the code under test ended the harness: exit {rc} {e[-400:]}"} if rc != 0 else None
        bounded.append({k: r.get(k) for k in ("seed", "evaluations", "distinct_nontrivial", "rule", "samples", "millis")})
        return r.get("broken")

    if st["hb"][0]:
        broken = harness_result(st["h"])
    undecided = {}
    failed = []
    if v:
        undecided = dict(v["undecided"])
        failed = v["failed"]
        if v["all_undecided"]:
            undecided["*"] = v["all_undecided"]
    elif cfg.get("targets"):
        undecided["*"] = st.get("verr") or "the extractor does not build: " + st["eb"][1][-300:]
    # what the proof leaves open on this tree is searched harder
    if st["hb"][0] and broken is None and (failed or undecided):
        for s in range(1, 5 if tier == "quick" else 8):
            broken = harness_result(harness(pid, seed + 1000 * s, 15000, f"s{s}"))
            if broken is not None:
                break
    if not st["hb"][0]:
        undecided["(bounded harness)"] = "does not build against this tree: " + st["hb"][1][-600:]
    os.makedirs(V + "/replays", exist_ok=True)
    if broken is not None:
        p = f"{V}/replays/{pid}.json"
        json.dump({"property": pid, "case": broken.get("case"), "message": broken.get("message"), "failed_obligations": failed,
                   "replay": f"HARNESS_PYLIB={PYLIB} {B}/harness/release/harness replay {pid} {p}"}, open(p, "w"), indent=1)
        line = f"VIOLATION property={pid} replay={p}"
        violations.append({"message": broken.get("message"), "replay": p, "obligations": [f["function"] for f in failed]})
        print(str(broken.get("message"))[:3000])
        print(line)
    elif failed:
        p = f"{V}/replays/{pid}.json"
        json.dump({"property": pid, "case": None, "message": "obligations not discharged; no failing input found", "failed_obligations": failed}, open(p, "w"), indent=1)
        for f in failed:
            print(f"{f['function']}: {f['obligations'][0] if f['obligations'] else ''}")
        line = f"VIOLATION property={pid} replay={p} no-failing-input-found"
        violations.append({"message": "failed obligations: " + ", ".join(f["function"] for f in failed), "replay": p})
        print(line)
    if st["hb"][0]:
        for l in open(V + "/known_findings.txt"):
            mm = re.match(rf"known: property={pid} bits=(\S+) (.*)", l)
            if mm and run([B + "/harness/release/harness", "known", pid, mm.group(1)], 60)[0] == 1:
                notes.append(f"KNOWN-FINDING: property={pid} {mm.group(2)}")
    for n in notes:
        print(n)
    # evidence
    tg = cfg.get("targets", [])
    done = [f for f in (v or {}).get("fns", []) if f["status"] == "discharged"]
    bd = (v or {}).get("breakdown", [])
    queries = [b for b in bd if b.get("mode:") != "spec"]
    vac = st.get("vac")
    bad_vac = (vac or {}).get("vacuous", [])
    cov = {
        "obligations": len(bd) + len(undecided),
        "discharged": sum(1 for b in bd if b.get("success")) if not (v or {}).get("all_undecided") else 0,
        "obligation_unit": "one verifier query: all obligations of one function, lemma or termination of one spec function",
        "checker_cmd": f"(cd {B}/vx/{pid} && {st.get('vcmd', '')})",
        "trusted_base": cfg.get("trusted", []) + ["Verus 0.2026.09.13 and Z3 4.12", "the extractor's rewrites (DESIGN.md)", "contracts/shim.rs: library functions and IEEE-754 axioms"],
        "backend": "Verus / Z3",
        "solver_ms": (v or {}).get("smt_ms", 0),
        "solver_runs": (v or {}).get("runs", 0),
        "functions_under_contract": (v or {}).get("fns", []),
        "functions_discharged": len(done),
        "functions_targeted": len(tg),
        "undecided": undecided,
        "failed": [f["function"] for f in failed],
        "contracts_assumed_here_decided_elsewhere": (v or {}).get("assumed", []),
        "vacuity": vac,
        "queries": [{"fn": b["function"], "ms": b["time"], "rlimit": b["rlimit"], "ok": b["success"]} for b in queries],
        "bounded_stand_in": {"label": "bounded, not counted as proved", "what": cfg.get("bounded", ""), "runs": bounded},
    }
    if cfg["level"] != "proof":
        cov = {"bounded_only": "bounded, not counted as proved", "undecided": undecided}
    for k in ("evaluations", "distinct_nontrivial"):
        cov[k] = sum(b[k] or 0 for b in bounded)
    if bounded:
        cov["rule"] = bounded[0]["rule"]
        cov["samples"] = bounded[0]["samples"]
    assumptions = list(cfg.get("assumptions", []))
    if bad_vac:
        assumptions.append("contracts whose entry is unreachable: " + ", ".join(bad_vac))
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov, "assumptions": assumptions, "wall_s": round(time.time() - T0, 2), "violations": len(violations), "violation_list": violations}
    json.dump(ev, open(f"{V}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid}: {len(done)}/{len(tg)} functions discharged, {len(undecided)} undecided, {len(failed)} failed; bounded {cov['evaluations']} cases; {ev['wall_s']} s")
    for k, w in undecided.items():
        print(f"  undecided {k}: {w}"[:400])
    sys.exit(1 if violations else 0)


if __name__ == "__main__":
    main()
