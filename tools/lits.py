"""New literals of a tree, as hints for the harness's generators (a dictionary, as fuzzers use one).

  python3 tools/lits.py write REPO     record the literals of REPO in contracts/lits.json
new(REPO) -> {"ints", "floats", "strs"}: literals that occur more often than recorded there.
Only the search for failing inputs uses them; no verdict depends on them."""
import collections, glob, json, os, re, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOK = re.compile(r'''
  (?P<lc>//[^\n]*) | (?P<bc>/\*.*?\*/)
| (?P<raw>b?r(?P<h>\#*)".*?"(?P=h))
| (?P<str>b?"(?:\\.|[^"\\])*")
| (?P<chr>b?'(?:\\u\{[0-9a-fA-F_]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\\n])')
| (?P<life>'[A-Za-z_]\w*)
| (?P<sh>\b[0-9]+(?:_?[iu](?:8|16|32|64|size))?\s*<<\s*[0-9]+)
| (?P<mul>\b[0-9][0-9_]*(?:usize|u32|u64)?\s*\*\s*[0-9][0-9_]*)
| (?P<num>\b(?:0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9_]+)?)(?:_?(?:usize|isize|[iu](?:8|16|32|64|128)|f32|f64))?)
| (?P<ty>\b(?:u8|i8|u16|i16|f32)\b)
| (?P<id>\b[A-Za-z_]\w*)
''', re.X | re.S)
ESC = {"n": "\n", "r": "\r", "t": "\t", "0": "\0", "\\": "\\", "'": "'", '"': '"'}


def unesc(s):
    s = re.sub(r"\\\n\s*", "", s)
    def f(m):
        x = m.group(1)
        try:
            if x[0] == "x":
                return chr(int(x[1:], 16))
            if x[0] == "u":
                return chr(int(x[2:-1].replace("_", ""), 16))
        except ValueError:
            return ""
        return ESC.get(x, "")
    return re.sub(r"\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}|.)", f, s, flags=re.S)


def scan(text):
    c = collections.Counter()
    for m in TOK.finditer(text):
        k = m.lastgroup if m.lastgroup != "h" else "raw"
        if m.group("raw") is not None:
            k = "raw"
        if k in ("lc", "bc", "life", "id"):
            continue
        c[k + " " + m.group(0)] += 1
    return c


def files(repo):
    r = sorted(glob.glob(repo + "/src/**/*.rs", recursive=True) + glob.glob(repo + "/bindings/python/src/**/*.rs", recursive=True))
    return [(os.path.relpath(f, repo), open(f, errors="replace").read()) for f in r]


def table(repo):
    t = collections.Counter()
    for _, s in files(repo):
        t.update(scan(s))
    return t


def new(repo):
    try:
        base = collections.Counter(json.load(open(V + "/contracts/lits.json")))
        diff = table(repo) - base
    except (OSError, ValueError):
        return {}
    ints, floats, strs = set(), set(), set()
    for k in diff:
        kind, lit = k.split(" ", 1)
        if kind == "sh":
            a, b = re.findall(r"^[0-9]+|[0-9]+$", lit)
            if int(b) < 40:
                ints.add(int(a) << int(b))
        elif kind == "mul":
            a, b = re.findall(r"^[0-9_]+|[0-9_]+$", lit)
            ints.add(int(a.replace("_", "")) * int(b.replace("_", "")))
        elif kind == "ty":
            ints.add({"u8": 256, "i8": 128, "u16": 65536, "i16": 32768}.get(lit, 16777216))
        elif kind == "num":
            x = re.sub(r"_?(usize|isize|[iu](8|16|32|64|128)|f32|f64)$", "", lit).replace("_", "")
            try:
                v = int(x, 0) if re.fullmatch(r"0[xbo].*|[0-9]+", x) else float(x)
            except ValueError:
                continue
            if isinstance(v, int) and 2 <= v <= 10_000_000:
                ints.add(v)
            elif isinstance(v, float):
                floats.add(v)
        elif kind in ("str", "chr"):
            s = unesc(lit.lstrip("b")[1:-1])
            if 0 < len(s) <= 40:
                strs.add(s)
        elif kind == "raw":
            s = re.sub(r'^b?r#*"|"#*$', "", lit)
            if 0 < len(s) <= 40:
                strs.add(s)
    return {"ints": sorted(ints)[:40], "floats": sorted(floats)[:40], "strs": sorted(strs)[:40]}


if __name__ == "__main__":
    if sys.argv[1] == "write":
        json.dump(dict(sorted(table(sys.argv[2]).items())), open(V + "/contracts/lits.json", "w"), indent=0)
    else:
        print(json.dumps(new(sys.argv[1])))
