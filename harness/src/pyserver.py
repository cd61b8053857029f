import sys, json, struct, importlib.machinery, importlib.util
path = sys.argv[1]
loader = importlib.machinery.ExtensionFileLoader("tokengeex", path)
m = importlib.util.module_from_spec(importlib.util.spec_from_file_location("tokengeex", path, loader=loader))
loader.exec_module(m)
def enc(x):
    if isinstance(x, bytes): return {"b": list(x)}
    if isinstance(x, bool) or x is None: return x
    if isinstance(x, float): return {"f": str(struct.unpack("<Q", struct.pack("<d", x))[0])}
    if isinstance(x, (list, tuple)): return [enc(y) for y in x]
    return x
def dec(x):
    if isinstance(x, dict):
        return bytes(x["b"]) if "b" in x else float(x["d"])
    if isinstance(x, list): return [dec(y) for y in x]
    return x
out = sys.stdout
for line in sys.stdin:
    q = json.loads(line)
    res = []
    t = None
    for name, args in q["calls"]:
        try:
            a = [dec(x) for x in args]
            if name in ("from_str", "from_file"):
                n = getattr(m.Tokenizer, name)(*a)
                t = n
                v = None
            else:
                v = getattr(t, name)(*a)
            res.append({"v": enc(v)})
        except BaseException as e:
            res.append({"e": type(e).__name__, "m": str(e)})
    out.write(json.dumps(res) + "\n")
    out.flush()
