"""Which functions are compiled to different code under two feature sets."""
import json, re


def canon(f, b):
    """A function's code without spans and without the numbering of types and definitions, which depend on the features."""
    T = [t["s"] for t in f["types"]]

    def ty(x):
        return T[x] if isinstance(x, int) and not isinstance(x, bool) and 0 <= x < len(T) else x

    def w(x):
        if isinstance(x, dict):
            return {k: ty(v) if k == "ty" else [ty(a) if isinstance(a, int) else w(a) for a in v] if k in ("args", "rargs") and isinstance(v, list) else w(v)
                    for k, v in sorted(x.items()) if k not in ("sp", "span", "body")}
        if isinstance(x, list):
            if len(x) == 3 and x[0] == "f":
                return ["f", x[1]]
            if len(x) == 2 and x[0] == "array" and isinstance(x[1], int):
                return ["array", ty(x[1])]
            if len(x) == 4 and x[0] == "cast":
                return [x[0], w(x[1]), w(x[2]), ty(x[3])]
            return [w(y) for y in x]
        if isinstance(x, str):
            return re.sub(r"0:\d+ ~ ", "", re.sub(r"\[[0-9a-f]{4}\]", "", x))
        return x
    blocks = []
    for bl in b["blocks"]:
        if bl is None:
            blocks.append(None)
            continue
        t = bl["t"]
        n = {"call": 5, "switch": 4, "drop": 3, "assert": 3}.get(t[0], len(t))
        blocks.append(([w(s[:3]) if s[0] == "=" else w(s) for s in bl["s"]], w(t[:n])))
    return json.dumps([b["args"], [ty(x) for x in b["locals"]], blocks], sort_keys=True)


def callees(b):
    for bl in b["blocks"]:
        if bl is not None and bl["t"][0] == "call" and isinstance(bl["t"][1], dict):
            c = bl["t"][1]
            if c.get("local"):
                yield c.get("rpath") or c.get("path")


def differing(f1, f2):
    """Local functions present under both feature sets with different code, other than those that call a function which one of the sets lacks
    (a dispatch to what the feature adds)."""
    p1 = {b["path"] for b in f1["bodies"].values() if b["local"]}
    p2 = {b["path"] for b in f2["bodies"].values() if b["local"]}
    out, n = set(), 0
    for name, b in f1["bodies"].items():
        o = f2["bodies"].get(name)
        if o is None or not b["local"]:
            continue
        n += 1
        if canon(f1, b) == canon(f2, o):
            continue
        if any(c not in p2 for c in callees(b) if c in p1) or any(c not in p1 for c in callees(o) if c in p2):
            continue
        out.add(name)
    return out, n
