"""Abstract interpreter over the MIR facts: trace-partitioned states, affine integers, stream positions."""
import json
from domain import *
from state import *
from state import merge as state_mod_merge
from cfg import Body, comp_blocks

def _has(pc, node):
    while pc is not None and pc.n > node.n:
        pc = pc.prev
    return pc is node

class Abort(Exception):
    """The program left the analysed fragment."""

MAX_STATES = 6000
UNROLL_ITERS = 300
UNROLL_STATES = 4
UNROLL_BLOCKS = 5000
MAX_DEPTH = 70


class Frame:
    __slots__ = ("depth", "body", "ctx", "rets", "pend", "stack")


class Interp:
    def __init__(self, facts, models=None):
        self.joint = None
        self.family = False
        self.fam_keep = None
        self.defer = False
        self.famlog = {}
        self.deferred = set()
        self.lose_pos = False
        self.no_limit = False
        self.walk = False
        self.walk_stack = []
        self.walk_serial = 0
        self.forgotten = set()
        self.closure_sets = {}
        self.facts = facts
        self.types = facts["types"]
        self.adts = facts["adts"]
        self.bodies = {}
        self.raw = dict(facts["bodies"])
        self.fns = []
        self.fnix = {}
        self.events = []
        self.depth = 0
        self.steps = 0
        self.guards = None
        self.bufid = 0
        self.unmodelled = {}
        self.call_stack = []
        self.search_memo = {}
        self.searches = []
        self.searching = False
        self.loop_depth = 0
        self.loops_seen = {}
        self.hooks = {}
        self.promo_memo = {}
        self.final = 0
        self.summarise_search = True
        self.no_unroll = False
        self.fixes = 0
        self.tainted = set()
        self.cur_block = ('', 0)
        self.cur_argtys = []
        self.span = None
        if models is None:
            import models as m
            models = m
        self.models = models

    # ------------------------------------------------------------ infrastructure
    def body(self, name):
        b = self.bodies.get(name)
        if b is None:
            b = self.bodies[name] = Body(name, self.raw[name])
        return b

    def ev(self, evk, **kw):
        kw["k"] = evk
        kw["fn"] = self.call_stack[-1] if self.call_stack else ""
        kw["stack"] = tuple(self.call_stack)
        self.events.append(kw)

    def new_buf(self):
        self.bufid += 1
        return self.bufid

    def ty(self, i):
        return self.types[i]

    def intname(self, ty):
        t = self.types[ty] if isinstance(ty, int) else ty
        if t["k"] in ("uint", "int"):
            return t["s"]
        if t["k"] == "char":
            return "char"
        return None

    def top(self, ty, tag):
        """Unknown value of a type; equal tags denote equal values."""
        if ty is None:
            return VTop(None, tag)
        t = self.types[ty]
        k = t["k"]
        if k in ("uint", "int", "char"):
            n = self.intname(t)
            lo, hi = trange(n)
            return VInt(lin(sym("opq", tag, lo, hi)), n)
        if k == "bool":
            return VBool(atom("pred", tag))
        if k == "tuple":
            return VAgg(tuple(self.top(a, (tag, i)) for i, a in enumerate(t["args"])))
        if k == "array":
            e = self.types[t["e"]]
            if e["s"] == "u8" and isinstance(t["n"], int):
                return VSeq(((Lin(t["n"]), ("u", tag)),)) if t["n"] else VSeq(())
            if isinstance(t["n"], int) and t["n"] <= 64:
                return VArr(tuple(self.top(t["e"], (tag, i)) for i in range(t["n"])))
            return VTop(ty, tag)
        if k == "ref":
            e = self.types[t["e"]]
            if e["k"] == "str" or (e["k"] == "slice" and self.types[e["e"]]["s"] == "u8"):
                n = lin(sym("opq", (tag, "len"), 0, 2 ** 63 - 1))
                return VSlice(VCRef(VSeq(((n, ("u", tag)),))), ZERO, n)
            return VCRef(self.top(t["e"], (tag, "*")))
        if k == "adt" and (t["path"].endswith("string::String") or
                           (t["path"].endswith("vec::Vec") and t["args"] and self.types[t["args"][0]]["s"] == "u8")):
            n = lin(sym("opq", (tag, "len"), 0, 2 ** 63 - 1))
            return VSeq(((n, ("u", tag)),))
        return VTop(ty, tag)

    def fresh_tag(self, name):
        from domain import _counter
        _counter[0] += 1
        return (name, _counter[0])

    # ------------------------------------------------------------ constants
    def const(self, c, ty):
        if "i" in c:
            return VInt(Lin(int(c["i"])), self.intname(ty) or "i64")
        if "b" in c:
            return VBool(TRUE if c["b"] else FALSE)
        if "fn" in c:
            return self.fnval(c["fn"])
        if "str" in c:
            b = bytes.fromhex(c["str"])
            return VSlice(VCRef(seq_const(b)), ZERO, Lin(len(b)))
        if "slice" in c:
            v = self.const(c["slice"], None)
            n = c.get("n")
            if isinstance(v, VSeq):
                return VSlice(VCRef(v), ZERO, seq_len(v))
            if isinstance(v, VArr):
                return VSlice(VCRef(v), ZERO, Lin(len(v.els)))
            return VTop(ty, ("const", json.dumps(c, sort_keys=True)))
        if "bytes" in c:
            return seq_const(bytes.fromhex(c["bytes"]))
        if "ref" in c:
            et = None
            if ty is not None and self.types[ty]["k"] in ("ref", "ptr"):
                et = self.types[ty]["e"]
            return VCRef(self.const(c["ref"], et))
        if "arr" in c:
            et = self.types[ty].get("e") if ty is not None else None
            return VArr(tuple(self.const(x, et) for x in c["arr"]))
        if "tup" in c:
            ts = self.types[ty].get("args", []) if ty is not None else []
            return VAgg(tuple(self.const(x, ts[i] if i < len(ts) else None) for i, x in enumerate(c["tup"])))
        if "adt" in c:
            p = c["adt"]
            if p.endswith("string::String") or p.endswith("vec::Vec"):
                return VSeq(())
            fs = tuple(self.const(x["c"], x.get("ty")) if isinstance(x, dict) and "c" in x and "ty" in x
                       else self.const(x, None) for x in c["f"])
            a = self.adts.get(p)
            if a and a["enum"]:
                return VEnum(c["v"], fs)
            return VAgg(fs)
        if "zst" in c:
            if ty is not None:
                t = self.types[ty]
                if t["k"] == "closure":
                    return VClo(t.get("body"), ())
                if t["k"] == "tuple":
                    return UNIT
            return UNIT
        if "promo" in c:
            return self.promoted(c["promo"])
        if ty is not None and "opaque" in c:
            t = self.types[ty]
            if t["k"] == "adt" and (t["path"].endswith("string::String") or t["path"].endswith("vec::Vec")):
                return VSeq(())
        if "static" in c:
            self.ev("static", what=c["static"])
            return self.top(ty, ("static", str(c["static"])))
        return self.top(ty, ("const", json.dumps(c, sort_keys=True)))

    def promoted(self, name):
        if name not in self.promo_memo:
            st = State()
            d = self.depth
            self.depth = 1000
            outs = self.run_body(name, [], st)
            self.depth = d
            self.promo_memo[name] = outs[0][1] if outs else VTop(None, ("promo", name))
        return self.promo_memo[name]

    def fnval(self, callee):
        k = json.dumps(callee, sort_keys=True)
        if k not in self.fnix:
            self.fnix[k] = len(self.fns)
            self.fns.append(callee)
        return VFn(self.fnix[k])

    # ------------------------------------------------------------ places
    def deref(self, v):
        """Target of a pointer value: (root kind, root, path)."""
        if isinstance(v, VRef):
            return ("cell", v.cell, v.path)
        if isinstance(v, VCRef):
            return ("val", v.val, ())
        if isinstance(v, VSlice):
            b = v.base
            p = (("sub", v.off, v.n),)
            if isinstance(b, VRef):
                return ("cell", b.cell, b.path + p)
            return ("val", b.val, p)
        if isinstance(v, VTop):
            return ("val", VTop(None, (v.tag, "*")), ())
        if isinstance(v, VObj) and v.kind == "box":
            return ("val", v.fs[0], ())
        return ("val", VTop(None, self.fresh_tag("deref")), ())

    def loc(self, st, fr, place):
        root = ("cell", (fr.depth, place[0]), ())
        for e in place[1]:
            if e == "*":
                root = self.deref(self.read_loc(st, root))
                continue
            k = e[0]
            if k == "f":
                p = ("f", e[1])
            elif k == "d":
                continue
            elif k == "i":
                iv = st.mem.get((fr.depth, e[1]))
                p = ("x", iv.l if isinstance(iv, VInt) else None)
            elif k == "ci":
                if e[3]:
                    n = self.len_of(st, self.read_loc(st, root))
                    p = ("x", n - e[1] if n is not None else None)
                else:
                    p = ("x", Lin(e[1]))
            elif k == "ss":
                n = self.len_of(st, self.read_loc(st, root))
                if n is None:
                    p = ("f", 0)
                elif e[3]:
                    p = ("sub", Lin(e[1]), n - e[2] - e[1])
                else:
                    p = ("sub", Lin(e[1]), Lin(e[2] - e[1]))
            else:
                p = ("f", 0)
            root = (root[0], root[1], root[2] + (p,))
        return root

    def place_ty(self, fr, place):
        for e in reversed(place[1]):
            if e == "*":
                return None
            if e[0] == "f":
                return e[2]
            if e[0] == "d":
                continue
            return None
        return fr.body.locals[place[0]]

    def len_of(self, st, v):
        if isinstance(v, VSeq):
            return seq_len(v)
        if isinstance(v, VArr):
            return Lin(len(v.els))
        if isinstance(v, VSlice):
            return v.n
        return None

    def read_loc(self, st, loc):
        k, root, path = loc
        v = st.mem.get(root) if k == "cell" else root
        if v is None:
            v = VTop(None, ("undef", root))
        return self.read_path(st, v, path)

    def read_path(self, st, v, path):
        i = 0
        while i < len(path):
            e = path[i]
            if e[0] == "f":
                fs = v.fs if isinstance(v, (VAgg, VEnum, VClo)) else None
                if fs is not None and e[1] < len(fs):
                    v = fs[e[1]]
                elif isinstance(v, VTop):
                    v = VTop(None, (v.tag, e[1]))
                else:
                    v = VTop(None, ("fld", v, e[1]))
            elif e[0] == "o":
                v = v.fs[e[1]] if isinstance(v, VObj) and e[1] < len(v.fs) else VTop(None, ("obj", v, e[1]))
            elif e[0] == "x":
                v = self.elem(st, v, e[1])
            elif e[0] == "sub":
                # a sub-slice followed by an index is an index; otherwise materialise the part
                if i + 1 < len(path) and path[i + 1][0] == "x" and path[i + 1][1] is not None:
                    v = self.elem(st, v, e[1] + path[i + 1][1])
                    i += 1
                elif i + 1 < len(path) and path[i + 1][0] == "sub":
                    path = path[:i] + (("sub", e[1] + path[i + 1][1], path[i + 1][2]),) + path[i + 2:]
                    continue
                else:
                    v = self.subseq(st, v, e[1], e[2])
            i += 1
        return v

    def elem(self, st, v, ix):
        if isinstance(v, VArr):
            if ix is not None and ix.is_const():
                return v.els[ix.c] if 0 <= ix.c < len(v.els) else VTop(None, self.fresh_tag("oob"))
            if all(isinstance(x, VInt) and x.l.is_const() for x in v.els) and v.els:
                tab = tuple(x.l.c for x in v.els)
                lo, hi = st.rng(ix) if ix is not None else (0, len(tab) - 1)
                lo, hi = max(lo, 0), min(hi, len(tab) - 1)
                if lo <= hi and len(set(tab[lo:hi + 1])) == 1:
                    return VInt(Lin(tab[lo]), v.els[0].t)
                if ix is not None:
                    return VInt(lin(sym("tbl", (tab, ix), min(tab), max(tab), (tab, ix))), v.els[0].t)
            if v.els and all(x == v.els[0] for x in v.els):
                return v.els[0]
            if v.els and isinstance(v.els[0], VInt):
                rs = [st.rng(x.l) for x in v.els if isinstance(x, VInt)]
                return VInt(lin(fresh("fresh", "el", min(r[0] for r in rs), max(r[1] for r in rs))), v.els[0].t)
            return VTop(None, self.fresh_tag("el"))
        if isinstance(v, VSeq):
            if ix is None:
                return VInt(lin(fresh("fresh", "el", 0, 255)), "u8")
            off = ZERO
            for n, src in v.segs:
                if st.prove_ge0(off + n - ix - 1):
                    if st.prove_ge0(ix - off):
                        return VInt(self.src_byte(src, ix - off, n), "u8")
                    break
                off = off + n
            return VInt(lin(sym("opq", ("el", v, ix), 0, 255)), "u8")
        return VTop(None, ("ix", v, ix))

    def src_byte(self, src, i, n):
        if src[0] == "s":
            return lin(stream_int(src[1], src[2] + i, 1, "be"))
        if src[0] == "c":
            if i.is_const():
                return Lin(src[1][i.c]) if i.c < len(src[1]) else ZERO
            tab = tuple(src[1])
            return lin(sym("tbl", (tab, i), min(tab), max(tab), (tab, i)))
        if src[0] == "f":
            return src[1]
        return lin(sym("opq", ("byte", src, i), 0, 255))

    def split_segs(self, st, segs, at):
        """Splits a segment list at offset `at`; None if the boundary cannot be located."""
        left, off = [], ZERO
        for k, (n, src) in enumerate(segs):
            if at is off:
                return left, list(segs[k:])
            end = off + n
            if st.prove_ge0(at - end):
                left.append((n, src))
                off = end
                continue
            if st.prove_ge0(end - at) and st.prove_ge0(at - off):
                m = at - off
                if st.prove_ge0(m.neg()):
                    return left, list(segs[k:])
                left.append((m, src_trim(src, m)))
                return left, [(n - m, src_shift(src, m))] + list(segs[k + 1:])
            return None
        if at is off or st.prove_eq(at, off):
            return left, []
        return None

    def subseq(self, st, v, off, n):
        if isinstance(v, VArr):
            if off.is_const() and n.is_const():
                return VArr(v.els[off.c:off.c + n.c])
            return VTop(None, ("sub", v, off, n))
        if isinstance(v, VSlice):
            return VSlice(v.base, v.off + off, n)
        if not isinstance(v, VSeq):
            return VTop(None, ("sub", v, off, n))
        if off is ZERO and n is seq_len(v):
            return v
        a = self.split_segs(st, v.segs, off)
        if a is not None:
            b = self.split_segs(st, a[1], n)
            if b is not None:
                return seq_norm(b[0])
            # the part starts inside a known segment that is at least as long
        return VSeq(((n, ("u", ("sub", v, off, n))),))

    def seq_write(self, st, v, off, n, segs):
        """Overwrites [off, off+n) of a sequence."""
        total = seq_len(v)
        a = self.split_segs(st, v.segs, off)
        if a is not None:
            b = self.split_segs(st, a[1], n)
            if b is not None:
                return seq_norm(a[0] + list(segs) + b[1])
            # everything after the write is lost, the written part is known
            rest = total - off - n
            return seq_norm(a[0] + list(segs) + [(rest, ("u", self.fresh_tag("w")))])
        return VSeq(((total, ("u", self.fresh_tag("w"))),))

    def write_loc(self, st, loc, val):
        k, root, path = loc
        if k != "cell":
            return
        if not path:
            st.mem[root] = val
            return
        old = st.mem.get(root)
        if old is None:
            old = VTop(None, ("undef", root))
        st.mem[root] = self.write_path(st, old, path, val)

    def write_path(self, st, v, path, val):
        if not path:
            return val
        e = path[0]
        if e[0] == "f":
            if isinstance(v, (VAgg, VEnum, VClo)):
                fs = list(v.fs)
                while len(fs) <= e[1]:
                    fs.append(VTop(None, self.fresh_tag("f")))
                fs[e[1]] = self.write_path(st, fs[e[1]], path[1:], val)
                fs = tuple(fs)
                if isinstance(v, VAgg):
                    return VAgg(fs)
                if isinstance(v, VEnum):
                    return VEnum(v.v, fs)
                return VClo(v.body, fs)
            if isinstance(v, VTop):
                fs = [VTop(None, (v.tag, i)) for i in range(e[1] + 1)]
                fs[e[1]] = self.write_path(st, fs[e[1]], path[1:], val)
                return VAgg(tuple(fs))
            return VTop(None, self.fresh_tag("w"))
        if e[0] == "o":
            if isinstance(v, VObj) and e[1] < len(v.fs):
                return VObj(v.kind, v.fs[:e[1]] + (self.write_path(st, v.fs[e[1]], path[1:], val),) + v.fs[e[1] + 1:])
            return VTop(None, self.fresh_tag("w"))
        if e[0] == "x":
            if len(path) > 1:
                sub = self.write_path(st, self.elem(st, v, e[1]), path[1:], val)
            else:
                sub = val
            if isinstance(v, VArr):
                if e[1] is not None and e[1].is_const() and 0 <= e[1].c < len(v.els):
                    return VArr(v.els[:e[1].c] + (sub,) + v.els[e[1].c + 1:])
                els = []
                for x in v.els:
                    if x == sub:
                        els.append(x)
                    elif isinstance(x, VInt) and isinstance(sub, VInt):
                        a, b = st.rng(x.l), st.rng(sub.l)
                        els.append(VInt(lin(fresh("fresh", "wk", min(a[0], b[0]), max(a[1], b[1]))), x.t))
                    else:
                        els.append(VTop(None, self.fresh_tag("wk")))
                return VArr(tuple(els))
            if isinstance(v, VSeq):
                if e[1] is None:
                    return VSeq(((seq_len(v), ("u", self.fresh_tag("w"))),))
                if isinstance(sub, VInt):
                    return self.seq_write(st, v, e[1], ONE, [(ONE, self.byte_src(sub.l))])
            return VTop(None, self.fresh_tag("w"))
        if e[0] == "sub":
            if len(path) > 1 and path[1][0] == "x" and path[1][1] is not None:
                return self.write_path(st, v, (("x", e[1] + path[1][1]),) + path[2:], val)
            if len(path) > 1 and path[1][0] == "sub":
                return self.write_path(st, v, (("sub", e[1] + path[1][1], path[1][2]),) + path[2:], val)
            if isinstance(v, VSeq) and isinstance(val, VSeq):
                return self.seq_write(st, v, e[1], e[2], val.segs)
            if isinstance(v, VArr) and isinstance(val, VArr) and e[1].is_const():
                o = e[1].c
                return VArr(v.els[:o] + val.els + v.els[o + len(val.els):])
        return VTop(None, self.fresh_tag("w"))

    def byte_src(self, l):
        if l.is_const():
            return ("c", bytes([l.c & 255]))
        if len(l.t) == 1 and l.c == 0 and l.t[0][1] == 1 and l.t[0][0].kind == "int" and l.t[0][0].key[2] == 1:
            s = l.t[0][0]
            return ("s", s.key[0], s.key[1])
        return ("f", l)

    # ------------------------------------------------------------ operands
    def operand(self, st, fr, o):
        if "p" in o:
            p = o["p"]
            v = self.read_loc(st, self.loc(st, fr, p))
            if isinstance(v, VTop):
                ty = self.place_ty(fr, p)
                if ty is None and v.ty is None and p[1] and p[1][-1] == "*" and len(p[1]) == 1:
                    t = self.types[fr.body.locals[p[0]]]
                    ty = t.get("e")
                if ty is not None and v.ty is None:
                    v = self.top(ty, v.tag)
                    self.write_loc(st, self.loc(st, fr, p), v)
            return v
        if "c" in o:
            return self.const(o["c"], o.get("ty"))
        if "rc" in o:
            return VBool(FALSE)
        return VTop(None, self.fresh_tag("op"))

    # ------------------------------------------------------------ integer operations
    def wrap(self, st, l, t):
        """l reduced modulo the type's width: [(state, Lin)]"""
        lo, hi = trange(t)
        if st.prove_ge0(l - lo) and st.prove_ge0(Lin(hi) - l):
            return [(st, l)]
        rlo, rhi = st.rng(l)
        m = hi - lo + 1
        klo, khi = (rlo - lo) // m, (rhi - lo) // m
        if khi - klo <= 2:
            out = []
            for k in range(klo, khi + 1):
                s2 = st.copy()
                v = l - k * m
                if self.assume(s2, ge0(v - lo)) and self.assume(s2, ge0(Lin(hi) - v)):
                    out.append((s2, v))
            return out
        s = sym("wrap", (l, t), lo, hi)
        s2 = st.copy()
        out = []
        if self.assume(s2, fand(ge0(l - lo), ge0(Lin(hi) - l))):
            out.append((s2, l))
        s3 = st.copy()
        if self.assume(s3, fnot(fand(ge0(l - lo), ge0(Lin(hi) - l)))):
            out.append((s3, lin(s)))
        return out

    def assume(self, st, f):
        if self.guards is not None and f.op != "T":
            self.guards.append(f)
        return st.assume(f) is not None

    def fork(self, st, f):
        """[(state, bool)]"""
        d = st.decide(f)
        if d is True:
            return [(st, True)]
        if d is False:
            return [(st, False)]
        out = []
        a = st.copy()
        if self.assume(a, f):
            out.append((a, True))
        b = st.copy()
        if self.assume(b, fnot(f)):
            out.append((b, False))
        return out

    def binop(self, st, op, a, b, rty):
        if isinstance(a, VBool) and isinstance(b, VBool):
            fa, fb = a.f, b.f
            if op == "BitAnd":
                return [(st, VBool(fand(fa, fb)))]
            if op == "BitOr":
                return [(st, VBool(f_or(fa, fb)))]
            if op in ("BitXor", "Ne"):
                return [(st, VBool(f_or(fand(fa, fnot(fb)), fand(fnot(fa), fb))))]
            if op == "Eq":
                return [(st, VBool(f_or(fand(fa, fb), fand(fnot(fa), fnot(fb)))))]
        if isinstance(a, VInt) and isinstance(b, VInt):
            return self.intop(st, op, a, b)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return [(st, VBool(atom("pred", ("cmp", op, a, b))))]
        if op.endswith("WithOverflow"):
            return [(st, VAgg((VTop(None, (op, a, b)), VBool(atom("pred", ("ovf", op, a, b))))))]
        return [(st, VTop(None, (op, a, b)))]

    def intop(self, st, op, a, b):
        x, y, t = a.l, b.l, a.t
        if op == "Eq":
            return [(st, VBool(eq0(x - y)))]
        if op == "Ne":
            return [(st, VBool(fnot(eq0(x - y))))]
        if op == "Lt":
            return [(st, VBool(ge0(y - x - 1)))]
        if op == "Le":
            return [(st, VBool(ge0(y - x)))]
        if op == "Gt":
            return [(st, VBool(ge0(x - y - 1)))]
        if op == "Ge":
            return [(st, VBool(ge0(x - y)))]
        lo, hi = trange(t)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            if base == "Add":
                r = x + y
            elif base == "Sub":
                r = x - y
            elif y.is_const():
                r = x.scale(y.c)
            elif x.is_const():
                r = y.scale(x.c)
            else:
                xl, xh = st.rng(x)
                yl, yh = st.rng(y)
                c = [xl * yl, xl * yh, xh * yl, xh * yh]
                r = lin(sym("mul", (x, y), min(c), max(c)))
            r = self.joined(st, r)
            if op.endswith("WithOverflow"):
                return [(st, VAgg((VInt(r, t), VBool(fnot(fand(ge0(r - lo), ge0(Lin(hi) - r)))))))]
            return [(s, VInt(l, t)) for s, l in self.wrap(st, r, t)]
        if base in ("Div", "Rem"):
            if x.is_const() and y.is_const() and y.c:
                q = abs(x.c) // abs(y.c) * (1 if (x.c < 0) == (y.c < 0) else -1)
                return [(st, VInt(Lin(q if base == "Div" else x.c - q * y.c), t))]
            xl, xh = st.rng(x)
            if y.is_const() and y.c > 0 and xl >= 0:
                if xh < y.c:
                    return [(st, VInt(ZERO if base == "Div" else x, t))]
                q = sym("div", (x, y.c), xl // y.c, xh // y.c)
                if base == "Div":
                    return [(st, VInt(lin(q), t))]
                return [(st, VInt(lin(sym("mod", (x, y.c), 0, y.c - 1)), t))]
            return [(st, VInt(lin(sym(base, (x, y), lo, hi)), t))]
        if base == "BitAnd":
            return [(st, VInt(self.bitand(st, x, y, t), t))]
        if base == "BitOr":
            return [(st, VInt(self.bitor(st, x, y, t), t))]
        if base == "BitXor":
            if x.is_const() and y.is_const():
                return [(st, VInt(Lin(x.c ^ y.c), t))]
            return [(st, VInt(lin(sym("xor", (x, y), lo, hi)), t))]
        if base == "Shl":
            w = twidth(t)
            if y.is_const() and 0 <= y.c < w:
                r = x.scale(1 << y.c)
                if st.prove_ge0(r - lo) and st.prove_ge0(Lin(hi) - r):
                    return [(st, VInt(r, t))]
                # bits shifted out are lost
                low = self.bitand(st, x, Lin((1 << (w - y.c)) - 1), t)
                return [(st, VInt(low.scale(1 << y.c), t))]
            if x.is_const() and x.c > 0:
                return self.const_shift(st, x, y, t, lambda c, k: (c << k) & hi)
            return [(st, VInt(lin(sym("shl", (x, y), lo, hi)), t))]
        if base == "Shr":
            if y.is_const():
                return [(st, VInt(self.shr(st, x, y.c), t))]
            if x.is_const():
                return self.const_shift(st, x, y, t, lambda c, k: c >> k)
            return [(st, VInt(lin(sym("shr", (x, y), lo, hi)), t))]
        if base == "Cmp":
            out = []
            for s, lt in self.fork(st, ge0(y - x - 1)):
                if lt:
                    out.append((s, VEnum(0, ())))
                    continue
                for s2, eq in self.fork(s, eq0(x - y)):
                    out.append((s2, VEnum(1 if eq else 2, ())))
            return out
        return [(st, VInt(lin(sym(op, (x, y), lo, hi)), t))]

    def const_shift(self, st, x, y, t, f):
        lo, hi = st.rng(y)
        lo, hi = max(lo, 0), min(hi, twidth(t) - 1)
        out = []
        if hi - lo <= 16:
            for k in range(lo, hi + 1):
                s = st.copy()
                if self.assume(s, eq0(y - k)):
                    out.append((s, VInt(Lin(f(x.c, k)), t)))
            return out
        return [(st, VInt(lin(sym("cshift", (x, y), *trange(t))), t))]

    def shr(self, st, x, k):
        if k == 0:
            return x
        if x.is_const():
            return Lin(x.c >> k)
        lo, hi = st.rng(x)
        if lo >> k == hi >> k:
            return Lin(lo >> k)
        if all(c % (1 << k) == 0 for _, c in x.t):
            r = Lin(x.c >> k, tuple((s, c >> k) for s, c in x.t))
            return r
        if len(x.t) == 1 and x.t[0][1] == 1 and x.c == 0 and x.t[0][0].kind == "int" and k % 8 == 0:
            sid, pos, w, en = x.t[0][0].key
            m = k // 8
            if m < w:
                return lin(stream_int(sid, pos if en == "be" else pos + m, w - m, en))
        return lin(sym("shr", (x, k), lo >> k, hi >> k))

    def bitand(self, st, x, y, t):
        if x.is_const() and y.is_const():
            return Lin(x.c & y.c)
        if x.is_const():
            x, y = y, x
        if not y.is_const():
            lo = min(st.rng(x)[1], st.rng(y)[1])
            return lin(sym("and", (x, y) if hash(x) < hash(y) else (y, x), 0, max(lo, 0)))
        m = y.c
        lo, hi = st.rng(x)
        if m == 0:
            return ZERO
        if lo < 0:
            return lin(sym("and", (x, m), 0, m))
        if m & (m + 1) == 0:
            # low mask
            if hi <= m:
                return x
            w = m.bit_length()
            if lo >> w == hi >> w:
                return x - ((lo >> w) << w)
            # drop terms that are multiples of 2^w
            keep = [(s, c) for s, c in x.t if c % (1 << w)]
            if len(keep) < len(x.t) or x.c >> w:
                r = Lin(x.c & m, tuple(keep))
                rl, rh = st.rng(r)
                if rl >= 0:
                    return self.bitand(st, r, y, t)
        if len(x.t) == 1 and x.t[0][1] == 1 and x.c == 0 and x.t[0][0].kind == "int":
            s = x.t[0][0]
            sid, pos, w, en = s.key
            # split the mask over the bytes
            out = ZERO
            for i in range(w):
                bm = (m >> (8 * i)) & 255
                if not bm:
                    continue
                p = pos + (i if en == "le" else w - 1 - i)
                bs = stream_int(sid, p, 1, "be")
                if bm == 255:
                    out = out.add(lin(bs), 256 ** i)
                elif bm & (bm - 1) == 0:
                    out = out.add(lin(sym("bit", (bs, bm.bit_length() - 1), 0, 1)), (bm << (8 * i)))
                else:
                    out = out.add(lin(sym("and", (lin(bs), bm), 0, bm)), 256 ** i)
            return collapse(out)
        if m & (m - 1) == 0 and len(x.t) == 1 and x.t[0][1] == 1 and x.c == 0:
            return lin(sym("bit", (x.t[0][0], m.bit_length() - 1), 0, 1)).scale(m)
        return lin(sym("and", (x, m), 0, m))

    def joined(self, st, l):
        """Merges the bytes of one wider integer, which keeps the bounds that are known of them."""
        r = collapse(l)
        if r is not l and len(r.t) == 1 and r.t[0][1] > 0:
            s, k = r.t[0]
            lo, hi = st.rng(l)
            old = st.b.get(s, (s.lo, s.hi))
            new = (max(old[0], -((r.c - lo) // k)), min(old[1], (hi - r.c) // k))
            if new != old and new[0] <= new[1]:
                st.b[s] = new
        return r

    def bitor(self, st, x, y, t):
        if x.is_const() and y.is_const():
            return Lin(x.c | y.c)
        for a, b in ((x, y), (y, x)):
            if b is ZERO:
                return a
            hi = st.rng(b)[1]
            lo = st.rng(b)[0]
            if lo < 0:
                continue
            k = hi.bit_length()
            if all(c % (1 << k) == 0 for _, c in a.t) and a.c % (1 << k) == 0 and st.rng(a)[0] >= 0:
                return self.joined(st, a + b)
        h = max(st.rng(x)[1], st.rng(y)[1], 0)
        if st.rng(x)[0] >= 0 and st.rng(y)[0] >= 0:
            return lin(sym("or", (x, y), 0, (1 << h.bit_length()) - 1))
        return lin(sym("or", (x, y), *trange(t)))

    def cast(self, st, v, tt, kind):
        t = self.types[tt]
        if kind.startswith("IntToInt") and isinstance(v, VInt):
            n = self.intname(t)
            if n:
                return [(s, VInt(l, n)) for s, l in self.wrap_cast(st, v.l, n)]
        if isinstance(v, VBool) and self.intname(t):
            if v.f is TRUE or v.f is FALSE:
                return [(st, VInt(Lin(1 if v.f is TRUE else 0), self.intname(t)))]
            return [(st, VInt(lin(sym("bool", v.f, 0, 1, v.f)), self.intname(t)))]
        if isinstance(v, VEnum) and self.intname(t):
            return [(st, VInt(Lin(v.v), self.intname(t)))]
        if "Unsize" in kind:
            if isinstance(v, (VRef, VCRef)):
                x = self.read_loc(st, self.deref(v))
                n = self.len_of(st, x)
                if n is not None and isinstance(x, (VSeq, VArr)):
                    return [(st, VSlice(v, ZERO, n))]
            return [(st, v)]
        if isinstance(v, (VRef, VCRef, VSlice, VFn, VClo)):
            return [(st, v)]
        if isinstance(v, VInt) and self.intname(t):
            return [(s, VInt(l, self.intname(t))) for s, l in self.wrap_cast(st, v.l, self.intname(t))]
        if isinstance(v, (VSeq, VObj)):
            return [(st, v)]
        return [(st, self.top(tt, ("cast", v)))]

    def wrap_cast(self, st, l, n):
        lo, hi = trange(n)
        rlo, rhi = st.rng(l)
        if rlo >= lo and rhi <= hi:
            return [(st, l)]
        m = hi - lo + 1
        if rlo >= 0 and lo == 0 and (rhi // m) > 2:
            # truncation: keep the low part
            return [(st, self.bitand(st, l, Lin(hi), n))]
        return self.wrap(st, l, n)

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, dst):
        k = r[0]
        if k == "use":
            return [(st, self.operand(st, fr, r[1]))]
        if k == "ref" or k == "rawptr":
            loc = self.loc(st, fr, r[1])
            return [(st, self.mkref(st, loc))]
        if k == "bin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            return self.binop(st, r[1], a, b, None)
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if isinstance(v, VBool):
                    return [(st, VBool(fnot(v.f)))]
                if isinstance(v, VInt):
                    lo, hi = trange(v.t)
                    return [(st, VInt(Lin(hi + lo) - v.l if lo == 0 else (v.l.neg() - 1), v.t))]
            if r[1] == "Neg" and isinstance(v, VInt):
                return [(s, VInt(l, v.t)) for s, l in self.wrap(st, v.l.neg(), v.t)]
            if r[1] == "PtrMetadata":
                if isinstance(v, VSlice):
                    return [(st, VInt(v.n, "usize"))]
                n = self.len_of(st, self.read_loc(st, self.deref(v)))
                if n is not None:
                    return [(st, VInt(n, "usize"))]
                return [(st, VInt(lin(sym("opq", ("meta", v), 0, 2 ** 63 - 1)), "usize"))]
            return [(st, VTop(None, (r[1], v)))]
        if k == "discr":
            loc = self.loc(st, fr, r[1])
            return self.discr(st, loc, self.place_full_ty(fr, r[1]))
        if k == "agg":
            ops = [self.operand(st, fr, o) for o in r[2]]
            a = r[1]
            ak = a[0] if isinstance(a, list) else a
            if ak == "tuple":
                return [(st, VAgg(tuple(ops)))]
            if ak == "array":
                if ops and all(isinstance(x, VInt) and x.t == "u8" for x in ops):
                    return [(st, seq_norm([(ONE, self.byte_src(x.l)) for x in ops]))]
                return [(st, VArr(tuple(ops)))]
            if ak == "closure":
                return [(st, VClo(a[1], tuple(ops)))]
            if ak == "adt":
                p = a[1]
                ad = self.adts.get(p)
                if p.endswith("string::String") and len(ops) == 1 and isinstance(ops[0], VSeq):
                    return [(st, ops[0])]
                if p.endswith("vec::Vec"):
                    return [(st, VSeq(()))]
                if ad and ad["enum"]:
                    return [(st, VEnum(a[2], tuple(ops)))]
                if ad is None and a[3] and a[3] != p.rsplit("::", 1)[-1]:
                    return [(st, VEnum(a[2], tuple(ops)))]
                return [(st, VAgg(tuple(ops)))]
            if ak == "rawptr" and len(ops) == 2:
                if isinstance(ops[0], VSlice) and isinstance(ops[1], VInt):
                    return [(st, VSlice(ops[0].base, ops[0].off, ops[1].l))]
                return [(st, ops[0])]
            return [(st, VTop(None, self.fresh_tag("agg")))]
        if k == "cast":
            v = self.operand(st, fr, r[2])
            return self.cast(st, v, r[3], r[1])
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            n = r[2]
            if isinstance(v, VInt) and v.t in ("u8", "i8") and isinstance(n, int):
                src = ("f", v.l)
                return [(st, VSeq(((Lin(n), src),)) if n else VSeq(()))]
            if isinstance(n, int) and n <= 4096:
                return [(st, VArr((v,) * n))]
            return [(st, VTop(None, self.fresh_tag("rep")))]
        return [(st, VTop(None, self.fresh_tag("rv")))]

    def place_full_ty(self, fr, place):
        ty = fr.body.locals[place[0]]
        for e in place[1]:
            if e == "*":
                ty = self.types[ty].get("e") if ty is not None else None
            elif e[0] == "f":
                ty = e[2]
            elif e[0] == "d":
                pass
            else:
                ty = self.types[ty].get("e") if ty is not None else None
        return ty

    def mkref(self, st, loc):
        k, root, path = loc
        if path and path[-1][0] == "sub":
            base = path[:-1]
            if base and base[-1][0] == "sub":
                # sub of sub: compose
                b = base[-1]
                s = ("sub", b[1] + path[-1][1], path[-1][2])
                return self.mkref(st, (k, root, base[:-1] + (s,)))
            if k == "cell":
                return VSlice(VRef(root, base), path[-1][1], path[-1][2])
            return VSlice(VCRef(self.read_path(st, root, base)), path[-1][1], path[-1][2])
        if k == "cell":
            return VRef(root, path)
        v = self.read_path(st, root, path)
        return VCRef(v)

    def discr(self, st, loc, ty):
        v = self.read_loc(st, loc)
        if isinstance(v, VEnum):
            t = self.types[ty] if ty is not None else None
            d = v.v
            if t and t["k"] == "adt":
                a = self.adts.get(t["path"])
                if a:
                    d = a["variants"][v.v]["discr"]
                    d = v.v if d is None else d
            return [(st, VInt(Lin(d), "isize"))]
        if isinstance(v, VObj) and v.kind == "errkind":
            return [(st, VInt(v.fs[0], "isize"))]
        if isinstance(v, VTop):
            if v.ty is not None:
                ty = v.ty
            t = self.types[ty] if ty is not None else None
            if t and t["k"] == "adt" and t["path"] in self.adts and self.adts[t["path"]]["enum"]:
                out = []
                vs = self.adts[t["path"]]["variants"]
                if all(x["nf"] == 0 for x in vs):
                    return [(st, VInt(lin(sym("opq", ("discr", v.tag), 0, max(len(vs) - 1, 0))), "isize"))]
                for i, x in enumerate(vs):
                    s = st.copy()
                    if not self.assume(s, atom("variant", v.tag, i)):
                        continue
                    nv = VEnum(i, tuple(VTop(None, (v.tag, i, j)) for j in range(x["nf"])))
                    self.write_loc(s, loc, nv)
                    out.append((s, VInt(Lin(x["discr"] if x["discr"] is not None else i), "isize")))
                return out
            return [(st, VInt(lin(sym("opq", ("discr", v.tag), 0, 2 ** 15)), "isize"))]
        return [(st, VInt(lin(sym("opq", ("discr", v), 0, 2 ** 15)), "isize"))]

    # ------------------------------------------------------------ running bodies
    def run_body(self, name, args, st, tag=None):
        return self.run_body_all(name, [(args, st)])

    def run_body_all(self, name, entries):
        """Runs a body from several (arguments, state) entries at once: paths that become alike are joined."""
        if self.depth > MAX_DEPTH and self.depth < 1000:
            raise Abort("call depth in " + name)
        if name in self.call_stack and self.call_stack.count(name) > 3:
            raise Abort("recursion in " + name)
        body = self.body(name)
        fr = Frame()
        self.depth += 1
        fr.depth = self.depth
        fr.body = body
        fr.rets = []
        fr.pend = {}
        self.call_stack.append(name)
        fr.ctx = tuple(self.call_stack)
        try:
            for args, st in entries:
                for i, a in enumerate(args):
                    st.mem[(fr.depth, i + 1)] = a
            fr.pend[0] = [st for _, st in entries]
            for c in body.wto:
                self.run_comp(fr, c)
        finally:
            self.call_stack.pop()
            self.depth -= 1
        # results with the same value and memory are joined
        groups, order = {}, []
        for s, v in fr.rets:
            v = self.detach(s, v, fr.depth)
            for k in [k for k in s.mem if k[0] >= fr.depth]:
                del s.mem[k]
            k = (s.shape(), v)
            if self.searching and self.depth == 0:
                k = len(order)
            if k in groups:
                groups[k] = (merge(groups[k][0], s), v)
            else:
                groups[k] = (s, v)
                order.append(k)
        return [groups[k] for k in order]

    def detach(self, st, v, depth):
        """References to a dying frame (promoted constants) become references to values."""
        if isinstance(v, VRef) and v.cell[0] >= depth:
            return VCRef(self.read_loc(st, self.deref(v)))
        if isinstance(v, VSlice) and isinstance(v.base, VRef) and v.base.cell[0] >= depth:
            return VSlice(VCRef(self.read_loc(st, self.deref(v.base))), v.off, v.n)
        return v

    def prune(self, fr, st, b):
        live = fr.body.live_in[b]
        bor = fr.body.borrowed
        d = fr.depth
        dead = [k for k in st.mem if k[0] == d and k[1] not in live]
        if not dead:
            return st
        held = [k for k in dead if k[1] in bor]
        for k in dead:
            if k[1] not in bor:
                del st.mem[k]
        if held:
            # borrowed variables stay as long as a live value refers to them
            mem = st.mem
            cand = {k: mem.pop(k) for k in held}
            seen = set()
            work = list(mem.values())
            while work and cand:
                for c in refs(work.pop()):
                    if c not in seen:
                        seen.add(c)
                        if c in cand:
                            v = mem[c] = cand.pop(c)
                            work.append(v)
        return st

    def take(self, fr, b):
        ss = fr.pend.pop(b, [])
        if not ss:
            return []
        for s in ss:
            self.prune(fr, s, b)
        if len(ss) > 1 and not (self.searching and self.loop_depth == 0):
            ss = merge_all(ss)
        if len(ss) > MAX_STATES:
            raise Abort(f"too many states in {fr.body.name}")
        return ss

    def run_comp(self, fr, c):
        if isinstance(c, tuple):
            ss = self.take(fr, c[0])
            for s in ss:
                self.run_loop(fr, c, s)
            return
        ss = self.take(fr, c)
        jc = self.joint_callee(fr, c) if (len(ss) > 1 or ss and fr.depth == 1) and not self.searching else None
        if jc:
            t = fr.body.blocks[c]["t"]
            saved, self.joint = self.joint, (self.depth if jc == t[1].get("body") else None, jc, [])
            try:
                for s in ss:
                    self.run_block(fr, c, s)
                calls = self.joint[2]
            finally:
                self.joint = saved
            if calls and jc != t[1].get("body"):
                for s, vals in calls:
                    for k in [k for k in s.mem if k[0] > self.depth]:
                        del s.mem[k]
            if calls and fr.depth == 1:
                calls, early = self.forget(jc, calls, t)
                self.returned(fr, t, early)
            if calls:
                self.cur_block = (fr.body.name, c)
                self.cur_argtys = t[5] if len(t) > 5 else []
                outs = self.run_body_all(jc, [(list(v), s) for s, v in calls])
                self.returned(fr, t, outs)
            return
        for s in ss:
            self.run_block(fr, c, s)

    def only_stream(self, st, vals):
        """The stream all the arguments (and what they refer to) consist of, or None."""
        sid, work, seen = None, list(vals), set()
        while work:
            v = work.pop()
            if isinstance(v, VStream):
                if sid not in (None, v.sid):
                    return None
                sid = v.sid
            elif isinstance(v, VRef):
                if v.path or v.cell not in st.mem:
                    return None
                if v.cell not in seen:
                    seen.add(v.cell)
                    work.append(st.mem[v.cell])
            elif isinstance(v, VCRef):
                work.append(v.val)
            elif isinstance(v, (VClo, VAgg)):
                work.extend(v.fs)
            elif isinstance(v, VObj) and v.kind == "ioerr":
                pass
            else:
                return None
        return sid

    def forget(self, name, calls, t):
        """A fallback that is given nothing but the stream is entered once, from an unknown stream position."""
        groups, keep = {}, []
        for s, vals in calls:
            sid = self.only_stream(s, vals) if any(isinstance(x, tuple) and x[0] == "fam" and x[1] >= 0 for x in s.tags) else None
            if sid is None:
                keep.append((s, vals))
                continue
            vals = tuple(VObj("ioerr", (lin(sym("opq", "anykind", 0, 2001)),)) if isinstance(v, VObj) and v.kind == "ioerr" else v for v in vals)
            cells = {c for v in vals for c in refs(v)}
            k = (vals, sid, s.tags, frozenset((c, s.mem[c]) for c in s.mem if c[0] <= self.depth or c in cells))
            groups.setdefault(k, []).append(s)
        early = []
        for (vals, sid, tags, _), ss in groups.items():
            if self.walk and self.defer:
                # every way into the fallback is kept
                self.deferred.add(name)
                for s in ss:
                    r = s.copy()
                    r.streams = dict(r.streams)
                    r.streams[sid] = Stream(None, None)
                    early.append((r, VTop(t[6] if len(t) > 6 else None, ("generic", name))))
                continue
            r = ss[0].copy()
            pc = ss[0].pc
            for s in ss[1:]:
                while pc is not None and not _has(s.pc, pc):
                    pc = pc.prev
            dropped = set()
            for s in ss:
                p = s.pc
                while p is not pc:
                    dropped.add(p.f)
                    p = p.prev
            if any(self.chunky(f) for f in dropped):
                r.tags = r.tags | {"chunk"}
            r.pc = pc
            r.pc = None
            for s in ss[1:]:
                q = s.copy()
                q.pc = None
                m = state_mod_merge(r, q)
                r.b, r.ineqs, r.lits = m.b, m.ineqs, m.lits
            r.pc = pc
            r.streams = dict(r.streams)
            r.streams[sid] = Stream(None, None)
            if self.defer:
                self.deferred.add(name)
                ty = t[6] if len(t) > 6 else None
                early.append((r, VTop(ty, ("generic", name))))
            else:
                # what this family knows about the content does not hold for the others that end up here
                size = stream_len(sid)
                r.b = {x: b for x, b in r.b.items() if x is size}
                r.ineqs = ()
                r.lits = frozenset()
                self.forgotten.add(name)
                keep.append((r, list(vals)))
        return keep, early

    def chunky(self, f):
        for a in atoms_of(f):
            for s in syms_of_obj(a.a, set()):
                if s.kind == "chunk" or s in self.tainted:
                    return True
        return False

    def joint_callee(self, fr, c):
        blk = fr.body.blocks[c]
        if blk is None or blk["t"][0] != "call":
            return None
        t = blk["t"]
        callee = t[1]
        name = callee.get("body")
        if callee.get("path", "").endswith("::unwrap_or_else") and len(t) > 5 and len(t[5]) == 2:
            # the closure's result is the result of the call
            ty = self.types[t[5][1]]
            name = ty.get("body") if ty["k"] == "closure" else None
            if name not in self.raw or self.types[self.raw[name]["locals"][1]]["k"] == "ref":
                return None
            return name
        if name is None or name not in self.raw or "closure#" in name.rsplit("::", 1)[-1]:
            return None
        b = self.raw[name]
        if b["local"] and b.get("kind") != "Closure" and len(b["blocks"]) >= 12 and b["args"] == len(t[2]):
            return name
        return None

    def push(self, fr, b, st):
        fr.pend.setdefault(b, []).append(st)

    def run_block(self, fr, b, st):
        self.steps += 1
        blk = fr.body.blocks[b]
        if blk is None:
            return
        work = [(st, 0)]
        stmts = blk["s"]
        while work:
            s, i = work.pop()
            alive = True
            while i < len(stmts):
                x = stmts[i]
                i += 1
                if x[0] == "=":
                    self.span = x[3] if len(x) > 3 else None
                    try:
                        outs = self.rvalue(s, fr, x[2], x[1])
                    except RecursionError:
                        raise Abort("recursion in values")
                    if not outs:
                        alive = False
                        break
                    for s2, v in outs[1:]:
                        self.write_loc(s2, self.loc(s2, fr, x[1]), v)
                        work.append((s2, i))
                    s, v = outs[0]
                    self.write_loc(s, self.loc(s, fr, x[1]), v)
                elif x[0] == "dead":
                    s.mem.pop((fr.depth, x[1]), None)
                elif x[0] == "assume":
                    v = self.operand(s, fr, x[1])
                    if isinstance(v, VBool) and s.assume(v.f) is None:
                        alive = False
                        break
            if alive:
                self.terminator(fr, b, s, blk["t"])

    def site(self, t):
        return None

    def terminator(self, fr, b, st, t):
        k = t[0]
        if k == "goto":
            self.push(fr, t[1], st)
        elif k == "switch":
            v = self.operand(st, fr, t[1])
            self.switch(fr, st, v, t[2], t[3])
        elif k == "return":
            v = st.mem.get((fr.depth, 0), UNIT)
            fr.rets.append((st, v))
        elif k == "drop":
            self.push(fr, t[2], st)
        elif k == "assert":
            v = self.operand(st, fr, t[1])
            f = v.f if isinstance(v, VBool) else atom("pred", ("assert", v))
            if not t[2]:
                f = fnot(f)
            ok = st.decide(f)
            ops = [self.operand(st, fr, o) for o in t[4]]
            self.ev("oblig", kind=t[3], proven=ok is True, block=b, body=fr.body.name,
                    detail=self.describe(st, t[3], ops) if ok is not True else None, span=self.block_span(fr, b))
            if ok is False:
                return
            if ok is None and st.assume(f, record=False) is None:
                return
            self.push(fr, t[5], st)
        elif k == "call":
            self.do_call(fr, b, st, t)
        elif k == "unreachable":
            pass
        # resume / abort: unwinding paths are not modelled

    def block_span(self, fr, b):
        blk = fr.body.blocks[b]
        for s in reversed(blk["s"]):
            if s[0] == "=" and len(s) > 3:
                return s[3]
        t = blk["t"]
        return fr.body.d.get("span")

    def describe(self, st, kind, ops):
        return kind + " of " + ", ".join(f"{o.l} in {st.rng(o.l)}" if isinstance(o, VInt) else repr(o)[:120] for o in ops)

    def switch(self, fr, st, v, targets, other):
        if isinstance(v, VBool):
            rest = st
            for val, bb in targets:
                f = v.f if val else fnot(v.f)
                d = rest.decide(f)
                if d is True:
                    self.push(fr, bb, rest)
                    return
                if d is False:
                    continue
                s = rest.copy()
                if self.assume(s, f):
                    self.push(fr, bb, s)
                rest = rest.copy()
                if not self.assume(rest, fnot(f)):
                    return
            if other is not None:
                self.push(fr, other, rest)
            return
        if isinstance(v, VInt):
            if v.l.is_const():
                for val, bb in targets:
                    if self.sval(val, v.t) == v.l.c:
                        self.push(fr, bb, st)
                        return
                if other is not None:
                    self.push(fr, other, st)
                return
            rest = st
            for val, bb in targets:
                f = eq0(v.l - self.sval(val, v.t))
                d = rest.decide(f)
                if d is False:
                    continue
                s = rest.copy()
                if self.assume(s, f):
                    self.push(fr, bb, s)
                if d is True:
                    return
                rest = rest.copy()
                if not self.assume(rest, fnot(f)):
                    return
            if other is not None:
                self.push(fr, other, rest)
            return
        # unknown: all targets
        for val, bb in targets:
            s = st.copy()
            if self.assume(s, atom("switch", v, val)):
                self.push(fr, bb, s)
        if other is not None:
            self.push(fr, other, st)

    def sval(self, val, t):
        val = int(val)
        if t[0] == "i":
            w = twidth(t)
            if val >= 1 << (w - 1):
                val -= 1 << w
        return val

    # ------------------------------------------------------------ calls
    def do_call(self, fr, b, st, t):
        callee, args = t[1], t[2]
        vals = [self.operand(st, fr, a) for a in args]
        destty = t[6] if len(t) > 6 else None
        argtys = t[5] if len(t) > 5 else []
        self.cur_block = (fr.body.name, b)
        self.cur_argtys = argtys
        outs = self.call(st, callee, vals, destty)
        self.returned(fr, t, outs)

    def returned(self, fr, t, outs):
        dest, target = t[3], t[4]
        destty = t[6] if len(t) > 6 else None
        if target is None:
            return
        for s, v in outs:
            if isinstance(v, VTop) and v.ty is None and destty is not None:
                v = self.top(destty, v.tag)
            if self.family and self.depth <= 2 and not self.tag_family(s, v, destty):
                continue
            self.write_loc(s, self.loc(s, fr, dest), v)
            self.push(fr, target, s)

    def new_serial(self, fr):
        """A number for a loop over the content whose passes label their states (None: labels are off)."""
        if not self.walk or self.searching or not self.facts["bodies"].get(fr.body.name, {}).get("local"):
            return None
        self.walk_serial += 1
        return self.walk_serial

    def walk_tag(self, fr, st, serial, key):
        """Labels a state with the loop pass it belongs to; labels of loops that are over are dropped."""
        if serial is None:
            serial = self.new_serial(fr)
            if serial is None:
                return None
        st.tags = frozenset(t for t in st.tags if not (isinstance(t, tuple) and t[0] == "at") or t[1] in self.walk_stack) | {("at", serial, key)}
        return serial

    def tag_family(self, st, v, ty):
        """Labels a path with the first format any local function returned on it (-1: no signature matched)."""
        if not isinstance(v, VEnum) or any(t[0] == "fam" for t in st.tags if isinstance(t, tuple)):
            return True
        fam = None
        for _ in range(3):
            if ty is None:
                return True
            t = self.types[ty]
            if t["k"] != "adt" or not isinstance(v, VEnum):
                return True
            if t["path"].rsplit("::", 1)[-1] == "FileFormat":
                fam = v.v
                break
            if t["path"] == "std::option::Option" and v.v == 0 and self.types[t["args"][0]].get("path", "").rsplit("::", 1)[-1] == "FileFormat":
                fam = -1
                break
            if (t["path"], v.v) not in (("std::option::Option", 1), ("std::result::Result", 0)):
                return True
            v, ty = v.fs[0], t["args"][0]
        if fam is None:
            return True
        st.tags = st.tags | {("fam", fam)}
        self.famlog.setdefault(fam, []).append(st.pc)
        if self.lose_pos:
            st.streams = {k: Stream(None, None) for k in st.streams}
        return self.fam_keep is None or self.fam_keep(fam)

    def call(self, st, callee, vals, destty=None):
        """[(state, value)]"""
        if "indirect" in callee:
            return [(st, self.top(destty, self.fresh_tag("indirect")))]
        r = self.models.call(self, st, callee, vals, destty)
        if r is not None:
            return r
        name = callee.get("body")
        if name is not None and name in self.raw:
            return self.enter(st, name, vals, callee)
        return self.unknown_call(st, callee, vals, destty)

    def enter(self, st, name, vals, callee=None):
        h = self.hooks.get("enter")
        if h:
            r = h(self, st, name, vals, callee)
            if r is not None:
                return r
        b = self.raw[name]
        if self.summarise_search and b["local"]:
            r = self.models.try_search(self, st, name, vals)
            if r is not None:
                return r
        if "closure#" in name.rsplit("::", 1)[-1] or b.get("kind") == "Closure":
            vals = self.closure_args(st, b, vals)
        j = self.joint
        if j is not None and j[1] == name and (j[0] is None or j[0] == self.depth):
            j[2].append((st, vals))
            return []
        tmp = []
        # by-value closure passed where the body takes a reference
        if vals and isinstance(vals[0], VClo) and self.types[b["locals"][1]]["k"] == "ref":
            cell = (self.depth, ("tmp", len(st.mem), self.depth))
            st.mem[cell] = vals[0]
            vals = [VRef(cell, ())] + list(vals[1:])
            tmp.append(cell)
        outs = self.run_body(name, list(vals), st)
        for s, _ in outs:
            for c in tmp:
                s.mem.pop(c, None)
        return outs

    def closure_args(self, st, b, vals):
        n = b["args"]
        if len(vals) == 2 and n != 2 and isinstance(vals[1], VAgg):
            return [vals[0]] + list(vals[1].fs)
        if len(vals) == 2 and n == 2 and isinstance(vals[1], VAgg) and len(vals[1].fs) == 1:
            t = self.types[b["locals"][2]]
            if t["k"] != "tuple" or len(t["args"]) != 1:
                return [vals[0], vals[1].fs[0]]
        return vals

    def call_value(self, st, f, args):
        """Calls a closure or function value with a list of arguments."""
        hops = 0
        while isinstance(f, (VRef, VCRef)) and hops < 5:
            g = self.read_loc(st, self.deref(f))
            hops += 1
            if isinstance(g, VClo) and g.body in self.raw:
                b = self.raw[g.body]
                self_ref = self.types[b["locals"][1]]["k"] == "ref"
                return self.run_body(g.body, [f if self_ref else g] + list(args), st)
            f = g
        if isinstance(f, VClo) and f.body in self.raw:
            return self.enter(st, f.body, [f, VAgg(tuple(args))])
        if isinstance(f, VFn):
            c = self.fns[f.key]
            return self.call(st, c, list(args), None)
        return [(st, VTop(None, self.fresh_tag("call_value")))]

    def unknown_call(self, st, callee, vals, destty):
        path = callee.get("rpath") or callee.get("path")
        self.unmodelled[path] = self.unmodelled.get(path, 0) + 1
        self.ev("unmodelled", path=path, krate=callee.get("krate"), destty=destty)
        # everything reachable through mutable references may have changed
        for v, t in zip(vals, self.cur_argtys):
            tt = self.types[t]
            if tt["k"] == "ref" and tt.get("mut"):
                self.havoc_target(st, v)
        return [(st, self.top(destty, self.fresh_tag(path)))]

    def havoc_target(self, st, v):
        if isinstance(v, VRef):
            old = self.read_loc(st, self.deref(v))
            if isinstance(old, VStream):
                st.streams[old.sid] = Stream(None, None)
                return
            if isinstance(old, VRef):
                return self.havoc_target(st, old)
            if isinstance(old, VObj) and old.kind in ("bufreader", "take"):
                s = self.models.stream_of(self, st, old)
                if s:
                    st.streams[s[0]] = Stream(None, None)
                return
            if isinstance(old, VInt):
                lo, hi = trange(old.t)
                new = VInt(lin(fresh("fresh", "hv", lo, hi)), old.t)
            elif isinstance(old, VBool):
                new = VBool(atom("pred", self.fresh_tag("hv")))
            elif isinstance(old, VSeq):
                n = lin(fresh("fresh", "hvn", 0, 2 ** 63 - 1))
                new = VSeq(((n, ("u", self.fresh_tag("hv"))),))
            else:
                new = VTop(None, self.fresh_tag("hv"))
            self.write_loc(st, self.deref(v), new)
        elif isinstance(v, VSlice) and isinstance(v.base, VRef):
            self.write_loc(st, self.deref(v), VSeq(((v.n, ("u", self.fresh_tag("hv"))),)))

    # ------------------------------------------------------------ loops
    from loops import run_loop

    def write_leaf(self, st, lp, v):
        from loops import set_leaf
        st.mem[lp[0]] = set_leaf(st.mem[lp[0]], lp[1], v)
