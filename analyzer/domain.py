"""Abstract values: affine integers over symbols, formulas over canonical atoms, byte sequences."""
from functools import lru_cache
from math import gcd

# ---------------------------------------------------------------- symbols

class Sym:
    __slots__ = ("id", "kind", "key", "lo", "hi", "aux")
    def __repr__(self):
        return sym_name(self)
    def __lt__(self, o):
        return self.id < o.id

_syms = {}
_counter = [0]

def reset():
    _syms.clear()
    _counter[0] = 0
    _atoms.clear()
    keep = {k: l for k, l in Lin._cache.items() if not l.t}
    Lin._cache.clear()
    Lin._cache.update(keep)

def sym(kind, key, lo, hi, aux=None):
    k = (kind, key)
    s = _syms.get(k)
    if s is None:
        s = Sym()
        s.id = len(_syms)
        s.kind, s.key, s.lo, s.hi, s.aux = kind, key, lo, hi, aux
        _syms[k] = s
    return s

def fresh(kind, name, lo, hi, aux=None):
    _counter[0] += 1
    return sym(kind, (name, _counter[0]), lo, hi, aux)

def sym_name(s):
    if s.kind == "int":
        sid, pos, w, en = s.key
        return f"{sid}[{pos}]:{w}{en if w > 1 else ''}"
    if s.kind == "len":
        return f"len({s.key})"
    if s.kind == "bit":
        return f"bit{s.key[1]}({s.key[0]})"
    if s.kind == "and":
        return f"({s.key[0]} & {s.key[1]:#x})"
    if s.kind == "hav":
        return f"h{s.id}"
    if s.kind == "tbl":
        return f"table#{s.id}[{s.aux[1]}]"
    if s.kind in ("chunk", "fresh", "opq"):
        k = s.key
        return f"{s.kind}.{k[0]}.{k[1]}" if isinstance(k, tuple) and len(k) == 2 else f"{s.kind}.{k}"
    return f"{s.kind}{s.key}"

# ---------------------------------------------------------------- affine expressions

class Lin:
    """const + sum coef*sym, interned."""
    __slots__ = ("c", "t", "h")
    _cache = {}

    def __new__(cls, c, t=()):
        k = (c, t)
        o = cls._cache.get(k)
        if o is None:
            o = object.__new__(cls)
            o.c, o.t = c, t
            o.h = hash(("lin", c, tuple((s.id, k2) for s, k2 in t)))
            cls._cache[k] = o
        return o

    def __hash__(self):
        return self.h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        if not self.t:
            return str(self.c)
        out = []
        for s, k in self.t:
            out.append(("-" if k < 0 else "+") + (f"{abs(k)}*" if abs(k) != 1 else "") + repr(s))
        r = "".join(out)
        if r[0] == "+":
            r = r[1:]
        if self.c:
            r += f"{self.c:+d}"
        return r

    def is_const(self):
        return not self.t

    def add(self, o, k=1):
        if not o.t:
            return Lin(self.c + k * o.c, self.t)
        if not self.t and k == 1:
            return Lin(self.c + o.c, o.t)
        d = {s: v for s, v in self.t}
        for s, v in o.t:
            n = d.get(s, 0) + k * v
            if n:
                d[s] = n
            else:
                d.pop(s, None)
        return mklin(self.c + k * o.c, d)

    def __add__(self, o):
        return self.add(o if isinstance(o, Lin) else Lin(o))

    def __sub__(self, o):
        return self.add(o if isinstance(o, Lin) else Lin(o), -1)

    def scale(self, k):
        if k == 0:
            return ZERO
        if k == 1:
            return self
        return Lin(self.c * k, tuple((s, v * k) for s, v in self.t))

    def neg(self):
        return self.scale(-1)

    def syms(self):
        return [s for s, _ in self.t]

    def coef(self, s):
        for x, v in self.t:
            if x is s:
                return v
        return 0

    def subst(self, m):
        if not any(s in m for s, _ in self.t):
            return self
        r = Lin(self.c)
        for s, v in self.t:
            r = r.add(m[s], v) if s in m else r.add(Lin(0, ((s, 1),)), v)
        return r


def mklin(c, d):
    return Lin(c, tuple(sorted(d.items(), key=lambda kv: kv[0].id)))

ZERO = Lin(0)
ONE = Lin(1)

def lin(x):
    if isinstance(x, Lin):
        return x
    if isinstance(x, Sym):
        return Lin(0, ((x, 1),))
    return Lin(int(x))

def stream_int(sid, pos, w, en):
    """Integer of w bytes at absolute position pos of stream sid."""
    if w == 1:
        en = "be"
    return sym("int", (sid, pos, w, en), 0, 256 ** w - 1)

def stream_len(sid):
    return sym("len", sid, 0, 2 ** 63 - 1)

def collapse(l):
    """Merges adjacent stream integers whose weights make them one wider integer."""
    ints = [(s, k) for s, k in l.t if s.kind == "int"]
    if len(ints) < 2:
        return l
    changed = True
    while changed:
        changed = False
        ints = [(s, k) for s, k in l.t if s.kind == "int" and k > 0]
        for s, k in ints:
            sid, pos, w, en = s.key
            for s2, k2 in ints:
                if s2 is s:
                    continue
                sid2, pos2, w2, en2 = s2.key
                if sid2 != sid or w + w2 > 8:
                    continue
                # big endian: s is the high part, directly before s2
                if k == k2 * 256 ** w2 and pos2 is pos + w and (en == "be" or w == 1) and (en2 == "be" or w2 == 1):
                    n = stream_int(sid, pos, w + w2, "be")
                    l = l.add(lin(s), -k).add(lin(s2), -k2).add(lin(n), k2)
                    changed = True
                    break
                # little endian: s is the low part, directly before s2
                if k2 == k * 256 ** w and pos2 is pos + w and (en == "le" or w == 1) and (en2 == "le" or w2 == 1):
                    n = stream_int(sid, pos, w + w2, "le")
                    l = l.add(lin(s), -k).add(lin(s2), -k2).add(lin(n), k)
                    changed = True
                    break
            if changed:
                break
    return l

# ---------------------------------------------------------------- formulas

class Fm:
    __slots__ = ("op", "a", "h")
    def __hash__(self):
        return self.h
    def __eq__(self, o):
        return self is o
    def __repr__(self):
        if self.op == "T":
            return "true"
        if self.op == "F":
            return "false"
        if self.op == "atom":
            return atom_name(self.a)
        if self.op == "not":
            return "!" + repr(self.a[0])
        j = " & " if self.op == "and" else " | "
        return "(" + j.join(map(repr, self.a)) + ")"

_atoms = {}

def _mk(op, a):
    k = (op, a)
    f = _atoms.get(k)
    if f is None:
        f = Fm()
        f.op, f.a = op, a
        f.h = hash(k)
        _atoms[k] = f
    return f

class _C:
    pass

TRUE = Fm(); TRUE.op, TRUE.a, TRUE.h = "T", (), hash("T!")
FALSE = Fm(); FALSE.op, FALSE.a, FALSE.h = "F", (), hash("F!")

def atom(*a):
    return _mk("atom", a)

def atom_name(a):
    k = a[0]
    if k == "ge":
        return f"[{a[1]} >= 0]"
    if k == "eq":
        return f"[{a[1]} == 0]"
    if k == "bytes":
        return f"[{a[1]}@{a[2]} == {a[3]!r}]"
    if k == "has":
        return f"[{a[1]}@{a[2]}+{a[3]} contains {a[4]!r}]"
    return "[" + " ".join(map(str, a)) + "]"

def fnot(f):
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    if f.op == "not":
        return f.a[0]
    if f.op == "atom" and f.a[0] == "ge":
        return ge0(f.a[1].neg() - 1)
    return _mk("not", (f,))

def _flat(op, fs):
    out = []
    seen = set()
    for f in fs:
        for g in (f.a if f.op == op else (f,)):
            if g not in seen:
                seen.add(g)
                out.append(g)
    return out, seen

def fand(*fs):
    out, seen = _flat("and", fs)
    out = [f for f in out if f is not TRUE]
    for f in out:
        if f is FALSE or fnot(f) in seen:
            return FALSE
    out = _merge_bytes(out)
    if out is None:
        return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk("and", tuple(out))

def _merge_bytes(fs):
    """Joins conjoined byte-equality atoms on adjacent or overlapping constant ranges."""
    bs = [f for f in fs if f.op == "atom" and f.a[0] == "bytes"]
    if len(bs) < 2:
        return fs
    groups = {}
    for f in bs:
        _, sid, pos, b = f.a
        groups.setdefault((sid, pos.t), {}).setdefault(None, []).append((pos.c, b))
    merged = []
    for (sid, t), g in groups.items():
        m = {}
        for c, b in g[None]:
            for i, x in enumerate(b):
                if m.setdefault(c + i, x) != x:
                    return None
        ks = sorted(m)
        run = [ks[0]]
        for k in ks[1:] + [None]:
            if k is not None and k == run[-1] + 1:
                run.append(k)
            else:
                merged.append(atom("bytes", sid, Lin(run[0], t), bytes(m[i] for i in run)))
                run = [k]
    if len(merged) == len(bs) and set(merged) == set(bs):
        return fs
    first = fs.index(bs[0])
    rest_before = [f for f in fs[:first]]
    rest_after = [f for f in fs[first:] if not (f.op == "atom" and f.a[0] == "bytes")]
    return rest_before + merged + rest_after

def f_or(*fs):
    out, seen = _flat("or", fs)
    out = [f for f in out if f is not FALSE]
    for f in out:
        if f is TRUE or fnot(f) in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk("or", tuple(out))

def ge0(l):
    """l >= 0"""
    if not l.t:
        return TRUE if l.c >= 0 else FALSE
    lo, hi = irange(l)
    if lo >= 0:
        return TRUE
    if hi < 0:
        return FALSE
    g = 0
    for _, k in l.t:
        g = gcd(g, k)
    if g > 1:
        l = Lin(l.c // g, tuple((s, k // g) for s, k in l.t))
    # single stream byte/int compared with its last admissible value: an equality
    if len(l.t) == 1:
        s, k = l.t[0]
        if k == 1 and -l.c == s.hi:
            return eq0(lin(s) - s.hi)
        if k == -1 and l.c == s.lo:
            return eq0(lin(s) - s.lo)
        if k == 1 and -l.c == s.lo + 1:
            return fnot(eq0(lin(s) - s.lo))
        if k == -1 and l.c == s.hi - 1:
            return fnot(eq0(lin(s) - s.hi))
    return atom("ge", l)

def eq0(l):
    if not l.t:
        return TRUE if l.c == 0 else FALSE
    lo, hi = irange(l)
    if lo > 0 or hi < 0:
        return FALSE
    g = 0
    for _, k in l.t:
        g = gcd(g, k)
    if l.c % g:
        return FALSE
    if g > 1:
        l = Lin(l.c // g, tuple((s, k // g) for s, k in l.t))
    if l.t[0][1] < 0:
        l = l.neg()
    if len(l.t) == 1:
        s, k = l.t[0]
        v = -l.c
        if k == 1 and s.kind == "int":
            sid, pos, w, en = s.key
            b = v.to_bytes(w, "big" if en == "be" else "little")
            return atom("bytes", sid, pos, b)
        if k == 1 and s.kind == "bit" and v == 0:
            return fnot(atom("eq", l - 1))
        if k == 1 and s.kind == "bool":
            return s.aux if v == 1 else fnot(s.aux)
        if k == 1 and s.kind == "tbl":
            return f_or(*[eq0(s.aux[1] - i) for i, x in enumerate(s.aux[0]) if x == v])
    else:
        # sum of stream bytes with base-256 weights: solve digit by digit when unambiguous
        r = _digits(l)
        if r is not None:
            return r
    return atom("eq", l)

def _digits(l):
    ts = list(l.t)
    if any(s.kind != "int" for s, _ in ts):
        return None
    neg = ts[0][1] < 0
    ks = [(-k if neg else k, s) for s, k in ts]
    v = l.c if neg else -l.c
    if any(k <= 0 for k, _ in ks):
        return None
    ks.sort(key=lambda x: x[0])
    out = []
    for i, (k, s) in enumerate(ks):
        if v % k:
            return FALSE
        if i + 1 < len(ks):
            nk = ks[i + 1][0]
            if nk % k or s.hi >= nk // k:
                return None
            d = (v // k) % (nk // k)
        else:
            d = v // k
        if d < s.lo or d > s.hi:
            return FALSE
        out.append(eq0(lin(s) - d))
        v -= d * k
    return fand(*out) if v == 0 else FALSE

def irange(l, b=None):
    lo = hi = l.c
    for s, k in l.t:
        slo, shi = (s.lo, s.hi) if b is None else b.get(s, (s.lo, s.hi))
        if k > 0:
            lo += k * slo
            hi += k * shi
        else:
            lo += k * shi
            hi += k * slo
    return lo, hi

def atoms_of(f, acc=None):
    if acc is None:
        acc = set()
    st = [f]
    seen = set()
    while st:
        g = st.pop()
        if g in seen:
            continue
        seen.add(g)
        if g.op == "atom":
            acc.add(g)
        elif g.op in ("and", "or", "not"):
            st.extend(g.a)
    return acc

def syms_of_obj(o, acc):
    if isinstance(o, Sym):
        if o not in acc:
            acc.add(o)
            syms_of_obj(o.key, acc)
            if o.kind in ("tbl", "bool"):
                syms_of_obj(o.aux, acc)
    elif isinstance(o, Lin):
        for s, _ in o.t:
            syms_of_obj(s, acc)
    elif isinstance(o, Fm):
        for a in atoms_of(o):
            for x in a.a:
                syms_of_obj(x, acc)
    elif isinstance(o, (tuple, list)):
        for x in o:
            syms_of_obj(x, acc)
    return acc

# ---------------------------------------------------------------- values (immutable, hashable)

class V:
    __slots__ = ()

def _cls(name, *fields):
    class C(V):
        __slots__ = fields + ("h", "rf")
        def __init__(self, *a):
            for f, x in zip(fields, a):
                object.__setattr__(self, f, x)
            self.h = hash((name,) + a)
        def __hash__(self):
            return self.h
        def __eq__(self, o):
            if self is o:
                return True
            if type(o) is not type(self) or o.h != self.h:
                return False
            return all(getattr(self, f) == getattr(o, f) for f in fields)
        def __repr__(self):
            return name + "(" + ", ".join(repr(getattr(self, f)) for f in fields) + ")"
    C.__name__ = name
    C.fields = fields
    return C

VInt = _cls("Int", "l", "t")           # mathematical value, type name
VBool = _cls("Bool", "f")
VAgg = _cls("Agg", "fs")               # tuple / struct / closure captures
VEnum = _cls("Enum", "v", "fs")        # variant index + fields
VRef = _cls("Ref", "cell", "path")     # reference to a place
VCRef = _cls("CRef", "val")            # reference to an immutable value
VSlice = _cls("Slice", "base", "off", "n")  # base: VRef/VCRef to a sequence
VSeq = _cls("Seq", "segs")             # bytes: ((len, src), ...)
VArr = _cls("Arr", "els")              # small array of arbitrary values
VTop = _cls("Top", "ty", "tag")        # unknown value of a type
VFn = _cls("Fn", "key")                # function item: index into interp.fnkeys
VObj = _cls("Obj", "kind", "fs")       # modelled library object
VStream = _cls("Stream", "sid")

UNIT = VAgg(())

VClo = _cls("Clo", "body", "fs")       # closure value: body instance + captures

NOREFS = frozenset()

def refs(v):
    """Cells a value refers to."""
    if isinstance(v, V):
        try:
            return v.rf
        except AttributeError:
            pass
        r = frozenset((v.cell,)) if isinstance(v, VRef) else NOREFS
        if not isinstance(v, (VInt, VBool)):
            for f in v.fields:
                q = refs(getattr(v, f))
                if q:
                    r = r | q
        object.__setattr__(v, "rf", r)
        return r
    if isinstance(v, tuple):
        r = NOREFS
        for x in v:
            if isinstance(x, (V, tuple)):
                q = refs(x)
                if q:
                    r = r | q
        return r
    return NOREFS

def vint(x, t="usize"):
    return VInt(lin(x), t)

def trange(t):
    if t == "char":
        return 0, 0x10FFFF
    w = {"usize": 64, "isize": 64}.get(t) or int(t[1:])
    return (-(1 << (w - 1)), (1 << (w - 1)) - 1) if t[0] == "i" else (0, (1 << w) - 1)

def twidth(t):
    return {"usize": 64, "isize": 64, "char": 32}.get(t) or int(t[1:])

def vbool(f):
    return VBool(TRUE if f is True else FALSE if f is False else f)

# ---- byte sequences: src = ("s", sid, pos) | ("c", bytes) | ("f", byte Lin) | ("h", byteLin) | ("u", token)

def seq_len(s):
    n = ZERO
    for l, _ in s.segs:
        n = n + l
    return n

def seq_const(b):
    return VSeq(((Lin(len(b)), ("c", bytes(b))),) if b else ())

def src_shift(src, k):
    """source of the bytes starting k into src"""
    if src[0] == "s":
        return ("s", src[1], src[2] + k)
    if src[0] == "c":
        if k.is_const():
            return ("c", src[1][k.c:])
        return ("u", ("sub", src, k))
    if src[0] == "f":
        return src
    if src[0] == "h":
        if k is ZERO:
            return src
        return ("u", ("sub", src, k))
    if src[0] == "u":
        return ("u", ("sub", src[1], k)) if k is not ZERO else src
    raise AssertionError(src)

def src_trim(src, n):
    if src[0] == "c":
        if n.is_const():
            return ("c", src[1][:n.c])
        return ("u", ("trim", src, n))
    return src

def seq_norm(segs):
    out = []
    for n, src in segs:
        if n is ZERO:
            continue
        if out:
            m, p = out[-1]
            if p[0] == "s" and src[0] == "s" and p[1] == src[1] and (p[2] + m) is src[2]:
                out[-1] = (m + n, p)
                continue
            if p[0] == "c" and src[0] == "c":
                out[-1] = (m + n, ("c", p[1] + src[1]))
                continue
            if p[0] == "f" and src[0] == "f" and p[1] == src[1]:
                out[-1] = (m + n, p)
                continue
        out.append((n, src))
    return VSeq(tuple(out))
