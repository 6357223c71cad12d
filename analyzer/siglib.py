"""The signature decision extracted from the code, as formulas over content bytes, and its evaluation on sets of abstract contents.

A content is (known bytes, length); a byte that is not known has a filler value that no condition at its position mentions.
Formulas are evaluated on all contents at once, one bit per content."""
from domain import *
from state import pc_list

LONG = 1 << 20


def decision(run):
    """{family: formula} over all paths that decide it."""
    out = {}
    for fam, ans, st in run.outcomes():
        name = fam if fam is not None else ("Empty" if ans == "Empty" else None)
        if name is None:
            continue
        out[name] = f_or(out.get(name, FALSE), fand(*pc_list(st.pc))) if st.pc is not None else TRUE
    return out


def decision_parts(run):
    """{family: [list of conjuncts]} (the disjunction is not built)."""
    out = {}
    for fam, ans, st in run.outcomes():
        name = fam if fam is not None else ("Empty" if ans == "Empty" else None)
        if name is not None:
            out.setdefault(name, []).append(pc_list(st.pc))
    return out


class Unknown(Exception):
    pass


class Eval:
    def __init__(self, contents, fillers):
        self.cs = contents
        self.n = len(contents)
        self.all = (1 << self.n) - 1
        self.memo = {}
        self.pos = {}
        self.fillers = fillers
        lens = {}
        for i, (b, L) in enumerate(contents):
            lens.setdefault(L, []).append(i)
        self.lens = {L: self.bits(ix) for L, ix in lens.items()}
        by = {}
        for i, (b, L) in enumerate(contents):
            for p, x in b.items():
                if p < L:
                    by.setdefault(p, {}).setdefault(x, []).append(i)
        self.by = {p: {x: self.bits(ix) for x, ix in d.items()} for p, d in by.items()}
        self.known = {p: self._or(d.values()) for p, d in self.by.items()}

    def bits(self, ix):
        a = bytearray((self.n + 7) // 8)
        for i in ix:
            a[i >> 3] |= 1 << (i & 7)
        return int.from_bytes(a, "little")

    def _or(self, xs):
        r = 0
        for x in xs:
            r |= x
        return r

    def longer(self, k):
        """contents of length at least k"""
        return self._or(m for L, m in self.lens.items() if L >= k)

    def byte(self, p, x):
        m = self.by.get(p, {}).get(x, 0)
        if self.fillers(p) == x:
            m |= self.longer(p + 1) & ~self.known.get(p, 0)
        return m

    def value(self, l, i):
        b, L = self.cs[i]
        v = l.c
        for s, k in l.t:
            v += k * self.symval(s, b, L)
        return v

    def symval(self, s, b, L):
        if s.kind == "len":
            return L
        if s.kind == "int":
            sid, pos, w, en = s.key
            if not (isinstance(pos, Lin) and pos.is_const()):
                raise Unknown(str(s))
            bs = [b.get(pos.c + j, self.fillers(pos.c + j)) if pos.c + j < L else 0 for j in range(w)]
            return int.from_bytes(bytes(bs), "big" if en == "be" else "little")
        if s.kind in ("and", "shr") and s.aux is not None:
            pass
        raise Unknown(str(s))

    def ev(self, f):
        r = self.memo.get(f)
        if r is not None:
            return r
        if f.op == "T":
            r = self.all
        elif f.op == "F":
            r = 0
        elif f.op == "and":
            r = self.all
            for x in f.a:
                r &= self.ev(x)
                if not r:
                    break
        elif f.op == "or":
            r = 0
            for x in f.a:
                r |= self.ev(x)
                if r == self.all:
                    break
        elif f.op == "not":
            r = self.all & ~self.ev(f.a[0])
        else:
            r = self.atom(f.a)
        self.memo[f] = r
        return r

    def atom(self, a):
        k = a[0]
        if k == "bytes":
            if not a[2].is_const():
                raise Unknown(str(a))
            r = self.longer(a[2].c + len(a[3]))
            for j, x in enumerate(a[3]):
                r &= self.byte(a[2].c + j, x)
                if not r:
                    break
            return r
        if k in ("ge", "eq"):
            l = a[1]
            if all(s.kind == "len" for s in l.syms()):
                r = 0
                for L, m in self.lens.items():
                    v = l.c + sum(c * L for _, c in l.t)
                    if v >= 0 if k == "ge" else v == 0:
                        r |= m
                return r
            ix = [i for i in range(self.n) if (self.value(l, i) >= 0 if k == "ge" else self.value(l, i) == 0)]
            return self.bits(ix)
        raise Unknown(atom_name(a))

    def parts(self, pcs):
        """Disjunction of conjunctions."""
        r = 0
        for pc in pcs:
            m = self.all
            for f in pc:
                m &= self.ev(f)
                if not m:
                    break
            r |= m
        return r


def used_bytes(parts, cubes):
    """{position: byte values some condition mentions}"""
    used = {}
    for pcs in parts.values():
        for pc in pcs:
            for f in pc:
                for a in atoms_of(f):
                    if a.a[0] == "bytes" and a.a[2].is_const():
                        for j, x in enumerate(a.a[3]):
                            used.setdefault(a.a[2].c + j, set()).add(x)
    for c in cubes:
        for p, x in c.items():
            used.setdefault(p, set()).add(x)
    return used


def filler_of(used):
    memo = {}

    def filler(p):
        r = memo.get(p)
        if r is None:
            u = used.get(p, ())
            r = memo[p] = next((x for x in list(range(0x81, 0xC0)) + list(range(256)) if x not in u), 0x81)
        return r
    return filler


# ---------------------------------------------------------------- cubes of the code's conditions

def pos_dnf(f, memo, limit=4000):
    """Positive byte requirements of a formula: set of cubes (frozensets of (position, byte)); negative and length literals are dropped."""
    r = memo.get(f)
    if r is not None:
        return r
    if f.op == "F":
        r = frozenset()
    elif f.op == "atom" and f.a[0] == "bytes" and f.a[2].is_const():
        r = frozenset([frozenset((f.a[2].c + j, x) for j, x in enumerate(f.a[3]))])
    elif f.op == "or":
        s = set()
        for x in f.a:
            s |= pos_dnf(x, memo, limit)
        r = minimal(s)
    elif f.op == "and":
        s = {frozenset()}
        for x in f.a:
            d = pos_dnf(x, memo, limit)
            if d == {frozenset()}:
                continue
            s = minimal({a | b for a in s for b in d if consistent(a, b)})
            if len(s) > limit:
                raise Unknown("too many alternatives")
        r = frozenset(s)
    else:
        r = frozenset([frozenset()])
    memo[f] = r
    return r


def consistent(a, b):
    if len(a) > len(b):
        a, b = b, a
    d = dict(b)
    return all(d.get(p, x) == x for p, x in a)


def minimal(s):
    if frozenset() in s:
        return frozenset([frozenset()])
    out = []
    for c in sorted(s, key=len):
        if not any(o <= c for o in out):
            out.append(c)
    return frozenset(out)


def code_cubes(parts):
    """{family: [cube]}"""
    memo, out = {}, {}
    for fam, pcs in parts.items():
        if fam in ("none", "Empty"):
            continue
        s = set()
        for pc in pcs:
            t = {frozenset()}
            for f in pc:
                d = pos_dnf(f, memo)
                if d == {frozenset()}:
                    continue
                t = {a | b for a in t for b in d if consistent(a, b)}
                t = set(minimal(t))
            s |= t
        out[fam] = [dict(c) for c in minimal(s)]
    return out
