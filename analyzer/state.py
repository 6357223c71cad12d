"""Abstract states: memory, numeric facts, stream positions, path condition."""
from domain import *

class PC:
    """Path condition: persistent conjunction (linked list)."""
    __slots__ = ("f", "prev", "n")
    def __init__(self, f, prev):
        self.f, self.prev = f, prev
        self.n = prev.n + 1 if prev else 1

def pc_list(pc):
    out = []
    while pc is not None:
        out.append(pc.f)
        pc = pc.prev
    out.reverse()
    return out

def pc_merge(a, b):
    """a or b, keeping the common prefix."""
    if a is b:
        return a
    sa, sb = [], []
    x, y = a, b
    while x is not y:
        nx = x.n if x else 0
        ny = y.n if y else 0
        if nx >= ny:
            sa.append(x.f)
            x = x.prev
        if ny >= nx:
            sb.append(y.f)
            y = y.prev
    sa.reverse()
    sb.reverse()
    # conjuncts present on both sides stay conjuncts
    inb = set(sb)
    both = [f for f in sa if f in inb]
    if both:
        bs = set(both)
        sa = [f for f in sa if f not in bs]
        sb = [f for f in sb if f not in bs]
    fa, fb = fand(*sa) if sa else TRUE, fand(*sb) if sb else TRUE
    r = x
    for f in both:
        r = PC(f, r)
    g = f_or(fa, fb)
    if g is not TRUE:
        # (p) or (not p and q) == p or q
        g = _absorb(fa, fb)
    if g is not TRUE:
        r = PC(g, r)
    return r

def _absorb(fa, fb):
    for p, q in ((fa, fb), (fb, fa)):
        np = fnot(p)
        if q.op == "and" and np in q.a:
            q2 = fand(*[x for x in q.a if x is not np])
            return f_or(p, q2)
        if np.op == "and" and q.op == "and" and all(x in q.a for x in np.a):
            q2 = fand(*[x for x in q.a if x not in np.a])
            return f_or(p, q2)
    return f_or(fa, fb)

class Stream:
    __slots__ = ("pos", "via", "h")
    def __init__(self, pos, via):
        self.pos, self.via = pos, via
        self.h = hash((pos, via))
    def __hash__(self):
        return self.h
    def __eq__(self, o):
        return self.pos is o.pos and self.via == o.via
    def __repr__(self):
        return f"Stream(pos={self.pos}, via={self.via})"

_ix = {}
PROVE_BUDGET = 120

def _index(ineqs):
    """{(symbol, sign): [(inequality, coefficient)]}"""
    r = _ix.get(ineqs)
    if r is None:
        if len(_ix) > 20000:
            _ix.clear()
        r = _ix[ineqs] = {}
        for c in ineqs:
            for s, k in c.t:
                r.setdefault((s, k > 0), []).append((c, k))
    return r

class State:
    __slots__ = ("mem", "b", "ineqs", "pc", "streams", "lits", "dead", "tags")

    def __init__(self):
        self.mem = {}
        self.b = {}
        self.ineqs = ()
        self.pc = None
        self.streams = {}
        self.lits = frozenset()
        self.dead = False
        self.tags = frozenset()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.b = dict(self.b)
        s.ineqs = self.ineqs
        s.pc = self.pc
        s.streams = dict(self.streams)
        s.lits = self.lits
        s.dead = self.dead
        s.tags = self.tags
        return s

    # ---- numeric reasoning
    def rng(self, l):
        return irange(l, self.b)

    def prove_ge0(self, l, depth=3):
        if irange(l, self.b)[0] >= 0:
            return True
        if not l.t or not self.ineqs:
            return False
        return self._prove(l, depth, _index(self.ineqs), {l: depth}, [PROVE_BUDGET])

    def _prove(self, l, depth, index, seen, budget):
        nl = len(l.t) + 2
        cands = []
        for s2, kl2 in l.t:
            for c, k2 in index.get((s2, kl2 > 0), ()):
                budget[0] -= 1
                if budget[0] < 0:
                    return False
                g = gcd(abs(kl2), abs(k2))
                r = l.scale(abs(k2) // g).add(c, -(abs(kl2) // g))
                n = len(r.t)
                if n > nl or seen.get(r, -1) >= depth - 1:
                    continue
                if irange(r, self.b)[0] >= 0:
                    return True
                if n and depth > 1:
                    seen[r] = depth - 1
                    cands.append(r)
        for r in cands:
            if self._prove(r, depth - 1, index, seen, budget):
                return True
        return False

    def prove_eq(self, a, b):
        if a is b:
            return True
        d = a - b
        return self.prove_ge0(d) and self.prove_ge0(d.neg())

    def decide(self, f, depth=0):
        """True / False / None"""
        if f is TRUE:
            return True
        if f is FALSE:
            return False
        if f in self.lits:
            return True
        if f.op == "not":
            r = self.decide(f.a[0])
            return None if r is None else not r
        if f.op == "atom":
            if fnot(f) in self.lits:
                return False
            k = f.a[0]
            if k == "ge":
                if self.prove_ge0(f.a[1]):
                    return True
                if self.prove_ge0(f.a[1].neg() - 1):
                    return False
            elif k == "eq":
                l = f.a[1]
                lo, hi = self.rng(l)
                if lo > 0 or hi < 0:
                    return False
                if lo == hi == 0:
                    return True
                if self.prove_ge0(l - 1) or self.prove_ge0(l.neg() - 1):
                    return False
                if self.prove_ge0(l) and self.prove_ge0(l.neg()):
                    return True
            elif k == "bytes":
                return self.decide_bytes(f)
            return None
        if f.op == "and":
            r = True
            for g in f.a:
                d = self.decide(g)
                if d is False:
                    return False
                if d is None:
                    r = None
            return r
        if f.op == "or":
            r = False
            for g in f.a:
                d = self.decide(g)
                if d is True:
                    return True
                if d is None:
                    r = None
            return r
        return None

    def decide_bytes(self, f):
        """Uses known byte equalities / inequalities and symbol bounds."""
        _, sid, pos, b = f.a
        for en in ("be", "le"):
            for w in (len(b),):
                if w <= 8:
                    s = _peek(sid, pos, w, en)
                    if s is not None and s in self.b:
                        lo, hi = self.b[s]
                        v = int.from_bytes(b, "big" if s.key[3] == "be" else "little")
                        if v < lo or v > hi:
                            return False
                        if lo == hi == v:
                            return True
        known = True
        for g in self.lits:
            neg = g.op == "not"
            a = g.a[0] if neg else g
            if a.op != "atom" or a.a[0] != "bytes" or a.a[1] != sid or a.a[2].t != pos.t:
                continue
            d = a.a[2].c - pos.c
            b2 = a.a[3]
            if not neg:
                lo, hi = max(0, d), min(len(b), d + len(b2))
                if lo < hi:
                    if b[lo:hi] != b2[lo - d:hi - d]:
                        return False
                    if lo == 0 and hi == len(b):
                        return True
            elif d >= 0 and d + len(b2) <= len(b) and b[d:d + len(b2)] == b2:
                return False
        return None

    # ---- assumptions
    def assume(self, f, record=True):
        """Returns self (mutated) or None if infeasible."""
        d = self.decide(f)
        if d is True:
            return self
        if d is False:
            return None
        if record:
            self.pc = PC(f, self.pc)
        return self._learn(f)

    def _learn(self, f):
        if f.op == "and":
            self.lits = self.lits | {f}
            for g in f.a:
                if self._learn(g) is None:
                    return None
            return self
        if f.op == "or":
            live = [g for g in f.a if self.decide(g) is not False]
            if not live:
                return None
            if len(live) == 1:
                return self._learn(live[0])
            self.lits = self.lits | {f}
            return self
        if f.op == "not" and f.a[0].op == "or":
            for g in f.a[0].a:
                if self._learn(fnot(g)) is None:
                    return None
            return self
        if f.op == "not" and f.a[0].op == "and":
            live = [g for g in f.a[0].a if self.decide(g) is not True]
            if not live:
                return None
            if len(live) == 1:
                return self._learn(fnot(live[0]))
            self.lits = self.lits | {f}
            return self
        if self.decide(f) is False:
            return None
        self.lits = self.lits | {f}
        if f.op == "atom":
            if f.a[0] == "ge":
                return self.add_ineq(f.a[1])
            if f.a[0] == "eq":
                return self.add_eq(f.a[1])
            if f.a[0] == "bytes" and len(f.a[3]) <= 8:
                _, sid, pos, b = f.a
                for en in ("be", "le"):
                    s = _peek(sid, pos, len(b), en)
                    if s is not None:
                        v = int.from_bytes(b, "big" if s.key[3] == "be" else "little")
                        self.b[s] = (v, v)
        elif f.op == "not":
            g = f.a[0]
            if g.op == "atom" and g.a[0] == "eq":
                return self.add_ne(g.a[1])
            if g.op == "atom" and g.a[0] == "bytes" and len(g.a[3]) <= 8:
                _, sid, pos, b = g.a
                for en in ("be", "le"):
                    s = _peek(sid, pos, len(b), en)
                    if s is not None:
                        v = int.from_bytes(b, "big" if s.key[3] == "be" else "little")
                        lo, hi = self.b.get(s, (s.lo, s.hi))
                        if v == lo:
                            lo += 1
                        if v == hi:
                            hi -= 1
                        if lo > hi:
                            return None
                        self.b[s] = (lo, hi)
        return self

    def add_ne(self, l):
        if len(l.t) == 1 and abs(l.t[0][1]) == 1:
            s, k = l.t[0]
            v = -l.c * k
            lo, hi = self.b.get(s, (s.lo, s.hi))
            if v == lo:
                lo += 1
            if v == hi:
                hi -= 1
            if lo > hi:
                return None
            self.b[s] = (lo, hi)
            return self
        if self.prove_ge0(l):
            return self.add_ineq(l - 1)
        if self.prove_ge0(l.neg()):
            return self.add_ineq(l.neg() - 1)
        return self

    def add_eq(self, l):
        if self.add_ineq(l) is None:
            return None
        return self.add_ineq(l.neg())

    def add_ineq(self, l):
        """l >= 0"""
        if not l.t:
            return self if l.c >= 0 else None
        lo, hi = self.rng(l)
        if hi < 0:
            return None
        if lo >= 0:
            return self
        # tighten the bounds of each symbol
        work = [l]
        guard = 0
        while work and guard < 40:
            guard += 1
            c = work.pop()
            clo, chi = self.rng(c)
            if chi < 0:
                return None
            for s, k in c.t:
                slo, shi = self.b.get(s, (s.lo, s.hi))
                if k > 0:
                    rest = chi - k * shi
                    # k*s >= -rest
                    n = -(rest // k)
                    if n > slo:
                        if n > shi:
                            return None
                        self.b[s] = (n, shi)
                else:
                    rest = chi - k * slo
                    n = rest // (-k)
                    if n < shi:
                        if n < slo:
                            return None
                        self.b[s] = (slo, n)
        if len(l.t) > 1 and l not in self.ineqs:
            self.ineqs = self.ineqs + (l,)
            if len(self.ineqs) > 80:
                self.ineqs = self.ineqs[-80:]
            for c in self.ineqs:
                for s, k in c.t:
                    pass
        # propagate once through the stored inequalities
        for c in self.ineqs:
            clo, chi = self.rng(c)
            if chi < 0:
                return None
            for s, k in c.t:
                slo, shi = self.b.get(s, (s.lo, s.hi))
                if k > 0:
                    n = -((chi - k * shi) // k)
                    if n > slo:
                        if n > shi:
                            return None
                        self.b[s] = (n, shi)
                else:
                    n = (chi - k * slo) // (-k)
                    if n < shi:
                        if n < slo:
                            return None
                        self.b[s] = (slo, n)
        return self

    # ---- merging
    def shape(self):
        return (frozenset(self.mem.items()), frozenset(self.streams.items()), self.tags)

def _peek(sid, pos, w, en):
    if w == 1:
        en = "be"
    from domain import _syms
    return _syms.get(("int", (sid, pos, w, en)))

def merge(a, b):
    """Joins two states with identical memory and streams."""
    r = a.copy()
    r.pc = pc_merge(a.pc, b.pc)
    r.lits = a.lits & b.lits
    nb = {}
    for s, (lo, hi) in a.b.items():
        lo2, hi2 = b.b.get(s, (s.lo, s.hi))
        lo, hi = min(lo, lo2), max(hi, hi2)
        if (lo, hi) != (s.lo, s.hi):
            nb[s] = (lo, hi)
    r.b = nb
    sb, sa = set(b.ineqs), set(a.ineqs)
    keep = [c for c in a.ineqs if c in sb or b.prove_ge0(c, 2)]
    ks = set(keep)
    keep += [c for c in b.ineqs if c not in ks and c not in sa and a.prove_ge0(c, 2)]
    r.ineqs = tuple(keep)
    return r

def merge_all(states, cap=None):
    groups = {}
    order = []
    for s in states:
        k = s.shape()
        if k in groups:
            groups[k] = merge(groups[k], s)
        else:
            groups[k] = s
            order.append(k)
    return [groups[k] for k in order]
