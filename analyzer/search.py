"""Byte-pattern search functions: verified once per pattern, then summarised.

A local function that receives byte data and a constant pattern and runs a loop of its own is analysed on
symbolic data "D".  Let al be the alignment examined by an iteration.  The summary "index of the first (last)
occurrence" is used when every path of the analysis satisfies
  R1  a hit is reported for alignment al only, with every pattern byte compared there;
  R2  a step from al to al' refutes every alignment it leaves behind;
  R3  the search gives up only when no alignment is left.
"""
from domain import *
from state import *


def has_loop(I, name, seen=None):
    own = seen is False
    seen = set() if seen is None else seen
    if not own:
        if name in seen:
            return False
        seen.add(name)
    b = I.body(name)
    if any(isinstance(c, tuple) for c in b.wto):
        return True
    if own:
        return False
    for blk in b.blocks:
        if blk and blk["t"] and blk["t"][0] == "call":
            n = blk["t"][1].get("body")
            if n in I.raw and I.raw[n]["local"] and has_loop(I, n, seen):
                return True
    return False


def shape(I, st, v, data, n, depth=0):
    """The same kind of value with other bytes."""
    if isinstance(v, (VRef, VCRef)) and depth < 6:
        x = shape(I, st, I.read_loc(st, I.deref(v)), data, n, depth + 1)
        return None if x is None else VCRef(x)
    if isinstance(v, VSlice):
        return VSlice(VCRef(data), ZERO, n)
    if isinstance(v, (VSeq, VArr)):
        return data
    return None


def applicable(I, st, name, vals):
    b = I.raw[name]
    if len(vals) != 2 or b["args"] != 2:
        return None
    t = I.types[b["locals"][0]]
    if t["k"] == "adt" and t["path"] == "std::option::Option" and I.types[t["args"][0]]["s"] == "usize":
        kind = "opt"
    elif t["k"] == "bool":
        kind = "bool"
    else:
        return None
    m = I.models
    xs = []
    for i in (0, 1):
        tt = I.types[b["locals"][i + 1]]
        hops = 0
        while tt["k"] == "ref" and hops < 4:
            tt = I.types[tt["e"]]
            hops += 1
        if tt["k"] not in ("slice", "array", "str", "adt"):
            return None
        x = m.bytes_of(I, st, vals[i])
        if x is None:
            return None
        xs.append(x)
    cs = [m.const_bytes(x) for x in xs]
    if cs[1] is not None and cs[0] is None:
        order = (0, 1)
    elif cs[0] is not None and cs[1] is None:
        order = (1, 0)
    else:
        return None
    pat = cs[order[1]]
    if not pat or not has_loop(I, name, None if kind == "opt" else False):
        return None
    return kind, order, pat, xs[order[0]]


def try_search(I, st, name, vals):
    a = applicable(I, st, name, vals)
    if a is None:
        return None
    kind, order, pat, data = a
    n = seq_len(data)
    key = (name, order, pat, n.c if n.is_const() else None)
    r = I.search_memo.get(key)
    if r is None:
        r = I.search_memo[key] = verify(I, st, name, vals, kind, order, pat, n)
        I.searches.append((name, pat, r))
    if r[0] == "na":
        return None
    if r[0] == "bad":
        I.ev("searchbad", name=name, pat=pat, why=r[1])
    for w in r[2]:
        I.events.append(w)
    m = I.models
    if kind == "bool":
        return [(s, VBool(TRUE if b else FALSE)) for s, b in I.fork(st, m.has_const(I, st, data, pat))]
    return m.found_index(I, st, data, pat, r[1] == "last")


def verify(I, st, name, vals, kind, order, pat, n):
    """("ok", which, events) / ("bad", reasons, events) / ("na", None, [])"""
    from interp import Interp, Abort
    J = Interp(I.facts, I.models)
    J.bodies = I.bodies
    J.searching = True
    J.summarise_search = False
    s0 = State()
    DLEN = n if n.is_const() else lin(stream_len("D"))
    D = VSeq(((DLEN, ("s", "D", ZERO)),))
    if DLEN.t:
        s0.add_ineq(Lin(2 ** 63 - 1) - DLEN)
    args = [None, None]
    args[order[0]] = shape(I, st, vals[order[0]], D, DLEN)
    args[order[1]] = shape(I, st, vals[order[1]], seq_const(pat), Lin(len(pat)))
    if None in args:
        return ("na", None, [])
    try:
        outs = J.run_body(name, args, s0)
    except Abort as e:
        return ("bad", [f"the search could not be analysed: {e}"], [])
    evs = [e for e in J.events if e["k"] in ("oblig", "unmodelled")]
    fixes = [e for e in J.events if e["k"] == "loop" and e["phase"] == "fix"]
    peels = [e for e in J.events if e["k"] == "loop" and e["phase"] == "peel"]
    if not fixes:
        return ("na", None, []) if not peels else ("bad", ["loop without a repeating iteration"], evs)
    heads = {(e["body"], e["head"]) for e in fixes}
    if len(heads) > 1:
        return ("bad", ["nested search loops whose progress is not related to the pattern"], evs)
    if any(e["k"] == "unmodelled" for e in J.events):
        return ("bad", ["calls a function outside the analysed library surface"], evs)
    return Verify(J, pat, DLEN, fixes, [p for p in peels if (p["body"], p["head"]) in heads], outs, kind).run(evs)


class Verify:
    def __init__(self, J, pat, L, fixes, peels, outs, kind):
        self.J, self.pat, self.L, self.fixes, self.peels, self.outs, self.kind = J, pat, L, fixes, peels, outs, kind
        self.bad = []
        self.obl = 0

    def hit(self, v):
        """Outcome -> (is a hit, index or None)."""
        if self.kind == "bool":
            if isinstance(v, VBool) and v.f in (TRUE, FALSE):
                return v.f is TRUE, None
            return None, None
        if isinstance(v, VEnum):
            if v.v == 0:
                return False, None
            if isinstance(v.fs[0], VInt):
                return True, v.fs[0].l
        return None, None

    def known(self, s, al):
        return all(s.decide(atom("bytes", "D", al + i, self.pat[i:i + 1])) is True for i in range(len(self.pat)))

    def run(self, evs):
        pat, m, L = self.pat, len(self.pat), self.L
        hs = {}
        for e in self.fixes:
            for lp, s in e["syms"].items():
                hs[s] = e
        als = {}                       # id(event) -> alignment expression
        hits, misses = [], []
        for s, v in self.outs:
            h, ix = self.hit(v)
            if h is None:
                return ("bad", ["result is neither a definite hit nor a definite miss"], evs)
            if not h:
                misses.append(s)
                continue
            if ix is None:
                ix = self.locate(s, hs)
                if ix is None:
                    return ("bad", ["a hit is reported although not every pattern byte was compared at one alignment"], evs)
            hits.append((s, ix))
        entry_al = []
        for s, ix in hits:
            e = next((hs[x] for x in ix.syms() if x in hs), None)
            self.obl += 1
            if not self.known(s, ix):
                self.bad.append(f"reports a hit at index {ix} without having compared every byte of the pattern there")
            if e is None:
                entry_al.append(ix)
            elif als.setdefault(id(e), ix) is not ix:
                self.bad.append("hits are reported for two different alignments of one iteration")
        if not als:
            return ("bad", ["no iteration of the loop can report a hit"] + self.bad, evs)
        base = next(iter(als.values()))
        for e in self.fixes:
            if id(e) not in als:
                self.bad.append("an entry of the loop can never report a hit")
        if self.bad:
            return ("bad", self.bad, evs)
        # the alignment the search starts with
        starts = []
        for e in self.fixes:
            mm = self.leaves(e, e["entry0"])
            a = None if mm is None else self.sub(als[id(e)], mm)
            starts.append(a)
        st0 = self.fixes[0]["entry0"]
        if all(a is not None and st0.prove_eq(a, ZERO) for a in starts):
            which = "first"
        elif all(a is not None and st0.prove_eq(a, L - m) for a in starts):
            which = "last"
        else:
            return ("bad", [f"the search starts at alignment {starts[0]}, not at the first or last one"], evs)
        a0 = ZERO if which == "first" else L - m
        for a in entry_al:
            if a is not a0:
                self.bad.append(f"reports index {a} before the first iteration is over")
        sign = 1 if which == "first" else -1
        # R2
        for e in self.fixes:
            al = als[id(e)]
            for k, b, k2, h in e["backs"]:
                mm = self.leaves(e, b)
                self.step(b, al, None if mm is None else self.sub(al, mm), sign)
        for p in self.peels:
            for k, b in p["backs"]:
                e = next((e for e in self.fixes if e["entry"] is b or True), None)
                mm = self.leaves(e, b)
                self.step(b, a0, None if mm is None else self.sub(als[id(e)], mm), sign)
        # R3
        for s in misses:
            self.obl += 1
            if not any(self.exhausted(s, al, sign) for al in list(als.values()) + [a0]) and not s.prove_ge0(Lin(m) - L - 1):
                self.bad.append("gives up although an alignment that was not examined may still match")
        self.bad = list(dict.fromkeys(self.bad))
        if self.bad:
            return ("bad", self.bad, evs)
        return ("ok", which, evs, self.obl)

    def locate(self, s, hs):
        for x in hs:
            for c in range(-len(self.pat), 1):
                if self.known(s, lin(x) + c):
                    return lin(x) + c
        for a in (ZERO, self.L - len(self.pat)):
            if self.known(s, a):
                return a
        return None

    def leaves(self, e, st):
        from loops import leaf, leaf_lin
        mm = {}
        for lp, s in e["syms"].items():
            v = leaf_lin(leaf(st, lp))
            if v is None:
                return None
            mm[s] = v
        return mm

    def sub(self, l, mm):
        from loops import subst_lin
        return subst_lin(l, mm)

    def tables(self, l):
        return [s for s in l.syms() if s.kind == "tbl"]

    def at_byte(self, l, t, b):
        """l with the table looked up for byte value b."""
        return l.subst({t: Lin(t.aux[0][b] if b < len(t.aux[0]) else 0)})

    def cases(self, s, exprs):
        """[(state, substitution, byte position or None, byte)] for every value of the byte that selects a table entry."""
        ts = []
        for l in exprs:
            for t in self.tables(l):
                if t not in ts:
                    ts.append(t)
        if not ts:
            yield s, {}, None, None
            return
        if len({t.aux[1] for t in ts}) != 1:
            raise ValueError
        ix = ts[0].aux[1]
        if len(ix.t) != 1 or ix.c or ix.t[0][1] != 1 or ix.t[0][0].kind != "int" or ix.t[0][0].key[2] != 1:
            raise ValueError
        pos = ix.t[0][0].key[1]
        for b in range(256):
            if s.decide(atom("bytes", "D", pos, bytes([b]))) is False:
                continue
            yield s, {t: Lin(t.aux[0][b]) for t in ts if b < len(t.aux[0])}, pos, b

    def refuted(self, s, al, pos, b):
        if pos is not None:
            p = pos - al
            if p.is_const() and 0 <= p.c < len(self.pat) and self.pat[p.c] != b:
                return True
        if s.decide(atom("bytes", "D", al, self.pat)) is False:
            return True
        r = s.copy()
        for i in range(len(self.pat)):
            if r.assume(atom("bytes", "D", al + i, self.pat[i:i + 1])) is None:
                return True
        if pos is not None and r.assume(atom("bytes", "D", pos, bytes([b]))) is None:
            return True
        return any(r.decide(f) is False for f in pc_list(s.pc))

    def step(self, s, al, al2, sign):
        if al2 is None:
            self.bad.append("the next alignment is not a known expression")
            return
        d = (al2 - al).scale(sign)
        try:
            for s1, mp, pos, b in self.cases(s, [d]):
                k = d.subst(mp)
                self.obl += 1
                if not k.is_const():
                    self.bad.append(f"moves on by {k}, which is not determined by the compared bytes")
                    return
                if k.c <= 0:
                    self.bad.append("does not move on")
                    return
                for j in range(k.c):
                    if not self.refuted(s1, al + j * sign, pos, b):
                        at = "" if b is None else f" after seeing byte {b:#04x}"
                        self.bad.append(f"moves on by {k.c}{at} although the pattern may match {j} further on")
                        break
        except ValueError:
            self.bad.append("the step depends on more than one byte of the data")

    def exhausted(self, s, al, sign):
        ls = []
        for l in s.ineqs:
            ts = self.tables(l)
            if ts and all(len(t.aux[1].t) == 1 and t.aux[1].t[0][0].kind == "int" and (t.aux[1].t[0][0].key[1] - al).is_const() for t in ts):
                ls.append(l)
        try:
            for s1, mp, pos, b in self.cases(s, ls):
                if mp:
                    s1 = s.copy()
                    feas = True
                    for l in ls:
                        if s1.add_ineq(l.subst(mp)) is None:
                            feas = False
                            break
                    if not feas:
                        continue
                done = False
                for k in range(len(self.pat) + 1):
                    a = al + k * sign
                    if s1.prove_ge0(a + len(self.pat) - self.L - 1) if sign > 0 else s1.prove_ge0(ZERO - a - 1):
                        done = True
                        break
                    if not self.refuted(s1, a, pos, b):
                        break
                if not done:
                    return False
            return True
        except ValueError:
            return False
