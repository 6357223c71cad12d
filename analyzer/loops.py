"""Loops: bounded unrolling, otherwise a partitioned fixpoint with affine invariants and sequence templates."""
from domain import *
from state import *

import os
DBG = os.environ.get('LOOPDBG')
UNROLL_ITERS = 300
UNROLL_STATES = 6
UNROLL_BLOCKS = 6000
UNROLL_SYM_EXITS = 20
MAX_KEYS = 96
MAX_ROUNDS = 30


def snapshot(self, fr):
    return ({k: list(v) for k, v in fr.pend.items()}, len(fr.rets), len(self.events), dict(self.unmodelled))


def restore(self, fr, snap):
    pend, nr, ne, um = snap
    fr.pend = {k: list(v) for k, v in pend.items()}
    del fr.rets[nr:]
    del self.events[ne:]
    self.unmodelled = um


def one_pass(self, fr, comp, st):
    """Runs one iteration from the head; returns the states arriving back at the head."""
    head = comp[0]
    saved = fr.pend.pop(head, None)
    self.loop_depth += 1
    self.run_block(fr, head, st)
    for c in comp[1]:
        self.run_comp(fr, c)
    self.loop_depth -= 1
    backs = fr.pend.pop(head, [])
    if saved:
        fr.pend[head] = saved
    for s in backs:
        self.prune(fr, s, head)
    return merge_all(backs) if len(backs) > 1 else backs


def cached_pass(self, fr, comp, h, memo):
    """one_pass, replaying the recorded effects when the same head state is run again."""
    key = (frozenset(h.mem.items()), frozenset(h.streams.items()), frozenset(h.b.items()), h.ineqs, h.lits, id(h.pc), h.tags)
    r = memo.get(key)
    if r is None:
        before = {k: len(v) for k, v in fr.pend.items()}
        nr, ne, ng = len(fr.rets), len(self.events), len(self.guards) if self.guards is not None else 0
        um = dict(self.unmodelled)
        backs = one_pass(self, fr, comp, h.copy())
        pend = {k: [s.copy() for s in v[before.get(k, 0):]] for k, v in fr.pend.items()}
        memo[key] = (h, [s.copy() for s in backs], pend, [(s.copy(), v) for s, v in fr.rets[nr:]], self.events[ne:],
                     self.guards[ng:] if self.guards is not None else [],
                     {k: n - um.get(k, 0) for k, n in self.unmodelled.items() if n != um.get(k, 0)})
        return backs
    _, backs, pend, rets, events, guards, um = r
    for k, v in pend.items():
        if v:
            fr.pend.setdefault(k, []).extend(s.copy() for s in v)
    fr.rets.extend((s.copy(), v) for s, v in rets)
    self.events.extend(events)
    if self.guards is not None:
        self.guards.extend(guards)
    for k, n in um.items():
        self.unmodelled[k] = self.unmodelled.get(k, 0) + n
    return [s.copy() for s in backs]


def exits_count(fr):
    return sum(len(v) for v in fr.pend.values()) + len(fr.rets)


def run_loop(self, fr, comp, entry):
    self.prune(fr, entry, comp[0])
    # 1. unrolling
    snap = snapshot(self, fr)
    steps0 = self.steps
    fixes0 = self.fixes
    states = [entry.copy()]
    symexits = 0
    ok = True
    it = 0
    intr = False
    while states:
        it += 1
        if it > UNROLL_ITERS or len(states) > UNROLL_STATES or self.steps - steps0 > UNROLL_BLOCKS or symexits > (UNROLL_SYM_EXITS if not self.searching else 400 if self.loop_depth else 0):
            ok = False
            break
        nxt = []
        n0 = exits_count(fr)
        for s in states:
            nxt += one_pass(self, fr, comp, s)
        if nxt and exits_count(fr) > n0:
            symexits += 1
        if any("intr" in s.tags and "intr" not in entry.tags for s in nxt):
            ok = False
            break
        states = merge_all(nxt) if len(nxt) > 1 else nxt
        if states and symexits and (self.no_unroll and it >= 2 or self.fixes > fixes0 or not self.searching and symexits > 1 and self.steps - steps0 > 1500):
            ok = False
            break
    if ok:
        return
    restore(self, fr, snap)
    # 2. peel the first iteration, then a fixpoint from its back states
    lid = (fr.ctx, comp[0])
    first = entry.copy()
    serial = self.walk_tag(fr, first, None, "peel")
    with_stack(self, serial)
    backs = one_pass(self, fr, comp, first)
    drop_stack(self, serial)
    backs = [s for s in backs if not stutter(self, entry, s)]
    # a buffer kept from one iteration to the next: its first content is worth a case more
    kept = len(backs) == 3 and any(kind == "seq" for s in backs for kind, _ in diff_states(entry, s).values())
    if len(backs) > (3 if kept else 2):
        restore(self, fr, snap)
        fix_loop(self, fr, comp, entry, lid + ("e",), entry)
        return
    self.ev("loop", id=lid, body=fr.body.name, head=comp[0], phase="peel", entry=entry, serial=serial,
            backs=[(None, s) for s in backs], heads={None: entry})
    if not backs:
        return
    for i, s in enumerate(group_entries(self, backs)):
        fix_loop(self, fr, comp, s, lid + (i,), entry)


def with_stack(self, serial):
    if serial is not None:
        self.walk_stack.append(serial)


def drop_stack(self, serial):
    if serial is not None:
        self.walk_stack.pop()


def stutter(self, a, b):
    """b is a apart from a retried interruption."""
    if "intr" not in b.tags or "intr" in a.tags:
        return False
    return a.mem == b.mem and a.streams == b.streams


def group_entries(self, states):
    return states

# ---------------------------------------------------------------- leaves of values

def finite(v):
    """A value without symbolic numbers."""
    if isinstance(v, VBool):
        return v.f is TRUE or v.f is FALSE
    if isinstance(v, VInt):
        return v.l.is_const()
    if isinstance(v, (VEnum, VAgg)):
        return all(finite(x) for x in v.fs)
    if isinstance(v, VFn):
        return True
    return False


def diff(a, b, path, out):
    if a is b or a == b:
        return
    if isinstance(a, Lin) and isinstance(b, Lin):
        out[path] = ("int", None)
        return
    if type(a) is not type(b):
        out[path] = ("top", None)
        return
    if isinstance(a, VInt):
        out[path] = ("int", a.t) if a.t == b.t else ("top", None)
    elif isinstance(a, VBool):
        out[path] = ("bool", None)
    elif isinstance(a, VSeq):
        out[path] = ("seq", None)
    elif isinstance(a, VEnum):
        if a.v == b.v and len(a.fs) == len(b.fs):
            for i, (x, y) in enumerate(zip(a.fs, b.fs)):
                diff(x, y, path + (i,), out)
        else:
            out[path] = ("enum", None)
    elif isinstance(a, (VAgg, VClo)) and len(a.fs) == len(b.fs) and (not isinstance(a, VClo) or a.body == b.body):
        for i, (x, y) in enumerate(zip(a.fs, b.fs)):
            diff(x, y, path + (i,), out)
    elif isinstance(a, VObj) and a.kind == b.kind and len(a.fs) == len(b.fs):
        for i, (x, y) in enumerate(zip(a.fs, b.fs)):
            diff(x, y, path + (i,), out)
    elif isinstance(a, VSlice) and a.base == b.base:
        diff(a.off, b.off, path + ("off",), out)
        diff(a.n, b.n, path + ("n",), out)
    elif isinstance(a, VCRef):
        diff(a.val, b.val, path + ("*",), out)
    elif isinstance(a, VArr) and len(a.els) == len(b.els):
        for i, (x, y) in enumerate(zip(a.els, b.els)):
            diff(x, y, path + (i,), out)
    else:
        out[path] = ("top", None)


def get_leaf(v, path):
    for e in path:
        if e == "off":
            v = v.off
        elif e == "n":
            v = v.n
        elif e == "*":
            v = v.val
        elif isinstance(v, VArr):
            v = v.els[e] if e < len(v.els) else None
        else:
            v = v.fs[e] if isinstance(v, (VEnum, VAgg, VClo, VObj)) and e < len(v.fs) else None
        if v is None:
            return None
    return v


def set_leaf(v, path, new):
    if not path:
        return new
    e = path[0]
    if e == "off":
        return VSlice(v.base, set_leaf(v.off, path[1:], new), v.n)
    if e == "n":
        return VSlice(v.base, v.off, set_leaf(v.n, path[1:], new))
    if e == "*":
        return VCRef(set_leaf(v.val, path[1:], new))
    if isinstance(v, VArr):
        return VArr(v.els[:e] + (set_leaf(v.els[e], path[1:], new),) + v.els[e + 1:])
    fs = v.fs[:e] + (set_leaf(v.fs[e], path[1:], new),) + v.fs[e + 1:]
    if isinstance(v, VEnum):
        return VEnum(v.v, fs)
    if isinstance(v, VAgg):
        return VAgg(fs)
    if isinstance(v, VClo):
        return VClo(v.body, fs)
    return VObj(v.kind, fs)


def diff_states(a, b):
    """{(cell, path): kind}"""
    out = {}
    for c in a.mem:
        if c in b.mem:
            o = {}
            diff(a.mem[c], b.mem[c], (), o)
            for p, k in o.items():
                out[(c, p)] = k
    for sid in a.streams:
        x, y = a.streams[sid], b.streams[sid]
        if x.pos is not y.pos:
            out[(("stream", sid), ("pos",))] = ("int", "u64") if x.pos is not None and y.pos is not None else ("top", None)
        if x.via != y.via:
            out[(("stream", sid), ("via",))] = ("via", join_via(x.via, y.via))
    return out


def join_via(a, b):
    """The wrapper through which the position is known: a buffered reader may hold read-ahead or not."""
    if a is None or a == b:
        return b
    return a if b is None else ("unknown", a, b)


def leaf(st, lp):
    c, p = lp
    if c[0] == "stream":
        s = st.streams[c[1]]
        return s.pos if p == ("pos",) else s.via
    v = st.mem.get(c)
    return None if v is None else get_leaf(v, p)


def leaf_lin(v):
    if isinstance(v, Lin):
        return v
    if isinstance(v, VInt):
        return v.l
    return None

# ---------------------------------------------------------------- substitution

def subst_lin(l, m):
    """Simultaneous substitution, also inside the keys of symbols."""
    if not l.t:
        return l
    m2 = {}
    for s, _ in l.t:
        if s in m:
            m2[s] = m[s]
        else:
            n = subst_sym(s, m)
            if n is not None:
                m2[s] = n
    return collapse(l.subst(m2)) if m2 else l

_sub_memo = {}

def subst_sym(s, m):
    """Replacement (Lin) of a symbol whose key mentions substituted symbols, or None."""
    if not isinstance(s.key, tuple):
        return None
    key = subst_obj(s.key, m)
    if key == s.key:
        return None
    if s.kind == "int":
        return lin(stream_int(*key))
    aux = subst_obj(s.aux, m) if s.aux is not None else None
    return lin(sym(s.kind, key, s.lo, s.hi, aux))


def subst_obj(o, m):
    if isinstance(o, Lin):
        return subst_lin(o, m)
    if isinstance(o, Sym):
        if o in m:
            l = m[o]
            return l
        n = subst_sym(o, m)
        return o if n is None else n.t[0][0]
    if isinstance(o, Fm):
        return subst_fm(o, m)
    if isinstance(o, tuple):
        n = tuple(subst_obj(x, m) for x in o)
        return o if n == o else n
    if isinstance(o, V):
        return subst_val(o, m)
    return o


def subst_fm(f, m):
    if f is TRUE or f is FALSE:
        return f
    if f.op == "not":
        return fnot(subst_fm(f.a[0], m))
    if f.op == "and":
        return fand(*[subst_fm(g, m) for g in f.a])
    if f.op == "or":
        return f_or(*[subst_fm(g, m) for g in f.a])
    a = subst_obj(f.a, m)
    if a == f.a:
        return f
    if a[0] == "ge":
        return ge0(a[1])
    if a[0] == "eq":
        return eq0(a[1])
    return atom(*a)


def subst_val(v, m):
    if isinstance(v, VInt):
        l = subst_lin(v.l, m)
        return v if l is v.l else VInt(l, v.t)
    if isinstance(v, VBool):
        f = subst_fm(v.f, m)
        return v if f is v.f else VBool(f)
    if isinstance(v, VSeq):
        n = tuple((subst_lin(a, m), subst_obj(b, m)) for a, b in v.segs)
        return v if n == v.segs else seq_norm(n)
    if isinstance(v, VAgg):
        return VAgg(tuple(subst_val(x, m) for x in v.fs))
    if isinstance(v, VEnum):
        return VEnum(v.v, tuple(subst_val(x, m) for x in v.fs))
    if isinstance(v, VClo):
        return VClo(v.body, tuple(subst_val(x, m) for x in v.fs))
    if isinstance(v, VArr):
        return VArr(tuple(subst_val(x, m) for x in v.els))
    if isinstance(v, VCRef):
        return VCRef(subst_val(v.val, m))
    if isinstance(v, VRef):
        return VRef(v.cell, subst_obj(v.path, m))
    if isinstance(v, VSlice):
        return VSlice(subst_val(v.base, m), subst_lin(v.off, m), subst_lin(v.n, m))
    if isinstance(v, VObj):
        return VObj(v.kind, tuple(subst_obj(x, m) for x in v.fs))
    if isinstance(v, VTop):
        return VTop(v.ty, subst_obj(v.tag, m))
    return v


def subst_state(st, m, base_pc):
    """Rewrites a state in place after learning equalities; conjuncts of base_pc are kept."""
    st.mem = {k: subst_val(v, m) for k, v in st.mem.items()}
    st.streams = {k: Stream(subst_lin(s.pos, m) if s.pos is not None else None, s.via) for k, s in st.streams.items()}
    items = []
    p = st.pc
    while p is not None and p is not base_pc:
        items.append(p.f)
        p = p.prev
    pc = p
    for f in reversed(items):
        g = subst_fm(f, m)
        if g is FALSE:
            return None
        if g is not TRUE:
            pc = PC(g, pc)
    st.pc = pc
    st.lits = frozenset(subst_fm(f, m) for f in st.lits) - {TRUE}
    if FALSE in st.lits:
        return None
    old = list(st.ineqs)
    bs = dict(st.b)
    st.ineqs = ()
    for s in m:
        b = st.b.pop(s, None)
    for l in old:
        if st.add_ineq(subst_lin(l, m)) is None:
            return None
    for s, e in m.items():
        lo, hi = bs.get(s, (s.lo, s.hi))
        if st.add_ineq(e - lo) is None or st.add_ineq(Lin(hi) - e) is None:
            return None
    for s in list(st.b):
        n = subst_sym(s, m)
        if n is not None:
            lo, hi = st.b.pop(s)
            st.add_ineq(n - lo)
            st.add_ineq(Lin(hi) - n)
    return st

def resolve(self, st, syms, base_pc):
    """Eliminates loop symbols that the facts determine."""
    for v in syms:
        cand = None
        for l in st.ineqs:
            k = l.coef(v)
            if abs(k) == 1 and st.prove_ge0(l.neg()):
                e = l.add(Lin(0, ((v, k),)), -1)
                e = e.neg() if k == 1 else e
                if any(s in syms or s.kind == "chunk" for s in e.syms()):
                    continue
                cand = e
                break
        if cand is None:
            lo, hi = st.b.get(v, (v.lo, v.hi))
            if lo == hi:
                cand = Lin(lo)
        if cand is not None:
            r = subst_state(st, {v: cand}, base_pc)
            if r is None:
                return None
    return st

# ---------------------------------------------------------------- fixpoint

class Leaf:
    __slots__ = ("kind", "t", "sym", "expr", "tmpl")


SMALL_VALUES = 6


def small_locals(fr, comp):
    """Locals of the loop that are only ever given constants, combined bits or extremes: such a number has few values."""
    from cfg import comp_blocks
    good, bad = set(), set()
    for b in comp_blocks(comp):
        blk = fr.body.blocks[b]
        if not blk:
            continue
        for x in blk["s"]:
            if x[0] != "=" or x[1][1]:
                continue
            r, n = x[2], x[1][0]
            if r[0] == "bin" and r[1] in ("BitOr", "BitAnd", "BitXor") or r[0] == "use" and "p" not in r[1]:
                good.add(n)
            elif r[0] == "use" and not r[1]["p"][1]:
                good.add(n)
            else:
                bad.add(n)
        t = blk["t"]
        if t and t[0] == "call" and t[3] and not t[3][1]:
            (good if t[1].get("path", "").rsplit("::", 1)[-1] in ("max", "min", "bitor") else bad).add(t[3][0])
    return good - bad


def fix_loop(self, fr, comp, entry, lid, entry0, quick=True, nosmall=None):
    head = comp[0]
    self.fixes += 1
    memo = {}
    serial = self.new_serial(fr)
    outer = snapshot(self, fr)
    saved_guards = self.guards
    self.guards = []
    changed = {}          # leaf path -> kind ("int","bool","enum","seq","top","via")
    types = {}
    keys = None
    tmpl = {}             # seq leaf -> VSeq template over hav symbols
    rel = {}              # int leaf -> affine expression over representative symbols
    syms = {}             # int leaf -> symbol
    tainted = set()
    rounds = 0
    badrel = set()
    badtmpl = {}
    deltas_hist = {}

    nosmall = set() if nosmall is None else nosmall
    smalls, demote = {}, set()   # int leaf with few values -> values met
    small_ok = small_locals(fr, comp)

    def check_small(k):
        for lp, val in k:
            if lp in smalls:
                if not isinstance(val, VInt):
                    demote.add(lp)
                else:
                    smalls[lp].add(val)
                    if len(smalls[lp]) > SMALL_VALUES:
                        demote.add(lp)
        return bool(demote)

    def symbol(lp):
        s = syms.get(lp)
        if s is None:
            t = types.get(lp)
            lo, hi = trange(t) if t else (-2 ** 63, 2 ** 64 - 1)
            if lp[1] and lp[1][-1] in ("off", "n") or t is None:
                lo, hi = 0, 2 ** 64 - 1
            s = syms[lp] = sym("hav", (lid, lp), lo, hi)
        return s

    def int_expr(lp):
        e = rel.get(lp)
        if e is not None:
            return e
        return lin(symbol(lp))

    def make(key, invs):
        s = entry.copy()
        s.b = dict(entry.b)
        self.walk_tag(fr, s, serial, key)
        for lp, k in sorted(changed.items(), key=repr):
            c, p = lp
            if k == "int":
                e = int_expr(lp)
                if c[0] == "stream":
                    s.streams[c[1]] = Stream(e, s.streams[c[1]].via)
                else:
                    old = get_leaf(s.mem[c], p)
                    s.mem[c] = set_leaf(s.mem[c], p, e if isinstance(old, Lin) else VInt(e, old.t))
            elif k == "via":
                s.streams[c[1]] = Stream(s.streams[c[1]].pos, types[lp])
            elif k == "top":
                if c[0] == "stream":
                    s.streams[c[1]] = Stream(None, s.streams[c[1]].via)
                else:
                    s.mem[c] = set_leaf(s.mem[c], p, VTop(None, ("hav", lid, lp)))
            elif k == "seq":
                s.mem[c] = set_leaf(s.mem[c], p, tmpl[lp])
        for lp, val in key:
            c, p = lp
            if val == "?":
                v = VBool(atom("pred", ("hav", lid, lp)))
            elif isinstance(val, tuple) and val and val[0] == "var":
                v = VEnum(val[1], tuple(VTop(None, ("hav", lid, lp, val[1], i)) for i in range(val[2])))
            else:
                v = val
            s.mem[c] = set_leaf(s.mem[c], p, v)
        for l in invs:
            if s.add_ineq(l) is None:
                return None
        return s

    def key_of(st):
        """[(state, key)] with symbolic booleans forked."""
        fins = sorted([lp for lp, k in changed.items() if k in ("bool", "enum")], key=repr)
        outs = [(st, ())]
        for lp in fins:
            nxt = []
            for s, ks in outs:
                v = leaf(s, lp)
                if isinstance(v, VBool) and not finite(v):
                    if lp in coarse:
                        nxt.append((s, ks + ((lp, "?"),)))
                        continue
                    for s2, b in self.fork(s, v.f):
                        self.write_leaf(s2, lp, VBool(TRUE if b else FALSE))
                        nxt.append((s2, ks + ((lp, VBool(TRUE if b else FALSE)),)))
                elif lp in coarse:
                    nxt.append((s, ks + ((lp, "?"),)))
                elif v is not None and finite(v):
                    nxt.append((s, ks + ((lp, v),)))
                elif isinstance(v, VEnum):
                    nxt.append((s, ks + ((lp, ("var", v.v, len(v.fs))),)))
                else:
                    nxt.append((s, ks + ((lp, "?"),)))
            outs = nxt
        return outs

    coarse = set()
    invs = []
    cands = None
    vals_at = lambda st, lps: {symbol(lp): leaf_lin(leaf(st, lp)) for lp in lps}

    def hav_map(st):
        """Values of the loop symbols in a state (for substitution)."""
        m = {}
        for lp, k in changed.items():
            if k == "int" and lp not in rel:
                v = leaf_lin(leaf(st, lp))
                if v is None:
                    return None
                m[symbol(lp)] = v
        for lp, t in tmpl.items():
            k = suffix_sym(t)
            v = leaf(st, lp) if k is not None else None
            if isinstance(v, VSeq):
                m[k] = seq_len(v)
        return m

    def passes(record, invs, quick=False):
        """Runs one iteration for every partition key until no new key appears; returns transitions or a change request."""
        nonlocal keys
        todo = []
        seen = {}
        trans = []
        for s, k in key_of(entry.copy()):
            if check_small(k):
                return ("small", None, None, None)
            if k not in seen:
                seen[k] = None
                todo.append(k)
        while todo:
            k = todo.pop(0)
            h = make(k, invs)
            if h is None:
                continue
            seen[k] = h
            with_stack(self, serial)
            backs = cached_pass(self, fr, comp, h, memo)
            drop_stack(self, serial)
            for b in backs:
                if stutter(self, h, b):
                    continue
                d = diff_states(h, b)
                new = {}
                for lp, (kind, t) in d.items():
                    if lp in changed:
                        old = changed[lp]
                        if kind == "via":
                            j = join_via(types[lp], join_via(entry.streams[lp[0][1]].via, t))
                            if j != types[lp]:
                                new[lp] = (kind, j)
                            continue
                        if kind == "top" and old not in ("top",):
                            if old in ("bool", "enum") and leaf(b, lp) is not None:
                                continue
                            new[lp] = ("top", None)
                    else:
                        pre = [q for q in changed if q[0] == lp[0] and lp[1][:len(q[1])] == q[1]]
                        if pre:
                            continue
                        new[lp] = (kind, t)
                if new:
                    return ("new", new, h, b)
                for b2, k2 in key_of(b):
                    if check_small(k2):
                        return ("small", None, None, None)
                    trans.append((k, h, b2, k2))
                    if k2 not in seen and not quick:
                        seen[k2] = None
                        todo.append(k2)
                        if len(seen) > MAX_KEYS:
                            return ("keys", None, None, None)
        return ("ok", trans, seen, None)

    def relate(trans):
        """Expresses integer leaves that move together through one symbol; True if anything changed."""
        ints = sorted([lp for lp, k in changed.items() if k == "int" and lp not in rel], key=lambda lp: (0 if lp[0][0] == "stream" else 1, repr(lp)))
        if len(ints) < 2:
            return False
        ds = {}
        for lp in ints:
            ds[lp] = []
            for k, h, b, k2 in trans:
                x, y = leaf_lin(leaf(h, lp)), leaf_lin(leaf(b, lp))
                ds[lp].append(y - x if x is not None and y is not None else None)
        for i, a in enumerate(ints):
            for b in ints[i + 1:]:
                if (a, b) in badrel or b in rel:
                    continue
                for k in (1, -1):
                    if all(x is not None and y is not None and x.scale(k) is y for x, y in zip(ds[a], ds[b])) and any(x is not ZERO for x in ds[a]):
                        ea, eb = leaf_lin(leaf(entry, a)), leaf_lin(leaf(entry, b))
                        rel[b] = eb + (int_expr(a) - ea).scale(k)
                        return True
        # two leaves that hold the same value (up to a constant) whenever an iteration starts
        for i, a in enumerate(ints):
            for b in ints[i + 1:]:
                if (a, b) in badrel or b in rel or not trans:
                    continue
                ea, eb = leaf_lin(leaf(entry, a)), leaf_lin(leaf(entry, b))
                ys = [(leaf_lin(leaf(t, a)), leaf_lin(leaf(t, b))) for _, _, t, _ in trans]
                if ea is None or eb is None or any(None in y for y in ys):
                    continue
                c = eb - ea
                if c.is_const() and all(y2 - y1 is c for y1, y2 in ys):
                    rel[b] = int_expr(a) + c
                    return True
        return False

    # ---- discovery of changing leaves
    while True:
        rounds += 1
        if rounds > MAX_ROUNDS:
            from interp import Abort
            raise Abort(f"no fixpoint for the loop in {fr.body.name}")
        # the first pass from the entry itself finds what changes
        r = passes(False, invs_basic(entry, changed, rel, symbol), quick)
        if DBG:
            print("  " * len(fr.ctx) + f"loop {fr.body.name[-30:]}:{head} round {rounds} {r[0]} {len(r[1]) if r[1] else 0} steps {self.steps}", r[1] if r[0] == "new" else "", flush=True)
        if r[0] == "new":
            for lp, (kind, t) in r[1].items():
                # a leaf below a structural change disappears
                for q in [q for q in changed if q[0] == lp[0] and q[1][:len(lp[1])] == lp[1] and q != lp]:
                    changed.pop(q)
                    rel.pop(q, None)
                    tmpl.pop(q, None)
                changed[lp] = kind
                types[lp] = t
                if kind == "seq":
                    tmpl[lp] = None
                if kind == "int" and lp not in nosmall and lp[0] == (fr.depth, lp[0][1]) and lp[0][1] in small_ok and not lp[1] \
                        and all(isinstance(x, VInt) and x.l.is_const() for x in (leaf(entry, lp), leaf(r[3], lp))):
                    changed[lp] = "enum"
                    smalls[lp] = set()
            for lp in [lp for lp, k in changed.items() if k == "seq" and tmpl.get(lp) is None]:
                tmpl[lp] = seq_template(self, entry, r[3], r[2], lp, changed, int_expr, badtmpl.get(lp, 0))
            restore(self, fr, outer)
            continue
        if r[0] == "keys" and smalls:
            demote |= set(smalls)
        if r[0] == "small" or r[0] == "keys" and demote:
            for lp in demote:
                changed[lp] = "int"
                nosmall.add(lp)
                smalls.pop(lp)
            demote.clear()
            restore(self, fr, outer)
            continue
        if r[0] == "keys":
            for lp, k in changed.items():
                if k in ("bool", "enum"):
                    coarse.add(lp)
            restore(self, fr, outer)
            continue
        trans = r[1]
        # relations
        if relate(trans):
            restore(self, fr, outer)
            continue
        # check relations and templates
        bad = False
        for k, h, b, k2 in trans:
            m = hav_map(b)
            for lp, e in list(rel.items()):
                v = leaf_lin(leaf(b, lp))
                if m is None or v is None or not b.prove_eq(subst_lin(e, m), v):
                    for a in changed:
                        badrel.add((a, lp))
                    rel.pop(lp)
                    bad = True
            for lp, t in list(tmpl.items()):
                v = leaf(b, lp)
                if m is None or not isinstance(v, VSeq) or not seq_matches(self, b, subst_val(t, m), v):
                    badtmpl[lp] = badtmpl.get(lp, 0) + 1
                    if badtmpl[lp] > 3:
                        changed[lp] = "top"
                        tmpl.pop(lp)
                    else:
                        tmpl[lp] = seq_template(self, entry, b, h, lp, changed, int_expr, badtmpl[lp])
                    bad = True
        if not bad:
            m = hav_map(entry)
            for lp, t in list(tmpl.items()):
                v = leaf(entry, lp)
                if m is None or not seq_matches(self, entry, subst_val(t, m), v):
                    badtmpl[lp] = badtmpl.get(lp, 0) + 1
                    if badtmpl[lp] > 3:
                        changed[lp] = "top"
                        tmpl.pop(lp)
                    else:
                        tmpl[lp] = seq_template(self, entry, b if trans else entry, h if trans else entry, lp, changed, int_expr, badtmpl[lp])
                    bad = True
        restore(self, fr, outer)
        if bad:
            continue
        break

    # ---- invariants (Houdini)
    reps = [lp for lp, k in changed.items() if k == "int" and lp not in rel]
    em = hav_map(entry) or {}
    cands = []
    for lp in reps:
        v, e = lin(symbol(lp)), leaf_lin(leaf(entry, lp))
        cands += [v - e, e - v]
        if lp[0][0] == "stream":
            cands.append(lin(stream_len(lp[0][1])) - v)
        lo, hi = entry.rng(e)
        cands += [v - lo, Lin(hi) - v]
    for i, a in enumerate(reps):
        for b in reps[i + 1:]:
            x = (lin(symbol(a)) - em[symbol(a)]) - (lin(symbol(b)) - em[symbol(b)])
            cands += [x, x.neg()]
    hs = set(symbol(lp) for lp in reps)
    for lp, t in tmpl.items():
        k = suffix_sym(t)
        if k is not None:
            hs.add(k)
            a = leaf(entry, lp)
            cands += [lin(k), lin(k) - seq_len(a), seq_len(a) - lin(k)]
            if len(a.segs) == 1 and a.segs[0][1][0] == "s":
                cands.append(t.segs[0][1][2] - a.segs[0][1][2])
            cands.append(t.segs[0][1][2])
    for g in list(dict.fromkeys(self.guards)):
        for a in atoms_of(g):
            if a.a[0] == "ge":
                ls = [a.a[1], a.a[1].neg() - 1]
            elif a.a[0] == "eq":
                ls = [a.a[1], a.a[1].neg()]
            else:
                continue
            for l in ls:
                ss = l.syms()
                if any(s in hs for s in ss) and all(s in hs or s.kind in ("len",) or s in entry_syms(entry) for s in ss):
                    cands += [l, l + 1]
    # lengths of templates are non-negative
    for t in tmpl.values():
        if t is not None:
            for n, _ in t.segs:
                if n.t:
                    cands.append(n)
    self.guards = saved_guards if saved_guards is not None else None
    cands = [l for l in dict.fromkeys(cands) if l.t]
    cands = [l for l in cands if entry.prove_ge0(subst_lin(l, em))]
    def consistent(trans):
        for k, h, b, k2 in trans:
            m = hav_map(b)
            for lp, e in rel.items():
                v = leaf_lin(leaf(b, lp))
                if m is None or v is None or not b.prove_eq(subst_lin(e, m), v):
                    return False
            for lp, t in tmpl.items():
                v = leaf(b, lp)
                if m is None or not isinstance(v, VSeq) or not seq_matches(self, b, subst_val(t, m), v):
                    return False
        return True

    def failing(trans):
        drop = set()
        for k, h, b, k2 in trans:
            m = hav_map(b)
            for l in cands:
                if l not in drop and (m is None or not b.prove_ge0(subst_lin(l, m))):
                    drop.add(l)
        return drop

    while quick:
        r = passes(False, cands, True)
        if r[0] != "ok":
            break
        drop = failing(r[1])
        restore(self, fr, outer)
        if not drop:
            break
        cands = [l for l in cands if l not in drop]
    restore(self, fr, outer)
    while True:
        r = passes(False, cands)
        if quick and (r[0] != "ok" or not consistent(r[1])):
            restore(self, fr, outer)
            self.guards = saved_guards
            return fix_loop(self, fr, comp, entry, lid, entry0, False, nosmall | demote)
        if r[0] == "small":
            restore(self, fr, outer)
            self.guards = saved_guards
            return fix_loop(self, fr, comp, entry, lid, entry0, False, nosmall | demote)
        if r[0] != "ok":
            restore(self, fr, outer)
            from interp import Abort
            raise Abort(f"unstable loop in {fr.body.name}")
        drop = failing(r[1])
        restore(self, fr, outer)
        if not drop:
            break
        cands = [l for l in cands if l not in drop]
    invs = cands

    # ---- final, recorded pass
    npend = {k: len(v) for k, v in fr.pend.items()}
    nrets = len(fr.rets)
    r = passes(True, invs)
    trans, heads = r[1], r[2]
    # taint: symbols that depend on how the reader chunks
    for _ in range(3):
        for lp in reps:
            v = symbol(lp)
            for k, h, b, k2 in trans:
                y = leaf_lin(leaf(b, lp))
                if y is not None and any(is_tainted(s, tainted) for s in syms_of_obj(y, set()) if s is not v):
                    tainted.add(v)
    for lp, t in tmpl.items():
        k = suffix_sym(t)
        if k is not None and any(is_tainted(s, tainted) for _, _, b, _ in trans if isinstance(leaf(b, lp), VSeq) for s in syms_of_obj(seq_len(leaf(b, lp)), set()) if s is not k):
            tainted.add(k)
    self.tainted |= tainted
    self.ev("loop", id=lid, body=fr.body.name, head=head, phase="fix", entry=entry, entry0=entry0, serial=serial, ints=[lp for lp, k in changed.items() if k == "int"], entry_keys=[k for _, k in key_of(entry.copy())],
            backs=[(k, b, k2, h) for k, h, b, k2 in trans], heads=heads, syms={lp: symbol(lp) for lp in reps},
            rel=dict(rel), changed=dict(changed), invs=list(invs), bound=loop_bound(self, trans, heads, changed, int_expr),
            tainted=set(tainted))
    # ---- symbols determined at the exits are eliminated
    sl = [symbol(lp) for lp in reps] if serial is None and not (self.searching and self.loop_depth == 0) else []
    for blk in list(fr.pend):
        lst = fr.pend[blk]
        keep = lst[:npend.get(blk, 0)]
        for s in lst[npend.get(blk, 0):]:
            if resolve(self, s, sl, entry.pc) is not None:
                keep.append(s)
        fr.pend[blk] = keep
    new = []
    for s, v in fr.rets[nrets:]:
        s.mem[("ret", 0)] = v
        if resolve(self, s, sl, entry.pc) is not None:
            new.append((s, s.mem.pop(("ret", 0))))
    fr.rets[nrets:] = new


def is_tainted(s, extra):
    return s.kind == "chunk" or s in extra


def entry_syms(st):
    c = getattr(st, "_es", None)
    out = set()
    for l in st.ineqs:
        out.update(l.syms())
    out.update(st.b)
    for v in st.mem.values():
        syms_of_val(v, out)
    return out


def syms_of_val(v, acc):
    if isinstance(v, VInt):
        acc.update(v.l.syms())
    elif isinstance(v, VSeq):
        for n, src in v.segs:
            acc.update(n.syms())
            syms_of_obj(src, acc)
    elif isinstance(v, (VAgg, VEnum, VClo)):
        for x in v.fs:
            syms_of_val(x, acc)
    elif isinstance(v, VObj):
        for x in v.fs:
            if isinstance(x, V):
                syms_of_val(x, acc)
            else:
                syms_of_obj(x, acc)
    elif isinstance(v, VSlice):
        acc.update(v.off.syms())
        acc.update(v.n.syms())
        syms_of_val(v.base, acc)
    elif isinstance(v, VCRef):
        syms_of_val(v.val, acc)
    elif isinstance(v, VArr):
        for x in v.els[:64]:
            syms_of_val(x, acc)
    elif isinstance(v, VBool):
        syms_of_obj(v.f, acc)


def invs_basic(entry, changed, rel, symbol):
    """Sound facts used while discovering: none beyond type ranges."""
    return []


def seq_matches(self, st, t, v):
    """Does content v match the template t (unknown template segments match anything of the same length)?"""
    if t == v:
        return True
    if not st.prove_eq(seq_len(t), seq_len(v)):
        return any(src[0] == "u" and isinstance(src[1], tuple) and src[1][:1] == ("havlen",) for _, src in t.segs) and len(t.segs) == 1
    segs = list(v.segs)
    for n, src in t.segs:
        r = self.split_segs(st, segs, n)
        if src[0] == "u" and isinstance(src[1], tuple) and src[1][:1] == ("hav",):
            if r is None:
                # unknown remainder at the end
                return (n, src) == t.segs[-1]
            segs = r[1]
            continue
        if r is None:
            return False
        part, segs = r
        p = seq_norm(part)
        if n is ZERO or st.prove_eq(n, ZERO):
            continue
        if len(p.segs) != 1:
            # all parts must continue the source
            off = ZERO
            for m, q in p.segs:
                if src_shift(src, off) != q and not same_src(st, src_shift(src, off), q):
                    return False
                off = off + m
            continue
        q = p.segs[0][1]
        if q != src and not same_src(st, src, q):
            return False
    return True


def same_src(st, a, b):
    if a[0] == b[0] == "s" and a[1] == b[1]:
        return st.prove_eq(a[2], b[2])
    if a[0] == b[0] == "f":
        return st.prove_eq(a[1], b[1])
    return a == b


def suffix_sym(t):
    """The length symbol of a template that holds the part of a stream that ends at a cursor."""
    if t is None or len(t.segs) != 1 or t.segs[0][1][0] != "s":
        return None
    n = t.segs[0][0]
    s = n.t[0][0] if len(n.t) == 1 and n.c == 0 and n.t[0][1] == 1 else None
    return s if s is not None and s.kind == "hav" and s.key[0] == "suf" else None


def suffix_template(a, b, entry, back, lp, changed, int_expr):
    if len(b.segs) != 1 or b.segs[0][1][0] != "s" or len(a.segs) > 1 or a.segs and (a.segs[0][1][0] != "s" or a.segs[0][1][1] != b.segs[0][1][1]):
        return None
    src = b.segs[0][1]
    eb = src[2] + b.segs[0][0]
    ea = a.segs[0][1][2] + a.segs[0][0] if a.segs else None
    for q, k in sorted(changed.items(), key=lambda x: (x[0][0][0] != "stream", repr(x[0]))):
        if k == "int":
            e0, x = leaf_lin(leaf(entry, q)), leaf_lin(leaf(back, q))
            if e0 is not None and x is not None and x - eb is (ZERO if ea is None else e0 - ea) and (ea is not None or x is eb):
                n = lin(sym("hav", ("suf", lp), 0, 2 ** 63))
                return VSeq(((n, ("s", src[1], int_expr(q) + (eb - x) - n)),))
    return None


def seq_template(self, entry, back, head, lp, changed, int_expr, attempt):
    """Generalises the entry content and the content after one iteration."""
    a, b = leaf(entry, lp), leaf(back, lp)
    tok = ("u", ("hav", lp, attempt))
    if attempt >= 3 or not isinstance(a, VSeq) or not isinstance(b, VSeq):
        n = seq_len(a) if isinstance(a, VSeq) else ZERO
        if attempt <= 3 and isinstance(b, VSeq) and back.prove_eq(n, seq_len(b)):
            return VSeq(((n, tok),))
        k = lin(sym("hav", ("len", lp, attempt), 0, 2 ** 63))
        return VSeq(((k, ("u", ("havlen", lp))),))
    deltas = []
    for q, k in changed.items():
        if k == "int":
            e0, h, x = leaf_lin(leaf(entry, q)), leaf_lin(leaf(head, q)), leaf_lin(leaf(back, q))
            if e0 is not None and x is not None and h is not None and (x - h).t + ((),) and x is not h:
                deltas.append((q, e0, h, x))
    deltas.sort(key=lambda d: 0 if d[0][0][0] == "stream" else 1)

    def gen(x, y):
        """Expression equal to x at the entry and to y after the iteration."""
        if x is y:
            return x
        for q, e0, h, z in deltas:
            for k in (1, -1):
                if y - x is (z - e0).scale(k):
                    return x + (int_expr(q) - e0).scale(k)
        return None

    if gen(seq_len(a), seq_len(b)) is None:
        t = suffix_template(a, b, entry, back, lp, changed, int_expr)
        if t is not None:
            return t
    out = []
    sa, sb = list(a.segs), list(b.segs)
    i = j = 0
    used = ZERO
    while j < len(sb):
        nb, qb = sb[j]
        na, qa = sa[i] if i < len(sa) else (ZERO, None)
        if attempt < 2 and qa is not None and qa[0] == qb[0] and qa[0] in ("s", "f", "c") and attempt != 1:
            n = gen(na, nb)
            if n is not None:
                if qa == qb:
                    out.append((n, qa))
                    i += 1
                    j += 1
                    continue
                if qa[0] == "s" and qa[1] == qb[1]:
                    p = gen(qa[2], qb[2])
                    if p is not None:
                        out.append((n, ("s", qa[1], p)))
                        i += 1
                        j += 1
                        continue
        if qb[0] == "s" and (qa is None or qa[0] != "s"):
            # a stream part that is empty at the entry
            n = gen(ZERO, nb)
            if n is not None and n.t:
                out.append((n, qb))
                j += 1
                continue
        if qa is not None and qa[0] == qb[0] == "s" and qa[1] == qb[1] and na is nb:
            p = gen(qa[2], qb[2])
            if p is not None:
                out.append((na, ("s", qa[1], p)))
                i += 1
                j += 1
                continue
        if qa is not None and qa == qb:
            # the last part takes up the slack
            rest = seq_len(a)
            for n, _ in out:
                rest = rest - n
            if j == len(sb) - 1 and i == len(sa) - 1:
                out.append((rest, qa))
                return seq_norm(out)
        break
    if j < len(sb) or i < len(sa):
        total = seq_len(a)
        if not (total is seq_len(b)):
            t = gen(total, seq_len(b))
            if t is None:
                k = lin(sym("hav", ("len", lp, attempt), 0, 2 ** 63))
                return VSeq(((k, ("u", ("havlen", lp))),))
            total = t
        rest = total
        for n, _ in out:
            rest = rest - n
        if rest is not ZERO:
            out.append((rest, tok))
    return seq_norm(out)


def loop_bound(self, trans, heads, changed, int_expr):
    """Constant bound on the number of iterations, from a leaf that moves strictly towards a constant."""
    best = None
    ints = [lp for lp, k in changed.items() if k == "int"]
    if not trans:
        return 0
    for lp in ints:
        up = down = True
        lo = hi = None
        for k, h, b, k2 in trans:
            x, y = leaf_lin(leaf(h, lp)), leaf_lin(leaf(b, lp))
            if x is None or y is None:
                up = down = False
                break
            if up and not b.prove_ge0(y - x - 1):
                up = False
            if down and not b.prove_ge0(x - y - 1):
                down = False
            # range of the leaf at the back edge (new value)
            r = b.rng(y)
            lo = r[0] if lo is None else min(lo, r[0])
            hi = r[1] if hi is None else max(hi, r[1])
            # the value before the step is bounded in the states that continue
            rx = b.rng(x)
            lo, hi = min(lo, rx[0]), max(hi, rx[1])
        if (up or down) and lo is not None:
            n = hi - lo
            if best is None or n < best[0]:
                best = (n, lp)
    return best


def make_head(*a):
    raise NotImplementedError

houdini = loop_summary = make_head
