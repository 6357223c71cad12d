"""Checks the transition relation of loops that walk the items of a container against a description of the container.

A walk is a loop (peeled iterations and fixpoint) whose cursor, an integer of the loop state, starts where the first item is.
One item is described as a partial content; every transition compatible with it must move the cursor to the next item, must
not leave the loop, and must record the item's kind; every way out of the loop must give the answer that the kinds recorded
on the way require."""
from itertools import combinations

from domain import *
from state import pc_list
from loops import leaf, leaf_lin
from partial import Env
from core import short

STREAM = (("stream", "F"), ("pos",))

LONG = {"name": "long content", "len": (1 << 61, 1 << 62), "base": (0, 1 << 40), "wide": True}
SHORT = {"name": "short content", "len": (30000, 36870), "base": (0, 2000), "wide": False}
REGIMES = [LONG, SHORT]


ON = "the next item of the outer walk"
SKIP = ("skip",)
GENERIC_ANSWER = "the generic answer"


def generic(a):
    return a.startswith("~") or a in ("ArbitraryBinaryData", "PlainText")


def constants(pcs):
    """Byte strings the code compares the content with, in conjunctions of conditions."""
    out, seen = set(), set()

    def atoms(f, top, runs):
        if f.op == "atom":
            a = f.a
            if a[0] == "bytes":
                out.add(a[3])
                if top:
                    d = runs.setdefault((a[1], a[2].t), {})
                    for i, b in enumerate(a[3]):
                        d[a[2].c + i] = b
            elif a[0] == "trimmed":
                out.add(a[5])
            elif a[0] in ("has", "hasseq"):
                out.add(a[-1])
            else:
                out.update(x for x in flat(a) if isinstance(x, bytes))
        elif f.op in ("and", "or", "not"):
            for g in f.a:
                if top and f.op == "and" or g not in seen:
                    if not top:
                        seen.add(g)
                    atoms(g, top and f.op == "and", runs)

    def flat(a):
        for x in a:
            if isinstance(x, tuple):
                yield from flat(x)
            else:
                yield x

    for pc in pcs:
        runs = {}
        for f in pc:
            atoms(f, True, runs)
        for d in runs.values():
            run, last = b"", None
            for o in sorted(d):
                if last is not None and o != last + 1:
                    out.add(run)
                    run = b""
                run, last = run + bytes([d[o]]), o
            out.add(run)
    out.discard(b"")
    return sorted(out, key=lambda b: (len(b), b))


class Item:
    """bytes: {offset: value}; next(env, start) -> allowed positions; mark: kind recorded; answer: immediate answer; stop: ends the walk."""

    def __init__(self, name, content, next=None, mark=None, answer=None, stop=False, more=None):
        self.more = more
        self.name, self.content, self.next, self.mark, self.answer, self.stop = name, content, next, mark, answer, stop


def at(*parts):
    """{offset: byte} from (offset, bytes) pairs; None in a list leaves a byte open."""
    out = {}
    for o, b in parts:
        for i, x in enumerate(b):
            if x is not None:
                out[o + i] = x
    return out


def wide(n, w, order, regime):
    """A w-byte size whose low bytes are open: at least 2**24 (wide) or at least 2**8."""
    if w == 2:
        b = [1, None]
    elif regime["wide"]:
        b = [0] * (w - 4) + [1, None, None, None] if w > 4 else [1, None, None, None]
    else:
        b = [0] * (w - 2) + [1, None]
    return b if order == "be" else b[::-1]


def huge(w, order, regime):
    """[(name, size)]: sizes whose value needs the field's high bits, for contents long enough."""
    if not regime["wide"]:
        return []
    bs = [[0x81, 0x80, None, None], [0xFF, 0xFF, None, 0x81]] if w == 4 else [[0, 0, 0, 0x01, 0, None, None, None], [0, 0, 0, 0x82, 0x81, None, None, None], [0, 0, 0, 0, 0xFF, 0x80, None, None]]
    return [("".join("xx" if x is None else f"{x:02x}" for x in b), b if order == "be" else b[::-1]) for b in bs]


def exact(v, w, order):
    return list(v.to_bytes(w, "big" if order == "be" else "little"))


class Spec:
    """Description of one container walk."""
    name = ""
    function = ""
    outer = None           # enclosing walk
    closing = False        # what follows the last item decides the answer
    limit = 16             # at least this many items are examined

    def regimes(self):
        """Regimes besides the usual ones."""
        return []

    def header(self, env, count, e, outer=None):
        pass

    def first(self, env, e, outer=None):
        return ZERO

    def counts(self, regime):
        """[(value handed to header, number of items)] or None when there is no count."""
        return None

    def items(self, regime):
        return []

    def novel(self, consts, regime):
        """Further items, made of the byte strings that the code knows: what the format says of them."""
        return []

    def ends(self, regime):
        """Other ways the walk ends: [(name, {offset: byte} | None, at the end of the content)]"""
        return []

    def probe(self):
        """Items that are also checked in later iterations."""
        return ()

    def answer(self, marks):
        return None


def delta(h, s):
    n = h.pc.n if h.pc is not None else 0
    return pc_list(s.pc)[n:]


class Graph:
    """Loop events, their transitions and exits."""

    def __init__(self, run):
        self.run = run
        self.events = [e for e in run.events("loop") if e.get("serial") is not None]
        self.by = {e["serial"]: e for e in self.events}
        self.exits, self.early = {}, []
        for fam, ans, st in run.outcomes():
            if fam is None or "io" in st.tags or "intr" in st.tags:
                continue
            ats = [t for t in st.tags if isinstance(t, tuple) and t[0] == "at"]
            for t in ats:
                self.exits.setdefault((t[1], t[2]), []).append((ans, st))
            if not ats:
                self.early.append((ans, st))
        self.trans = {}
        for e in self.events:
            for x in e["backs"]:
                k = "peel" if e["phase"] == "peel" else x[0]
                if "intr" in x[1].tags:
                    continue
                self.trans.setdefault((e["serial"], k), []).append((x[1], None if e["phase"] == "peel" else x[2]))
        # leaving an inner walk within an iteration of the outer one
        for e in self.events:
            for x in e["backs"]:
                for t in x[1].tags:
                    if isinstance(t, tuple) and t[0] == "at" and t[1] != e["serial"] and t[1] in self.by and "intr" not in x[1].tags:
                        self.exits.setdefault((t[1], t[2]), []).append((ON, x[1]))
        # a peeled iteration continues in the loops that start from its back states
        self.after = {}
        for e in self.events:
            if e["phase"] == "fix":
                self.after[id(e["entry"])] = e

    def head(self, e, k):
        return e["entry"] if e["phase"] == "peel" else e["heads"].get(k)

    def keys(self, e):
        return ["peel"] if e["phase"] == "peel" else [k for k in e["heads"] if e["heads"][k] is not None]


def int_leaf(st, lp):
    v = leaf(st, lp)
    return None if v is None else leaf_lin(v)


class Checker:
    def __init__(self, run, spec, outer=None):
        self.run, self.spec, self.G = run, spec, outer.G if outer else Graph(run)
        self.outer = outer
        self.bad = {}
        self.n = 0
        self.proved = 0
        self.dcache = {}
        self.shared = None

    def fail(self, kind, key, text):
        self.bad.setdefault((kind, key), text)

    def delta(self, h, s):
        k = (id(h), id(s))
        r = self.dcache.get(k)
        if r is None:
            r = self.dcache[k] = delta(h, s)
        return r

    # ------------------------------------------------------------ finding the loop

    def env(self, regime, e, h, lp, d, count, n):
        """Environment of one iteration and the start of the item."""
        env = Env(regime["len"])
        P = int_leaf(h, lp)
        if P is None:
            return None, None
        P = P - d
        self.header(env, regime, e, count)
        if e["phase"] == "fix" and n is not None:
            own = {s for s, _ in P.t}
            for q, s in e["syms"].items():
                if s in own:
                    continue
                v0 = int_leaf(e["entry"], q)
                ds = set()
                for x in e["backs"]:
                    a, b = int_leaf(x[3], q), int_leaf(x[1], q)
                    ds.add((b - a).c if a is not None and b is not None and (b - a).is_const() else None)
                if v0 is not None and len(ds) == 1 and None not in ds:
                    v = env.lin(v0)
                    if v.is_const():
                        env.values[s] = Lin(v.c + n * ds.pop())
        P = env.lin(P)
        for s, _ in P.t:
            env.ranges[s] = regime["base"]
        env.ml.clear()
        return env, P

    def header(self, env, regime, e, count):
        o = self.outer_base(e) if self.outer else None
        for s, _ in (o.t if o is not None else ()):
            env.ranges[s] = regime["base"]
        self.spec.header(env, count, e, o)

    def outer_base(self, e):
        for t in e["entry"].tags:
            if isinstance(t, tuple) and t[0] == "at" and (t[1], t[2]) in self.outer.base:
                return self.outer.base[(t[1], t[2])]
        return None

    def start(self, env, e):
        return self.spec.first(env, e, self.outer_base(e) if self.outer else None)

    def candidates(self):
        """[(event, leaf, shift)]: loops entered with an integer that is where the first item starts."""
        out = []
        groups = {}
        for e in self.G.events:
            if self.outer and self.outer_base(e) is None:
                continue
            if e["phase"] == "fix" and any(p["phase"] == "peel" and any(x[1] is e["entry"] for x in p["backs"]) for p in self.G.events):
                continue
            groups[e["serial"]] = e
        for e in groups.values():
            for regime in REGIMES + self.spec.regimes():
                for count in self.count_values(regime):
                    env = Env(regime["len"])
                    self.header(env, regime, e, count)
                    if env.conj(pc_list(e["entry"].pc)) is False:
                        continue
                    want = env.lin(self.start(env, e))
                    for lp in self.leaves(e):
                        v = int_leaf(e["entry"], lp)
                        if v is None:
                            continue
                        d = env.lin(v) - want
                        if d.is_const() and abs(d.c) <= 64:
                            out.append((e, lp, d.c))
        return list(dict.fromkeys((e["serial"], lp, d) for e, lp, d in out))

    def leaves(self, e):
        if e["phase"] == "fix":
            return list(dict.fromkeys(list(e["ints"]) + [STREAM]))
        out = []
        for x in e["backs"]:
            f = self.G.after.get(id(x[1]))
            if f is not None:
                out += f["ints"]
        return list(dict.fromkeys(out + [STREAM]))

    def count_values(self, regime):
        c = self.spec.counts(regime)
        return [v for v, _ in c] if c else [None]

    # ------------------------------------------------------------ one step

    def step(self, e, k, lp, d, item, regime, count, n):
        """(transitions, exits) compatible with the item, with the checks that do not depend on history."""
        h = self.G.head(e, k)
        pos = int_leaf(h, lp)
        ck = (e["serial"], lp, d, regime["name"], count, n, item.name, pos)
        if self.shared and self.shared[0] == ck:
            env, P = self.shared[1]
        else:
            env, P = self.env(regime, e, h, lp, d, count, n)
            if env is None:
                return None
            env.put(P, item.content)
            if item.more:
                item.more(env, P)
            self.shared = (ck, (env, P))
        if P.is_const() and env.conj(pc_list(h.pc)) is False:
            return SKIP
        tr = [(b, k2) for b, k2 in self.G.trans.get((e["serial"], k), ()) if env.conj(self.delta(h, b)) is not False]
        ex = [(a, s) for a, s in self.G.exits.get((e["serial"], k), ()) if env.conj(self.delta(h, s)) is not False]
        self.n += 1
        return env, P, tr, ex

    def where(self, e):
        return f"{short(e['body'])}: loop at block {e['head']}"

    def check_item(self, e, k, lp, d, item, regime, count, n, out):
        r = self.step(e, k, lp, d, item, regime, count, n)
        if r is None:
            out.append(("next", f"{item.name}", f"{self.where(e)}: the position of the next item is not known"))
            return None
        if r is SKIP:
            return None
        env, P, tr, ex = r
        w = self.where(e)
        if item.answer is not None:
            a = {x for x, _ in ex}
            if item.answer is GENERIC_ANSWER:
                a = {GENERIC_ANSWER if generic(x) else x for x in a}
            if tr:
                out.append(("answer", item.name, f"{w}: {item.name} does not lead to {item.answer} at once; the walk goes on"))
            if a != {item.answer}:
                out.append(("answer", item.name, f"{w}: {item.name} leads to {', '.join(sorted(a)) or 'no answer'} instead of {item.answer}"))
            return [], ex
        if item.stop:
            if tr:
                out.append(("next", item.name, f"{w}: the walk does not end at {item.name}"))
            if not ex:
                out.append(("answer", item.name, f"{w}: no answer at {item.name}"))
            return [], ex
        if ex:
            a = sorted({x for x, _ in ex})
            if not {x for x in a} <= self.own_answers():
                out.append(("answer", item.name, f"{w}: {item.name} leads to {', '.join(a)[:120]}"))
            out.append(("leave", item.name, f"{w}: at {item.name} the walk is left with {', '.join(a)[:120]} although further items may follow"))
        if not tr:
            out.append(("next", item.name, f"{w}: after {item.name} the walk does not go on"))
        want = [env.lin(x) for x in item.next(env, P)]
        res = []
        for b, k2 in tr:
            q = int_leaf(b, lp)
            if q is None:
                out.append(("next", item.name, f"{w}: after {item.name} the next position is not known"))
                continue
            q = env.lin(q - d)
            if q not in want:
                out.append(("next", item.name, f"{w}: after {item.name} at P the next item is looked for at {str(q)[:90]}, not at {' or '.join(str(x)[:60] for x in want)} (P = {P})"))
            else:
                self.proved += 1
            res.append((b, k2))
        return res, ex

    def own_answers(self):
        """What the walk may answer by the kinds recorded alone."""
        if getattr(self, "_own", None) is None:
            ms = {m for r in REGIMES for i in self.spec.items(r) for m in ([i.mark] if i.mark else [])}
            self._own = {self.spec.answer(frozenset(x)) for n in range(len(ms) + 1) for x in combinations(sorted(ms), n)}
        return self._own

    def constants(self):
        c = getattr(self.G, "consts", None)
        if c is None:
            pcs = [self.delta(self.G.head(self.G.by[s], k), b) for (s, k), l in self.G.trans.items() for b, _ in l if self.G.head(self.G.by[s], k) is not None]
            pcs += [self.delta(self.G.head(self.G.by[s], k), b) for (s, k), l in self.G.exits.items() if s in self.G.by for _, b in l if self.G.head(self.G.by[s], k) is not None]
            c = self.G.consts = constants(pcs)
        return c

    # ------------------------------------------------------------ the walk

    def run_walk(self):
        """Checks every loop that is entered as a walk of this kind."""
        self.base = {}
        cands = self.candidates()
        if not cands:
            self.fail("first", "first item", f"{self.spec.function}: no loop starts at the first item of {self.spec.name}")
            return
        by = {}
        own = {serial for serial, _, _ in cands}
        for serial, lp, d in cands:
            # loops within the iterations of another one do not walk these items themselves
            if not any(isinstance(t, tuple) and t[0] == "at" and t[1] in own for t in self.G.by[serial]["entry"].tags):
                by.setdefault(serial, []).append((lp, d))
        best_all = []
        for serial, opts in by.items():
            best = None
            for lp, d in sorted(opts, key=lambda x: (x[0] != STREAM, abs(x[1]))):
                probs, base = self.explore(self.G.by[serial], lp, d)
                if best is None or len(probs) < len(best[0]):
                    best = (probs, base, lp, d)
                if not probs:
                    break
            best_all.append((serial, best))
        # loops that do not read items at all (conversions, retries) may start at the same number
        good = [x for x in best_all if not x[1][0]]
        walks = [x for x in best_all if self.reads_items(x[0], x[1])]
        if not walks:
            walks = best_all
        for serial, (probs, base, lp, d) in walks:
            self.base.update(base)
            for kind, key, text in probs:
                self.fail(kind, key, text)
        self.loops = len(walks)

    def reads_items(self, serial, b):
        """Some transition or exit of the loop depends on content at its cursor."""
        probs, base, lp, d = b
        return bool(base) and any(self.uses(s, k) for s, k in base)

    def uses(self, serial, k):
        e = self.G.by[serial]
        h = self.G.head(e, k)
        for b, _ in self.G.trans.get((serial, k), ()):
            if self.delta(h, b):
                return True
        return False

    def explore(self, e0, lp, d):
        probs, base = [], {}
        spec = self.spec
        for regime in REGIMES + self.spec.regimes():
            counts = spec.counts(regime) or [(None, None)]
            for ci, (count, total) in enumerate(counts):
                ns = [0] if ci or regime is not LONG else [0, 1, spec.limit - 2, spec.limit - 1]
                ns = [n for n in ns if total is None or n < total]
                if not self.enterable(e0, lp, d, regime, count, probs):
                    continue
                self.product(e0, lp, d, regime, count, total, ns, probs, base, not ci)
        if not base:
            probs.append(("first", "first item", f"{self.where(e0)}: not entered for {spec.name}"))
        return list({(a, b): (a, b, c) for a, b, c in probs}.values()), base

    def enterable(self, e, lp, d, regime, count, probs):
        env = Env(regime["len"])
        self.header(env, regime, e, count)
        if env.conj(pc_list(e["entry"].pc)) is False:
            return False
        if getattr(env, "problem", None):
            probs.append(("first", "first item", f"{self.where(e)}: {regime['name']}: {env.problem}"))
        # the first item of this content is where the walk starts
        v, want = int_leaf(e["entry"], lp), env.lin(self.start(env, e))
        if v is None or env.lin(v) - want != Lin(d):
            at = "an unknown position" if v is None else str(env.lin(v) - d)[:90]
            probs.append(("first", "first item", f"{self.where(e)}: {regime['name']}: the first item is looked for at {at}, not at {str(want)[:90]}"))
        return True

    def entry_nodes(self, e):
        return ["peel"] if e["phase"] == "peel" else e["entry_keys"]

    def product(self, e0, lp, d, regime, count, total, ns, probs, base, first):
        spec = self.spec
        items = spec.items(regime)
        if first:
            names = {i.name for i in items}
            items = items + [i for i in {i.name: i for i in spec.novel(self.constants(), regime)}.values() if i.name not in names]
        start = [(e0["serial"], k, frozenset()) for k in self.entry_nodes(e0)]
        seen, todo = set(start), list(start)
        memo = {}
        while todo:
            serial, k, marks = todo.pop()
            e = self.G.by[serial]
            h = self.G.head(e, k)
            if h is None:
                continue
            if e["phase"] == "peel":
                use = [0]
            else:
                pre = self.preceding(e)
                use = [n for n in ns if n + pre < (spec.limit if total is None else min(total, spec.limit))]
            base[(serial, k)] = int_leaf(h, lp) - d if int_leaf(h, lp) is not None else None
            for item in items:
                if (serial, k, item.name) not in memo:
                    for kk in self.G.keys(e):
                        memo[(serial, kk, item.name)] = ([], [])
                    for n in use if item.name in spec.probe() else use[:1]:
                        for kk in self.G.keys(e):
                            res, out = memo[(serial, kk, item.name)]
                            res.append(self.check_item(e, kk, lp, d, item, regime, count, n, out))
                r, out = memo[(serial, k, item.name)]
                probs += out
                out.clear()
                m2 = marks | {item.mark} if item.mark else marks
                for x in r:
                    if x is None:
                        continue
                    tr, ex = x
                    if item.stop:
                        self.final(e, ex, marks, f"ending at {item.name}", probs)
                    for b, k2 in tr:
                        if e["phase"] == "peel":
                            f = self.G.after.get(id(b))
                            nodes = [(f["serial"], kk, m2) for kk in f["entry_keys"]] if f is not None else []
                        else:
                            nodes = [(serial, k2, m2)]
                        for nd in nodes:
                            if nd not in seen:
                                seen.add(nd)
                                todo.append(nd)
            # wherever the number of items examined ends the walk
            if e["phase"] == "fix" and items:
                plain = next(i for i in items if i.name in spec.probe() and not i.mark)
                r = memo.get((serial, k, "limit"))
                if r is None:
                    x = self.step(e, k, lp, d, plain, regime, None, None)
                    r = memo[(serial, k, "limit")] = x[3] if x not in (None, SKIP) else []
                self.final(e, r, marks, "after any number of items", probs)
                if spec.closing:
                    # what follows the items is looked for at the cursor, however many items there were
                    for item in items:
                        if item.answer and (serial, k, item.name, "any") not in memo:
                            memo[(serial, k, item.name, "any")] = True
                            x = self.step(e, k, lp, d, item, regime, None, None)
                            got = {a for a, _ in x[3]} if x not in (None, SKIP) else set()
                            self.n += 1
                            if got - {item.answer}:
                                probs.append(("next", item.name, f"{self.where(e)}: {item.name} after any number of items leads to {', '.join(sorted(got - {item.answer}))[:100]} instead of {item.answer}"))
            # the end of the items
            for name, content, length, n, wc in self.ends(e, k, lp, d, regime, count, total):
                r = memo.get((serial, k, "end " + name))
                if r is None:
                    r = memo[(serial, k, "end " + name)] = self.at_end(e, k, lp, d, regime, wc, content, length, n, name, probs)
                self.final(e, r, marks, name, probs)

    def preceding(self, e):
        """Iterations before the first one of this loop."""
        n = 0
        while True:
            p = next((p for p in self.G.events if p["phase"] == "peel" and any(x[1] is e["entry"] for x in p["backs"])), None)
            if p is None:
                return n
            n, e = n + 1, p

    def ends(self, e, k, lp, d, regime, count, total):
        out = []
        if total is not None and e["phase"] == "fix":
            # a loop that follows a peeled iteration starts with the second item
            first = self.preceding(e)
            if total <= self.spec.limit and total - first >= 0:
                out.append(("all items examined", None, None, total - first, count))
        for name, content, length in self.spec.ends(regime):
            out.append((name, content, length, 0, count))
        return out

    def at_end(self, e, k, lp, d, regime, count, content, length, n, name, probs):
        h = self.G.head(e, k)
        env, P = self.env(regime, e, h, lp, d, count, n)
        if env is None:
            return []
        if content:
            env.put(P, content)
        if length:
            # the content ends where the next item would start
            env.values[stream_len("F")] = P
            env.ml.clear()
        tr = [b for b, _ in self.G.trans.get((e["serial"], k), ()) if env.conj(self.delta(h, b)) is not False]
        ex = [(a, s) for a, s in self.G.exits.get((e["serial"], k), ()) if env.conj(self.delta(h, s)) is not False]
        self.n += 1
        if tr:
            probs.append(("count", name, f"{self.where(e)}: the walk goes on after its end ({name})"))
        if not ex:
            probs.append(("count", name, f"{self.where(e)}: no answer at the end of the walk ({name})"))
        return ex

    def final(self, e, ex, marks, name, probs):
        want = self.spec.answer(marks)
        if want is None:
            return
        got = {a for a, _ in ex}
        self.n += 1
        if ex and got != {want}:
            seen = ", ".join(sorted(marks)) or "none"
            probs.append(("precedence", f"{seen}: {name}", f"{self.where(e)}: after items of kind {seen} the answer is {', '.join(sorted(got))[:100]} instead of {want} ({name})"))
