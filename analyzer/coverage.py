"""Searches for a marker that read the content chunk by chunk: shows by induction over the loop that every place of the window was
searched before the answer is given that there is no marker, and that a marker only counts inside of the window.

Invariant at the head of the loop: every occurrence that lies wholly in [first, C) was searched, C being the cursor."""
from domain import *
from state import pc_list
from loops import leaf_lin
from walk import Graph, STREAM, delta, int_leaf
from core import short


class Coverage:
    """marker is looked for in [first, first+size) (up to slack more, for the last chunk); yes: answer when it is there."""

    def __init__(self, run, function, marker, first, size, slack, yes, no):
        self.run, self.G, self.function = run, Graph(run), function
        self.marker, self.first, self.size, self.slack, self.yes, self.no = marker, first, size, slack, yes, no
        self.bad, self.n, self.proved = {}, 0, 0

    def windows(self, fs, positive):
        """Parts of the content [(from, to)] in which the marker occurs / does not occur."""
        out = []
        for f in fs:
            for g in (f.a if f.op == "and" else (f,)):
                a = None
                if not positive and g.op == "or":
                    # or the part is shorter than the marker
                    hs = [x for x in g.a if x.op == "not" and x.a[0].op == "atom" and x.a[0].a[0] == "has" and x.a[0].a[4] == self.marker]
                    if len(hs) == 1 and all(x is hs[0] or self.shorter(x, hs[0].a[0].a[3]) for x in g.a):
                        g = hs[0]
                if positive and g.op == "atom":
                    a = g.a
                elif not positive and g.op == "not" and g.a[0].op == "atom":
                    a = g.a[0].a
                if a and a[0] == "has" and a[4] == self.marker:
                    out.append((a[2], a[2] + a[3]))
        return out

    def shorter(self, f, n):
        """f implies that n is less than the marker's length."""
        if f.op != "atom" or f.a[0] != "ge":
            return False
        k = Lin(len(self.marker) - 1) - n - f.a[1]
        return k.is_const() and k.c >= 0

    def extend(self, st, C, ws):
        """The searched part [first, C) with the given windows."""
        m = len(self.marker)
        ws = list(ws)
        again = True
        while again:
            again = False
            for w in ws:
                s, e = w
                self.n += 1
                if (st.prove_ge0(C - (m - 1) - s) or st.prove_ge0(Lin(self.first) - s)):
                    ws.remove(w)
                    again = True
                    if st.prove_ge0(e - C):
                        C = e
                    break
        return C

    def too_short(self, st, C):
        """No occurrence fits into [first, C)."""
        return st.prove_ge0(Lin(self.first + len(self.marker) - 1) - C)

    def where(self, e):
        return f"{short(e['body'])}: loop at block {e['head']}" if e else self.function

    def decide_exit(self, e, ans, st, fs, C, out):
        w = self.where(e)
        self.n += 1
        if ans == self.yes:
            ws = self.windows(fs, True)
            if not ws:
                out.append(("content", f"{w}: {self.yes} without the marker in the searched content"))
            for s, t in ws:
                if not st.prove_ge0(s - self.first):
                    out.append(("before", f"{w}: the marker counts although it may begin before the window (searched from {s})"))
                elif not st.prove_ge0(Lin(self.first + self.size + self.slack) - t):
                    out.append(("after", f"{w}: the marker counts although it may lie beyond the window (searched up to {t})"))
                else:
                    self.proved += 1
        elif ans == self.no:
            C = self.extend(st, C, self.windows(fs, False))
            n = lin(stream_len("F"))
            if st.prove_ge0(C - n) or st.prove_ge0(C - (self.first + self.size)) or self.too_short(st, n):
                self.proved += 1
            else:
                out.append(("missed", f"{w}: {self.no} although only the places up to {str(C)[:80]} have been searched"))

    def attempt(self, lp, d):
        out = []
        for e in self.G.events:
            prior = any(p["phase"] == "peel" and any(x[1] is e["entry"] for x in p["backs"]) for p in self.G.events)
            v = int_leaf(e["entry"], lp)
            if v is None:
                out.append(("cursor", f"{self.where(e)}: no cursor"))
                continue
            if not prior:
                C = self.extend(e["entry"], Lin(self.first), self.windows(pc_list(e["entry"].pc), False))
                if not e["entry"].prove_ge0(C - (v - d)):
                    out.append(("first", f"{self.where(e)}: the search starts at {str(v - d)[:80]}, behind the places searched before"))
            for k in self.G.keys(e):
                h = self.G.head(e, k)
                C0 = int_leaf(h, lp)
                if C0 is None:
                    out.append(("cursor", f"{self.where(e)}: no cursor"))
                    continue
                C0 = C0 - d
                for b, k2 in self.G.trans.get((e["serial"], k), ()):
                    C1 = int_leaf(b, lp)
                    if C1 is None:
                        out.append(("cursor", f"{self.where(e)}: no cursor"))
                        continue
                    C = self.extend(b, C0, self.windows(delta(h, b), False))
                    self.n += 1
                    if b.prove_ge0(C - (C1 - d)) or self.too_short(b, C1 - d):
                        self.proved += 1
                    else:
                        out.append(("missed", f"{self.where(e)}: goes on at {str(C1 - d)[:80]} although only the places up to {str(C)[:80]} (from {str(C0)[:40]}) have been searched"))
                for ans, s in self.G.exits.get((e["serial"], k), ()):
                    self.decide_exit(e, ans, s, delta(h, s), C0, out)
        for ans, s in self.G.early:
            self.decide_exit(None, ans, s, pc_list(s.pc), Lin(self.first), out)
        return out

    def check(self):
        best = None
        cands = [(STREAM, 0)]
        for e in self.G.events:
            if e["phase"] != "fix":
                continue
            for lp in e["ints"]:
                v = int_leaf(e["entry"], lp)
                v0 = int_leaf(e["entry"], STREAM)
                if v is not None and v0 is not None and (v - v0).is_const() and abs((v - v0).c) < 1 << 20:
                    cands.append((lp, (v - v0).c))
        for lp, d in dict.fromkeys(cands):
            out = self.attempt(lp, d)
            if best is None or len(out) < len(best):
                best = out
            if not out:
                break
        if not self.G.events and not self.G.early:
            best = best + [("none", f"{self.function}: no search")]
        if not self.proved:
            best = best + [("none", f"{self.function}: nothing to search found")]
        for k, t in best:
            self.bad.setdefault((k, t), t)
