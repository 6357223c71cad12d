"""Control-flow structure of MIR bodies: weak topological order, liveness."""
import sys
sys.setrecursionlimit(20000)

def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "drop":
        return [t[2]]
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[5]]
    return []

class Body:
    def __init__(self, name, d):
        self.name = name
        self.d = d
        self.path = d["path"]
        self.local = d["local"]
        self.blocks = d["blocks"]
        self.nargs = d["args"]
        self.locals = d["locals"]
        self.succ = [succs(b["t"]) if b else [] for b in self.blocks]
        self.wto = wto(self.succ, 0)
        self.comp_of = {}
        self._liveness()

    def _liveness(self):
        n = len(self.blocks)
        use, dfn = [set() for _ in range(n)], [set() for _ in range(n)]
        borrowed = set()

        def place_use(p, u, d):
            if p[0] not in d:
                u.add(p[0])
            for e in p[1]:
                if isinstance(e, list) and e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def op_use(o, u, d):
            if isinstance(o, dict) and "p" in o:
                place_use(o["p"], u, d)

        for i, b in enumerate(self.blocks):
            if not b:
                continue
            u, d = use[i], dfn[i]
            for s in b["s"]:
                if s[0] in ("=", "setd"):
                    if s[0] == "=":
                        r = s[2]
                        k = r[0]
                        if k in ("ref", "rawptr"):
                            place_use(r[1], u, d)
                            if "*" not in r[1][1]:
                                borrowed.add(r[1][0])
                        elif k == "discr":
                            place_use(r[1], u, d)
                        else:
                            for x in r[1:]:
                                if isinstance(x, list):
                                    for y in x:
                                        op_use(y, u, d)
                                else:
                                    op_use(x, u, d)
                    p = s[1]
                    if p[1]:
                        place_use(p, u, d)
                    else:
                        d.add(p[0])
                elif s[0] == "assume":
                    op_use(s[1], u, d)
            t = b["t"]
            k = t[0]
            if k == "switch":
                op_use(t[1], u, d)
            elif k == "call":
                for a in t[2]:
                    op_use(a, u, d)
                if "indirect" in t[1]:
                    op_use(t[1]["indirect"], u, d)
                if t[3][1]:
                    place_use(t[3], u, d)
                else:
                    d.add(t[3][0])
            elif k == "assert":
                op_use(t[1], u, d)
                for x in t[4]:
                    op_use(x, u, d)
            elif k == "return":
                if 0 not in d:
                    u.add(0)
        live = [set(u) for u in use]
        preds = [[] for _ in range(n)]
        for i, ss in enumerate(self.succ):
            for j in ss:
                preds[j].append(i)
        work = list(range(n))
        while work:
            i = work.pop()
            out = set()
            for j in self.succ[i]:
                out |= live[j]
            new = use[i] | (out - dfn[i])
            if new != live[i]:
                live[i] = new
                work.extend(preds[i])
        self.live_in = live
        self.borrowed = borrowed


def wto(succ, entry):
    """Bourdoncle's hierarchical decomposition: list of vertices or (head, [components])."""
    n = len(succ)
    dfn = [0] * n
    num = [0]
    stack = []
    INF = 1 << 60

    def visit(v, part):
        stack.append(v)
        num[0] += 1
        dfn[v] = num[0]
        head = dfn[v]
        loop = False
        for w in succ[v]:
            m = visit(w, part) if dfn[w] == 0 else dfn[w]
            if m <= head:
                head = m
                loop = True
        if head == dfn[v]:
            dfn[v] = INF
            e = stack.pop()
            if loop:
                while e != v:
                    dfn[e] = 0
                    e = stack.pop()
                part.insert(0, component(v))
            else:
                part.insert(0, v)
        return head

    def component(v):
        part = []
        for w in succ[v]:
            if dfn[w] == 0:
                visit(w, part)
        return (v, part)

    part = []
    visit(entry, part)
    return part

def comp_blocks(c, acc=None):
    if acc is None:
        acc = set()
    if isinstance(c, tuple):
        acc.add(c[0])
        for x in c[1]:
            comp_blocks(x, acc)
    else:
        acc.add(c)
    return acc
