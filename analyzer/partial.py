"""Three-valued evaluation of the analysis' formulas and expressions on partly known contents.

A partial content knows some bytes relative to symbolic positions (the start of an item, of a directory, ...), bounds for the
length of the content and for symbols; everything else is arbitrary. True/False hold for every content that matches it."""
from domain import *

WS = b" \t\n\x0b\x0c\r"
INF = 1 << 66


def rel(l):
    """(terms, constant) of a position."""
    return l.t, l.c


def trim(t, how):
    ws = "".join(map(chr, [9, 10, 11, 12, 13, 32, 0x85, 0xA0, 0x1680, *range(0x2000, 0x200B), 0x2028, 0x2029, 0x202F, 0x205F, 0x3000]))
    return t.strip(ws) if how == "both" else t.lstrip(ws) if how == "start" else t.rstrip(ws)


class Line:
    """A line of text: start and size (with its line feed, if any) are positions; allowed: ranges of the characters it may have;
    has: characters that it certainly has; valid: whether it is valid UTF-8."""

    def __init__(self, start, size, feed, valid=True, allowed=(), has=()):
        self.start, self.size, self.feed, self.valid, self.allowed, self.has = start, size, feed, valid, allowed, has

    def bytes(self):
        """Ranges of the bytes its encoding may have."""
        return [(lo, min(hi, 0x7F)) for lo, hi in self.allowed if lo < 0x80] + [(0x80, 0xFF)]


def meet(a, b):
    return any(x <= w and v <= y for x, y in a for v, w in b)


class Env:
    def __init__(self, length=(1 << 61, 1 << 62), ranges=None, values=None):
        self.known = {}            # terms -> {constant: byte}
        self.length = length
        self.ranges = dict(ranges or {})
        self.values = dict(values or {})      # symbol -> Lin
        self.absent = []           # (patterns, from, to): they do not occur in [from, to)
        self.blocks = []           # (terms, constant, bytes): long stretches among the known bytes
        self.lines = {}            # start -> Line
        self.ml, self.mf = {}, {}

    def line(self, l):
        l.start = self.lin(l.start)
        self.lines[l.start] = l
        self.ml.clear()
        self.mf.clear()

    def put(self, base, bs):
        """bs: {offset: byte} or [(offset, bytes)] relative to the position base (already evaluated)."""
        t, c = rel(self.lin(base))
        d = self.known.setdefault(t, {})
        if isinstance(bs, bytes):
            self.blocks.append((t, c, bs))
            bs = dict(enumerate(bs))
        for o, x in (bs.items() if isinstance(bs, dict) else [(o + i, y) for o, b in bs for i, y in enumerate(b)]):
            d[c + o] = x
        self.ml.clear()
        self.mf.clear()

    def byte(self, p):
        t, c = rel(p)
        d = self.known.get(t)
        return None if d is None else d.get(c)

    def span(self, p, n):
        """Bytes [p, p+n) with None for unknown ones."""
        t, c = rel(p)
        d = self.known.get(t)
        if d is None:
            return [None] * n
        return [d.get(c + i) for i in range(n)]

    def solid(self, p, n):
        """Bytes [p, p+n) if all are known, else None."""
        t, c = rel(p)
        for bt, bc, bs in self.blocks:
            if bt == t and bc <= c and c + n <= bc + len(bs):
                return bs[c - bc:c - bc + n]
        d = self.known.get(t)
        if d is None or len(d) < n:
            return None
        out = bytearray()
        for i in range(c, c + n):
            b = d.get(i)
            if b is None:
                return None
            out.append(b)
        return bytes(out)

    # ------------------------------------------------------------ expressions

    def lin(self, l):
        r = self.ml.get(l)
        if r is None:
            r = Lin(l.c)
            for s, k in l.t:
                r = r.add(self.sym(s), k)
            r = self.ml[l] = r
        return r

    def sym(self, s):
        v = self.values.get(s)
        if v is not None:
            return v if isinstance(v, Lin) else Lin(v)
        k = s.kind
        if k == "int":
            sid, pos, w, en = s.key
            return self.intat(sid, self.lin(pos), w, en)
        if k == "len":
            return lin(s) if self.length[0] != self.length[1] else Lin(self.length[0])
        if k == "first":
            return self.firstof(s)
        if k in ("hav", "chunk", "fresh", "found", "validupto"):
            return lin(s)
        r = self.derived(s)
        return r if r is not None else lin(s)

    def firstof(self, s):
        """Distance to the end of the first occurrence of a delimiter."""
        _, pos, d = s.key
        p = self.lin(pos)
        l = self.lines.get(p)
        if l is not None and l.feed and d == 10:
            return l.size
        t, c = rel(p)
        for bt, bc, bs in self.blocks:
            if bt == t and bc <= c < bc + len(bs):
                i = bs.find(d, c - bc)
                return Lin(i - (c - bc) + 1) if i >= 0 else lin(s)
        k = self.known.get(t)
        i = c
        while k is not None and i in k:
            if k[i] == d:
                return Lin(i - c + 1)
            i += 1
        return lin(s)

    def lineof(self, src, n):
        """The declared line that a segment of the content is (without its line feed or with it)."""
        if not (isinstance(src, tuple) and src[0] == "s"):
            return None
        l = self.lines.get(self.lin(src[2]))
        if l is None:
            return None
        for s, _ in n.t:
            if s.kind == "opq" and isinstance(s.key, tuple) and s.key and s.key[0] == "linelen":
                return l if n.c == 0 and len(n.t) == 1 and self.lin(s.key[1][2]) == l.start else None
        m = self.lin(n)
        if m == l.size:
            return l
        # cut behind its end: the rest of the content
        return l if not l.feed and self.ge(m - l.size) and self.ge(l.size - m) else None

    def intat(self, sid, pos, w, en):
        bs = self.span(pos, w)
        if all(b is None for b in bs):
            l = lin(stream_int(sid, pos, w, en))
            if w == 1 or l.t[0][0] in self.ranges:
                return l
        # unknown parts are written byte by byte, so that equal numbers look alike
        out, i = ZERO, 0
        while i < w:
            j = i + 1
            while j < w and bs[i] is not None and bs[j] is not None:
                j += 1
            weight = 256 ** (i if en == "le" and w > 1 else w - j)
            if bs[i] is None:
                out = out.add(lin(stream_int(sid, pos + i, j - i, en)), weight)
            else:
                v = int.from_bytes(bytes(bs[i:j]), "little" if en == "le" and w > 1 else "big")
                out = out + v * weight
            i = j
        return out

    def const(self, l):
        r = self.lin(l)
        return r.c if r.is_const() else None

    def derived(self, s):
        """Value of a symbol that is a function of others, when that is determined."""
        k, key = s.kind, s.key
        if k in ("and", "or", "xor", "shl", "shr", "mul", "div", "mod"):
            x = self.lin(key[0]) if isinstance(key[0], Lin) else self.sym(key[0]) if isinstance(key[0], Sym) else Lin(key[0])
            y = self.lin(key[1]) if isinstance(key[1], Lin) else self.sym(key[1]) if isinstance(key[1], Sym) else Lin(key[1])
            if x.is_const() and y.is_const():
                a, b = x.c, y.c
                r = a & b if k == "and" else a | b if k == "or" else a ^ b if k == "xor" else a * b if k == "mul" else None
                if k == "shl" and 0 <= b < 64:
                    r = (a << b) & s.hi if s.hi & (s.hi + 1) == 0 else a << b
                elif k == "shr" and 0 <= b < 64:
                    r = a >> b
                elif k == "div" and b:
                    r = a // b if a >= 0 else -(-a // b)
                elif k == "mod" and b:
                    r = a % b if a >= 0 else -(-a % b)
                return Lin(r) if r is not None else None
            if k == "and":
                for p, q in ((x, y), (y, x)):
                    if q.is_const() and q.c == 0:
                        return ZERO
                    if q.is_const() and q.c >= 0 and q.c & (q.c + 1) == 0:
                        lo, hi = self.rng(p)
                        if lo >= 0 and hi <= q.c:
                            return p
            return None
        if k == "bit":
            x = self.lin(key[0]) if isinstance(key[0], Lin) else self.sym(key[0])
            return Lin((x.c >> key[1]) & 1) if x.is_const() else None
        if k == "bool":
            v = self.f(s.aux)
            return None if v is None else Lin(1 if v else 0)
        if k == "tbl":
            tab, ix = s.aux
            i = self.const(ix)
            return Lin(tab[i]) if i is not None and 0 <= i < len(tab) else None
        if k == "wrap":
            l, t = key
            v = self.const(l)
            if v is None:
                lo, hi = self.rng(self.lin(l))
                a, b = trange(t)
                return self.lin(l) if a <= lo and hi <= b else None
            lo, hi = trange(t)
            return Lin((v - lo) % (hi - lo + 1) + lo)
        if k == "swap":
            v = self.const(key)
            n = (s.hi.bit_length() + 7) // 8
            return Lin(int.from_bytes(v.to_bytes(n, "little"), "big")) if v is not None and 0 <= v < 256 ** n else None
        if k == "opq" and isinstance(key, tuple) and key and key[0] == "linelen":
            bs = self.text(key[1], key[2])
            if bs is None:
                return None
            return Lin(len(bs) - (2 if bs.endswith(b"\r\n") else 1 if bs.endswith(b"\n") else 0))
        if k == "opq" and isinstance(key, tuple) and key and key[0] == "lossylen" and len(key) == 3:
            bs = self.text(key[1], key[2])
            return Lin(len(bs.decode("utf-8", "replace").encode())) if bs is not None else None
        if k == "opq" and isinstance(key, tuple) and key and key[0] == "trimlen" and len(key) == 4:
            bs = self.text(key[2], key[3])
            return Lin(len(trim(bs.decode("utf-8", "replace"), key[1]).encode())) if bs is not None else None
        return None

    def text(self, src, n):
        """Known bytes of a segment of the stream."""
        if not (isinstance(src, tuple) and src[0] in ("s", "l")):
            return None
        m = self.const(n if src[0] == "s" else src[3])
        if m is None or m > 1 << 20:
            return None
        bs = self.solid(self.lin(src[2]), m)
        if bs is None:
            return None
        return bs if src[0] == "s" else bs.decode("utf-8", "replace").encode()

    def rng(self, l):
        """Bounds of an evaluated expression."""
        lo = hi = l.c
        for s, k in l.t:
            a, b = self.srng(s)
            if k > 0:
                lo, hi = lo + k * a, hi + k * b
            else:
                lo, hi = lo + k * b, hi + k * a
        return lo, hi

    def srng(self, s):
        r = self.ranges.get(s)
        if r is not None:
            return r
        if s.kind == "len":
            return self.length
        return s.lo, s.hi

    # ------------------------------------------------------------ formulas

    def f(self, f):
        r = self.mf.get(f, 0)
        if r != 0:
            return r
        if f.op == "T":
            r = True
        elif f.op == "F":
            r = False
        elif f.op == "not":
            r = self.f(f.a[0])
            r = None if r is None else not r
        elif f.op == "and":
            r = self.conj(f.a)
        elif f.op == "or":
            r = False
            for x in f.a:
                v = self.f(x)
                if v:
                    r = True
                    break
                if v is None:
                    r = None
        else:
            r = self.atom(f.a)
        self.mf[f] = r
        return r

    def conj(self, fs):
        r = True
        for x in fs:
            v = self.f(x)
            if v is False:
                return False
            if v is None:
                r = None
        return r

    def atom(self, a):
        k = a[0]
        if k == "bytes":
            p = self.lin(a[2])
            r = True
            for b, x in zip(self.span(p, len(a[3])), a[3]):
                if b is None:
                    r = None
                elif b != x:
                    return False
            lo, _ = self.rng(lin(stream_len(a[1])) - p - len(a[3])) if not self.fixed() else self.rng(Lin(self.length[0]) - p - len(a[3]))
            if r and lo < 0:
                _, hi = self.rng(Lin(self.length[1]) - p - len(a[3]))
                return False if hi < 0 else None
            return r
        if k == "ge":
            lo, hi = self.rng(self.lin(a[1]))
            return True if lo >= 0 else False if hi < 0 else None
        if k == "eq":
            l = self.lin(a[1])
            if l.is_const():
                return l.c == 0
            lo, hi = self.rng(l)
            if lo > 0 or hi < 0:
                return False
            g = eq0(l)
            return self.f(g) if g.op != "atom" or g.a != a else None
        if k == "has":
            return self.has(a[2], a[3], a[4])
        if k == "utf8":
            l = self.lineof(("s", a[1], a[2]), a[3])
            if l is not None and l.valid is not None:
                return l.valid
            bs = self.text(("s", a[1], a[2]), a[3])
            if bs is None:
                return None
            try:
                bs.decode("utf-8")
                return True
            except UnicodeDecodeError:
                return False
        if k == "trimmed":
            bs = self.text(("s", a[1], a[2]), a[3])
            if bs is None:
                return None
            return trim(bs.decode("utf-8", "replace"), a[4]).encode() == a[5]
        if k == "anybyte":
            src, n, rs = a[1], a[2], a[3]
            return self.any(src, n, lambda b: any(lo <= b <= hi for lo, hi in rs))
        if k == "anychar":
            l = self.lineof(a[1], a[2])
            if l is not None:
                if any(lo <= c <= hi for c in l.has for lo, hi in a[3]):
                    return True
                return False if l.allowed and not meet(l.allowed, a[3]) else None
            bs = self.text(a[1], a[2])
            if bs is None:
                return None
            return any(any(lo <= ord(c) <= hi for lo, hi in a[3]) for c in set(bs.decode("utf-8", "replace")))
        return None

    def fixed(self):
        return self.length[0] == self.length[1]

    def any(self, src, n, pred):
        if not (isinstance(src, tuple) and src[0] == "s"):
            return None
        l = self.lineof(src, n)
        if l is not None:
            if any(c < 0x80 and pred(c) for c in l.has):
                return True
            if l.allowed and not any(pred(b) for lo, hi in l.bytes() for b in range(lo, hi + 1)):
                return False
            return None
        m = self.const(n)
        if m is None:
            lo, hi = self.rng(self.lin(n))
            bs = self.span(self.lin(src[2]), max(0, min(lo, 4096)))
            return True if any(b is not None and pred(b) for b in bs) else None
        bs = self.solid(self.lin(src[2]), min(m, 1 << 20))
        if bs is not None:
            return any(map(pred, set(bs)))
        bs = self.span(self.lin(src[2]), min(m, 1 << 20))
        if any(b is not None and pred(b) for b in bs):
            return True
        return None if any(b is None for b in bs) else False

    def ge(self, l):
        lo, _ = self.rng(self.lin(l))
        return lo >= 0

    def has(self, pos, n, pat):
        p, l = self.lin(pos), self.lin(n)
        if self.blocks and l.is_const() and 0 <= l.c <= 1 << 20:
            bs = self.solid(p, l.c)
            if bs is not None:
                return pat in bs
        lo, hi = self.rng(l)
        t, c = rel(p)
        # a complete occurrence that certainly lies inside
        for bt, d in self.known.items():
            for q in d:
                if d[q] == pat[0] and all(d.get(q + i) == x for i, x in enumerate(pat)):
                    o = Lin(q, bt)
                    if self.ge(o - p) and self.ge(p + l - o - len(pat)):
                        return True
        if pat == b"\n" and p in self.lines:
            x = self.lines[p]
            if x.feed and self.ge(l - x.size):
                return True
            if not x.feed and self.ge(x.size - l):
                return False
        for pats, x, y in self.absent:
            if pat in pats and self.ge(p - x) and self.ge(y - p - l):
                return False
        if hi < len(pat):
            return False
        d = self.known.get(t, {})
        if l.is_const():
            bs = self.span(p, l.c) if l.c <= 1 << 17 else [None]
            if not any(b is None for b in bs):
                return bytes(bs).find(pat) >= 0
            for i in range(l.c - len(pat) + 1):
                if all(b is None or b == x for b, x in zip(bs[i:i + len(pat)], pat)):
                    return None
            return False
        return None
