"""Semantics of library calls (std) for the abstract interpreter."""
import re
from domain import *
from state import *

NONE = VEnum(0, ())
def some(v): return VEnum(1, (v,))
def ok(v): return VEnum(0, (v,))
def err(v): return VEnum(1, (v,))

U64 = 2 ** 64 - 1

INT_RE = re.compile(r"core::num::<impl (\w+)>::(\w+)$")

# ---------------------------------------------------------------- helpers

def peel(I, st, v, n=8):
    """Follows references until a non-reference value; returns the value."""
    while n:
        if isinstance(v, (VRef, VCRef)):
            t = I.read_loc(st, I.deref(v))
            if isinstance(t, VTop) and t.ty is None:
                return t
            v = t
            n -= 1
            continue
        if isinstance(v, VObj) and v.kind == "box":
            v = v.fs[0]
            n -= 1
            continue
        return v
    return v

def peel_ref(I, st, v, n=8):
    """Follows references until the last reference; returns (reference, value)."""
    last = v
    while n and isinstance(v, (VRef, VCRef)):
        last = v
        t = I.read_loc(st, I.deref(v))
        if isinstance(t, (VRef, VCRef, VSlice)):
            v = t
            n -= 1
            continue
        return last, t
    return last, v

def bytes_of(I, st, v):
    """Byte sequence denoted by a value (slice, string, vector, array, reference to one), or None."""
    v = peel(I, st, v)
    if isinstance(v, VSeq):
        return v
    if isinstance(v, VSlice):
        w = I.read_loc(st, I.deref(v))
        if isinstance(w, VSeq):
            return w
        if isinstance(w, VArr):
            v = w
    if isinstance(v, VArr):
        if all(isinstance(x, VInt) and x.t in ("u8", "i8") for x in v.els):
            return seq_norm([(ONE, I.byte_src(x.l)) for x in v.els])
        return None
    if isinstance(v, VObj) and v.kind == "cow":
        return bytes_of(I, st, v.fs[0])
    return None

def slice_of(I, st, v):
    """Slice view of a container value reached through references."""
    r, x = peel_ref(I, st, v)
    if isinstance(x, VSlice):
        return x
    n = I.len_of(st, x)
    if n is not None and isinstance(r, (VRef, VCRef)):
        return VSlice(r, ZERO, n)
    if isinstance(x, (VSeq, VArr)):
        return VSlice(VCRef(x), ZERO, n)
    return None

def eq_segs(I, st, a, b):
    """Formula: equal contents (None if undecidable); lengths are compared as well."""
    la, lb = seq_len(a), seq_len(b)
    if a == b:
        return TRUE
    f = eq0(la - lb)
    if f is FALSE:
        return FALSE
    # constant side second
    for x, y in ((a, b), (b, a)):
        cb = const_bytes(y)
        if cb is not None:
            g = eq_const(I, st, x, cb)
            if g is not None:
                return g
    if len(a.segs) == 1 and len(b.segs) == 1 and a.segs[0][1] == b.segs[0][1]:
        return f
    return fand(f, atom("pred", ("eqseq", a, b)))

def const_bytes(v):
    out = b""
    for n, src in v.segs:
        if not n.is_const():
            return None
        if src[0] == "c":
            out += src[1]
        elif src[0] == "f" and src[1].is_const():
            out += bytes([src[1].c & 255]) * n.c
        else:
            return None
    return out

WS = b" \t\n\x0b\x0c\r"

def eq_const(I, st, x, cb):
    """Formula for sequence x == constant bytes cb."""
    fs = []
    i = 0
    for k, (n, src) in enumerate(x.segs):
        if n.is_const():
            m = n.c
        else:
            rest = ZERO
            for n2, _ in x.segs[k + 1:]:
                rest = rest + n2
            if not rest.is_const():
                return None
            m = len(cb) - i - rest.c
            if m < 0:
                return FALSE
            fs.append(eq0(n - m))
        part = cb[i:i + m]
        if len(part) < m:
            return FALSE
        i += m
        if m:
            g = seg_const(I, src, n, part)
            fs.append(g)
    if i != len(cb):
        return FALSE
    return fand(*fs)

def seg_const(I, src, n, part):
    if src[0] == "s":
        return atom("bytes", src[1], src[2], part)
    if src[0] == "c":
        return TRUE if src[1][:len(part)] == part else FALSE
    if src[0] == "f":
        return fand(*[eq0(src[1] - c) for c in part])
    if src[0] == "h":
        if len(part) == 2 and re.fullmatch(rb"[0-9a-f]{2}" if src[2] == "x" else rb"[0-9A-F]{2}", part):
            return eq0(src[1] - int(part, 16))
        return FALSE
    if src[0] == "l":      # lossy text of stream bytes
        _, sid, pos, m = src
        if all(c < 128 for c in part):
            return fand(eq0(m - len(part)), atom("bytes", sid, pos, part))
        return atom("pred", ("lossyeq", src, part))
    if src[0] == "t":      # trimmed text
        _, how, inner, m = src
        if how in ("both", "start") and part[:1] in tuple(bytes([c]) for c in WS):
            return FALSE
        if how in ("both", "end") and part[-1:] in tuple(bytes([c]) for c in WS):
            return FALSE
        if inner[0] in ("s", "l"):
            if inner[0] == "l":
                m = inner[3]
            return atom("trimmed", inner[1], inner[2], m, how, part)
        return atom("pred", ("trimeq", src, part))
    return atom("pred", ("eqbytes", src, part))

def starts_const(I, st, x, cb):
    """x starts with cb"""
    if not cb:
        return TRUE
    n = seq_len(x)
    f = ge0(n - len(cb))
    if f is FALSE:
        return FALSE
    i, fs = 0, [f]
    for m, src in x.segs:
        if i >= len(cb):
            break
        if src[0] == "l":
            if all(c < 128 for c in cb) and i == 0:
                return fand(ge0(src[3] - len(cb)), atom("bytes", src[1], src[2], cb))
            return atom("pred", ("starts", x, cb))
        if src[0] == "t":
            return atom("pred", ("starts", x, cb))
        k = m.c if m.is_const() else len(cb) - i
        part = cb[i:i + k]
        fs.append(seg_const(I, src, m, part) if src[0] != "h" or len(part) == 2 else atom("pred", ("starts", x, cb)))
        i += len(part)
        if not m.is_const():
            if not st.prove_ge0(m - len(part)) and len(x.segs) > 1:
                return atom("pred", ("starts", x, cb))
            break
    if i < len(cb):
        return FALSE
    return fand(*fs)

def ends_const(I, st, x, cb):
    if not cb:
        return TRUE
    n = seq_len(x)
    f = ge0(n - len(cb))
    if f is FALSE:
        return FALSE
    if not x.segs:
        return FALSE
    m, src = x.segs[-1]
    if src[0] == "l" and all(c < 128 for c in cb):
        return fand(ge0(src[3] - len(cb)), atom("bytes", src[1], src[2] + src[3] - len(cb), cb))
    if len(x.segs) == 1 or st.prove_ge0(m - len(cb)):
        if src[0] == "s":
            return fand(f, atom("bytes", src[1], src[2] + m - len(cb), cb))
        if src[0] == "c" and m.is_const():
            return TRUE if src[1].endswith(cb) else FALSE
    return atom("pred", ("ends", x, cb))

def has_const(I, st, x, cb):
    if not cb:
        return TRUE
    c = const_bytes(x)
    if c is not None:
        return TRUE if cb in c else FALSE
    n = seq_len(x)
    if st.decide(ge0(n - len(cb))) is False:
        return FALSE
    if len(x.segs) == 1:
        m, src = x.segs[0]
        if src[0] == "s":
            return atom("has", src[1], src[2], m, cb)
        if src[0] == "l" and all(c < 128 for c in cb):
            return atom("has", src[1], src[2], src[3], cb)
    return atom("hasseq", tuple((m, src) for m, src in x.segs), cb)

def bytes_eq(I, st, a, b):
    x, y = bytes_of(I, st, a), bytes_of(I, st, b)
    if x is None or y is None:
        return None
    return eq_segs(I, st, x, y)

def values_eq(I, st, a, b, d=0):
    a, b = peel(I, st, a), peel(I, st, b)
    f = bytes_eq(I, st, a, b)
    if f is not None:
        return f
    if isinstance(a, VInt) and isinstance(b, VInt):
        return eq0(a.l - b.l)
    if isinstance(a, VBool) and isinstance(b, VBool):
        return f_or(fand(a.f, b.f), fand(fnot(a.f), fnot(b.f)))
    if isinstance(a, VEnum) and isinstance(b, VEnum):
        if a.v != b.v:
            return FALSE
        if len(a.fs) == len(b.fs):
            return fand(*[values_eq(I, st, x, y) for x, y in zip(a.fs, b.fs)])
    if isinstance(a, VAgg) and isinstance(b, VAgg) and len(a.fs) == len(b.fs):
        return fand(*[values_eq(I, st, x, y) for x, y in zip(a.fs, b.fs)])
    for x, y in ((a, b), (b, a)):
        if isinstance(x, VObj) and x.kind == "errkind" and isinstance(y, VEnum):
            return eq0(x.fs[0] - y.v)
    if isinstance(a, VObj) and isinstance(b, VObj) and a.kind == b.kind == "errkind":
        return eq0(a.fs[0] - b.fs[0])
    if isinstance(a, VArr) and isinstance(b, VArr):
        if len(a.els) != len(b.els):
            return FALSE
        return fand(*[values_eq(I, st, x, y) for x, y in zip(a.els, b.els)])
    if isinstance(a, VSlice) and isinstance(b, VSlice):
        x, y = I.read_loc(st, I.deref(a)), I.read_loc(st, I.deref(b))
        if isinstance(x, VArr) and isinstance(y, VArr):
            return values_eq(I, st, x, y)
    if a == b:
        return TRUE
    return atom("pred", ("eq", a, b))

def tyname(I, t):
    return I.types[t]["s"] if t is not None else ""

def last(path):
    return path.rsplit("::", 1)[-1]

# ---------------------------------------------------------------- I/O

KINDS = {}

def kind_index(I, name):
    vs = I.adts.get("std::io::ErrorKind", {}).get("variants") or []
    for i, v in enumerate(vs):
        if v["name"] == name:
            return i
    return {"Interrupted": 1001, "UnexpectedEof": 1002, "InvalidData": 1003, "InvalidInput": 1004}.get(name, 1000)

def ioerr(I, kind):
    return VObj("ioerr", (Lin(kind_index(I, kind)),))

def ioerr_other(I):
    return VObj("ioerr", (lin(sym("opq", "iokind", 2000, 2001)),))

def resolve_io(I, st, v, n=10):
    """Follows references to the underlying I/O object: (location or None, object)."""
    loc = None
    while n:
        if isinstance(v, (VRef, VCRef)):
            loc = I.deref(v)
            v = I.read_loc(st, loc)
            n -= 1
            continue
        if isinstance(v, VObj) and v.kind == "box":
            v = v.fs[0]
            n -= 1
            continue
        break
    return loc, v

def stream_of(I, st, v):
    """(sid, path of wrappers) of the stream behind an I/O object."""
    via = ()
    n = 10
    while n:
        n -= 1
        loc, v = resolve_io(I, st, v)
        if isinstance(v, VStream):
            return v.sid, via
        if isinstance(v, VObj) and v.kind == "bufreader":
            via = via + (v.fs[1],)
            v = v.fs[0]
            continue
        if isinstance(v, VObj) and v.kind == "take":
            v = v.fs[0]
            continue
        return None
    return None

class Io:
    """Uniform view of a readable object."""
    def __init__(self, I, st, v):
        self.I = I
        self.loc, self.obj = resolve_io(I, st, v)
        o = self.obj
        if isinstance(o, VStream):
            self.kind = "stream"
        elif isinstance(o, VObj) and o.kind in ("bufreader", "take", "cursor", "file", "chain", "empty"):
            self.kind = o.kind
        elif isinstance(o, VSlice):
            self.kind = "slice"
        else:
            self.kind = None

def position(I, st, sid, via, how):
    """Current logical position of the stream seen through `via`."""
    s = st.streams[sid]
    if s.pos is None:
        p = lin(fresh("opq", "pos", 0, U64))
        I.ev("relpos", why="position after a failed operation is unspecified", how=how)
        st.streams[sid] = Stream(p, via[-1] if via else None)
        return p
    mine = via[0] if via else None
    if s.via is not None and s.via != mine:
        I.ev("relpos", why="position after dropped read-ahead buffer", how=how)
        p = lin(fresh("opq", "pos", 0, U64))
        st.streams[sid] = Stream(p, mine)
        return p
    return s.pos

def set_pos(I, st, sid, via, pos):
    st.streams[sid] = Stream(pos, via[0] if via else None)

def tag(st, t):
    st.tags = st.tags | {t}

def io_fail(I, st, sid, via, seek=False):
    """The operation fails with an I/O error."""
    s = st.copy()
    tag(s, "io")
    if seek and st.streams[sid].pos is not ZERO and not any(isinstance(t, tuple) and t[0] == "fam" for t in s.tags):
        tag(s, "lateio")
    s.streams[sid] = Stream(None, via[0] if via else None)
    return s, err(ioerr_other(I))

def stream_len_l(sid):
    return lin(stream_len(sid))

def source(I, st, v):
    """Describes a readable: ("stream", sid, via, limit, takeloc) / ("bytes", loc, obj) / None."""
    limit = None
    tl = []
    via = ()
    n = 12
    while n:
        n -= 1
        loc, o = resolve_io(I, st, v)
        if isinstance(o, VStream):
            return ("stream", o.sid, via, tl)
        if isinstance(o, VObj) and o.kind == "bufreader":
            via = via + (o.fs[1],)
            v = o.fs[0]
            # the field is owned by the wrapper
            if isinstance(v, VStream):
                return ("stream", v.sid, via, tl)
            if loc is not None and not isinstance(v, (VRef, VCRef)):
                v = VRef(loc[1], loc[2] + (("o", 0),)) if loc[0] == "cell" else v
            continue
        if isinstance(o, VObj) and o.kind == "take":
            tl = tl + [(loc, o)]
            v = o.fs[0]
            if isinstance(v, VStream):
                return ("stream", v.sid, via, tl)
            if loc is not None and not isinstance(v, (VRef, VCRef)):
                v = VRef(loc[1], loc[2] + (("o", 0),)) if loc[0] == "cell" else v
            continue
        if isinstance(o, VObj) and o.kind == "cursor":
            return ("cursor", loc, o, tl)
        if isinstance(o, VSlice):
            return ("slice", loc, o, tl)
        return None
    return None

def dec_limits(I, st, tl, n):
    for loc, o in tl:
        if loc is not None:
            # re-read: the object may be nested in another modified one
            cur = I.read_loc(st, loc)
            if isinstance(cur, VObj) and cur.kind == "take":
                I.write_loc(st, loc, VObj("take", (cur.fs[0], VInt(cur.fs[1].l - n, "u64"))))

def min_forks(I, st, ls):
    """[(state, minimum)] of affine values."""
    outs = [(st, ls[0])]
    for l in ls[1:]:
        nxt = []
        for s, m in outs:
            for s2, b in I.fork(s, ge0(l - m)):
                nxt.append((s2, m if b else l))
        outs = nxt
    return outs

def write_bytes(I, st, bufv, off, n, segs):
    """Writes segs (n bytes) at offset off of the buffer slice."""
    sl = slice_of(I, st, bufv)
    if sl is None:
        return
    loc = I.deref(VSlice(sl.base, sl.off + off, n))
    I.write_loc(st, loc, VSeq(tuple(segs)))

def io_read(I, st, v, bufv, who):
    """Read::read: every outcome the contract allows."""
    src = source(I, st, v)
    sl = slice_of(I, st, bufv)
    if src is None or sl is None:
        return None
    if src[0] != "stream":
        return bytes_read(I, st, src, sl)
    _, sid, via, tl = src
    out = []
    LEN = stream_len_l(sid)
    pos0 = position(I, st, sid, via, "read")
    I.ev("read", how="read", pos=pos0, n=sl.n, sid=sid, hi=st.rng(sl.n)[1])
    limits = [sl.n] + [o.fs[1].l for _, o in tl]
    for st1, cap in min_forks(I, st, limits):
        # nothing requested
        for st2, z in I.fork(st1, eq0(cap)):
            if z:
                out.append((st2, ok(VInt(ZERO, "usize"))))
                continue
            # end of stream / some bytes
            for st3, more in I.fork(st2, ge0(LEN - pos0 - 1)):
                if not more:
                    out.append((st3, ok(VInt(ZERO, "usize"))))
                    continue
                hi = max(1, min(st3.rng(cap)[1], st3.rng(LEN - pos0)[1]))
                c = lin(fresh("chunk", "rd", 1, hi))
                s = st3.copy()
                if s.add_ineq(cap - c) is None or s.add_ineq(LEN - pos0 - c) is None:
                    continue
                write_bytes(I, s, sl, ZERO, c, [(c, ("s", sid, pos0))])
                set_pos(I, s, sid, via, pos0 + c)
                dec_limits(I, s, tl, c)
                out.append((s, ok(VInt(c, "usize"))))
                s = st3.copy()
                tag(s, "intr")
                out.append((s, err(ioerr(I, "Interrupted"))))
                out.append(io_fail(I, st3, sid, via))
    return out

def bytes_read(I, st, src, sl):
    return None

def io_read_exact(I, st, v, bufv, who):
    src = source(I, st, v)
    sl = slice_of(I, st, bufv)
    if src is None or sl is None or src[0] != "stream":
        return None
    _, sid, via, tl = src
    n = sl.n
    LEN = stream_len_l(sid)
    pos = position(I, st, sid, via, "read_exact")
    I.ev("read", how="exact", pos=pos, n=n, sid=sid, hi=st.rng(n)[1])
    cond = ge0(LEN - pos - n)
    for _, o in tl:
        cond = fand(cond, ge0(o.fs[1].l - n))
    out = []
    st0, z = st, False
    for st1, zero in I.fork(st, eq0(n)):
        if zero:
            out.append((st1, ok(UNIT)))
            continue
        for s, b in I.fork(st1, cond):
            if b:
                write_bytes(I, s, sl, ZERO, n, [(n, ("s", sid, pos))])
                set_pos(I, s, sid, via, pos + n)
                dec_limits(I, s, tl, n)
                out.append((s, ok(UNIT)))
            else:
                s.streams[sid] = Stream(None, via[0] if via else None)
                tag(s, "eof")
                out.append((s, err(ioerr(I, "UnexpectedEof"))))
        out.append(io_fail(I, st1, sid, via))
    return out

def io_read_to_end(I, st, v, vecv, who, text=False):
    src = source(I, st, v)
    if src is None or src[0] != "stream":
        return None
    _, sid, via, tl = src
    LEN = stream_len_l(sid)
    pos = position(I, st, sid, via, who)
    loc = I.deref(peel_ref(I, st, vecv)[0])
    old = I.read_loc(st, loc)
    out = []
    lims = [o.fs[1].l for _, o in tl]
    states = []
    for s, rem in I.fork(st, ge0(LEN - pos)):
        states += min_forks(I, s, ([LEN - pos] if rem else [ZERO]) + lims)
    hi = max([s.rng(n)[1] for s, n in states] + [0])
    cap = min([st.rng(l)[1] for l in lims] + [2 ** 70])
    I.ev("alloc", what=who, size=None, hi=cap if lims else None, limited=bool(lims))
    I.ev("read", how="to_end", pos=pos, n=None, sid=sid, cap=cap if lims else None)
    for s, n in states:
        I.write_loc(s, loc, seq_norm(list(old.segs if isinstance(old, VSeq) else ()) + [(n, ("s", sid, pos))]))
        set_pos(I, s, sid, via, pos + n)
        dec_limits(I, s, tl, n)
        if text:
            for s2, b in I.fork(s, atom("utf8", sid, pos, n)):
                out.append((s2, ok(VInt(n, "usize")) if b else err(ioerr(I, "InvalidData"))))
        else:
            out.append((s, ok(VInt(n, "usize"))))
    s, e = io_fail(I, st, sid, via)
    I.write_loc(s, loc, VSeq(((lin(fresh("opq", "partial", 0, U64 // 2)), ("u", I.fresh_tag("partial"))),)))
    out.append((s, e))
    return out

def io_read_until(I, st, v, delim, vecv, who, line=False):
    """read_until / read_line: appends up to and including the delimiter."""
    src = source(I, st, v)
    if src is None or src[0] != "stream":
        return None
    _, sid, via, tl = src
    LEN = stream_len_l(sid)
    pos = position(I, st, sid, via, who)
    r = peel_ref(I, st, vecv)[0]
    loc = I.deref(r)
    old = I.read_loc(st, loc)
    lims = [o.fs[1].l for _, o in tl]
    cap = min([st.rng(l)[1] for l in lims] + [2 ** 70])
    I.ev("alloc", what=who, size=None, hi=cap if lims else None, limited=bool(lims))
    I.ev("read", how="until", pos=pos, n=None, sid=sid, cap=cap if lims else None)
    out = []
    d = delim.l.c if isinstance(delim, VInt) and delim.l.is_const() else None
    for s0, rem in I.fork(st, ge0(LEN - pos - 1)):
        if not rem:
            out.append((s0, ok(VInt(ZERO, "usize"))))
            continue
        for s1, avail in min_forks(I, s0, [LEN - pos] + lims):
            for s2, none in I.fork(s1, eq0(avail)):
                if none:
                    out.append((s2, ok(VInt(ZERO, "usize"))))
                    continue
                # delimiter found at distance k, or not found
                for s3, found in I.fork(s2, atom("has", sid, pos, avail, bytes([d]) if d is not None else b"?")):
                    if found:
                        n = lin(sym("first", (sid, pos, d), 1, max(1, s3.rng(avail)[1])))
                        if s3.add_ineq(avail - n) is None:
                            continue
                    else:
                        n = avail
                    I.write_loc(s3, loc, seq_norm(list(old.segs if isinstance(old, VSeq) else ()) + [(n, ("s", sid, pos))]))
                    set_pos(I, s3, sid, via, pos + n)
                    dec_limits(I, s3, tl, n)
                    if found:
                        tag_until(s3, sid, pos, n, d)
                    if line:
                        for s4, b in I.fork(s3, atom("utf8", sid, pos, n)):
                            if b:
                                out.append((s4, ok(VInt(n, "usize"))))
                            else:
                                I.write_loc(s4, loc, old)
                                out.append((s4, err(ioerr(I, "InvalidData"))))
                    else:
                        out.append((s3, ok(VInt(n, "usize"))))
    out.append(io_fail(I, st, sid, via))
    return out

def tag_until(st, sid, pos, n, d):
    if d is not None:
        st.lits = st.lits | {atom("bytes", sid, pos + n - 1, bytes([d]))}

def io_seek(I, st, v, whence, dist, who):
    """Seek; whence in start/end/current."""
    src = source(I, st, v)
    if src is None or src[0] != "stream" or src[3]:
        return None
    _, sid, via, tl = src
    LEN = stream_len_l(sid)
    out = []
    st0 = st.copy()
    if whence == "start":
        new = dist
    elif whence == "end":
        new = LEN + dist
    else:
        new = position(I, st, sid, via, "seek") + dist
    I.ev("seek", whence=whence, pos=new, sid=sid, dist=dist)
    f = fand(ge0(new), ge0(Lin(U64) - new))
    for s, b in I.fork(st, f):
        if b:
            set_pos(I, s, sid, via if whence == "current" and s.streams[sid].via else (), new)
            if via and s.streams[sid].via is None:
                pass
            out.append((s, ok(VInt(new, "u64"))))
        else:
            s.streams[sid] = Stream(None, via[0] if via else None)
            out.append((s, err(ioerr(I, "InvalidInput"))))
    out.append(io_fail(I, st0, sid, via, True))
    return out

SEEKFROM = {0: "start", 1: "end", 2: "current"}

def m_io(I, st, callee, vals, destty):
    p = callee["path"]
    m = last(p)
    if p.startswith("std::io::Read::"):
        if m == "read":
            return io_read(I, st, vals[0], vals[1], m)
        if m == "read_exact":
            return io_read_exact(I, st, vals[0], vals[1], m)
        if m == "read_to_end":
            return io_read_to_end(I, st, vals[0], vals[1], m)
        if m == "read_to_string":
            return io_read_to_end(I, st, vals[0], vals[1], m, True)
        if m == "by_ref":
            return [(st, vals[0])]
        if m == "take":
            if I.no_limit and not any(isinstance(t, tuple) and t[0] == "fam" for t in st.tags):
                return [(st, VObj("take", (vals[0], VInt(Lin(2**63 - 1), "u64"))))]
            return [(st, VObj("take", (vals[0], vals[1])))]
        if m == "bytes":
            return None
    if p.startswith("std::io::Seek::"):
        if m == "seek":
            w = vals[1]
            if isinstance(w, VEnum) and isinstance(w.fs[0], VInt):
                return io_seek(I, st, vals[0], SEEKFROM[w.v], w.fs[0].l, m)
            return None
        if m == "rewind":
            r = io_seek(I, st, vals[0], "start", ZERO, m)
            return r and [(s, v if v.v else ok(UNIT)) for s, v in r]
        if m == "seek_relative":
            r = io_seek(I, st, vals[0], "current", vals[1].l, m)
            return r and [(s, v if v.v else ok(UNIT)) for s, v in r]
        if m == "stream_position":
            src = source(I, st, vals[0])
            if src is None or src[0] != "stream":
                return None
            pos = position(I, st, src[1], src[2], m)
            return [(st, ok(VInt(pos, "u64"))), io_fail(I, st, src[1], src[2], True)]
        if m == "stream_len":
            src = source(I, st, vals[0])
            if src is None or src[0] != "stream":
                return None
            return [(st, ok(VInt(stream_len_l(src[1]), "u64"))), io_fail(I, st, src[1], src[2])]
    if p.startswith("std::io::BufRead::"):
        if m == "lines":
            return [(st, VObj("it", ("lines", vals[0])))]
        if m == "split":
            return [(st, VObj("it", ("split", vals[0], vals[1])))]
        if m == "read_line":
            return io_read_until(I, st, vals[0], VInt(Lin(10), "u8"), vals[1], m, True)
        if m == "read_until":
            return io_read_until(I, st, vals[0], vals[1], vals[2], m)
    if p.startswith("std::io::BufReader::<R>::"):
        if m in ("new", "with_capacity"):
            inner = vals[-1]
            if m == "with_capacity":
                n = vals[0].l
                I.ev("alloc", what="BufReader", size=n, hi=st.rng(n)[1], limited=True)
            else:
                I.ev("alloc", what="BufReader", size=Lin(8192), hi=8192, limited=True)
            ident = ("br", I.depth, I.cur_block)
            return [(st, VObj("bufreader", (inner, ident)))]
        if m == "seek_relative":
            r = io_seek(I, st, vals[0], "current", vals[1].l, m)
            return r and [(s, v if v.v else ok(UNIT)) for s, v in r]
        if m in ("get_mut", "get_ref", "into_inner"):
            _, o = resolve_io(I, st, vals[0])
            if isinstance(o, VObj) and o.kind == "bufreader":
                return [(st, o.fs[0])]
    if p.startswith("std::io::Cursor::<T>::new"):
        return [(st, VObj("cursor", (vals[0], VInt(ZERO, "u64"))))]
    if "std::io::Error" in p or "io::error::<impl std::io::Error>" in p:
        if m == "new" and len(vals) == 2:
            k = peel(I, st, vals[0])
            if isinstance(k, VEnum):
                return [(st, VObj("ioerr", (Lin(k.v),)))]
            if isinstance(k, VObj) and k.kind == "errkind":
                return [(st, VObj("ioerr", (k.fs[0],)))]
            return [(st, ioerr_other(I))]
        if m == "other":
            return [(st, ioerr_other(I))]
        if m == "kind":
            e = peel(I, st, vals[0])
            if isinstance(e, VObj) and e.kind == "ioerr":
                l = e.fs[0]
                if l.is_const() and l.c < 1000:
                    return [(st, VEnum(l.c, ()))]
                return [(st, VObj("errkind", (l,)))]
    if p == "std::io::Take::<T>::limit":
        _, o = resolve_io(I, st, vals[0])
        if isinstance(o, VObj) and o.kind == "take":
            return [(st, o.fs[1])]
    if p == "std::io::Take::<T>::set_limit":
        loc, o = resolve_io(I, st, vals[0])
        if isinstance(o, VObj) and o.kind == "take" and loc:
            I.write_loc(st, loc, VObj("take", (o.fs[0], vals[1])))
            return [(st, UNIT)]
    if p == "std::io::Take::<T>::into_inner":
        _, o = resolve_io(I, st, vals[0])
        if isinstance(o, VObj) and o.kind == "take":
            return [(st, o.fs[0])]
    return None

# ---------------------------------------------------------------- integers

def m_int(I, st, callee, vals, destty, ty, m):
    t = ty
    lo, hi = trange(t)
    w = twidth(t)
    if m in ("from_le_bytes", "from_be_bytes", "from_ne_bytes"):
        s = bytes_of(I, st, vals[0])
        if s is None:
            return None
        n = w // 8
        r = ZERO
        for i in range(n):
            b = I.elem(st, s, Lin(i))
            k = i if m != "from_be_bytes" else n - 1 - i
            r = r.add(b.l, 256 ** k)
        r = collapse(r)
        if t[0] == "i":
            return [(s2, VInt(l, t)) for s2, l in I.wrap(st, r, t)]
        return [(st, VInt(r, t))]
    a = peel(I, st, vals[0])
    if not isinstance(a, VInt):
        return None
    b = peel(I, st, vals[1]) if len(vals) > 1 else None
    x = a.l
    if m in ("to_le_bytes", "to_be_bytes", "to_ne_bytes"):
        n = w // 8
        segs = []
        for i in range(n):
            k = i if m != "to_be_bytes" else n - 1 - i
            segs.append((ONE, I.byte_src(I.bitand(st, I.shr(st, x, 8 * k), Lin(255), t))))
        return [(st, seq_norm(segs))]
    if m in ("leading_zeros", "trailing_zeros", "count_ones", "count_zeros", "leading_ones", "ilog2"):
        if x.is_const():
            v = x.c & ((1 << w) - 1)
            c = {"leading_zeros": w - v.bit_length(), "trailing_zeros": ((v & -v).bit_length() - 1) if v else w,
                 "count_ones": bin(v).count("1"), "count_zeros": w - bin(v).count("1"),
                 "leading_ones": w - ((~v) & ((1 << w) - 1)).bit_length(), "ilog2": v.bit_length() - 1}[m]
            return [(st, VInt(Lin(c), "u32"))]
        if m == "leading_zeros" and st.rng(x)[1] < 2 ** 17:
            out = []
            for k in range(w + 1):
                blo, bhi = (1 << (w - 1 - k), (1 << (w - k)) - 1) if k < w else (0, 0)
                s = st.copy()
                if I.assume(s, fand(ge0(x - blo), ge0(Lin(bhi) - x))):
                    out.append((s, VInt(Lin(k), "u32")))
            return out
        return [(st, VInt(lin(sym(m, x, 0, w)), "u32"))]
    if m in ("saturating_sub", "saturating_add", "saturating_mul", "checked_sub", "checked_add", "checked_mul",
             "wrapping_sub", "wrapping_add", "wrapping_mul", "overflowing_add", "overflowing_sub", "overflowing_mul",
             "unchecked_add", "unchecked_sub", "unchecked_mul", "strict_add", "strict_sub", "strict_mul",
             "checked_add_signed", "saturating_add_signed", "wrapping_add_signed", "checked_add_unsigned", "checked_sub_unsigned",
             "saturating_add_unsigned", "saturating_sub_unsigned"):
        if not isinstance(b, VInt):
            return None
        mode, op = m.split("_", 1)
        op = op.split("_")[0]
        y = b.l
        if op == "add":
            r = x + y
        elif op == "sub":
            r = x - y
        elif y.is_const():
            r = x.scale(y.c)
        elif x.is_const():
            r = y.scale(x.c)
        else:
            xl, xh = st.rng(x)
            yl, yh = st.rng(y)
            c = [xl * yl, xl * yh, xh * yl, xh * yh]
            r = lin(sym("mul", (x, y), min(c), max(c)))
        r = collapse(r)
        if mode == "wrapping":
            return [(s, VInt(l, t)) for s, l in I.wrap(st, r, t)]
        out = []
        for s, b1 in I.fork(st, ge0(r - lo)):
            for s2, b2 in I.fork(s, ge0(Lin(hi) - r)) if b1 else [(s, True)]:
                fits = b1 and b2
                if mode == "saturating":
                    out.append((s2, VInt(r if fits else Lin(lo if not b1 else hi), t)))
                elif mode == "checked":
                    out.append((s2, some(VInt(r, t)) if fits else NONE))
                elif mode == "overflowing":
                    for s3, l in I.wrap(s2, r, t):
                        out.append((s3, VAgg((VInt(l, t), VBool(FALSE if fits else TRUE)))))
                else:
                    if not fits:
                        I.ev("oblig", kind="overflow " + op, proven=False, block=None, body=I.call_stack[-1], detail=m)
                        continue
                    out.append((s2, VInt(r, t)))
        return out
    if m in ("wrapping_neg",):
        return [(s, VInt(l, t)) for s, l in I.wrap(st, x.neg(), t)]
    if m in ("wrapping_shl", "wrapping_shr", "checked_shl", "checked_shr", "unchecked_shl", "unchecked_shr") and isinstance(b, VInt):
        outs = []
        for s, inr in I.fork(st, fand(ge0(b.l), ge0(Lin(w - 1) - b.l))):
            if inr:
                for s2, v in I.intop(s, "Shl" if m.endswith("shl") else "Shr", a, b):
                    outs.append((s2, some(v) if m.startswith("checked") else v))
            elif m.startswith("checked"):
                outs.append((s, NONE))
            else:
                outs.append((s, VInt(lin(sym("opq", (m, x, b.l), lo, hi)), t)))
        return outs
    if m in ("swap_bytes", "from_be", "from_le", "to_be", "to_le"):
        if m in ("from_le", "to_le"):
            return [(st, a)]
        if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1 and x.t[0][0].kind == "int":
            sid, pos, ww, en = x.t[0][0].key
            if ww * 8 == w:
                return [(st, VInt(lin(stream_int(sid, pos, ww, "le" if en == "be" else "be")), t))]
        return [(st, VInt(lin(sym("swap", x, lo, hi)), t))]
    if m == "pow" and isinstance(b, VInt) and x.is_const() and b.l.is_const():
        return [(st, VInt(Lin(x.c ** b.l.c), t))]
    if m == "abs_diff" and isinstance(b, VInt):
        return [(s, VInt(x - b.l if g else b.l - x, t)) for s, g in I.fork(st, ge0(x - b.l))]
    if m in ("is_power_of_two",) and x.is_const():
        return [(st, vbool(x.c > 0 and x.c & (x.c - 1) == 0))]
    if m in ("unsigned_abs", "abs"):
        ut = "u" + t[1:] if m == "unsigned_abs" else t
        return [(s, VInt(x if g else x.neg(), ut)) for s, g in I.fork(st, ge0(x))]
    if m in ("is_ascii", "is_ascii_control", "is_ascii_whitespace", "is_ascii_digit", "is_ascii_graphic",
             "is_ascii_alphabetic", "is_ascii_alphanumeric", "is_ascii_hexdigit", "is_ascii_punctuation", "is_ascii_uppercase", "is_ascii_lowercase"):
        return [(st, VBool(char_pred(m, x)))]
    if m in ("div_ceil", "next_multiple_of", "rem_euclid", "div_euclid", "checked_div", "checked_rem"):
        if isinstance(b, VInt) and x.is_const() and b.l.is_const() and b.l.c:
            q, r = divmod(x.c, b.l.c)
            v = {"div_ceil": -(-x.c // b.l.c), "next_multiple_of": -(-x.c // b.l.c) * b.l.c, "rem_euclid": r, "div_euclid": q}.get(m)
            if v is not None:
                return [(st, VInt(Lin(v), t))]
    if m in ("eq_ignore_ascii_case",):
        return [(st, VBool(atom("pred", (m, x, b))))]
    return None

# ---------------------------------------------------------------- characters

def _ranges(pred, limit=0x110000):
    out = []
    start = None
    for c in range(limit + 1):
        v = c < limit and pred(c)
        if v and start is None:
            start = c
        if not v and start is not None:
            out.append((start, c - 1))
            start = None
    return tuple(out)

WHITE = ((9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029),
         (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000))
CHAR_SETS = {
    "is_control": ((0, 0x1F), (0x7F, 0x9F)),
    "is_whitespace": WHITE,
    "is_ascii": ((0, 127),),
    "is_ascii_control": ((0, 31), (127, 127)),
    "is_ascii_whitespace": ((9, 10), (12, 13), (32, 32)),
    "is_ascii_digit": ((48, 57),),
    "is_ascii_graphic": ((33, 126),),
    "is_ascii_alphabetic": ((65, 90), (97, 122)),
    "is_ascii_alphanumeric": ((48, 57), (65, 90), (97, 122)),
    "is_ascii_hexdigit": ((48, 57), (65, 70), (97, 102)),
    "is_ascii_punctuation": ((33, 47), (58, 64), (91, 96), (123, 126)),
    "is_ascii_uppercase": ((65, 90),),
    "is_ascii_lowercase": ((97, 122),),
}

def char_pred(m, x):
    """Formula: value x is in the character class m."""
    rs = CHAR_SETS[m]
    return f_or(*[fand(ge0(x - a), ge0(Lin(b) - x)) for a, b in rs])

def set_of_formula(f, x, lo, hi):
    """Values c in [lo, hi] of symbol x for which the formula holds, as ranges (None if it mentions anything else)."""
    pts = {lo, hi + 1}
    for a in atoms_of(f):
        if a.a[0] not in ("ge", "eq"):
            return None
        l = a.a[1]
        if len(l.t) != 1 or l.t[0][0] is not x:
            return None
        k, c = l.t[0][1], l.c
        # l = k*x + c
        q = -c // k
        for d in (-1, 0, 1, 2):
            if lo <= q + d <= hi:
                pts.add(q + d)
    pts = sorted(pts)
    out = []
    for i in range(len(pts) - 1):
        if feval(f, {x: pts[i]}):
            if out and out[-1][1] == pts[i] - 1:
                out[-1] = (out[-1][0], pts[i + 1] - 1)
            else:
                out.append((pts[i], pts[i + 1] - 1))
    return tuple(out)

def feval(f, env):
    if f is TRUE:
        return True
    if f is FALSE:
        return False
    if f.op == "not":
        return not feval(f.a[0], env)
    if f.op == "and":
        return all(feval(g, env) for g in f.a)
    if f.op == "or":
        return any(feval(g, env) for g in f.a)
    k, l = f.a[0], f.a[1]
    v = l.c + sum(k2 * env[s] for s, k2 in l.t)
    return v >= 0 if k == "ge" else v == 0

def closure_set(I, st, f, by_ref, kind):
    """Set of characters (or bytes) on which a unary predicate holds: ranges, or None."""
    memo = None
    if isinstance(f, VFn) or isinstance(f, VClo) and not f.fs:
        memo = (f, by_ref, kind)
        if memo in I.closure_sets:
            return I.closure_sets[memo]
    r = closure_set_of(I, st, f, by_ref, kind)
    if memo:
        I.closure_sets[memo] = r
    return r

def closure_set_of(I, st, f, by_ref, kind):
    lo, hi = (0, 0x10FFFF) if kind == "char" else (0, 255)
    x = fresh("fresh", "ch", lo, hi)
    v = VInt(lin(x), kind if kind == "char" else "u8")
    s = st.copy()
    outs = I.call_value(s, f, [VCRef(v) if by_ref else v])
    res = FALSE
    base = st.pc
    for s2, r in outs:
        conds = []
        p = s2.pc
        while p is not None and p is not base:
            conds.append(p.f)
            p = p.prev
        if p is not base or not isinstance(r, VBool):
            return None
        res = f_or(res, fand(r.f, *conds))
    return set_of_formula(res, x, lo, hi)

def complement(rs, lo, hi):
    out, p = [], lo
    for a, b in rs:
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p <= hi:
        out.append((p, hi))
    return tuple(out)

def any_char(src, n, rs):
    """Formula: some character of the text segment is in the set."""
    return atom("anychar", src, n, rs) if rs else FALSE

# ---------------------------------------------------------------- slices, strings, vectors

def range_bounds(I, st, r, rty, n):
    """(start, end) of a range value applied to a container of length n."""
    t = I.types[rty] if rty is not None else None
    s = t["s"] if t else ""
    r = peel(I, st, r)
    if "RangeFull" in s:
        return ZERO, n
    if not isinstance(r, (VAgg, VEnum)):
        return None
    ls = [x.l if isinstance(x, VInt) else None for x in r.fs]
    if "RangeToInclusive" in s:
        return (ZERO, ls[0] + 1) if ls[0] is not None else None
    if "RangeInclusive" in s:
        return (ls[0], ls[1] + 1) if None not in ls[:2] else None
    if "RangeTo" in s:
        return (ZERO, ls[0]) if ls[0] is not None else None
    if "RangeFrom" in s:
        return (ls[0], n) if ls[0] is not None else None
    if "Range" in s:
        return (ls[0], ls[1]) if None not in ls[:2] else None
    return None

def idx_type(I, callee, k=1):
    a = callee.get("args") or []
    return a[k] if len(a) > k else None

def oblig(I, st, kind, f, detail):
    d = st.decide(f)
    I.ev("oblig", kind=kind, proven=d is True, block=I.cur_block[1], body=I.cur_block[0],
         detail=None if d is True else detail)
    if d is False:
        return False
    if d is None and st.assume(f, record=False) is None:
        return False
    return True

def m_index(I, st, callee, vals, destty):
    sl = slice_of(I, st, vals[0])
    if sl is None:
        return None
    ix = peel(I, st, vals[1])
    is_str = False
    for a in callee.get("args") or []:
        if tyname(I, a) in ("str", "std::string::String"):
            is_str = True
    if isinstance(ix, VInt):
        if not oblig(I, st, "bounds", fand(ge0(ix.l), ge0(sl.n - ix.l - 1)),
                     f"index {ix.l} in {st.rng(ix.l)}, length {sl.n} in {st.rng(sl.n)}"):
            return []
        return [(st, elem_ref(I, st, sl, ix.l))]
    rty = None
    for a in callee.get("args") or []:
        if "Range" in tyname(I, a):
            rty = a
    if rty is None and len(I.cur_argtys) > 1:
        rty = I.cur_argtys[1]
    b = range_bounds(I, st, vals[1], rty, sl.n)
    if b is None:
        return None
    lo, hi = b
    if not oblig(I, st, "slice", fand(ge0(lo), ge0(hi - lo), ge0(sl.n - hi)),
                 f"range {lo}..{hi} of length {sl.n} in {st.rng(sl.n)}"):
        return []
    if is_str and not (lo is ZERO and (hi is sl.n or hi is ZERO)):
        I.ev("oblig", kind="char boundary", proven=False, block=I.cur_block[1], body=I.cur_block[0],
             detail=f"string slice {lo}..{hi}")
    return [(st, VSlice(sl.base, sl.off + lo, hi - lo))]

def elem_ref(I, st, sl, i):
    b = sl.base
    if isinstance(b, VRef):
        return VRef(b.cell, b.path + (("x", sl.off + i),))
    return VCRef(I.elem(st, peel(I, st, b), sl.off + i))

def m_seq(I, st, callee, vals, destty):
    p = callee["path"]
    m = last(p)
    if p.startswith("core::slice::<impl [T]>::") or p.startswith("core::str::<impl str>::") or \
            p.startswith("std::vec::Vec::<T") or p.startswith("std::string::String::") or \
            p.startswith("std::slice::<impl [T]>::") or p.startswith("std::str::<impl str>::") or \
            p.startswith("alloc::slice::<impl [T]>") or p.startswith("alloc::str::<impl str>") or \
            p.startswith("core::array::<impl [T; N]>::") or p.startswith("core::slice::ascii::"):
        text = "str" in p.split("::<")[0] or "String" in p
        return m_seq_method(I, st, callee, p, m, vals, destty, text)
    return None

def vec_loc(I, st, v):
    r, x = peel_ref(I, st, v)
    return I.deref(r), x

def m_seq_method(I, st, callee, p, m, vals, destty, text):
    if m in ("new", "with_capacity", "new_const") and ("Vec" in p or "String" in p):
        if m == "with_capacity":
            n = vals[0].l
            I.ev("alloc", what=p, size=n, hi=st.rng(n)[1], limited=True)
        e = (callee.get("args") or [None])[0]
        if text or tyname(I, e) == "u8":
            return [(st, VSeq(()))]
        return [(st, VArr(()))]
    if not vals:
        return None
    if m == "len":
        sl = slice_of(I, st, vals[0])
        return sl and [(st, VInt(sl.n, "usize"))]
    if m == "is_empty":
        sl = slice_of(I, st, vals[0])
        return sl and [(st, VBool(eq0(sl.n)))]
    if m in ("as_str", "as_slice", "as_bytes", "as_mut_slice", "as_mut_str", "as_ref", "borrow", "deref"):
        sl = slice_of(I, st, vals[0])
        return sl and [(st, sl)]
    if m in ("into_bytes", "into_string", "into_boxed_slice", "into_vec", "into_boxed_str", "leak"):
        return [(st, vals[0])]
    if m in ("iter", "iter_mut"):
        sl = slice_of(I, st, vals[0])
        return sl and [(st, VObj("it", ("slice", sl, ZERO, sl.n)))]
    if m in ("starts_with", "ends_with", "contains") and len(vals) > 1:
        x = bytes_of(I, st, vals[0])
        if x is None:
            return None
        pat = pattern_bytes(I, st, vals[1])
        if m == "contains" and not text:
            # element search
            e = peel(I, st, vals[1])
            if isinstance(e, VInt) and e.l.is_const():
                pat = bytes([e.l.c])
            elif isinstance(e, VInt) and const_bytes(x) is not None:
                cs = set(const_bytes(x))
                return [(st, VBool(f_or(*[eq0(e.l - c) for c in sorted(cs)]) if cs else FALSE))]
            else:
                return None
        if pat is None:
            return None
        f = {"starts_with": starts_const, "ends_with": ends_const, "contains": has_const}[m](I, st, x, pat)
        return [(st, VBool(f))]
    if m in ("strip_prefix", "strip_suffix") and len(vals) > 1:
        x = bytes_of(I, st, vals[0])
        pat = pattern_bytes(I, st, vals[1])
        sl = slice_of(I, st, vals[0])
        if x is None or pat is None or sl is None:
            return None
        f = (starts_const if m == "strip_prefix" else ends_const)(I, st, x, pat)
        out = []
        for s, b in I.fork(st, f):
            k = len(pat)
            out.append((s, some(VSlice(sl.base, sl.off + (k if m == "strip_prefix" else 0), sl.n - k)) if b else NONE))
        return out
    if m in ("find", "rfind") and text and len(vals) > 1:
        x = bytes_of(I, st, vals[0])
        pat = pattern_bytes(I, st, vals[1])
        if x is None or pat is None:
            return None
        return found_index(I, st, x, pat, m == "rfind")
    if m in ("trim", "trim_start", "trim_end", "trim_ascii", "trim_ascii_start", "trim_ascii_end", "trim_matches",
             "trim_start_matches", "trim_end_matches"):
        x = bytes_of(I, st, vals[0])
        if x is None:
            return None
        how = {"trim": "both", "trim_start": "start", "trim_end": "end"}.get(m, m)
        if len(vals) > 1:
            pat = pattern_bytes(I, st, vals[1])
            how = (m, pat)
        c = const_bytes(x)
        if c is not None and m == "trim":
            c = c.strip()
            return [(st, VSlice(VCRef(seq_const(c)), ZERO, Lin(len(c))))]
        if len(x.segs) == 1:
            n, src = x.segs[0]
            k = lin(sym("opq", ("trimlen", how, src, n), 0, max(0, st.rng(n)[1])))
            return [(st, VSlice(VCRef(VSeq(((k, ("t", how, src, n)),))), ZERO, k))]
        k = lin(sym("opq", ("trimlen", how, x), 0, 2 ** 63))
        return [(st, VSlice(VCRef(VSeq(((k, ("u", ("trim", how, x))),))), ZERO, k))]
    if m in ("to_vec", "to_owned", "to_string", "into_vec", "clone", "into_owned"):
        x = bytes_of(I, st, vals[0])
        if x is not None:
            n = seq_len(x)
            I.ev("alloc", what=p, size=n, hi=st.rng(n)[1], limited=True)
            return [(st, x)]
        v = peel(I, st, vals[0])
        if isinstance(v, VArr):
            return [(st, v)]
        return None
    if m in ("to_lowercase", "to_uppercase", "to_ascii_lowercase", "to_ascii_uppercase"):
        x = bytes_of(I, st, vals[0])
        if x is None:
            return None
        c = const_bytes(x)
        if c is not None and c.isascii():
            return [(st, seq_const(c.lower() if "lower" in m else c.upper()))]
        k = lin(sym("opq", ("caselen", x), 0, 2 ** 63)) if "ascii" not in m else seq_len(x)
        return [(st, VSeq(((k, ("u", ("case", m, x))),)))]
    if m in ("copy_from_slice", "clone_from_slice"):
        d, s = slice_of(I, st, vals[0]), slice_of(I, st, vals[1])
        if d is None or s is None:
            return None
        if not oblig(I, st, "length mismatch", eq0(d.n - s.n), f"copy of {s.n} into {d.n}"):
            return []
        x = I.read_loc(st, I.deref(s))
        I.write_loc(st, I.deref(d), x)
        return [(st, UNIT)]
    if m == "copy_within":
        d = slice_of(I, st, vals[0])
        b = range_bounds(I, st, vals[1], idx_type(I, callee, 1), d.n) if d else None
        if b is None or not isinstance(vals[2], VInt):
            return None
        lo, hi = b
        to = vals[2].l
        if not oblig(I, st, "slice", fand(ge0(hi - lo), ge0(d.n - hi), ge0(d.n - to - hi + lo)), f"copy_within {lo}..{hi} to {to} of {d.n}"):
            return []
        whole = I.read_loc(st, I.deref(d))
        if isinstance(whole, VSeq):
            part = I.subseq(st, whole, lo, hi - lo)
            I.write_loc(st, I.deref(VSlice(d.base, d.off + to, hi - lo)), part)
            return [(st, UNIT)]
        return None
    if m == "fill":
        d = slice_of(I, st, vals[0])
        v = vals[1]
        if d is None or not isinstance(v, VInt):
            return None
        I.write_loc(st, I.deref(d), VSeq(((d.n, ("f", v.l)),)))
        return [(st, UNIT)]
    if m in ("rotate_right", "rotate_left"):
        d = slice_of(I, st, vals[0])
        if d is None or not isinstance(vals[1], VInt):
            return None
        k = vals[1].l
        if not oblig(I, st, "rotate", ge0(d.n - k), f"rotate by {k} of {d.n}"):
            return []
        whole = I.read_loc(st, I.deref(d))
        if isinstance(whole, VSeq):
            cut = d.n - k if m == "rotate_right" else k
            a = I.split_segs(st, whole.segs, cut)
            if a is not None:
                new = seq_norm(a[1] + a[0])
            else:
                new = VSeq(((d.n, ("u", ("rot", m, k, whole))),))
            I.write_loc(st, I.deref(d), new)
            return [(st, UNIT)]
        return None
    if m in ("split_at", "split_at_mut"):
        d = slice_of(I, st, vals[0])
        if d is None or not isinstance(vals[1], VInt):
            return None
        k = vals[1].l
        if not oblig(I, st, "slice", fand(ge0(k), ge0(d.n - k)), f"split at {k} of {d.n}"):
            return []
        return [(st, VAgg((VSlice(d.base, d.off, k), VSlice(d.base, d.off + k, d.n - k))))]
    if m in ("split_at_checked",):
        d = slice_of(I, st, vals[0])
        if d is None or not isinstance(vals[1], VInt):
            return None
        k = vals[1].l
        return [(s, some(VAgg((VSlice(d.base, d.off, k), VSlice(d.base, d.off + k, d.n - k)))) if b else NONE)
                for s, b in I.fork(st, ge0(d.n - k))]
    if m in ("get", "get_mut"):
        d = slice_of(I, st, vals[0])
        if d is None:
            return None
        ix = peel(I, st, vals[1])
        if isinstance(ix, VInt):
            return [(s, some(elem_ref(I, s, d, ix.l)) if b else NONE) for s, b in I.fork(st, ge0(d.n - ix.l - 1))]
        rty = None
        for a in callee.get("args") or []:
            if "Range" in tyname(I, a):
                rty = a
        if rty is None and len(I.cur_argtys) > 1:
            rty = I.cur_argtys[1]
        b = range_bounds(I, st, vals[1], rty, d.n)
        if b is None:
            return None
        lo, hi = b
        return [(s, some(VSlice(d.base, d.off + lo, hi - lo)) if ok_ else NONE)
                for s, ok_ in I.fork(st, fand(ge0(hi - lo), ge0(d.n - hi)))]
    if m in ("first", "last", "first_mut", "last_mut"):
        d = slice_of(I, st, vals[0])
        if d is None:
            return None
        return [(s, some(elem_ref(I, s, d, ZERO if m.startswith("first") else d.n - 1)) if b else NONE)
                for s, b in I.fork(st, ge0(d.n - 1))]
    if m in ("split_first", "split_last"):
        d = slice_of(I, st, vals[0])
        if d is None:
            return None
        out = []
        for s, b in I.fork(st, ge0(d.n - 1)):
            if not b:
                out.append((s, NONE))
            elif m == "split_first":
                out.append((s, some(VAgg((elem_ref(I, s, d, ZERO), VSlice(d.base, d.off + 1, d.n - 1))))))
            else:
                out.append((s, some(VAgg((elem_ref(I, s, d, d.n - 1), VSlice(d.base, d.off, d.n - 1))))))
        return out
    if m in ("first_chunk", "last_chunk", "split_first_chunk", "as_array"):
        d = slice_of(I, st, vals[0])
        k = None
        for a in callee.get("args") or []:
            if isinstance(a, dict) and "n" in a:
                k = a["n"]
        return None
    if m == "windows":
        d = slice_of(I, st, vals[0])
        if d is None:
            return None
        return [(st, VObj("it", ("windows", d, vals[1].l, ZERO)))]
    if m in ("chunks", "chunks_exact"):
        d = slice_of(I, st, vals[0])
        if d is None or not isinstance(vals[1], VInt) or not vals[1].l.is_const():
            return None
        if not oblig(I, st, "chunk size", ge0(vals[1].l - 1), "%s(0)" % m):
            return []
        return [(st, VObj("it", (m, d, vals[1].l, ZERO)))]
    if m in ("chars", "bytes", "char_indices"):
        d = slice_of(I, st, vals[0])
        if d is None:
            return None
        if m == "bytes":
            return [(st, VObj("it", ("copied", VObj("it", ("slice", d, ZERO, d.n)))))]
        return [(st, VObj("it", (m, d)))]
    if m == "push":
        loc, x = vec_loc(I, st, vals[0])
        v = vals[1]
        if isinstance(x, VSeq) and isinstance(v, VInt):
            if v.t == "char" and not (v.l.is_const() and v.l.c < 128):
                new = seq_norm(list(x.segs) + [(lin(fresh("opq", "clen", 1, 4)), ("u", I.fresh_tag("ch")))])
            else:
                new = seq_norm(list(x.segs) + [(ONE, I.byte_src(v.l))])
            I.write_loc(st, loc, new)
            I.ev("alloc", what=p, size=None, hi=st.rng(seq_len(new))[1], limited=True)
            return [(st, UNIT)]
        if isinstance(x, VArr):
            I.write_loc(st, loc, VArr(x.els + (v,)))
            return [(st, UNIT)]
        return None
    if m in ("push_str", "extend_from_slice"):
        loc, x = vec_loc(I, st, vals[0])
        y = bytes_of(I, st, vals[1])
        if isinstance(x, VSeq) and y is not None:
            new = seq_norm(list(x.segs) + list(y.segs))
            I.write_loc(st, loc, new)
            I.ev("alloc", what=p, size=None, hi=st.rng(seq_len(new))[1], limited=True)
            return [(st, UNIT)]
        return None
    if m == "pop":
        loc, x = vec_loc(I, st, vals[0])
        if isinstance(x, VSeq):
            out = []
            n = seq_len(x)
            for s, b in I.fork(st, ge0(n - 1)):
                if b:
                    e = I.elem(s, x, n - 1)
                    I.write_loc(s, loc, I.subseq(s, x, ZERO, n - 1))
                    out.append((s, some(VInt(e.l, "char" if text else "u8"))))
                else:
                    out.append((s, NONE))
            return out
        return None
    if m in ("clear",):
        loc, x = vec_loc(I, st, vals[0])
        if isinstance(x, VSeq):
            I.write_loc(st, loc, VSeq(()))
            return [(st, UNIT)]
    if m in ("truncate", "resize", "set_len"):
        loc, x = vec_loc(I, st, vals[0])
        if isinstance(x, VSeq) and isinstance(vals[1], VInt):
            n = seq_len(x)
            k = vals[1].l
            out = []
            for s, b in I.fork(st, ge0(n - k)):
                if b:
                    I.write_loc(s, loc, I.subseq(s, x, ZERO, k))
                elif m == "resize":
                    I.ev("alloc", what=p, size=k, hi=s.rng(k)[1], limited=True)
                    I.write_loc(s, loc, seq_norm(list(x.segs) + [(k - n, ("f", vals[2].l))]))
                out.append((s, UNIT))
            return out
        return None
    if m == "split_off" and isinstance(vals[1], VInt):
        loc, x = vec_loc(I, st, vals[0])
        if isinstance(x, VSeq):
            n, k = seq_len(x), vals[1].l
            if not oblig(I, st, "split_off", ge0(n - k), "split_off at %r of %r" % (k, n)):
                return []
            I.ev("alloc", what=p, size=n - k, hi=st.rng(n - k)[1], limited=True)
            tail = I.subseq(st, x, k, n - k)
            I.write_loc(st, loc, I.subseq(st, x, ZERO, k))
            return [(st, tail)]
        return None
    if m in ("reserve", "reserve_exact", "try_reserve", "shrink_to_fit"):
        if len(vals) > 1 and isinstance(vals[1], VInt):
            I.ev("alloc", what=p, size=vals[1].l, hi=st.rng(vals[1].l)[1], limited=True)
        return [(st, UNIT if m != "try_reserve" else ok(UNIT))]
    if m == "capacity":
        return [(st, I.top(destty, I.fresh_tag("cap")))]
    if m == "drain":
        loc, x = vec_loc(I, st, vals[0])
        rty = None
        for a in callee.get("args") or []:
            if "Range" in tyname(I, a):
                rty = a
        if isinstance(x, VSeq):
            b = range_bounds(I, st, vals[1], rty, seq_len(x))
            if b is None:
                return None
            lo, hi = b
            if not oblig(I, st, "slice", fand(ge0(hi - lo), ge0(seq_len(x) - hi)), f"drain {lo}..{hi}"):
                return []
            part = I.subseq(st, x, lo, hi - lo)
            a, c = I.subseq(st, x, ZERO, lo), I.subseq(st, x, hi, seq_len(x) - hi)
            I.write_loc(st, loc, seq_norm(list(a.segs) + list(c.segs)))
            d = VSlice(VCRef(part), ZERO, hi - lo)
            return [(st, VObj("it", ("copied", VObj("it", ("slice", d, ZERO, d.n)))))]
        return None
    if m in ("from_utf8_lossy", "from_utf8_lossy_owned"):
        x = bytes_of(I, st, vals[0])
        if x is None:
            return None
        return [(st, lossy(I, st, x))]
    if m in ("from_utf8",):
        return utf8(I, st, vals[0], owned=True)
    if m in ("eq_ignore_ascii_case",):
        return [(st, VBool(atom("pred", (m, bytes_of(I, st, vals[0]), bytes_of(I, st, vals[1])))))]
    if m == "is_ascii":
        x = bytes_of(I, st, vals[0])
        return [(st, VBool(atom("pred", (m, x))))]
    if m in ("binary_search",):
        return None
    if m == "eq" and len(vals) == 2:
        f = bytes_eq(I, st, vals[0], vals[1])
        return f is not None and [(st, VBool(f))] or None
    return None

def lossy(I, st, x):
    c = const_bytes(x)
    if c is not None:
        return seq_const(c.decode("utf-8", "replace").encode())
    if len(x.segs) == 1 and x.segs[0][1][0] == "s":
        n, src = x.segs[0]
        k = lin(sym("opq", ("lossylen", src, n), 0, 3 * max(0, st.rng(n)[1])))
        I.ev("alloc", what="from_utf8_lossy", size=None, hi=3 * max(0, st.rng(n)[1]), limited=True)
        return VSeq(((k, ("l", src[1], src[2], n)),))
    if not x.segs:
        return x
    k = lin(sym("opq", ("lossylen", x), 0, 3 * max(0, st.rng(seq_len(x))[1])))
    I.ev("alloc", what="from_utf8_lossy", size=None, hi=3 * max(0, st.rng(seq_len(x))[1]), limited=True)
    return VSeq(((k, ("u", ("lossy", x))),))

def utf8(I, st, v, owned):
    x = bytes_of(I, st, v)
    if x is None:
        return None
    if not x.segs:
        f = TRUE
    elif len(x.segs) == 1 and x.segs[0][1][0] == "s":
        n, src = x.segs[0]
        f = atom("utf8", src[1], src[2], n)
    else:
        c = const_bytes(x)
        if c is not None:
            try:
                c.decode("utf-8")
                f = TRUE
            except UnicodeDecodeError:
                f = FALSE
        else:
            f = atom("pred", ("utf8", x))
    out = []
    for s, b in I.fork(st, f):
        if b:
            out.append((s, ok(x if owned else slice_of(I, s, v))))
        else:
            e = VObj("utf8err", (x,))
            out.append((s, err(e)))
    return out

def pattern_bytes(I, st, v):
    """Constant pattern: str, bytes, char."""
    x = peel(I, st, v)
    if isinstance(x, VInt) and x.t == "char" and x.l.is_const():
        return chr(x.l.c).encode()
    s = bytes_of(I, st, v)
    if s is not None:
        return const_bytes(s)
    return None

def found_index(I, st, x, pat, rev):
    """Option<usize>: index of the first / last occurrence."""
    n = seq_len(x)
    if not pat:
        return [(st, some(VInt(n if rev else ZERO, "usize")))]
    f = has_const(I, st, x, pat)
    out = []
    for s, b in I.fork(st, f):
        if not b:
            out.append((s, NONE))
            continue
        hi = max(0, s.rng(n)[1] - len(pat))
        key = (f.a if f.op == "atom" else (x,), "last" if rev else "first", pat)
        i = sym("found", key, 0, hi, (x, rev, pat))
        if s.add_ineq(n - lin(i) - len(pat)) is None:
            continue
        if len(x.segs) == 1 and x.segs[0][1][0] == "s":
            src = x.segs[0][1]
            s.lits = s.lits | {atom("bytes", src[1], src[2] + lin(i), pat)}
        out.append((s, some(VInt(lin(i), "usize"))))
    return out

# ---------------------------------------------------------------- formatting

def m_fmt(I, st, callee, vals, destty):
    p = callee["path"]
    m = last(p)
    if p.startswith("core::fmt::rt::Argument::") or p.startswith("std::fmt::rt::Argument"):
        if m.startswith("new_"):
            return [(st, VObj("fmtarg", (m[4:], peel(I, st, vals[0]) if not isinstance(peel(I, st, vals[0]), VTop) else vals[0])))]
    if p.startswith("std::fmt::Arguments::") or p.startswith("core::fmt::Arguments"):
        if m == "new" and len(vals) == 2:
            t = bytes_of(I, st, vals[0])
            a = peel(I, st, vals[1])
            if isinstance(a, VSlice):
                a = I.read_loc(st, I.deref(a))
            if t is not None and const_bytes(t) is not None and isinstance(a, VArr):
                return [(st, VObj("fmt", (const_bytes(t), a.els)))]
        if m in ("from_str", "from_str_nonconst", "new_const"):
            x = bytes_of(I, st, vals[0])
            if x is None:
                a = peel(I, st, vals[0])
                if isinstance(a, VSlice):
                    a = I.read_loc(st, I.deref(a))
                if isinstance(a, VArr) and len(a.els) == 1:
                    x = bytes_of(I, st, a.els[0])
            if x is not None:
                return [(st, VObj("fmtstr", (x,)))]
        return None
    if p in ("std::fmt::format", "alloc::fmt::format"):
        return fmt_string(I, st, vals[0])
    if m == "write_fmt":
        f = peel(I, st, vals[1])
        out = fmt_string(I, st, f)
        if out is None:
            return None
        res = []
        for s, seq in out:
            loc, x = vec_loc(I, s, vals[0])
            if isinstance(x, VSeq):
                I.write_loc(s, loc, seq_norm(list(x.segs) + list(seq.segs)))
                res.append((s, ok(UNIT)))
            elif isinstance(x, VObj) and x.kind == "formatter":
                I.write_loc(s, loc, VObj("formatter", (seq_norm(list(x.fs[0].segs) + list(seq.segs)),) + x.fs[1:]))
                res.append((s, ok(UNIT)))
            else:
                return None
        return res
    if m in ("write_str", "pad") and ("Formatter" in p or "fmt::Write" in p):
        loc, x = vec_loc(I, st, vals[0])
        y = bytes_of(I, st, vals[1])
        if y is None:
            return None
        if isinstance(x, VSeq):
            I.write_loc(st, loc, seq_norm(list(x.segs) + list(y.segs)))
            return [(st, ok(UNIT))]
        if isinstance(x, VObj) and x.kind == "formatter":
            if m == "pad":
                I.ev("fmtpad", what="padding applied")
                I.write_loc(st, loc, VObj("formatter", (seq_norm(list(x.fs[0].segs) + list(y.segs)), "pad")))
            else:
                I.write_loc(st, loc, VObj("formatter", (seq_norm(list(x.fs[0].segs) + list(y.segs)),) + x.fs[1:]))
            return [(st, ok(UNIT))]
    if p.startswith("std::fmt::Display::fmt") or p.startswith("core::fmt::Display::fmt"):
        y = bytes_of(I, st, vals[0])
        loc, x = vec_loc(I, st, vals[1])
        if y is not None and isinstance(x, VObj) and x.kind == "formatter":
            I.write_loc(st, loc, VObj("formatter", (seq_norm(list(x.fs[0].segs) + list(y.segs)), "pad")))
            return [(st, ok(UNIT))]
    return None

def fmt_string(I, st, f):
    f = peel(I, st, f)
    if isinstance(f, VObj) and f.kind == "fmtstr":
        return [(st, f.fs[0])]
    if not (isinstance(f, VObj) and f.kind == "fmt"):
        return None
    t, args = f.fs
    segs = []
    i = 0
    ai = 0
    while i < len(t):
        b = t[i]
        i += 1
        if b == 0:
            break
        if b < 0x80:
            segs.append((Lin(b), ("c", t[i:i + b])))
            i += b
            continue
        if b == 0x80:
            n = t[i] | t[i + 1] << 8
            i += 2
            segs.append((Lin(n), ("c", t[i:i + n])))
            i += n
            continue
        flags, width, prec = None, None, None
        if b & 1:
            flags = int.from_bytes(t[i:i + 4], "little")
            i += 4
        if b & 2:
            width = int.from_bytes(t[i:i + 2], "little")
            i += 2
        if b & 4:
            prec = int.from_bytes(t[i:i + 2], "little")
            i += 2
        if b & 8:
            ai = int.from_bytes(t[i:i + 2], "little")
            i += 2
        a = peel(I, st, args[ai]) if ai < len(args) else None
        ai += 1
        if not (isinstance(a, VObj) and a.kind == "fmtarg"):
            return None
        tr, v = a.fs
        v = peel(I, st, v)
        if tr in ("lower_hex", "upper_hex") and isinstance(v, VInt):
            if v.l.is_const():
                s = format(v.l.c, "x" if tr == "lower_hex" else "X")
                if width:
                    s = s.rjust(width, "0" if flags is not None and (flags >> 24) & 1 else " ")
                segs.append((Lin(len(s)), ("c", s.encode())))
                continue
            lo, hi = st.rng(v.l)
            zero = flags is not None and bool(flags & (1 << 24))
            if hi <= 255 and width == 2 and zero and lo >= 0:
                segs.append((Lin(2), ("h", v.l, "x" if tr == "lower_hex" else "X")))
                continue
            n = width or 0
            if n and hi < 16 ** n and zero and lo >= 0 and n % 2 == 0 and n <= 16:
                for k in range(n // 2 - 1, -1, -1):
                    segs.append((Lin(2), ("h", I.bitand(st, I.shr(st, v.l, 8 * k), Lin(255), "u64"), "x" if tr == "lower_hex" else "X")))
                continue
            k = lin(sym("opq", ("fmtlen", tr, v, width), 1, 32))
            segs.append((k, ("u", ("fmt", tr, v, width, flags))))
            continue
        if tr in ("display", "debug"):
            x = bytes_of(I, st, v)
            if tr == "display" and x is not None and width is None:
                segs += list(x.segs)
                continue
            if isinstance(v, VInt) and v.l.is_const() and v.t != "char" and width is None:
                s = str(v.l.c).encode()
                segs.append((Lin(len(s)), ("c", s)))
                continue
        k = lin(sym("opq", ("fmtlen", tr, v, width), 0, 2 ** 32))
        segs.append((k, ("u", ("fmt", tr, v, width, flags))))
    return [(st, seq_norm(segs))]

# ---------------------------------------------------------------- iterators

ADAPT = {"map", "enumerate", "take", "skip", "rev", "filter", "zip", "copied", "cloned", "chain", "take_while",
         "skip_while", "by_ref", "peekable", "step_by", "filter_map", "map_while", "fuse", "inspect"}
CONSUME = {"collect", "fold", "for_each", "any", "all", "find", "position", "rposition", "try_for_each", "try_fold",
           "count", "last", "sum", "max", "min", "find_map", "nth", "eq", "unzip", "reduce"}

def as_iter(I, st, v):
    if isinstance(v, VObj) and v.kind == "it":
        return v
    if isinstance(v, VAgg) and len(v.fs) == 2 and all(isinstance(x, VInt) for x in v.fs):
        return VObj("it", ("range", v.fs[0], v.fs[1]))
    if isinstance(v, VAgg) and len(v.fs) == 3 and all(isinstance(x, VInt) for x in v.fs[:2]) \
            and isinstance(v.fs[2], VBool) and v.fs[2].f is FALSE:
        return VObj("it", ("range", v.fs[0], VInt(v.fs[1].l + 1, v.fs[1].t)))  # a..=b that nothing was taken from yet
    return None

def it_next(I, st, it):
    """[(state, item or None, iterator)]"""
    k = it.fs[0]
    f = it.fs
    if k == "slice":
        _, sl, lo, hi = f
        out = []
        for s, b in I.fork(st, ge0(hi - lo - 1)):
            if b:
                out.append((s, elem_ref(I, s, sl, lo), VObj("it", ("slice", sl, lo + 1, hi))))
            else:
                out.append((s, None, it))
        return out
    if k == "range":
        _, lo, hi = f
        out = []
        for s, b in I.fork(st, ge0(hi.l - lo.l - 1)):
            if b:
                out.append((s, lo, VObj("it", ("range", VInt(lo.l + 1, lo.t), hi))))
            else:
                out.append((s, None, it))
        return out
    if k == "windows":
        _, sl, n, i = f
        out = []
        for s, b in I.fork(st, ge0(sl.n - i - n)):
            if b:
                out.append((s, VSlice(sl.base, sl.off + i, n), VObj("it", ("windows", sl, n, i + 1))))
            else:
                out.append((s, None, it))
        return out
    if k in ("chunks", "chunks_exact"):
        _, sl, n, i = f
        out = []
        for s, b in I.fork(st, ge0(sl.n - i - n)):
            if b:
                out.append((s, VSlice(sl.base, sl.off + i, n), VObj("it", (k, sl, n, i + n))))
            elif k == "chunks_exact":
                out.append((s, None, it))
            else:
                for s2, b2 in I.fork(s, ge0(sl.n - i - 1)):
                    if b2:
                        out.append((s2, VSlice(sl.base, sl.off + i, sl.n - i), VObj("it", (k, sl, n, sl.n))))
                    else:
                        out.append((s2, None, it))
        return out
    if k == "rev":
        inner = f[1]
        if inner.fs[0] == "slice":
            _, sl, lo, hi = inner.fs
            out = []
            for s, b in I.fork(st, ge0(hi - lo - 1)):
                if b:
                    out.append((s, elem_ref(I, s, sl, hi - 1), VObj("it", ("rev", VObj("it", ("slice", sl, lo, hi - 1))))))
                else:
                    out.append((s, None, it))
            return out
        if inner.fs[0] == "range":
            _, lo, hi = inner.fs
            out = []
            for s, b in I.fork(st, ge0(hi.l - lo.l - 1)):
                if b:
                    v = VInt(hi.l - 1, hi.t)
                    out.append((s, v, VObj("it", ("rev", VObj("it", ("range", lo, v))))))
                else:
                    out.append((s, None, it))
            return out
        if inner.fs[0] in ("copied", "map"):
            out = []
            for s, x, ni in it_next(I, st, VObj("it", ("rev", inner.fs[1]))):
                wrapped = VObj("it", ("rev", VObj("it", (inner.fs[0], ni.fs[1]) + inner.fs[2:])))
                if x is None:
                    out.append((s, None, wrapped))
                elif inner.fs[0] == "copied":
                    out.append((s, peel(I, s, x), wrapped))
                else:
                    for s2, y in I.call_value(s, inner.fs[2], [x]):
                        out.append((s2, y, wrapped))
            return out
        if inner.fs[0] == "enum":
            a = inner.fs[1]
            n = it_len(a)
            if n is None:
                return None
            out = []
            for s, x, ni in it_next(I, st, VObj("it", ("rev", a))):
                w = VObj("it", ("rev", VObj("it", ("enum", ni.fs[1], inner.fs[2]))))
                out.append((s, None if x is None else VAgg((VInt(inner.fs[2].l + n - 1, "usize"), x)), w))
            return out
        return None
    inner = f[1] if len(f) > 1 else None
    if k == "done":
        return [(st, None, it)]
    if k in ("filter", "filter_map", "take_while", "map_while", "flat_map", "skip_while", "inspect"):
        return it_chosen(I, st, it)
    if k == "step_by":
        r = it_next(I, st, inner)
        if r is None:
            return None
        states = [(s, x, ni) for s, x, ni in r]
        for _ in range(f[2].l.c - 1):
            nxt = []
            for s, x, ni in states:
                if x is None:
                    nxt.append((s, x, ni))
                    continue
                q = it_next(I, s, ni)
                if q is None:
                    return None
                nxt += [(s2, x, nj) for s2, _, nj in q]
            states = nxt
        return [(s, x, VObj("it", ("step_by", ni, f[2]))) for s, x, ni in states]
    if k in ("map", "enum", "take", "copied", "filter", "skip", "takewhile", "filter_map", "fuse"):
        if k == "take":
            n = f[2]
            out = []
            for s, b in I.fork(st, ge0(n.l - 1)):
                if not b:
                    out.append((s, None, it))
                    continue
                r = it_next(I, s, inner)
                if r is None:
                    return None
                for s2, x, ni in r:
                    out.append((s2, x, VObj("it", ("take", ni, VInt(n.l - 1, n.t)))))
            return out
        if k == "skip":
            n = f[2]
            if not n.l.is_const():
                return None
            states = [(st, inner)]
            for _ in range(n.l.c):
                nxt = []
                for s, i2 in states:
                    r = it_next(I, s, i2)
                    if r is None:
                        return None
                    nxt += [(s2, ni) for s2, x, ni in r]
                states = nxt
            out = []
            for s, i2 in states:
                r = it_next(I, s, i2)
                if r is None:
                    return None
                out += [(s2, x, VObj("it", ("skip", ni, VInt(ZERO, "usize")))) for s2, x, ni in r]
            return out
        r = it_next(I, st, inner)
        if r is None:
            return None
        out = []
        for s, x, ni in r:
            if x is None:
                out.append((s, None, VObj("it", (k, ni) + f[2:])))
            elif k == "map":
                for s2, y in I.call_value(s, f[2], [x]):
                    out.append((s2, y, VObj("it", ("map", ni, f[2]))))
            elif k == "enum":
                out.append((s, VAgg((f[2], x)), VObj("it", ("enum", ni, VInt(f[2].l + 1, "usize")))))
            elif k == "copied":
                out.append((s, peel(I, s, x), VObj("it", ("copied", ni))))
            elif k == "fuse":
                out.append((s, x, VObj("it", ("fuse", ni))))
            else:
                return None
        return out
    if k == "zip":
        ra = it_next(I, st, f[1])
        if ra is None:
            return None
        out = []
        for s, x, ni in ra:
            if x is None:
                out.append((s, None, it))
                continue
            rb = it_next(I, s, f[2])
            if rb is None:
                return None
            for s2, y, nj in rb:
                out.append((s2, None if y is None else VAgg((x, y)), VObj("it", ("zip", ni, nj))))
        return out
    if k == "chain":
        ra = it_next(I, st, f[1])
        if ra is None:
            return None
        out = []
        for s, x, ni in ra:
            if x is not None:
                out.append((s, x, VObj("it", ("chain", ni, f[2]))))
                continue
            rb = it_next(I, s, f[2])
            if rb is None:
                return None
            out += [(s2, y, VObj("it", ("chain", ni, nj))) for s2, y, nj in rb]
        return out
    if k in ("lines", "split"):
        return lines_next(I, st, it)
    return None

def it_chosen(I, st, it):
    """Items of an adapter that drops, stops at or multiplies items of the inner iterator."""
    k, inner, fn = it.fs[:3]
    out, work, n = [], [(st, it)], 0
    while work:
        n += 1
        if n > 128:
            return None
        s, i = work.pop()
        cur = i.fs[3] if k == "flat_map" and len(i.fs) > 3 else None
        if cur is not None:
            r = it_next(I, s, cur)
            if r is None:
                return None
            for s2, y, nc in r:
                if y is None:
                    work.append((s2, VObj("it", ("flat_map", i.fs[1], fn))))
                else:
                    out.append((s2, y, VObj("it", ("flat_map", i.fs[1], fn, nc))))
            continue
        r = it_next(I, s, i.fs[1])
        if r is None:
            return None
        for s2, x, ni in r:
            nxt = VObj("it", (k, ni, fn))
            if x is None:
                out.append((s2, None, nxt))
                continue
            for s3, v in I.call_value(s2, fn, [VCRef(x) if k in ("filter", "take_while", "skip_while", "inspect") else x]):
                if k == "inspect":
                    out.append((s3, x, nxt))
                elif k == "skip_while":
                    if not isinstance(v, VBool):
                        return None
                    for s4, b in I.fork(s3, v.f):
                        if b:
                            work.append((s4, nxt))
                        else:
                            out.append((s4, x, ni))
                elif k in ("filter", "take_while"):
                    if not isinstance(v, VBool):
                        return None
                    for s4, b in I.fork(s3, v.f):
                        if b:
                            out.append((s4, x, nxt))
                        elif k == "filter":
                            work.append((s4, nxt))
                        else:
                            out.append((s4, None, VObj("it", ("done",))))
                elif k == "flat_map":
                    c = as_iter(I, s3, v)
                    if c is None and isinstance(v, (VSeq, VArr)):
                        m = I.len_of(s3, v)
                        c = VObj("it", ("copied", VObj("it", ("slice", VSlice(VCRef(v), ZERO, m), ZERO, m))))
                    if c is None:
                        return None
                    work.append((s3, VObj("it", ("flat_map", ni, fn, c))))
                else:
                    if not isinstance(v, VEnum) or v.v not in (0, 1) or v.v == 1 and len(v.fs) != 1:
                        return None
                    if v.v == 1:
                        out.append((s3, v.fs[0], nxt))
                    elif k == "filter_map":
                        work.append((s3, nxt))
                    else:
                        out.append((s3, None, VObj("it", ("done",))))
    return out

def it_len(it):
    f = it.fs
    if f[0] == "slice":
        return f[3] - f[2]
    if f[0] == "range":
        return f[2].l - f[1].l
    if f[0] in ("copied", "map", "rev", "enum"):
        return it_len(f[1])
    return None

def lines_next(I, st, it):
    k, rd = it.fs[0], it.fs[1]
    delim = VInt(Lin(10), "u8") if k == "lines" else it.fs[2]
    cell = ("io", I.depth)
    tmp = ("io", I.depth, "buf")
    # the reader is owned by the iterator: give it a cell while reading
    owned = not isinstance(rd, (VRef, VCRef))
    if owned:
        st.mem[cell] = rd
        rv = VRef(cell, ())
    else:
        rv = rd
    st.mem[tmp] = VSeq(())
    r = io_read_until(I, st, rv, delim, VRef(tmp, ()), k, k == "lines")
    if r is None:
        return None
    out = []
    for s, v in r:
        nrd = s.mem.pop(cell) if owned else rd
        buf = s.mem.pop(tmp, VSeq(()))
        ni = VObj("it", (k, nrd) + it.fs[2:])
        if v.v == 1:
            out.append((s, v, ni))
        elif v.fs[0].l is ZERO:
            out.append((s, None, ni))
        else:
            n = v.fs[0].l
            segs = buf.segs
            if len(segs) == 1 and segs[0][1][0] == "s":
                src = segs[0][1]
                d = delim.l.c if delim.l.is_const() else None
                nl = atom("bytes", src[1], src[2] + n - 1, bytes([d])) if d is not None else None
                # the terminator is dropped from the item
                for s2, b in I.fork(s, nl):
                    if not b:
                        out.append((s2, ok(buf), ni))
                        continue
                    if k == "lines":
                        # "\r\n" loses both
                        m = lin(sym("opq", ("linelen", src, n), 0, max(0, s2.rng(n)[1])))
                        if s2.add_ineq(n - m - 1) is None:
                            continue
                        out.append((s2, ok(VSeq(((m, src),)) if m is not ZERO else VSeq(())), ni))
                    else:
                        out.append((s2, ok(VSeq(((n - 1, src),)) if n.c != 1 or n.t else VSeq(())), ni))
            else:
                out.append((s, ok(buf), ni))
    return out

IT_LIMIT = 400

def it_run(I, st, it, step, init):
    """Drives an iterator: step(state, acc, item) -> [(state, acc, done?)]; returns [(state, acc, exhausted)] or None."""
    work = [(st, it, init)]
    out = []
    n = 0
    while work:
        n += 1
        if n > IT_LIMIT:
            return None
        nxt = []
        for s, i, acc in work:
            r = it_next(I, s, i)
            if r is None:
                return None
            for s2, x, ni in r:
                if x is None:
                    out.append((s2, acc, True, ni))
                    continue
                q = step(s2, acc, x)
                if q is None:
                    return None
                for s3, a2, done in q:
                    if done:
                        out.append((s3, a2, False, ni))
                    else:
                        nxt.append((s3, ni, a2))
        # join equal configurations
        g = {}
        order = []
        for s, i, a in nxt:
            key = (s.shape(), i, a)
            if key in g:
                g[key] = merge(g[key], s)
            else:
                g[key] = s
                order.append(key)
        work = [(g[key], key[1], key[2]) for key in order]
        if len(work) > 64:
            return None
    return out

def m_iter(I, st, callee, vals, destty):
    p = callee["path"]
    m = last(p)
    if p == "std::iter::IntoIterator::into_iter":
        v = vals[0]
        if isinstance(v, VObj) and v.kind == "it":
            return [(st, v)]
        if isinstance(v, (VRef, VCRef, VSlice)):
            sl = slice_of(I, st, v)
            if sl is not None:
                return [(st, VObj("it", ("slice", sl, ZERO, sl.n)))]
        if isinstance(v, (VSeq, VArr)):
            n = I.len_of(st, v)
            sl = VSlice(VCRef(v), ZERO, n)
            return [(st, VObj("it", ("copied", VObj("it", ("slice", sl, ZERO, n)))))]
        return None
    if not (p.startswith("std::iter::Iterator::") or p.startswith("std::iter::DoubleEndedIterator::")
            or p.startswith("std::iter::ExactSizeIterator::")):
        return None
    if m in ("next", "next_back", "nth", "by_ref", "any", "all", "find", "position", "rposition", "try_for_each", "try_fold", "find_map"):
        ref = vals[0]
        if m == "by_ref":
            return [(st, ref)]
        if not isinstance(ref, VRef):
            return None
        loc, it = I.deref(ref), I.read_loc(st, I.deref(ref))
        while isinstance(it, VRef):
            loc = I.deref(it)
            it = I.read_loc(st, loc)
        rng = isinstance(it, VAgg)
        it = as_iter(I, st, it)
        if it is None:
            return None
        if m == "next" and rng:
            return None
    else:
        ref, loc = None, None
        it = vals[0]
        if isinstance(it, VRef):
            loc = I.deref(it)
            it = I.read_loc(st, loc)
        it = as_iter(I, st, it)
        if it is None:
            return None

    def put(s, i):
        if loc is not None and loc[0] == "cell":
            w = I.read_loc(s, loc)
            if isinstance(w, VAgg) and len(w.fs) == 2 and i.fs[0] == "range":
                I.write_loc(s, loc, VAgg((i.fs[1], i.fs[2])))
            else:
                I.write_loc(s, loc, i)

    if m == "next":
        r = it_next(I, st, it)
        if r is None:
            return None
        out = []
        for s, x, ni in r:
            put(s, ni)
            out.append((s, NONE if x is None else some(x)))
        return out
    if m == "next_back":
        r = it_next(I, st, VObj("it", ("rev", it)))
        if r is None:
            return None
        out = []
        for s, x, ni in r:
            put(s, ni.fs[1])
            out.append((s, NONE if x is None else some(x)))
        return out
    if m == "map":
        return [(st, VObj("it", ("map", it, vals[1])))]
    if m in ("filter", "filter_map", "take_while", "map_while", "flat_map", "skip_while", "inspect"):
        return [(st, VObj("it", (m, it, vals[1])))]
    if m == "step_by" and isinstance(vals[1], VInt) and vals[1].l.is_const() and 1 <= vals[1].l.c <= 64:
        return [(st, VObj("it", ("step_by", it, vals[1])))]
    if m == "enumerate":
        return [(st, VObj("it", ("enum", it, VInt(ZERO, "usize"))))]
    if m == "take":
        return [(st, VObj("it", ("take", it, vals[1])))]
    if m == "skip":
        return [(st, VObj("it", ("skip", it, vals[1])))]
    if m == "rev":
        return [(st, VObj("it", ("rev", it)))]
    if m in ("copied", "cloned"):
        return [(st, VObj("it", ("copied", it)))]
    if m == "fuse":
        return [(st, VObj("it", ("fuse", it)))]
    if m == "zip":
        o = vals[1]
        o2 = as_iter(I, st, o)
        if o2 is None:
            sl = slice_of(I, st, o)
            if sl is None:
                return None
            o2 = VObj("it", ("slice", sl, ZERO, sl.n))
        return [(st, VObj("it", ("zip", it, o2)))]
    if m == "chain":
        o2 = as_iter(I, st, vals[1])
        if o2 is None:
            sl = slice_of(I, st, vals[1])
            if sl is None:
                return None
            o2 = VObj("it", ("slice", sl, ZERO, sl.n))
        return [(st, VObj("it", ("chain", it, o2)))]
    if m in ("len", "count") and it_len(it) is not None:
        return [(st, VInt(it_len(it), "usize"))]
    # searches over characters or windows with a symbolic number of items
    if m in ("any", "all", "find", "position", "rposition"):
        r = symbolic_search(I, st, it, m, vals[1], put)
        if r is not None:
            return r

    def bools(s, outs, acc, on_true, on_false):
        res = []
        for s2, b in outs:
            if not isinstance(b, VBool):
                return None
            for s3, t in I.fork(s2, b.f):
                res.append(on_true(s3) if t else on_false(s3))
        return res

    if m == "any":
        r = it_run(I, st, it, lambda s, a, x: bools(s, I.call_value(s, vals[1], [x]), a, lambda z: (z, True, True), lambda z: (z, a, False)), False)
        return r and [(put(s, ni), (s, vbool(a)))[1] for s, a, ex, ni in r]
    if m == "all":
        r = it_run(I, st, it, lambda s, a, x: bools(s, I.call_value(s, vals[1], [x]), a, lambda z: (z, a, False), lambda z: (z, False, True)), True)
        return r and [(put(s, ni), (s, vbool(a)))[1] for s, a, ex, ni in r]
    if m == "find":
        def stepf(s, a, x):
            cell = ("tmpit", I.depth)
            return bools(s, I.call_value(s, vals[1], [VCRef(x)]), a, lambda z: (z, some(x), True), lambda z: (z, a, False))
        r = it_run(I, st, it, stepf, NONE)
        return r and [(put(s, ni), (s, a))[1] for s, a, ex, ni in r]
    if m == "find_map":
        def stepfm(s, a, x):
            res = []
            for s2, v in I.call_value(s, vals[1], [x]):
                v = peel(I, s2, v)
                if not isinstance(v, VEnum) or v.v not in (0, 1):
                    return None
                res.append((s2, v, True) if v.v == 1 else (s2, a, False))
            return res
        r = it_run(I, st, it, stepfm, NONE)
        return r and [(put(s, ni), (s, a))[1] for s, a, ex, ni in r]
    if m == "nth":
        n = vals[1]
        if not isinstance(n, VInt) or not n.l.is_const() or not 0 <= n.l.c <= 64:
            return None
        r = it_run(I, st, it, lambda s, a, x: [(s, some(x), True)] if a == n.l.c else [(s, a + 1, False)], 0)
        return r and [(put(s, ni), (s, NONE if ex else a))[1] for s, a, ex, ni in r]
    if m == "reduce":
        def stepred(s, a, x):
            if a == NONE:
                return [(s, some(x), False)]
            return [(s2, some(v), False) for s2, v in I.call_value(s, vals[1], [a.fs[0], x])]
        r = it_run(I, st, it, stepred, NONE)
        return r and [(s, a) for s, a, ex, ni in r]
    if m == "count":
        r = it_run(I, st, it, lambda s, a, x: [(s, a + 1, False)], 0)
        return r and [(s, VInt(Lin(a), "usize")) for s, a, ex, ni in r]
    if m == "position":
        r = it_run(I, st, it, lambda s, a, x: bools(s, I.call_value(s, vals[1], [x]), a, lambda z: (z, some(VInt(Lin(a), "usize")), True), lambda z: (z, a + 1, False)), 0)
        return r and [(put(s, ni), (s, NONE if ex else a))[1] for s, a, ex, ni in r]
    if m == "fold":
        def stepfold(s, a, x):
            return [(s2, v, False) for s2, v in I.call_value(s, vals[2], [a, x])]
        r = it_run(I, st, it, stepfold, vals[1])
        return r and [(s, a) for s, a, ex, ni in r]
    if m == "for_each":
        r = it_run(I, st, it, lambda s, a, x: [(s2, a, False) for s2, v in I.call_value(s, vals[1], [x])], UNIT)
        return r and [(s, UNIT) for s, a, ex, ni in r]
    if m == "try_for_each" or m == "try_fold":
        fold = m == "try_fold"
        fn = vals[2] if fold else vals[1]
        t = tyname(I, destty)
        good = 1 if "Option<" in t[:24] else 0
        def stept(s, a, x):
            res = []
            for s2, v in I.call_value(s, fn, [a, x] if fold else [x]):
                v = peel(I, s2, v)
                if not isinstance(v, VEnum):
                    return None
                if v.v == good:
                    res.append((s2, v.fs[0], False))
                else:
                    res.append((s2, VAgg((v,)), True))
            return res
        r = it_run(I, st, it, stept, vals[1] if fold else UNIT)
        if r is None:
            return None
        out = []
        for s, a, ex, ni in r:
            put(s, ni)
            out.append((s, VEnum(good, (a,)) if ex else a.fs[0]))
        return out
    if m == "collect":
        t = tyname(I, destty)
        if t == "std::string::String":
            def stepc(s, a, x):
                y = bytes_of(I, s, x)
                if y is None:
                    v = peel(I, s, x)
                    if isinstance(v, VInt) and v.t == "char" and v.l.is_const() and v.l.c < 128:
                        y = seq_const(bytes([v.l.c]))
                    else:
                        return None
                return [(s, seq_norm(list(a.segs) + list(y.segs)), False)]
            r = it_run(I, st, it, stepc, VSeq(()))
            return r and [(s, a) for s, a, ex, ni in r]
        if t.startswith("std::vec::Vec<u8"):
            def stepv(s, a, x):
                v = peel(I, s, x)
                if not isinstance(v, VInt):
                    return None
                return [(s, seq_norm(list(a.segs) + [(ONE, I.byte_src(v.l))]), False)]
            r = it_run(I, st, it, stepv, VSeq(()))
            return r and [(s, a) for s, a, ex, ni in r]
        if t.startswith("std::vec::Vec<"):
            r = it_run(I, st, it, lambda s, a, x: [(s, VArr(a.els + (x,)), False)], VArr(()))
            return r and [(s, a) for s, a, ex, ni in r]
        return None
    if m == "last":
        r = it_run(I, st, it, lambda s, a, x: [(s, some(x), False)], NONE)
        return r and [(s, a) for s, a, ex, ni in r]
    if m == "sum":
        def steps(s, a, x):
            v = peel(I, s, x)
            return [(s, VInt(a.l + v.l, v.t), False)] if isinstance(v, VInt) else None
        r = it_run(I, st, it, steps, VInt(ZERO, tyname(I, destty)))
        return r and [(s, a) for s, a, ex, ni in r]
    return None

def symbolic_search(I, st, it, m, fn, put):
    k = it.fs[0]
    if k == "chars" and m in ("any", "all", "find"):
        sl = it.fs[1]
        x = bytes_of(I, st, sl)
        rs = closure_set(I, st, fn, m == "find", "char")
        if x is None or rs is None:
            return None
        if m == "all":
            rs = complement(rs, 0, 0x10FFFF)
        f = f_or(*[any_char(src, n, rs) for n, src in x.segs])
        out = []
        for s, b in I.fork(st, f):
            if m == "find":
                c = lin(fresh("fresh", "chr", rs[0][0] if rs else 0, rs[-1][1] if rs else 0))
                out.append((s, some(VInt(c, "char")) if b else NONE))
            else:
                out.append((s, vbool(b if m == "any" else not b)))
        return out
    base = it
    byval = False
    if base.fs[0] == "copied":
        base, byval = base.fs[1], True
    if base.fs[0] == "slice" and m in ("any", "all"):
        _, sl, lo, hi = base.fs
        if (hi - lo).is_const() and (hi - lo).c <= 64:
            if (hi - lo).c > 16 or (hi - lo).c < 2:
                return None
            # one disjunction over the elements instead of one path per element
            fs, cur, i = [], st.copy(), base
            for _ in range((hi - lo).c):
                nx = it_next(I, cur, it if i is base else i)
                if nx is None or len(nx) != 1 or nx[0][1] is None:
                    return None
                cur, x, i = nx[0]
                outs = I.call_value(cur.copy(), fn, [x])
                if len(outs) != 1 or not isinstance(outs[0][1], VBool) or outs[0][0].shape() != cur.shape():
                    return None
                fs.append(outs[0][1].f)
            f = f_or(*fs) if m == "any" else fand(*fs)
            return [(s, vbool(b)) for s, b in I.fork(st, f)]
        x = bytes_of(I, st, VSlice(sl.base, sl.off + lo, hi - lo))
        if x is None:
            return None
        rs = closure_set(I, st, fn, not byval, "u8")
        if rs is None:
            return None
        if m == "all":
            rs = complement(rs, 0, 255)
        f = f_or(*[atom("anybyte", src, n, rs) if rs else FALSE for n, src in x.segs])
        return [(s, vbool(b if m == "any" else not b)) for s, b in I.fork(st, f)]
    rng, rev = (it.fs[1], True) if k == "rev" else (it, False)
    if rng.fs[0] == "range" and m in ("any", "find"):
        # an index range whose closure asks for one pattern at the index: where the pattern first (last) is
        lo, hi = rng.fs[1].l, rng.fs[2].l
        out = []
        for s, b in I.fork(st, ge0(hi - lo - 1)):
            if not b:
                out.append((s, vbool(False) if m == "any" else NONE))
                continue
            ix = lin(fresh("fresh", "ixs", 0, 2 ** 63))
            s0 = s.copy()
            if s0.add_ineq(ix - lo) is None or s0.add_ineq(hi - ix - 1) is None:
                return None
            x = VInt(ix, rng.fs[1].t)
            outs = I.call_value(s0, fn, [VCRef(x) if m == "find" else x])
            if len(outs) != 1 or not isinstance(outs[0][1], VBool):
                return None
            g = outs[0][1].f
            if g.op != "atom" or g.a[0] != "bytes" or not isinstance(g.a[3], bytes) or not g.a[3]:
                return None
            at = g.a[2] - ix
            if repr(ix) in repr(at):
                return None
            pat = g.a[3]
            whole = VSeq(((hi - lo - 1 + len(pat), ("s", g.a[1], at + lo)),))
            for s2, v in found_index(I, s, whole, pat, rev):
                if m == "any":
                    out.append((s2, vbool(v.v == 1)))
                else:
                    out.append((s2, some(VInt(v.fs[0].l + lo, x.t)) if v.v == 1 else NONE))
        return out
    if k == "windows" and m in ("any", "position", "rposition"):
        _, sl, n, i0 = it.fs
        if not n.is_const() or i0 is not ZERO:
            return None
        whole = bytes_of(I, st, sl)
        if whole is None:
            return None
        if not oblig(I, st, "zero window", ge0(n - 1), "windows(0)"):
            return []
        ix = fresh("fresh", "win", 0, 2 ** 63)
        s0 = st.copy()
        if s0.add_ineq(sl.n - lin(ix) - n) is None:
            return [(st, vbool(False) if m == "any" else NONE)]
        if len(whole.segs) == 1 and whole.segs[0][1][0] == "s":
            src = whole.segs[0][1]
            win = VSlice(sl.base, sl.off + lin(ix), n)
        else:
            # what the closure asks of a window does not depend on how the data was put together
            src = ("s", "D", ZERO)
            win = VSlice(VCRef(VSeq(((sl.n, src),))), lin(ix), n)
        outs = I.call_value(s0, fn, [win])
        if len(outs) != 1 or not isinstance(outs[0][1], VBool):
            return None
        g = outs[0][1].f
        if g.op == "atom" and g.a[0] == "bytes" and g.a[1] == src[1] and g.a[2] is src[2] + lin(ix) and len(g.a[3]) == n.c:
            pat = g.a[3]
            r = found_index(I, st, whole, pat, m == "rposition")
            if m == "any":
                return [(s, vbool(v.v == 1)) for s, v in r]
            return r
    return None

# ---------------------------------------------------------------- misc

PANICS = ("core::panicking::", "std::rt::panic_fmt", "core::rt::panic", "std::rt::begin_panic", "std::panicking::",
          "std::option::expect_failed", "std::option::unwrap_failed", "std::result::unwrap_failed", "core::option::", "core::result::unwrap_failed",
          "core::slice::index::slice_", "std::process::abort", "core::str::slice_error_fail", "alloc::alloc::handle_alloc_error",
          "core::cell::panic", "std::process::exit", "core::slice::copy_from_slice_impl::len_mismatch")

def m_misc(I, st, callee, vals, destty):
    p = callee["path"]
    m = last(p)
    if "precondition_check" in p:
        return [(st, UNIT)]
    if callee.get("body") is None and any(p.startswith(x) for x in PANICS) or p in ("core::panicking::panic", "core::panicking::panic_fmt"):
        I.ev("oblig", kind="panic", proven=False, block=I.cur_block[1], body=I.cur_block[0], detail="reaches " + p)
        return []
    if p in ("std::hint::must_use", "core::hint::must_use", "std::hint::black_box", "core::hint::black_box"):
        return [(st, vals[0])]
    if p in ("std::intrinsics::cold_path", "std::hint::cold_path", "std::mem::forget", "std::mem::drop"):
        return [(st, UNIT)]
    if p in ("std::mem::replace", "core::mem::replace"):
        loc = I.deref(vals[0])
        old = I.read_loc(st, loc)
        I.write_loc(st, loc, vals[1])
        return [(st, old)]
    if p in ("std::mem::take", "core::mem::take"):
        loc = I.deref(vals[0])
        old = I.read_loc(st, loc)
        new = None
        if isinstance(old, VSeq):
            new = VSeq(())
        elif isinstance(old, VInt):
            new = VInt(ZERO, old.t)
        elif isinstance(old, VBool):
            new = VBool(FALSE)
        elif isinstance(old, VEnum) and "Option" in tyname(I, destty):
            new = NONE
        if new is None:
            return None
        I.write_loc(st, loc, new)
        return [(st, old)]
    if p in ("std::mem::swap", "core::mem::swap"):
        a, b = I.deref(vals[0]), I.deref(vals[1])
        x, y = I.read_loc(st, a), I.read_loc(st, b)
        I.write_loc(st, a, y)
        I.write_loc(st, b, x)
        return [(st, UNIT)]
    if m in ("size_of", "align_of") and p.startswith("std::mem"):
        a = callee.get("args") or []
        t = I.types[a[0]] if a else None
        if t and t["k"] in ("uint", "int"):
            return [(st, VInt(Lin(twidth(t["s"]) // 8), "usize"))]
        if t and t["k"] == "array" and I.types[t["e"]]["s"] == "u8" and isinstance(t["n"], int):
            return [(st, VInt(Lin(t["n"]), "usize"))]
    if p in ("std::vec::from_elem",):
        v, n = vals[0], vals[1]
        if not isinstance(n, VInt):
            return None
        I.ev("alloc", what="vec![_; n]", size=n.l, hi=st.rng(n.l)[1], limited=True)
        if isinstance(v, VInt) and v.t in ("u8", "i8"):
            return [(st, VSeq(((n.l, ("f", v.l)),)) if n.l is not ZERO else VSeq(()))]
        if n.l.is_const() and n.l.c <= 1024:
            return [(st, VArr((v,) * n.l.c))]
        return None
    if p in ("std::string::String::from_utf8_lossy",):
        x = bytes_of(I, st, vals[0])
        return x is not None and [(st, lossy(I, st, x))] or None
    if p in ("std::str::from_utf8", "core::str::from_utf8", "core::str::converts::from_utf8"):
        return utf8(I, st, vals[0], False)
    if p.startswith("std::str::Utf8Error::") or p.startswith("core::str::Utf8Error::") or p.startswith("core::str::error::Utf8Error"):
        e = peel(I, st, vals[0])
        if isinstance(e, VObj) and e.kind == "utf8err":
            x = e.fs[0]
            if m == "valid_up_to":
                k = sym("validupto", x, 0, max(0, st.rng(seq_len(x))[1]))
                st.add_ineq(seq_len(x) - lin(k))
                return [(st, VInt(lin(k), "usize"))]
            if m == "error_len":
                f = atom("utf8cut", x)     # the text ends inside a character
                return [(s, NONE if b else some(VInt(lin(fresh("opq", "elen", 1, 3)), "u8"))) for s, b in I.fork(st, f)]
    if p.startswith("std::string::FromUtf8Error::"):
        e = peel(I, st, vals[0])
        if isinstance(e, VObj) and e.kind == "utf8err":
            if m == "utf8_error":
                return [(st, e)]
            if m in ("into_bytes", "as_bytes"):
                return [(st, e.fs[0])]
    if p == "std::fs::File::open":
        I.ev("open", what=p)
        s = st.copy()
        tag(s, "io")
        return [(st, ok(VObj("file", (vals[0],)))), (s, err(ioerr_other(I)))]
    if p in ("std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow", "std::convert::AsMut::as_mut",
             "std::borrow::BorrowMut::borrow_mut"):
        a = callee.get("args") or []
        if len(a) > 1 and tyname(I, a[1]) in ("[u8]", "str"):
            sl = slice_of(I, st, vals[0])
            if sl is not None:
                return [(st, sl)]
        if tyname(I, a[0]) in ("B",) or I.types[a[0]]["k"] == "param":
            v = peel(I, st, vals[0])
            return [(st, VObj("asref", (v,)))]
        return None
    if p in ("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut"):
        x = peel(I, st, vals[0])
        if isinstance(x, (VSeq, VArr)):
            return [(st, slice_of(I, st, vals[0]))]
        if isinstance(x, VObj) and x.kind == "box":
            return [(st, VCRef(x.fs[0]))]
        return None
    if p in ("std::clone::Clone::clone",):
        x = peel(I, st, vals[0])
        if isinstance(x, VTop):
            return None
        if isinstance(x, VSlice):
            return [(st, x)]
        return [(st, x)]
    if p in ("std::string::ToString::to_string", "std::borrow::ToOwned::to_owned", "std::string::SpecToString::spec_to_string"):
        x = bytes_of(I, st, vals[0])
        if x is not None:
            n = seq_len(x)
            I.ev("alloc", what=p, size=n, hi=st.rng(n)[1], limited=True)
            return [(st, x)]
        v = peel(I, st, vals[0])
        if isinstance(v, VArr):
            return [(st, v)]
        return None
    if p.startswith("std::borrow::Cow::") and m in ("into_owned", "to_mut", "as_ref"):
        x = bytes_of(I, st, vals[0])
        if x is not None:
            return [(st, x)]
    if p in ("std::convert::From::from", "std::convert::Into::into"):
        a = callee.get("args") or []
        x = vals[0]
        d = tyname(I, destty)
        if isinstance(x, VInt) and I.intname(destty) if destty is not None else False:
            n = I.intname(destty)
            return [(st, VInt(x.l, n))]
        if d in ("std::string::String",) or d.startswith("std::vec::Vec<u8"):
            y = bytes_of(I, st, x)
            if y is not None:
                return [(st, y)]
        if isinstance(x, VObj) and x.kind == "ioerr":
            return [(st, x)]
        if d == "std::io::Error":
            k = peel(I, st, x)
            if isinstance(k, VEnum):
                return [(st, VObj("ioerr", (Lin(k.v),)))]
        if d.startswith("std::boxed::Box<"):
            return [(st, VObj("box", (x,)))]
        return None
    if p in ("std::convert::TryFrom::try_from", "std::convert::TryInto::try_into"):
        x = vals[0]
        t = I.types[destty] if destty is not None else None
        if t and t["k"] == "adt" and t["args"]:
            tn = I.intname(t["args"][0])
            if isinstance(x, VInt) and tn:
                lo, hi = trange(tn)
                return [(s, ok(VInt(x.l, tn)) if b else err(VTop(None, ("tryint",))))
                        for s, b in I.fork(st, fand(ge0(x.l - lo), ge0(Lin(hi) - x.l)))]
            at = I.types[t["args"][0]]
            if at["k"] == "ref":
                at2 = I.types[at["e"]]
            else:
                at2 = at
            if at2["k"] == "array" and isinstance(at2["n"], int):
                sl = slice_of(I, st, x)
                if sl is not None:
                    out = []
                    for s, b in I.fork(st, eq0(sl.n - at2["n"])):
                        if not b:
                            out.append((s, err(VTop(None, ("tryarr",)))))
                        elif at["k"] == "ref":
                            out.append((s, ok(VCRef(I.read_loc(s, I.deref(VSlice(sl.base, sl.off, Lin(at2["n"]))))))))
                        else:
                            out.append((s, ok(I.read_loc(s, I.deref(VSlice(sl.base, sl.off, Lin(at2["n"])))))))
                    return out
        return None
    if p in ("std::default::Default::default",):
        n = I.intname(destty) if destty is not None else None
        if n:
            return [(st, VInt(ZERO, n))]
        d = tyname(I, destty)
        if d == "bool":
            return [(st, VBool(FALSE))]
        if d == "std::string::String" or d.startswith("std::vec::Vec<u8"):
            return [(st, VSeq(()))]
        if d.startswith("std::option::Option"):
            return [(st, NONE)]
        return None
    if p in ("std::cmp::PartialEq::eq", "std::cmp::PartialEq::ne"):
        f = values_eq(I, st, vals[0], vals[1])
        if m == "ne":
            f = fnot(f)
        return [(st, VBool(f))]
    if p.startswith("std::cmp::PartialOrd::") and m in ("lt", "le", "gt", "ge"):
        a, b = peel(I, st, vals[0]), peel(I, st, vals[1])
        if isinstance(a, VInt) and isinstance(b, VInt):
            d = {"lt": b.l - a.l - 1, "le": b.l - a.l, "gt": a.l - b.l - 1, "ge": a.l - b.l}[m]
            return [(st, VBool(ge0(d)))]
        return None
    if p in ("std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp"):
        a, b = peel(I, st, vals[0]), peel(I, st, vals[1])
        wrap = some if m == "partial_cmp" else lambda v: v
        if isinstance(a, VInt) and isinstance(b, VInt):
            out = []
            for s, lt in I.fork(st, ge0(b.l - a.l - 1)):
                if lt:
                    out.append((s, wrap(VEnum(0, ()))))
                    continue
                for s2, eq in I.fork(s, eq0(a.l - b.l)):
                    out.append((s2, wrap(VEnum(1 if eq else 2, ()))))
            return out
        return None
    if p in ("std::cmp::min", "std::cmp::max", "std::cmp::Ord::min", "std::cmp::Ord::max"):
        a, b = vals[0], vals[1]
        if isinstance(a, VInt) and isinstance(b, VInt):
            lo = m == "min"
            return [(s, (a if g == lo else b)) for s, g in I.fork(st, ge0(b.l - a.l))]
        return None
    if p == "std::cmp::Ord::clamp":
        x, lo, hi = vals
        if all(isinstance(z, VInt) for z in vals):
            if not oblig(I, st, "clamp", ge0(hi.l - lo.l), "clamp with min > max"):
                return []
            out = []
            for s, b in I.fork(st, ge0(x.l - lo.l)):
                if not b:
                    out.append((s, lo))
                    continue
                for s2, b2 in I.fork(s, ge0(hi.l - x.l)):
                    out.append((s2, x if b2 else hi))
            return out
    if p.startswith("std::char::methods::<impl char>::") or p.startswith("core::char::methods::<impl char>::"):
        x = peel(I, st, vals[0])
        if isinstance(x, VInt):
            if m in CHAR_SETS:
                return [(st, VBool(char_pred(m, x.l)))]
            if m == "len_utf8":
                return [(st, VInt(lin(sym("opq", ("lenutf8", x.l), 1, 4)), "usize"))]
    if p.startswith("std::ops::Fn") and m in ("call", "call_mut", "call_once") and callee.get("body") is None:
        a = vals[1]
        if isinstance(a, VAgg):
            return I.call_value(st, vals[0], list(a.fs))
    if p in ("std::boxed::Box::<T>::new",):
        return [(st, VObj("box", (vals[0],)))]
    if p.startswith("std::intrinsics::discriminant_value") or p in ("std::mem::discriminant",):
        loc = I.deref(vals[0])
        ty = next((a for a in callee.get("args") or [] if isinstance(a, int) and I.types[a]["k"] == "adt"), None)
        return I.discr(st, loc, ty)
    return None

# ---------------------------------------------------------------- entry

def m_fast(I, st, callee, vals, destty):
    """Standard-library functions that every `?` and `for` goes through."""
    p = callee["path"]
    a = callee.get("args") or []
    if not a or not isinstance(a[0], int):
        return None
    t = I.types[a[0]]
    if t["k"] != "adt":
        return None
    tp = t["path"]
    x = vals[0]
    if p == "std::ops::Try::branch" and isinstance(x, VEnum):
        if tp == "std::result::Result":
            return [(st, VEnum(0, x.fs) if x.v == 0 else VEnum(1, (x,)))]
        if tp == "std::option::Option":
            return [(st, VEnum(0, x.fs) if x.v == 1 else VEnum(1, (x,)))]
    elif p == "std::ops::FromResidual::from_residual" and isinstance(x, VEnum):
        if tp == "std::option::Option" and x.v == 0:
            return [(st, x)]
        if tp == "std::result::Result" and x.v == 1 and len(a) > 1:
            r = I.types[a[1]]
            if r["k"] == "adt" and r["path"] == tp and r["args"][1] == t["args"][1]:
                return [(st, x)]
    elif p == "std::iter::IntoIterator::into_iter" and tp == "std::ops::Range":
        return [(st, x)]
    elif p == "std::iter::Iterator::next" and tp == "std::ops::Range" and I.intname(t["args"][0]):
        if not isinstance(x, VRef):
            return None
        loc = I.deref(x)
        r = I.read_loc(st, loc)
        if not (isinstance(r, VAgg) and len(r.fs) == 2 and all(isinstance(y, VInt) for y in r.fs)):
            return None
        out = []
        lo, hi = r.fs
        for s, b in I.fork(st, ge0(hi.l - lo.l - 1)):
            if b:
                I.write_loc(s, loc, VAgg((VInt(lo.l + 1, lo.t), hi)))
                out.append((s, some(lo)))
            else:
                out.append((s, NONE))
        return out
    return None

FAST = {"std::ops::Try::branch", "std::ops::FromResidual::from_residual", "std::iter::IntoIterator::into_iter", "std::iter::Iterator::next"}

def call(I, st, callee, vals, destty):
    p = callee["path"]
    if p in FAST:
        r = m_fast(I, st, callee, vals, destty)
        if r is not None:
            return r
    g = INT_RE.match(p)
    if g:
        return m_int(I, st, callee, vals, destty, g.group(1), g.group(2))
    if p.startswith("std::io::") or "io::error" in p:
        r = m_io(I, st, callee, vals, destty)
        if r is not None:
            return r
    if "fmt" in p:
        r = m_fmt(I, st, callee, vals, destty)
        if r is not None:
            return r
    if p in ("std::ops::Index::index", "std::ops::IndexMut::index_mut"):
        r = m_index(I, st, callee, vals, destty)
        if r is not None:
            return r
    if p.startswith("std::iter::"):
        r = m_iter(I, st, callee, vals, destty)
        if r is not None:
            return r
    r = m_seq(I, st, callee, vals, destty)
    if r is not None:
        return r
    return m_misc(I, st, callee, vals, destty)

from search import try_search
