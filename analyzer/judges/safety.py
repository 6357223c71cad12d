"""P01, P02, P03: panics, work and memory."""
import core, domain
from core import short, root
from domain import *
from interp import Interp, Abort
from state import State, Stream
import sweep as sw

# standard-library calls that panic on some arguments and are not modelled by the interpreter
PANICKING = ("::unwrap", "::expect", "::copy_from_slice", "::split_at", "::swap", "::remove", "::insert", "::drain", "::split_off",
             "::index", "::index_mut", "panic", "::swap_remove", "::chunks", "::windows", "::step_by", "::rotate_left", "::rotate_right",
             "::clone_from_slice", "::copy_within", "unreachable", "assert_failed", "::borrow_mut", "::unwrap_err", "::expect_err",
             "::chunks_exact", "::split_at_mut", "::from_digit", "::pow", "::abs", "::div_ceil", "::next_power_of_two", "::ilog2", "::ilog10", "::ilog")


def site(e):
    d = e.get("detail")
    return f"{e['kind']} in {short(e['body'])}"


def line(e):
    sp = e.get("span")
    return f"{sp[0]}:{sp[1]}" if isinstance(sp, (list, tuple)) and len(sp) > 1 else ""


def obligations(events, viol, count, sites):
    for e in events:
        if e["k"] == "oblig":
            count["obligations"] = count.get("obligations", 0) + 1
            sites.add((e["kind"], short(e["body"]), e.get("block"), line(e)))
            if not e["proven"]:
                viol.append((site(e), f"{line(e)}: {e['kind']} not excluded in {short(e['body'])} ({str(e.get('detail'))[:160]}); path: {' > '.join(short(x) for x in e.get('stack', ()))}"))
        elif e["k"] == "unmodelled":
            p = e.get("path") or ""
            if p.startswith("core::panicking") or "panic" in p.rsplit("::", 1)[-1] or any(p.endswith(x) for x in PANICKING):
                viol.append((f"call of {p} in {short(e['fn'])}", f"{short(e['fn'])} calls {p}, which panics for some arguments and whose arguments are not bounded here"))


def p01_worker(run):
    viol, count, sites = [], {}, set()
    obligations(run.I.events, viol, count, sites)
    for n, p, r in run.I.searches:
        if r[0] == "bad":
            obligations(r[2], viol, count, sites)
    return {"viol": viol, "count": count, "sets": {"checked sites": sites}}


def p01_roots(config):
    """Every other public function, with the common decision as a black box."""
    f = core.FACTS[tuple(config)]
    fr = root(f, "from_reader")
    viol, count, sites, n = [], {}, set(), set()
    for r in f["roots"]:
        b = f["bodies"].get(r)
        if b is None or r.split("::<")[0] == fr.split("::<")[0] and "from_reader" in r:
            continue
        domain.reset()
        I = Interp(f)

        def cut(I, st, name, vals, callee):
            if name.split("::<")[0] == fr.split("::<")[0] and "::{closure" not in name:
                return [(st, I.top(f["bodies"][name]["locals"][0], ("cut", "from_reader")))]
        I.hooks["enter"] = cut
        st = State()
        I.run_body(r, [I.top(b["locals"][i + 1], ("arg", i)) for i in range(b["args"])], st)
        obligations(I.events, viol, count, sites)
        n.add(r)
    return {"viol": viol, "count": count, "sets": {"checked sites": sites, "public functions": n}, "bodies": set()}


def _sccs(g):
    ix, low, st, on, out, n = {}, {}, [], set(), [], [0]
    for r in g:
        if r in ix:
            continue
        work = [(r, iter(g[r]))]
        ix[r] = low[r] = n[0]; n[0] += 1
        st.append(r); on.add(r)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in ix:
                    ix[w] = low[w] = n[0]; n[0] += 1
                    st.append(w); on.add(w)
                    work.append((w, iter(g[w])))
                    break
                elif w in on:
                    low[v] = min(low[v], ix[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == ix[v]:
                    c = []
                    while True:
                        w = st.pop(); on.discard(w); c.append(w)
                        if w == v:
                            break
                    out.append(c)
    return out


def p01(rep):
    rep.level = "proof"
    rep.rule = ("abstract interpretation of the MIR of every function reachable from the public API (stream bytes, lengths and positions "
                "symbolic; loops by invariants): every arithmetic-overflow, shift, division, index, slice, unwrap and explicit-panic site must be excluded on every path; "
                "an obligation is one evaluation of one such site on one path class")
    rep.assumptions += ["readers obey the Read/Seek contracts and streams are at most i64::MAX bytes long", "usize is 64 bits wide"]
    sw.standard(rep, p01_worker)
    for c in (sw.ALL, sw.NONE):
        for r in core.parallel([(p01_roots, (c,))]):
            sw.finish_part(rep, "other public functions / " + sw.label(c, None), r)
    rep.floor("checked sites", 60)
    rep.floor("public functions", 12)


# ---------------------------------------------------------------- P02

ITER_LIMIT = 1 << 27
READ_LIMIT = 8 << 20


def width_driven(n):
    """A bound that is only the range of a 2, 3, 4 or 8 byte field."""
    return any(-64 <= n - 256 ** k <= 64 for k in (2, 3, 4, 8)) or any(abs(n - 2 ** k) <= 64 for k in (31, 63))


def p02_worker(run):
    viol, count, sets = [], {}, {"loops": set(), "read sites": set()}
    for e in run.events("loop"):
        if e["phase"] != "fix":
            continue
        backs = [x for x in e["backs"] if "intr" not in x[1].tags]
        name = f"loop in {short(e['body'])}"
        sets["loops"].add(f"{short(e['body'])} block {e['head']}")
        count["loop fixpoints"] = count.get("loop fixpoints", 0) + 1
        if not backs:
            continue
        b = e["bound"]
        if not b:
            viol.append((name, f"{short(e['body'])}: a loop over the content has no bound that is fixed at compile time (no quantity moves strictly towards a constant on every iteration)"))
        elif b[0] > ITER_LIMIT or width_driven(b[0]):
            viol.append((name, f"{short(e['body'])}: the only bound on a loop is {b[0]} iterations, the range of a field of the content"))
        else:
            count["largest iteration bound"] = max(count.get("largest iteration bound", 0), b[0])
    for e in run.events("read"):
        where = short(e["fn"])
        sets["read sites"].add(f"{where}: {e['how']}")
        if e["how"] in ("to_end", "until"):
            if e.get("cap") is None:
                viol.append((f"unlimited {e['how']} in {where}", f"{where} reads without a limit fixed at compile time"))
            elif e["cap"] > READ_LIMIT:
                viol.append((f"unlimited {e['how']} in {where}", f"{where} may read {e['cap']} bytes at once"))
        elif e.get("n") is not None:
            hi = e.get("hi")
            hi = hi if hi is not None else domain.irange(e["n"], {})[1]
            if hi > READ_LIMIT:
                viol.append((f"unlimited {e['how']} in {where}", f"{where} may request {hi} bytes at once, a size taken from the content; path: {' > '.join(short(x) for x in e.get('stack', ()))}"))
    for n, p, r in run.I.searches:
        if r[0] == "bad" and any("does not move on" in w or "not determined" in w or "not a known" in w or "could not" in w for w in r[1]):
            viol.append((f"search loop {short(n)}", f"{n}: progress of the search for {p[:20]!r} is not shown: {r[1][0]}"))
        else:
            sets["loops"].add(f"{short(n)} (pattern search)")
    return {"viol": viol, "count": {k: v for k, v in count.items() if k != "largest iteration bound"}, "max": count.get("largest iteration bound", 0), "sets": sets}


def p02(rep):
    rep.level = "proof"
    rep.rule = ("every loop reachable from detection that is not unrolled completely has an integer that moves strictly towards a constant on each iteration "
                "(retries after Interrupted excepted); every read requests at most a constant number of bytes; the call graph has no cycle")
    rep.assumptions.append("the size of one read is bounded by the buffer handed to it; Interrupted is reported finitely often")
    out = sw.standard(rep, p02_worker)
    rep.add("obligations", rep.count.get("loop fixpoints", 0) + len(rep.sets.get("read sites", ())))
    rep.notes.append(f"largest bound on the iterations of a loop: {max([r.get('max', 0) for _, _, r in out] or [0])}")
    for c in (sw.ALL, sw.NONE):
        f = core.FACTS[c]
        for cyc in _cycles(f):
            rep.bad(f"recursion {cyc[0]}", f"recursive functions: {', '.join(cyc)[:300]}")
        rep.add("obligations", 1)
    rep.floor("loops", 8)
    rep.floor("read sites", 8)


def _cycles(f):
    g = {n: set() for n, b in f["bodies"].items()}
    for n in g:
        for blk in f["bodies"][n]["blocks"]:
            t = blk["t"] if blk else None
            if t and t[0] == "call" and t[1].get("body") in g:
                g[n].add(t[1]["body"])
    local = {n for n in g if f["bodies"][n]["local"]}
    return [sorted(c) for c in _sccs(g) if (len(c) > 1 or c[0] in g[c[0]]) and any(x in local for x in c)]


# ---------------------------------------------------------------- P03

ALLOC_LIMIT = 8 << 20
# library functions that allocate and are not modelled: any use is reported
ALLOCATING = ("::with_capacity", "::reserve", "::reserve_exact", "::resize", "::resize_with", "::extend", "::repeat", "::read_to_string", "::collect",
              "::extend_from_slice", "::push_str", "::to_vec", "::to_owned", "::from_elem", "::concat", "::join", "::append", "::read_to_end", "::try_reserve")


def p03_worker(run):
    viol, sets = [], {"allocation sites": set()}
    big, n = 0, 0
    for e in run.events("alloc"):
        n += 1
        where = short(e["fn"])
        sets["allocation sites"].add(f"{where}: {e['what']}")
        hi = e.get("hi")
        if not e.get("limited") or hi is None:
            viol.append((f"unlimited {e['what']} in {where}", f"{where}: {e['what']} grows without a limit fixed at compile time; path: {' > '.join(short(x) for x in e.get('stack', ()))}"))
        elif hi > ALLOC_LIMIT:
            viol.append((f"large {e['what']} in {where}", f"{where}: {e['what']} may allocate {hi} bytes (size {str(e.get('size'))[:120]}); path: {' > '.join(short(x) for x in e.get('stack', ()))}"))
        else:
            big = max(big, hi)
    for p in run.I.unmodelled:
        if any(p.endswith(x) for x in ALLOCATING):
            viol.append((f"unmodelled {p}", f"an allocation of unknown size: {p}"))
    for e in run.events("loop"):
        if e["phase"] != "fix":
            continue
        # a buffer that is longer after an iteration than before must be bounded
        for k, b, k2, h in e["backs"]:
            for lp, kind in e["changed"].items():
                if kind == "int":
                    continue
                from loops import leaf
                y = leaf(b, lp)
                if isinstance(y, VSeq):
                    hi = b.rng(seq_len(y))[1]
                    if hi > ALLOC_LIMIT and not b.prove_ge0(Lin(ALLOC_LIMIT) - seq_len(y)) and not (isinstance(leaf(h, lp), VSeq) and b.prove_ge0(seq_len(leaf(h, lp)) - seq_len(y))):
                        viol.append((f"buffer grows in loop of {short(e['body'])}", f"{short(e['body'])}: a buffer that grows in a loop is not bounded by a constant"))
    return {"viol": viol, "max": big, "count": {"obligations": n}, "sets": sets}


def p03(rep):
    rep.level = "proof"
    rep.rule = f"the size of every allocation, buffer growth and capacity on every path class is bounded by a constant (at most {ALLOC_LIMIT} bytes), whatever the fields of the content hold"
    out = sw.standard(rep, p03_worker)
    rep.notes.append(f"largest single allocation: {max([r.get('max', 0) for _, _, r in out] or [0])} bytes")
    rep.floor("allocation sites", 8)
