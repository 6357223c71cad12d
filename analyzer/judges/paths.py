"""P04-P08, P11, P24: what paths through detection may depend on and answer."""
import core
from core import short
from domain import *
from state import pc_list
import sweep as sw

GENERIC = ("ArbitraryBinaryData", "PlainText")


def line(e):
    sp = e.get("span")
    return f"{sp[0]}:{sp[1]}" if isinstance(sp, (list, tuple)) and len(sp) > 1 else ""


def chunk_syms(run, obj):
    return [s for s in syms_of_obj(obj, set()) if s.kind == "chunk" or s in run.I.tainted]


def p04_worker(run):
    viol, n, conds = [], 0, 0
    for fam, ans, st in run.outcomes():
        n += 1
        f = fam or "initial read"
        if "intr" in st.tags:
            viol.append((f"interrupted {f} {ans}", f"{f}: an Interrupted read is not retried and leads to the answer {ans}"))
        if "chunk" in st.tags:
            viol.append((f"short read {f} {ans}", f"{f}: whether the fallback is taken depends on how much one read call returned"))
        for c in pc_list(st.pc):
            for a in atoms_of(c):
                conds += 1
                s = chunk_syms(run, a.a)
                if s:
                    viol.append((f"short read {f} {ans}", f"{f}: the answer {ans} depends on how much one read call returned: {str(a)[:200]}"))
                    break
    reads = {f"{short(e['fn'])}: {e['how']}" for e in run.events("read")}
    return {"viol": viol, "count": {"outcome paths": n, "obligations": conds}, "sets": {"read sites": reads}}


def p04(rep):
    rep.level = "proof"
    rep.rule = ("every read call may return any non-zero part of what was asked for, or be interrupted; no condition on any path to an answer "
                "may mention how much a single call returned, nor any position or value derived from it; an interruption may not decide anything. "
                "An obligation is one atomic condition of one path")
    rep.assumptions.append("readers obey the Read contract: Ok(0) only at the end of the content")
    sw.standard(rep, p04_worker)
    rep.floor("outcome paths", 600)
    rep.floor("read sites", 8)


def p05_worker(run):
    viol, seeks, reads = [], set(), set()
    for e in run.events("relpos"):
        where = short(e["fn"])
        viol.append((f"{e['how']} in {where}", f"{where}: {e['how']} at a stream position left behind by an earlier stage ({e['why']}); path: {' > '.join(short(x) for x in e.get('stack', ()))}"))
    for e in run.events("seek"):
        seeks.add(short(e["fn"]))
    n = len(run.events("read")) + len(run.events("seek"))
    reads = {f"{short(e['fn'])}: {e['how']}" for e in run.events("read")}
    return {"viol": viol, "count": {"obligations": n}, "sets": {"functions that seek": seeks, "read sites": reads}}


def p05(rep):
    rep.level = "proof"
    rep.rule = ("once a signature was decided the stream position is taken to be unknown, likewise after any failed operation and after dropping a read-ahead buffer; "
                "no read or relative seek may happen before the position is set absolutely. An obligation is one read or seek on one path class")
    sw.standard(rep, p05_worker, extra={"lose_pos": True})
    rep.floor("functions that seek", 9)


def p06_worker(run):
    viol, n, errs = [], 0, set()
    for fam, ans, st in run.outcomes():
        n += 1
        failed = "io" in st.tags or "eof" in st.tags
        if failed and fam is not None and ans not in ("Err", "?") and ans not in GENERIC and not ans.startswith("~"):
            how = "an operation on the reader failed" if "io" in st.tags else "the content ended inside an item"
            viol.append((f"answer {ans} after a failure in {fam}", f"{fam}: the answer is {ans} instead of the generic one although {how}"))
        if ans == "Err":
            errs.add(f"{fam or 'initial read'}")
            if fam is not None:
                viol.append((f"error {fam}", f"a failure after the content was recognised as {fam} is returned as an error"))
            elif "io" not in st.tags:
                viol.append(("error without failure", "an error is returned although no operation on the reader failed"))
            elif "lateio" in st.tags:
                viol.append(("error of a later operation", "the failure of an operation after the initial read is returned as an error"))
        elif ans == "?":
            viol.append((f"answer {fam}", f"{fam}: an answer of unknown value"))
        elif fam is None and "io" in st.tags:
            viol.append((f"answer {ans} on a failed initial read", f"a failed initial read is answered with {ans} instead of an error"))
    steps = 0
    for e in run.events("loop"):
        for k, b in (x[:2] for x in e["backs"]):
            steps += 1
            fam, h = run.fam(b), e["heads"].get(k)
            if fam is not None and any(t in b.tags and (h is None or t not in h.tags) for t in ("io", "eof")):
                viol.append((f"loop in {short(e['body'])} goes on", f"{fam}: the loop at block {e['head']} of {short(e['body'])} goes on after "
                             f"{'an operation on the reader failed' if 'io' in b.tags else 'the content ended inside an item'}"))
    return {"viol": viol, "count": {"obligations": n + steps, "loop iterations": steps}, "sets": {"stages that return errors": errs}}


def p06(rep):
    rep.level = "proof"
    rep.rule = ("every operation on the reader may fail on every path; an error may be returned only on paths on which the initial read failed and no format was decided yet; "
                "after a failure (or the end of the content inside an item) once a format was decided, the answer is the generic one, and no loop goes on. "
                "An obligation is one path class")
    sw.standard(rep, p06_worker)
    rep.floor("loop iterations", 20)
    rep.floor("obligations", 600)


def p07_worker(run):
    viol, n = [], 0
    size = lin(stream_len("F"))
    empties = 0
    for fam, ans, st in run.outcomes():
        if ans == "Err":
            continue
        n += 1
        if ans == "Empty":
            empties += 1
            if not st.prove_ge0(ZERO - size):
                viol.append((f"Empty {fam}", f"{fam or 'initial read'}: the answer is Empty although the content need not have length zero"))
        elif not st.prove_ge0(size - 1):
            viol.append((f"{ans} for nothing", f"{fam}: the answer {ans} is possible for content of length zero"))
    return {"viol": viol, "count": {"obligations": n, "paths that answer Empty": empties}}


def p07(rep):
    rep.level = "proof"
    rep.rule = "each path to Empty implies a length of zero, each path to another answer implies a length of at least one"
    sw.standard(rep, p07_worker)
    rep.floor("paths that answer Empty", 1)
    rep.floor("obligations", 600)


def p08_worker(run):
    viol, n, got = [], 0, set()
    txt = "reader-txt" in run.config
    for fam, ans, st in run.outcomes():
        n += 1
        if fam is None:
            if ans not in ("Err", "Empty"):
                viol.append((f"answer {ans} without a signature", f"{ans} is answered without consulting the signatures"))
        elif fam == "none":
            got.add(ans)
            if ans == "Err" or ans == "Empty":
                continue            # P06, P07
            if ans == "PlainText" and not txt:
                viol.append(("PlainText without the feature", "PlainText is answered although the text feature is off"))
            if ans not in GENERIC:
                viol.append((f"answer {ans} for unrecognised content", f"content that matches no signature is answered with {ans}"))
        elif fam in GENERIC:
            viol.append((f"signature {fam}", f"the signatures decide {fam}, the answer for unrecognised content"))
    return {"viol": viol, "count": {"obligations": n}, "sets": {"answers for unrecognised content": got}}


def p08(rep):
    rep.level = "proof"
    rep.rule = "the answers of all paths on which no signature matched are the default format or, with the text feature, plain text"
    sw.standard(rep, p08_worker, singles=True if rep.tier == "thorough" else None)
    rep.floor("answers for unrecognised content", 2)


def answers(run):
    got = {}
    for fam, ans, st in run.outcomes():
        got.setdefault(fam, set()).add(ans)
    return {"got": got, "names": set(run.names), "count": {"outcome paths": len(run.outs)}}


def p11(rep):
    rep.rule = ("union of the answers of all feasible paths (all features) compared with the public enumeration; paths whose conditions contradict each other "
                "(shadowed signatures, unreachable branches) are not counted")
    rep.level = "proof"
    out = sw.sweep(rep, answers, [(sw.ALL, g) for g in core.GROUPS])
    got, names = set(), set()
    for c, g, r in out:
        for fam, a in r.get("got", {}).items():
            got |= a
        names |= r.get("names", set())
    rep.put("answers", {a for a in got if a in names})
    rep.add("obligations", len(names))
    if all("got" in r for _, _, r in out):
        for n in sorted(names - got):
            rep.bad(f"unreachable {n}", f"no path of detection answers {n}")
        for a in sorted(a for a in got - names if a not in ("Err", "?") and not a.startswith("~")):
            rep.bad(f"unknown answer {a}", f"{a} is not a format of the enumeration")
    rep.floor("answers", 400)


def p24_worker(run):
    viol, ok, pats, n = [], set(), set(), 0
    for name, pat, r in run.I.searches:
        pats.add(bytes(pat))
        if r[0] == "ok":
            ok.add((short(name), bytes(pat)))
            n += r[3] if len(r) > 3 else 1
        elif r[0] == "bad":
            viol.append((f"search {short(name)} {bytes(pat)!r}", f"{name}: searching for {bytes(pat)[:40]!r}: {'; '.join(r[1])[:400]}"))
        else:
            pats.discard(bytes(pat))
    for fam, ans, st in run.outcomes():
        for c in pc_list(st.pc):
            for a in atoms_of(c):
                if a.a[0] == "has":
                    pats.add(bytes(a.a[4]) if isinstance(a.a[4], bytes) else str(a.a[4]).encode())
    return {"viol": viol, "count": {"obligations": n}, "sets": {"searched patterns": pats, "verified searches": ok}}


def p24(rep):
    rep.level = "proof"
    rep.rule = ("for each search function and each pattern it is called with: every reported hit was compared byte by byte at the reported index; on each iteration every alignment "
                "that is skipped is refuted by the bytes compared (for each of the 256 values of the byte that selects the step); a miss is reported only when no alignment is left; "
                "the search starts at the first (or last) alignment. Searches by standard-library functions are exact by their contract")
    parts = [(sw.ALL, [g]) for g in ("ExtensibleMarkupLanguage", "PortableDocumentFormat", "Sqlite3", "Zip", "CompoundFileBinary", "none")]
    used = {g[0] for _, g in parts}
    parts += [(sw.ALL, g) for g in core.GROUPS if g[0] not in used]
    sw.sweep(rep, p24_worker, parts)
    rep.floor("searched patterns", 35)
