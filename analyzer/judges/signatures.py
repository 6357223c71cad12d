"""P12, P13, P14: the signature decision of the code against the published magic numbers."""
import json, os
import core, sweep as sw
from core import short
from domain import *
from state import pc_list
from siglib import *

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))), "spec", "signatures.json")


def published():
    """[(format, cube)] in priority order."""
    out = []
    for f, vals in json.load(open(SPEC)):
        for runs in vals:
            out.append((f, {o + i: x for o, h in runs for i, x in enumerate(bytes.fromhex(h))}))
    return out


def cube_text(c):
    runs = []
    for p in sorted(c):
        if runs and runs[-1][0] + len(runs[-1][1]) == p:
            runs[-1][1].append(c[p])
        else:
            runs.append((p, [c[p]]))
    return " & ".join(f"{bytes(b)!r} at {o}"[1:] for o, b in runs)


def conditions(run):
    """{answer or family: [conjuncts]}: without refinement the answers themselves, else the format handed to refinement."""
    out = {}
    if run.config == ():
        for fam, ans, st in run.outcomes():
            if ans == "Err":
                continue
            name = "none" if fam == "none" or ans.startswith("~") or fam is None and ans != "Empty" else ans
            out.setdefault(name, []).append(pc_list(st.pc))
            if fam not in (None, "none") and ans != fam:
                out.setdefault("answer " + ans, []).append(pc_list(st.pc))
    else:
        for ix, pcs in run.I.famlog.items():
            out["none" if ix == -1 else run.names[ix]] = [pc_list(pc) for pc in pcs]
        for fam, ans, st in run.outcomes():
            if fam is None and ans == "Empty":
                out.setdefault("Empty", []).append(pc_list(st.pc))
    return out


def end_of(c):
    return max(c) + 1


class Sheet:
    """Contents to evaluate, without repetition."""

    def __init__(self):
        self.ix, self.cs = {}, []

    def add(self, c, L=LONG):
        c = {p: x for p, x in c.items() if p < L}
        k = (frozenset(c.items()), L)
        i = self.ix.get(k)
        if i is None:
            i = self.ix[k] = len(self.cs)
            self.cs.append((c, L))
        return i


def first_match(spec, sheet, ev):
    """{format: bits of the contents it is the published answer for}, and the rest as "none"."""
    left = ev.all & ev.longer(1)
    out = {}
    for f, c in spec:
        r = left & ev.longer(end_of(c))
        for p, x in c.items():
            if not r:
                break
            r &= ev.byte(p, x)
        if r:
            out[f] = out.get(f, 0) | r
            left &= ~r
    out["none"] = left
    out["Empty"] = ev.all & ~ev.longer(1)
    return out


def first_bit(m):
    return (m & -m).bit_length() - 1


def holders(bits, i):
    return sorted(f for f, m in bits.items() if m >> i & 1)


def describe(sheet, i):
    c, L = sheet.cs[i]
    return f"content with {cube_text(c) or 'no signature byte'}" + ("" if L == LONG else f", {L} bytes long")


def thresholds(parts):
    out = set()
    for pcs in parts.values():
        for pc in pcs:
            for f in pc:
                for a in atoms_of(f):
                    if a.a[0] in ("ge", "eq"):
                        l = a.a[1]
                        if len(l.t) == 1 and l.t[0][0].kind == "len" and abs(l.t[0][1]) == 1:
                            k = abs(l.c)
                            out |= {k - 1, k, k + 1}
    return {k for k in out if 0 <= k < LONG}


def shape_ok(parts):
    """Conditions other than byte comparisons and length bounds cannot be decided."""
    bad = set()
    for name, pcs in parts.items():
        for pc in pcs:
            for f in pc:
                for a in atoms_of(f):
                    x = a.a
                    if x[0] == "bytes" and x[2].is_const():
                        continue
                    if x[0] in ("ge", "eq") and all(s.kind == "len" or s.kind == "int" and isinstance(s.key[1], Lin) and s.key[1].is_const() for s in x[1].syms()):
                        continue
                    bad.add((name, atom_name(x)[:160]))
    return bad


def p12_worker(run):
    spec = published()
    parts = conditions(run)
    viol, counts = [], {}
    for name, a in sorted(shape_ok(parts))[:20]:
        viol.append((f"condition {name} {a}", f"{name}: whether it is reported depends on more than bytes at fixed offsets: {a}"))
    if viol:
        return {"viol": viol}
    code = code_cubes({f: p for f, p in parts.items() if not f.startswith("answer ")})
    sheet = Sheet()
    cubes = [(f, c) for f, c in spec]
    have = {frozenset(c.items()) for _, c in spec}
    for f, cs in code.items():
        for c in cs:
            if c and frozenset(c.items()) not in have:
                cubes.append((f, c))
    used = used_bytes(parts, [c for _, c in cubes])
    fillers = filler_of(used)
    # lengths
    for L in sorted(thresholds(parts) | {0, 1, 2, LONG}):
        sheet.add({}, L)
    marks = {}
    for f, c in cubes:
        e = end_of(c)
        for L in (LONG, e, e - 1, e + 1):
            sheet.add(c, L)
        # one byte different
        for p, x in c.items():
            for y in {fillers(p), x ^ 0x20, x ^ 1, x ^ 0x80, (x + 1) & 255, (x - 1) & 255, 0, 255} - {x}:
                d = dict(c)
                d[p] = y
                sheet.add(d)
        # moved
        for k in (-8, -4, -2, -1, 1, 2, 4, 8):
            if min(c) + k >= 0:
                sheet.add({p + k: x for p, x in c.items()})
    # two signatures in one content
    by = {}
    n = 0
    for i, (f, c) in enumerate(cubes):
        for g, d in cubes[:i]:
            if f != g and all(d.get(p, x) == x for p, x in c.items()):
                n += 1
                u = dict(c)
                u.update(d)
                sheet.add(u)
    ev = Eval(sheet.cs, fillers)
    want = first_match(spec, sheet, ev)
    got = {}
    for f, pcs in parts.items():
        got[f] = ev.parts(pcs)
    for f in [f for f in got if f.startswith("answer ")]:
        if got[f]:
            i = first_bit(got[f])
            viol.append((f"{f}", f"{describe(sheet, i)}: the answer is {f[7:]}, not the format of the signature"))
        del got[f]
    for f in sorted(set(want) | set(got)):
        w, g = want.get(f, 0), got.get(f, 0)
        if w == g:
            continue
        for m, lost in ((w & ~g, True), (g & ~w, False)):
            if m:
                i = first_bit(m)
                o = holders(got, i) if lost else holders(want, i)
                text = f"{describe(sheet, i)}: published answer {f}, the code answers {' and '.join(o) or 'nothing'}" if lost else \
                       f"{describe(sheet, i)}: published answer {' and '.join(o) or 'nothing'}, the code answers {f}"
                viol.append((f"{f} {'lost' if lost else 'gained'}", f"signature decision, {f}: {text} ({bin(m).count('1')} contents of this kind)"))
    # every content has one answer
    seen = twice = 0
    for m in got.values():
        twice |= seen & m
        seen |= m
    for m, t in ((twice, "two answers"), (ev.all & ~seen, "no answer")):
        if m:
            i = first_bit(m)
            viol.append((t, f"signature decision: {describe(sheet, i)} has {t} ({', '.join(holders(got, i))})"))
    return {"viol": viol, "count": {"contents compared": len(sheet.cs), "two-signature contents": n, "alternatives found in the code": sum(map(len, code.values())),
                                    "obligations": len(sheet.cs)},
            "sets": {"formats with a signature": set(code), "published values": {f"{f}: {cube_text(c)}" for f, c in spec}}}


def small(rep, worker, extra=None):
    """No features, and all features up to the hand-over to refinement."""
    return sw.sweep(rep, worker, [(sw.NONE, None), (sw.ALL, core.FULL)], extra) if rep.tier != "thorough" else \
        sw.sweep(rep, worker, [(sw.NONE, None), (sw.ALL, core.FULL)] + [((x,), core.FULL) for x in sw.ALL], extra)


def p12(rep):
    rep.level = "proof"
    rep.rule = ("the condition under which the code decides on each format is extracted as a formula over content bytes and the content length; it may only "
                "mention bytes at fixed offsets, and must agree with the published values in priority order on every published value and every alternative found in "
                "the code: complete, one byte short, one byte longer, with any single byte changed, moved, and combined with every other compatible signature; "
                "exactly one answer must apply. An obligation is one such abstract content")
    rep.assumptions.append("spec/signatures.json is the list of published values: taken from the pinned source after review, in its priority order")
    small(rep, p12_worker)
    rep.floor("formats with a signature", 343)
    rep.floor("contents compared", 50000)


# ---------------------------------------------------------------- P13

def p13_worker(run):
    spec = published()
    parts = conditions(run)
    viol = []
    code = code_cubes({f: p for f, p in parts.items() if not f.startswith("answer ")})
    cubes, have = [], set()
    for f, c in spec + [(f, c) for f, cs in code.items() for c in cs if c]:
        k = (f, frozenset(c.items()))
        if k not in have:
            have.add(k)
            cubes.append((f, c, k[1]))
    fillers = filler_of(used_bytes(parts, [c for _, c, _ in cubes]))
    sheet, pairs = Sheet(), []
    inc = {}
    for f, c, k in cubes:
        inside = [(g, d) for g, d, k2 in cubes if g != f and k2 < k]
        if inside:
            pairs.append((f, c, inside, sheet.add(c)))
    ev = Eval(sheet.cs, fillers)
    got = {f: ev.parts(p) for f, p in parts.items() if not f.startswith("answer ")}
    n = 0
    for f, c, inside, i in pairs:
        n += len(inside)
        h = holders(got, i)
        for g, d in inside:
            if g in h:
                viol.append((f"{f} behind {g}", f"signature decision: content with {f}'s {cube_text(c)} is reported as {g}, whose {cube_text(d)} requires less"))
        if f not in h and not any(g in h for g, _ in inside):
            # some third format wins: only a shadow if its own requirement is met by this one
            for g in h:
                if g != "none":
                    viol.append((f"{f} behind {g}", f"signature decision: content with {f}'s {cube_text(c)} is reported as {g}"))
    # equal requirements of different formats
    seen = {}
    for f, c, k in cubes:
        g = seen.setdefault(k, f)
        if g != f:
            viol.append((f"{f} same as {g}", f"signature decision: {f} and {g} require the same: {cube_text(c)}"))
    return {"viol": viol, "count": {"obligations": n, "signatures": len(cubes)}}


def p13(rep):
    rep.level = "proof"
    rep.rule = ("over all signatures found in the code or published: whenever the bytes one requires include those another format's requires, the extracted decision "
                "on content carrying the larger set must not be the format of the smaller one. An obligation is one such pair")
    small(rep, p13_worker)
    rep.floor("signatures", 1400)
    rep.floor("obligations", 20)


# ---------------------------------------------------------------- P14

def p14_bounded(run):
    parts = conditions(run)
    cubes = {(f, frozenset(c.items())) for f, c in published()} | set(run.extra_cubes)
    fillers = filler_of(used_bytes(parts, [dict(k) for _, k in cubes]))
    sheet, viol = Sheet(), []
    tests = []
    for f, k in sorted(cubes, key=lambda x: (x[0], sorted(x[1]))):
        c = dict(k)
        for L in (end_of(c), end_of(c) + 1, LONG):
            tests.append((f, c, sheet.add(c, L)))
    ev = Eval(sheet.cs, fillers)
    got = {f: ev.parts(p) for f, p in parts.items() if not f.startswith("answer ")}
    far = 0
    for f, c, i in tests:
        h = holders(got, i)
        far = max(far, end_of(c))
        if not h or "none" in h:
            viol.append((f"{f} at {end_of(c)}", f"signature decision: {describe(sheet, i)} holds {f}'s signature, which ends at byte {end_of(c)}, but is not recognised"))
    return {"viol": viol, "count": {"obligations": len(tests)}, "sets": {"furthest signature end": {str(far)}}}


def p14_pair(config, fams, extra):
    """The cubes of the decision on unlimited content, then the real decision on contents holding them."""
    free = core.Run(core.FACTS[tuple(config)], fams, core.BASES + ["none"], no_limit=True)
    free.config = tuple(config)
    cubes = {(f, frozenset(c.items())) for f, cs in code_cubes({f: p for f, p in conditions(free).items() if not f.startswith("answer ")}).items() for c in cs if c}
    run = core.Run(core.FACTS[tuple(config)], fams, core.BASES + ["none"])
    run.config, run.extra_cubes = tuple(config), cubes
    r = p14_bounded(run)
    r["bodies"] = {core.short(n) for n in run.I.bodies if run.f["bodies"].get(n, {}).get("local")}
    return r


def p14(rep):
    rep.level = "proof"
    rep.rule = ("the decision is extracted twice: with the limit on the examined prefix lifted, giving every signature the code knows, and as it is; every such signature and "
                "every published one must decide content that is just long enough for it, one byte longer, and very long. An obligation is one signature at one length")
    parts = [(sw.NONE, None), (sw.ALL, core.FULL)]
    if rep.tier == "thorough":
        parts += [((x,), core.FULL) for x in sw.ALL]
    sw.load([c for c, _ in parts])
    for (c, g), r in zip(parts, core.parallel([(p14_pair, (c, g, None)) for c, g in parts])):
        sw.finish_part(rep, sw.label(c, g), r)
    rep.floor("obligations", 4300)
