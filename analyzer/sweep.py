"""Runs a judge's worker over every part of the analysis and merges what it found."""
import sys
import core, facts as facts_mod
from core import FACTS, GROUPS, FULL, BASES, Run
from report import Report

NONE = ()
ALL = facts_mod.ALL


def _work(fn, config, fams, follow, extra):
    defer = fams is not None and fams != FULL and not follow
    run = Run(FACTS[tuple(config)], fams, BASES + ["none"], defer=defer, **extra)
    if defer and any(a == "?" for _, a, _ in run.outcomes()):
        run = Run(FACTS[tuple(config)], fams, BASES + ["none"], defer=False, **extra)
    run.config = tuple(config)
    r = fn(run) or {}
    r["deferred"] = set(run.I.deferred)
    r["forgotten"] = set(run.I.forgotten)
    r["unmodelled"] = dict(run.I.unmodelled)
    r["bodies"] = {core.short(n) for n in run.I.bodies if run.f["bodies"].get(n, {}).get("local")}
    return r


def label(config, fams):
    c = "no features" if not config else "all features" if tuple(config) == ALL else "+".join(x.replace("reader-", "") for x in config)
    return c + ("" if fams is None else " / " + ",".join(fams))


def load(configs):
    """Facts of each configuration that is not there yet."""
    want = [tuple(c) for c in configs if tuple(c) not in FACTS]
    if want:
        core.load(want)


def sweep(rep, fn, parts, extra=None, follow=False):
    """parts: [(config, families or None)]. Returns [(config, families, result)]."""
    extra = extra or {}
    load(dict.fromkeys(c for c, _ in parts))
    rs = core.parallel([(_work, (fn, c, g, follow, extra)) for c, g in parts])
    out = [(c, g, r) for (c, g), r in zip(parts, rs)]
    # a fallback that was referred to must have been followed somewhere in the same configuration
    again = []
    for c in dict.fromkeys(c for c, _ in parts):
        done = set().union(*[r.get("forgotten", set()) for c2, _, r in out if c2 == c])
        for i, (c2, g, r) in enumerate(out):
            if c2 == c and r.get("deferred", set()) - done:
                again.append(i)
    if again and not follow:
        rs = core.parallel([(_work, (fn, out[i][0], out[i][1], True, extra)) for i in again])
        for i, r in zip(again, rs):
            out[i] = (out[i][0], out[i][1], r)
    for c, g, r in out:
        finish_part(rep, label(c, g), r)
    return out


def finish_part(rep, name, r):
    if "abort" in r:
        rep.bad(f"not analysable: {name}", f"{name}: the analysis could not follow the code: {r['abort']}")
        return
    if "anchor" in r:
        rep.bad(f"missing anchor: {name}", f"{name}: {r['anchor']}")
        return
    rep.add("analysis runs")
    rep.absorb(r)
    rep.put("functions analysed", r.get("bodies", ()))
    rep.put("library functions without a model", r.get("unmodelled", {}).keys())


def standard(rep, fn, extra=None, follow=False, singles=None):
    """The parts every path property is decided on: all features by family, no features; thorough: each feature alone."""
    parts = [(ALL, g) for g in GROUPS] + [(NONE, None)]
    thorough = rep.tier == "thorough" if singles is None else singles
    if thorough:
        parts += [((x,), None) for x in ALL]
    return sweep(rep, fn, parts, extra, follow)
