"""P16-P21: what refinement reads from the content, where it looks for it and what it answers."""
import core
import sweep as sw
from core import short
import walk, cases
from partial import Env
from containers import Rm, Mp4, Asf, AsfDescriptors, Id3, Ebml, Zip
from coverage import Coverage

FEATURE = {"Realmedia": "rm", "Mpeg4Part14": "mp4", "AdvancedSystemsFormat": "asf", "Id3v2": "id3v2", "ExtensibleBinaryMetaLanguage": "ebml", "Zip": "zip",
           "CompoundFileBinary": "cfb", "MsDosExecutable": "exe", "ExtensibleMarkupLanguage": "xml", "Sqlite3": "sqlite3", "PortableDocumentFormat": "pdf", "none": "txt"}
WALKS = {"Realmedia": Rm, "Mpeg4Part14": Mp4, "AdvancedSystemsFormat": Asf, "Id3v2": Id3, "ExtensibleBinaryMetaLanguage": Ebml, "Zip": Zip}
HEAVY = ["ExtensibleBinaryMetaLanguage", "Zip", "AdvancedSystemsFormat", "none"]


def run_family(config, fam):
    others = core.BASES + ([] if fam == "none" else ["none"])
    for defer in (True, False):
        run = core.Run(core.FACTS[tuple(config)], [fam], others, defer=defer, walk=True)
        if not any(a == "?" for _, a, _ in run.outcomes()):
            break
    run.config = tuple(config)
    return run


def case_list(fam):
    both = lambda f: [(c, Env(c.length or r["len"]), r["name"]) for r in (walk.LONG, walk.SHORT) for c in f(r)]
    own = lambda l: [(c, Env(c.length or walk.LONG["len"]), "") for c in l]
    return {"CompoundFileBinary": lambda: both(cases.cfb_cases), "MsDosExecutable": lambda: both(cases.exe_cases), "ExtensibleMarkupLanguage": lambda: own(cases.xml_cases()),
            "Sqlite3": lambda: own(cases.sqlite_cases()), "none": lambda: own(cases.text_cases())}[fam]()


def worker(config, fam, kinds):
    """Problems of one family: walk kinds and case kinds in `kinds` count."""
    run = run_family(config, fam)
    viol, count, sets = [], {}, {}
    unknown = {f for f, a, st in run.outcomes() if a == "?"}
    if unknown:
        viol.append((f"{fam}: unknown answer", f"{fam}: the answer of some path cannot be determined"))
    if fam in WALKS:
        c = walk.Checker(run, WALKS[fam]())
        c.run_walk()
        checkers = [c]
        if fam == "AdvancedSystemsFormat":
            d = walk.Checker(run, AsfDescriptors(), c)
            d.run_walk()
            checkers.append(d)
        for c in checkers:
            for (kind, key), text in c.bad.items():
                if kind in kinds:
                    viol.append((f"{fam}: {kind} {key}", f"{c.spec.name}: {text}"))
            count["obligations"] = count.get("obligations", 0) + c.n
            count["transitions shown to reach the next item"] = count.get("transitions shown to reach the next item", 0) + c.proved
        sets["loops walked"] = {f"{fam}: {short(e['body'])}" for e in checkers[0].G.events}
    elif fam == "PortableDocumentFormat":
        c = Coverage(run, "from_pdf_reader", b"AIPrivateData", 5, 33554432, 32768, "AdobeIllustratorArtwork", "PortableDocumentFormat")
        c.check()
        for (kind, key), text in c.bad.items():
            viol.append((f"{fam}: {kind} {key}"[:200], text))
        count["obligations"] = c.n
        count["searched parts shown to join"] = c.proved
    else:
        D = cases.Decision(run, None)
        for c, env, rn in case_list(fam):
            if c.kind not in kinds:
                continue
            c.setup(env)
            got = D.answers(env, {fam})
            if c.want == set(cases.GENERIC):
                got = {walk.GENERIC_ANSWER if walk.generic(x) else x for x in got}
            count["obligations"] = count.get("obligations", 0) + 1
            if got != c.want:
                name = c.name + (f" ({rn})" if rn else "")
                viol.append((f"{fam}: {name}"[:200], f"{fam}: content with {name}: the code may answer {', '.join(sorted(got))[:160] or 'nothing'} instead of {', '.join(sorted(c.want))}"))
        count["paths"] = len(D.outs)
    return {"viol": viol, "count": count, "sets": sets, "unmodelled": dict(run.I.unmodelled),
            "bodies": {short(n) for n in run.I.bodies if run.f["bodies"].get(n, {}).get("local")}}


def decide(rep, fams, kinds):
    fams = sorted(fams, key=lambda f: HEAVY.index(f) if f in HEAVY else 9)
    parts = [(sw.ALL, f) for f in fams]
    if rep.tier == "thorough":
        parts += [(("reader-" + FEATURE[f],), f) for f in fams]
    sw.load(list(dict.fromkeys(c for c, _ in parts)))
    for (c, f), r in zip(parts, core.parallel([(worker, (c, f, kinds)) for c, f in parts])):
        sw.finish_part(rep, sw.label(c, [f]), r)
    rep.assumptions.append("contents are at most 2**62 bytes long; the loops' item counters and positions are those inferred by the loop analysis and proved inductive there")


METHOD = ("the loop that walks the items is found by its cursor; its transition relation, extracted from MIR, is evaluated on contents of which only the bytes that make "
          "one item are known, relative to a symbolic position (all other bytes, and all higher-level context, are arbitrary). ")


def p16(rep):
    rep.level = "proof"
    rep.rule = METHOD + ("Every set of track kinds that can be recorded is followed through the loop's states, and at every way out the answer must be the one the recorded set "
                         "requires. An obligation is one item, or one end, in one loop state")
    decide(rep, ["Realmedia", "Mpeg4Part14", "AdvancedSystemsFormat", "ExtensibleBinaryMetaLanguage"], {"precedence", "answer", "leave", "count"})
    rep.floor("obligations", 2500)


def p17(rep):
    rep.level = "proof"
    rep.rule = METHOD + ("Every transition that such an item allows must move the cursor to the start of the next item as the container format defines it, and no item may end the "
                         "walk unless it decides the answer. An obligation is one item, or one end, in one loop state")
    decide(rep, list(WALKS), {"first", "next", "leave", "count"})
    rep.floor("transitions shown to reach the next item", 15000)


def p18(rep):
    rep.level = "proof"
    rep.rule = ("for every published identifier, and for deviations from it in one byte, the decision extracted from MIR (loop transitions and exits, or path conditions) is evaluated on "
                "contents of which only the bytes of the identifier and of the structures that lead to it are known; the only answer left must be the published one. "
                "An obligation is one identifier or deviation in one context")
    decide(rep, list(WALKS) + ["CompoundFileBinary", "MsDosExecutable", "ExtensibleMarkupLanguage"], {"precedence", "answer", "leave", "identifier"})
    rep.floor("obligations", 7000)


def p19(rep):
    rep.level = "proof"
    rep.rule = ("each field is given a value of which part of the bytes is open, at the place, width and byte order of the specification; what the code derives from it (positions of further "
                "structures, kinds, answers), as extracted from MIR, must be what the specification derives. An obligation is one field value in one context")
    decide(rep, list(WALKS) + ["CompoundFileBinary", "MsDosExecutable"], {"first", "next", "answer", "precedence", "field"})
    rep.floor("obligations", 5000)


def p20(rep):
    rep.level = "proof"
    rep.rule = ("the verdict's path conditions, extracted from MIR, are evaluated on contents made of lines of unknown size of which only the validity and the set of characters are known, "
                "and on contents whose bytes around the size limit are known. An obligation is one such content")
    decide(rep, ["none"], {"text", "limit"})
    rep.floor("obligations", 350)


def p21(rep):
    rep.level = "proof"
    rep.rule = ("for single windows the path conditions, extracted from MIR, are evaluated on contents with a marker at a symbolic place of the window; for the search in chunks it is shown by "
                "induction over the loop that each place of the window is searched before a negative answer, and that positive answers only come from content of the window")
    decide(rep, ["PortableDocumentFormat", "ExtensibleMarkupLanguage", "Sqlite3"], {"marker"})
    rep.floor("obligations", 300)
