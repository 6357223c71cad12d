"""P25, P26: format values and the public interface."""
import json, os, re, shutil, subprocess, tempfile
import core, domain, facts as facts_mod
from core import FACTS
from domain import *
from interp import Interp
from state import State
import sweep as sw

# ---------------------------------------------------------------- P25

def method(f, ty, trait, name):
    """The local bodies of a trait's method for a type."""
    pat = re.compile(r"<(impl )?(.*::)?%s(::<.*>)? for (.*::)?%s>::%s$|<(.*::)?%s as (.*::)?%s(<.*>)?>::%s$" % (trait, ty, name, ty, trait, name))
    return [r for r in f["roots"] if pat.match(r)]


def flag(outs, I):
    if len(outs) != 1 or I.unmodelled or not isinstance(outs[0][1], VBool):
        return None
    g = outs[0][1].f
    return True if g is TRUE else False if g is FALSE else None


def p25_job(config, ty, lo, hi):
    f = FACTS[tuple(config)]
    names = next(e["variants"] for e in f["enums"] if e["path"].rsplit("::", 1)[-1] == ty)
    viol, n = [], 0
    for meth, same in (("eq", True), ("ne", False)):
        for r in method(f, ty, "PartialEq", meth):
            b = f["bodies"][r]
            if any(core_type(f, b["locals"][i]) != ty for i in (1, 2)):
                continue        # a comparison with another type
            for i in range(lo, min(hi, len(names))):
                for j in range(len(names)):
                    I = Interp(f)
                    try:
                        got = flag(I.run_body(r, [VCRef(VEnum(i, ())), VCRef(VEnum(j, ()))], State()), I)
                    except core.Abort:
                        got = None
                    n += 1
                    if got is not ((i == j) is same):
                        what = "is not known" if got is None else str(got).lower()
                        viol.append((f"{meth} of {ty}::{names[i]} and {names[j]}", f"{r}: comparing {names[i]} with {names[j]} ({meth}) gives {what}"))
                        break
                domain.reset()
    for r in method(f, ty, "Clone", "clone"):
        for i in range(lo, min(hi, len(names))):
            I = Interp(f)
            outs = I.run_body(r, [VCRef(VEnum(i, ()))], State())
            n += 1
            if len(outs) != 1 or I.unmodelled or outs[0][1] != VEnum(i, ()):
                viol.append((f"clone of {ty}::{names[i]}", f"{r}: the copy of {names[i]} is {str(outs[0][1])[:60] if outs else 'nothing'}"))
    return {"viol": viol, "count": {"obligations": n}, "sets": {ty: set(names[lo:hi])},
            "bodies": {r for t, m in (("PartialEq", "eq"), ("PartialEq", "ne"), ("Clone", "clone")) for r in method(f, ty, t, m)}}


def core_type(f, t):
    t = f["types"][t]
    while t["k"] == "ref":
        t = f["types"][t["e"]]
    return t.get("path", "").rsplit("::", 1)[-1]


def p25(rep):
    rep.level = "proof"
    rep.rule = ("abstract evaluation of PartialEq::eq (and ne) on every ordered pair of formats and of kinds, of Clone::clone on every format and kind, and of Default::default; "
                "an obligation is one evaluation")
    sw.load([sw.ALL])
    f = FACTS[sw.ALL]
    size = {e["path"].rsplit("::", 1)[-1]: len(e["variants"]) for e in f["enums"]}
    jobs = []
    for ty in ("FileFormat", "Kind"):
        if ty not in size:
            raise core.Anchor(f"no enumeration {ty}")
        for trait, m in (("PartialEq", "eq"), ("Clone", "clone")):
            if not method(f, ty, trait, m):
                raise core.Anchor(f"{ty} does not implement {trait}")
        jobs += [(p25_job, (sw.ALL, ty, i, i + 30)) for i in range(0, size[ty], 30)]
    for j, r in zip(jobs, core.parallel(jobs)):
        sw.finish_part(rep, f"{j[1][1]} from {j[1][2]}", r)
    d = method(f, "FileFormat", "Default", "default")
    if not d:
        raise core.Anchor("FileFormat does not implement Default")
    domain.reset()
    I = Interp(f)
    outs = I.run_body(d[0], [], State())
    names = core.variants(f)
    rep.add("obligations")
    got = {names[v.v] if isinstance(v, VEnum) and v.v < len(names) else "?" for _, v in outs}
    if got != {"ArbitraryBinaryData"} or I.unmodelled:
        rep.bad("default format", f"{d[0]} gives {', '.join(sorted(got))}")
    rep.floor("FileFormat", 447)
    rep.floor("Kind", 23)
    rep.floor("obligations", 200000)


# ---------------------------------------------------------------- P26

MANIFEST = """[package]
name = "witness"
version = "0.0.0"
edition = "2021"

[lib]
path = "accept.rs"

[[bin]]
name = "reject-format"
path = "reject-format.rs"

[[bin]]
name = "reject-kind"
path = "reject-kind.rs"

[dependencies]
file-format = { path = %s, default-features = false, features = [%s] }

[workspace]
"""
KINDS = ("Archive Audio Compressed Database Diagram Disk Document Ebook Executable Font Formula Geospatial Image Metadata Model Other Package Playlist Presentation Rom "
         "Spreadsheet Subtitle Video").split()


def published():
    pub = json.load(open(os.path.join(facts_mod.VERIF, "spec", "metadata.json")))
    return sorted(pub)


def witness(features, names):
    """Compiles the witness programs: {target: [(code, text)]}."""
    src = os.path.join(facts_mod.VERIF, "spec", "witness")
    tmp = tempfile.mkdtemp(prefix="ffwitness.")
    try:
        read = lambda n: open(os.path.join(src, n)).read()
        gen = "const FORMATS: &[FileFormat] = &[\n" + "".join(f"    FileFormat::{n},\n" for n in names["FileFormat"]) + "];\n"
        gen += "const KINDS: &[Kind] = &[\n" + "".join(f"    Kind::{n},\n" for n in names["Kind"]) + "];\n"
        texts = {"accept.rs": read("accept.rs").replace("/*GENERATED*/", gen)}
        for ty, n in (("FileFormat", "reject-format.rs"), ("Kind", "reject-kind.rs")):
            texts[n] = read(n).replace("/*VARIANTS*/", "".join(f"        {ty}::{v} => 1,\n" for v in names["all " + ty]))
        for n, t in texts.items():
            open(os.path.join(tmp, n), "w").write(t)
        open(os.path.join(tmp, "Cargo.toml"), "w").write(MANIFEST % (json.dumps(facts_mod.REPO), ", ".join(f'"{x}"' for x in features)))
        got = {}
        for target in (["--lib"], ["--bin", "reject-format"], ["--bin", "reject-kind"]):
            r = subprocess.run(["cargo", "check", "--offline", "--quiet", "--message-format=json", "--target-dir", os.path.join(tmp, "t")] + target,
                               capture_output=True, text=True, env=facts_mod._env(), cwd=tmp, timeout=600)
            errs, seen = [], False
            for l in r.stdout.splitlines():
                if not l.startswith("{"):
                    continue
                m = json.loads(l)
                if m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                    sp = [x for x in m["message"]["spans"] if x["is_primary"]]
                    at = f"{sp[0]['file_name']}:{sp[0]['line_start']}: {sp[0]['text'][0]['text'].strip()[:80] if sp[0]['text'] else ''}" if sp else ""
                    if m["message"].get("code") or sp:
                        errs.append((m["target"]["name"], (m["message"].get("code") or {}).get("code", ""), m["message"]["message"], at))
            got[target[-1]] = (r.returncode, errs, r.stderr[-400:])
        return got
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def p26_job(features, names):
    viol, n = [], 0
    got = witness(features, names)
    rc, errs, err = got["--lib"]
    n += 3
    for t, code, msg, at in errs:
        viol.append((f"interface {at.split(': ', 1)[-1]}", f"a program that uses the interface as promised does not compile: {code} {msg[:160]} ({t}, {at})"))
    if rc and not errs:
        viol.append(("interface", "a program that uses the interface as promised does not compile: " + err))
    if not rc:
        for b, ty in (("reject-format", "FileFormat"), ("reject-kind", "Kind")):
            rc2, errs2, err2 = got[b]
            if not rc2:
                viol.append((f"{ty} may grow", f"a program that matches {ty} without a fallback compiles: the enumeration is not open to new variants"))
            elif [e for e in errs2 if e[1] != "E0004"] or not errs2:
                viol.append((f"{ty} witness", f"the program that matches {ty} without a fallback fails for another reason: {(errs2 or [err2])[0]}"))
    return {"viol": viol, "count": {"obligations": n}}


def p26(rep):
    rep.level = "proof"
    rep.rule = ("compile-pass and compile-fail witnesses: a program that uses every published format and kind and every entry point and accessor in each promised way must be accepted by the "
                "compiler, and programs that match an enumeration without a fallback must be rejected with E0004; an obligation is one witness in one feature set")
    sw.load([sw.ALL])
    f = FACTS[sw.ALL]
    enums = {e["path"].rsplit("::", 1)[-1]: e["variants"] for e in f["enums"]}
    names = {"FileFormat": published(), "Kind": KINDS, "all FileFormat": enums["FileFormat"], "all Kind": enums["Kind"]}
    fs = [(), ("reader",)]
    if rep.tier == "thorough":
        fs += [("reader-" + r,) for r in facts_mod.READERS]
    for c, r in zip(fs, core.parallel([(p26_job, (c, names)) for c in fs])):
        sw.finish_part(rep, ",".join(c) or "no features", r)
    rep.put("formats named", names["FileFormat"])
    rep.put("kinds named", KINDS)
    rep.floor("obligations", 6)
    rep.floor("formats named", 447)
