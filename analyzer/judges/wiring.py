"""P09, P10, P15, P22, P23: features, documentation, metadata, effects, entry points."""
import itertools, os, re, subprocess, tomllib
import core, domain, facts as facts_mod
from core import short, root, FACTS
from domain import *
from interp import Interp, Abort
from state import State, Stream, pc_list
import samecode
import sweep as sw
from cfg import succs

REPO = facts_mod.REPO

# ---------------------------------------------------------------- P09

def p09_worker(run):
    got, sig = {}, {}
    for fam, ans, st in run.outcomes():
        got.setdefault(fam, set()).add(ans)
    for ix, pcs in run.I.famlog.items():
        name = "none" if ix == -1 else run.names[ix]
        sig[name] = frozenset(hash_pc(pc) for pc in pcs)
    return {"got": got, "sig": sig, "count": {"outcome paths": len(run.outs)}}


def hash_pc(pc):
    import hashlib
    h = hashlib.sha256()
    for f in pc_list(pc):
        h.update(repr(f).encode())
        h.update(b"\n")
    return h.hexdigest()


def manifest_features(rep):
    t = tomllib.load(open(os.path.join(REPO, "Cargo.toml"), "rb"))
    fs = t.get("features", {})

    def closure(x):
        out, work = set(), [x]
        while work:
            y = work.pop()
            if y in out:
                continue
            out.add(y)
            work += fs.get(y, [])
        return out
    readers = sorted(x for x in fs if x.startswith("reader-"))
    if fs.get("default"):
        rep.bad("default features", f"the default feature set is not empty: {fs['default']}")
    if "reader" not in fs:
        rep.bad("umbrella feature", "there is no feature 'reader'")
    else:
        on = closure("reader") - {"reader"}
        if on != set(readers):
            rep.bad("umbrella feature", f"'reader' turns on {sorted(on ^ set(readers))} differently from the set of reader features")
    for r in readers:
        if closure(r) != {r}:
            rep.bad(f"feature {r}", f"'{r}' also turns on {sorted(closure(r) - {r})}")
    rep.put("reader features", readers)
    return readers


def compile_many(rep, configs):
    from concurrent.futures import ThreadPoolExecutor

    def one(c):
        # the checker itself, not the driver: enough to know that the configuration compiles
        return c, facts_mod._cargo(c, {}, toolchain="+nightly")
    with ThreadPoolExecutor(6) as ex:
        for c, (rc, err) in ex.map(one, configs):
            rep.add("configurations compiled")
            if rc != 0:
                rep.bad(f"does not compile: {','.join(c) or '(none)'}", f"with features {','.join(c) or '(none)'} the crate does not compile: {err[-400:]}")


def p09(rep):
    rep.level = "proof"
    rep.rule = ("the feature table is evaluated; the type checker accepts each configuration listed; in each single-feature configuration the conditions of every signature are those of the "
                "featureless configuration, only the feature's base format has other answers than itself, and those answers equal the ones with all features; a function whose "
                "compiled code depends on a feature without dispatching to what it adds must give the same answers under the same conditions with and without it")
    readers = tuple(manifest_features(rep))
    rep.floor("reader features", 12)
    configs = [()] + [(r,) for r in readers] + [readers] + [tuple(x for x in readers if x != r) for r in readers] + [("reader",)]
    if rep.tier == "thorough":
        configs += list(itertools.combinations(readers, 2)) + [tuple(x for x in readers if x not in p) for p in itertools.combinations(readers, 2)]
    compile_many(rep, configs)
    if any(k.startswith("does not compile") for k in rep.viol):
        return
    parts = [(readers, g) for g in core.GROUPS] + [(("reader-ebml",), None), (("reader-asf",), None)] + [((x,), None) for x in readers if x not in ("reader-ebml", "reader-asf")] + [((), None)]
    out = sw.sweep(rep, p09_worker, parts)
    by = {}
    for c, g, r in out:
        if "got" not in r:
            return
        for fam, a in r["got"].items():
            if g is None or g == ["*"] or (fam in g):
                by.setdefault(c, {}).setdefault(fam, set()).update(a)
        if g is None:
            by[c, "sig"] = r["sig"]
        else:
            # every worker of the partition sees all decisions
            by.setdefault((c, "sig"), {}).update({k: v for k, v in r["sig"].items()})
    base = by[(), "sig"]
    for c in dict.fromkeys(c for c, _ in parts):
        rep.add("obligations", len(base))
        sig = by[c, "sig"]
        for fam in sorted(set(base) | set(sig)):
            if base.get(fam) != sig.get(fam):
                rep.bad(f"signature {fam} with {sw.label(c, None)}", f"with {sw.label(c, None)} the conditions under which the signatures decide {fam} differ from those without features")
    rest = [()] + [(r,) for r in readers] + [tuple(x for x in readers if x != r) for r in readers]
    if rep.tier == "thorough":
        rest += list(itertools.combinations(readers, 2))
    same_code(rep, readers, out, rest)
    rep.floor("functions compared across feature sets", 400)
    gen = {"ArbitraryBinaryData"}
    for c in [()] + [(x,) for x in readers]:
        feat = c[0].replace("reader-", "") if c else None
        mine = core.FEATURE_BASE.get(feat, "none" if feat == "txt" else None)
        for fam, ans in by[c].items():
            if fam is None:
                continue
            rep.add("obligations")
            plain = gen if fam == "none" else {fam}
            if fam == mine:
                # same answers as with all features, up to what the generic answer is
                full = by[readers].get(fam, set())
                n1, n2 = generic(ans, fam), generic(full, fam)
                if n1 != n2:
                    rep.bad(f"answers of {fam} with {feat}", f"with only {feat} the answers for {fam} are {sorted(map(str, n1 ^ n2))[:8]} different from those with all features")
            elif ans != plain:
                rep.bad(f"answers of {fam} with {feat or 'no features'}", f"with {sw.label(c, None)} content recognised as {fam} may also be answered with {sorted(map(str, ans - plain))[:6]}" if ans - plain else f"{fam} is never answered")


def conditions_worker(config, fams):
    """The conditions of every answer for the families; an answer of the fallback is known by its name."""
    run = core.Run(FACTS[tuple(config)], list(fams), core.BASES + ["none"], defer=True)
    out = {}
    for fam, ans, st in run.outcomes():
        if fam in fams or fams == ["*"]:
            out.setdefault((fam, ans), set()).add((hash_pc(st.pc), tuple(sorted(map(repr, st.b.items()))), tuple(sorted(map(repr, st.ineqs)))))
    return {"got": out}


def same_code(rep, readers, out, rest):
    """Functions whose code depends on a feature that is not theirs must behave the same with and without it."""
    sw.load([readers] + rest)
    reach = {}
    for c, g, r in out:
        if c == readers and g is not None:
            reach[tuple(g)] = r["bodies"]
    todo, why = [], {}
    for c in rest:
        diff, n = samecode.differing(FACTS[c], FACTS[readers])
        rep.add("functions compared across feature sets", n)
        names = {short(x) for x in diff}
        for g, bodies in reach.items():
            feat = [x for x, b in core.FEATURE_BASE.items() if b in g]
            if g != ("*",) and not any("reader-" + x in c for x in feat) and g != ("none",):
                continue            # without its feature the family has no refinement, which is judged by its answers
            if names & bodies:
                todo.append((c, list(g)))
                why[c, g] = sorted(names & bodies)
    if not todo:
        return
    todo = todo[:40]
    jobs = todo + [(readers, g) for g in map(list, dict.fromkeys(tuple(g) for _, g in todo))]
    rs = dict(zip([(c, tuple(g)) for c, g in jobs], core.parallel([(conditions_worker, j) for j in jobs])))
    for c, g in todo:
        a, b = rs[c, tuple(g)], rs[readers, tuple(g)]
        if "got" not in a or "got" not in b:
            rep.bad(f"not analysable: {sw.label(c, g)}", f"{sw.label(c, g)}: {a.get('abort') or a.get('anchor') or b.get('abort') or b.get('anchor')}")
            continue
        for k in sorted(set(a["got"]) | set(b["got"]), key=str):
            if g == ["none"] and k[1] in ("ArbitraryBinaryData", "PlainText", "~") or str(k[1]).startswith("~"):
                continue
            if a["got"].get(k) != b["got"].get(k):
                rep.bad(f"conditions of {k[1]} for {k[0]} with {sw.label(c, None)}",
                        f"with {sw.label(c, None)} the conditions under which {k[0]} content is answered with {k[1]} differ from those with all features, through code of "
                        + ", ".join(why[c, tuple(g)][:3]))


def generic(ans, fam):
    out = set()
    for a in ans:
        out.add("generic" if fam != "none" and (a.startswith("~") or a in ("ArbitraryBinaryData", "PlainText")) else a)
    return out


# ---------------------------------------------------------------- P10

def documented(f):
    """{feature: [variants]} from the crate documentation."""
    out, cur = {}, None
    for l in f["docs"].splitlines():
        m = re.match(r"\s*- `reader-(\w+)`", l)
        if m:
            cur = m.group(1)
            out[cur] = set()
            d = re.search(r"\]\(`FileFormat::(\w+)`\) detection", l)
            if d:
                out[cur].add(d.group(1))
            continue
        m = re.match(r"\s+\* .*\(`FileFormat::(\w+)`\)", l)
        if m and cur:
            out[cur].add(m.group(1))
        elif re.match(r"\S", l) and not l.startswith("  "):
            cur = None
    return out


def p10(rep):
    rep.level = "proof"
    rep.rule = ("for each refinement: the set of answers of all feasible paths on which the signatures decided its base format, compared in both directions with the base format, "
                "the derived formats listed for the feature in the crate documentation, and the generic answer")
    from judges.paths import answers
    parts = [(sw.ALL, g) for g in core.GROUPS]
    if rep.tier == "thorough":
        parts += [((x,), None) for x in sw.ALL]
    out = sw.sweep(rep, answers, parts)
    docs = documented(FACTS[sw.ALL])
    for feat, base in list(core.FEATURE_BASE.items()) + [("txt", "none")]:
        if feat not in docs:
            rep.bad(f"documentation of {feat}", f"the crate documentation does not describe the feature reader-{feat}")
            continue
        for c in [sw.ALL] + ([("reader-" + feat,)] if rep.tier == "thorough" else []):
            got = set()
            ok = True
            for c2, g, r in out:
                if c2 == c and "got" not in r:
                    ok = False
                if c2 == c and (g is None or base in g):
                    got |= r.get("got", {}).get(base, set())
            if not ok:
                continue
            gen = {"ArbitraryBinaryData"} | ({"PlainText"} if "reader-txt" in c else set())
            if feat == "txt":
                want, may = docs[feat] | {"ArbitraryBinaryData"}, set()
            else:
                want, may = docs[feat] | {base}, gen
            got = {("ArbitraryBinaryData" if a.startswith("~") else a) for a in got}
            rep.put("derived formats", {f"{feat}: {x}" for x in docs[feat]})
            rep.add("obligations", len(want) + len(got))
            for a in sorted(got - want - may):
                rep.bad(f"{feat} answers {a}", f"content recognised as {base} may be answered with {a}, which is not documented for reader-{feat}")
            for a in sorted(want - got):
                rep.bad(f"{feat} never answers {a}", f"no path of the refinement of {base} answers {a}, documented for reader-{feat}")
    rep.floor("derived formats", 80)


# ---------------------------------------------------------------- P15

MEDIA = re.compile(r"^[a-z0-9][a-z0-9!#$&^_.+-]{0,126}/[a-z0-9][a-z0-9!#$&^_.+-]{0,126}$")


def const_str(I, st, v):
    x = I.models.bytes_of(I, st, v)
    c = I.models.const_bytes(x) if x is not None else None
    return None if c is None else c.decode("utf-8", "replace")


def readme_names():
    """{"Name (SHORT)": section} of the supported formats listed in README.md."""
    out, sec, on = {}, None, False
    for l in open(os.path.join(REPO, "README.md"), encoding="utf-8"):
        if l.startswith("## "):
            on = l.strip() == "## Supported file formats"
        elif l.startswith("### "):
            sec = l[4:].strip()
        elif on and l.startswith("- "):
            out[l[2:].strip()] = sec
    return out


def p15_job(config):
    f = FACTS[tuple(config)]
    names = core.variants(f)
    kinds = next(e["variants"] for e in f["enums"] if e["path"].rsplit("::", 1)[-1] == "Kind")
    viol, table, n = [], {}, 0

    def rootn(meth):
        c = [r for r in f["roots"] if r.endswith("FileFormat::" + meth)]
        if not c:
            raise core.Anchor(f"no method FileFormat::{meth}")
        return c[0]
    disp = [r for r in f["roots"] if "std::fmt::Display for" in r and "FileFormat" in r]
    if not disp:
        raise core.Anchor("FileFormat does not implement Display")
    for i, v in enumerate(names):
        row = {}
        for meth in ("name", "short_name", "media_type", "extension", "kind"):
            domain.reset()
            I = Interp(f)
            st = State()
            outs = I.run_body(rootn(meth), [VCRef(VEnum(i, ()))], st)
            n += 1
            if len(outs) != 1:
                viol.append((f"{meth} of {v}", f"{meth}() of {v} does not return on exactly one path"))
                continue
            s, r = outs[0]
            if meth == "kind":
                row[meth] = kinds[r.v] if isinstance(r, VEnum) else None
            elif meth == "short_name":
                row[meth] = None if isinstance(r, VEnum) and r.v == 0 else const_str(I, s, r.fs[0]) if isinstance(r, VEnum) else "?"
                if isinstance(r, VEnum) and r.v == 1 and row[meth] is None:
                    row[meth] = "?"
            else:
                row[meth] = const_str(I, s, r)
            if meth != "short_name" and row[meth] is None or row.get("short_name") == "?":
                viol.append((f"{meth} of {v}", f"{meth}() of {v} is not a constant"))
        domain.reset()
        I = Interp(f)
        st = State()
        cell = (0, ("tmp", "fmt"))
        st.mem[cell] = VObj("formatter", (VSeq(()),))
        outs = I.run_body(disp[0], [VCRef(VEnum(i, ())), VRef(cell, ())], st)
        n += 1
        txt = {const_str(I, s, s.mem[cell].fs[0]) if isinstance(s.mem.get(cell), VObj) and not I.unmodelled else None for s, r in outs}
        if txt != {row.get("name")}:
            viol.append((f"printing {v}", f"printing {v} gives {sorted(map(str, txt))[:3]}, its name is {row.get('name')!r}"))
        table[v] = row
    return {"viol": viol, "table": table, "count": {"obligations": n}, "sets": {"kinds": set(kinds)}}


def p15(rep):
    rep.level = "proof"
    rep.rule = ("abstract evaluation of name, short_name, media_type, extension, kind and Display::fmt on every variant; the results are checked against the syntax rules, for uniqueness of names, and against "
                "README.md (full name, short name and kind of every supported format), the crate documentation and the published media types and extensions (spec/metadata.json)")
    sw.load([sw.ALL])
    r = core.parallel([(p15_job, (sw.ALL,))])[0]
    sw.finish_part(rep, "metadata", r)
    table = r.get("table", {})
    seen = {}
    readme = readme_names()
    listed = set()
    import json
    pub = json.load(open(os.path.join(facts_mod.VERIF, "spec", "metadata.json")))
    for v, row in table.items():
        if any(row.get(k) is None for k in ("name", "media_type", "extension", "kind")):
            continue
        rep.put("formats", [v])
        rep.add("obligations", 6)
        n, s, m, e, k = (row[x] for x in ("name", "short_name", "media_type", "extension", "kind"))
        if not n.strip() or n != n.strip():
            rep.bad(f"name of {v}", f"the full name of {v} is {n!r}")
        if n in seen:
            rep.bad(f"name of {v}", f"{v} and {seen[n]} have the same full name {n!r}")
        seen[n] = v
        if s is not None and not s.strip():
            rep.bad(f"short name of {v}", f"the short name of {v} is empty")
        if not MEDIA.match(m):
            rep.bad(f"media type of {v}", f"the media type of {v} is {m!r}, which is not a valid lower-case media type")
        if not e or e.startswith(".") or any(c.isspace() or c in "/\\" for c in e):
            rep.bad(f"extension of {v}", f"the extension of {v} is {e!r}")
        full = f"{n} ({s})" if s is not None else n
        if full not in readme:
            rep.bad(f"documentation of {v}", f"{v} is named {full!r}, which README.md does not list")
        else:
            listed.add(full)
            if readme[full].lower() != k.lower():
                rep.bad(f"kind of {v}", f"README.md lists {full} under {readme[full]}, kind() returns {k}")
        if v in pub and (pub[v]["media_type"], pub[v]["extension"]) != (m, e):
            rep.bad(f"published metadata of {v}", f"{v}: published media type and extension are {pub[v]['media_type']}, {pub[v]['extension']}; returned are {m}, {e}")
    if table:
        for x in sorted(set(readme) - listed):
            rep.bad(f"documented {x}", f"README.md lists {x}, which no format returns as its name and short name")
        for m in re.finditer(r"\[([^\]]+)\]\(`FileFormat::(\w+)`\)", FACTS[sw.ALL]["docs"].replace("\n", " ")):
            t, v = " ".join(m.group(1).split()), m.group(2)
            if v in table and t not in ("given file",) and table[v].get("name"):
                rep.add("obligations")
                row = table[v]
                if t not in (row["name"], f"{row['name']} ({row['short_name']})", row["short_name"]):
                    rep.bad(f"crate documentation of {v}", f"the crate documentation calls {v} {t!r}; its name is {row['name']!r}, its short name {row['short_name']!r}")
    rep.floor("formats", 447)


# ---------------------------------------------------------------- P22

EFFECTS = [
    (r"(^|<|&| )(std|core)::env::", "reads the environment"),
    (r"(^|<|&| )(std|core)::time::", "reads a clock"),
    (r"(^|<|&| )std::net::", "uses the network"),
    (r"(^|<|&| )std::process::", "starts or ends a process"),
    (r"(^|<|&| )std::thread::", "uses threads"),
    (r"(^|<|&| )(std|core|alloc)::sync::(?!Arc)", "uses shared state"),
    (r"(^|<|&| )(std|core)::sync::atomic", "uses shared state"),
    (r"(^|<|&| )std::os::", "uses the operating system"),
    (r"(^|<|&| )std::sys", "uses the operating system"),
    (r"(^|<|&| )std::io::(stdio|stdin|stdout|stderr|Stdin|Stdout|Stderr|_print|_eprint)", "uses the terminal"),
    (r"(^|<|&| )std::io::.*(_print|_eprint)$", "prints"),
    (r"std::io::Write( |>|::)|core::io::Write( |>|::)", "writes"),
    (r"(^|<|&| )std::fs::(?!File::open$)", "uses the file system other than by opening a file for reading"),
    (r"RandomState|hash_map::(Iter|Keys|Values|Drain|IntoIter)|hash_set::(Iter|Drain|IntoIter)|HashMap<.*>::(iter|keys|values|drain)|HashSet<.*>::(iter|drain)", "depends on randomised hashing"),
    (r"::RefCell<|::Cell<|::UnsafeCell<|OnceCell|LazyCell|LazyLock|OnceLock|thread_local|LocalKey", "keeps state behind a shared reference"),
    (r"(^|<|&| )(std|alloc|core)::alloc::", "allocates by hand"),
    (r"mem::(transmute|zeroed|uninitialized|forget|MaybeUninit)", "reinterprets memory"),
    (r"intrinsics::|ptr::(read|write|null|addr)|Box<.*>::leak|Vec<.*>::leak|from_raw", "uses raw memory"),
    (r"std::backtrace|std::panic::|Location<.*>::caller|type_id|type_name", "depends on the program rather than the content"),
]
EFFECTS = [(re.compile(a), b) for a, b in EFFECTS]


def p22_scan(config):
    f = FACTS[tuple(config)]
    viol, calls, fns, opens = [], set(), set(), {}
    for s in f["statics"]:
        if s["mut"] or not s["freeze"] or s["tls"]:
            viol.append((f"static {s['path']}", f"{s['path']}: {s['ty']} is mutable state shared between calls"))
    for it in f["items"]:
        if it["unsafe"]:
            viol.append((f"unsafe {it['path']}", f"{it['path']} is an unsafe function"))
    n = 0
    for name, b in f["bodies"].items():
        if not b["local"]:
            continue
        fns.add(short(name))
        for bi, blk in enumerate(b["blocks"]):
            if not blk:
                continue
            for s in blk["s"]:
                if s and s[0] == "=":
                    r = s[2]
                    if r and r[0] == "tls":
                        viol.append((f"thread local in {short(name)}", f"{short(name)} uses a thread-local variable"))
                    if r and r[0] == "cast" and "Expose" in str(r[1]):
                        viol.append((f"address in {short(name)}", f"{short(name)} turns an address into a number"))
            t = blk["t"]
            if not t or t[0] not in ("call", "tailcall"):
                continue
            k = t[1]
            n += 1
            if "indirect" in k:
                continue
            p = k.get("rpath") or k.get("path") or ""
            q = k.get("path") or ""
            if not k.get("local") and not k.get("rlocal"):
                calls.add(p)
                if k.get("krate") not in ("core", "alloc", "std"):
                    viol.append((f"call of {p}", f"{short(name)} calls {p} of crate {k.get('krate')}"))
                for pat, why in EFFECTS:
                    if pat.search(p) or pat.search(q):
                        viol.append((f"{p} in {short(name)}", f"{short(name)} {why}: it calls {p}"))
                        break
            if k.get("unsafe") and "fmt::Arguments" not in p:
                viol.append((f"unsafe call of {p} in {short(name)}", f"{short(name)} calls the unsafe function {p}"))
            if p.endswith("fs::File::open") or q.endswith("fs::File::open"):
                opens.setdefault(name, []).append(bi)
    for name, bs in opens.items():
        succ = {i: list(succs(b["t"])) for i, b in enumerate(f["bodies"][name]["blocks"]) if b and b["t"]}
        for x in bs:
            seen, work = set(), list(succ.get(x, ()))
            while work:
                y = work.pop()
                if y in seen or y not in succ:
                    continue
                seen.add(y)
                work += succ[y]
            if seen & set(bs):
                viol.append((f"second open in {short(name)}", f"{short(name)} opens a file more than once"))
    # the file is opened by one function only
    if len(opens) > 1:
        viol.append(("opens in several functions", f"files are opened in {', '.join(short(x) for x in opens)}"))
    return {"viol": viol, "count": {"call sites": n}, "sets": {"library functions called": calls, "functions scanned": fns, "places that open a file": {short(x) for x in opens}}}


def p22(rep):
    rep.level = "proof"
    rep.rule = ("effect analysis of every function of the crate (no static with interior mutability, no thread-local, no unsafe function or call, no address exposed) and of every call that leaves it: "
                "only functions of core, alloc and std outside the effect table (environment, clock, network, process, thread, shared state, terminal, file system, random hashing, raw memory) may be called, "
                "except that the file entry point opens the named file once, with File::open. Determinism follows: what remains are pure functions of the reader's bytes")
    rep.assumptions.append("File::open opens for reading only; the caller's reader may do what it likes")
    cs = [sw.ALL, sw.NONE] + ([(x,) for x in sw.ALL] if rep.tier == "thorough" else [])
    sw.load(cs)
    for c, r in zip(cs, core.parallel([(p22_scan, (c,)) for c in cs])):
        sw.finish_part(rep, sw.label(c, None), r)
    rep.add("obligations", rep.count.get("call sites", 0))
    rep.count.pop("call sites", None)
    rep.floor("functions scanned", 20)
    rep.floor("library functions called", 40)
    rep.floor("places that open a file", 1)


# ---------------------------------------------------------------- P23

def base_name(n):
    return n.split("::<R")[0].split("::<P")[0].split("::<B")[0].split("::<&")[0].split("::<std")[0]


def reader_arg(I, st, vals):
    for v in vals:
        for _ in range(4):
            if isinstance(v, VRef):
                if v.cell not in st.mem:
                    break
                v = I.read_loc(st, I.deref(v))
            else:
                break
        if isinstance(v, VStream) or isinstance(v, VObj) and v.kind in ("cursor", "file", "bufreader"):
            return v
    return None


def peel_reader(I, st, v):
    for _ in range(6):
        if isinstance(v, VObj) and v.kind == "bufreader":
            v = v.fs[0]
            while isinstance(v, VRef) and v.cell in st.mem:
                v = I.read_loc(st, I.deref(v))
        else:
            break
    return v


def run_entry(f, name, args, stop):
    """Runs a function with the functions `stop` (base names) cut; returns (outs, [(state tags, reader value, position known zero)])."""
    domain.reset()
    I = Interp(f)
    calls = []

    def cut(I, st, n, vals, callee):
        if n == name or not f["bodies"][n]["local"]:
            return None
        rd = reader_arg(I, st, vals)
        if rd is None or "closure#" in n.rsplit("::", 1)[-1]:
            return None
        if stop is not None and base_name(n) not in stop:
            return None
        rd = peel_reader(I, st, rd)
        pos = st.streams[rd.sid].pos if isinstance(rd, VStream) else None
        calls.append((base_name(n), rd, pos, "cut" in st.tags))
        st.tags = st.tags | {"cut"}
        return [(st, I.top(f["bodies"][n]["locals"][0], ("cut", base_name(n))))]
    I.hooks["enter"] = cut
    st = State()
    if args is None:
        st.streams["F"] = Stream(ZERO, None)
        args = [VStream("F")]
    else:
        b = f["bodies"][name]
        args = [I.top(b["locals"][i + 1], ("arg", i)) for i in range(b["args"])]
    return I, I.run_body(name, args, st), calls


def delegates(f):
    """from_reader and the functions it does nothing but call."""
    out = []
    name = root(f, "from_reader")
    while name and base_name(name) not in out and len(out) < 5:
        out.append(base_name(name))
        I, outs, calls = run_entry(f, name, None, None)
        nx = {c[0] for c in calls}
        if len(nx) != 1 or any(c[3] for c in calls) or any(not (isinstance(c[1], VStream) and c[2] is ZERO) for c in calls):
            break
        d = next(iter(nx))
        if not all("cut" in s.tags and isinstance(v, VTop) and v.tag == ("cut", d) for s, v in outs):
            break
        c = [n for n in f["bodies"] if base_name(n) == d]
        name = sorted(c, key=len)[0] if c else None
    return out


def whole(v, arg):
    """The value is the whole argument, borrowed or not."""
    if isinstance(v, (VCRef,)):
        return whole(v.val, arg)
    if isinstance(v, VObj) and v.kind == "asref":
        return whole(v.fs[0], arg)
    if isinstance(v, VTop):
        return v.tag == arg or (isinstance(v.tag, tuple) and v.tag and v.tag[0] == arg)
    if isinstance(v, VSlice):
        b = v.base
        if v.off is not ZERO:
            return False
        if isinstance(b, VCRef) and isinstance(b.val, VSeq):
            return len(b.val.segs) == 1 and b.val.segs[0][1] == ("u", arg) and b.val.segs[0][0] is v.n
        return whole(b, arg)
    if isinstance(v, VSeq):
        return len(v.segs) == 1 and v.segs[0][1] == ("u", arg)
    return False


def p23_job(config):
    f = FACTS[tuple(config)]
    viol, n, seen = [], 0, set()
    stop = delegates(f)
    ix = core.variants(f)
    for r in f["roots"]:
        b = f["bodies"].get(r)
        if b is None or base_name(r) in stop:
            continue
        rt = f["types"][b["locals"][0]]
        while rt["k"] == "adt" and rt["path"] in ("std::result::Result", "std::option::Option"):
            rt = f["types"][rt["args"][0]]
        if rt.get("path", "").rsplit("::", 1)[-1] != "FileFormat" or b["args"] != 1:
            continue
        at = f["types"][b["locals"][1]]
        at0 = at
        while at0["k"] == "ref":
            at0 = f["types"][at0["e"]]
        if at0.get("path", "").rsplit("::", 1)[-1] == "FileFormat":
            continue
        seen.add(short(r) if not r.startswith("<impl std") else r)
        I, outs, calls = run_entry(f, r, 0, stop)
        for nm, rd, pos, twice in calls:
            n += 1
            if twice:
                viol.append((f"{short(r)} decides twice", f"{r} consults the common decision twice"))
            good = False
            if isinstance(rd, VObj) and rd.kind == "cursor":
                good = whole(rd.fs[0], ("arg", 0)) and isinstance(rd.fs[1], VInt) and rd.fs[1].l is ZERO
            elif isinstance(rd, VObj) and rd.kind == "file":
                good = whole(rd.fs[0], ("arg", 0))
            if not good:
                viol.append((f"{short(r)} content", f"{r} does not hand its whole argument, unmodified and from its beginning, to the decision: {str(rd)[:200]}"))
        for s, v in outs:
            n += 1
            if "cut" not in s.tags:
                if isinstance(v, VEnum) and v.v == 1 and rt is not f["types"][b["locals"][0]] and "io" in s.tags:
                    continue        # the file could not be opened
                viol.append((f"{short(r)} without decision", f"{r} answers on a path that does not consult the common decision"))
                continue
            if good_result(v, ix):
                continue
            viol.append((f"{short(r)} result", f"{r} does not return what the common decision returned: {str(v)[:200]}"))
        if not calls:
            viol.append((f"{short(r)} delegation", f"{r} never reaches the common decision"))
    return {"viol": viol, "count": {"obligations": n}, "sets": {"entry points": seen, "common decision": set(map(short, stop))}}


def good_result(v, names):
    """The Ok value of the decision, the whole result of it, or (in-memory content, whose initial read cannot fail) the default."""
    t = v
    if isinstance(t, VEnum) and len(t.fs) == 1 and t.v in (0, 1):
        t = t.fs[0]
    if isinstance(t, VTop):
        return "'cut'" in repr(t.tag)
    if isinstance(t, VObj) and t.kind == "ioerr" or isinstance(t, VTop):
        return "'cut'" in repr(t)
    if isinstance(v, VEnum) and not v.fs:
        return names[v.v] == "ArbitraryBinaryData"
    return False


def p23(rep):
    rep.level = "proof"
    rep.rule = ("each public function that determines a format is analysed with the common decision (from_reader, or a function it only delegates to) as a black box: every path calls it exactly once "
                "with a reader over the whole argument positioned at zero (or the named file just opened), and returns exactly its result; only a failed open returns without it")
    rep.assumptions.append("Cursor and File implement Read and Seek with the same meaning within the length of the content")
    cs = [sw.ALL, sw.NONE]
    sw.load(cs)
    for c, r in zip(cs, core.parallel([(p23_job, (c,)) for c in cs])):
        sw.finish_part(rep, sw.label(c, None), r)
    rep.floor("entry points", 3)
