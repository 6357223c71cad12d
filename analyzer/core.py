"""Running the analysis: configurations, worker processes, and what judges get to see."""
import gc, multiprocessing, os, sys, time, traceback
import facts as facts_mod
import domain, interp, models
from domain import *
from state import State, Stream, pc_list
from interp import Interp, Abort

sys.setrecursionlimit(200000)

FACTS = {}

BASES = ["ExtensibleBinaryMetaLanguage", "AdvancedSystemsFormat", "Zip", "CompoundFileBinary", "Mpeg4Part14", "Realmedia",
         "ExtensibleMarkupLanguage", "MsDosExecutable", "Id3v2", "PortableDocumentFormat", "Sqlite3"]
FEATURE_BASE = {"asf": "AdvancedSystemsFormat", "cfb": "CompoundFileBinary", "ebml": "ExtensibleBinaryMetaLanguage",
                "exe": "MsDosExecutable", "id3v2": "Id3v2", "mp4": "Mpeg4Part14", "pdf": "PortableDocumentFormat",
                "rm": "Realmedia", "sqlite3": "Sqlite3", "xml": "ExtensibleMarkupLanguage", "zip": "Zip"}

class Anchor(Exception):
    """A construct the property is anchored to is missing from the source."""

def variants(f):
    for e in f["enums"]:
        if e["path"].rsplit("::", 1)[-1] == "FileFormat":
            return e["variants"]
    raise Anchor("no enumeration FileFormat")

def root(f, name):
    """The generic public function FileFormat::<name>."""
    c = [n for n in f["bodies"] if n.split("::<", 1)[0].replace("<impl formats::FileFormat>", "FF").endswith("FF::" + name)]
    g = [n for n in c if n.endswith("::<R>") or n.endswith("::<P>") or n.endswith("::<B>")] or c
    if not g:
        raise Anchor(f"no function FileFormat::{name}")
    return sorted(g, key=len)[0]

class Run:
    """One analysis of FileFormat::from_reader: paths (outcomes) and events."""

    def __init__(self, f, fams=None, excl=(), defer=False, lose_pos=False, no_limit=False, walk=False):
        domain.reset()
        self.f = f
        self.names = variants(f)
        self.ix = {n: i for i, n in enumerate(self.names)}
        self.I = I = Interp(f)
        I.family = True
        I.defer = defer
        I.lose_pos = lose_pos
        I.no_limit = no_limit
        I.walk = walk
        for i in f["impls"]:
            if i["trait"].endswith(" as std::ops::Drop>") or i["trait"].endswith(" as core::ops::Drop>"):
                raise Abort(f"destructors are not modelled: {i['trait']}")
        if fams is not None:
            want = {self.ix.get(n, -1 if n == "none" else -2) for n in fams}
            if "*" in fams:
                others = {self.ix.get(n, -1 if n == "none" else -2) for n in excl}
                I.fam_keep = lambda x: x not in others
            else:
                I.fam_keep = lambda x: x in want
        self.fams = fams
        st = State()
        st.streams["F"] = Stream(ZERO, None)
        self.entry = root(f, "from_reader")
        b = f["bodies"][self.entry]
        if b["args"] != 1:
            raise Anchor("FileFormat::from_reader takes one reader")
        self.outs = I.run_body(self.entry, [VStream("F")], st)
        if fams is not None:
            # paths that never reached a signature decision belong to every worker
            pass

    def fam(self, st):
        for t in st.tags:
            if isinstance(t, tuple) and t[0] == "fam":
                return "none" if t[1] == -1 else self.names[t[1]]
        return None

    def outcomes(self):
        """[(family, answer, state)]: answer a variant name, "Err", "~<function>" (the answer of that fallback), or "?"."""
        for s, v in self.outs:
            a = "?"
            if isinstance(v, VEnum) and v.v == 1:
                a = "Err"
            elif isinstance(v, VEnum) and v.v == 0 and isinstance(v.fs[0], VEnum):
                a = self.names[v.fs[0].v]
            elif isinstance(v, VEnum) and v.v == 0 and isinstance(v.fs[0], VTop) and isinstance(v.fs[0].tag, tuple) and v.fs[0].tag[0] == "generic":
                a = "~" + v.fs[0].tag[1]
            yield self.fam(s), a, s

    def events(self, k):
        return [e for e in self.I.events if e["k"] == k]

def where(e):
    sp = e.get("span")
    return f"{short(e.get('body') or e.get('fn') or '')}" + (f" ({sp})" if isinstance(sp, str) else "")

def short(name):
    n = name.replace("<impl formats::FileFormat>", "FileFormat").replace("readers::", "").replace("signatures::", "")
    import re
    n = re.sub(r"::<.*$", "", n) if not n.startswith("<") else n
    return n

# ---------------------------------------------------------------- parallel jobs

def _job(a):
    fn, args = a
    gc.disable()
    t = time.time()
    try:
        r = fn(*args)
    except Abort as e:
        r = {"abort": str(e)}
    except Anchor as e:
        r = {"anchor": str(e)}
    except RecursionError:
        r = {"abort": "recursion limit"}
    except MemoryError:
        r = {"abort": "memory"}
    except Exception as e:
        r = {"abort": "internal: " + traceback.format_exc()[-1500:]}
    r["wall"] = time.time() - t
    r["job"] = str(args)[:200]
    return r

def _nofacts(*a):
    pass

def parallel(jobs, procs=None):
    """jobs: [(function, arguments)], heavy ones first."""
    import threading
    threading.stack_size(512 * 1024 * 1024)
    procs = procs or min(len(jobs), os.cpu_count() or 4)
    ctx = multiprocessing.get_context("fork")
    gc.collect()
    gc.freeze()
    with ctx.Pool(procs, maxtasksperchild=1) as p:
        return p.map(_job, jobs, chunksize=1)

def load(configs):
    for c, f in zip(configs, facts_mod.extract_many(configs)):
        FACTS[tuple(c)] = f

GROUPS = [["ExtensibleBinaryMetaLanguage"], ["AdvancedSystemsFormat"], ["Zip"], ["none"], ["CompoundFileBinary"], ["Mpeg4Part14"],
          ["Realmedia"], ["ExtensibleMarkupLanguage"], ["MsDosExecutable"], ["Id3v2"], ["PortableDocumentFormat"], ["Sqlite3"], ["*"]]

# the group in which error fallbacks are followed instead of being referred to
FULL = ["Sqlite3"]

def run_group(config, fams):
    return Run(FACTS[tuple(config)], fams, BASES + ["none"], defer=fams != FULL)
