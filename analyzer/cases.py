"""Contents of which some bytes are known, and the answers they must get: evaluates the decision that was extracted from the
code, for all contents that match."""
from domain import *
from state import pc_list
from partial import Env, Line
import walk
from walk import at, exact, LONG, SHORT


GENERIC = (walk.GENERIC_ANSWER,)


class Case:
    """setup(env): what is known of the content; want: the answers it may get."""

    def __init__(self, kind, name, setup, want, length=None, ranges=None):
        self.kind, self.name, self.setup, self.length = kind, name, setup, length
        self.want = {want} if isinstance(want, str) else set(want)


class Decision:
    """All ways through the analysed code of one family."""

    def __init__(self, run, fallback):
        self.run, self.fallback = run, fallback
        self.outs = []
        for fam, ans, st in run.outcomes():
            if fam is None or "io" in st.tags or "intr" in st.tags:
                continue
            self.outs.append((fam, ans, pc_list(st.pc), st))
        self.n = 0

    def answers(self, env, fams=None):
        out = set()
        for fam, ans, pc, st in self.outs:
            if fams is not None and fam not in fams:
                continue
            if ans in out:
                continue
            self.n += 1
            if env.conj(pc) is not False:
                out.add(ans)
        return out


F = "F"


def u(env, o, w, en):
    return env.intat(F, o if isinstance(o, Lin) else Lin(o), w, en)


# ---------------------------------------------------------------- CFB

from identifiers import CLSIDS
from containers import guid, near

CFB_MAGIC = b"\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1"


def cfb_cases(regime):
    out = []
    none = bytes(16)

    def cfb(kind, name, version, clsid, want, second=None, third=None, sector=None, sub=None):
        size = 512 if version == 3 else 4096

        def setup(env):
            env.put(ZERO, at((0, CFB_MAGIC), (26, exact(version, 2, "le"))))
            if sector is None:
                env.put(ZERO, at((48, [None, 1, 0, 0])))
            else:
                env.put(ZERO, at((48, sector if isinstance(sector, list) else exact(sector, 4, "le"))))
            d = Lin(size).add(u(env, 48, 4, "le"), size)
            env.put(d, at((80, clsid)))
            if second is not None:
                env.put(d, at((128, second)))
            if third is not None:
                env.put(d, at((256, third)))
        out.append(Case(kind, name, setup, want))

    plain = "W\0o\0r\0d\0D\0o\0c\0u\0m\0e\0n\0t\0".encode()
    works, sheet = "MatOST".encode("utf-16le"), "WksSSWorkBook".encode("utf-16le")
    sectors = [None, 0, 1, 7, 0x00FFFFFE] if regime["wide"] else [0, 1, 4]
    for v in (3, 4):
        for s in sectors:
            w = f"version {v}, directory in sector {'any' if s is None else s}"
            cfb("field", f"{w}: class identifier", v, guid("00020906-0000-0000-c000-000000000046"), "MicrosoftWordDocument", sector=s)
            cfb("field", f"{w}: name of the second entry", v, none, "MicrosoftWorksWordProcessor", works, plain, sector=s)
            cfb("field", f"{w}: name of the third entry", v, none, "MicrosoftWorks6Spreadsheet", plain, sheet, sector=s)
            cfb("field", f"{w}: no identifier", v, none, "CompoundFileBinary", plain, plain, sector=s)
    if regime["wide"]:
        # sector numbers of which the high bits count
        for s in ([None, 1, 0, 0x80], [None, None, 0xFF, 0x7F], [None, 0, 0x80, 0], [0, None, None, 0xFE], [0, 0, 0, 0x10]):
            for v in (3, 4):
                cfb("field", f"version {v}, directory in sector {s}: class identifier", v, guid("00020906-0000-0000-c000-000000000046"), "MicrosoftWordDocument", sector=s)
                cfb("field", f"version {v}, directory in sector {s}: no identifier", v, none, "CompoundFileBinary", plain, plain, sector=s)
    else:
        # the directory lies beyond the end, whatever is found elsewhere
        for s in (80, 0x100, 0x10000, 0x7FFFFF, 0x007FFFFF, 0x00800000, 0x000FFFFF, 0x00100000, 0x01000001, 0x80000001, 0xFF000000, 0xFFFFFFFA, 0xFFFFFFFD, 0xFFFFFFFE, 0xFFFFFFFF):
            for v in (3, 4):
                out.append(Case("field", f"version {v}, directory in sector {s:#x}, beyond the end", lambda env, v=v, s=s: env.put(ZERO, at((0, CFB_MAGIC), (26, exact(v, 2, "le")), (48, exact(s, 4, "le")))), GENERIC))
    s = None if regime["wide"] else 3
    if regime["wide"]:
        for k, a in CLSIDS.items():
            g = guid(k)
            cfb("identifier", f"class {k}", 3, g, a, sector=s)
            for i in range(16):
                n = near(g, i)
                t = next((b for c, b in CLSIDS.items() if guid(c) == n), "CompoundFileBinary")
                cfb("identifier", f"class {k} with byte {i} changed", 3, n, t, plain, plain, sector=s)
        for i in range(len(works)):
            cfb("identifier", f"second entry MatOST with byte {i} changed", 3, none, "CompoundFileBinary", near(works, i), plain, sector=s)
        for i in range(len(sheet)):
            cfb("identifier", f"third entry WksSSWorkBook with byte {i} changed", 3, none, "CompoundFileBinary", plain, near(sheet, i), sector=s)
        cfb("identifier", "second entry WksSSWorkBook", 3, none, "CompoundFileBinary", sheet, plain, sector=s)
        cfb("identifier", "third entry MatOST", 3, none, "CompoundFileBinary", plain, works, sector=s)
    return out


# ---------------------------------------------------------------- EXE

def exe_cases(regime):
    out = []

    def exe(kind, name, off, body, want):
        def setup(env):
            env.put(ZERO, at((0, b"MZ"), (60, off)))
            env.put(u(env, 60, 4, "le"), body)
        out.append(Case(kind, name, setup, want))

    offs = [[None, 1, 0, 0], [None, None, 1, 0], [0x80, 0, 0, 0], [0, 0, 0, 1]] if regime["wide"] else [[None, 1, 0, 0], [0x80, 0, 0, 0]]
    for o in offs:
        w = f"extended header at {o}"
        for bit in range(16):
            ch = 1 << bit
            exe("field", f"{w}: characteristics {ch:#06x}", o, at((0, b"PE\0\0"), (22, exact(ch, 2, "le"))), "DynamicLinkLibrary" if ch == 0x2000 else "PortableExecutable")
            ch ^= 0xFFFF
            exe("field", f"{w}: characteristics {ch:#06x}", o, at((0, b"PE\0\0"), (22, exact(ch, 2, "le"))), "PortableExecutable" if ch == 0xDFFF else "DynamicLinkLibrary")
        for sig, a in ((b"LE", "LinearExecutable"), (b"LX", "LinearExecutable"), (b"NE", "NewExecutable")):
            exe("identifier", f"{w}: {sig.decode()}", o, at((0, sig)), a)
            exe("identifier", f"{w}: {sig.decode()} followed by zeros", o, at((0, sig + b"\0\0")), a)
        for sig in (b"PE\0\1", b"PE\1\0", b"PX\0\0", b"pe\0\0", b"LA\0\0", b"ME\0\0", b"XE\0\0", b"lx\0\0", b"\0\0\0\0", b"EP\0\0", b"NX\0\0", b"\0PE\0"):
            exe("identifier", f"{w}: {sig!r}", o, at((0, sig)), "MsDosExecutable")
    if regime["wide"]:
        for o in ([None, 1, 0, 0x80], [None, None, 0xFF, 0x7F], [None, 1, 1, 0xFF]):
            for sig, a in ((b"PE\0\0", None), (b"LX\0\0", "LinearExecutable"), (b"NE\0\0", "NewExecutable")):
                exe("field", f"extended header at {o}: {sig!r}", o, at((0, sig), (22, b"\0\x20")), a or "DynamicLinkLibrary")
    else:
        # the extended header lies beyond the end, or ends just before it
        n = 0x1234
        for o in (n, n + 1, n + 3, 0x11000, 0x10100, 0x010000, 0x1000000, 0x80000040, 0xFFFFFFFF, 0xFFFFFFFC, 0xFFFFFFFE):
            out.append(Case("field", f"extended header at {o:#x} of {n:#x} bytes", lambda env, o=o: env.put(ZERO, at((0, b"MZ"), (60, exact(o, 4, "le")))), "MsDosExecutable", (n, n)))
        for o in (n - 5, n - 6, n - 8, n - 40):
            for sig, a in ((b"LE\0\0", "LinearExecutable"), (b"LX\0\0", "LinearExecutable"), (b"NE\0\0", "NewExecutable")):
                out.append(Case("field", f"{sig!r} {n - o} bytes before the end", lambda env, o=o, sig=sig: env.put(ZERO, at((0, b"MZ"), (60, exact(o, 4, "le")), (o, sig))), a, (n, n)))
        for o in (n - 24, n - 25, n - 40):
            out.append(Case("field", f"library {n - o} bytes before the end", lambda env, o=o: env.put(ZERO, at((0, b"MZ"), (60, exact(o, 4, "le")), (o, b"PE\0\0"), (o + 22, b"\0\x20"))), "DynamicLinkLibrary", (n, n)))
    return out


# ---------------------------------------------------------------- XML and SQLite markers

XML_MARKERS = [
    ("Abiword", ['<abiword template="false"']), ("AbiwordTemplate", ['<abiword template="true"']), ("AdditiveManufacturingFormat", ["<amf"]),
    ("AdvancedStreamRedirector", ["<ASX"]), ("AdvancedStreamRedirector", ["<asx"]), ("Atom", ["<feed"]), ("CollaborativeDesignActivity", ["<COLLADA"]), ("Drawio", ["<mxfile"]),
    ("Extensible3d", ["<X3D"]), ("ExtensibleStylesheetLanguageTransformations", ["<xsl"]), ("Fictionbook", ["<FictionBook"]), ("GeographyMarkupLanguage", ["<gml"]),
    ("GpsExchangeFormat", ["<gpx"]), ("KeyholeMarkupLanguage", ["<kml"]), ("MathematicalMarkupLanguage", ["<math"]), ("MpegDashMpd", ["<MPD"]), ("Musicxml", ["<score-partwise"]),
    ("ReallySimpleSyndication", ["<rss"]), ("ScalableVectorGraphics", ["<SVG"]), ("ScalableVectorGraphics", ["<svg"]), ("SimpleObjectAccessProtocol", ["<soap"]),
    ("TiledMapXml", ["<map"]), ("TiledTilesetXml", ["<tileset"]), ("TimedTextMarkupLanguage", ["<tt", 'xmlns="http://www.w3.org/ns/ttml"']),
    ("TrainingCenterXml", ["<TrainingCenterDatabase"]), ("UniformOfficeFormatPresentation", ["<uof:UOF", 'uof:mimetype="vnd.uof.presentation"']),
    ("UniformOfficeFormatSpreadsheet", ["<uof:UOF", 'uof:mimetype="vnd.uof.spreadsheet"']), ("UniformOfficeFormatText", ["<uof:UOF", 'uof:mimetype="vnd.uof.text"']),
    ("UniversalSubtitleFormat", ["<USFSubtitles"]), ("XmlLocalizationInterchangeFileFormat", ["<xliff"]), ("XmlShareablePlaylistFormat", ["<playlist"]),
]


def window_cases(base, magic, first, size, markers, lengths):
    """Markers in the window [first, first+size) of the content, wherever they lie."""
    out = []
    pats = [p.encode() for _, ps in markers for p in ps]
    allp = set(pats)

    def others(ps):
        """Patterns that may be missing although ps are there."""
        return {q for q in allp if not any(q in p for p in ps)}

    def case(kind, name, want, put, absent, length, upto=None):
        def setup(env):
            env.put(ZERO, at((0, magic)))
            n = lin(stream_len(F)) if not env.fixed() else Lin(env.length[0])
            end = Lin(first + size) if env.length[0] >= first + size else n
            for i, (p, lo) in enumerate(put):
                x = sym("fresh", ("marker", i), 0, 1 << 62)
                env.values[x] = lin(x)
                if lo == "in":
                    hi = (first + size if env.length[0] >= first + size else env.length[0]) - len(p)
                    env.ranges[x] = (first, hi)
                    env.put(lin(x), at((0, p)))
                else:
                    env.put(Lin(lo), at((0, p)))
            env.absent.append((absent, Lin(first), end))
        out.append(Case(kind, name, setup, want, length=length))

    for length in lengths:
        w = "" if length[0] != length[1] else f", content of {length[0]} bytes"
        case("marker", f"no marker in the window{w}", base, [], allp, length)
        end = min(first + size, length[0])
        for ans, ps in markers:
            enc = [p.encode() for p in ps]
            if len(enc) == 1:
                case("marker", f"{ps[0]} anywhere in the window{w}", ans, [(enc[0], "in")], others(enc), length)
            else:
                a, b = enc
                case("marker", f"{ps[0]} and {ps[1]} in the window{w}", ans, [(a, "in"), (b, "in")], others(enc), length)
                for only in enc:
                    case("identifier", f"only {only.decode()} in the window{w}", base, [(only, "in")], others([only]), length)
            # partly outside of the window
            for p in enc[:1]:
                if len(enc) == 1 and length[0] > end + 100:
                    case("marker", f"{p.decode()} reaching beyond the window{w}", base, [(p, end - len(p) + 1)], allp, length)
                    case("marker", f"{p.decode()} behind the window{w}", base, [(p, end)], allp, length)
                    case("marker", f"{p.decode()} at the last place of the window{w}", ans, [(p, end - len(p))], others([p]), length)
        # two markers: the first one in the order of priority decides
        for i, (a, ps) in enumerate(markers):
            for b, qs in markers[i + 1:]:
                if len(ps) + len(qs) == 2 and a != b:
                    case("identifier", f"{ps[0]} and {qs[0]}{w}", a, [(ps[0].encode(), "in"), (qs[0].encode(), "in")], others([ps[0].encode(), qs[0].encode()]), length)
    return out


def xml_cases():
    L = [LONG["len"], (30000, 36870), (8197, 8197), (8196, 8196), (8198, 8198), (4000, 4000), (200, 200)]
    return window_cases("ExtensibleMarkupLanguage", b"<?xml", 5, 8192, XML_MARKERS, L)


def sqlite_cases():
    L = [LONG["len"], (33000, 36870), (32868, 32868), (32867, 32867), (32869, 32869), (4096, 4096), (512, 512)]
    return window_cases("Sqlite3", b"SQLite format 3\0", 100, 32768, [("Sketch", ["com.bohemiancoding.sketch3"])], L)


# ---------------------------------------------------------------- plain text

WHITE = (9, 10, 11, 12, 13, 0x20, 0x85)
TEXT = ((9, 13), (0x20, 0x7E), (0x85, 0x85), (0xA0, 0x10FFFF))
CONTROL = [c for c in list(range(0x20)) + list(range(0x7F, 0xA0)) if c not in WHITE]
LINES, SIZE = 16, 65536


def text_cases():
    out = []

    def lines(name, want, n, special=None, feed=True, rest=True, length=None, top=1000):
        """n lines of unknown size; special: {index: attributes}; rest: arbitrary content follows."""
        def setup(env):
            p = ZERO
            for i in range(n):
                x = sym("fresh", ("line", i), 1, 1 << 62)
                env.ranges[x] = (1, top)
                last = i == n - 1
                a = dict(allowed=TEXT)
                a.update((special or {}).get(i, {}))
                env.line(Line(p, lin(x), feed or not last, **a))
                p = p + lin(x)
            if not rest:
                env.values[stream_len(F)] = p
                env.ml.clear()
                env.length = (n, n * top)
        out.append(Case("text", name, setup, want, length=length))

    plain, binary = "PlainText", "ArbitraryBinaryData"
    for length, w, top in ((LONG["len"], "long content", 4000), ((30000, 36870), "short content", 1800)):
        lines(f"{w}: {LINES} lines of text, then anything", plain, LINES, length=length, top=top)
        for i in range(LINES):
            for c in (0, 0x1B, 0x9F) if i else CONTROL:
                lines(f"{w}: line {i + 1} with U+{c:04X}", binary, i + 1, {i: dict(allowed=(), has=(c,))}, length=length, top=top)
            lines(f"{w}: line {i + 1} not UTF-8", binary, i + 1, {i: dict(valid=False, allowed=())}, length=length, top=top)
    for n in (1, 2, 3, 7, LINES - 1, LINES, LINES + 1):
        for top, w in ((2000, "short"), (3800, "longer")):
            for feed in (True, False):
                f = "with" if feed else "without"
                if (top, feed) != (2000, True) and n > 3 and n != LINES:
                    continue
                lines(f"{n} {w} lines, the last one {f} line feed, and no more", plain, n, feed=feed, rest=False, top=top)

    def concrete(name, want, bs):
        def setup(env):
            env.put(ZERO, bs)
        out.append(Case("limit", name, setup, want, length=(len(bs), len(bs))))

    for ch in ("\u00e9", "\u20ac", "\U0001f600", "\u00a0", "\u3000"):
        e = ch.encode()
        for before in range(0, len(e) + 1):
            t = b"a" * (SIZE - before) + e
            concrete(f"{ch!r} with {before} of {len(e)} bytes before the limit", plain, t + b"b" * 40)
            concrete(f"{ch!r} with {before} of {len(e)} bytes before the limit, control characters later", plain, t + b"b\0\x01" * 9)
            concrete(f"{ch!r} with {before} of {len(e)} bytes before the limit, at the end", plain, t)
            if 0 < before:
                concrete(f"{ch!r} with {before} of {len(e)} bytes before the limit, another one behind it", plain, t + e * 5)
            if 0 < before < len(e):
                concrete(f"{ch!r} broken off after {before} bytes", binary, t[:SIZE] + b"bbbbbbbbb")
        concrete(f"{ch!r} within a second line at the limit", plain, b"a" * 40000 + b"\n" + b"a" * (SIZE - 40002) + e + b"\0" * 9)
    for k in (1, 2, 100):
        concrete(f"NUL {k} before the limit", binary, b"a" * (SIZE - k) + b"\0" + b"a" * 300)
        concrete(f"invalid byte {k} before the limit", binary, b"a" * (SIZE - k) + b"\xff" + b"a" * 300)
    for k in (0, 1, 5):
        concrete(f"NUL {k} behind the limit", plain, b"a" * (SIZE + k) + b"\0" + b"a" * 300)
    concrete("text of exactly the size limit", plain, b"a" * SIZE)
    concrete("text of one byte more than the limit", plain, b"a" * (SIZE + 1))
    concrete("text of one byte less than the limit", plain, b"a" * (SIZE - 1))
    concrete("white space only", plain, b" \t\r\n\x0b\x0c\xc2\x85 \n")
    concrete("carriage returns", plain, b"one\r\ntwo\r\nthree\rfour\r\n")
    concrete("characters of every length", plain, "a\u00e9\u20ac\U0001f600\u0800\uffff\U0010ffff\ud7ff\ue000".encode())
    for bad in (b"\xc0\xaf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe2\x82", b"\x80", b"\xf8\x88\x80\x80\x80"):
        concrete(f"invalid sequence {bad.hex()}", binary, b"abc" + bad)
        concrete(f"invalid sequence {bad.hex()} inside of a line", binary, b"abc\nabc" + bad + b"abc\n")
    return out
