"""The containers' formats: where items are, how large they are, what their identifiers mean."""
from domain import *
from walk import GENERIC_ANSWER, Item, Spec, at, wide, huge, exact, LONG

F = "F"


def u(env, P, o, w, en):
    return env.intat(F, env.lin(P) + o, w, en)


# ---------------------------------------------------------------- Realmedia

class Rm(Spec):
    name = "RealMedia chunks"
    function = "from_rm_reader"
    limit = 64

    def header(self, env, count, e, outer=None):
        if count is not None:
            env.put(ZERO, at((14, exact(count, 4, "be"))))

    def first(self, env, e, outer=None):
        return Lin(18)

    def counts(self, regime):
        return [(0x01020304, 0x01020303), (0x100, 0xFF), (8, 7), (2, 1)]

    def probe(self):
        return ("chunk", "audio stream")

    def items(self, regime):
        nx = lambda env, P: [P + u(env, P, 4, 4, "be")]
        size = wide(None, 4, "be", regime)
        out = [Item("chunk", at((0, b"CONT"), (4, size)), nx), Item("chunk PROP", at((0, b"PROP"), (4, size)), nx),
               Item("other chunk", at((0, b"MDPS"), (4, size)), nx), Item("small chunk", at((0, b"CONT"), (4, exact(8, 4, "be"))), nx),
               Item("chunk of 19 bytes", at((0, b"CONT"), (4, exact(19, 4, "be"))), nx)]
        for k, h in huge(4, "be", regime):
            out += [Item(f"chunk of {k} bytes", at((0, b"CONT"), (4, h)), nx),
                    Item(f"audio stream of {k} bytes", at((0, b"MDPR"), (4, h), (40, [5]), (46, [6]), (47, b"audio/")), nx, "audio")]
        for mime, mark in ((b"audio/x-pn-realaudio", "audio"), (b"video/x-pn-realvideo", "video"), (b"audio/x-ralf-mpeg4", "audio"), (b"video/x-pn-multirate-realvideo", "video"),
                           (b"audio/", "audio"), (b"video/", "video"), (b"application/x-pn-realevent", None), (b"logical-fileinfo", None), (b"audio", None), (b"", None),
                           (b"Video/x", None), (b"x-video/", None), (b"video", None), (b"videos", None), (b"audios/x", None), (b"audio-x", None), (b"vide/o", None)):
            for k in (0, 1, 13, 255):
                body = at((0, b"MDPR"), (4, size), (40, [k]), (41 + k, [len(mime)]), (42 + k, mime))
                out.append(Item(f"stream {mime.decode() or 'without type'}, name of {k} bytes" if (mime, k) != (b"audio/x-pn-realaudio", 13) else "audio stream", body, nx, mark))
        return out

    def novel(self, consts, regime):
        nx = lambda env, P: [P + u(env, P, 4, 4, "be")]
        size = wide(None, 4, "be", regime)
        out = []
        for c in consts:
            if len(c) == 4 and c != b"MDPR":
                out.append(Item(f"chunk {c!r}", at((0, c), (4, size), (40, [5]), (46, [6]), (47, b"audio/")), nx))
            if len(c) < 64:
                for m in (c, c + b"x", c.swapcase()):
                    mark = "audio" if m.startswith(b"audio/") else "video" if m.startswith(b"video/") else None
                    out.append(Item(f"stream {m!r}", at((0, b"MDPR"), (4, size), (40, [5]), (46, [len(m)]), (47, m)), nx, mark))
        return out

    def answer(self, m):
        return "Realvideo" if "video" in m else "Realaudio" if "audio" in m else "Realmedia"


# ---------------------------------------------------------------- MP4

class Mp4(Spec):
    name = "MP4 boxes"
    function = "from_mp4_reader"
    limit = 256

    def probe(self):
        return ("box free", "handler vide", "box moov")

    def items(self, regime):
        out = []
        s32 = wide(None, 4, "be", regime)
        s64 = wide(None, 8, "be", regime)
        nx32 = lambda env, P: [P + u(env, P, 0, 4, "be")]
        nx64 = lambda env, P: [P + u(env, P, 8, 8, "be")]
        one = exact(1, 4, "be")
        for t in (b"free", b"ftyp", b"mdat", b"udta", b"minf", b"stbl", b"meta", b"moof", b"mooV", b"hdls"):
            n = t.decode()
            out += [Item(f"box {n}", at((0, s32), (4, t)), nx32), Item(f"box {n} with 64-bit size", at((0, one), (4, t), (8, s64)), nx64),
                    Item(f"empty box {n}", at((0, exact(8, 4, "be")), (4, t)), nx32), Item(f"box {n} of 9 bytes", at((0, exact(9, 4, "be")), (4, t)), nx32),
                    Item(f"box {n} of 17 bytes with 64-bit size", at((0, one), (4, t), (8, exact(17, 8, "be"))), nx64)]
        for t in (b"moov", b"trak", b"mdia"):
            n = t.decode()
            out += [Item(f"box {n}", at((0, s32), (4, t)), lambda env, P: [P + 8]), Item(f"box {n} with 64-bit size", at((0, one), (4, t), (8, s64)), lambda env, P: [P + 16])]
        for h, mark in ((b"vide", "video"), (b"soun", "audio"), (b"sbtl", "subtitle"), (b"subt", "subtitle"), (b"text", "subtitle"), (b"hint", None), (b"meta", None), (b"vidE", None), (b"auxv", None)):
            n = h.decode()
            out += [Item(f"handler {n}", at((0, s32), (4, b"hdlr"), (16, h)), nx32, mark),
                    Item(f"handler {n} with 64-bit size", at((0, one), (4, b"hdlr"), (8, s64), (24, h)), nx64, mark),
                    Item(f"handler {n} of 33 bytes", at((0, exact(33, 4, "be")), (4, b"hdlr"), (16, h)), nx32, mark)]
        for k, h in huge(4, "be", regime):
            out += [Item(f"box mdat of {k} bytes", at((0, h), (4, b"mdat")), nx32), Item(f"handler vide of {k} bytes", at((0, h), (4, b"hdlr"), (16, b"vide")), nx32, "video")]
        for k, h in huge(8, "be", regime):
            out += [Item(f"box mdat of {k} bytes", at((0, one), (4, b"mdat"), (8, h)), nx64), Item(f"handler soun of {k} bytes", at((0, one), (4, b"hdlr"), (8, h), (24, b"soun")), nx64, "audio"),
                    Item(f"box moov of {k} bytes", at((0, one), (4, b"moov"), (8, h)), lambda env, P: [P + 16])]
        # a box of size 0 is the last one: nothing follows it; looking at it again changes nothing
        out += [Item("box free up to the end", at((0, exact(0, 4, "be")), (4, b"free")), lambda env, P: [P, lin(stream_len(F))])]
        return out

    def novel(self, consts, regime):
        nx = lambda env, P: [P + u(env, P, 0, 4, "be")]
        s32 = wide(None, 4, "be", regime)
        marks = {b"vide": "video", b"soun": "audio", b"sbtl": "subtitle", b"subt": "subtitle", b"text": "subtitle"}
        out = []
        for c in {x for b in consts if len(b) == 4 for x in (b, b.swapcase())}:
            if c not in (b"moov", b"trak", b"mdia", b"hdlr"):
                out.append(Item(f"box {c!r}", at((0, s32), (4, c), (16, b"vide")), nx))
            out.append(Item(f"handler {c!r}", at((0, s32), (4, b"hdlr"), (16, c)), nx, marks.get(c)))
        return out

    def ends(self, regime):
        return [("end of the content", None, True)]

    def answer(self, m):
        return "Mpeg4Part14Video" if "video" in m else "Mpeg4Part14Audio" if "audio" in m else "Mpeg4Part14Subtitles" if "subtitle" in m else "Mpeg4Part14"


# ---------------------------------------------------------------- ASF

def guid(t):
    a, b, c, d, e = t.split("-")
    return bytes.fromhex(a)[::-1] + bytes.fromhex(b)[::-1] + bytes.fromhex(c)[::-1] + bytes.fromhex(d + e)


STREAM_PROPERTIES = guid("b7dc0791-a9b7-11cf-8ee6-00c00c205365")
CONTENT_DESCRIPTION = guid("d2d0a440-e307-11d2-97f0-00a0c95ea850")
AUDIO_MEDIA = guid("f8699e40-5b4d-11cf-a8fd-00805f5c442b")
VIDEO_MEDIA = guid("bc19efc0-5b4d-11cf-a8fd-00805f5c442b")
OTHER_MEDIA = guid("59dacfc0-59e6-11d0-a3ac-00a0c90348f6")
FILE_PROPERTIES = guid("8cabdca1-a947-11cf-8ee4-00c00c205365")


def near(b, k=3):
    """The same identifier with one byte changed."""
    b = bytearray(b)
    b[k % len(b)] ^= 1
    return bytes(b)


class Asf(Spec):
    name = "ASF header objects"
    function = "from_asf_reader"
    limit = 256

    def header(self, env, count, e, outer=None):
        if count is not None:
            env.put(ZERO, at((24, exact(count, 4, "le"))))

    def first(self, env, e, outer=None):
        return Lin(30)

    def counts(self, regime):
        return [(0x01020304, 0x01020304), (0x100, 0x100), (7, 7), (1, 1)]

    def probe(self):
        return ("object", "audio stream")

    def items(self, regime):
        nx = lambda env, P: [P + u(env, P, 16, 8, "le")]
        size = wide(None, 8, "le", regime)
        out = [Item("object", at((0, FILE_PROPERTIES), (16, size)), nx), Item("empty object", at((0, FILE_PROPERTIES), (16, exact(24, 8, "le"))), nx),
               Item("object of 25 bytes", at((0, FILE_PROPERTIES), (16, exact(25, 8, "le"))), nx)]
        for n, g, m in (("audio", AUDIO_MEDIA, "audio"), ("video", VIDEO_MEDIA, "video"), ("command", OTHER_MEDIA, None), ("nearly audio", near(AUDIO_MEDIA), None), ("nearly video", near(VIDEO_MEDIA, 15), None)):
            out += [Item(f"{n} stream", at((0, STREAM_PROPERTIES), (16, size), (24, g)), nx, m), Item(f"{n} stream of 78 bytes", at((0, STREAM_PROPERTIES), (16, exact(78, 8, "le")), (24, g)), nx, m)]
        for k in range(16):
            out.append(Item(f"object with audio media and byte {k} of the identifier changed", at((0, near(STREAM_PROPERTIES, k)), (16, size), (24, AUDIO_MEDIA)), nx))
        for k, h in huge(8, "le", regime):
            out += [Item(f"object of {k} bytes", at((0, FILE_PROPERTIES), (16, h)), nx), Item(f"audio stream of {k} bytes", at((0, STREAM_PROPERTIES), (16, h), (24, AUDIO_MEDIA)), nx, "audio")]
        out += [Item("content description without descriptors", at((0, CONTENT_DESCRIPTION), (16, size), (24, exact(0, 2, "le"))), nx)]
        return out

    def novel(self, consts, regime):
        nx = lambda env, P: [P + u(env, P, 16, 8, "le")]
        size = wide(None, 8, "le", regime)
        marks = {AUDIO_MEDIA: "audio", VIDEO_MEDIA: "video"}
        out = []
        for c in consts:
            if len(c) == 16:
                if c not in (STREAM_PROPERTIES, CONTENT_DESCRIPTION):
                    out.append(Item(f"object {c.hex()}", at((0, c), (16, size), (24, AUDIO_MEDIA)), nx))
                out.append(Item(f"stream of type {c.hex()}", at((0, STREAM_PROPERTIES), (16, size), (24, c)), nx, marks.get(c)))
        return out

    def answer(self, m):
        return "WindowsMediaVideo" if "video" in m else "WindowsMediaAudio" if "audio" in m else "AdvancedSystemsFormat"


class AsfDescriptors(Spec):
    name = "ASF content descriptors"
    function = "from_asf_reader"
    limit = 32

    def header(self, env, count, e, outer=None):
        env.put(ZERO, at((24, exact(0x01020304, 4, "le"))))
        if outer is not None:
            env.put(outer, at((0, CONTENT_DESCRIPTION), (16, exact(1 << 20, 8, "le"))))
            if count is not None:
                env.put(outer, at((24, exact(count, 2, "le"))))

    def first(self, env, e, outer=None):
        return outer + 26

    def counts(self, regime):
        return [(0x0102, 0x0102), (0x20, 0x20), (7, 7), (1, 1)]

    def probe(self):
        return ("descriptor",)

    def items(self, regime):
        nx = lambda env, P: [P + 6 + u(env, P, 0, 2, "le") + env.intat(F, P + 4 + u(env, P, 0, 2, "le"), 2, "le")]
        dvr = "DVR File Version".encode("utf-16le")
        title = "WM/MediaClassPrimaryID, a long name for this".encode("utf-16le")
        out = []
        for k in (2, 30, 33, 63, 64, 65, 66, 88, 300):
            t = (title * 8)[:k]
            out += [Item(f"descriptor with a name of {k} bytes" if k != 30 else "descriptor", at((0, exact(k, 2, "le")), (2, t), (k + 4, [None, 1])), nx)]
            if k >= 33:
                out += [Item(f"version descriptor with a name of {k} bytes", at((0, exact(k, 2, "le")), (2, (dvr + title * 8)[:k]), (k + 4, [None, 1])), None, None, "MicrosoftDigitalVideoRecording")]
                for i in (0, 15, 30):
                    out += [Item(f"nearly a version descriptor, byte {i}, name of {k} bytes", at((0, exact(k, 2, "le")), (2, (near(dvr, i) + title * 8)[:k]), (k + 4, [None, 1])), nx)]
        out.append(Item("descriptor without name", at((0, exact(0, 2, "le")), (4, [None, 1])), nx))
        return out

    def novel(self, consts, regime):
        nx = lambda env, P: [P + 6 + u(env, P, 0, 2, "le") + env.intat(F, P + 4 + u(env, P, 0, 2, "le"), 2, "le")]
        dvr = "DVR File Version".encode("utf-16le")
        out = []
        for c in consts:
            if len(c) <= 64:
                for n in (c, c + b"\0x\0"):
                    a = "MicrosoftDigitalVideoRecording" if n[:64].startswith(dvr) else None
                    out.append(Item(f"descriptor {n!r}", at((0, exact(len(n), 2, "le")), (2, n), (len(n) + 4, [None, 1])), None if a else nx, None, a))
        return out

    def answer(self, m):
        from walk import ON
        return ON


# ---------------------------------------------------------------- ID3v2

class Id3(Spec):
    name = "ID3v2 tags"
    function = "from_id3v2_reader"
    closing = True
    limit = 64

    def probe(self):
        return ("tag", "FLAC stream")

    def items(self, regime):
        def nx(foot):
            def f(env, P):
                return [P + 10 + foot + sum((ZERO.add(u(env, P, 6 + i, 1, "be"), 1 << 7 * (3 - i)) for i in range(4)), ZERO)]
            return f
        out = []
        for f in range(256):
            foot = 10 if f & 0x10 else 0
            out.append(Item(f"tag with flags {f:#04x}" if f else "tag", at((0, b"ID3\x04\x00"), (5, [f]), (6, [0x01, 0x7F, 0x02, 0x03])), nx(foot)))
        for sz in ([0, 0, 0, 0], [0x7F] * 4, [0, 0, 1, 0x7F], [0, 0, 0, 0x7F], [0x7F, 0, 0, 0], [0, 0x55, 0, 1], [0x2A, 1, 0, 0]):
            if regime["wide"] or not sz[0] and sz[1] < 2:
                out.append(Item("tag of size " + bytes(sz).hex(), at((0, b"ID3\x03\x00\x00"), (6, sz)), nx(0)))
                out.append(Item("tag with footer of size " + bytes(sz).hex(), at((0, b"ID3\x04\x00\x90"), (6, sz)), nx(10)))
        pad = [0x55] * 12
        out.append(Item("FLAC stream", at((0, b"fLaC"), (4, pad)), None, None, "FreeLosslessAudioCodec"))
        for b in range(256):
            a = "Mpeg12AudioLayer3" if b in (0xE2, 0xE3, 0xF2, 0xF3, 0xFA, 0xFB) else "Id3v2"
            out.append(Item(f"frame ff{b:02x}", at((0, [0xFF, b]), (2, pad)), None, None, a))
        for n in (b"fLaX", b"xLaC", b"flaC", b"fLac", b"ID4\x00", b"IDX\x00", b"id3\x00", b"TAG\x00", b"\x00\xFF\xFB\x00", b"\xFE\xFB\x00\x00", b"OggS"):
            out.append(Item(f"other data {n.hex()}", at((0, n), (4, pad)), None, None, "Id3v2"))
        return out


    def novel(self, consts, regime):
        out = []
        for c in consts:
            d = c.ljust(12, b"\x55")
            if len(c) <= 12 and c[:3] != b"ID3":
                a = "FreeLosslessAudioCodec" if d[:4] == b"fLaC" else "Mpeg12AudioLayer3" if d[0] == 0xFF and d[1] in (0xE2, 0xE3, 0xF2, 0xF3, 0xFA, 0xFB) else "Id3v2"
                out.append(Item(f"other data {c!r}", at((0, d)), None, None, a))
        return out


# ---------------------------------------------------------------- EBML

def vint(n, w, open_bytes=0):
    v = n | 1 << 7 * w
    return list(v.to_bytes(w, "big"))


MASTERS = {"EBML": 0x1A45DFA3, "Segment": 0x18538067, "Tracks": 0x1654AE6B, "TrackEntry": 0xAE, "Video": 0xE0}


def eid(x):
    return list(x.to_bytes((x.bit_length() + 7) // 8, "big"))


class Ebml(Spec):
    name = "EBML elements"
    function = "from_ebml_reader"
    limit = 256

    def probe(self):
        return ("element ec, size of 1 bytes", "element Tracks, size of 1 bytes")

    def items(self, regime):
        out = []

        def sized(name, id, val, w, body=b"", mark=None, answer=None, stop=False, master=False, open=0):
            i = eid(id)
            sz = vint(val, w)
            for k in range(open):
                sz[w - 1 - k] = None
            h = len(i) + w
            def nx(env, P):
                if master:
                    return [P + h]
                s = env.intat(F, env.lin(P) + len(i), w, "be") - (1 << 7 * w)
                return [P + h + s]
            out.append(Item(f"{name}, size of {w} bytes" + (f" ({val:#x})" if not open and val > 127 or val in (0,) else ""), at((0, i), (len(i), sz), (h, list(body))), None if answer or stop else nx, mark, answer, stop))

        for b in (0x00, 0x01, 0x07, 0x08, 0x0F):
            out.append(Item(f"identifier of invalid length, first byte {b:#04x}", at((0, [b, 0x81, 0x85, 0x81, 0x82, 0x83, 0x84])), None, None, GENERIC_ANSWER))
        out.append(Item("size of invalid length", at((0, [0xEC, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10])), None, None, GENERIC_ANSWER))
        for w in range(1, 9):
            val, op = (5, 0) if w == 1 else (0x100, 1) if w == 2 or not regime["wide"] else (1 << 16, 2) if w == 3 else (1 << 24, 3)
            for n, id in MASTERS.items():
                sized(f"element {n}", id, val, w, master=True, open=op)
            for id in (0xEC, 0xBF, 0xD7, 0x81, 0x4286, 0x42F7, 0x42F2, 0x7BA9, 0x4DBB, 0x2AD7B1, 0x3E83BB, 0x22B59C, 0x1549A966, 0x114D9B74, 0x1C53BB6B, 0x1254C367, 0x53B9, 0x4283, 0x1654AE6C, 0x10000000, 0x1FFFFFFF, 0xFF, 0x80):
                sized(f"element {id:x}", id, val, w, open=op)
            for cid, mark in ((b"A_AAC", "audio"), (b"V_VP8", "video"), (b"S_TEXT/UTF8", "subtitle"), (b"B_VOBBTN", None), (b"a_AAC", None), (b"AB", None), (b"VX_", None), (b"S-", None), (b"_A_", None), (b"A_", "audio"), (b"V_", "video"), (b"S_", "subtitle"), (b"A", None), (b"", None)):
                sized(f"codec {cid.decode()}", 0x86, len(cid), w, cid, mark)
                if len(cid) > 2 and w > 1:
                    sized(f"long codec {cid.decode()}", 0x86, 0x100, w, cid, mark, open=1)
                    sized(f"codec {cid.decode()} of 64 bytes", 0x86, 64, w, cid, mark)
                    sized(f"codec {cid.decode()} of 65 bytes", 0x86, 65, w, cid, mark)
            for dt, ans in ((b"matroska", None), (b"webm", "Webm"), (b"webm\0\0\0\0", "Webm"), (b"matroske", "ExtensibleBinaryMetaLanguage"), (b"Matroska", "ExtensibleBinaryMetaLanguage"), (b"webx", "ExtensibleBinaryMetaLanguage"), (b"other", "ExtensibleBinaryMetaLanguage"), (b"Webm", "ExtensibleBinaryMetaLanguage")):
                sized(f"document type {dt.decode()}", 0x4282, len(dt), w, dt, answer=ans)
            sized("document type matroska, padded", 0x4282, 13, w, b"matroska\0\0\0\0\0")
            for sm in range(0, 15):
                sized(f"stereo mode {sm}", 0x53B8, 1, w, bytes([sm]), answer="Matroska3dVideo" if sm else None)
            sized("stereo mode 0 in 2 bytes", 0x53B8, 2, w, bytes([0, 0]))
            sized("stereo mode 3 in 2 bytes", 0x53B8, 2, w, bytes([0, 3]), answer="Matroska3dVideo")
            sized("stereo mode 3 in 8 bytes", 0x53B8, 8, w, bytes([0] * 7 + [3]), answer="Matroska3dVideo")
            sized("stereo mode 0 in 8 bytes", 0x53B8, 8, w, bytes(8))
            if w > 1:
                # longer than what is looked at, sizes with and without low bits
                for v in (0x100, 0x101, 0x104, 20, 9):
                    sized("document type matroska, padded", 0x4282, v, w, b"matroska\0\0\0\0")
                    sized("document type webm, padded", 0x4282, v, w, b"webm\0\0\0\0\0\0\0\0", answer="Webm")
                    sized("document type of another kind, padded", 0x4282, v, w, b"webx\0\0\0\0\0\0\0\0", answer="ExtensibleBinaryMetaLanguage")
                for v in (9, 20):
                    sized("stereo mode 0, padded", 0x53B8, v, w, bytes(12))
            if regime["wide"] and w > 4:
                sized("very long document type matroska", 0x4282, 0x81 << 24, w, b"matroska\0\0\0\0", open=2)
                sized("very long stereo mode 0", 0x53B8, 0x81 << 24, w, bytes(12), open=2)
            sized("element Cluster", 0x1F43B675, val, w, stop=True, open=op)
            sized("element void", 0xEC, 0, w)
            if regime["wide"] and w > 4:
                for v in (0x81 << 24, 0x01 << 32, 0xF2 << 32, 0x4380 << 24) if w > 5 else (0x81 << 24,):
                    sized("large element void", 0xEC, v, w, open=2)
                    sized("large codec A_AAC", 0x86, v, w, b"A_AAC", "audio", open=2)
        return out

    def novel(self, consts, regime):
        out = []
        known = set(MASTERS.values()) | {0x86, 0x4282, 0x53B8, 0x1F43B675}

        def sized(name, i, body, answer=None, mark=None):
            sz = vint(0x4000 if not body else len(body), 3)
            if not body:
                sz[2] = None
            nx = lambda env, P: [P + len(i) + 3 + env.intat(F, env.lin(P) + len(i), 3, "be") - (1 << 21)]
            out.append(Item(name, at((0, i), (len(i), sz), (len(i) + 3, list(body))), None if answer else nx, mark, answer))
        for c in consts:
            if len(c) <= 4 and 9 - c[0].bit_length() == len(c) and int.from_bytes(c, "big") not in known:
                sized(f"element {c.hex()}", list(c), b"")
            if len(c) <= 64:
                mark = {b"A_": "audio", b"V_": "video", b"S_": "subtitle"}
                for n in (c, c + b"x"):
                    sized(f"codec {n!r}", [0x86], n, None, mark.get(n[:2]))
                    if not n.startswith(b"matroska"):
                        sized(f"document type {n!r}", [0x42, 0x82], n, "Webm" if n.startswith(b"webm") else "ExtensibleBinaryMetaLanguage")
                    else:
                        sized(f"document type {n!r}", [0x42, 0x82], n)
        return out

    def ends(self, regime):
        return [("end of the content", None, True)]

    def answer(self, m):
        return "MatroskaVideo" if "video" in m else "MatroskaAudio" if "audio" in m else "MatroskaSubtitles" if "subtitle" in m else "ExtensibleBinaryMetaLanguage"


# ---------------------------------------------------------------- ZIP

from identifiers import ZIP_NAMES, ZIP_MIMES, CLSIDS
from state import pc_list
from partial import trim

EOCD, LOCATOR, WINDOW = b"PK\x05\x06", b"PK\x06\x07", 65557
ZIP_RULES = [
    ("Autodesk123d", ["Fusion[Active]/", "Fusion[Active]/a/b.smt"], ["Fusion[Active]", "fusion[Active]/x", "a/Fusion[Active]/x"]),
    ("CircuitDiagramDocument", ["circuitdiagram/", "circuitdiagram/Document.xml"], ["circuitdiagram", "x/circuitdiagram/"]),
    ("DesignWebFormatXps", ["dwf/", "dwf/documents/a.xml"], ["dwf", "dwfx/a", "a/dwf/"]),
    ("FictionbookZip", ["book.fb2", ".fb2", "a b.c.fb2"], ["books/book.fb2", "book.fb2.bak", "book.FB2", "bookfb2", "/book.fb2", "book.fb2/"]),
    ("Fusion360", ["FusionAssetName[Active]/", "FusionAssetName[Active]/Breps/a.smbh"], ["FusionAssetName[Active]", "FusionAssetName/Active"]),
    ("IosAppStorePackage", ["Payload/App.app/", "Payload/App.app/Info.plist", "Payload/.app/"], ["Payload/", "Payload/App/Info.plist", "App.app/Payload", "Payload/a.app", "x/Payload/App.app/Info.plist"]),
    ("OfficeOpenXmlDocument", ["word/", "word/document.xml"], ["word", "words/a.xml", "Word/document.xml", "a/word/document.xml", "xword/"]),
    ("OfficeOpenXmlDrawing", ["visio/", "visio/document.xml"], ["visio", "visios/", "x/visio/"]),
    ("OfficeOpenXmlPresentation", ["ppt/", "ppt/presentation.xml"], ["ppt", "pptx/a.xml", "a/ppt/"]),
    ("OfficeOpenXmlSpreadsheet", ["xl/", "xl/workbook.xml"], ["xl", "xls/a.xml", "a/xl/", "XL/a"]),
    ("Openxps", ["Documents/1/Pages/1.fpage", "Documents/.fpage"], ["Documents/1/FixedDocument.fdoc", "Documents", "Docs/1.fpage", "a/Documents/1.fpage", "Documents/1.fpage.rels"]),
    ("SpaceclaimDocument", ["SpaceClaim/", "SpaceClaim/Geometry/a.bin"], ["SpaceClaim", "spaceclaim/"]),
    ("ThreeDimensionalManufacturingFormat", ["3D/3dmodel.model", "3D/.model"], ["3D/Textures/a.png", "3d/a.model", "a/3D/b.model", "3D/a.model.rels", "3D"]),
    ("UniversalSceneDescriptionZip", ["a.usd", "a.usda", "a.usdc", ".usd"], ["d/a.usd", "d/a.usda", "d/a.usdc", "a.usdz", "a.usdx", "a.usd.txt", "ausd"]),
]


def zip_name(n):
    """The answer that an entry of this name decides ("jar": recorded only)."""
    if n in ZIP_NAMES:
        return ZIP_NAMES[n]
    if n == "META-INF/MANIFEST.MF":
        return "jar"
    for p, e, a in ZIP_FOLDERS:
        if n.startswith(p) and n.endswith(e) and (a != "IosAppStorePackage" or ".app/" in n):
            return a
    if "/" not in n:
        if n.endswith(".fb2"):
            return "FictionbookZip"
        if n.endswith((".usd", ".usda", ".usdc")):
            return "UniversalSceneDescriptionZip"
    return None


ZIP_FOLDERS = [("Fusion[Active]/", "", "Autodesk123d"), ("circuitdiagram/", "", "CircuitDiagramDocument"), ("dwf/", "", "DesignWebFormatXps"),
               ("FusionAssetName[Active]/", "", "Fusion360"), ("Payload/", "", "IosAppStorePackage"), ("word/", "", "OfficeOpenXmlDocument"),
               ("visio/", "", "OfficeOpenXmlDrawing"), ("ppt/", "", "OfficeOpenXmlPresentation"), ("xl/", "", "OfficeOpenXmlSpreadsheet"), ("Documents/", ".fpage", "Openxps"),
               ("SpaceClaim/", "", "SpaceclaimDocument"), ("3D/", ".model", "ThreeDimensionalManufacturingFormat")]
ZIP_PLAIN = ["[Content_Types].xml", "_rels/.rels", "docProps/app.xml", "a.txt", "META-INF/", "META-INF/container.xml", "META-INF/manifest.xml", "META-INF/MANIFEST.MFX", "meta-inf/manifest.mf",
             "x/META-INF/MANIFEST.MF", "AndroidManifest.xm", "AndroidManifest.xmlx", "res/AndroidManifest.xml", "androidmanifest.xml", "a/mimetype", "mimetypes", "Mimetype", "classes.dex", "x"]


class Zip(Spec):
    name = "ZIP central directory entries"
    function = "from_zip_reader"
    limit = 1024

    def regimes(self):
        fixed = lambda n: {"name": f"content of {n} bytes", "len": (n, n), "base": (0, 2000), "wide": False}
        return [fixed(n) for n in (WINDOW - 1, WINDOW, WINDOW + 1)]

    def found(self, e):
        out = {}
        for o in [l for l in e["entry"].ineqs] + pc_list(e["entry"].pc) + [e["entry"].streams[F].pos]:
            for s in syms_of_obj(o, set()) if o is not None else ():
                if s.kind == "found" and s.key[2] == EOCD and s.key[0] and s.key[0][0] == "has":
                    out[s] = s.key
        return out

    def header(self, env, count, e, outer=None):
        fs = self.found(e)
        if len(fs) != 1:
            env.problem = f"the end record is not located by one search ({len(fs)} found)"
            return
        s, key = next(iter(fs.items()))
        has, which = key[0], key[1]
        n = lin(stream_len(F)) if not env.fixed() else Lin(env.length[0])
        pos, size = env.lin(has[2]), env.lin(has[3])
        big = env.length[0] >= WINDOW
        want = n - WINDOW if big else ZERO
        below = want - pos
        end = pos + size - n
        # the search must reach from the window's start (or before) to the end of the content
        if which != "last" or env.rng(below)[0] < 0 or env.rng(end)[0] < 0:
            env.problem = f"the end record is the {which} one from {pos} on, {size} bytes"
        lo = env.rng(below)[0]
        env.ranges[s] = (lo + 100, lo + WINDOW - 22) if big and not env.fixed() else (3000, min(env.length[0], 29000))
        E = pos + lin(s)
        env.put(E, at((0, EOCD)))
        if count is None:
            return
        kind, c = count
        if kind == "plain":
            env.put(E, at((-20, b"\0\0\0\0"), (10, exact(c, 2, "le"))))
        else:
            # the counts of the plain record are saturated
            env.put(E, at((-20, LOCATOR), (10, b"\xff\xff"), (16, b"\xff\xff\xff\xff")))
            R = stream_int(F, env.lin(E - 12), 8, "le")
            env.ranges[R] = (1000, 1 << 40) if env.length[0] > 1 << 60 else (100, 2500)
            env.put(lin(R), at((32, exact(c, 8, "le"))))
            env.second = lin(R)
        env.end = E

    def first(self, env, e, outer=None):
        if getattr(env, "end", None) is None:
            return Lin(-1)
        R = getattr(env, "second", None)
        return env.intat(F, env.lin(env.end) + 16, 4, "le") if R is None else env.intat(F, env.lin(R) + 48, 8, "le")

    def counts(self, regime):
        out = [(("plain", 0x0102), 0x0102), (("zip64", 0x0102), 0x0102), (("plain", 1), 1), (("zip64", 1), 1), (("plain", 0xFFFE), 0xFFFE)]
        return out + [(("zip64", 1 << 33), 1 << 33)] if regime["wide"] else out[:4]

    def probe(self):
        return ("entry a.txt",)

    def items(self, regime):
        def nx(env, P):
            return [P + 46 + u(env, P, 28, 2, "le") + u(env, P, 30, 2, "le") + u(env, P, 32, 2, "le")]

        def local(data, extra=None):
            def more(env, P):
                L = env.lin(u(env, P, 42, 4, "le"))
                env.put(L, at((26, exact(8, 2, "le")), (28, [None, 0] if extra is None else exact(extra, 2, "le")), (30, b"mimetype")))
                env.put(L + 38 + env.lin(env.intat(F, L + 28, 2, "le")), at((0, data)))
            return more

        out = []

        def entry(label, name, answer=None, mark=None, sizes=(None, None), more=None, ex=[None, 1], co=[None, 2], lo=None):
            b = name if isinstance(name, bytes) else name.encode()
            body = at((0, b"PK\x01\x02"), (28, exact(len(b), 2, "le")), (30, ex), (32, co), (46, b))
            for o, s in zip((20, 24), sizes):
                if s is not None:
                    body.update(at((o, exact(s, 4, "le"))))
            body.update(at((42, lo or ([None, None, 0, 0] if regime["wide"] else [None, 3, 0, 0]))))
            out.append(Item(label, body, None if answer else nx, mark, answer, more=more))

        for n, a in ZIP_NAMES.items():
            entry(f"entry {n}", n, a)
            for k in (0, len(n) // 2, len(n) - 1):
                entry(f"entry {n} with byte {k} changed", near(n.encode(), k))
            entry(f"entry in a folder: {n}", "x/" + n)
            entry(f"entry {n} with a suffix", n + "0")
        for a, yes, no in ZIP_RULES:
            for n in yes:
                entry(f"entry {n}", n, a)
            for n in no:
                entry(f"entry {n}", n)
        for n in ZIP_PLAIN:
            entry(f"entry {n}", n)
        entry("entry without name", "")
        entry("entry with a long name", "folder/" * 40 + "a.txt")
        entry("entry with a name that is not text", b"\xff\xfe/a")
        if regime["wide"]:
            entry("entry with a long extra field and a long comment", "a/long.txt", ex=[None, 0xC0], co=[None, 0x80])
            entry("entry with a long extra field", "a/long.txt", ex=[None, 0xFF], co=[None, 0])
            entry("entry with a long comment", "a/long.txt", ex=[None, 0], co=[None, 0xFF])
            entry("entry with a long name and extra field", "a" * 300, ex=[None, 0xFF], co=[None, 0xFF])
        entry("entry META-INF/MANIFEST.MF", "META-INF/MANIFEST.MF", None, "jar")
        for m, a in ZIP_MIMES.items():
            d = m.encode()
            entry(f"type {m}", "mimetype", a, sizes=(len(d), len(d)), more=local(d))
            entry(f"type {m}, padded", "mimetype", a, sizes=(len(d) + 2, len(d) + 2), more=local(d + b"\r\n", 0))
            entry(f"type {m} with a byte changed", "mimetype", "Zip", sizes=(len(d), len(d)), more=local(near(d, len(d) - 3)))
            entry(f"type {m} with a suffix", "mimetype", "Zip", sizes=(len(d) + 2, len(d) + 2), more=local(d + b".x"))
            entry(f"compressed type {m}", "mimetype", None, sizes=(len(d) - 2, len(d)), more=local(d[:-2]))
            entry(f"compressed type {m}, longer than the type", "mimetype", None, sizes=(len(d) + 2, len(d)), more=local(d))
        if regime["wide"]:
            for m in ("application/epub+zip", "application/vnd.oasis.opendocument.text"):
                for lo in ([None, None, 0x80, 0x91], [None, None, 0xFF, 0x7F], [None, None, 0xFF, 0xFF], [None, 0, 1, 0]):
                    entry(f"type {m}, local header at .. .. {lo[2]:#x} {lo[3]:#x}", "mimetype", ZIP_MIMES[m], sizes=(len(m), len(m)), more=local(m.encode()), lo=lo)
        entry("type text/plain", "mimetype", "Zip", sizes=(10, 10), more=local(b"text/plain"))
        entry("empty type", "mimetype", "Zip", sizes=(0, 0), more=local(b""))
        return out

    def novel(self, consts, regime):
        if regime is not LONG:
            return []
        nx = lambda env, P: [P + 46 + u(env, P, 28, 2, "le") + u(env, P, 30, 2, "le") + u(env, P, 32, 2, "le")]
        out = []

        def entry(label, b, answer, mark=None, data=None):
            n = 0 if data is None else len(data)
            body = at((0, b"PK\x01\x02"), (28, exact(len(b), 2, "le")), (30, [None, 1]), (32, [None, 2]), (42, [None, None, 0, 0]), (46, b), (20, exact(n, 4, "le")), (24, exact(n, 4, "le")))

            def more(env, P):
                L = env.lin(u(env, P, 42, 4, "le"))
                env.put(L, at((26, exact(8, 2, "le")), (28, [0, 0]), (30, b"mimetype")))
                env.put(L + 38, at((0, data)))
            out.append(Item(label, body, None if answer else nx, mark, answer, more=more if data is not None else None))
        for c in consts:
            try:
                t = c.decode()
            except UnicodeDecodeError:
                continue
            for n in (t, t + "x", "x" + t, "x/" + t, t + "/x", t + "/", t.lower(), t.upper(), "/" + t, " " + t):
                if n != "mimetype":
                    a = zip_name(n)
                    entry(f"entry {n!r}", n.encode(), None if a == "jar" else a, "jar" if a == "jar" else None)
            for n in (t, " " + t, "\n" + t + " ", t + "\0", t + "x", t.upper(), t.split(";")[0] + ";x"):
                d = n.encode()
                if len(d) <= 256:
                    entry(f"type {n!r}", b"mimetype", ZIP_MIMES.get(trim(n, "both"), "Zip"), None, d)
        return out

    def answer(self, m):
        return "JavaArchive" if "jar" in m else "Zip"
