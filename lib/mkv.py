"""Matroska/WebM: builder and strict reader."""
from common import *
import zlib

ID = dict(EBML=0x1A45DFA3, Segment=0x18538067, SeekHead=0x114D9B74, Seek=0x4DBB, SeekID=0x53AB, SeekPosition=0x53AC, Info=0x1549A966, Tracks=0x1654AE6B, Chapters=0x1043A770,
          Attachments=0x1941A469, Tags=0x1254C367, Cues=0x1C53BB6B, Cluster=0x1F43B675, Void=0xEC, CRC=0xBF, Timecode=0xE7, Position=0xA7, PrevSize=0xAB, SimpleBlock=0xA3,
          BlockGroup=0xA0, Block=0xA1, BlockDuration=0x9B, CuePoint=0xBB, CueTime=0xB3, CueTrackPositions=0xB7, CueTrack=0xF7, CueClusterPosition=0xF1, CueRelativePosition=0xF0,
          CueDuration=0xB2, CueBlockNumber=0x5378, CueCodecState=0xEA, CueReference=0xDB, CueRefTime=0x96, CueRefCluster=0x97, Tag=0x7373, Targets=0x63C0, TargetTypeValue=0x68CA, TargetType=0x63CA, TagTrackUID=0x63C5, TagEditionUID=0x63C9,
          TagChapterUID=0x63C4, TagAttachmentUID=0x63C6, SimpleTag=0x67C8, TagName=0x45A3, TagLanguage=0x447A, TagLanguageBCP47=0x447B, TagDefault=0x4484, TagString=0x4487, TagBinary=0x4485,
          TrackEntry=0xAE, TrackNumber=0xD7, TrackUID=0x73C5, TrackType=0x83, FlagEnabled=0xB9, FlagDefault=0x88, FlagForced=0x55AA, FlagLacing=0x9C, Name=0x536E, Language=0x22B59C, LanguageBCP47=0x22B59D,
          CodecID=0x86, CodecPrivate=0x63A2, CodecName=0x258688, DefaultDuration=0x23E383, Video=0xE0, PixelWidth=0xB0, PixelHeight=0xBA, DisplayWidth=0x54B0, DisplayHeight=0x54BA, FlagInterlaced=0x9A,
          Audio=0xE1, SamplingFrequency=0xB5, OutputSamplingFrequency=0x78B5, Channels=0x9F, BitDepth=0x6264, TimecodeScale=0x2AD7B1, Duration=0x4489, Title=0x7BA9, MuxingApp=0x4D80,
          WritingApp=0x5741, DateUTC=0x4461, SegmentUID=0x73A4, EditionEntry=0x45B9, EditionUID=0x45BC, EditionFlagHidden=0x45BD, EditionFlagDefault=0x45DB, EditionFlagOrdered=0x45DD,
          ChapterAtom=0xB6, ChapterUID=0x73C4, ChapterTimeStart=0x91, ChapterTimeEnd=0x92, ChapterFlagHidden=0x98, ChapterFlagEnabled=0x4598, ChapterDisplay=0x80, ChapString=0x85,
          ChapLanguage=0x437C, ChapCountry=0x437E, AttachedFile=0x61A7, FileDescription=0x467E, FileName=0x466E, FileMimeType=0x4660, FileData=0x465C, FileUID=0x46AE,
          EBMLVersion=0x4286, EBMLReadVersion=0x42F7, EBMLMaxIDLength=0x42F2, EBMLMaxSizeLength=0x42F3, DocType=0x4282, DocTypeVersion=0x4287, DocTypeReadVersion=0x4285)
NAME = {v: k for k, v in ID.items()}

def idb(i):
    n = (i.bit_length() + 7) // 8
    return be(n, i)
def size(n, width=0):
    w = 1
    while n >= (1 << (7 * w)) - 1: w += 1
    w = max(w, width)
    return be(w, n | (1 << (7 * w)))
def el(name, *parts, w=0, unknown=False):
    i = ID[name] if isinstance(name, str) else name
    body = b"".join(parts)
    if unknown: return idb(i) + (b"\xff" if unknown == 1 and unknown is not True else b"\x01\xff\xff\xff\xff\xff\xff\xff") + body
    return idb(i) + size(len(body), w) + body
def u(name, v, width=None):
    return el(name, be(width or max(1, (v.bit_length() + 7) // 8), v))
def f(name, v, width=8): return el(name, struct.pack(">d" if width == 8 else ">f", v))
def s(name, v): return el(name, v.encode() if isinstance(v, str) else v)
def void(n, w=None):
    """Void element of n bytes in total (n >= 2)"""
    if w is None: w = 1 if n - 2 < 127 else 8
    return b"\xec" + be(w, (n - 1 - w) | (1 << (7 * w))) + b"\0" * (n - 1 - w)
def crc(body): return b"\xbf\x84" + le(4, zlib.crc32(body))

def ebml(doctype="matroska", ver=4, rver=2, idlen=4, slen=8, w=0, wide=None):
    return el("EBML", u("EBMLVersion", 1, wide), u("EBMLReadVersion", 1, wide), u("EBMLMaxIDLength", idlen, wide), u("EBMLMaxSizeLength", slen, wide), s("DocType", doctype), u("DocTypeVersion", ver, wide), u("DocTypeReadVersion", rver, wide), w=w)
def info(title=None, scale=1000000, dur=5000.0, mux="mux 1", wr="wr 1", extra=(), date=None):
    parts = [u("TimecodeScale", scale)]
    if dur is not None: parts.append(f("Duration", dur))
    if date is not None: parts.append(el("DateUTC", be(8, date & (2**64 - 1))))
    if title is not None: parts.append(s("Title", title))
    parts += [s("MuxingApp", mux), s("WritingApp", wr)] + list(extra)
    return el("Info", *parts)
def video(n=1, uid=1001, codec="V_MPEG4/ISO/AVC", w=320, h=240, name=None, lang=None, extra=(), private=b"\x01\x64\x00\x1e\xff\xe1\x00\x00\x00", default=None, enabled=None, forced=None, fps=None, vextra=()):
    p = [u("TrackNumber", n), u("TrackUID", uid), u("TrackType", 1)] + flags(enabled, default, forced)
    if fps: p.append(u("DefaultDuration", 1000000000 // fps))
    if name is not None: p.append(s("Name", name))
    if lang is not None: p.append(s("Language", lang))
    return el("TrackEntry", *p, s("CodecID", codec), el("CodecPrivate", private), el("Video", u("PixelWidth", w), u("PixelHeight", h), *vextra), *extra)
def audio(n=2, uid=1002, codec="A_AAC", rate=44100.0, ch=2, bits=None, name=None, lang=None, extra=(), private=b"\x12\x10", default=None, enabled=None, forced=None):
    p = [u("TrackNumber", n), u("TrackUID", uid), u("TrackType", 2)] + flags(enabled, default, forced)
    if name is not None: p.append(s("Name", name))
    if lang is not None: p.append(s("Language", lang))
    a = [f("SamplingFrequency", rate), u("Channels", ch)]
    if bits: a.append(u("BitDepth", bits))
    return el("TrackEntry", *p, s("CodecID", codec), *([el("CodecPrivate", private)] if private else []), el("Audio", *a), *extra)
def subtitle(n=3, uid=1003, codec="S_TEXT/UTF8", name=None, lang=None, extra=(), default=None, enabled=None, forced=None):
    p = [u("TrackNumber", n), u("TrackUID", uid), u("TrackType", 0x11)] + flags(enabled, default, forced)
    if name is not None: p.append(s("Name", name))
    if lang is not None: p.append(s("Language", lang))
    return el("TrackEntry", *p, s("CodecID", codec), *extra)
def flags(enabled, default, forced):
    out = []
    if enabled is not None: out.append(u("FlagEnabled", enabled))
    if default is not None: out.append(u("FlagDefault", default))
    if forced is not None: out.append(u("FlagForced", forced))
    return out
def simple(name, value=None, lang=None, default=None, binary=None, nested=(), bcp=None):
    p = [s("TagName", name)]
    if lang is not None: p.append(s("TagLanguage", lang))
    if bcp is not None: p.append(s("TagLanguageBCP47", bcp))
    if default is not None: p.append(u("TagDefault", default))
    if value is not None: p.append(s("TagString", value))
    if binary is not None: p.append(el("TagBinary", binary))
    return el("SimpleTag", *p, *nested)
def tag(*simples, level=50, ltype=None, tracks=(), editions=(), chapters=(), attachments=(), targets=True):
    t = []
    if level is not None: t.append(u("TargetTypeValue", level))
    if ltype is not None: t.append(s("TargetType", ltype))
    for x in tracks: t.append(u("TagTrackUID", x))
    for x in editions: t.append(u("TagEditionUID", x))
    for x in chapters: t.append(u("TagChapterUID", x))
    for x in attachments: t.append(u("TagAttachmentUID", x))
    return el("Tag", *([el("Targets", *t)] if targets else []), *simples)
def attachment(name="a.png", mime="image/png", data=b"x", uid=77, desc=None, extra=()):
    return el("AttachedFile", *([s("FileDescription", desc)] if desc is not None else []), s("FileName", name), s("FileMimeType", mime), el("FileData", data), u("FileUID", uid), *extra)
def chapter(uid, start, end=None, names=(("eng", "Ch"),), hidden=None, enabled=None, nested=()):
    return el("ChapterAtom", u("ChapterUID", uid), u("ChapterTimeStart", start), *([u("ChapterTimeEnd", end)] if end is not None else []), *([u("ChapterFlagHidden", hidden)] if hidden is not None else []), *([u("ChapterFlagEnabled", enabled)] if enabled is not None else []), *[el("ChapterDisplay", s("ChapString", n), s("ChapLanguage", l)) for l, n in names], *nested)
def edition(*chs, uid=500, default=None, hidden=None, ordered=None):
    return el("EditionEntry", u("EditionUID", uid), *([u("EditionFlagHidden", hidden)] if hidden is not None else []), *([u("EditionFlagDefault", default)] if default is not None else []), *([u("EditionFlagOrdered", ordered)] if ordered is not None else []), *chs)

def block(track, t, data, flags=0x80): return el("SimpleBlock", bytes([0x80 | track]) + be(2, t & 0xFFFF) + bytes([flags]) + data)
def group(track, t, data, dur=None, extra=()): return el("BlockGroup", el("Block", bytes([0x80 | track]) + be(2, t & 0xFFFF) + b"\0" + data), *([u("BlockDuration", dur)] if dur else []), *extra)

class Cluster:
    """position / prevsize: None or byte width of the stored value; crc: whether a checksum is stored; voids: list of (index before which a Void is put, size)"""
    def __init__(self, time, blocks, position=None, prevsize=None, crc=False, void_first=0, unknown=False, width=0, void_mid=0):
        self.__dict__.update(locals())
    def render(self, pos, prev):
        head = [u("Timecode", self.time)]
        if self.position: head.append(u("Position", pos, self.position if isinstance(self.position, int) and self.position > 1 else None))
        if self.prevsize: head.append(u("PrevSize", prev, 4))
        parts = head + ([void(self.void_first)] if self.void_first else [])
        for i, b in enumerate(self.blocks):
            if self.void_mid and i == len(self.blocks) // 2: parts.append(void(self.void_mid))
            parts.append(b)
        body = b"".join(parts)
        if self.crc: body = crc(body) + body
        # relative offsets of the blocks
        rel, off = [], (6 if self.crc else 0)
        for p in parts:
            if p[0] in (0xA3, 0xA0): rel.append(off)
            off += len(p)
        return el("Cluster", body, unknown=self.unknown, w=self.width), rel

def clusters(n=3, nblocks=6, size=300, seed=1, tracks=(1, 2), **kw):
    out = []
    for i in range(n):
        bl = []
        for j in range(nblocks):
            t = tracks[j % len(tracks)]
            d = noise(seed * 10000 + i * 100 + j, size + j * 7)
            bl.append(block(t, j * 20, d) if j % 3 else group(t, j * 20, d, 20))
        out.append(Cluster(i * 1000, bl, **kw))
    return out

def segment(items, cl=(), cues=None, seek=None, segpos=0, crc32=False, unknown=False, width=0, base=0):
    """items: list of entries in file order: bytes (raw level 1 element), "clusters", "cluster:K", "cues", "seek".
    cues: list of (time, track, cluster index, block index or None [, extra]); seek: list of element names to be indexed."""
    W = 4
    def cues_el(cpos, crel):
        pts = []
        for c in cues:
            t, tr, ci, bi = c[:4]
            ps = [u("CueTrack", tr), u("CueClusterPosition", cpos[ci], c[5] if len(c) > 5 and c[5] else None)]
            if bi is not None: ps.append(u("CueRelativePosition", crel[ci][bi]))
            if len(c) > 4 and c[4]: ps += list(c[4])
            pts.append(el("CuePoint", u("CueTime", t), el("CueTrackPositions", *ps)))
        return el("Cues", *pts)
    cpos, crel = {i: 0 for i in range(len(cl))}, {i: [0] * 100 for i in range(len(cl))}
    pos_of = {}
    for _ in range(12):
        out, p, k, prev = [], (6 if crc32 else 0) + base, 0, 0
        npos, ncpos, ncrel = {}, {}, {}
        flat = []
        for it in items:
            if it == "clusters": flat += ["cluster:%d" % i for i in range(len(cl))]
            else: flat.append(it)
        for it in flat:
            if isinstance(it, bytes):
                b = it
                name = NAME.get(read_id(it, 0)[0], "?")
            elif it == "seek":
                b = el("SeekHead", *[el("Seek", el("SeekID", idb(ID[x] if isinstance(x, str) else x)), u("SeekPosition", pos_of.get(x, 0), W)) for x in seek])
                name = "SeekHead"
            elif it == "cues": b = cues_el(cpos, crel); name = "Cues"
            elif it.startswith("cluster:"):
                i = int(it.split(":")[1]); b, rel = cl[i].render(p, prev)
                ncpos[i], ncrel[i] = p, rel; name = "Cluster"; prev = len(b)
            npos.setdefault(name, p)
            out.append(b); p += len(b)
        same = (npos == pos_of and ncpos == cpos and ncrel == crel)
        pos_of, cpos, crel = npos, ncpos or cpos, ncrel or crel
        if same: break
    body = b"".join(out)
    if crc32: body = crc(body) + body
    return el("Segment", body, unknown=unknown, w=width)

# ------------------------------------------------------------------ strict reader
def read_id(b, p):
    if p >= len(b): raise Bad("ebml-truncated")
    c = b[p]; n = 1; m = 0x80
    while n <= 4 and not c & m: n += 1; m >>= 1
    if n > 4: raise Bad("ebml-id", "at %d" % p)
    if p + n > len(b): raise Bad("ebml-truncated")
    return int.from_bytes(b[p:p + n], "big"), n
def read_size(b, p):
    if p >= len(b): raise Bad("ebml-truncated")
    c = b[p]; n = 1; m = 0x80
    while n <= 8 and not c & m: n += 1; m >>= 1
    if n > 8: raise Bad("ebml-size", "at %d" % p)
    if p + n > len(b): raise Bad("ebml-truncated")
    v = int.from_bytes(b[p:p + n], "big") & ((1 << (7 * n)) - 1)
    return (-1 if v == (1 << (7 * n)) - 1 else v), n
MASTER = {ID[x] for x in "EBML Segment SeekHead Seek Info Tracks TrackEntry Video Audio Chapters EditionEntry ChapterAtom ChapterDisplay Attachments AttachedFile Tags Tag Targets SimpleTag Cues CuePoint CueTrackPositions CueReference Cluster BlockGroup".split()}
TOP1 = {ID[x] for x in "SeekHead Info Tracks Chapters Attachments Tags Cues Cluster".split()}
class El:
    __slots__ = ("id", "off", "hdr", "size", "kids", "b", "unknown", "end")
    @property
    def data(self): return self.b[self.off + self.hdr:self.end]
    def kid(self, n): return next((k for k in self.kids if k.id == ID[n]), None)
    def all(self, n): return [k for k in self.kids if k.id == ID[n]]
    def uint(self): return int.from_bytes(self.data, "big")
def parse(b, off, end, parent=None, depth=0):
    out = []
    while off < end:
        i, n = read_id(b, off)
        if parent == ID["Cluster"] and depth and i in TOP1: break    # end of a cluster of unknown size
        sz, m = read_size(b, off + n)
        e = El(); e.id, e.off, e.hdr, e.b, e.kids, e.unknown = i, off, n + m, b, [], sz < 0
        if sz < 0:
            if i not in (ID["Segment"], ID["Cluster"]): raise Bad("ebml-unknown-size", "%x" % i)
            stop = end
        else:
            stop = off + n + m + sz
            if stop > end: raise Bad("ebml-child-exceeds-parent", "%x at %d: %d > %d" % (i, off, stop, end))
        if i in MASTER:
            e.kids = parse(b, off + n + m, stop, i, 1 if sz < 0 else 0)
            if sz < 0 and i == ID["Cluster"]: stop = e.kids[-1].end if e.kids else off + n + m
            if sz < 0 and i == ID["Segment"]: pass
        e.end = stop; e.size = stop - off
        out.append(e)
        off = stop
    return out

UINT = {ID[x] for x in "TrackNumber TrackUID TrackType FlagEnabled FlagDefault FlagForced FlagLacing DefaultDuration PixelWidth PixelHeight DisplayWidth DisplayHeight FlagInterlaced Channels BitDepth TimecodeScale EditionUID EditionFlagHidden EditionFlagDefault EditionFlagOrdered ChapterUID ChapterTimeStart ChapterTimeEnd FileUID TagDefault TargetTypeValue EBMLVersion EBMLReadVersion EBMLMaxIDLength EBMLMaxSizeLength DocTypeVersion DocTypeReadVersion CueTime CueTrack CueDuration CueBlockNumber BlockDuration Timecode CueRefTime".split()}
def nm(i): return NAME.get(i, "%X" % i)
def digest(e):
    if e.id in UINT: return "%s=%d" % (nm(e.id), e.uint())
    if e.kids: return "%s(%s)" % (nm(e.id), ",".join(sorted(digest(k) for k in e.kids if k.id not in (ID["Void"], ID["CRC"]))))
    d = e.data
    if e.id in (ID["Name"], ID["Language"], ID["CodecID"], ID["DocType"], ID["FileName"], ID["Title"], ID["LanguageBCP47"], ID["CodecName"]): return "%s=%s" % (nm(e.id), esc(d.rstrip(b"\0")))
    return "%s:%d:%s" % (nm(e.id), len(d), tok(d, 8))
def simple_value(st, errs):
    """(name, value text) of a SimpleTag"""
    n = st.kid("TagName")
    name = esc(n.data.rstrip(b"\0")) if n else ""
    v, attrs = "", []
    for k in st.kids:
        x = k.id
        if x == ID["TagName"]: pass
        elif x == ID["TagString"]:
            d = k.data.rstrip(b"\0")
            try: d.decode()
            except UnicodeDecodeError: errs.append("mkv-not-utf8")
            v = esc(d)
        elif x == ID["TagBinary"]: v = "bin:%d:%s" % (len(k.data), tok(k.data))
        elif x == ID["TagLanguage"]:
            if k.data != b"und": attrs.append("lang=" + esc(k.data))
        elif x == ID["TagLanguageBCP47"]: attrs.append("bcp=" + esc(k.data))
        elif x == ID["TagDefault"]:
            if k.uint() != 1: attrs.append("def=%d" % k.uint())
        elif x == ID["SimpleTag"]:
            a, c = simple_value(k, errs); attrs.append("%s>%s" % (a, c))
        elif x in (ID["Void"], ID["CRC"]): pass
        else: attrs.append("el:" + digest(k))
    return name, v + ("{%s}" % ";".join(attrs) if attrs else "")

DEFAULTS = ("FlagEnabled=1", "FlagDefault=1", "FlagForced=0", "Language=eng")    # same meaning as an absent element
def check_crc(e, errs):
    for i, k in enumerate(e.kids):
        if k.id == ID["CRC"]:
            if i: errs.append("mkv-crc-not-first")
            if k.size != 6: errs.append("mkv-crc-size")
            elif zlib.crc32(e.b[k.end:e.end]) != int.from_bytes(k.data, "little"): errs.append("mkv-crc")
        check_crc(k, errs)

def project(b):
    r = new_proj("mkv")
    r["size"], r["sha"] = len(b), tok(b, 16)
    try:
        tops = parse(b, 0, len(b))
        if not tops or tops[0].id != ID["EBML"]: raise Bad("mkv-ebml-header")
        for k in tops[0].kids:
            if k.id not in (ID["Void"], ID["CRC"]): r["others"].append("ebml." + digest(k))
        segs = [t for t in tops if t.id == ID["Segment"]]
        if not segs: raise Bad("mkv-no-segment")
        for t in tops:
            check_crc(t, r["errs"])
            if t.id not in (ID["EBML"], ID["Segment"], ID["Void"], ID["CRC"]): r["others"].append("l0." + digest(t))
        order, cnum, padb, pada = [], 0, 0, 0
        base0 = segs[0].off + segs[0].hdr
        allclusters = [c for sg in segs for c in sg.all("Cluster")]
        l1 = {}
        for si, sg in enumerate(segs):
            sbase = sg.off + sg.hdr
            counts = {}
            for k in sg.kids:
                i = counts.get(k.id, 0); counts[k.id] = i + 1
                if si == 0: l1[k.off - sbase] = (k, i)
                l1.setdefault(("seg", si, k.off - sbase), (k, i))
            firstc = next((k for k in sg.kids if k.id == ID["Cluster"]), None)
            lastc = next((k for k in reversed(sg.kids) if k.id == ID["Cluster"]), None)
            def at(p, si=si):
                return l1.get(("seg", si, p))
            prev = 0
            cidx = {}
            for k in sg.kids:
                order.append(nm(k.id))
                if k.id == ID["Void"]:
                    if firstc is None or k.off < firstc.off: padb += k.size
                    elif k.off > lastc.off: pada += k.size
                elif k.id == ID["Info"]:
                    for x in k.kids:
                        if x.id == ID["MuxingApp"]: r["info"]["mux"] = esc(x.data)
                        elif x.id == ID["WritingApp"]: r["info"]["wr"] = esc(x.data)
                        elif x.id not in (ID["Void"], ID["CRC"]) and not (x.id == ID["Title"] and not x.data): r["others"].append("info%d.%s" % (si, digest(x)))
                elif k.id == ID["Tracks"]:
                    for x in k.kids:
                        if x.id == ID["TrackEntry"]:
                            n = x.kid("TrackNumber")
                            for y in x.kids:
                                if y.id not in (ID["Void"], ID["CRC"]) and digest(y) not in DEFAULTS and not (y.id == ID["Name"] and not y.data): r["others"].append("track%s.%s" % (n.uint() if n else "?", digest(y)))
                        elif x.id not in (ID["Void"], ID["CRC"]): r["others"].append("tracks.%s" % digest(x))
                elif k.id == ID["Chapters"]:
                    r["others"].append("chapters%d.%s" % (si, digest(k)))
                elif k.id == ID["Attachments"]:
                    if r["tagpos"] == "none" and firstc is not None: r["tagpos"] = "before" if k.off < firstc.off else "after"
                    for x in k.kids:
                        if x.id == ID["AttachedFile"]:
                            r["others"].append("att.%s" % digest(x))
                elif k.id == ID["Tags"]:
                    if firstc is not None: r["tagpos"] = "before" if k.off < firstc.off else "after"
                    for x in k.kids:
                        if x.id == ID["Tag"]:
                            tg = x.kid("Targets"); parts = []
                            level = 50
                            if tg:
                                for y in tg.kids:
                                    if y.id == ID["TargetTypeValue"]: level = y.uint()
                                    elif y.id == ID["TargetType"]: parts.append("name=" + esc(y.data))
                                    elif y.id in (ID["TagTrackUID"], ID["TagEditionUID"], ID["TagChapterUID"], ID["TagAttachmentUID"]):
                                        if y.uint(): parts.append("%s=%d" % ({0x63C5: "T", 0x63C9: "E", 0x63C4: "C", 0x63C6: "A"}[y.id], y.uint()))
                                    elif y.id not in (ID["Void"], ID["CRC"]): parts.append("el:" + digest(y))
                            fields = []
                            for y in x.all("SimpleTag"):
                                n, v = simple_value(y, r["errs"]); fields.append([n, [v]])
                            for y in x.kids:
                                if y.id not in (ID["Targets"], ID["SimpleTag"], ID["Void"], ID["CRC"]): fields.append(["el", [digest(y)]])
                            from vorbis import group as grp
                            r["tags"].append(dict(type="matroska", target="|".join(["level=%d" % level] + sorted(parts)), fields=grp(fields)))
                elif k.id == ID["SeekHead"]:
                    for x in k.all("Seek"):
                        sid, sp = x.kid("SeekID"), x.kid("SeekPosition")
                        if not sid or not sp: r["errs"].append("mkv-seek-incomplete"); continue
                        want = int.from_bytes(sid.data, "big")
                        hit = at(sp.uint())
                        if hit is None: r["refs"].append("seek:%s=nothing" % nm(want)); r["errs"].append("mkv-seek-dangling")
                        elif hit[0].id != want: r["refs"].append("seek:%s=%s" % (nm(want), nm(hit[0].id))); r["errs"].append("mkv-seek-wrong-element")
                        else: r["refs"].append("seek:%s#%d" % (nm(want), hit[1]))
                elif k.id == ID["Cues"]:
                    if firstc is not None: r["idxpos"] = "before" if k.off < firstc.off else "after"
                    for cp in k.all("CuePoint"):
                        tm = cp.kid("CueTime")
                        for tp in cp.all("CueTrackPositions"):
                            cpos, rel = tp.kid("CueClusterPosition"), tp.kid("CueRelativePosition")
                            d = "cue:%d.%d.t%d" % (si, tm.uint() if tm else -1, tp.kid("CueTrack").uint() if tp.kid("CueTrack") else -1)
                            hit = at(cpos.uint()) if cpos else None
                            if hit is None or hit[0].id != ID["Cluster"]:
                                r["errs"].append("mkv-cue-dangling"); d += "=nothing"
                            else:
                                d += "=c%d" % hit[1]
                                if rel is not None:
                                    c = hit[0]; o = c.off + c.hdr + rel.uint()
                                    x = next((y for y in c.kids if y.off == o), None)
                                    if x is None: d += "+nothing"; r["errs"].append("mkv-cue-relative-dangling")
                                    else: d += "+" + digest(x)
                            for y in tp.kids:
                                if y.id == ID["CueReference"]:
                                    rc = y.kid("CueRefCluster")
                                    if rc is not None:
                                        h2 = at(rc.uint())
                                        if h2 is None or h2[0].id != ID["Cluster"]: r["errs"].append("mkv-cue-ref-dangling"); d += ";ref=nothing"
                                        else: d += ";ref=c%d" % h2[1]
                                elif y.id in (ID["CueDuration"], ID["CueBlockNumber"], ID["CueCodecState"]): d += ";" + digest(y)
                            r["refs"].append(d)
                elif k.id == ID["Cluster"]:
                    parts = []
                    for x in k.kids:
                        if x.id in (ID["Void"], ID["CRC"]): continue
                        if x.id == ID["Position"]:
                            if x.uint() != k.off - sbase: r["errs"].append("mkv-cluster-position")
                            r["refs"].append("pos:c%d" % cnum)
                        elif x.id == ID["PrevSize"]:
                            if x.uint() != prev: r["errs"].append("mkv-cluster-prevsize")
                            r["refs"].append("prev:c%d" % cnum)
                        else: parts.append("%X:%d:%s" % (x.id, len(x.data), tok(x.data, 8)))
                    r["media"].append("c%d:%s" % (cnum, tok(";".join(parts).encode())))
                    r["media"] += ["c%d.%d=%s" % (cnum, j, p) for j, p in enumerate(parts)]
                    prev = k.size; cnum += 1
                elif k.id != ID["CRC"]:
                    r["others"].append("l1.%s" % digest(k))
        r["refs"].sort(); r["others"].sort()
        r["pad"] = padb
        r["info"].update(padbefore=padb, padafter=pada, order=",".join(order), segments=len(segs), firstcluster=(allclusters[0].off if allclusters else -1), ebmlhdr=tops[0].size, seghdr=segs[0].hdr)
        req = [n for n in ("Info",) if any(sg.kid(n) is None for sg in segs)]
        if req: r["errs"].append("mkv-mandatory-missing")
    except Bad as e:
        r["errs"].append(e.rule)
    except AttributeError as e:
        r["errs"].append("mkv-structure")
    r["errs"] = sorted(set(r["errs"]))
    return r
