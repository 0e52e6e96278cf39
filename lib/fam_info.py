"""Reported technical information (P15): descriptions of files exported by TLC from MCInfo are rendered by the independent writers below, parsed by the
real library, and what is reported is compared with the wanted information of Info by TLC (InfoTrace)."""
import json, random, struct
import flac, id3, misc, mkv, mp3, mp4, ogg, plans, tlc, vbuild, vorbis
from common import *
from runner import *
from urllib.parse import unquote

CFG = 'SPECIFICATION Spec\nCONSTANTS Fmt = "%s" Depth = %d\nVIEW View\nINVARIANTS Total ChoiceFree\n'
def big(a): return sum(x * 10000 ** i for i, x in enumerate(a))
def limbs(n):
    n = int(n)
    if n < 0: return [-1] + limbs(-n)
    r = [n % 10000]; n //= 10000
    while n: r.append(n % 10000); n //= 10000
    return r
def tx(s): return unquote(s)

# ---------------------------------------------------------------- writers
def r_mp3(d):
    f = mp3.frames(d["n"], 3, d["br"], d["sr"], d["mode"], version=d["ver"], layer=4 - d["layer"])
    if d["fpad"]: f = [bytes([x[0], x[1], x[2] | 2]) + x[3:] + (b"\0" if d["layer"] != 1 else b"\0" * 4) if i % 2 else x for i, x in enumerate(f)]
    if d["vbr"] != "none":
        n = big(d["xf"])
        x = d["vbr"].encode() + be(4, (1 if n else 0) | 2 * d["xb"] | 4 * d["toc"]) + (be(4, n) if n else b"") + (be(4, sum(map(len, f))) if d["xb"] else b"") + (bytes(range(100)) if d["toc"] else b"")
        o = (17 if d["mode"] == 3 else 32) if d["ver"] == 3 else (9 if d["mode"] == 3 else 17)
        f[0] = f[0][:4] + b"\0" * o + x + f[0][4 + o + len(x):] if len(f[0]) >= 4 + o + len(x) else None
    v2 = [id3.tag(d["v2"], [id3.frame(d["v2"], "TT2" if d["v2"] == 2 else "TIT2", id3.text_frame("T", 0))], d["pad"])] if d["v2"] else []
    return mp3.build(v2, id3.v1("Ti", "Ar", "Al", "2001", "co", 5, 17) if d["v1"] else None, mp3.ape_tag() if d["ape"] else b"", f, lead=b"\0" * d["lead"])
def r_aac(d):
    out = b""
    for i in range(d["frames"]):
        body = noise(i + 1, d["size"]) if d["size"] < 8000 else noise(i + 1, 8000)
        ln = 7 + 2 * d["crc"] + len(body)
        v = (0xFFF << 44) | (d["mpeg2"] << 43) | ((1 - d["crc"]) << 40) | (d["profile"] << 38) | (d["freq"] << 34) | (d["ch"] << 30) | (ln << 13) | (0x7FF << 2)
        out += be(7, v) + (b"\x12\x34" if d["crc"] else b"") + body
    return (id3.tag(4, [id3.frame(4, "TIT2", id3.text_frame("T", 3))], 20) if d["v2"] else b"") + out + (id3.v1("Ti", "Ar", "Al", "2001", "co", 5, 17) if d["v1"] else b"")
def chunk(n, b): return n + le(4, len(b)) + b + b"\0" * (len(b) % 2)
WCH = {"none": b"", "even": chunk(b"JUNK", b"\0" * 28), "odd": chunk(b"bext", b"x" * 31), "list": chunk(b"LIST", b"INFO" + chunk(b"ISFT", b"abc\0"))}
GUID = {"extpcm": 1, "extfloat": 3}
def r_wav(d):
    align = d["ch"] * d["bits"] // 8
    ext = d["tag"] in GUID
    f = le(2, 0xFFFE if ext else 3 if d["tag"] == "float" else 1) + le(2, d["ch"]) + le(4, d["rate"]) + le(4, d["rate"] * align) + le(2, align) + le(2, d["bits"])
    if ext: f += le(2, 22) + le(2, d["bits"]) + le(4, 3) + le(2, GUID[d["tag"]]) + bytes.fromhex("000000001000800000aa00389b71")
    elif d["fmtlen"] == 18: f += le(2, 0)
    data = bytes(d["n"] * align)
    body = b"WAVE" + WCH[d["junk"]] + chunk(b"fmt ", f) + chunk(b"data", data) + WCH[d["tail"]]
    return b"RIFF" + le(4, {"exact": len(body), "zero": 0, "max": 0xFFFFFFFF}[d["riff"]]) + body + (id3.v1("Ti", "Ar", "Al", "2001", "co", 5, 17) if d["v1"] else b"")
def r_wavmp3(d):
    data = b"".join(r_frames(d))
    f = le(2, 0x55) + le(2, 2) + le(4, 44100) + le(4, 16000) + le(2, 1) + le(2, 0) + (le(2, 12) + le(2, 1) + le(4, 2) + le(2, 417) + le(2, 1) + le(2, 1393) if d["fmtlen"] == 30 else le(2, 0))
    body = b"WAVE" + WCH[d["junk"]] + chunk(b"fmt ", f) + chunk(b"data", data)
    return b"RIFF" + le(4, len(body)) + body
def r_frames(d):
    f = mp3.frames(30, 3, d["br"], 0, 0)
    if d["vbr"] != "none":
        n = big(d["xf"]); x = d["vbr"].encode() + be(4, 1 if n else 0) + (be(4, n) if n else b"")
        f[0] = f[0][:4] + b"\0" * 32 + x + f[0][36 + len(x):]
    return f
def r_ivf(d):
    n = min(d["frames"], 20)
    fr = b"".join(le(4, 50 + i) + le(8, i) + noise(i, 50 + i) for i in range(n))
    return b"DKIF" + le(2, 0) + le(2, 32) + d["codec"].encode() + le(2, d["w"]) + le(2, d["h"]) + le(4, d["rate"]) + le(4, d["scale"]) + le(4, d["frames"]) + b"\0" * 4 + fr + (id3.v1("Ti", "Ar", "Al", "2001", "co", 5, 17) if d["v1"] else b"")
def r_flac(d):
    si = flac.streaminfo(d["rate"], d["ch"], d["bps"], big(d["samples"]), d["minb"], 4096, md5=(b"\x11" if d["md5"] else b"\0") * 16)
    vc = (flac.COMMENT, vorbis.comment([("TITLE", "T")]))
    # the padding counts the header of its block
    if d["pad"] >= 4:
        pads = [(flac.PADDING, b"\0" * (d["pad"] - 4))] if d["order"] != "split" else [(flac.PADDING, b"\0" * 996), (flac.PADDING, b"\0" * 3996)]
    else: pads = []
    rest = {"pc": pads + [vc], "cp": [vc] + pads, "p": pads, "c": [vc], "split": pads[:1] + [vc] + pads[1:]}[d["order"]]
    mid = ([(flac.SEEKTABLE, be(8, 0) + be(8, 0) + be(2, 4096))] if d["seek"] else []) + ([(flac.APPLICATION, b"appl" + b"x" * 9)] if d["app"] else [])
    if d["pic"]: rest = rest + [(flac.PICTURE, flac.picture(noise(4, 333)))]
    return flac.build([(flac.STREAMINFO, si)] + mid + rest, flac.audio(3, 5000), id3.tag(4, [id3.frame(4, "TIT2", id3.text_frame("T", 3))], 0) if d["v2"] else b"", id3.v1("Ti", "Ar", "Al", "2001", "co", 5, 17) if d["v1"] else b"")
def r_ogg(d):
    c, vendor, pad = d["codec"], "v" * d["vendor"], b"\0" * d["cpad"]
    body = lambda n: [((i + 1) * (d["total"] // n) if i < n - 1 else d["total"], noise(100 + i, d["psize"]), i % d["perpage"] == d["perpage"] - 1) for i in range(n)]
    if c == "vorbis":
        idh = b"\x01vorbis" + le(4, 0) + bytes([d["ch"]]) + le(4, d["rate"]) + le(4, min(d["br"], 0) & 0xFFFFFFFF) + le(4, d["br"] & 0xFFFFFFFF) + le(4, min(d["br"], 0) & 0xFFFFFFFF) + b"\xb8\x01"
        pk = [(0, idh, True), (0, ogg.vorbis_comment([("TITLE", "T")], vendor, pad), True), (0, ogg.vorbis_setup(5, d["setup"]), True)]
    elif c == "opus": pk = [(0, ogg.opus_head(d["ch"], d["rate"], d["preskip"]), True), (0, ogg.opus_tags([("TITLE", "T")], vendor, pad), True)]
    elif c == "flac": pk = [(0, ogg.flac_head(flac.streaminfo(d["rate"], d["ch"], d["bps"], d["total"]), 1), True), (0, ogg.flac_comment([("TITLE", "T")], vendor), True)]
    elif c == "theora": pk = [(0, b"\x80theora\3\2\1" + noise(1, 32), True), (0, b"\x81theora" + vorbis.comment([("TITLE", "T")], vendor), True), (0, b"\x82theora" + noise(2, 300), True)]
    else: pk = [(0, b"Speex   1.2.0" + b"\0" * 15 + le(4, 1) + le(4, 80) + le(4, d["rate"]) + b"\0" * 40, True), (0, vorbis.comment([("TITLE", "T")], vendor), True)]
    n = 30
    b = body(n)
    if d["nogranule"] and len(b) > 2: b[-1] = (b[-1][0], noise(9, 66000), True)   # the last packet needs several pages
    s = [ogg.Stream(5, pk + b)]
    if d["empty"]: s[0] = ogg.with_empty(s[0], 4)
    if d["second"]: s.append(ogg.vorbis_stream(9))
    return ogg.mux(*s)
def sps(profile, w, h):
    """a sequence parameter set: sizes in macro blocks, cropped"""
    bits = []
    def u(n, v): bits.extend((v >> (n - 1 - i)) & 1 for i in range(n))
    def ue(v): n = (v + 1).bit_length(); u(2 * n - 1, v + 1)
    cf = 2 if profile == 122 else 1
    u(8, 0x67); u(8, profile); u(8, 0); u(8, 30); ue(0)
    if profile in (100, 110, 122): ue(cf); ue(0); ue(0); u(1, 0); u(1, 0)
    ue(0); ue(2); ue(1); u(1, 0)
    mw, mh = (w + 15) // 16, (h + 15) // 16
    ue(mw - 1); ue(mh - 1); u(1, 1); u(1, 1)
    cr, cb = (mw * 16 - w) // 2, (mh * 16 - h) // (2 if cf == 1 else 1)
    u(1, 1 if cr or cb else 0)
    if cr or cb: ue(0); ue(cr); ue(0); ue(cb)
    u(1, 0); u(1, 1)
    bits.extend([0] * (-len(bits) % 8))
    b = bytes(int("".join(map(str, bits[i:i + 8])), 2) for i in range(0, len(bits), 8))
    return b
def avcc(profile, w, h):
    s = sps(profile, w, h)
    return bytes([1, profile, 0, 30, 0xFF, 0xE1]) + be(2, len(s)) + s + bytes([1]) + be(2, len(mp4.PPS)) + mp4.PPS
SUB = {"aac": "mp4a", "alac": "alac", "avc": "avc1", "hevc": "hev1", "av01": "av01", "text": "tx3g"}
def sample_entry(d):
    k = d["kind"]
    name, dref = SUB.get(k, k), b"\0" * 6 + be(2, 1)
    if k == "text": return mp4.atom(name, dref, b"\0" * 38)
    if k in ("avc", "hevc", "av01"):
        return mp4.atom(name, dref, b"\0" * 16, be(2, d["w"]), be(2, d["h"]), be(4, 0x480000), be(4, 0x480000), b"\0" * 4, be(2, 1), b"\0" * 32, be(2, 24), b"\xff\xff", mp4.atom("avcC", avcc(d["profile"], d["w"], d["h"])) if k == "avc" else b"")
    v = d["snd"]
    x = {0: b"", 1: be(4, 1024) + be(4, 2) * 3, 2: be(4, 72) + struct.pack(">d", d["rate"]) + be(4, d["ch"]) + be(4, 0x7F000000) + be(4, 16) + b"\0" * 12}[v]
    if v == 2: x = x[:36]
    conf = b""
    if k == "aac":
        if d["ascidx"] == 15: asc = be(5, (d["ascobj"] << 35) | (15 << 31) | (d["ascrate"] << 7) | (d["ascch"] << 3))
        else: asc = be(2, (d["ascobj"] << 11) | (d["ascidx"] << 7) | (d["ascch"] << 3))
        conf = mp4.esds(wide=bool(d["wide"]), cfg=asc)
    elif k == "alac": conf = mp4.full("alac", 0, 0, b"\0" * 24)
    elif k == "ac-3": conf = mp4.atom("dac3", b"\x10\x3d\xe0")
    return mp4.atom(name, dref, be(2, v), b"\0" * 6, be(2, d["ch"]), be(2, d["bps"]), b"\0" * 4, be(2, d["rate"]), b"\0\0", x, conf)
def mp4_trak(d, offs, samples, per):
    w = 8 if d["tkver"] else 4
    lim = lambda n: min(n, (1 << 8 * w) - 1)
    tkhd = mp4.full("tkhd", d["tkver"], d["flags"], be(w, lim(5)), be(w, lim(6)), be(4, big(d["id"])), b"\0" * 4, be(w, lim(big(d["mddur"]))), b"\0" * 16, mp4.MATRIX, be(4, 320 << 16), be(4, 240 << 16))
    m = 8 if d["mdver"] else 4
    mdhd = mp4.full("mdhd", d["mdver"], 0, be(m, big(d["ctime"])), be(m, big(d["mtime"])), be(4, big(d["ts"])), be(m, big(d["mddur"])), be(2, mp4.lang16(d["lang"])), b"\0\0")
    nm = tx(d["name"]).encode()
    k = d["kind"]
    hdlr = mp4.full("hdlr", 0, 0, b"\0" * 4, b"vide" if k in ("avc", "hevc", "av01") else b"text" if k == "text" else b"soun", b"\0" * 12, {"c": nm + b"\0", "pascal": bytes([len(nm)]) + nm, "bare": nm}[d["namef"]])
    mh = mp4.full("vmhd", 0, 1, b"\0" * 8) if k in ("avc", "hevc", "av01") else mp4.full("nmhd", 0, 0) if k == "text" else mp4.full("smhd", 0, 0, b"\0" * 4)
    sizes = [len(s) for s in samples]
    runs = []
    for i in range(0, len(sizes), per):
        n = len(sizes[i:i + per])
        if not runs or runs[-1][1] != n: runs.append((i // per + 1, n))
    if d["stz"] == "4":
        z = sizes + [0] * (len(sizes) % 2)
        stsz = mp4.full("stz2", 0, 0, be(4, 4), be(4, len(sizes)), bytes((z[i] << 4) | z[i + 1] for i in range(0, len(z), 2)))
    elif d["stz"] != "stsz": stsz = mp4.full("stz2", 0, 0, be(4, int(d["stz"])), be(4, len(sizes)), *[be(int(d["stz"]) // 8, x) for x in sizes])
    elif sizes and len(set(sizes)) == 1: stsz = mp4.full("stsz", 0, 0, be(4, sizes[0]), be(4, len(sizes)))
    else: stsz = mp4.full("stsz", 0, 0, be(4, 0), be(4, len(sizes)), *[be(4, x) for x in sizes])
    o = 8 if d["co64"] else 4
    x = [mp4.full("xtra", 0, 0, b"1234")] if d["extra"] else []
    stbl = mp4.atom("stbl", *x, mp4.full("stsd", 0, 0, be(4, 1), sample_entry(d)), mp4.full("stts", 0, 0, be(4, 1), be(4, len(sizes)), be(4, 1024)), mp4.full("stsc", 0, 0, be(4, len(runs)), *[be(4, a) + be(4, n) + be(4, 1) for a, n in runs]), stsz, mp4.full("co64" if o == 8 else "stco", 0, 0, be(4, len(offs)), *[be(o, v) for v in offs]))
    minf = mp4.atom("minf", mh, *x, mp4.atom("dinf", mp4.full("dref", 0, 0, be(4, 1), mp4.full("url ", 0, 1))), stbl)
    return mp4.atom("trak", *x, tkhd, *([mp4.atom("edts", mp4.full("elst", 0, 0, be(4, 1), be(4, 5), be(4, 0), be(4, 0x10000)))] if d["elst"] else []), mp4.atom("mdia", *x, mdhd, *([hdlr, minf] if not d["extra"] else [minf, hdlr])))
def r_mp4(d):
    ts = [dict(d)]
    if d["second"]: ts.append(dict(d, kind="alac", id=[7], lang="deu", name="second", namef="c", flags=7, n=4, sz=100, step=0, ctime=[0], mtime=[0], rate=48000, bps=16, ch=1, mddur=[6000, 9], ts=[8000, 4], stz="stsz", mdver=0, snd=0))
    data = [[noise(i, t["sz"] + (i * t["step"]) % 7) for i in range(1, t["n"] + 1)] for t in ts]
    m = 8 if d["mvver"] else 4
    mvhd = mp4.full("mvhd", d["mvver"], 0, be(m, big(d["mvctime"])), be(m, big(d["mvmtime"])), be(4, d["mvts"]), be(m, big(d["mvdur"])), be(4, 0x10000), be(2, 0x100), b"\0" * 10, mp4.MATRIX, b"\0" * 24, be(4, 99))
    udta = {"none": [], "tag": [mp4.atom("udta", mp4.meta(mp4.text(b"\xa9nam", "T")))], "empty": [mp4.atom("udta")]}[d["udta"]]
    def moov(offs): return mp4.atom("moov", mvhd, *[mp4_trak(t, offs[i], data[i], t["per"]) for i, t in enumerate(ts)], *udta)
    ftyp = mp4.atom("ftyp", d["brand"].encode(), be(4, 0), b"isom")
    offs = [[0] * len(range(0, t["n"], t["per"])) for t in ts]
    mdat = mp4.atom("mdat", *[s for x in data for s in x], large=bool(d["large"]))
    h = 16 if d["large"] else 8
    free = mp4.atom("free", b"\0" * (d["pad"] - 8)) if d["pad"] else b""
    start = (len(ftyp) + h) if d["order"] == "mdat" else len(ftyp) + len(moov(offs)) + len(free) + h
    p = start
    for ti, t in enumerate(ts):
        for k, i in enumerate(range(0, t["n"], t["per"])):
            offs[ti][k] = p; p += sum(map(len, data[ti][i:i + t["per"]]))
    return ftyp + mdat + moov(offs) if d["order"] == "mdat" else ftyp + moov(offs) + free + mdat
# Matroska ---------------------------------------------------------------
def r_mkv(d):
    W, U = d["width"], d["uwidth"] or None
    pad = b"\0" * 3 if d["nulpad"] else b""
    def el(n, *p): return mkv.el(n, *p, w=W)
    def u(n, v): return el(n, be(U or max(1, (v.bit_length() + 7) // 8), v))
    def s(n, v): return el(n, v.encode() + pad)
    def f(n, v): return el(n, struct.pack(">d" if d["fwidth"] == 8 else ">f", float(v)))
    def opt(n, v): return [u(n, v)] if v != -1 else []
    def ordered(l):
        l = [x for x in l if x]
        if d["order"] == "rev": l = l[::-1]
        elif d["order"] == "rot": l = l[len(l) // 2:] + l[:len(l) // 2]
        if d["void"]: l = [x for i, y in enumerate(l) for x in ([mkv.void(5)] if i % 2 else []) + [y]]
        return l
    def master(n, l):
        b = b"".join(ordered(l))
        return mkv.el(n, (mkv.crc(b) if d["crc"] and n not in ("TrackEntry", "Video", "Audio") else b"") + b, w=W)
    priv = {"V_MPEG4/ISO/AVC": avcc(100, d["w"], d["h"]), "A_AAC": b"\x12\x10"}
    def private(c): return [el("CodecPrivate", priv[c])] if c in priv else []
    video = master("Video", [u("PixelWidth", d["w"]), u("PixelHeight", d["h"])] + (opt("DisplayWidth", d["dw"]) + opt("DisplayHeight", d["dh"]) if d["dw"] != -1 else []) + opt("FlagInterlaced", d["interlaced"]))
    t1 = master("TrackEntry", [u("TrackNumber", d["number"]), u("TrackUID", big(d["uid"])), u("TrackType", 1)] + opt("FlagEnabled", d["enabled"]) + opt("FlagDefault", d["default"]) + opt("FlagForced", d["forced"]) + opt("FlagLacing", d["lacing"]) + opt("DefaultDuration", d["defdur"])
                + ([s("Name", tx(d["name"]))] if d["name"] != "-" else []) + ([s("Language", d["lang"])] if d["lang"] != "-" else []) + ([s("LanguageBCP47", d["bcp"])] if d["bcp"] != "-" else []) + [s("CodecID", d["vcodec"]), video] + private(d["vcodec"]))
    audio = master("Audio", ([f("SamplingFrequency", d["arate"])] if d["arate"] != -1 else []) + ([f("OutputSamplingFrequency", d["outrate"])] if d["outrate"] != -1 else []) + opt("Channels", d["ch"]) + opt("BitDepth", d["bits"]))
    t2 = master("TrackEntry", [u("TrackNumber", 2), u("TrackUID", 2002), u("TrackType", 2), s("Language", "fre"), s("CodecID", d["acodec"]), audio] + private(d["acodec"]))
    tracks = mkv.el("Tracks", (lambda b: (mkv.crc(b) if d["crc"] else b"") + b)(t1 + t2), w=W)
    info = master("Info", [u("TimecodeScale", big(d["scale"]))] + ([f("Duration", big(d["dur"]))] if big(d["dur"]) else []) + ([s("Title", tx(d["title"]))] if d["title"] != "-" else []) + [s("MuxingApp", "mux 1"), s("WritingApp", "wr 1")])
    def display(n):
        l = [x for x in n["langs"]]
        p = [s("ChapString", tx(n["text"]))] + [s("ChapLanguage", x) if len(x) == 3 else el(0x437D, x.encode()) for x in l]
        return el("ChapterDisplay", *(p if d["order"] == "std" else p[1:] + p[:1]))
    def chapter(c):
        own = [u("ChapterUID", big(c["id"])), u("ChapterTimeStart", big(c["start"]) * 100)] + ([u("ChapterTimeEnd", big(c["end"]) * 100)] if big(c["end"]) else []) + opt("ChapterFlagHidden", c["hidden"]) + opt("ChapterFlagEnabled", c["enabled"]) + ([el(0x8F, *[u(0x89, big(t)) for t in c["tracks"]])] if c["tracks"] else [])
        if d["corder"] == "rev": own = own[::-1]
        subs = [display(n) for n in c["names"]] + [chapter(x) for x in c["nested"]]
        return el("ChapterAtom", *(subs + own if d["corder"] == "rev" else own + subs))
    def edition(e):
        own = [u("EditionUID", big(e["id"]))] + opt("EditionFlagHidden", e["hidden"]) + opt("EditionFlagDefault", e["default"]) + opt("EditionFlagOrdered", e["ordered"])
        subs = [chapter(c) for c in e["chs"]]
        return el("EditionEntry", *(subs + own if d["corder"] == "rev" else own + subs))
    def attached(a): return master("AttachedFile", ([s("FileDescription", tx(a["desc"]))] if a["desc"] else []) + [s("FileName", tx(a["name"])), s("FileMimeType", a["mime"]), el("FileData", noise(a["size"], a["size"], ())), u("FileUID", big(a["id"]))])
    ch = CH[d["chapters"]]; at = AT[d["attachments"]]
    chs = [el("Chapters", *[edition(e) for e in ch])] if ch else []
    ats = [el("Attachments", *[attached(a) for a in at])] if at else []
    if at and d["split"]: ats = [el("Attachments", attached(a)) for a in at]
    if ch and d["split"]: chs = [el("Chapters", edition(e)) for e in ch]
    cl = mkv.clusters(2, 4, 100, tracks=(d["number"] if d["number"] < 127 else 1, 2))
    pv = [mkv.void(d["pad"])] if d["pad"] else []
    front = [info, tracks] + chs + ats
    if d["place"] == "back": items = (["seek"] if d["seek"] else []) + pv + ["clusters"] + front[::-1]
    else: items = (["seek"] if d["seek"] else []) + front + pv + ["clusters"]
    names = ["Info", "Tracks"] + (["Chapters"] if ch else []) + (["Attachments"] if at else []) + ["Cluster"]
    seg = mkv.segment(items, cl, seek=names, width=W or 8, crc32=False)
    return mkv.ebml(d["doctype"], d["docver"], d["docrver"]) + seg
CH, AT, SG = {}, {}, {}
def r_sig(d):
    v2 = id3.tag(d["v2"], [id3.frame(d["v2"], "TIT2", id3.text_frame("T", 0))], d["pad"]) if d["v2"] else b""
    b = bytes.fromhex(SG[d["sig"]]["hex"])
    return v2 + b"\0" * d["lead"] + b + noise(5, max(d["size"], 16 - len(b))) + (id3.v1("Ti", "Ar", "Al", "2001", "co", 5, 17) if d["v1"] else b"")
from filescn import fidx
AFTER = dict(mp3="v2.0", flac="vc", ogg="c.0", mp4="c.0", mkv="c.0")
WRITERS = dict(sig=r_sig, mp3=r_mp3, aac=r_aac, wav=r_wav, wavmp3=r_wavmp3, ivf=r_ivf, flac=r_flac, ogg=r_ogg, mp4=r_mp4, mkv=r_mkv)
EXT = dict(sig="dat", mp3="mp3", aac="aac", wav="wav", wavmp3="wav", ivf="ivf", flac="flac", ogg="ogg", mp4="mp4", mkv="mkv")

# ---------------------------------------------------------------- observations
def ticks(s): return limbs(s)
def obs_track(t):
    r = {k: t[k] for k in ("type", "format", "fid", "media", "number", "name", "lang", "ver", "rate", "xrate", "bps", "ch", "chcfg", "w", "h", "dw", "dh", "fps", "depth", "timescale", "enabled", "default", "forced", "lacing", "interlaced", "valid")}
    r["timescale"] = limbs(r["timescale"])
    for k in ("id", "duration", "ctime", "mtime", "samples", "size"): r[k] = ticks(t[k])
    b = float(t["bitrate"])
    r["mbitrate"] = limbs(round(b)) if b == b and abs(b) < 1e15 else [-1]
    return r
def obs_chapter(c): return dict(id=limbs(c["id"]), start=limbs(c["start"]), end=limbs(max(0, int(c["end"]))), names=[dict(text=n[0], langs=n[1]) for n in c["names"]], hidden=c["hidden"], enabled=c["enabled"], tracks=[limbs(t) for t in c["tracks"]], nested=[obs_chapter(x) for x in c["nested"]])
def obs(s, fmt, d, ev, after=-1):
    p = [e for e in ev if e.get("cmd", "").startswith("parse")]
    infos = [e for e in ev if e.get("cmd", "") == "info"]
    x = [e for e in ev if e.get("op") == "exit" and e.get("end") != "clean" or e.get("op") == "sanitizer"]
    r = dict(op="info", s=s, fmt=fmt, d=d, after=after, r="ok", critical="", again="same")
    if x or len(infos) != 2 or any(e["r"] != "ok" for e in p + infos):
        r["r"] = "exit " + str(x[0].get("end", x[0].get("text")))[:80] if x else "; ".join(e["r"] for e in p + infos)
        return r
    i, j = infos
    strip = lambda e: {k: v for k, v in e.items() if k not in ("i", "s", "cmd")}
    if strip(i) != strip(j): r["again"] = next(k for k in strip(i) if i[k] != j.get(k))
    r["critical"] = "; ".join(m["m"] if isinstance(m, dict) else str(m) for m in crit(p))[:200]
    r["file"] = dict(format=i["format"], abbrev=i["abbrev"], mime=i["mime"], padding=i["padding"], duration=ticks(i["duration"]))
    c = i.get("container")
    if c: r["container"] = dict({k: c[k] for k in ("doctype", "version", "docver", "docrver", "titles", "mux", "wr", "segments", "timescale")}, duration=ticks(c["duration"]), ctime=ticks(c["ctime"]), mtime=ticks(c["mtime"]))
    else: r["container"] = dict(duration=[0])
    r["tracks"] = [obs_track(t) for t in i["tracks"]]
    r["chapters"] = [dict(id=limbs(e["edition"]), hidden=e["hidden"], default=e["default"], ordered=e["ordered"], chs=[obs_chapter(c) for c in e["chs"]]) for e in i["chapters"]] if fmt == "mkv" else []
    r["atts"] = [dict(id=limbs(a["id"]), name=a["name"], mime=a["mime"], desc=a["desc"], size=size_of(a), intact=a["data"] == "none" and size_of(a) == 0 or a["data"] == "%d:%s" % (size_of(a), tok(noise(size_of(a), size_of(a), ())))) for a in i["attachments"]] if fmt == "mkv" else []
    return r
def size_of(a): return int(a["data"].split(":")[0]) if a["data"] != "none" else 0
def crit(p): return [m for e in p for m in e.get("diag", []) if (m[0] if isinstance(m, list) else m.get("l", 0)) >= 4]

def load_sets():
    """the chapter and attachment sets of the specification, exported by TLC"""
    import re
    g, dd, out = tlc.check("MCInfoSets", "INIT Init\nNEXT Next\n", workers=1)
    m = re.search(r'<<\s*"SETS",\s*"((?:[^"\\]|\\.)*)"\s*>>', out)
    j = json.loads(json.loads('"' + m.group(1) + '"'))
    CH.update(j["ch"]); AT.update(j["at"]); SG.update(j["sg"])

def describe(tier, seed):
    out, st, tr = [], 0, 0
    load_sets()
    rnd = random.Random(seed)
    for f in WRITERS:
        P, g, n = plans.export("MCInfo", CFG % (f, 2))
        st += n; tr += g
        P = [json.loads(x) for x in sorted({json.dumps(p, sort_keys=True) for p in P})]
        base = plans.export("MCInfo", CFG % (f, 1))[0]
        one = {json.dumps(p, sort_keys=True) for p in base}
        first = [p for p in P if json.dumps(p, sort_keys=True) in one]
        more = [p for p in P if json.dumps(p, sort_keys=True) not in one]
        k = len(more) if tier == "thorough" else 600
        if len(more) > k: more = rnd.sample(more, k)
        out += [(f, p) for p in first + more]
    return out, st, tr

def run(tier, seed, prop, only=None):
    descs, st0, tr0 = describe(tier, seed)
    scns, of = [], {}
    for n, (f, d) in enumerate(descs):
        sid = "info.%s/%s" % (f, tok(json.dumps(d, sort_keys=True).encode(), 12))
        if only and sid != only: continue
        if sid in of: continue
        name = "a." + EXT[f]
        s = Scn(sid, {name: WRITERS[f](d)})
        s.c("new", "path " + name, *(["opt full=1"] if d.get("full") else []), "open ro", "parse", "info", "parse", "info")
        scns.append(s); of[sid] = (f, d, -1)
    # the information is the same after something else has been changed and the file has been rewritten
    for n, (f, d) in enumerate(descs):
        sid = "info.after.%s/%s" % (f, tok(json.dumps(d, sort_keys=True).encode(), 12))
        if f not in AFTER or only and sid != only or sid in of: continue
        name, pad = "a." + EXT[f], (40, 300, 9, 1000)[n % 4]
        s = Scn(sid, {name: WRITERS[f](d)})
        s.c("new", "path " + name, "open ro", "parse", *([] if d.get("codec") in ("theora", "speex") else ["create v1=keep v2=always ver=3 flags=16", "set %s %d %s" % (AFTER[f], fidx("Artist"), V.u8("Somebody"))]),
            "opt force=1 min=0 max=100000 pref=%d tag=before index=before ftag=1 findex=1 save=" % pad, "apply", "new", "path " + name, *(["opt full=1"] if d.get("full") else []), "open ro", "parse", "info", "parse", "info")
        known = f in ("mp3", "mp4") or f == "flac" and d["v2"] == 0 or f == "mkv" and d["full"] == 1
        scns.append(s); of[sid] = (f, d, pad + (4 if f == "flac" else 0) if known else -2)
    exe = vbuild.build("plain")
    R = __import__("runner").run(scns, exe)
    L = {s.id: [obs(s.id, *of[s.id][:2], R[s.id], of[s.id][2])] for s in scns}
    bad, st, tr = tlc.validate("InfoTrace", [L[s.id] for s in scns])
    by = {s.id: s for s in scns}
    for b in bad: b["fam"] = __name__; b["script"] = by[b["s"]].cmds; b["description"] = of[b["s"]][1]
    smp = [dict(scenario=s.id, description=of[s.id][1], verdict="violated" if any(b["s"] == s.id for b in bad) else "explained") for s in scns[:: max(1, len(scns) // 3)][:3]]
    return dict(bad=bad, states=st + st0, transitions=tr + tr0, traces=len(scns), lines=len(scns), samples=smp, notes=dict(descriptions=len(scns), design_states=st0, design_transitions=tr0))
