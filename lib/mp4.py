"""ISO base media (MP4): builder and strict reader."""
from common import *

def atom(name, *parts, large=False):
    body = b"".join(parts)
    n = name if isinstance(name, bytes) else name.encode("latin-1")
    if large:
        return be(4, 1) + n + be(8, len(body) + 16) + body
    return be(4, len(body) + 8) + n + body
def full(name, ver, flags, *parts):
    return atom(name, bytes([ver]) + be(3, flags), *parts)

MATRIX = be(4, 0x10000) + b"\0" * 12 + be(4, 0x10000) + b"\0" * 12 + be(4, 0x40000000)

def descr(tag, body, wide=True):
    n = len(body)
    size = bytes([0x80 | (n >> 21) & 0x7F, 0x80 | (n >> 14) & 0x7F, 0x80 | (n >> 7) & 0x7F, n & 0x7F]) if wide else bytes([n])
    return bytes([tag]) + size + body
def asc(objtype=2, rateidx=4, ch=2):
    """AudioSpecificConfig for AAC"""
    v = (objtype << 11) | (rateidx << 7) | (ch << 3)
    return be(2, v)
def esds(oti=0x40, stype=5, avg=128000, mx=160000, cfg=None, wide=True):
    cfg = asc() if cfg is None else cfg
    dec = bytes([oti, (stype << 2) | 1]) + be(3, 1536) + be(4, mx) + be(4, avg) + (descr(5, cfg, wide) if cfg else b"")
    return full("esds", 0, 0, descr(3, be(2, 0) + b"\0" + descr(4, dec, wide) + descr(6, b"\x02", wide), wide))

def sample_entry(t):
    k = t.get("kind", "aac")
    dref = b"\0" * 6 + be(2, 1)
    if k == "aac":
        return atom("mp4a", dref, b"\0" * 8, be(2, t.get("ch", 2)), be(2, t.get("bps", 16)), b"\0" * 4, be(2, t.get("rate", 44100)), b"\0\0", esds(wide=t.get("wide", True), cfg=t.get("asc")))
    if k == "alac":
        return atom("alac", dref, b"\0" * 8, be(2, t.get("ch", 2)), be(2, t.get("bps", 16)), b"\0" * 4, be(2, t.get("rate", 44100)), b"\0\0", full("alac", 0, 0, b"\0" * 24))
    if k == "avc":
        avcc = bytes([1, 100, 0, 30, 0xFF, 0xE1]) + be(2, len(SPS)) + SPS + bytes([1]) + be(2, len(PPS)) + PPS
        return atom("avc1", dref, b"\0" * 16, be(2, t.get("w", 320)), be(2, t.get("h", 240)), be(4, 0x480000), be(4, 0x480000), b"\0" * 4, be(2, 1), b"\0" * 32, be(2, 24), b"\xff\xff", atom("avcC", avcc))
    if k == "text":
        return atom("tx3g", dref, b"\0" * 38)
    return atom(k, dref, b"\0" * 20)
SPS = bytes.fromhex("6764001eacd940a02ff9610000030001000003003c8f162d96")
PPS = bytes.fromhex("68ebe3cb22c0")

HAND = {"aac": "soun", "alac": "soun", "avc": "vide", "text": "text"}
def lang16(l):
    return ((ord(l[0]) - 0x60) << 10) | ((ord(l[1]) - 0x60) << 5) | (ord(l[2]) - 0x60)

def trak(t, offsets):
    """t: dict(id, kind, chunks=[[sample,...],...], co64, ver, timescale, delta, name, lang, flags ...)"""
    ver = t.get("ver", 0)
    w = 8 if ver else 4
    samples = [s for c in t["chunks"] for s in c]
    ts, delta = t.get("timescale", 44100), t.get("delta", 1024)
    dur = len(samples) * delta
    mts = t.get("mts", 1000)
    tkhd = full("tkhd", ver, t.get("flags", 7), be(w, t.get("ctime", 3000000000)), be(w, t.get("mtime", 3000000100)), be(4, t["id"]), b"\0" * 4, be(w, dur * mts // ts), b"\0" * 8, be(2, t.get("layer", 0)), be(2, t.get("altgroup", 0)), be(2, t.get("volume", 0x100)), b"\0\0", MATRIX, be(4, t.get("w", 0) << 16), be(4, t.get("h", 0) << 16))
    mver = t.get("mdver", ver); mw = 8 if mver else 4
    mdhd = full("mdhd", mver, 0, be(mw, t.get("ctime", 3000000000)), be(mw, t.get("mtime", 3000000100)), be(4, ts), be(mw, dur), be(2, lang16(t.get("lang", "und"))), b"\0\0")
    kind = t.get("kind", "aac")
    hdlr = full("hdlr", 0, 0, b"\0" * 4, HAND.get(kind, "meta").encode(), b"\0" * 12, t.get("name", "").encode() + b"\0")
    mh = full("vmhd", 0, 1, b"\0" * 8) if kind == "avc" else full("smhd", 0, 0, b"\0" * 4) if HAND.get(kind) == "soun" else full("nmhd", 0, 0)
    if t.get("dref") == "multi":
        dinf = atom("dinf", full("dref", 0, 0, be(4, 2), full("url ", 0, 1), full("url ", 0, 0, b"http://example.org/x\0")))
    else:
        dinf = atom("dinf", full("dref", 0, 0, be(4, 1), full("url ", 0, 1)))
    stsd = full("stsd", 0, 0, be(4, 1), sample_entry(t))
    stts = full("stts", 0, 0, be(4, 1), be(4, len(samples)), be(4, delta))
    # run-length coded sample-to-chunk table
    runs = []
    for i, c in enumerate(t["chunks"]):
        if not runs or runs[-1][1] != len(c): runs.append((i + 1, len(c)))
    stsc = full("stsc", 0, 0, be(4, len(runs)), *[be(4, a) + be(4, n) + be(4, 1) for a, n in runs])
    sizes = [len(s) for s in samples]
    if t.get("stz2"):
        bits = t["stz2"]
        if bits == 4:
            z = sizes + ([0] if len(sizes) % 2 else [])
            payload = bytes((z[i] << 4) | z[i + 1] for i in range(0, len(z), 2))
        else: payload = b"".join(be(bits // 8, s) for s in sizes)
        stsz = full("stz2", 0, 0, be(4, bits), be(4, len(sizes)), payload)
    elif sizes and len(set(sizes)) == 1 and not t.get("nosame"):
        stsz = full("stsz", 0, 0, be(4, sizes[0]), be(4, len(sizes)))
    else:
        stsz = full("stsz", 0, 0, be(4, 0), be(4, len(sizes)), *[be(4, s) for s in sizes])
    ow = 8 if t.get("co64") else 4
    stco = full("co64" if ow == 8 else "stco", 0, 0, be(4, len(offsets)), *[be(ow, o) for o in offsets])
    tabs = [stsd, stts, stsc, stsz, stco]
    if kind == "avc": tabs.insert(2, full("stss", 0, 0, be(4, 1), be(4, 1)))
    for x in t.get("stbl_extra", ()): tabs.append(x)
    minf = [mh, dinf, atom("stbl", *tabs)]
    if t.get("minf_extra"): minf.insert(1, t["minf_extra"])
    minf += t.get("minf_after", ())
    mdia = [mdhd, hdlr, atom("minf", *minf)]
    if t.get("mdia_extra"): mdia.insert(1, t["mdia_extra"])
    mdia += t.get("mdia_after", ())
    parts = [tkhd]
    if t.get("edts"): parts.append(atom("edts", full("elst", 0, 0, be(4, 1), be(4, dur * mts // ts), be(4, 0), be(4, 0x10000))))
    parts.append(atom("mdia", *mdia))
    for x in t.get("extra", ()): parts.append(x)
    return atom("trak", *parts)

def mvhd(ver=0, ctime=3000000000, mtime=3000000100, ts=1000, dur=5000, nexttrack=9):
    w = 8 if ver else 4
    return full("mvhd", ver, 0, be(w, ctime), be(w, mtime), be(4, ts), be(w, dur), be(4, 0x10000), be(2, 0x100), b"\0" * 10, MATRIX, b"\0" * 24, be(4, nexttrack))

def data(dtype, payload, locale=0): return atom("data", be(4, dtype), be(4, locale), payload)
def item(fid, *datas): return atom(fid, *datas)
def text(fid, *vals): return item(fid, *[data(1, v.encode()) for v in vals])
def longtext(mean, name, *vals): return atom("----", full("mean", 0, 0, mean.encode()), full("name", 0, 0, name.encode()), *[data(1, v.encode()) for v in vals])
def meta(*items, extra=b"", free=0):
    return full("meta", 0, 0, full("hdlr", 0, 0, b"\0" * 4, b"mdir", b"appl", b"\0" * 8, b"\0"), atom("ilst", *items), extra, atom("free", b"\0" * (free - 8)) if free else b"")

def samples(seed, n, size, vary=0):
    return [noise(seed * 1000 + i, size + (i * 13 % vary if vary else 0)) for i in range(n)]
def chunked(s, per):
    return [s[i:i + per] for i in range(0, len(s), per)]

def build(tracks, order=("ftyp", "moov", "mdat"), items=None, udta=(), moov_extra=(), metaextra=b"", metafree=0, brand=b"isom", mv=None, top=None, large_mdat=False, mdat_size0=False, frags=(), chunks_in=None, moov_order=("mvhd", "trak", "extra", "udta"), mdatpad=b"", meta_first=True):
    """order entries: ftyp, pdin, moov, free:N, skip:N, mdat[K], moof[K], or a key of `top` (raw bytes)."""
    top = top or {}
    # distribute chunks over mdats (round robin over tracks)
    mdats = [o for o in order if o.startswith("mdat")]
    nm = max(1, len(mdats))
    lay = [[] for _ in range(nm)]
    mx = max([len(t["chunks"]) for t in tracks] or [0])
    for i in range(mx):
        for ti, t in enumerate(tracks):
            if i < len(t["chunks"]):
                k = (i * nm // mx) if chunks_in is None else chunks_in(ti, i)
                lay[k].append((ti, i))
    def mdat_body(k):
        return b"".join(b"".join(tracks[a]["chunks"][b]) for a, b in lay[k]) + mdatpad
    def moov(offs):
        parts = []
        for m in moov_order:
            if m == "mvhd": parts.append(mvhd(**(mv or {})))
            elif m == "trak": parts += [trak(t, offs[i]) for i, t in enumerate(tracks)]
            elif m == "extra": parts += list(moov_extra)
            elif m == "udta" and (items is not None or udta):
                me = [meta(*items, extra=metaextra, free=metafree)] if items is not None else []
                parts.append(atom("udta", *((me + list(udta)) if meta_first else (list(udta) + me))))
        return atom("moov", *parts)
    offs = [[0] * len(t["chunks"]) for t in tracks]
    def assemble(offs, fragbase):
        out, pos, mk, fk = [], 0, 0, 0
        starts = {}
        for i, o in enumerate(order):
            name = o.split(":")[0]
            if o == "ftyp": b = atom("ftyp", brand, be(4, 512), brand, b"mp41")
            elif o == "pdin": b = full("pdin", 0, 0, be(4, 1000), be(4, 5))
            elif o == "moov": b = moov(offs)
            elif name in ("free", "skip"): b = atom(name, b"\0" * (int(o.split(":")[1]) - 8))
            elif o.startswith("mdat"):
                body = mdat_body(mk)
                if mdat_size0 and i == len(order) - 1: b = be(4, 0) + b"mdat" + body
                else: b = atom("mdat", body, large=large_mdat)
                starts[mk] = pos + (16 if large_mdat and not (mdat_size0 and i == len(order) - 1) else 8); mk += 1
            elif o.startswith("frag"):
                b = fragment(frags[fk], pos, fk + 1); fk += 1
            else: b = top[o]
            out.append(b); pos += len(b)
        return b"".join(out), starts
    for _ in range(2):
        b, starts = assemble(offs, None)
        for k, l in enumerate(lay):
            p = starts.get(k, 0)
            for ti, i in l:
                offs[ti][i] = p
                p += sum(map(len, tracks[ti]["chunks"][i]))
    return assemble(offs, None)[0]

def fragment(f, pos, seq):
    """moof + mdat at absolute position pos. f: dict(trafs=[dict(track, samples, base='abs'|'moof'|'none')])"""
    def mk(base_of, dataoffs):
        trafs = []
        for i, t in enumerate(f["trafs"]):
            flags = {"abs": 1, "moof": 0x20000, "none": 0}[t.get("base", "abs")]
            body = be(4, t["track"])
            if flags & 1: body += be(8, base_of[i])
            extra = t.get("tfhd", b"")
            tf = full("tfhd", 0, flags | t.get("tfflags", 0), body, extra)
            tr = full("trun", 0, 0x1 | 0x200, be(4, len(t["samples"])), be(4, dataoffs[i] & 0xFFFFFFFF), *[be(4, len(s)) for s in t["samples"]])
            trafs.append(atom("traf", tf, tr))
        return atom("moof", full("mfhd", 0, 0, be(4, seq)), *trafs)
    n = len(f["trafs"])
    moof = mk([0] * n, [0] * n)
    start = pos + len(moof) + 8
    base, do, p = [], [], start
    for t in f["trafs"]:
        if t.get("base", "abs") == "abs": base.append(start if not t.get("inner") else p); do.append(p - base[-1])
        else: base.append(0); do.append(p - pos)
        p += sum(map(len, t["samples"]))
    body = b"".join(s for t in f["trafs"] for s in t["samples"])
    return mk(base, do) + atom("mdat", body)

# ------------------------------------------------------------------ strict reader
CONT = {b"moov", b"trak", b"mdia", b"minf", b"stbl", b"udta", b"ilst", b"edts", b"dinf", b"mvex", b"moof", b"traf"}
class Atom:
    __slots__ = ("id", "off", "hdr", "size", "kids", "b")
    def body(self): return self.b[self.off + self.hdr:self.off + self.size]
    def kid(self, i): return next((k for k in self.kids if k.id == i), None)
    def all(self, i): return [k for k in self.kids if k.id == i]

def parse(b, off, end, depth=0):
    out = []
    while off < end:
        if end - off < 8: raise Bad("mp4-trailing-bytes", "%d at %d" % (end - off, off))
        size, i, h = int.from_bytes(b[off:off + 4], "big"), b[off + 4:off + 8], 8
        if size == 1:
            if end - off < 16: raise Bad("mp4-atom-size", repr(i))
            size, h = int.from_bytes(b[off + 8:off + 16], "big"), 16
        elif size == 0:
            if depth: raise Bad("mp4-atom-size", repr(i))
            size = end - off
        if size < h or off + size > end: raise Bad("mp4-atom-size", "%r at %d: %d > %d" % (i, off, size, end - off))
        a = Atom(); a.id, a.off, a.hdr, a.size, a.kids, a.b = i, off, h, size, [], b
        if i in CONT: a.kids = parse(b, off + h, off + size, depth + 1)
        elif i == b"meta": a.kids = parse(b, off + h + 4, off + size, depth + 1)
        out.append(a)
        off += size
    return out

def table(a, skip, width):
    d = a.body()
    n = int.from_bytes(d[skip:skip + 4], "big")
    if len(d) != skip + 4 + n * width: raise Bad("mp4-table-size", repr(a.id))
    return [d[skip + 4 + k * width:skip + 4 + (k + 1) * width] for k in range(n)]

def track_chunks(stbl):
    stco, co64 = stbl.kid(b"stco"), stbl.kid(b"co64")
    if bool(stco) == bool(co64): raise Bad("mp4-chunk-offset-table")
    offs = [int.from_bytes(x, "big") for x in (table(stco, 4, 4) if stco else table(co64, 4, 8))]
    z = stbl.kid(b"stsz")
    if z:
        d = z.body(); c, n = int.from_bytes(d[4:8], "big"), int.from_bytes(d[8:12], "big")
        if n > 1 << 22: raise Bad("mp4-sample-count")
        sizes = [c] * n if c else [int.from_bytes(d[12 + 4 * k:16 + 4 * k], "big") for k in range(n)]
        if len(d) != (12 if c else 12 + 4 * n): raise Bad("mp4-stsz-size")
    else:
        d = stbl.kid(b"stz2").body(); bits, n = d[7], int.from_bytes(d[8:12], "big"); p = d[12:]
        if n > 1 << 22: raise Bad("mp4-sample-count")
        if bits == 4: sizes = [x for y in p for x in (y >> 4, y & 15)][:n]
        else: sizes = [int.from_bytes(p[k * bits // 8:(k + 1) * bits // 8], "big") for k in range(n)]
    runs = [(int.from_bytes(x[:4], "big"), int.from_bytes(x[4:8], "big")) for x in table(stbl.kid(b"stsc"), 4, 12)]
    per, k = [], 0
    for i in range(len(offs)):
        while k + 1 < len(runs) and runs[k + 1][0] <= i + 1: k += 1
        per.append(runs[k][1] if runs else 0)
    if sum(per) != len(sizes): raise Bad("mp4-sample-count", "%d != %d" % (sum(per), len(sizes)))
    out, s = [], 0
    for o, n in zip(offs, per):
        out.append((o, sum(sizes[s:s + n]))); s += n
    return out

def item_values(it):
    name = esc(it.id)
    kids = parse(it.b, it.off + it.hdr, it.off + it.size, 1)
    vals = []
    if it.id == b"----":
        m, n = next((k for k in kids if k.id == b"mean"), None), next((k for k in kids if k.id == b"name"), None)
        name = "----:%s:%s" % (esc(m.body()[4:]) if m else "", esc(n.body()[4:]) if n else "")
    for k in kids:
        if k.id != b"data":
            if k.id not in (b"mean", b"name"): vals.append("atom:%s:%s" % (esc(k.id), tok(k.body())))
            continue
        d = k.body()
        if len(d) < 8: raise Bad("mp4-data-atom", name)
        t, p = int.from_bytes(d[:4], "big"), d[8:]
        if t == 1:
            try: p.decode()
            except UnicodeDecodeError: raise Bad("mp4-not-utf8", name)
            vals.append(esc(p))
        elif t == 2: vals.append("utf16:" + esc(p.decode("utf-16-be", "replace")))
        elif it.id in (b"trkn", b"disk") and t in (0, 21):
            if len(p) < 6: raise Bad("mp4-position-size", name)
            vals.append("%d/%d" % (int.from_bytes(p[2:4], "big"), int.from_bytes(p[4:6], "big")) + ("" if len(p) in (6, 8) else "|len=%d" % len(p)))
        elif it.id == b"gnre" and t == 0: vals.append("genre:%d" % (int.from_bytes(p, "big") - 1))
        elif t == 21: vals.append("int:%d" % (int.from_bytes(p, "big", signed=True)))
        elif t in (12, 13, 14, 27): vals.append("pic%d:%d:%s" % (t, len(p), tok(p)))
        else: vals.append("type%d:%s" % (t, tok(p) if len(p) > 8 else p.hex()))
    return [name, vals]

def digest(a, path=""):
    """Content of an atom without the parts which may legitimately change (chunk offsets, base offsets)."""
    if a.id in (b"stco", b"co64"): return "chunkoffsets"
    if a.id == b"tfhd":
        d = a.body()
        if d[3] & 1: d = d[:8] + b"\0" * 8 + d[16:]
        return "tfhd(%s)" % tok(d)
    if a.id == b"hdlr":
        # the name is terminated or prefixed with its size
        d = a.body(); n = d[24:]
        n = n[1:] if n and n[0] == len(n) - 1 and 0 not in n else n.split(b"\0")[0]
        return "hdlr(%s,%s,%s)" % (d[:8].hex(), tok(d[8:12]), tok(n))
    if a.id == b"mdhd":
        d, w = a.body(), 8 if a.body()[0] else 4
        return "mdhd(%d,%d,%s,%d,%s)" % (int.from_bytes(d[4:4 + w], "big"), int.from_bytes(d[4 + w:4 + 2 * w], "big"), d[4 + 2 * w:8 + 2 * w].hex(), int.from_bytes(d[8 + 2 * w:8 + 3 * w], "big"), d[8 + 3 * w:].hex())
    if a.id == b"tkhd":
        d, w = a.body(), 8 if a.body()[0] else 4
        return "tkhd(%s,%d,%d,%s,%d,%s)" % (d[1:4].hex(), int.from_bytes(d[4:4 + w], "big"), int.from_bytes(d[4 + w:4 + 2 * w], "big"), d[4 + 2 * w:12 + 2 * w].hex(), int.from_bytes(d[12 + 2 * w - 0:12 + 3 * w], "big"), d[12 + 3 * w:].hex())
    if a.kids: return esc(a.id) + "(" + ",".join(digest(k) for k in a.kids) + ")"
    return esc(a.id) + ":" + tok(a.body())

def project(b):
    r = new_proj("mp4")
    r["size"], r["sha"] = len(b), tok(b, 16)
    try:
        atoms = parse(b, 0, len(b))
    except Bad as e:
        r["errs"].append(e.rule); return r
    try:
        media = [a for a in atoms if a.id not in (b"ftyp", b"pdin", b"moov", b"free", b"skip")]
        moovs = [a for a in atoms if a.id == b"moov"]
        if not atoms or atoms[0].id != b"ftyp": r["errs"].append("mp4-ftyp-first")
        if len(moovs) != 1: raise Bad("mp4-moov-count", str(len(moovs)))
        moov = moovs[0]
        for a in atoms:
            if a.id in (b"ftyp", b"pdin"): r["others"].append("%s:%s" % (esc(a.id), tok(a.body())))
        where = lambda o: next((m for m in media if m.id == b"mdat" and m.off + m.hdr <= o <= m.off + m.size), None)
        names = {}
        for m in media:
            i = names.get(m.id, 0); names[m.id] = i + 1
            r["media"].append("%s%d:%s" % (esc(m.id), i, ("%d:%s" % (len(m.body()), tok(m.body()))) if m.id != b"moof" else digest(m)))
        def resolve(o, n):
            m = where(o)
            if m is None or o + n > m.off + m.size: r["errs"].append("mp4-position-outside-media"); return "outside"
            return "%d:%s" % (n, tok(b[o:o + n]))
        tracks = 0
        for k in moov.kids:
            if k.id == b"trak":
                tracks += 1
                tid = int.from_bytes(k.kid(b"tkhd").body()[12:16] if k.kid(b"tkhd").body()[0] == 0 else k.kid(b"tkhd").body()[20:24], "big")
                stbl = k.kid(b"mdia").kid(b"minf").kid(b"stbl")
                ch = track_chunks(stbl)
                r["info"]["t%d" % tid] = "co64" if stbl.kid(b"co64") else "stco"
                for i, (o, n) in enumerate(ch):
                    r["refs"].append("t%d.c%d=%s" % (tid, i, resolve(o, n)))
                for x in k.kids:
                    if x.id == b"mdia":
                        for y in x.kids:
                            if y.id == b"minf":
                                for z in y.kids:
                                    if z.id == b"stbl":
                                        for w in z.kids: r["others"].append("t%d.stbl.%s" % (tid, digest(w)))
                                    else: r["others"].append("t%d.minf.%s" % (tid, digest(z)))
                            else: r["others"].append("t%d.mdia.%s" % (tid, digest(y)))
                    else: r["others"].append("t%d.%s" % (tid, digest(x)))
            elif k.id == b"udta":
                for x in k.kids:
                    if x.id != b"meta": r["others"].append("udta." + digest(x)); continue
                    r["info"]["metas"] = r["info"].get("metas", 0) + 1
                    il = x.kid(b"ilst")
                    hd = x.kid(b"hdlr")
                    if hd is None: r["errs"].append("mp4-meta-hdlr")
                    for y in x.kids:
                        if y.id not in (b"hdlr", b"ilst", b"free"): r["others"].append("meta." + digest(y))
                    if il is not None:
                        fields = [item_values(it) for it in parse(b, il.off + il.hdr, il.off + il.size, 1)]
                        from vorbis import group
                        r["tags"].append(dict(type="mp4", target="", fields=group(fields)))
            else: r["others"].append("moov." + digest(k))
        r["others"].sort()
        # fragments
        for fi, m in enumerate(a for a in media if a.id == b"moof"):
            for ti, t in enumerate(m.all(b"traf")):
                tf = t.kid(b"tfhd").body(); fl = int.from_bytes(tf[1:4], "big")
                base = int.from_bytes(tf[8:16], "big") if fl & 1 else m.off
                for ri, tr in enumerate(t.all(b"trun")):
                    d = tr.body(); rf = int.from_bytes(d[1:4], "big"); n = int.from_bytes(d[4:8], "big"); p = 8; do = 0
                    if n > 1 << 22: raise Bad("mp4-sample-count")
                    if rf & 1: do = int.from_bytes(d[8:12], "big", signed=True); p = 12
                    if rf & 4: p += 4
                    tot = 0
                    for _ in range(n):
                        if rf & 0x100: p += 4
                        if rf & 0x200: tot += int.from_bytes(d[p:p + 4], "big"); p += 4
                        if rf & 0x400: p += 4
                        if rf & 0x800: p += 4
                    r["refs"].append("f%d.%d.%d=%s" % (fi, ti, ri, resolve(base + do, tot)))
        first = media[0].off if media else None
        if first is not None: r["tagpos"] = r["idxpos"] = "before" if moov.off < first else "after"
        r["pad"] = sum(a.size for a in atoms if a.id in (b"free", b"skip"))
        r["info"]["padbefore"] = sum(a.size for a in atoms if a.id in (b"free", b"skip") and (first is None or a.off < first))
        r["pad0"] = r["info"]["padbefore"]
        r["info"]["firstmedia"] = first if first is not None else -1
        last = media[-1].off if media else 0
        r["info"]["padafter"] = sum(a.size for a in atoms if a.id in (b"free", b"skip") and a.off > last)
        r["info"]["order"] = ",".join(esc(a.id) for a in atoms)
        for a in atoms:
            if a.id in (b"free", b"skip") and False: pass
    except Bad as e:
        r["errs"].append(e.rule)
    except (AttributeError, IndexError, StopIteration) as e:
        r["errs"].append("mp4-mandatory-missing")
    r["errs"] = sorted(set(r["errs"]))
    return r
