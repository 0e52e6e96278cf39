"""Turns the damages of spec/Damage.tla into changed bytes: a walker per format yields the parts of a file and their fields."""
import random
import mp4, mkv, ogg, flac
from common import Bad, be, le

class Part:
    def __init__(self, id, off, body, end, at, fields=()): self.id, self.off, self.body, self.end, self.at, self.fields = id, off, body, end, at, list(fields)
    def add(self, kind, off, width, enc="be"):
        if off >= 0 and width > 0: self.fields.append((kind, off, width, enc))
        return self

def rd(b, f):
    k, o, w, e = f
    d = b[o:o + w]
    if len(d) < w: return 0
    if e == "le": return int.from_bytes(d, "little")
    v = int.from_bytes(d, "big")
    if e == "vint": return v & ((1 << (7 * w)) - 1)
    if e in ("sync", "desc"):
        r = 0
        for x in d: r = r << 7 | x & 0x7F
        return r
    return v
def wr(b, f, v):
    k, o, w, e = f
    m = top(f)
    v = min(max(v, 0), m) if v >= 0 else m
    if e == "le": return v.to_bytes(w, "little")
    if e == "vint": return (v | 1 << (7 * w)).to_bytes(w, "big")
    if e in ("sync", "desc"):
        r = bytearray(w)
        for i in range(w - 1, -1, -1): r[i] = v & 0x7F | (0x80 if e == "desc" and i < w - 1 else 0); v >>= 7
        return bytes(r)
    return v.to_bytes(w, "big")
def top(f):
    k, o, w, e = f
    return (1 << (7 * w if e in ("vint", "sync", "desc") else 8 * w)) - 1

# ------------------------------------------------------------------ walkers
def words(p, b, start, end, n, w, enc="be", kind="data"):
    for i in range(n):
        if start + (i + 1) * w <= end: p.add(kind, start + i * w, w, enc)
    return p
COUNTED = (b"stco", b"co64", b"stsc", b"stts", b"stss", b"ctts", b"dref", b"stsd", b"elst", b"trun", b"sbgp", b"tfra")
def mp4_parts(b):
    out = []
    def walk(atoms, pre, depth):
        for a in atoms:
            n = pre + "/" + a.id.decode("latin-1")
            body = a.off + a.hdr
            p = Part(n, a.off, body, a.off + a.size, "top" if not depth else "inner" if a.kids else "leaf")
            p.add("size", a.off, 4).add("id", a.off + 4, 4)
            if a.hdr == 16: p.add("size", a.off + 8, 8)
            if not a.kids and a.id not in (b"mdat", b"free", b"skip"):
                if a.id in (b"ftyp",): words(p, b, body, p.end, 4, 4, kind="id")
                else:
                    p.add("flags", body, 1); p.add("flags", body + 1, 3)
                    if a.id in COUNTED: p.add("count", body + 4, 4)
                    if a.id in (b"stco",): words(p, b, body + 8, p.end, 3, 4, kind="ref")
                    elif a.id == b"co64": words(p, b, body + 8, p.end, 3, 8, kind="ref")
                    elif a.id == b"stsz": p.add("size", body + 4, 4).add("count", body + 8, 4); words(p, b, body + 12, p.end, 3, 4, kind="size")
                    elif a.id == b"stsd":
                        q = body + 8
                        if q + 8 <= p.end:
                            sz = int.from_bytes(b[q:q + 4], "big")
                            p.add("size", q, 4).add("id", q + 4, 4)
                            words(p, b, q + 8, min(q + sz, p.end), 36, 2)
                            for child in (b"esds", b"avcC", b"dOps", b"alac", b"dfLa", b"wave"):
                                i = b.find(child, q, p.end)
                                if i > 0: p.add("size", i - 4, 4); words(p, b, i + 4, p.end, 44, 1)
                    elif a.id == b"hdlr": words(p, b, body + 4, p.end, 2, 4); words(p, b, body + 24, p.end, 4, 1, kind="text")
                    else: words(p, b, body + 4, p.end, 10, 4)
            out.append(p)
            walk(a.kids, n, depth + 1)
            # fields of the tag
            if a.id == b"ilst":
                for it in a.kids:
                    q = it.off + it.hdr
                    while q + 8 <= it.off + it.size:
                        sz = int.from_bytes(b[q:q + 4], "big")
                        if sz < 8: break
                        nm = b[q + 4:q + 8].decode("latin-1")
                        p = Part(n + "/" + it.id.decode("latin-1") + "/" + nm, q, q + 8, min(q + sz, it.off + it.size), "leaf")
                        p.add("size", q, 4).add("id", q + 4, 4); words(p, b, q + 8, p.end, 2, 4); words(p, b, q + 16, p.end, 3, 2)
                        out.append(p); q += sz
    walk(mp4.parse(b, 0, len(b)), "mp4", 0)
    return out
REFS = {mkv.ID[x] for x in ("SeekPosition", "CueClusterPosition", "CueRelativePosition", "Position", "CueCodecState", "CueRefCluster", "PrevSize") if x in mkv.ID}
def mkv_parts(b):
    out = []
    def walk(els, pre, depth):
        for e in els:
            n = pre + "/" + mkv.nm(e.id)
            _, il = mkv.read_id(b, e.off)
            p = Part(n, e.off, e.off + e.hdr, e.end, "top" if depth < 2 else "inner" if e.kids else "leaf")
            p.add("id", e.off, il).add("size", e.off + il, e.hdr - il, "vint")
            L = e.end - p.body
            if not e.kids and L:
                if e.id in REFS: p.add("ref", p.body, L)
                elif e.id in mkv.UINT: p.add("data", p.body, L)
                elif L <= 8: p.add("data", p.body, L); p.add("text", p.body, 1)
                else: words(p, b, p.body, p.end, 12, 1); p.add("text", p.body + L // 2, 1)
            out.append(p)
            walk(e.kids, n, depth + 1)
    walk(mkv.parse(b, 0, len(b)), "mkv", 0)
    return out
def vc_fields(p, b, o, end):
    """Lengths within a Vorbis comment starting at o."""
    if o + 4 > end: return
    n = int.from_bytes(b[o:o + 4], "little"); p.add("size", o, 4, "le"); o += 4 + n
    if o + 4 > end: return
    c = int.from_bytes(b[o:o + 4], "little"); p.add("count", o, 4, "le"); o += 4
    for i in range(min(c, 8)):
        if o + 4 > end: return
        n = int.from_bytes(b[o:o + 4], "little"); p.add("size", o, 4, "le").add("text", o + 4, 1).add("text", o + 4 + n // 2, 1); o += 4 + n
def ogg_parts(b):
    out = []
    for i, g in enumerate(ogg.read_pages(b)):
        o = g["off"]; h = 27 + len(g["segs"]); end = o + h + len(g["data"])
        p = Part("ogg/page%s" % (i if i < 6 else "n"), o, o + h, end, "top")
        p.add("id", o, 4).add("data", o + 4, 1).add("flags", o + 5, 1).add("data", o + 6, 8, "le").add("id", o + 14, 4, "le").add("data", o + 18, 4, "le").add("data", o + 22, 4, "le").add("count", o + 26, 1)
        for k in list(range(min(3, len(g["segs"])))) + ([len(g["segs"]) - 1] if len(g["segs"]) > 3 else []): p.add("size", o + 27 + k, 1)
        q = o + h
        if i < 6:
            words(p, b, q, end, 30, 1)
            for mg, l in ((b"\x03vorbis", 7), (b"OpusTags", 8)):
                if b[q:q + l] == mg: vc_fields(p, b, q + l, end)
            if b[q:q + 5] == b"\x7fFLAC": p.add("size", q + 14, 3)
            elif b[q] & 0x7F == 4 and b[q + 1:q + 2] == b"\0": p.add("size", q + 1, 3); vc_fields(p, b, q + 4, end)
        out.append(p)
    return out
def id3_parts(b, o=0):
    out = []
    k = 0
    while b[o:o + 3] == b"ID3" and len(b) > o + 10:
        f = ("size", o + 6, 4, "sync"); n = rd(b, f); ver = b[o + 3]; end = min(o + 10 + n, len(b))
        p = Part("id3v2.%d%s" % (ver, "" if not k else "b"), o, o + 10, end, "top", [f]); k += 1
        p.add("id", o, 3).add("data", o + 3, 1).add("data", o + 4, 1).add("flags", o + 5, 1); out.append(p)
        q = o + 10
        if b[o + 5] & 0x40 and ver > 2: p.add("size", q, 4, "sync" if ver > 3 else "be"); q += rd(b, ("size", q, 4, "sync")) if ver > 3 else 4 + int.from_bytes(b[q:q + 4], "big")
        w = 3 if ver == 2 else 4; hl = 6 if ver == 2 else 10
        while q + hl <= end and b[q]:
            fs = ("size", q + w, w, "sync" if ver == 4 else "be"); n = rd(b, fs)
            x = Part("id3v2.%d/%s" % (ver, b[q:q + w].decode("latin-1")), q, q + hl, min(q + hl + n, end), "leaf", [fs]).add("id", q, w)
            if ver > 2: x.add("flags", q + 8, 1).add("flags", q + 9, 1)
            words(x, b, q + hl, x.end, 14, 1); x.add("text", x.body + (x.end - x.body) // 2, 1).add("text", x.end - 1, 1)
            out.append(x); q += hl + n
        if q < end: out.append(Part("id3v2.%d/padding" % ver, q, q, end, "leaf"))
        o = end + (10 if b[o + 5] & 0x10 and ver == 4 else 0)
    return out, o
def tail_parts(b):
    out = []
    if b[-128:-125] == b"TAG":
        p = Part("id3v1", len(b) - 128, len(b) - 125, len(b), "top").add("id", len(b) - 128, 3); words(p, b, len(b) - 125, len(b), 125, 1, kind="text"); out.append(p)
    i = b.rfind(b"APETAGEX")
    if i >= 0: out.append(words(Part("ape", i, i + 8, min(i + 32, len(b)), "top").add("id", i, 8), b, i + 8, min(i + 32, len(b)), 6, 4, "le", "size"))
    return out
def flac_parts(b):
    out, o = id3_parts(b)
    if b[o:o + 4] == b"fLaC":
        out.append(Part("fLaC", o, o + 4, o + 4, "leaf").add("id", o, 4)); o += 4
        while o + 4 <= len(b):
            t, n = b[o], int.from_bytes(b[o + 1:o + 4], "big")
            p = Part("flac/b%d" % (t & 0x7F), o, o + 4, min(o + 4 + n, len(b)), "top").add("id", o, 1).add("flags", o, 1).add("size", o + 1, 3)
            if t & 0x7F == 4: vc_fields(p, b, o + 4, p.end)
            elif t & 0x7F == 6:
                q = o + 8; p.add("data", o + 4, 4)
                if q + 4 <= p.end: p.add("size", q, 4); q += 4 + int.from_bytes(b[q:q + 4], "big")
                if q + 4 <= p.end: p.add("size", q, 4); q += 4 + int.from_bytes(b[q:q + 4], "big") + 16
                if q + 4 <= p.end: p.add("size", q, 4)
            else: words(p, b, o + 4, p.end, 36, 1)
            out.append(p); o += 4 + n
            if t & 0x80: break
        if o < len(b): out.append(words(Part("flac/frame", o, o, len(b), "top"), b, o, len(b), 6, 1))
    return out + tail_parts(b)
def mp3_parts(b):
    out, o = id3_parts(b)
    if o < len(b):
        p = Part("mpeg", o, o + 4, len(b), "top"); words(p, b, o, len(b), 4, 1, kind="flags"); p.add("data", o, 4)
        for m in (b"Xing", b"Info", b"VBRI"):
            i = b.find(m, o, o + 200)
            if i > 0: p.add("id", i, 4).add("flags", i + 4, 4); words(p, b, i + 8, len(b), 4, 4, kind="count")
        out.append(p)
    return out + tail_parts(b)
def misc_parts(b):
    out, o = id3_parts(b)
    if b[o:o + 4] == b"RIFF":
        p = Part("riff", o, o + 12, len(b), "top").add("id", o, 4).add("size", o + 4, 4, "le").add("id", o + 8, 4); out.append(p)
        q = o + 12
        while q + 8 <= len(b):
            n = int.from_bytes(b[q + 4:q + 8], "little")
            x = Part("riff/" + b[q:q + 4].decode("latin-1"), q, q + 8, min(q + 8 + n, len(b)), "leaf").add("id", q, 4).add("size", q + 4, 4, "le")
            words(x, b, q + 8, x.end, 10, 2, "le"); out.append(x); q += 8 + n + (n & 1)
    else:
        p = Part("raw:" + b[o:o + 4].decode("latin-1"), o, o, len(b), "top"); words(p, b, o, len(b), 48, 1); words(p, b, o, len(b), 12, 4, "le", "count"); out.append(p)
    return out + tail_parts(b)
WALK = {"mp4": mp4_parts, "mkv": mkv_parts, "ogg": ogg_parts, "flac": flac_parts, "mp3": mp3_parts}
def parts(key, b):
    try: return WALK.get(key.split(".")[0], misc_parts)(b)
    except (Bad, IndexError): return misc_parts(b)

# ------------------------------------------------------------------ instances
def instances(b, P, d, at):
    """All mutations (in the driver's notation, with a key saying what has been hit) for the damage d in parts of the kind `at`."""
    k, v = d["k"], d["v"]
    n = len(b)
    for j, p in enumerate(P):
        if p.at != at: continue
        if k == "cut":
            o = dict(start=p.off, start1=p.off + 1, body=p.body, body1=p.body + 1, mid=(p.body + p.end) // 2, last=p.end - 1)[v]
            yield (p.id, k, v), "t:%d" % o
        elif k == "part":
            if v == "drop": yield (p.id, k, v), "d:%d:%d" % (p.off, p.end - p.off)
            elif v == "repeat" and p.end - p.off < 20000: yield (p.id, k, v), "c:%d:%d:%d" % (p.off, p.end - p.off, p.end)
            elif v == "exchange":
                q = next((x for x in P[j + 1:] if x.off == p.end), None)
                if q and q.end - q.off < 20000: yield (p.id, k, v), "c:%d:%d:%d;d:%d:%d" % (q.off, q.end - q.off, p.off, p.end + (q.end - q.off), q.end - q.off)
            elif v == "junk": yield (p.id, k, v), "i:%d:a1b2c3" % p.off
            elif v == "empty": yield (p.id, k, v), "d:%d:%d" % (p.body, p.end - p.body)
        else:
            for i, f in enumerate(p.fields):
                if f[0] != k: continue
                cur, m = rd(b, f), top(f)
                if v == "other":
                    o = [x for q in P for x in q.fields if x[0] == "id" and x[2] == f[2] and b[x[1]:x[1] + x[2]] != b[f[1]:f[1] + f[2]]]
                    if not o: continue
                    x = o[(j * 7 + i) % len(o)]; nv = b[x[1]:x[1] + x[2]]
                    yield (p.id, i, k, v), "w:%d:%s" % (f[1], nv.hex()); continue
                nv = dict(zero=0, one=1, less=cur - 1, more=cur + 1, half=m // 2 + 1, max=m, shrink=cur // 2, toend=n - p.body, beyond=n - p.body + 1, header=max(0, p.body - p.off - 1), self=p.off, eof=n)[v]
                nb = wr(b, f, nv)
                if nb != b[f[1]:f[1] + f[2]]: yield (p.id, i, k, v), "w:%d:%s" % (f[1], nb.hex())
