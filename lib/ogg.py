"""Ogg: builder and strict reader."""
from common import *
import vorbis, flac

_T = []
for i in range(256):
    r = i << 24
    for _ in range(8):
        r = ((r << 1) ^ 0x04C11DB7) if r & 0x80000000 else (r << 1)
    _T.append(r & 0xFFFFFFFF)
def crc(b):
    c = 0
    for x in b:
        c = ((c << 8) & 0xFFFFFFFF) ^ _T[((c >> 24) ^ x) & 0xFF]
    return c

def page(serial, seq, granule, segs, flags=0, data=b""):
    h = b"OggS\0" + bytes([flags]) + le(8, granule & 0xFFFFFFFFFFFFFFFF) + le(4, serial) + le(4, seq) + b"\0\0\0\0" + bytes([len(segs)]) + bytes(segs) + data
    return h[:22] + le(4, crc(h)) + h[26:]

class Stream:
    """Pages of one logical stream; `packets` = list of (granule, bytes, flush) ; max segments per page configurable."""
    def __init__(self, serial, packets, maxseg=255):
        self.serial = serial
        self.pages = []
        seq, segs, data, cont, last_gran, done = 0, [], b"", False, None, 0
        def emit(eos=False):
            nonlocal seq, segs, data, cont, last_gran
            flags = (1 if cont else 0) | (2 if seq == 0 else 0) | (4 if eos else 0)
            self.pages.append(page(serial, seq, last_gran if last_gran is not None else -1, segs, flags, data))
            cont = bool(segs) and segs[-1] == 255
            seq += 1; segs = []; data = b""; last_gran = None
        for i, (g, p, flush) in enumerate(packets):
            lac = [255] * (len(p) // 255) + [len(p) % 255]
            o = 0
            for k, l in enumerate(lac):
                if len(segs) == maxseg: emit()
                segs.append(l); data += p[o:o + l]; o += l
            last_gran = g
            if flush or i == len(packets) - 1:
                emit(i == len(packets) - 1)

def vorbis_id(rate=44100, ch=2, br=128000):
    return b"\x01vorbis" + le(4, 0) + bytes([ch]) + le(4, rate) + le(4, 0) + le(4, br) + le(4, 0) + b"\xb8\x01"
def vorbis_comment(fields=(), vendor="ref", pad=b""):
    return b"\x03vorbis" + vorbis.comment(fields, vendor) + b"\x01" + pad
def vorbis_setup(seed=5, n=3000):
    return b"\x05vorbis" + noise(seed, n)
def opus_head(ch=2, rate=48000, preskip=312):
    return b"OpusHead\x01" + bytes([ch]) + le(2, preskip) + le(4, rate) + le(2, 0) + b"\0"
def opus_tags(fields=(), vendor="ref", pad=b""):
    return b"OpusTags" + vorbis.comment(fields, vendor) + pad
def flac_head(si, nheaders=1):
    return b"\x7fFLAC\x01\x00" + be(2, nheaders) + b"fLaC" + bytes([0]) + be(3, len(si)) + si
def flac_comment(fields=(), vendor="ref", last=True):
    c = vorbis.comment(fields, vendor)
    return bytes([4 | (0x80 if last else 0)]) + be(3, len(c)) + c

def vorbis_stream(serial=1, fields=(), n=30, seed=9, setup=3000, psize=700, flush_hdr=True, maxseg=255, vendor="ref", rate=44100, ch=2, cpad=b"", perpage=4):
    pk = [(0, vorbis_id(rate, ch), True), (0, vorbis_comment(fields, vendor, cpad), flush_hdr), (0, vorbis_setup(seed, setup), True)]
    for i in range(n):
        pk.append(((i + 1) * 1024, bytes([0]) + noise(seed * 1000 + i, psize + i * 7 % 90), i % perpage == perpage - 1))
    return Stream(serial, pk, maxseg)
def opus_stream(serial=2, fields=(), n=30, seed=19, psize=500, maxseg=255, vendor="ref", pad=b"", ch=2, perpage=5):
    pk = [(0, opus_head(ch), True), (0, opus_tags(fields, vendor, pad), True)]
    for i in range(n):
        pk.append(((i + 1) * 960, bytes([0x78]) + noise(seed * 1000 + i, psize + i), i % perpage == perpage - 1))
    return Stream(serial, pk, maxseg)
def flac_stream(serial=3, fields=(), n=20, seed=29, psize=800, extra=(), vendor="ref", si=None):
    pk = [(0, flac_head(si or flac.streaminfo(), 1 + len(extra)), True)]
    pk.append((0, flac_comment(fields, vendor, last=not extra), not extra))
    for i, (t, b) in enumerate(extra):
        pk.append((0, bytes([t | (0x80 if i == len(extra) - 1 else 0)]) + be(3, len(b)) + b, i == len(extra) - 1))
    for i in range(n):
        pk.append(((i + 1) * 4096, b"\xff\xf8" + noise(seed * 1000 + i, psize), i % 3 == 2))
    return Stream(serial, pk)
def unknown_stream(serial=7, n=6, seed=39, psize=300):
    pk = [(0, b"\x80kate\0\0\0" + noise(seed, 40), True)] + [((i + 1) * 10, b"\x12" + noise(seed * 1000 + i, psize), True) for i in range(n)]
    return Stream(serial, pk)

def with_empty(st, at):
    """Inserts a page without segments ("nil page") before page number `at` (negative: the empty page closes the stream)."""
    ps = read_pages(b"".join(st.pages))
    out, seq = [], 0
    if at < 0: at = len(ps)
    for i in range(len(ps) + 1):
        if i == at:
            out.append(page(st.serial, seq, -1 if at < len(ps) else ps[-1]["gran"], [], 4 if at == len(ps) else 0, b"")); seq += 1
        if i < len(ps):
            q = ps[i]
            out.append(page(st.serial, seq, q["gran"], q["segs"], q["flags"] & ~4 if at == len(ps) else q["flags"], q["data"])); seq += 1
    st.pages = out
    return st

def mux(*streams):
    """First pages of all streams first, then round robin."""
    out = [s.pages[0] for s in streams]
    rest = [list(s.pages[1:]) for s in streams]
    while any(rest):
        for r in rest:
            if r: out.append(r.pop(0))
    return b"".join(out)
def chain(*streams):
    return b"".join(b"".join(s.pages) for s in streams)

def read_pages(b):
    pages, off = [], 0
    while off < len(b):
        if b[off:off + 4] != b"OggS": raise Bad("ogg-capture-pattern", "at %d" % off)
        if off + 27 > len(b): raise Bad("ogg-truncated")
        n = b[off + 26]
        segs = b[off + 27:off + 27 + n]
        size = 27 + n + sum(segs)
        if off + size > len(b) or len(segs) != n: raise Bad("ogg-truncated")
        raw = b[off:off + size]
        want = int.from_bytes(raw[22:26], "little")
        ok = crc(raw[:22] + b"\0\0\0\0" + raw[26:]) == want
        g = int.from_bytes(raw[6:14], "little")
        pages.append(dict(off=off, version=raw[4], flags=raw[5], gran=-1 if g == 0xFFFFFFFFFFFFFFFF else g, serial=int.from_bytes(raw[14:18], "little"),
                          seq=int.from_bytes(raw[18:22], "little"), segs=list(segs), data=raw[27 + n:], crc=ok))
        off += size
    return pages

def project(b):
    r = new_proj("ogg")
    r["size"], r["sha"] = len(b), tok(b, 16)
    r["tagpos"] = "before"
    try:
        pages = read_pages(b)
    except Bad as e:
        r["errs"].append(e.rule)
        return r
    r["info"]["pages"] = len(pages)
    chains, cur = [], {}      # logical streams in order of appearance
    pk = []
    for p in pages:
        e = r["errs"]
        if not p["crc"]: e.append("ogg-crc")
        if p["version"]: e.append("ogg-version")
        s = cur.get(p["serial"])
        if p["flags"] & 2:
            if s is not None and not s["eos"]: e.append("ogg-bos-twice")
            s = cur[p["serial"]] = dict(serial=p["serial"], seq=p["seq"], part=b"", open=False, eos=False, packets=[], lastgran=0, pages=[])
            if p["seq"] != 0: e.append("ogg-first-seq")
            chains.append(s)
            s["seq"] = p["seq"] - 1
        if s is None:
            e.append("ogg-missing-bos"); s = cur[p["serial"]] = dict(serial=p["serial"], seq=p["seq"] - 1, part=b"", open=False, eos=False, packets=[], lastgran=0, pages=[]); chains.append(s)
        if s["eos"]: e.append("ogg-page-after-eos")
        if p["seq"] != s["seq"] + 1: e.append("ogg-sequence")
        s["seq"] = p["seq"]
        if bool(p["flags"] & 1) != s["open"]: e.append("ogg-continued-flag")
        if p["flags"] & 4: s["eos"] = True
        o = 0; finished = 0
        for l in p["segs"]:
            s["part"] += p["data"][o:o + l]; o += l
            s["open"] = l == 255
            if l < 255:
                s["packets"].append([p["gran"], s["part"], None]); s["part"] = b""; finished += 1
        if finished:
            if p["gran"] == -1: e.append("ogg-granule-missing")
            elif p["gran"] < s["lastgran"]: e.append("ogg-granule-order")
            else: s["lastgran"] = p["gran"]
            for q in s["packets"][-finished:-1]: q[2] = None
            s["packets"][-1][2] = p["gran"]     # last packet finished on the page carries its granule
        elif p["segs"] and p["gran"] != -1: e.append("ogg-granule-of-unfinished")
        s["pages"].append((p["flags"], p["gran"]))
    for i, s in enumerate(chains):
        if s["open"] or s["part"]: r["errs"].append("ogg-unfinished-packet")
        if not s["eos"]: r["errs"].append("ogg-missing-eos")
        pks = s["packets"]
        name = "s%d(%x)" % (i, s["serial"])
        skip = -1
        try:
            first = pks[0][1] if pks else b""
            if first.startswith(b"\x01vorbis") or first.startswith(b"OpusHead"):
                c = pks[1][1]; skip = 1
                hd = 7 if c.startswith(b"\x03vorbis") else 8 if c.startswith(b"OpusTags") else None
                if hd is None: raise Bad("ogg-comment-header")
                vendor, fs, used = vorbis.read_comment(c[hd:])
                tail = c[hd + used:]
                if hd == 7:
                    if tail[:1] != b"\x01" : raise Bad("vorbis-framing")
                    if any(tail[1:]): r["others"].append(name + ":tail:" + tok(tail))
                elif any(tail): r["others"].append(name + ":tail:" + tok(tail))
                r["tags"].append(dict(type="vorbis", target=name, fields=vorbis.group(vorbis.fields_of(vendor, fs))))
            elif first.startswith(b"\x7fFLAC"):
                # further header packets are metadata blocks
                k, blocks, last = 1, [], False
                while k < len(pks) and not last:
                    q = pks[k][1]
                    t, last = q[0] & 0x7F, bool(q[0] & 0x80)
                    if int.from_bytes(q[1:4], "big") != len(q) - 4: raise Bad("ogg-flac-block-size")
                    blocks.append((t, q[4:])); k += 1
                if blocks and blocks[0][0] != 4: raise Bad("ogg-flac-comment-first")
                if int.from_bytes(first[7:9], "big") not in (0, len(blocks)): raise Bad("ogg-flac-header-count")
                fields = []
                for t, body in blocks:
                    if t == 4:
                        vendor, fs, used = vorbis.read_comment(body)
                        if used != len(body): raise Bad("ogg-flac-comment-size")
                        fields += vorbis.fields_of(vendor, fs)
                    else: r["others"].append("%s:block%d:%s" % (name, t, tok(body)))
                r["tags"].append(dict(type="vorbis", target=name, fields=vorbis.group(fields)))
                skip = len(blocks)
        except Bad as ex:
            r["errs"].append(ex.rule)
        except IndexError:
            r["errs"].append("ogg-header-packets")
        for k, (g, d, lg) in enumerate(pks):
            if skip >= 0 and 1 <= k <= skip: continue
            # payload unit: packet content plus the granule position known for it
            r["media"].append("%s#%d:%d:%s%s" % (name, k - max(skip, 0) if k else 0, len(d), tok(d, 8), "" if lg is None or k <= max(skip, 0) + 1 else "@%d" % lg))
    r["errs"] = sorted(set(r["errs"]))
    return r
