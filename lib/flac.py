"""FLAC files: builder and strict reader; FLAC metadata blocks."""
from common import *
import id3, vorbis

def streaminfo(rate=44100, ch=2, bps=16, samples=441000, minb=4096, maxb=4096, minf=0, maxf=0, md5=b"\x11" * 16):
    v = (rate << 44) | ((ch - 1) << 41) | ((bps - 1) << 36) | samples
    return be(2, minb) + be(2, maxb) + be(3, minf) + be(3, maxf) + be(8, v) + md5
def picture(data, ptype=3, mime="image/png", desc="", w=1, h=2, depth=24, colors=0):
    d = desc.encode()
    return be(4, ptype) + be(4, len(mime)) + mime.encode() + be(4, len(d)) + d + be(4, w) + be(4, h) + be(4, depth) + be(4, colors) + be(4, len(data)) + data
def read_picture(b):
    try:
        p = 4
        pt = int.from_bytes(b[:4], "big")
        n = int.from_bytes(b[p:p + 4], "big"); mime = b[p + 4:p + 4 + n]; p += 4 + n
        n = int.from_bytes(b[p:p + 4], "big"); desc = b[p + 4:p + 4 + n]; p += 4 + n
        p += 16
        n = int.from_bytes(b[p:p + 4], "big"); data = b[p + 4:p + 4 + n]; p += 4 + n
        if p != len(b) or len(data) != n:
            raise Bad("flac-picture-size", "%d != %d" % (p, len(b)))
        return "mime=%s|type=%d|desc=%s|%d:%s" % (esc(mime), pt, esc(desc), len(data), tok(data))
    except (IndexError, struct.error):
        raise Bad("flac-picture-truncated")

STREAMINFO, PADDING, APPLICATION, SEEKTABLE, COMMENT, CUESHEET, PICTURE = range(7)
def build(blocks, audio, id3v2=b"", id3v1=b""):
    out = [id3v2, b"fLaC"]
    for i, (t, body) in enumerate(blocks):
        out.append(bytes([t | (0x80 if i == len(blocks) - 1 else 0)]) + be(3, len(body)) + body)
    return b"".join(out) + audio + id3v1
def audio(seed=1, n=20000):
    return b"\xff\xf8\xc9\x18" + noise(seed, n)

def read_blocks(b, off):
    """Returns list of (type, body) and the end offset; strict."""
    blocks = []
    while True:
        if off + 4 > len(b):
            raise Bad("flac-block-truncated")
        t, n = b[off], int.from_bytes(b[off + 1:off + 4], "big")
        if t & 0x7F > 6:
            raise Bad("flac-block-type", str(t & 0x7F))
        body = b[off + 4:off + 4 + n]
        if len(body) != n:
            raise Bad("flac-block-truncated")
        blocks.append((t & 0x7F, body))
        off += 4 + n
        if t & 0x80:
            return blocks, off

def project_blocks(r, blocks):
    if not blocks or blocks[0][0] != STREAMINFO or len(blocks[0][1]) != 34:
        r["errs"].append("flac-streaminfo-first")
    fields, seen = [], 0
    for t, body in blocks:
        if t == PADDING:
            r["pad"] += len(body) + 4
            r["info"]["padblocks"] = r["info"].get("padblocks", 0) + 1
            if any(body): r["errs"].append("flac-nonzero-padding")
        elif t == COMMENT:
            seen += 1
            if seen > 1: r["errs"].append("flac-multiple-comments")
            vendor, fs, used = vorbis.read_comment(body)
            if used != len(body): r["errs"].append("flac-comment-size")
            fields += vorbis.fields_of(vendor, fs)
        elif t == PICTURE:
            fields.append(["METADATA_BLOCK_PICTURE", [read_picture(body)]])
        else:
            r["others"].append("block%d:%d:%s" % (t, len(body), tok(body)))
    if fields or seen:
        r["tags"].append(dict(type="vorbis", target="", fields=vorbis.group(fields)))
        r["tagpos"] = "before"

def project(b):
    r = new_proj("flac")
    r["size"], r["sha"] = len(b), tok(b, 16)
    off, end = 0, len(b)
    try:
        while b[off:off + 3] == b"ID3":
            t, total, pad = id3.read_tag(b, off, r["errs"])
            r["tags"].append(t); off += total
            r["pad"] += pad
            r["info"]["id3pad"] = r["info"].get("id3pad", 0) + pad
        if b[end - 128:end - 125] == b"TAG":
            r["tags"].append(id3.read_v1(b)); end -= 128
        if b[off:off + 4] != b"fLaC":
            raise Bad("flac-signature")
        blocks, off = read_blocks(b, off + 4)
        project_blocks(r, blocks)
    except Bad as e:
        r["errs"].append(e.rule)
    data = b[off:end]
    for k in range(0, max(1, len(data)), 4096):
        r["media"].append(tok(data[k:k + 4096]))
    r["media"].append("len=%d" % len(data))
    if data[:2] != b"\xff\xf8": r["errs"].append("flac-no-sync")
    return r
