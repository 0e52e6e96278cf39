"""Independent ID3v1/ID3v2 builder and strict reader."""
from common import *

ENC = {0: "latin-1", 1: "utf-16", 2: "utf-16-be", 3: "utf-8"}

def synchsafe(v):
    return bytes([(v >> 21) & 0x7F, (v >> 14) & 0x7F, (v >> 7) & 0x7F, v & 0x7F])
def unsynchsafe(b, what="ID3v2 size"):
    if any(c & 0x80 for c in b):
        raise Bad("id3v2-synchsafe", what)
    return (b[0] << 21) | (b[1] << 14) | (b[2] << 7) | b[3]

def enc_text(s, enc):
    if enc == 1:
        return b"\xff\xfe" + s.encode("utf-16-le")
    return s.encode(ENC[enc])
def term(enc):
    return b"\0\0" if enc in (1, 2) else b"\0"

def text_frame(s, enc=3):
    vals = s if isinstance(s, list) else [s]
    return bytes([enc]) + term(enc).join(enc_text(v, enc) for v in vals)
def comment_frame(s, lang="eng", desc="", enc=0):
    return bytes([enc]) + lang.encode() + enc_text(desc, enc) + term(enc) + enc_text(s, enc)
def picture_frame(data, mime="image/jpeg", ptype=3, desc="", enc=0):
    return bytes([enc]) + mime.encode() + b"\0" + bytes([ptype]) + enc_text(desc, enc) + term(enc) + data
def picture_frame22(data, fmt="JPG", ptype=3, desc="", enc=0):
    return bytes([enc]) + fmt.encode() + bytes([ptype]) + enc_text(desc, enc) + term(enc) + data

def frame(ver, fid, body, flags=0, extra=b""):
    """extra: additional header bytes covered by the frame size (group byte, decompressed size)."""
    if ver == 2:
        return fid.encode() + be(3, len(body)) + body
    size = len(extra) + len(body)
    return fid.encode() + (synchsafe(size) if ver >= 4 else be(4, size)) + be(2, flags) + extra + body

def tag(ver, frames, padding=0, flags=0, exthdr=b"", rev=0):
    body = exthdr + b"".join(frames) + b"\0" * padding
    if ver < 4 and flags & 0x80: body = unsync(body)
    head = bytes([ver, rev, flags]) + synchsafe(len(body))
    return b"ID3" + head + body + (b"3DI" + head if ver >= 4 and flags & 0x10 else b"")

def v1(title="", artist="", album="", year="", comment="", track=None, genre=255):
    f = lambda s, n: (s if isinstance(s, bytes) else s.encode("latin-1")).ljust(n, b"\0")[:n]
    c = f(comment, 28) + bytes([0, track]) if track is not None else f(comment, 30)
    return b"TAG" + f(title, 30) + f(artist, 30) + f(album, 30) + f(year, 4) + c + bytes([genre])

# ------------------------------------------------------------------ reading
def dec_text(enc, b, where):
    if enc not in ENC:
        raise Bad("id3v2-text-encoding", where)
    try:
        if enc == 1:
            if not b:
                return ""
            if b[:2] not in (b"\xff\xfe", b"\xfe\xff"):
                raise Bad("id3v2-missing-bom", where)
        return b.decode(ENC[enc])
    except UnicodeDecodeError:
        raise Bad("id3v2-undecodable-text", where)

def split_term(enc, b, where, need=True):
    if enc in (1, 2):
        i = 0
        while i + 1 < len(b):
            if b[i] == 0 and b[i + 1] == 0:
                return b[:i], b[i + 2:]
            i += 2
    else:
        i = b.find(b"\0")
        if i >= 0:
            return b[:i], b[i + 1:]
    if need:
        raise Bad("id3v2-unterminated", where)
    return b, b""

def texts(enc, b, where):
    out = []
    while b:
        head, b = split_term(enc, b, where, need=False)
        out.append(dec_text(enc, head, where))
    while out and out[-1] == "":
        out.pop()
    return out

def read_frame_value(ver, fid, body):
    w = fid
    if not body:
        raise Bad("id3v2-empty-frame", fid)
    comm = ("COMM", "USLT") if ver >= 3 else ("COM", "ULT")
    if fid in ("TXXX", "TXX"):
        return ["raw:" + tok(body)]
    if fid[0] == "T":
        return [esc(t) for t in texts(body[0], body[1:], w)]
    if fid[0] == "W" and fid not in ("WXXX", "WXX"):
        return [esc(t) for t in texts(0, body, w)]
    if fid in comm:
        enc, lang = body[0], body[1:4]
        d, rest = split_term(enc, body[4:], w)
        t, _ = split_term(enc, rest, w, need=False)
        return ["lang=%s|desc=%s|%s" % (esc(lang.rstrip(b"\0")), esc(dec_text(enc, d, w)), esc(dec_text(enc, t, w)))]
    if fid == "APIC":
        enc = body[0]
        m, rest = split_term(0, body[1:], w)
        pt, rest = rest[0], rest[1:]
        d, data = split_term(enc, rest, w)
        return ["mime=%s|type=%d|desc=%s|%d:%s" % (esc(m), pt, esc(dec_text(enc, d, w)), len(data), tok(data))]
    if fid == "PIC":
        enc, m, pt = body[0], body[1:4], body[4]
        d, data = split_term(enc, body[5:], w)
        mime = {b"JPG": "image/jpeg", b"PNG": "image/png", b"GIF": "image/gif"}.get(m, m.decode("latin-1"))
        return ["mime=%s|type=%d|desc=%s|%d:%s" % (esc(mime), pt, esc(dec_text(enc, d, w)), len(data), tok(data))]
    if fid in ("PCNT", "CNT"):
        return ["%d" % int.from_bytes(body, "big")]
    if fid in ("POPM", "POP"):
        u, rest = split_term(0, body, w)
        return ["%s|%d|%d" % (esc(u), rest[0], int.from_bytes(rest[1:], "big"))]
    return ["raw:" + tok(body)]

def sync(b): return b.replace(b"\xff\0", b"\xff")
def unsync(b):
    out = bytearray()
    for i, c in enumerate(b):
        out.append(c)
        if c == 0xFF and (i + 1 == len(b) or b[i + 1] >= 0xE0 or b[i + 1] == 0): out.append(0)
    return bytes(out)

def read_tag(b, off, errs):
    """Returns (tag projection, total size, padding)."""
    if b[off:off + 3] != b"ID3":
        raise Bad("id3v2-signature")
    if len(b) < off + 10:
        raise Bad("id3v2-truncated")
    ver, rev, flags = b[off + 3], b[off + 4], b[off + 5]
    if ver not in (2, 3, 4):
        raise Bad("id3v2-version", str(ver))
    size = unsynchsafe(b[off + 6:off + 10])
    end = off + 10 + size
    if end > len(b):
        raise Bad("id3v2-truncated")
    total = 10 + size
    p = off + 10
    if flags & 0x80 and ver < 4: # unsynchronisation of the tag as a whole
        b = sync(b[p:end]); p, end = 0, len(b)
    if ver >= 3 and flags & 0x40:
        es = unsynchsafe(b[p:p + 4]) if ver >= 4 else int.from_bytes(b[p:p + 4], "big") + 4
        p += es
    if ver >= 4 and flags & 0x10:
        if b[end:end + 10] != b"3DI" + b[off + 3:off + 10]:
            raise Bad("id3v2-footer-missing")
        total += 10
    fields, pad = [], 0
    hs, idl = (6, 3) if ver == 2 else (10, 4)
    while p < end:
        if b[p] == 0:
            if any(b[p:end]):
                raise Bad("id3v2-nonzero-padding", "at %d" % p)
            pad = end - p
            break
        if p + hs > end:
            raise Bad("id3v2-frame-header-truncated")
        fid = b[p:p + idl]
        if not all(0x30 <= c <= 0x39 or 0x41 <= c <= 0x5A for c in fid):
            raise Bad("id3v2-frame-id", repr(fid))
        fid = fid.decode()
        fflags = 0
        if ver == 2:
            fs = int.from_bytes(b[p + 3:p + 6], "big")
        else:
            fs = unsynchsafe(b[p + 4:p + 8], fid) if ver >= 4 else int.from_bytes(b[p + 4:p + 8], "big")
            fflags = int.from_bytes(b[p + 8:p + 10], "big")
        if p + hs + fs > end:
            raise Bad("id3v2-frame-truncated", fid)
        body = b[p + hs:p + hs + fs]
        note = ""
        if ver >= 3 and fflags & 0xFF:
            grp, comp, encr = ((fflags & 0x40), (fflags & 0x08), (fflags & 0x04)) if ver >= 4 else ((fflags & 0x20), (fflags & 0x80), (fflags & 0x40))
            note = "comp|" if comp else ""
            if encr:
                fields.append([fid, ["encr:" + tok(body)]]); p += hs + fs; continue
            import zlib
            if ver >= 4:
                if grp: note += "grp=%d|" % body[0]; body = body[1:]
                if comp or fflags & 1: dl = unsynchsafe(body[:4]); body = body[4:]
                if fflags & 2: body = sync(body)
                if fflags & 1 and not comp and dl != len(body): raise Bad("id3v2-data-length", fid)
            else:
                if comp: dl = int.from_bytes(body[:4], "big"); body = body[4:]
                if grp: note += "grp=%d|" % body[0]; body = body[1:]
            if comp:
                try: body = zlib.decompress(body)
                except zlib.error: raise Bad("id3v2-compressed-frame", fid)
                if len(body) != dl: raise Bad("id3v2-decompressed-size", fid)
        vals = read_frame_value(ver, fid, body)
        if note: vals = [note + v for v in vals]
        fields.append([fid, vals])
        p += hs + fs
    return dict(type="id3v2.%d" % ver, target="", fields=fields), total, pad

def read_v1(b):
    t = b[-128:]
    s = lambda x: esc(x.rstrip(b"\0 ")[3:] if x.startswith(b"\xef\xbb\xbf") else x.rstrip(b"\0 ").decode("latin-1")) # UTF-8 might have been cut
    fields = []
    for name, x in (("title", t[3:33]), ("artist", t[33:63]), ("album", t[63:93]), ("year", t[93:97])):
        if s(x): fields.append([name, [s(x)]])
    if t[125] == 0:
        if s(t[97:125]): fields.append(["comment", [s(t[97:125])]])
        if t[126]: fields.append(["track", [str(t[126])]])
    elif s(t[97:127]):
        fields.append(["comment", [s(t[97:127])]])
    if t[127] != 255: fields.append(["genre", [str(t[127])]])
    return dict(type="id3v1", target="", fields=fields)
