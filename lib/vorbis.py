"""Vorbis comments (independent builder/reader)."""
from common import *
import base64

def comment(fields=(), vendor="ref"):
    v = vendor.encode()
    out = le(4, len(v)) + v + le(4, len(fields))
    for k, x in fields:
        e = (k + "=" + x).encode() if isinstance(x, str) else k.encode() + b"=" + x
        out += le(4, len(e)) + e
    return out
def read_comment(b):
    """Returns vendor, [(name, value bytes)], bytes used."""
    def u32(p):
        if p + 4 > len(b): raise Bad("vorbis-truncated")
        return int.from_bytes(b[p:p + 4], "little")
    n = u32(0); p = 4
    if p + n > len(b): raise Bad("vorbis-truncated")
    vendor = b[p:p + n]; p += n
    cnt = u32(p); p += 4
    out = []
    for _ in range(cnt):
        n = u32(p); p += 4
        if p + n > len(b): raise Bad("vorbis-truncated")
        e = b[p:p + n]; p += n
        i = e.find(b"=")
        if i < 0:
            out.append((esc(e), None))
            continue
        name = e[:i]
        if any(c < 0x20 or c > 0x7D for c in name): raise Bad("vorbis-field-name", repr(name))
        out.append((name.decode(), e[i + 1:]))
    return vendor, out, p
def fields_of(vendor, fs):
    import flac
    out = []
    if vendor: out.append(["vendor", [esc(vendor)]])
    for name, v in fs:
        if v is None:
            out.append([name, ["(no separator)"]]); continue
        if name.upper() == "METADATA_BLOCK_PICTURE":
            try: v = flac.read_picture(base64.b64decode(v, validate=True))
            except ValueError: raise Bad("vorbis-picture-base64")
            out.append(["METADATA_BLOCK_PICTURE", [v]])
            continue
        try: v.decode("utf-8")
        except UnicodeDecodeError: raise Bad("vorbis-not-utf8", name)
        out.append([name.upper(), [esc(v)]])
    return out
def group(fields):
    """Groups values by field name keeping the order of first occurrence and of the values."""
    idx, out = {}, []
    for k, vs in fields:
        if k not in idx:
            idx[k] = len(out); out.append([k, []])
        out[idx[k]][1].extend(vs)
    return out
