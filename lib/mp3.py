"""MPEG audio files: builder and reader."""
from common import *
import id3

BR = {1: [0,32,40,48,56,64,80,96,112,128,160,192,224,256,320]}
def frames(n=20, seed=1, br=9, sr=0, mode=0, xing=None, version=3, layer=1):
    """MPEG-1 layer 3 frames (128 kbit/s, 44.1 kHz by default)."""
    rate = {3: [44100, 48000, 32000], 2: [22050, 24000, 16000], 0: [11025, 12000, 8000]}[version][sr]
    table = {(3, 3): [0,32,64,96,128,160,192,224,256,288,320,352,384,416,448], (3, 2): [0,32,48,56,64,80,96,112,128,160,192,224,256,320,384],
             (3, 1): [0,32,40,48,56,64,80,96,112,128,160,192,224,256,320], (2, 3): [0,32,48,56,64,80,96,112,128,144,160,176,192,224,256],
             (2, 2): [0,8,16,24,32,40,48,56,64,80,96,112,128,144,160], (2, 1): [0,8,16,24,32,40,48,56,64,80,96,112,128,144,160]}
    kb = table[(3 if version == 3 else 2, layer)][br]
    spf = {3: {3: 384, 2: 1152, 1: 1152}, 2: {3: 384, 2: 1152, 1: 576}}[3 if version == 3 else 2][layer]
    size = spf // 8 * kb * 1000 // rate if layer != 3 else (12 * kb * 1000 // rate) * 4
    out = []
    for i in range(n):
        hdr = bytes([0xFF, 0xE0 | (version << 3) | (layer << 1) | 1, (br << 4) | (sr << 2), mode << 6])
        body = bytearray(noise((seed, i).__hash__() & 0xFFFFFFFF, size - 4))
        if i == 0 and xing is not None:
            o = (32 if mode != 3 else 17) if version == 3 else (17 if mode != 3 else 9)
            body[:o] = b"\0" * o
            body[o:o + len(xing)] = xing
        out.append(hdr + bytes(body))
    return out

def build(v2=(), v1=None, ape=b"", audio=None, lead=b"", apehead=b""):
    return apehead + b"".join(v2) + lead + b"".join(audio if audio is not None else frames()) + ape + (v1 or b"")

def ape_tag(items=((b"Title", b"Ape"),)):
    body = b"".join(le(4, len(v)) + le(4, 0) + k + b"\0" + v for k, v in items)
    n = le(4, len(body) + 32) + le(4, len(items))
    return b"APETAGEX" + le(4, 2000) + n + le(4, 0xA0000000) + b"\0" * 8 + body + b"APETAGEX" + le(4, 2000) + n + le(4, 0x80000000) + b"\0" * 8

def project(b):
    r = new_proj("mp3")
    r["size"], r["sha"] = len(b), tok(b, 16)
    off, end = 0, len(b)
    try:
        while b[off:off + 3] == b"ID3":
            t, total, pad = id3.read_tag(b, off, r["errs"])
            r["tags"].append(t)
            off += total
            r["pad"] += pad
            r["tagpos"] = "before"
    except Bad as e:
        r["errs"].append(e.rule)
    if end - off >= 128 and b[end - 128:end - 125] == b"TAG":
        r["tags"].append(id3.read_v1(b))
        end -= 128
    i = b.find(b"APETAGEX", off, end)
    if i >= 0 and b[end - 32:end - 24] == b"APETAGEX":
        r["others"].append("ape:" + tok(b[i:end]))
        end = i
    pos = off
    if b[pos:pos + 1] == b"\0":   # zero bytes between tag and first frame
        n = pos
        while n < end and b[n] == 0: n += 1
        r["info"]["lead"] = n - pos
        pos = n
        r["errs"].append("mp3-garbage-before-audio")
    # frame by frame, payload must be exactly a sequence of frames
    count = 0
    data = b[pos:end]
    for k in range(0, max(1, len(data)), 4096):
        r["media"].append(tok(data[k:k + 4096]))
    r["media"].append("len=%d" % len(data))
    if len(data) >= 2 and not (data[0] == 0xFF and data[1] & 0xE0 == 0xE0):
        r["errs"].append("mp3-no-sync")
    if b"TAG" == data[-128:][:3] and len(data) >= 128:
        r["errs"].append("id3v1-not-last")
    return r
