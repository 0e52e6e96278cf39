"""Further file formats: ADTS, WAVE, IVF, and files of no supported format."""
from common import *

def adts(n=10, freq=4, ch=2, profile=1, seed=1, size=120):
    out = b""
    for i in range(n):
        body = noise(seed + i, size + i)
        ln = 7 + len(body)
        v = (0xFFF << 44) | (0 << 43) | (0 << 41) | (1 << 40) | (profile << 38) | (freq << 34) | (0 << 33) | (ch << 30) | (0 << 26) | (ln << 13) | (0x7FF << 2)
        out += be(7, v) + body
    return out

def wav(rate=44100, ch=2, bits=16, seconds=1, fmt=1, extra=b"", junk=b"", tail=b""):
    align = ch * bits // 8
    f = le(2, fmt) + le(2, ch) + le(4, rate) + le(4, rate * align) + le(2, align) + le(2, bits) + extra
    data = noise(5, int(rate * seconds) * align // 50) # the data size below is what counts, most of it is cut
    data = noise(5, min(len(data), 4000))
    body = b"WAVE" + junk + b"fmt " + le(4, len(f)) + f + b"data" + le(4, len(data)) + data + tail
    return b"RIFF" + le(4, len(body)) + body

def ivf(fourcc=b"VP80", w=320, h=240, den=30, num=1, frames=5, ver=0, hlen=32):
    fr = b"".join(le(4, len(noise(i, 50 + i))) + le(8, i) + noise(i, 50 + i) for i in range(min(frames, 20)))
    return b"DKIF" + le(2, ver) + le(2, hlen) + fourcc + le(2, w) + le(2, h) + le(4, den) + le(4, num) + le(4, frames) + b"\0" * 4 + fr

def misc_inputs():
    import id3
    tagv2 = lambda: id3.tag(4, [id3.frame(4, "TIT2", id3.text_frame("T", 3))], 20)
    return {
        "adts": ("aac", adts()), "adtstags": ("aac", tagv2() + adts() + id3.v1("Ti", "Ar", "Al", "2001", "co", 5, 17)),
        "wav": ("wav", wav()), "wavv1": ("wav", wav() + id3.v1("Ti", "Ar", "Al", "2001", "co", 5, 17)), "wavjunk": ("wav", wav(junk=b"JUNK" + le(4, 28) + b"\0" * 28, tail=b"LIST" + le(4, 10) + b"INFOISFT\2\0\0\0")),
        "ivf": ("ivf", ivf()), "junk": ("bin", noise(3, 5000, ())), "zero": ("bin", b"\0" * 5000), "text": ("txt", b"Hello world, this is no media file.\n" * 40), "empty": ("bin", b""), "tiny": ("bin", b"abc"),
        "tar": ("tar", b"x" * 0x101 + b"ustar\0" + b"00" + b"\0" * 600), "png": ("png", b"\x89PNG\r\n\x1a\n" + noise(77, 500)), "zip": ("zip", b"PK\3\4" + noise(6, 900)), "gz": ("gz", b"\x1f\x8b\x08\0" + noise(7, 900)), "junkv1": ("mp3", noise(3, 5000) + id3.v1("Ti", "Ar", "Al", "2001", "co", 5, 17)),
        "rtf": ("rtf", b"{\\rtf1\\ansi" + noise(8, 300)), "asf": ("wma", bytes.fromhex("3026B2758E66CF11A6D900AA0062CE6C") + noise(9, 400)), "flv": ("flv", b"FLV\x01\x05\0\0\0\x09" + noise(9, 400)), "aiff": ("aiff", b"FORM" + be(4, 400) + b"AIFFCOMM" + noise(2, 400)),
    }
