"""Boundary sweeps: resulting padding, preferred padding and tag sizes around every limit at which an encoding of a length changes (P01, P02, P07, P08, P09)."""
import inputs
from filescn import *

def title(s, n): 
    c, k = SELMAIN[s.fmt]
    s.create().set(c, k, "Title", text("T" * n))

# structures per format; the first one is used for the long sweeps
BASE = {
    "mp3": ["v24", "v23p", "v24v1", "notag"],
    "flac": ["vc", "id3", "pics", "novc", "id3v1"],
    "ogg": ["opus", "vorbis", "flac"],
    "mp4": ["onetrack", "front", "back", "udtaonly", "mdat2mid"],
    "mkv": ["std", "noseek", "cvoidmid", "crc", "tagsback", "wide"],
}
def two(k, fmt, b, name, first, second, o1, o2):
    s = FScn("%s/%s" % (k, name), fmt, b)
    s.load(); title(s, first); s.apply(o1)
    s.load(); title(s, second); s.apply(o2)
    return s
def one(k, fmt, b, name, n, o):
    s = FScn("%s/%s" % (k, name), fmt, b)
    s.load(); title(s, n); s.apply(o)
    s.load().apply(o)
    return s

def scenarios(tier, only=None):
    I = inputs.all_inputs()
    out = []
    deep = tier == "thorough"
    for f, ks in BASE.items():
        for n, k in enumerate(ks):
            k = "%s.%s" % (f, k)
            if only and not k.startswith(only): continue
            fmt, b = I[k]
            # the padding which would result from updating in place passes through every small value
            if fmt != "ogg":
                for d in range(-4, 74) if n < 3 or deep else range(50, 74):
                    out.append(two(k, fmt, b, "slack%d" % (64 - d), 40, 40 + d, opts(pref=64), opts(force=False, max=1 << 30, pref=20)))
                for d in list(range(18, 32)) + list(range(48, 62)):
                    out.append(two(k, fmt, b, "lim%d" % (64 - d), 40, 40 + d, opts(pref=64), opts(force=False, min=10, max=40, pref=20)))
                if fmt in ("mp4", "mkv"):
                    for d in range(52, 74):
                        out.append(two(k, fmt, b, "end%d" % (64 - d), 40, 40 + d, opts(pref=64), opts(force=False, max=1 << 30, pref=9, tag="keep", index="keep", ftag=False, findex=False)))
                        out.append(two(k, fmt, b, "aft%d" % (64 - d), 40, 40 + d, opts(pref=64), opts(force=False, max=1 << 30, pref=9, tag="after", index="after")))
            # preferred padding
            for p in list(range(0, 14)) + [60, 126, 127, 128, 129, 130, 131, 132, 254, 255, 256, 257, 16381, 16382, 16383, 16384, 16385, 16386, 16387] + ([65535, 65536, 2097149, 2097150, 2097151, 2097152, 2097153, 2097154, 2097155] if n == 0 or deep else []) + ([16777211, 16777212, 16777215, 16777216] if deep and n == 0 else []):
                out.append(one(k, fmt, b, "pref%d" % p, 30, opts(pref=p)))
            # tag sizes
            L = list(range(60, 140, 1 if n == 0 or deep else 7)) + (list(range(16270, 16392, 1 if deep else 2)) if n == 0 or deep else [])
            if fmt == "ogg": L = list(range(1, 300 if n == 0 or deep else 40)) + (list(range(64700, 65130, 1 if deep else 5)) if n == 0 or deep else []) + list(range(64950, 65030, 9))
            if fmt == "mkv" and n < 2: L += [2 ** 21 - x for x in range(0, 60, 2)] if deep else []
            for x in sorted(set(L)): out.append(one(k, fmt, b, "len%d" % x, x, opts(pref=3 if fmt == "mkv" else 16)))
    return out

def run(tier, seed, prop, only=None):
    return run_file_family(__name__, scenarios(tier, only.split("/")[0] if only else None), only)
