"""Shared helpers of the independent readers/generators (no code of the library under test is used here)."""
import hashlib, struct, random

class Bad(Exception):
    """Raised by the strict readers; `rule` is the violated structural rule."""
    def __init__(self, rule, detail=""):
        super().__init__(f"{rule}: {detail}")
        self.rule, self.detail = rule, detail

def tok(b, n=10):
    return hashlib.sha1(bytes(b)).hexdigest()[:n]

def esc(s):
    """Text as plain ASCII token usable in TLA+ strings (percent-encoded UTF-8)."""
    if isinstance(s, bytes):
        raw = s
    else:
        raw = s.encode("utf-8", "surrogatepass")
    out = []
    for c in raw:
        if 0x20 <= c < 0x7F and c not in (0x22, 0x25, 0x5C):
            out.append(chr(c))
        else:
            out.append("%%%02X" % c)
    r = "".join(out)
    if len(r) > 200:
        r = r[:40] + "..#" + str(len(raw)) + "#" + tok(raw)
    return r

def noise(seed, n, avoid=(0xFF,)):
    r = random.Random(seed)
    b = bytearray(r.getrandbits(8) for _ in range(n))
    for i in range(n):
        if b[i] in avoid:
            b[i] = 0x55
    return bytes(b)

def be(n, v): return int(v).to_bytes(n, "big")
def le(n, v): return int(v).to_bytes(n, "little")

def new_proj(fmt):
    return dict(fmt=fmt, errs=[], media=[], refs=[], others=[], tags=[], pad=0, tagpos="none", idxpos="none", size=0, sha="", info={})
