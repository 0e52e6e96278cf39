"""Conversions and comparisons of tag values: encoding chains exported by TLC from MCValues, and values of every type taken to every representation
(P13); everything the real code answers is validated against Values (ValuesTrace)."""
import json, random, re
import plans, tlc, vbuild
from runner import *

ENC = {"l1": "latin-1", "u8": "utf-8", "le": "utf-16-le", "be": "utf-16-be"}
ENCNO = {0: "l1", 1: "u8", 2: "le", 3: "be", 4: "un"}
TARGETS = ["str", "u8", "l1", "le", "be", "w", "wb", "disp", "i", "u", "g", "p", "ts", "dt", "dtx", "pop", "empty", "null"]
def cps(s): return [ord(c) for c in s]
def num(n): return dict(s=n < 0, d=[int(c) for c in str(abs(n))])
def enc(cs, e):
    return b"".join(bytes([c]) if e == "l1" else chr(c).encode(ENC[e], "surrogatepass") for c in cs)

class VV:
    """A value: its driver token and its record of the specification."""
    def __init__(self, tok, conv=None, **rec):
        self.tok, self.conv = tok, conv
        self.rec = dict(dict(desc=[], de="l1", mime=""), **rec)
    def meta(self, desc=None, de="u8", mime=""):
        t, r = self.tok, dict(self.rec)
        if desc is not None:
            t += "~desc%s=%s" % ("" if de == "u8" else de, q(enc(cps(desc), de))); r["desc"], r["de"] = cps(desc), de
        if mime: t += "~mime=" + q(mime); r["mime"] = mime
        v = VV(t, self.conv); v.rec = r
        return v
def T(s, e="u8", w=None, c=None):
    c = cps(s) if c is None else c
    v = VV("%s~%s" % (e, q(enc(c, e))), t="text", e=e, c=c)
    if w: v.rec["w"] = w.rec
    return v
def bad(b, e): return VV("%s~%s" % (e, q(b)), t="bytes", e=e, b=list(b))
def I(n): return VV(V.i(n), t="int", n=num(n))
def U(n): return VV(V.u(n), t="uint", n=num(n))
def P(a, b=0): return VV(V.p(a, b), t="pos", p=num(a), q=num(b))
def G(n): return VV(V.g(n), t="genre", n=num(n))
def TS(neg, secs, sub): return VV(V.ts((-1 if neg else 1) * (secs * 10000000 + sub)), t="ts", neg=neg, secs=secs, sub=sub)
def DT(days, secs, sub=0): return VV(V.dt((days * 86400 + secs) * 10000000 + sub), t="dt", days=days, secs=secs, sub=sub)
def DX(text, y, m=1, d=1, h=0, mi=0, s=0, sub=0, delta=0): return VV(V.dti(text), t="dtx", c=cps(text), y=y, m=m, d=d, h=h, mi=mi, s=s, sub=sub, delta=delta)
def POP(user, rating, count, scale): return VV(V.pop(user, rating, count, scale), t="pop", user=cps(user), rating=cps(rating), count=num(count), scale=scale)
NULL = VV("null~", t="null")
def DATA(kind, b): return VV("%s~%s" % (kind, b.hex()), t=kind, b=list(b))

def four(x): return int(round(float(x) * 10000))
def parse_out(to, out):
    b = bytes.fromhex(out)
    if to in ("str", "u8", "l1", "le", "be", "disp"): return list(b)
    if to in ("w", "wb"):
        u = [int(b[i:i + 4], 16) for i in range(0, len(b), 4)]
        return [x for c in u for x in ((c & 255, c >> 8) if to == "w" else (c >> 8, c & 255))] if to == "w" else [x for c in u for x in (c & 255, c >> 8)]
    s = b.decode("utf-8", "replace")
    if to in ("i", "u", "g", "ts"): return num(int(s))
    if to == "p": return [num(int(x)) for x in s.split("/")]
    if to == "dt": return int(s)
    if to == "dtx": return cps(s.rsplit("|", 1)[0])
    if to == "pop": return pop_out(s)
    return s
def pop_out(s):
    u, r, c, sc = s.rsplit("|", 3)
    return dict(user=cps(u), rating=cps(r), count=num(int(c)), scale=int(sc))

class VScn(Scn):
    def __init__(self, id): super().__init__(id); self.ab = {}
    def add(self, cmd, **a):
        self.cmds.append(cmd); self.ab[len(self.cmds)] = a
        return self
    def asg(self, n, v, conv=""):
        r = v.rec
        if conv or (r["t"] == "text" and v.tok.count("~") == 1): return self.add("vasg %s %s %s %s" % (n, r["e"], conv or "un", q(enc(r["c"], r["e"]))), op="asg", n=n, v=r, conv=conv)
        return self.add("v %s %s" % (n, v.tok), op="asg", n=n, v=r, conv="")
    def get(self, n, to): return self.add("vget %s %s" % (n, to), op="get", n=n, to=to)
    def scaled(self, n, sc, rating): return self.add("vget %s pop%d" % (n, sc), op="get", n=n, to="scaled", scale=sc, r4=four(rating))
    def raw(self, n): return self.add("vraw " + n, op="raw", n=n)
    def conv(self, n, e): return self.add("vconv %s %s" % (n, e), op="conv", n=n, e=e)
    def dconv(self, n, e): return self.add("vdesc %s %s" % (n, e), op="dconv", n=n, e=e)
    def cmp(self, a, b, fl=0): return self.add("vcmp %s %s %d" % (a, b, fl), op="cmp", a=a, b=b, ci=bool(fl & 1), nometa=bool(fl & 2))
    def scale(self, f, t, r): return self.add("scale %d %d %s" % (f, t, r), op="scale", **{"from": f, "target": t, "r4": four(r)})
    def lines(self, ev):
        out, by = [dict(op="begin", s=self.id)], {e["i"]: e for e in ev}
        for i in range(1, len(self.cmds) + 1):
            e = by.get(i)
            if e is None: break
            l = dict(self.ab[i], s=self.id, r=e.get("r", "ok"))
            op = l["op"]
            if op == "get":
                if l["r"] == "ok":
                    if l["to"] == "scaled":
                        l["out"] = pop_out(bytes.fromhex(e["out"]).decode("utf-8", "replace")); l["out4"] = four("".join(map(chr, l["out"]["rating"])))
                    else:
                        l["out"] = parse_out(l["to"], e["out"])
                        if l["to"] == "dt":
                            src = self.vals_of(l["n"], i)
                            k = l["out"]
                            l["out"] = dict(ticks=num(k)) if src in ("int", "uint") else dict(days=k // 10000000 // 86400, secs=k // 10000000 % 86400, sub=k % 10000000)
            elif op == "raw": l.update(e=ENCNO[e["enc"]], b=list(bytes.fromhex(e["hex"])), de=ENCNO[e["denc"]], db=list(bytes.fromhex(e["dhex"])), mime=e["mime"])
            elif op == "cmp": l["eq"] = e["eq"]
            elif op == "scale": l.update(ok=e["ok"], out4=four(e["out"]), scale=e["scale"])
            elif op == "genre": l.update(name=cps(e["name"]), idx=e["idx"], valid=e["valid"])
            out.append(l)
        x = ev[-1] if ev and ev[-1].get("cmd") == "exit" else dict(end="lost", code=0)
        out.append(dict(op="exit", s=self.id, end=x.get("end", "?"), code=x.get("code", 0)))
        return out
    def vals_of(self, n, i):
        for k in range(i, 0, -1):
            a = self.ab[k]
            if a["op"] == "asg" and a["n"] == n: return a["v"]["t"]

I32, U64 = 2**31, 2**64
NUMS = [0, 1, 7, 9, 10, 42, 99, 100, 127, 128, 255, 256, 65535, 65536, 1000000, I32 - 2, I32 - 1]
TEXTNUMS = ["0", "7", "42", "-1", "-42", "007", "+5", " 5", "5 ", "-", "+", "5x", "x5", "1.5", "0x10", "12 34", "--5", "5-", str(I32 - 1), str(I32), str(-I32 + 1), str(-I32 - 1), "9999999999", str(2**32), str(2**32 + 5), str(2**63 - 1), str(2**63), str(U64 - 1), str(U64), str(10 * U64), "00000000000000000000000000000005", "191", "192", "254", "255", "256", "-0"]
TEXTPOS = ["4/23", "/7", "4/", "/", "4//7", "4/2/3", "x/3", "3/x", "-1/5", "1/-5", " 4/5", "04/05", "%d/%d" % (I32 - 1, I32 - 1), "%d/1" % I32, "1/%d" % I32, "0/0", "0/5", "5/0"]
TEXTPOP = ["3", "3.5", "user|4", "user|4|7", "|4", "|4|7", "user|4.25|%d" % (U64 - 1), "user|4|%d" % U64, "user|x|1", "user|4|x", "user|4|-1", "a|b|c|d", "some one", "|", "||", "user||", "j\u00fcrgen|5|3", "200.0", "user|0|0", "\u65e5|2.5|1"]
SAMPLES = ["a", "Hello, World", "\u00e4\u00f6\u00fc\u00df", "\u00ff\u0080\u009f", "\u65e5\u672c\u8a9e", "\U0001f3b5 x \U0010ffff", "a\0b", "\ufeffabc", "x\ufeff", "\uffff\ud7ff\ue000", "I\u0307\u0130\u0131", "abc" * 700, "\u00e4" * 1500, "\u65e5\U0001f3b5" * 400, "|", "/", " ", "0", "\n", "true", "Blues", "Psybient", "blues", "Rock\u00a0", "A Cappella"]
MAL = [(b"\xff\xfe\xfd", "u8"), (b"abc\xe4", "u8"), (b"\xc0\x80", "u8"), (b"\xed\xa0\x80", "u8"), (b"\xe2\x82", "u8"), (b"\x00\xd8", "le"), (b"\x00\xd8a\x00", "le"), (b"\xd8\x00\x00a", "be"), (b"\xdc\x00", "be"), (b"a", "le"), (b"a\x00b", "le"), (b"\x00a\x00", "be")]
SPANS = [(False, 0, 1), (False, 1, 0), (False, 59, 0), (False, 60, 0), (False, 3599, 9999999), (False, 3600, 0), (False, 86399, 5000000), (False, 86400, 0), (False, 359999, 1230000), (False, 2000000000, 0), (True, 1, 0), (True, 3661, 2500000), (False, 5, 100000), (False, 5, 10)]
DATES = [(0, 0), (364, 0), (365, 86399), (719162, 0), (719162, 1), (730178, 43200), (730119, 3600), (735963, 9600), (738000, 86399), (146096, 0), (146097, 5), (3652058, 86399)]
def isos():
    r = [DX("2004", 2004), DX("2004-02", 2004, 2), DX("2004-02-29", 2004, 2, 29), DX("2004-02-29T23:59:58", 2004, 2, 29, 23, 59, 58), DX("1999-12-31T23:59:58.000+02:00", 1999, 12, 31, 23, 59, 58, 0, 120),
         DX("2000-01-01T00:30:00.000+01:00", 2000, 1, 1, 0, 30, 0, 0, 60), DX("2000-12-31T23:30:00.000-01:30", 2000, 12, 31, 23, 30, 0, 0, -90), DX("1970-01-01T00:00:01", 1970, 1, 1, 0, 0, 1), DX("2015-10-05T05:06:07.250", 2015, 10, 5, 5, 6, 7, 2500000), DX("0987-06-05", 987, 6, 5),
         DX("2012-11-10T09:08", 2012, 11, 10, 9, 8), DX("2012-11-10T09", 2012, 11, 10, 9)]
    return r

def base_values(deep):
    out = []
    for e in ENC:
        for s in TEXTNUMS + TEXTPOS + TEXTPOP + SAMPLES:
            if e == "l1" and any(ord(c) > 255 for c in s): continue
            if len(s) > 100 and not deep and e == "be": continue
            out.append(T(s, e))
        for g in ("Blues", "Rock", "R&B", "Psybient", "Hip-Hop", "Negerpunk"): out.append(T(g, e))
        out.append(T("", e))
    for n in NUMS + [-1, -42, -I32 + 1]: out.append(I(n))
    for n in NUMS + [191, 192, I32, I32 + 1, 2**32 - 1, 2**32, 2**32 + 5, 2**52, 2**63 - 2, 2**63 - 1, 2**63, U64 - 1]: out.append(U(n))
    for a, b in [(0, 0), (1, 0), (4, 23), (0, 7), (I32 - 1, I32 - 1), (-1, 5), (1, -5), (255, 256), (-I32 + 1, 1), (10, 10)]: out.append(P(a, b))
    for n in list(range(0, 192, 1 if deep else 13)) + [190, 191, 192, 254, 255, 256, 300, 1000, -1]: out.append(G(n))
    for n in (191, 192, 254, 256, 300): out.append(I(n))
    for s in SPANS: out.append(TS(*s))
    for d in DATES: out.append(DT(*d))
    out.append(DT(735963, 9600, 1230000)); out.append(DT(735963, 9600, 7))
    out += isos()
    for u, r, c, sc in [("", "3", 0, 0), ("", "3.5", 0, 0), ("", "0", 0, 0), ("user", "4", 7, 0), ("user", "4.25", U64 - 1, 2), ("j\u00fcrgen", "128", 3, 2), ("\u65e5", "80", 1, 16), ("", "0.5", 2, 8), ("a b", "0", 0, 16), ("u", "255", 0, 2), ("", "300000", 0, 0), ("", "9999999999", 0, 0), ("", "-3", 0, 0), ("", "99999999999999", 0, 0), ("", "5", 0, 8), ("5", "0", 0, 0)]: out.append(POP(u, r, c, sc))
    out += [NULL, DATA("bin", b"\x01\x00\x02"), DATA("pic", b"\x89PNG"), DATA("undef", b"abc"), DATA("bin", b"12")]
    return out

def scenarios(tier, seed, P_):
    deep = tier == "thorough"
    rnd = random.Random(seed)
    out = []
    # chains of encodings
    for k in range(0, len(P_), 40):
        s = VScn("chain/%d" % k)
        for j, p in enumerate(P_[k:k + 40]):
            n = "a%d" % j
            for o in p["p"]:
                if o[0] == "asg": s.asg(n, T("", o[1], c=p["c"]).meta(desc="".join(map(chr, p["c"])) if j % 2 and p["c"] else None, de=o[1]), o[2]); cur = o[1]
                elif o[0] == "conv": s.conv(n, o[1])
                else: s.get(n, o[1])
                s.raw(n)
            for t in ("u8", "le", "be", "l1", "w", "wb", "str", "disp"): s.get(n, t)
            if j % 2:
                for e in ("be", "u8", "l1", "le", "u8"): s.dconv(n, e).raw(n)
        out.append(s)
    # assigning with conversion
    k = 0
    for f in ENC:
        for t in ENC:
            s = VScn("assign/%s-%s" % (f, t))
            for x in SAMPLES:
                if f == "l1" and any(ord(c) > 255 for c in x): continue
                v = T(x, f)
                s.asg("a", v, t).raw("a") if all(ord(c) < 256 for c in x.lstrip("\ufeff")) or t != "l1" else s.asg("b", v, t)
            out.append(s)
    # every value in every representation
    vs = base_values(deep)
    for k in range(0, len(vs), 25):
        s = VScn("get/%d" % k)
        for v in vs[k:k + 25]:
            s.asg("a", v)
            for t in TARGETS:
                if v.rec["t"] == "text" and t in ("ts", "dt", "dtx") and v.rec["c"]: continue
                digits = "".join(map(chr, v.rec["c"])) if v.rec["t"] == "text" else "".join(map(str, v.rec["n"]["d"])) if v.rec["t"] == "uint" else ""
                if t == "pop" and re.search("[0-9]{16}", digits) and "|" not in digits: continue       # ratings are floating point numbers
                if t == "pop" and re.match("[+ ]", digits) and "|" not in digits: continue             # leniency of the number parser
                if v.rec["t"] == "pop" and len(v.rec["rating"]) > 7 and t in ("str", "u8", "l1", "le", "be", "w", "wb", "disp"): continue   # six significant digits
                if v.rec["t"] == "null" and t == "disp": continue
                if t == "dtx" and v.rec["t"] in ("text", "null", "int", "uint") or t == "dtx" and v.tok == P(0, 0).tok: continue
                s.get("a", t)
            if v.rec["t"] == "pop" or v.rec["t"] in ("int", "uint") and len(v.rec["n"]["d"]) < 4 and not v.rec["n"]["s"]:
                r = "".join(map(chr, v.rec["rating"])) if v.rec["t"] == "pop" else "".join(map(str, v.rec["n"]["d"]))
                if float(r) < 1000:
                    for sc in (0, 2, 8, 16, 32, 4): s.scaled("a", sc, r)
            for e in ("u8", "be", "l1"):
                s.conv("a", e).raw("a")
                if not (v.rec["t"] == "pop" and len(v.rec["rating"]) > 7): s.get("a", "u8")
        out.append(s)
    # texts of durations and dates
    W = [TS(*x) for x in SPANS if not x[0]] + [DT(*x) for x in DATES if x[0] < 3652058] + [DT(735963, 9600, 1230000)] + isos()
    for e in ENC:
        s = VScn("timetext/" + e)
        for w in W:
            r = w.rec
            text = "".join(map(chr, r["c"])) if r["t"] == "dtx" else span_text(r) if r["t"] == "ts" else date_text(r)
            s.asg("a", T(text, e, w))
            if r["t"] == "ts": s.get("a", "ts")
            elif r["t"] == "dt": s.get("a", "dt")
            else: s.get("a", "dt").get("a", "dtx")
        out.append(s)
    # malformed text
    s = VScn("malformed")
    for b, e in MAL:
        s.asg("a", bad(b, e))
        for t in ("u8", "l1", "le", "be", "str", "disp", "w", "wb"): s.get("a", t)
        for t in ENC: s.conv("a", t).raw("a")
    out.append(s)
    # comparisons
    sel = [T("5"), T("5", "le"), T("5", "be"), T("5", "l1"), T("005"), T("6"), T(""), T("", "le"), T("4/23"), T("4/23", "le"), T("4"), T("Blues"), T("blues"), T("BLUES", "be"), T("x|5|2"), T("X|5|2", "le"), T("3.5"), T("\u00e4"), T("\u00e4", "l1"), T("\u00e4", "be"), T("\u00c4"),
           T("\u4141", "le"), T("\u6161", "le"), T("\u4141", "be"), T("\u6161", "be"), T("\u4141"), T("a"), T("A", "le"), T("abc", "l1"), T("ABC", "be"), T("abd"), T("ab"), I(5), I(4), I(0), I(-1), I(3), I(I32 - 1), U(5), U(4), U(0), U(I32 - 1), U(I32), U(U64 - 1), U(3), P(4, 23), P(4), P(5), P(5, 5), P(0, 0), P(0, 5), P(I32 - 1), P(-1, 0), P(3, 0),
           G(0), G(4), G(5), G(255), G(17), POP("", "5", 0, 0), POP("x", "5", 2, 0), POP("X", "5", 2, 0), POP("", "3.5", 0, 0), POP("", "5", 0, 2), POP("x", "5", 2, 2), POP("", "0", 0, 0), POP("", "3", 0, 0), POP("x", "3", 0, 0), TS(False, 5, 0), TS(False, 6, 0), DT(730000, 0), DT(730000, 1), DX("2004", 2004), DX("2004-01", 2004), DATA("bin", b"5"), DATA("bin", b"6"), DATA("pic", b"5"), DATA("undef", b"5"), NULL,
           T(str(U64 - 1)), T(str(I32)), T("-1"), T("\ud7ff\ue000"), T("\ud7ff\ue000", "le"), T("ABCabc" * 50), T("abcABC" * 50, "le")]
    for i, a in enumerate(sel):
        s = VScn("cmp/%d" % i)
        s.asg("a", a)
        for k, b in enumerate(sel):
            s.asg("b", b)
            for fl in ((0, 1, 2, 3) if deep else (0, 1) if (i + k) % 4 else (2, 3)): s.cmp("a", "b", fl)
        out.append(s)
    met = [T("x").meta(d, e, m) for d in (None, "d", "D", "\u00e4", "e") for e in (("l1", "u8", "le", "be") if d else ("u8",)) for m in ("", "image/png")]
    s = VScn("meta")
    for i, a in enumerate(met):
        s.asg("a", a).raw("a")
        for k, b in enumerate(met):
            s.asg("b", b).cmp("a", "b", (i + k) % 4)
            if deep: s.cmp("a", "b", (i + k + 1) % 4)
    out.append(s)
    # genres
    s = VScn("genres")
    for i in list(range(-2, 260)) + [1000]: s.add("genre %d" % i, op="genre", i=i)
    for i in range(192): s.asg("a", G(i)).get("a", "u8").get("a", "i")
    out.append(s)
    # rating scales
    s = VScn("scales")
    rng = {0: (0, 1, 1.5, 2, 2.25, 3, 3.75, 4, 5), 2: (0, 1, 2, 51, 64, 102, 128, 196, 204, 254, 255), 8: (0, 0.5, 1, 1.25, 2.5, 4, 5), 16: (0, 20, 25, 40, 60, 80, 99, 100), 32: (0, 20, 50, 100), 1: (0, 5), 4: (1, 100)}
    for f in rng:
        for t in rng:
            for r in rng[f]: s.scale(f, t, r)
    out.append(s)
    # values re-assigned, copied
    s = VScn("reassign")
    for i in range(400 if deep else 120):
        v = rnd.choice(vs)
        s.asg("a", v)
        s.raw("a").get("a", "disp").get("a", "empty")
        if i % 3 == 0:
            s.add("vcopy a c", op="copy")
    out.append(s)
    return out
def clock(n): return "%02d:%02d:%02d" % (n // 3600, n // 60 % 60, n % 60)
def frac(sub): return "" if not sub else ".%03d" % (sub // 10000) if sub % 10000 == 0 else ".%06d" % (sub // 10) if sub % 10 == 0 else ".%07d" % sub
def span_text(r): return ("-" if r["neg"] else "") + clock(r["secs"]) + frac(r["sub"])
def date_text(r):
    import datetime
    d = datetime.date.fromordinal(r["days"] + 1)
    return "%04d-%02d-%02dT%s%s" % (d.year, d.month, d.day, clock(r["secs"]), frac(r["sub"]))

CFG = "SPECIFICATION Spec\nCONSTANTS Depth = %d\nVIEW View\nINVARIANTS DecodeOK Total\nPROPERTIES Unchanged\n"
def run(tier, seed, prop, only=None):
    P_, g, d = plans.export("MCValues", CFG % (4 if tier == "thorough" else 3))
    scns = scenarios(tier, seed, P_)
    if only: scns = [s for s in scns if s.id == only] or scns
    exe = vbuild.build("plain")
    R = __import__("runner").run(scns, exe)
    L = {s.id: s.lines(R[s.id]) for s in scns}
    bad, st, tr = tlc.validate("ValuesTrace", [L[s.id] for s in scns])
    by = {s.id: s for s in scns}
    for b in bad: b["fam"] = __name__; b["script"] = by[b["s"]].cmds
    smp = [dict(scenario=s.id, script=s.cmds[:8], verdict="violated" if any(b["s"] == s.id for b in bad) else "explained") for s in scns[:: max(1, len(scns) // 3)][:3]]
    return dict(bad=bad, states=st + d, transitions=tr + g, traces=len(scns), lines=sum(map(len, L.values())), samples=smp, notes=dict(plans=len(P_), design_states=d, design_transitions=g))
