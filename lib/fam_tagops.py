"""Operations on tag objects: plans exported by TLC from MCTagOps (every transition of the state graph of two tags with two fields) are replayed on every tag
type x partner type x fields; what the accessors report afterwards is validated against TagOpsTrace (P12)."""
import json, random
import plans, tlc, vbuild
from fam_fields import supported
from filescn import *

TYPES = ["id3v1", "id3v2.2", "id3v2.3", "id3v2.4", "vorbis", "mp4", "matroska"]
CFG = "SPECIFICATION Spec\nCONSTANTS Multi = %s Same = %s Depth = %d\nVIEW View\nINVARIANTS TypeOK CountOK\nPROPERTIES FrameOK SetOK KeepOK TransferOK\n"
ENCS = {"id3v1": {0, 1}, "id3v2.2": {0, 2, 3}, "id3v2.3": {0, 2, 3}, "id3v2.4": {0, 1, 2, 3}, "vorbis": {1}, "mp4": {1, 3}, "matroska": {1}}
FULL = [("Artist", "Album"), ("Genre", "Title"), ("Comment", "TrackPosition"), ("EncoderSettings", "RecordLabel"), ("RecordLabel", "EncoderSettings"), ("Cover", "Lyrics"), ("RecordDate", "Genre"), ("AlbumArtist", "Composer"), ("Rating", "Copyright"), ("Vendor", "Encoder")]
ALIAS = {"matroska": {"Actor": "Performers"}}
def sup(t): return [f for f in supported(t) if f not in ALIAS.get(t, {})] + (["EncoderSettings"] if t == "mp4" else ["Vendor"] if t == "vorbis" else [])
def val(field, v, kind):
    if v == "": return V.null
    n = "abcd".index(v)
    if kind == "typed":
        if field == "Cover": return V.pic(b"\x89PNG" + bytes([n]) * 9, mime="image/png")
        if field in ("TrackPosition", "DiskPosition"): return V.p(n + 1, 9)
        if field == "Rating": return V.pop("u%d" % n, "3", n, 2)
        if field == "Genre": return V.g(n + 1)
        if field == "Length": return V.ts(10000 * (n + 1))
        if field == "RecordDate": return V.dti("200%d" % n)
    if kind == "enc": return [V.u8("\u00e4" + v), V.le("\u65e5" + v), V.be("\u00e9" + v), V.l1("\u00fc" + v)][n]
    return [V.u8, V.u8, V.le, V.l1][n]("%s of %s" % (v, field))

class TScn(Scn):
    def __init__(self, id, ta, tb): super().__init__(id); self.ta, self.tb, self.ab = ta, tb, {}
    def add(self, cmd, **a):
        self.cmds.append(cmd); self.ab[len(self.cmds)] = a
        return self
    def new(self, t, ty): return self.add("tnew #%s %s" % (t, ty), op="tnew", t=t, type=ty)
    def plan(self, p, fields, kind):
        ty = {"A": self.ta, "B": self.tb}
        self.new("A", self.ta).new("B", self.tb)
        for o in p:
            t = o[1]
            if o[0] in ("set", "sets"):
                f, k2 = fields[o[2]], kind
                vs = [o[3]] if o[0] == "set" else o[3]
                if f == "Genre" and "mp4" in (self.ta, self.tb) and k2 == "typed": k2 = "text"
                self.add(("set" if o[0] == "set" else "setvals") + " #%s %d %s" % (t, fidx(f), " ".join(val(f, v, k2) for v in vs)), op="top", a=o[0], t=t, f=f)
            elif o[0] == "rmall": self.add("rmfields #" + t, op="top", a="rmall", t=t)
            elif o[0] == "ins": self.add("tins #%s #%s %d" % (t, o[2], o[3]), op="top", a="ins", t=t, src=o[2], ow=bool(o[3]))
            elif o[0] == "enc": self.add("tenc #" + t, op="enc", t=t)
        return self
    def obs(self, tag, ty):
        N = names()
        out = []
        for k in tag["known"]:
            f = N[k[0]]
            if f in ALIAS.get(ty, {}): continue
            out.append(dict(f=f, has=k[1], vals=[json.dumps(v) for v in k[2]], single=json.dumps(k[3]) if k[3] else ""))
        return out
    def lines(self, ev):
        out, by, ty, last = [dict(op="begin", s=self.id)], {e["i"]: e for e in ev}, {}, {}
        for i in range(1, len(self.cmds) + 1):
            a, e = self.ab[i], by.get(i)
            if e is None: break
            l = dict(a, s=self.id)
            if a["op"] == "tnew": ty[a["t"]] = a["type"]
            if a["op"] == "sup": l["sup"] = [[names()[x[0]], x[1]] for x in e["fields"]]; out.append(l); continue
            l["r"] = e.get("r", "ok")
            l["obs"] = self.obs(e["tag"], ty[a["t"]]); l["count"] = e["tag"]["count"]
            if "ok" in e: l["ok"] = e["ok"]
            if "n" in e: l["n"] = e["n"]
            if "vals" in e: l["vals"] = [json.dumps(v) if v else "" for v in e["vals"]]
            if a.get("a") == "rmall": l["ok"] = True
            if "src" in e: l["srcobs"] = self.obs(e["src"], ty[a["src"]])
            if a["op"] == "enc":
                T = lambda t: [json.loads(v) for k in t for v in k["vals"]]
                b, c = T(last.get(a["t"], [])), T(l["obs"])
                if len(b) != len(c): b = [["text", "?"]] * len(c)
                l["texts"] = [[esc(str(x[:2])), esc(str(y[:2])), y[0] == "text" and y[5] not in ENCS[ty[a["t"]]]] for x, y in zip(b, c)]
            last[a["t"]] = l["obs"]
            out.append(l)
        x = ev[-1] if ev and ev[-1].get("cmd") == "exit" else dict(end="lost", code=0)
        out.append(dict(op="exit", s=self.id, end=x.get("end", "?"), code=x.get("code", 0)))
        return out

def scenarios(tier, seed, P):
    deep = tier == "thorough"
    out = []
    rnd = random.Random(seed)
    def pack(name, ta, tb, fields, pl, kind, size=40):
        for k in range(0, len(pl), size):
            s = TScn("%s-%s/%s.%d" % (ta, tb, name, k // size), ta, tb)
            for p in pl[k:k + size]: s.plan(p, fields, kind)
            out.append(s)
    for ta in TYPES:
        s = TScn("%s/supported" % ta, ta, ta)
        s.new("A", ta).add("tsup #A", op="sup", t="A", type=ta)
        out.append(s)
        multi = ta != "id3v1"
        S = sup(ta)
        partners = [ta] + [t for t in TYPES if t != ta]
        full = [p for p in FULL if p[0] in S and p[1] in S]
        for k, (f, g) in enumerate(full):
            for j, tb in enumerate(partners):
                if not deep and j and (j + k) % 3: continue
                same = tb == ta or ta.startswith("id3v2") and tb.startswith("id3v2")
                pl = P[multi, 3 if deep or (k < 2 and j == 0) else 2]
                pack("%s+%s" % (f, g), ta, tb, dict(f=f, g=g), pl if deep or len(pl) < 300 else rnd.sample(pl, 700), ["text", "typed"][k % 2])
        # tags of different versions
        if ta.startswith("id3v2"):
            for tb in ("id3v2.2", "id3v2.3", "id3v2.4"):
                T = sup(tb)
                for k, f in enumerate(S):
                    if f not in T: continue
                    g = S[(k + 5) % len(S)]
                    if g not in T: g = "Title" if f != "Title" else "Artist"
                    pl = [[["sets", "B", "f", ["c", "d"]], ["sets", "B", "g", ["c"]], ["ins", "A", "B", w], ["set", "A", "f", "a"], ["ins", "A", "B", not w], ["sets", "A", "g", ["a", "b"]], ["ins", "B", "A", w], ["sets", "A", "f", []]] for w in (0, 1)]
                    pack("mix.%s" % f, ta, tb, dict(f=f, g=g), pl, ["text", "typed"][k % 2])
        # every field
        for k, f in enumerate(S):
            g = S[(k + 1) % len(S)]
            pl = P[multi, 2]
            pack("each.%s" % f, ta, partners[k % len(partners)], dict(f=f, g=g), rnd.sample(pl, 120 if deep else 24) + [p + [["enc", "A"]] for p in rnd.sample(pl, 6)], ["typed", "enc", "text"][k % 3])
        # unsupported fields are refused and do not affect others
        uns = [n for n in names() if n not in S and n not in ALIAS.get(ta, {})]
        for k, f in enumerate(uns if deep else uns[::3]):
            pack("uns.%s" % f, ta, ta, dict(f=f, g=S[k % len(S)]), [[["sets", "A", "g", ["a", "b"]], ["set", "A", "f", "a"], ["sets", "A", "f", ["a", "b"]], ["set", "A", "f", ""], ["sets", "A", "f", []]]], "text")
        # encodings
        for f, g in full[:4]:
            pack("enc.%s" % f, ta, partners[1], dict(f=f, g=g), [[["sets", "A", "f", list(x)], ["set", "A", "g", y], ["enc", "A"], ["enc", "A"]] for x in ("a", "b", "c", "d", "ab", "cd", "bca", "dcba") for y in "abcd"], "enc")
    return out

_plans = {}
def get_plans(tier):
    st = tr = 0
    for multi in (True, False):
        for depth in (2, 3):
            p, g, d = plans.export("MCTagOps", CFG % (str(multi).upper(), "TRUE", depth))
            _plans[multi, depth] = p
            st += d; tr += g - 1
    if tier == "thorough":
        for same in ("TRUE", "FALSE"):
            g, d, _ = tlc.check("MCTagOps", CFG % ("TRUE", same, 6), workers=4)
            st += d; tr += g
    return _plans, st, tr

def run(tier, seed, prop, only=None):
    P, st0, tr0 = get_plans(tier)
    scns = scenarios(tier, seed, P)
    if only: scns = [s for s in scns if s.id == only] or scns
    exe = vbuild.build("plain")
    R = __import__("runner").run(scns, exe)
    L = {s.id: s.lines(R[s.id]) for s in scns}
    bad, st, tr = tlc.validate("TagOpsTrace", [L[s.id] for s in scns])
    by = {s.id: s for s in scns}
    for b in bad: b["fam"] = __name__; b["script"] = by[b["s"]].cmds
    smp = [dict(scenario=s.id, script=s.cmds[:8], verdict="violated" if any(b["s"] == s.id for b in bad) else "explained") for s in scns[:: max(1, len(scns) // 3)][:3]]
    return dict(bad=bad, states=st + st0, transitions=tr + tr0, traces=len(scns), lines=sum(map(len, L.values())), samples=smp, notes=dict(plans=sum(map(len, P.values())), design_states=st0, design_transitions=tr0))
