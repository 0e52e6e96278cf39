"""Scenarios about files: driver commands paired with the abstract events of TagFile.tla."""
import re
from runner import *
from common import esc, tok

NAMES = None
def names():
    global NAMES
    if NAMES is None:
        import os
        t = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Formats.tla")).read()
        NAMES = re.findall(r'"(\w+)"', re.search(r"FieldNames == <<(.*?)>>", t, re.S).group(1))
    return NAMES
def fidx(name): return names().index(name)

EXT = dict(mp3="mp3", flac="flac", ogg="ogg", mp4="m4a", mkv="mkv")
SELMAIN = dict(mp3=("v2", 0), flac=("c", 0), ogg=("c", 0), mp4=("c", 0), mkv=("c", 0))
def seltok(fmt, c, n):
    if c == "v1": return "v1"
    if c == "v2": return "v2.%d" % n
    return "vc" if fmt == "flac" else "c.%d" % n

APITYPE = {"ID3v1 tag": "id3v1", "ID3v2 tag": "id3v2", "MP4/iTunes tag": "mp4", "Matroska tag": "matroska", "Vorbis comment": "vorbis"}
class Val:
    """A value: the driver's token and the record of the specification."""
    def __init__(self, drv, **rec): self.drv, self.rec = drv, rec
def span(ticks): return Val(V.ts(ticks), k="span", n=str(ticks // 10000), s="%02d:%02d:%02d" % (ticks // 36000000000, ticks // 600000000 % 60, ticks // 10000000 % 60) + (".%03d" % (ticks // 10000 % 1000) if ticks // 10000 % 1000 else ""))
def text(s, lang="", desc="", enc="u8", denc=None):
    kw = {}
    de = denc or enc
    if desc: kw["desc" + (de if de != "u8" else "")] = desc.encode(dict(u8="utf-8", l1="latin-1", le="utf-16-le", be="utf-16-be")[de])
    if lang: kw["lang"] = lang
    return Val(getattr(V, enc)(s, **kw), k="text", s=esc(s), lang=esc(lang), desc=esc(desc), enc=enc)
def num(n): return Val(V.u(n), k="int", n=n)
def pos(a, b=0): return Val(V.p(a, b), k="pos", a=a, b=b)
def date(s): return Val(V.dti(s), k="date", s=s)
def pic(b, mime="image/png", ptype=0, desc=""): return Val(V.pic(b, mime=mime, desc=desc) if desc else V.pic(b, mime=mime), k="pic", mime=esc(mime), ptype=ptype, desc=esc(desc), tok="%d:%s" % (len(b), tok(b)))
def pop(user, rating, count, scale): return Val(V.pop(user, str(rating), count, scale), k="pop", user=esc(user), rating=rating, count=str(count))
def raw(b): return Val(V.bin(b), k="raw", tok="%d:%s" % (len(b), tok(b)))

DEF = dict(force=True, min=0, max=0, pref=0, tag="before", index="before", ftag=True, findex=True, save="", backup="")
def opts(**kw): return dict(DEF, **kw)

class FScn(Scn):
    def __init__(self, id, fmt, data, name=None, meta=None, more=None):
        self.fmt, self.name = fmt, name or "a." + EXT[fmt]
        files = {self.name: data}
        files.update({k: v[1] for k, v in (more or {}).items()})
        super().__init__(id, files, meta=meta)
        self.abs = {}
        self.look(self.name)
        for k, v in (more or {}).items(): self.look(k, v[0])
    def add(self, cmd, **a):
        self.cmds.append(cmd)
        if a: self.abs[len(self.cmds)] = a
        return self
    def look(self, name=None, fmt=None):
        self.snap(name or self.name, fmt or self.fmt)
        return self
    def load(self, name=None, what="all", ro=False):
        n = name or self.name
        self.newopts()
        self.add("new", op="new").add("path " + q(n), op="path", name=n).add("open" + (" ro" if ro else ""))
        return self.parse(what)
    def parse(self, what="all"): return self.add("parse " + what, op="parse", what=what)
    def mem(self): return self.add("tags", op="mem")
    def api(self): return self.add("tags", op="api")
    def edit(self, cmd, exp="any", **a): return self.add(cmd, op="edit", exp=exp, **a)
    def set(self, c, n, field, *vals, multi=False, exp="ok"):
        vals = [v for v in vals if v is not None]
        return self.edit(("setvals" if multi else "set") + " %s %d %s" % (seltok(self.fmt, c, n), fidx(field), " ".join(v.drv for v in vals) or V.null),
                         exp, a="setvals" if multi else "set", c=c, n=n, name=field, vals=[v.rec for v in vals])
    def unset(self, c, n, field, exp="any"): return self.set(c, n, field, exp=exp)
    def setnat(self, c, n, id, *vals, exp="ok", absid=None):
        return self.edit("setnat %s %s %s" % (seltok(self.fmt, c, n), q(id), " ".join(v.drv for v in vals)), exp, a="setvals", c=c, n=n, name="", id=absid or id, vals=[v.rec for v in vals])
    def rmall(self): return self.edit("rmall", a="rmall")
    def rm(self, c, n): return self.edit("rm " + seltok(self.fmt, c, n), a="rm", c=c, n=n)
    def rmfields(self, c, n): return self.edit("rmfields " + seltok(self.fmt, c, n), a="rmfields", c=c, n=n)
    def create(self, v1="keep", v2="always", ver=3, init=False, transfer=False, merge=False, keepver=True, unk=False, targets=()):
        # flags: see TagCreationFlags
        fl = (1 if unk else 0) | (2 if init else 0) | (4 if transfer else 0) | (8 if merge else 0) | (16 if keepver else 0)
        t = (" targets=" + ";".join(q(x[0]) for x in targets)) if targets else ""
        return self.edit("create v1=%s v2=%s ver=%d flags=%d%s" % (v1, v2, ver, fl, t), a="create", v1=v1, v2=v2, ver=ver, init=init, transfer=transfer, merge=merge, keepver=keepver, targets=[x[1] for x in targets])
    def apply(self, o=None, extra="", look=True, fault=None, **kw):
        o = dict(o or DEF, **kw)
        if self.abs.get("o") != o:
            self.abs["o"] = o
            bits = ["force=%d" % o["force"], "min=%d" % o["min"], "max=%d" % o["max"], "pref=%d" % o["pref"], "tag=" + o["tag"], "index=" + o["index"], "ftag=%d" % o["ftag"], "findex=%d" % o["findex"], "save=" + q(o["save"])]
            if o["backup"]: bits.append("backup=" + o["backup"])
            self.cmds.append("opt " + " ".join(bits))
        self.add("apply" + (" " + extra if extra else ""), op="apply", o={k: v for k, v in o.items() if k not in ("backup",)}, target=o["save"] or None, bdir=o["backup"].lstrip("@"), **(dict(fault=fault) if fault else {}))
        if look:
            self.look(o["save"] or None)
            if o["save"]: self.look(self.name)
        return self
    def newopts(self): self.abs.pop("o", None); return self

    def lines(self, events):
        """Trace lines: recorded events joined with the abstract ones."""
        by = {}
        for e in events: by.setdefault(e["i"], e)
        out = [dict(op="begin", s=self.id, fmt=self.fmt)]
        cur = self.name
        for i in range(1, len(self.cmds) + 1):
            e, a = by.get(i), self.abs.get(i)
            if e is not None and e.get("op") == "snapfile":
                out.append(dict(op="file", s=self.id, name=e["file"], p=e["proj"])); continue
            if a is None: continue
            if a["op"] in ("new",): out.append(dict(a, s=self.id)); continue
            if e is None: break
            if a["op"] == "path": cur = a["name"]; out.append(dict(a, s=self.id)); continue
            l = dict(a, s=self.id)
            for k in ("r", "ok", "st", "prog", "aborted", "inplace", "dl", "path", "ops", "abortops", "abortcall"):
                if k in e: l[k] = e[k]
            if a["op"] == "edit": l.setdefault("ok", True)
            if a["op"] in ("api", "mem"):
                l["tags"] = [dict(type=APITYPE.get(t["type"].split(" (")[0], t["type"]) + ((".%d" % t["major"]) if "major" in t else ""), target=t["target"], count=t["count"],
                                  known=[[names()[k[0]], k[1], k[2], k[3]] for k in t["known"]]) for t in e["tags"]]
            if a["op"] in ("parse", "apply"):
                dg = e.get("diag", [])
                l["dl"] = max([d[0] for d in dg] or [0])
                l["dmsg"] = "; ".join(d[1] for d in dg if d[0] == l["dl"])[:200]
            if a["op"] == "dir": l["dir"] = [x for x in e.get("dir", []) if not x[0].startswith("stderr")]
            if a["op"] == "apply":
                l["target"] = a["target"] or cur
                l["dir"] = [x for x in e.get("dir", []) if not x[0].startswith("stderr")]
                l["diag"] = [[d[0], esc(d[1])] for d in e.get("diag", [])]
                l["bdir"] = a.get("bdir", "")
                if "fs" in e: l["inplace"] = all(x["op"].split()[0] in ("write", "truncate") for x in e["fs"])
                if "fault" in a:
                    l["mentioned"] = e.get("mentioned", [])
                    l["fs"] = [dict(op=x["op"], fail=x["fail"], dir=[y for y in x["dir"] if not y[0].startswith("stderr")]) for x in e.get("fs", [])]
                if l.get("r") == "ok": cur = l["target"]
            out.append(l)
        x = events[-1] if events and events[-1].get("cmd") == "exit" else dict(end="lost", code=0)
        out.append(dict(op="exit", s=self.id, end=x.get("end", "?"), code=x.get("code", 0)))
        for l in out:
            if l["op"] == "file":
                p = l["p"] = dict(l["p"])
                p.pop("info", None)
                p.setdefault("pad0", p["pad"])
                p["id"] = "%d:%s" % (p["size"], p["sha"][:10])
                from vorbis import group
                p["tags"] = [dict(t, fields=group(t["fields"])) for t in p["tags"]]
        return out

def execute(scns, exe, jobs=8, san=False, limit=20):
    R = run(scns, exe, jobs, limit, san=san)
    return {s.id: s.lines(R[s.id]) for s in scns}, R

def run_file_family(name, scns, only=None, module="FileTrace", san=False):
    """Runs scenarios on the real code and validates what was recorded against the trace specification."""
    import tlc, vbuild
    exe = vbuild.build("asan" if san else "plain")
    if only: scns = [s for s in scns if s.id == only] or scns
    L, R = execute(scns, exe, san=san)
    bad, st, tr = tlc.validate(module, [L[s.id] for s in scns])
    by = {s.id: s for s in scns}
    for b in bad: b["fam"] = name; b["script"] = by[b["s"]].cmds
    smp = [dict(scenario=s.id, script=s.cmds[:12], verdict="violated" if any(b["s"] == s.id for b in bad) else "explained") for s in scns[:: max(1, len(scns) // 3)][:3]]
    return dict(bad=bad, states=st, transitions=tr, traces=len(scns), lines=sum(map(len, L.values())), samples=smp, notes={})
