"""The life of media file objects: sequences of parsing steps, invalidation, change of path and applying (every transition of MCLifecycle plus longer
random walks) on the real library; everything reported is validated against LifecycleTrace (P10)."""
import json, random, hashlib
import inputs, misc, plans, tlc, vbuild
from runner import *
from common import esc, tok

ST = {0: "not", 1: "ok", 2: "unsup", 3: "crit"}
STEPS = "ckthaa"
WHAT = dict(c="container", k="tracks", t="tags", h="chapters", a="attachments", e="everything")
def dig(x): return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:10]
def results(e):
    i = e["info"]
    tracks = dict(t=i.get("tracks", []), c=i.get("container"), l=i.get("langs"), d=i.get("duration"))
    con = dict(f=i.get("format"), s=i.get("subversion"), o=i.get("offset")) if i.get("format") or i.get("offset") else None
    return dict(c=dig(con) if e["st"][0] or con and con["f"] not in ("", "unknown", None) else "",
                k=dig(tracks) if i.get("tracks") else "",
                t=dig(e["tags"]) if e["tags"] else "", h=dig(i.get("chapters")) if i.get("chapters") else "", a=dig([{k: v for k, v in x.items() if k != "data"} for x in i["attachments"]]) if i.get("attachments") else "")
def obs(e):
    return dict(st={s: ST.get(e["st"][k], "?%s" % e["st"][k]) for k, s in enumerate("cktha")}, res=results(e), pad="%s/%s" % (e["info"].get("padding"), e["info"].get("effective")), open=e["open"], files=e["files"])

class LScn(Scn):
    def __init__(self, id, files, start=None):
        super().__init__(id, {n: b for n, b in files}); self.ab = {}; self.names = [n for n, _ in files]; self.cur = start or self.names[0]
        for n in self.names: self.cmds.append("canon " + q(n)); self.ab[len(self.cmds)] = dict(op="canon", file=n)
        self.cmds.append("new"); self.do("path " + q(self.cur), op="new", path=self.cur)
    def do(self, cmd, **a):
        self.cmds.append(cmd); k = len(self.cmds)
        self.cmds.append("look"); self.ab[len(self.cmds)] = dict(a, of=k, what=cmd)
        return self
    def step(self, o):
        op = o[0]
        if op == "p": return self.do("parse " + WHAT[o[1]], op="parse", step=o[1], abort=False)
        if op == "ab": return self.do("parse %s %s" % (WHAT[o[1]], "preabort" if o[2] == 0 else "abort=%d" % o[2]), op="parse", step=o[1], abort=True)
        if op in ("clear", "close", "open", "reopen"): return self.do(op, op=op)
        if op == "inv": return self.do("invalidate", op="inv")
        if op == "path": self.cur = self.names[o[1] % len(self.names)]; return self.do("path " + q(self.cur), op="path", path=self.cur)
        if op == "swap":
            src = [n for n in self.names if n != self.cur][0]
            self.cmds.append("cp %s %s" % (q(src), q(self.cur)))
            return self.do("invalidate", op="swap", **{"from": src})
        if op in ("apply", "edit"):
            if op == "edit": self.cmds += ["create v2=always", "title1 " + q("Title %d" % len(self.cmds))]
            self.do("apply", op="apply", edited=op == "edit")
            self.cmds.append("canon " + q(self.cur)); self.ab[len(self.cmds)] = dict(op="canon", file=self.cur)
            return self
        raise ValueError(o)
    def lines(self, ev):
        out, by = [dict(op="begin", s=self.id)], {e["i"]: e for e in ev}
        for i in sorted(self.ab):
            a, e = self.ab[i], by.get(i)
            if e is None: break
            l = dict(a, s=self.id, **obs(e))
            if a["op"] == "canon": l.update(c=dict(map(tuple, e["files"]))[a["file"]], cls=e["cls"], id=dict(map(tuple, e["files"]))[a["file"]], r=e["r"]); l.pop("files")
            else:
                x = by.get(a["of"], {})
                l.update(r=x.get("r", "ok"), dl=max([d[0] for d in x.get("diag", [])] or [0]), ops=x.get("reads", 0), writes=x.get("ops", 0))
            out.append(l)
        x = ev[-1] if ev and ev[-1].get("cmd") == "exit" else dict(end="lost", code=0)
        out.append(dict(op="exit", s=self.id, end=x.get("end", "?"), code=x.get("code", 0)))
        return out

def pool():
    I = {k: (f, b) for k, (f, b) in inputs.all_inputs().items()}
    from filescn import EXT
    P = {k: (EXT[f], b) for k, (f, b) in I.items()}
    P.update(misc.misc_inputs())
    # damaged files
    for k in ("mp3.v24", "flac.pics", "ogg.vorbis", "mp4.front", "mkv.std"):
        e, b = P[k]
        for c in (40, 200, len(b) // 2): P["%s.cut%d" % (k, c)] = (e, b[:c])
    return {k: v for k, v in P.items() if len(v[1]) < 300000}
def cls(k):
    if k.startswith("flac."): return "flac"
    if k.startswith("mp3.") or k.split(".")[0] in ("adts", "adtstags", "wav", "wavv1", "wavjunk", "ivf"): return "single"
    return "other"
CFG = 'SPECIFICATION Spec\nCONSTANTS Cls = "%s"\nDepth = %d\nVIEW View\nINVARIANTS NoLeak Ordered\nPROPERTIES Kept NotRepeated Discarded\n'
def scenarios(tier, seed):
    deep = tier == "thorough"
    rnd = random.Random(seed)
    P = pool()
    names = sorted(P)
    out, st = [], [0, 0, 0]
    by = {c: [k for k in names if cls(k) == c] for c in ("flac", "single", "other")}
    def mk(id, a, b, plan, tail=True):
        s = LScn(id, [("a." + P[a][0], P[a][1]), ("b." + P[b][0], P[b][1])])
        for o in plan: s.step(o)
        if tail: s.step(["p", "e"]); s.step(["p", "e"])
        return s
    for c in by:
        plans_, g, d = plans.export("MCLifecycle", CFG % (c, 9))
        st[0] += len(plans_); st[1] += g; st[2] += d
        # only the plans which are not a prefix of another one need to be replayed
        pre = {json.dumps(p[:k]) for p in plans_ for k in range(1, len(p))}
        full = [p for p in plans_ if json.dumps(p) not in pre]
        for r in range(4 if deep else 1):
            for n, p in enumerate(full):
                a = by[c][(n * 7 + r * 5 + n // len(by[c])) % len(by[c])]
                b = names[(n * 13 + r) % len(names)] if n % 3 else by[c][(n * 5 + 1) % len(by[c])]
                out.append(mk("%s/%d/%d/%s" % (c, r, n, a), a, b, p))
    # every order of the steps for every file
    import itertools
    perms = list(itertools.permutations("ktha"))
    for n, k in enumerate(names):
        for p in (perms if deep else [perms[(n * 5 + j * 7) % 24] for j in range(3)]):
            out.append(mk("order/%s/%s" % (k, "".join(p)), k, names[(n * 3 + 1) % len(names)], [["p", "c"]] + [["p", x] for x in p]))
    # every step aborted at every of its first points and then continued
    for n, k in enumerate(names):
        for m in ((0, 1, 2, 3, 5, 8) if deep else (0, 1, 2)):
            for j, x in enumerate("ktha" if deep or m == 0 else "kth"[(n + m) % 2] + "h"):
                out.append(mk("abort/%s/%s%d" % (k, x, m), k, names[(n * 3 + j) % len(names)], [["p", "c"], ["ab", x, m], ["p", x], ["p", "e"]], False))
    OPS = [["p", x] for x in "cktha"] * 2 + [["p", "e"]] * 2 + [["ab", x, n] for x in "kthae" for n in (0, 1, 2)] + [["clear"], ["inv"], ["close"], ["open"], ["reopen"], ["path", 0], ["path", 1], ["swap"], ["apply"], ["edit"], ["edit"]]
    for n in range(1500 if deep else 250):
        plan, ready = [], False
        while len(plan) < (20 if deep else 12):
            o = rnd.choice(OPS)
            if o[0] in ("p", "ab") and o[1] not in "ce" and not ready: o = ["p", "c"]
            if o[0] in ("p",) and o[1] in "ce": ready = True
            if o[0] in ("clear", "inv", "open", "reopen", "path", "swap", "apply", "edit"): ready = False
            if o[0] == "edit": plan += [["p", "e"]] if rnd.random() < 0.7 else []
            plan.append(o)
        out.append(mk("walk/%d" % n, rnd.choice(names), rnd.choice(names), plan))
    return out, st

def run(tier, seed, prop, only=None):
    scns, st0 = scenarios(tier, seed)
    if only: scns = [s for s in scns if s.id == only] or scns
    exe = vbuild.build("plain")
    R = __import__("runner").run(scns, exe)
    L = {s.id: s.lines(R[s.id]) for s in scns}
    bad, st, tr = tlc.validate("LifecycleTrace", [L[s.id] for s in scns])
    by = {s.id: s for s in scns}
    for b in bad: b["fam"] = __name__; b["script"] = by[b["s"]].cmds
    smp = [dict(scenario=s.id, script=s.cmds[:14], verdict="violated" if any(b["s"] == s.id for b in bad) else "explained") for s in scns[:: max(1, len(scns) // 3)][:3]]
    return dict(bad=bad, states=st + st0[2], transitions=tr + st0[1], traces=len(scns), lines=sum(map(len, L.values())), samples=smp, notes=dict(plans=st0[0], design_states=st0[2], design_transitions=st0[1]))
