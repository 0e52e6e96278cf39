"""Damaged files (P14): every damage of Damage.tla at every kind of field of every format, parsed, accessed and changed by the real code (with sanitizers); the runs are validated against RobustTrace."""
import os, random, re, subprocess, sys, zlib
from collections import defaultdict
import damage, inputs, plans, tlc, vbuild, runner
import fam_lifecycle
from runner import Scn
CFG = "SPECIFICATION Spec\nINVARIANTS EndsFine ParsingNeverWrites\nPROPERTY Ends\n"
FMT = ("mp3", "flac", "ogg", "mp4", "mkv")
CUT = ".cut"

def pool():
    return {k: v for k, v in fam_lifecycle.pool().items() if CUT not in k and len(v[1])}

def cases(tier, seed):
    """(file, damage id, mutations, modes, keep)"""
    deep = tier == "thorough"
    rnd = random.Random(seed * 1009 + 5)
    pl, g, d = plans.export("MCDamage", CFG)
    P = pool()
    names = sorted(P)
    keys = defaultdict(list)
    allm = defaultdict(list)
    for k in names:
        b = P[k][1]
        parts = damage.parts(k, b)
        big = len(b) > 60000
        for p in pl:
            for key, m in damage.instances(b, parts, p["d"], p["at"]):
                if big and rnd.random() < 0.9: continue
                keys[(k.split(".")[0],) + key].append((k, m)); allm[k].append(m)
    out = []
    small = [k for k in names if len(P[k][1]) < 60000 and allm[k]]
    def modes(n):
        x = rnd.random()
        return "p" + (rnd.choice("aaeeiijrsc") if x < 0.9 or n else "".join(rnd.sample("aeijrsc", 2)))
    for n, key in enumerate(sorted(keys, key=str)):
        L = keys[key]
        for k, m in (rnd.sample(L, min(len(L), 8)) if deep else [rnd.choice(L)]):
            out.append((k, "/".join(map(str, key[1:])), m, modes(0)))
    for n in range(40000 if deep else 3000):
        k = rnd.choice(small)
        out.append((k, "pair", ";".join(sorted(rnd.sample(allm[k], 2) if len(allm[k]) > 1 else allm[k], key=lambda m: m[0] != "w")), modes(1)))
    for n in range(40000 if deep else 2500):
        k = rnd.choice(small)
        b = P[k][1]
        ms = []
        for _ in range(rnd.choice([1, 1, 2, 3, 4])):
            o = rnd.randrange(min(len(b), 1500) if rnd.random() < 0.8 else len(b))
            x = rnd.random()
            ms.append("w:%d:%s" % (o, rnd.choice(["00", "ff", "01", "7f", "80", "ffffffff", "00000000", "7fffffff", "%02x" % rnd.randrange(256)])) if x < 0.8 else "t:%d" % o if x < 0.87 else "d:%d:%d" % (o, rnd.choice([1, 2, 4, 16, 100])) if x < 0.94 else "i:%d:%s" % (o, bytes(rnd.randrange(256) for _ in range(rnd.choice([1, 4, 30]))).hex()))
        out.append((k, "bytes", ";".join(ms), modes(1)))
    return out, P, (len(pl), g, d, len(keys))

def sym(txt, exe):
    f = re.findall(r"#\d+ 0x[0-9a-f]+ in ([^\n]*?) (\S+):\d+", txt)
    if f: return " < ".join(["%s %s" % (re.sub(r"\(.*|.*::(?=\w+::)", "", a)[-40:], os.path.basename(b.split(":")[0])) for a, b in f if "/usr/" not in b][:4])
    a = re.findall(r"#(\d+) 0x[0-9a-f]+ +\(%s\+(0x[0-9a-f]+)\)" % re.escape(exe), txt)[:12]
    if not a: return ""
    o = subprocess.run(["addr2line", "-Cfse", exe] + [x for _, x in a], capture_output=True, text=True).stdout.split("\n")
    fs = ["%s %s" % (re.sub(r"\(.*|.*::(?=\w+::)", "", o[2 * i])[-40:], re.sub(r":\d+.*", "", o[2 * i + 1])) for i in range(len(a)) if 2 * i + 1 < len(o)]
    return " < ".join([f for f in fs if "??" not in f][:4])

class Case:
    def __init__(self, n, k, what, mut, modes, keep): self.n, self.k, self.what, self.mut, self.modes, self.keep = n, k, what, mut, modes, keep
    def cmd(self, src, ext, slot): return "rob %d %s m.%s %s %s" % (self.n, src, ext, self.mut or "-", self.modes) + (" %d" % slot if slot is not None else "")

def scenario(id, cs, P):
    s = Scn(id)
    s.cases = cs
    for c in cs:
        src = "src-" + c.k
        s.files[src] = P[c.k][1]
        slot = None
        if c.keep:
            slot = len(s.snaps)
            fmt = c.k.split(".")[0]
            s.snaps += [("damaged", fmt), ("result", fmt)]
        s.cmds.append(c.cmd(src, P[c.k][0], slot))
        if c.keep: s.cmds += ["snapmark %d" % slot, "snapmark %d" % (slot + 1)]
    return s

def execute(cs, P, exe, per=25):
    """Runs all cases; returns {case number: (runs, projections)} and the list of (case, end, why)."""
    res, crashes = {}, []
    todo = [cs[i:i + per] for i in range(0, len(cs), per)]
    rnd_ = 0
    while todo:
        scns = [scenario("r%d.%d" % (rnd_, i), c, P) for i, c in enumerate(todo)]
        R = runner.run(scns, exe, limit=90, san=True)
        todo = []
        for s in scns:
            es = R[s.id]
            rob = [e for e in es if e.get("op") == "rob"]
            pj = {}
            slot = 0
            by = {e["n"]: e["proj"] for e in es if e.get("op") == "snapfile"}
            for c in s.cases:
                if c.keep:
                    if slot in by and slot + 1 in by: pj[c.n] = [by[slot], by[slot + 1]]
                    slot += 2
            for e, c in zip(rob, s.cases):
                assert int(e["case"]) == c.n
                res[c.n] = (e, pj.get(c.n))
            x = next((e for e in es if e.get("op") == "exit" or e.get("cmd") == "exit"), dict(end="missing", code=0))
            if len(rob) < len(s.cases) or x["end"] != "clean":
                san = next((e["text"] for e in es if e.get("op") == "sanitizer"), "")
                h = re.search(r"AddressSanitizer:? ([\w-]+)|runtime error: ([^\n]{0,80})|terminate called[^\n]*\n?([^\n]{0,80})", san)
                why = " ".join(((h.group(0) if h else "") + " " + sym(san, exe)).split())[:300]
                if len(rob) >= len(s.cases): crashes.append((s.cases[-1], x["end"] if x["end"] != "clean" else "after", why))
                else:
                    crashes.append((s.cases[len(rob)], "%s %s" % (x["end"], x.get("code", "")), why))
                    rest = s.cases[len(rob) + 1:]
                    if rest: todo.append(rest)
        rnd_ += 1
    return res, crashes

def lines(c, e, proj):
    out = []
    ids = {}
    def num(x): return ids.setdefault(x, len(ids) + 1)
    id = "%s/%s/%s" % (c.k, c.what, c.n)
    names = None
    for r in e["runs"]:
        m = r["m"]
        before = sorted(set(r.get("tags", [])))
        a = r.get("after", {})
        after = sorted(set(a.get("tags", [])))
        if m == "c": before, after = [x.split("|", 1)[1] for x in before], [x.split("|", 1)[1] for x in after]
        ids.clear()
        l = dict(s=id, op="rob", m=m, cmd=c.mut[:200], size=e["size"], r=r["r"], pdl=r.get("pdl", 0), rl=r.get("rl", "-"), same=r.get("same", True), ms=r["ms"], kb=r["kb"], r2=r.get("r2", "-"), adl=r.get("adl", 0), crit=r.get("crit", ""),
                 before=[num(x) for x in before], after=[num(x) for x in after], title=[num(x) for x in before if "|0|" in "|" + x] if m in "ei" else [], lossok=r.get("adl", 0) >= 3, ar=a.get("r", "-") if a.get("rl", "ok") == "ok" else "access: " + a["rl"], proj=[])
        if proj and m != "p" and r.get("r2") == "ok":
            l["proj"] = [dict(errs=[str(x) for x in p.get("errs", [])], media=p.get("media", []), refs=p.get("refs", []), tags=["t"] * len(p.get("tags", [])), others=[str(x) for x in p.get("others", [])]) for p in proj]
        l["names"] = sorted(ids, key=ids.get)
        out.append(l)
    return out

def run(tier, seed, prop, only=None):
    raw, P, st0 = cases(tier, seed)
    rnd = random.Random(seed)
    cs = []
    for n, (k, what, mut, modes) in enumerate(raw):
        keep = len(modes) == 2 and modes[1] in "aei" and k.split(".")[0] in FMT and rnd.random() < (0.3 if tier == "thorough" else 0.15) and what != "bytes" and len(P[k][1]) < 60000
        cs.append(Case(n, k, what, mut, modes, keep))
    if only: cs = [c for c in cs if "%s/%s/%s" % (c.k, c.what, c.n) == only] or cs
    exe = vbuild.build("asan")
    res, crashes = execute(cs, P, exe)
    L = {}
    for c in cs:
        if c.n in res: L[c.n] = lines(c, *res[c.n])
    for c, end, why in crashes:
        L.setdefault(c.n, []).append(dict(s="%s/%s/%s" % (c.k, c.what, c.n), op="exit", end=end, why=why, cmd=c.mut[:200]))
    byid = {"%s/%s/%s" % (c.k, c.what, c.n): c for c in cs}
    bad, st, tr = tlc.validate("RobustTrace", list(L.values()))
    for b in bad:
        b["fam"] = __name__
        c = byid[b["s"]]
        b["script"] = [c.cmd("src-" + c.k, P[c.k][0], None)]
        if isinstance(b.get("ev"), dict): b["ev"] = {k: v for k, v in b["ev"].items() if k not in ("proj", "before", "after", "names", "title")}
    smp = [dict(scenario="%s/%s/%s" % (c.k, c.what, c.n), script=[c.cmd("src-" + c.k, P[c.k][0], None)], verdict="violated" if any(b["s"].endswith("/%d" % c.n) for b in bad) else "explained") for c in cs[:: max(1, len(cs) // 3)][:3]]
    nl = sum(map(len, L.values()))
    return dict(bad=bad, states=st + st0[2], transitions=tr + st0[1], traces=len(cs), lines=nl, samples=smp, notes=dict(damages=st0[0], distinct_damages=st0[3], design_states=st0[2], design_transitions=st0[1], runs=nl, projected=sum(1 for c in cs if c.keep)))
