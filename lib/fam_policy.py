"""Creating, converting and removing tags (P11): plans exported by TLC from MCPolicy (every configuration of existing tags x settings, then further operations)
replayed on real files; the tags in memory and the tags in the written file must be the ones of the model."""
import random
import id3, inputs, mp3, plans
from filescn import *

CFG = 'SPECIFICATION Spec\nCONSTANTS Fmt = "%s" Depth = %d Few = %s\nVIEW View\nPROPERTIES UsageOK VersionOK FirstKept MergeOK TransferOK TargetOK IdempotentOK RemovalOK\n'
V2ID = {2: dict(Title="TT2", Artist="TP1", Album="TAL", Composer="TCM"), 3: dict(Title="TIT2", Artist="TPE1", Album="TALB"), 4: dict(Title="TIT2", Artist="TPE1", Album="TALB", Mood="TMOO")}
def v2tag(ver, fields, pad):
    fr = []
    for n, t in fields:
        if n == "Comment": fr.append(id3.frame(ver, "COM" if ver == 2 else "COMM", id3.comment_frame(t, "\0\0\0", "", 0)))
        elif n == "RecordDate": fr.append(id3.frame(ver, {2: "TYE", 3: "TYER", 4: "TDRC"}[ver], id3.text_frame(t, 0)))
        else: fr.append(id3.frame(ver, V2ID[ver][n], id3.text_frame(t, 0)))
    return id3.tag(ver, fr, pad)
def source(fmt, cfg):
    if fmt == "mp3":
        v2 = [v2tag(int(t[-1]), f, 60 * (i + 1)) for i, (t, _, f) in enumerate(cfg) if t != "id3v1"]
        v1 = [dict(f) for t, _, f in cfg if t == "id3v1"]
        d = v1[0] if v1 else {}
        return mp3.build(v2, id3.v1(d.get("Title", ""), d.get("Artist", ""), d.get("Album", ""), "", d.get("Comment", ""), None, 17 if d.get("Genre") else 255) if v1 else None, audio=mp3.frames(30, 4))
    return inputs.policy_source(fmt, cfg)
def tgt(a):
    return inputs.target_arg(a)

def scn(fmt, k, p, kind):
    s = FScn("%s.%s/%d" % (fmt, kind, k), fmt, source(fmt, p["cfg"]))
    s.load()
    for o in p["ops"]:
        a = o["a"]
        if a == "create": s.create(o["v1"], o["v2"], o["ver"], o["init"], o["transfer"], o["merge"], o["keepver"], targets=[(tgt(t), t) for t in o["targets"]])
        elif a == "rm": s.rm(o["c"], o["n"])
        elif a == "rmfields": s.rmfields(o["c"], o["n"])
        elif a == "rmall": s.rmall()
        elif a == "rmclass": s.edit({"v1": "rmv1", "v2": "rmv2all"}[o["c"]], a="rmclass", c=o["c"])
        elif a == "merge": s.edit("merge", a="merge")
        elif a in ("v1tov2", "v2tov1"): s.edit(a, a=a)
        elif a == "ver": s.edit("ver v2.%d %d" % (o["n"], o["ver"]), a="ver", c="v2", n=o["n"], ver=o["ver"])
        elif a == "mk": s.edit("mk %s%s" % ("vc" if fmt == "flac" else o["c"], " " + tgt(o["target"]) if o["target"] else ""), a="mk", c=o["c"], target=o["target"])
        elif a == "set": s.set(o["c"], o["n"], o["name"], text(o["vals"][0]["s"]), exp="any")
        s.add("tags", op="mem")
    s.apply(opts(force=bool(k % 2), max=4096, pref=40 * (k % 3)))
    s.load().api()
    return s

def scenarios(tier, seed, only=None):
    deep = tier == "thorough"
    rnd = random.Random(seed)
    out, st, tr = [], 0, 0
    for fmt, depth, few, n in [("mp3", 1, "FALSE", 0), ("mp3", 2, "TRUE", 0 if deep else 2200), ("mkv", 2, "FALSE", 0 if deep else 500), ("mp4", 3, "FALSE", 0 if deep else 120), ("flac", 3, "FALSE", 0 if deep else 120), ("ogg", 3, "FALSE", 0 if deep else 120)]:
        P, g, d = plans.export("MCPolicy", CFG % (fmt, depth, few))
        st += d; tr += g
        ks = range(len(P)) if not n or n >= len(P) else sorted(rnd.sample(range(len(P)), n))
        out += [scn(fmt, k, P[k], "d%d" % depth) for k in ks]
    return out, st, tr

def run(tier, seed, prop, only=None):
    scns, st, tr = scenarios(tier, seed)
    r = run_file_family(__name__, scns, only)
    r["states"] += st; r["transitions"] += tr
    r["notes"] = dict(design_states=st, design_transitions=tr)
    return r
