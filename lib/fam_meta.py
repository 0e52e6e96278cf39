"""Family M: every described file (all descriptions of MCInfo) is edited, rewritten and updated in place; what was not part of the edit has to survive (P01, P04, P08, P09),
and the technical information reported for the resulting file is still the wanted information of its description (P15, InfoTrace)."""
import json, random
import fam_info, plans, tlc, vbuild
from filescn import *

FMTS = ("mp3", "flac", "ogg", "mp4", "mkv")
def describe(tier, seed):
    fam_info.load_sets()
    rnd = random.Random(seed)
    out, st, tr = [], 0, 0
    for f in FMTS:
        two, g, n = plans.export("MCInfo", fam_info.CFG % (f, 2))
        st += n; tr += g
        one = {json.dumps(p, sort_keys=True) for p in plans.export("MCInfo", fam_info.CFG % (f, 1))[0]}
        more = sorted({json.dumps(p, sort_keys=True) for p in two} - one)
        k = min(len(more), 4000 if tier == "thorough" else 250)
        out += [(f, json.loads(p)) for p in sorted(one) + rnd.sample(more, k)]
    return out, st, tr
def sid(f, d): return "meta.%s/%s" % (f, tok(json.dumps(d, sort_keys=True).encode(), 12))
def scenarios(descs):
    out = []
    for i, (f, d) in enumerate(descs):
        c, n = SELMAIN[f]
        s = FScn(sid(f, d), f, fam_info.WRITERS[f](d))
        s.load()
        # (comments of Theora and Speex streams are not supported)
        if i % 3 != 2 and d.get("codec") not in ("theora", "speex"): s.create().set(c, n, "Title", text("A new title")).set(c, n, "Artist", text("Somebody"))
        o = [opts(pref=100), opts(force=False, max=1 << 30, pref=50), opts(tag="after", index="after", pref=9), opts(tag="keep", index="keep", pref=300)][i % (2 if f in ("mp3", "flac", "ogg") else 4)]
        s.apply(o)
        s.load().apply(opts(o, force=False, max=1 << 30))
        out.append(s)
    return out
def opts(base=None, **kw): return dict(base or DEF, **kw)

def run(tier, seed, prop, only=None):
    descs, st0, tr0 = describe(tier, seed)
    if only: descs = [x for x in descs if sid(*x) == only]
    by = {}
    for x in descs: by.setdefault(sid(*x), x)
    r = run_file_family(__name__, scenarios(list(by.values())))
    for b in r["bad"]: b["description"] = by[b["s"]][1]
    r["states"] += st0; r["transitions"] += tr0
    return r
