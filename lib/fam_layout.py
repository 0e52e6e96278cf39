"""Family A: layouts x edits x settings (P01, P02, P04, P07, P08, P09, parts of P03/P16)."""
import inputs
from filescn import *

SETS = {
    "rw": opts(),
    "rwpad": opts(pref=512),
    "inpl": opts(force=False, max=1 << 30),
    "inplpad": opts(force=False, max=4096, pref=700),
    "inplmin": opts(force=False, min=16, max=2000, pref=100),
    "after": opts(tag="after", pref=64),
    "afternf": opts(force=False, tag="after", ftag=False, max=1 << 30, pref=33),
    "aftin": opts(force=False, tag="after", max=1 << 30),
    "keep": opts(tag="keep", index="keep", pref=10),
    "keepin": opts(force=False, tag="keep", index="keep", ftag=False, findex=False, max=8000),
    "idxafter": opts(index="after", pref=20),
    "idxaft2": opts(force=False, index="after", findex=False, max=1 << 30),
    "bothafter": opts(force=False, tag="after", index="after", max=5000),
    "pref1": opts(pref=1),
    "save": opts(save="out", pref=40),
}
def edits(fmt):
    c, n = SELMAIN[fmt]
    def none(s): pass
    def small(s): s.create().set(c, n, "Title", text("New title"))
    def same(s): s.create().set(c, n, "Title", text("Hallo"))
    def big(s): s.create().set(c, n, "Title", text("T" * 3000))
    def huge(s): s.create().set(c, n, "Title", text("T" * 70000))
    def clear(s): s.rmall()
    return dict(none=none, small=small, same=same, big=big, huge=huge, clear=clear)

def scenarios(tier, only=None):
    out = []
    for k, (fmt, b) in inputs.all_inputs().items():
        if only and not k.startswith(only): continue
        for ek, e in edits(fmt).items():
            for sk, o in SETS.items():
                if fmt in ("mp3", "flac", "ogg") and sk in ("after", "afternf", "aftin", "idxafter", "idxaft2", "bothafter", "keep"): continue
                o = dict(o)
                if o["save"]: o["save"] = "out." + EXT[fmt]
                s = FScn("%s/%s/%s" % (k, ek, sk), fmt, b)
                s.load()
                e(s)
                s.apply(o)
                o2 = dict(o, save="")
                tgt = o["save"] or s.name
                s.parse()
                s.apply(o2, look=False).look(tgt)
                s.newopts().load(tgt).apply(o2, look=False).look(tgt)
                out.append(s)
    return out

def run(tier, seed, prop, only=None):
    return run_file_family(__name__, scenarios(tier, only.split("/")[0] if only else None), only)
