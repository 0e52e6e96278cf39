"""Faults: every mutating file operation and every read fails once (also permanently, or as a short write), renames across devices, and the caller aborts at
every progress report - for rewriting, saving under another path and updating in place, with and without a backup directory and with files in the way
(P05, P06, P16).  The directory is recorded after every single file operation: each of these states is what a crash would leave."""
import inputs, runner
from filescn import *
from inputs import *

def big():
    m, k = mp4, mkv
    T = lambda i=1, n=20, size=400, per=4, vary=90, **kw: dict(id=i, chunks=m.chunked(m.samples(i, n, size, vary), per), **kw)
    items = [m.text(b"\xa9nam", "Hello"), m.text(b"\xa9ART", "Artist")]
    c = k.clusters(12, 6, 5000)
    trk = k.el("Tracks", k.video(1), k.audio(2, name="Aud", lang="ger"))
    tags = k.el("Tags", k.tag(k.simple("TITLE", "Hello", lang="eng")))
    f = [("TITLE", "Hello"), ("ARTIST", "Artist")]
    return {
        "big.mp3": ("mp3", mp3.build([inputs._v2(4, 200)], id3.v1("Hello", "Artist"), audio=mp3.frames(900, 3))),
        "big.flac": ("flac", flac.build([(flac.STREAMINFO, flac.streaminfo()), (flac.COMMENT, vorbis.comment(f)), (flac.PADDING, b"\0" * 300)], flac.audio(1, 330000))),
        "big.ogg": ("ogg", ogg.mux(ogg.vorbis_stream(1, f, n=60, psize=5000))),
        "big.mp4": ("mp4", m.build([T(1, n=300, size=1200, per=10)], ("ftyp", "moov", "free:100", "mdat"), items)),
        "big.mkv": ("mkv", k.ebml() + k.segment(["seek", k.info("Movie"), trk, tags, k.void(300), "clusters", "cues"], c, cues=[(i * 1000, 1, i, None) for i in range(len(c))], seek=["Info", "Tracks", "Tags", "Cues"])),
    }
SMALL = ["mp3.v24v1", "mp3.v1", "flac.vcp", "ogg.opus", "mp4.front", "mp4.back", "mkv.std", "mkv.tagsback"]
OTHER = b"some other file which was here before"

def modes(fmt):
    e = EXT[fmt]
    M = {
        "rw": dict(o=opts(pref=64)),
        "save": dict(o=opts(save="out." + e, pref=64)),
        "saveover": dict(o=opts(save="out." + e, pref=64), more={"out." + e: OTHER}),
        "bakdir": dict(o=opts(pref=64, backup="bk"), dirs=["bk"]),
        "bakabs": dict(o=opts(pref=64, backup="@bk"), dirs=["bk"], more={"bk/a." + e: OTHER}),
        "baktaken": dict(o=opts(pref=64), more={"a.%s.bak" % e: OTHER, "a.%s.1.bak" % e: OTHER}),
        "inpl": dict(o=opts(force=False, max=1 << 30, pref=64)),
    }
    return M

def scn(k, fmt, b, mk, m, name, fault, extra, retry=True, snap=True):
    s = FScn("%s/%s/%s" % (k, mk, name), fmt, b)
    for n, x in m.get("more", {}).items(): s.files[n] = x
    s.dirs += m.get("dirs", [])
    s.add("snap", op="dir")
    s.load().create().set(*SELMAIN[fmt], "Title", text("New title"))
    same = sum(map(ord, name)) % 2
    s.apply(m["o"], extra=(extra + (" snap=1" if snap else "")).strip(), fault=fault, look=False)
    s.add("close" if same else "dest").add("snap", op="dir")
    s.look(m["o"]["save"] or None)
    if m["o"]["save"]: s.look(s.name)
    if retry and fault != "none":
        # afterwards the same or another object can be used again on whatever is there
        if same: s.add("path " + q(s.name), op="path", name=s.name).add("open").parse()
        else: s.load()
        s.create().set(*SELMAIN[fmt], "Title", text("Again"))
        s.apply(dict(m["o"], save=""), fault="none", extra="snap=1")
    return s

def inputs_():
    I = inputs.all_inputs()
    return dict({k: I[k] for k in SMALL}, **big())

def pick(n, cap):
    """0..n-1, thinned out in the middle if there are too many"""
    if n <= cap: return list(range(n))
    h = cap // 3
    return sorted(set(list(range(h)) + list(range(n - h, n)) + [h + i * (n - 2 * h) // (cap - 2 * h) for i in range(cap - 2 * h)]))

def scenarios(tier, exe, only=None):
    deep = tier == "thorough"
    I = inputs_()
    probe, info = [], {}
    for k, (fmt, b) in I.items():
        for mk, m in modes(fmt).items():
            if k.startswith("big") and mk not in ("rw", "save", "inpl"): continue
            p = scn(k, fmt, b, mk, m, "none", "none", "")
            probe.append(p); info[p.id] = (k, fmt, b, mk, m)
    R = runner.run(probe, exe)
    out = list(probe)
    for p in probe:
        k, fmt, b, mk, m = info[p.id]
        ev = [e for e in R[p.id] if e.get("op") == "apply"][-1]
        ops, reads, calls = ev["ops"], ev["reads"], len(ev["prog"])
        main = mk in ("rw", "save", "inpl")
        isbig = k.startswith("big")
        cap = (1000 if deep else 24) if not isbig else (1000 if deep else 12)
        if not main: cap = 1000 if deep else 10
        for n in pick(ops, cap):
            out.append(scn(k, fmt, b, mk, m, "fail%d" % n, "io", "fail=%d" % n))
            if main and (deep or n % 3 == 0 or not isbig): out.append(scn(k, fmt, b, mk, m, "stick%d" % n, "io", "fail=%d sticky=1" % n))
            if main and not isbig and (deep or n % 2 == 0): out.append(scn(k, fmt, b, mk, m, "short%d" % n, "io", "fail=%d short=1 err=28" % n))
        out.append(scn(k, fmt, b, mk, m, "exdev", "exdev", "exdev=1"))
        if main:
            for n in pick(ops + 3, 8 if not deep else 60): out.append(scn(k, fmt, b, mk, m, "exdev%d" % n, "io", "exdev=1 fail=%d" % n))
            for n in pick(reads, 12 if not deep else 300): out.append(scn(k, fmt, b, mk, m, "read%d" % n, "io", "read=%d" % n))
        for n in pick(calls, 12 if isbig and not deep else 1000): out.append(scn(k, fmt, b, mk, m, "abort%d" % n, "abort", "abort=%d" % n))
        if main: out.append(scn(k, fmt, b, mk, m, "preabort", "abort", "preabort=1"))
    if only: out = [s for s in out if s.id == only]
    return out

def run(tier, seed, prop, only=None):
    import vbuild
    exe = vbuild.build("plain")
    return run_file_family(__name__, scenarios(tier, exe, only), None)
