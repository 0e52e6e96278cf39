"""Every field of every tag type x values (texts in every encoding, numbers, positions, dates, pictures, ratings, several values): written, read by the
independent parsers and through the API of a fresh object, edited and removed again (P03, P12, P16)."""
import inputs
from filescn import *
from inputs import JPG, PNG
import os, re

CASES = {  # tag type -> [(input, class, index, create arguments)]
    "id3v1": [("mp3.v1", "v1", dict(v1="always", v2="never")), ("mp3.notag", "v1", dict(v1="always", v2="never"))],
    "id3v2.2": [("mp3.v22", "v2", {}), ("mp3.notag", "v2", dict(v1="never", ver=2))],
    "id3v2.3": [("mp3.v23", "v2", {}), ("mp3.notag", "v2", dict(v1="never", ver=3))],
    "id3v2.4": [("mp3.v24", "v2", {}), ("mp3.notag", "v2", dict(v1="never", ver=4)), ("mp3.multi", "v2", {})],
    "vorbis": [("flac.vc", "c", {}), ("flac.novc", "c", {}), ("ogg.opus", "c", {}), ("ogg.vorbis", "c", {})],
    "mp4": [("mp4.front", "c", {}), ("mp4.notags", "c", {})],
    "matroska": [("mkv.std", "c", {}), ("mkv.notags", "c", {})],
}
TABLE = dict(re.findall(r'^(V1|V22|V23|V24|Vorbis|Mp4|Matroska)Ids ==\s*\{(.*?)\}$', open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "Formats.tla")).read(), re.S | re.M))
TN = {"id3v1": "V1", "id3v2.2": "V22", "id3v2.3": "V23", "id3v2.4": "V24", "vorbis": "Vorbis", "mp4": "Mp4", "matroska": "Matroska"}
def supported(t): return [n for n, _ in re.findall(r'<<\s*"(\w+)",\s*"([^"]*)"\s*>>', TABLE[TN[t]])]

TEXTS = ["A", "val", "\u00e9t\u00e9", "\u65e5\u672c\u8a9e", "\U0001d11ex", " lead", "a/b;c,d", "a=b", "line1\nline2", "tab\there", "y" * 27, "x" * 28, "x" * 29, "x" * 30, "x" * 31, "\u00e9" * 13, "\u00e9" * 14, "\u00e9" * 15, "\u00ff\u00fe", "0", "12", "1/2/3", "q" * 300, "w" * 20000, "<&>\"'%", "\u0100\ufffd"]
NONTEXT = {"Cover", "Rating", "Length", "TrackPosition", "DiskPosition", "Bpm", "PlayCounter", "RecordDate", "MediaType", "ContentRating", "SynchronizedLyrics", "MCDI", "Genre"}
def encodable(s, enc):
    if enc == "l1":
        try: s.encode("latin-1")
        except UnicodeError: return False
    return True

def default_values(t, n):
    """[(name, Val)] for fields which are no plain text."""
    P = [("jpg", pic(JPG, "image/jpeg")), ("png", pic(PNG, "image/png"))]
    if t in ("id3v2.2", "id3v2.3", "id3v2.4", "vorbis"): P += [("desc", pic(PNG, "image/png", desc="front \u00e9")), ("big", pic(JPG + b"\x55" * 70000, "image/jpeg"))]
    if t == "mp4": P += [("bmp", pic(b"BM" + b"z" * 40, "image/bmp"))]
    return {
        "Cover": P,
        "Rating": {"id3v2.2": 1, "id3v2.3": 1, "id3v2.4": 1}.get(t) and [("p%d-%d" % (r, c), pop("me@x", r, c, 2)) for r, c in ((0, 0), (1, 7), (128, 255), (255, 65536), (3, 4294967295))] or t == "vorbis" and [("t", text("4")), ("p", pop("", 60, 0, 16))] or t == "matroska" and [("t", text("4")), ("p", pop("", 4, 0, 8))] or [("t", text("4"))],
        "Length": [("d%d" % d, span(d * 10000)) for d in (0, 1, 999, 123456, 86399999)],
        "TrackPosition": [("p%d-%d" % (a, b), pos(a, b)) for a, b in ((1, 0), (3, 12), (9, 9), (100, 127), (127, 0)) + (((128, 0), (255, 0)) if t == "id3v1" else ((200, 300), (32767, 32767)))],
        "DiskPosition": [("p%d-%d" % (a, b), pos(a, b)) for a, b in ((1, 0), (1, 2), (12, 300))],
        "Bpm": [("n%d" % n, num(n)) for n in ((1, 120, 255, 256, 32767) if t == "mp4" else (1, 120, 999))],
        "MediaType": [("n%d" % n, num(n)) for n in (0, 1, 2, 10, 255)] + [("nan", text("NaN"))], "ContentRating": [("n%d" % n, num(n)) for n in (0, 1, 2, 4)] + [("nan", text("NaN"))],
        "PlayCounter": [("n%d" % n, num(n)) for n in (0, 1, 77, 2 ** 31 - 1)],
        "RecordDate": [(s.replace(":", ""), date(s)) for s in ("2001", "2001-02", "2001-02-03", "2001-02-03T04", "2001-02-03T04:05", "2001-12-31T23:59", "2001-02-03T04:05:06")],
        "SynchronizedLyrics": [], "MCDI": [], 
        "Genre": [("name", text("Rock")), ("last", text("Psybient")), ("own", text("My own genre")), ("num", text("17"))],
    }.get(n, [])

def scn(t, c, inp, cr, name, *steps, I=None, o=None):
    fmt, b = I[inp]
    s = FScn("%s.%s/%s" % (t, inp, name), fmt, b)
    s.load().api()
    s.create(**cr)
    for i, f in enumerate(steps):
        f(s)
        s.apply(o, pref=7 * i)
        s.parse().api()
    return s

def scenarios(tier, only=None):
    I = inputs.all_inputs()
    deep = tier == "thorough"
    out = []
    for t, cases in CASES.items():
        sup = supported(t)
        multi = t not in ("id3v1", "mp4")
        for ci, (inp, c, cr) in enumerate(cases):
            if only and only != "%s.%s" % (t, inp): continue
            add = lambda name, *steps: out.append(scn(t, c, inp, cr, name, *steps, I=I))
            # all texts in all encodings
            for f in ["Title", "Comment", "Genre"] + (["Lyrics", "Copyright", "EncoderSettings", "Artist", "Album"] if deep or ci == 0 else []):
                if f not in sup: continue
                for k, x in enumerate(TEXTS):
                    if f == "Genre" and t == "id3v1": continue
                    for e in ("u8", "l1", "le", "be") if f == "Title" or (deep and ci == 0) else ("u8", "le"):
                        if ci > 0 and not deep and (k + len(e + f)) % 3: continue
                        if not encodable(x, e): continue
                        if t == "id3v1" and e in ("le", "be"): continue
                        add("text.%s.%d.%s" % (f, k, e), lambda s: s.set(c, 0, f, text(x, enc=e)))
            # every field
            for n, f in enumerate(sup):
                if f in NONTEXT: vals = default_values(t, f)
                else: vals = [("a", text("Value \u00e9 %d" % n if t != "id3v1" else "Value %d" % n)), ("b", text("\u65e5 %d" % n, enc="le") if t != "id3v1" else text("\u00e9 %d" % n, enc="l1"))][: 2 if ci == 0 or deep else 1]
                if t == "id3v1" and f == "Genre": vals = [("name", text("Rock")), ("last", text("Psybient")), ("own", text("My own genre")), ("blues", text("Blues"))]
                if t == "id3v1" and f == "RecordDate": vals = [("y", text("1999")), ("l", date("2001-02-03"))]
                for k, v in vals:
                    add("one.%s.%s" % (f, k), lambda s: s.set(c, 0, f, v), lambda s: s.set(c, 0, "Title" if f != "Title" else "Album", text("Other")), lambda s: s.unset(c, 0, f))
                if len(vals) > 1: add("seq.%s" % f, *[(lambda v: lambda s: s.set(c, 0, f, v))(v) for _, v in vals])
                if multi and f not in NONTEXT and f not in ("Comment", "Lyrics", "PublisherWebpage", "PerformerWebpage", "PurchaseItem", "Vendor") and (deep or n % 3 == ci % 3):
                    add("multi.%s" % f, lambda s: s.set(c, 0, f, text("one"), text("zw\u00f6lf"), text("\u4e09", enc="le"), multi=True), lambda s: s.set(c, 0, f, text("eins")), lambda s: s.set(c, 0, f, text("x", enc="l1"), text("\u00e9", enc="l1"), multi=True), lambda s: s.unset(c, 0, f))
            # several fields at once, then one removed
            fs = [f for f in sup if f not in NONTEXT]
            for j in range(0, len(fs), 9):
                g = fs[j:j + 9]
                add("many%d" % j, lambda s: [s.set(c, 0, f, text("V" + f)) for f in g], lambda s: s.unset(c, 0, g[0]), lambda s: s.set(c, 0, g[-1], text("")), lambda s: [s.set(c, 0, f, text("W\u00e4" + f, enc="le" if t != "id3v1" else "l1")) for f in g[1:]])
            # languages and descriptions
            if t.startswith("id3v2"):
                for f in ("Comment", "Lyrics"):
                    for l, d in (("eng", ""), ("deu", "d\u00e9sc"), ("", "x"), ("jpn", "\u65e5")):
                        for e in ("u8", "l1", "le"):
                            if encodable(d, e): add("desc.%s.%s.%s.%s" % (f, l, esc(d), e), lambda s: s.set(c, 0, f, text("txt", lang=l, desc=d, enc=e)))
            # unsupported fields are refused
            for f in ("Director", "ISRC", "Bps", "Mood", "ContentRating", "Title")[:5]:
                if f not in sup: add("unsup.%s" % f, lambda s: s.set(c, 0, f, text("x"), exp="fail"))
    return out

def run(tier, seed, prop, only=None):
    return run_file_family(__name__, scenarios(tier, ".".join(only.split("/")[0].rsplit(".", 2)[-3:]) if only and 0 else None), only)
