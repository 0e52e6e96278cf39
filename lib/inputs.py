"""Input files: every container in the layouts and versions the formats allow (name -> (format, bytes))."""
from common import *
import zlib, id3, mp3, flac, ogg, vorbis, mp4, mkv

def _v2(ver, pad=0, extra=(), title="Hello", artist="Artist", **kw):
    n = {2: ("TT2", "TP1", "TCO", "COM"), 3: ("TIT2", "TPE1", "TCON", "COMM"), 4: ("TIT2", "TPE1", "TCON", "COMM")}[ver]
    fr = [id3.frame(ver, n[0], id3.text_frame(title, 0)), id3.frame(ver, n[1], id3.text_frame(artist, 1)), id3.frame(ver, n[3], id3.comment_frame("a comment"))]
    return id3.tag(ver, fr + list(extra), pad, **kw)

PNG = b"\x89PNG\r\n\x1a\n" + noise(77, 500)
JPG = b"\xff\xd8\xff\xe0" + noise(78, 700)

def mp3_inputs(big=False):
    A = lambda n=60, s=3: mp3.frames(n, s)
    unk3 = [id3.frame(3, "PRIV", b"own\0\1\2\3"), id3.frame(3, "GEOB", b"\0app/x\0f\0d\0" + noise(1, 50)), id3.frame(3, "TXXX", b"\0desc\0value"), id3.frame(3, "XYZA", noise(2, 30))]
    unk4 = [id3.frame(4, "PRIV", b"own\0\1\2\3"), id3.frame(4, "UFID", b"http://x\0abc"), id3.frame(4, "TXXX", b"\3desc\0value"), id3.frame(4, "XYZA", noise(2, 30))]
    I = {
        "notag": mp3.build(audio=A()),
        "v1": mp3.build(v1=id3.v1("Ti", "Ar", "Al", "2001", "co", 5, 17), audio=A()),
        "v22": mp3.build([_v2(2, 100)], audio=A()),
        "v23": mp3.build([_v2(3, 0)], audio=A()),
        "v23p": mp3.build([_v2(3, 1000)], audio=A()),
        "v23u": mp3.build([_v2(3, 300, unk3)], audio=A()),
        "v24": mp3.build([_v2(4, 0)], audio=A()),
        "v24u": mp3.build([_v2(4, 2500, unk4)], audio=A()),
        "v24v1": mp3.build([_v2(4, 200)], id3.v1("Hello", "Artist"), audio=A()),
        "v24v1ape": mp3.build([_v2(4, 200)], id3.v1("Hello", "Artist"), mp3.ape_tag(), audio=A()),
        "v24ape": mp3.build([_v2(4, 64)], ape=mp3.ape_tag(), audio=A()),
        "two": mp3.build([_v2(3, 50), _v2(4, 120, title="Second")], audio=A()),
        "pic": mp3.build([_v2(4, 500, [id3.frame(4, "APIC", id3.picture_frame(JPG)), id3.frame(4, "APIC", id3.picture_frame(PNG, "image/png", 4, "back", 3))])], audio=A()),
        "pic23": mp3.build([_v2(3, 0, [id3.frame(3, "APIC", id3.picture_frame(JPG))])], audio=A()),
        "long": mp3.build([_v2(4, 10)], audio=A(400)),
        "exth": mp3.build([id3.tag(4, [id3.frame(4, "TIT2", id3.text_frame("Hello"))], 40, 0x40, id3.synchsafe(6) + b"\1\0")], audio=A()),
        "exth23": mp3.build([id3.tag(3, [id3.frame(3, "TIT2", id3.text_frame("Hello", 0)), id3.frame(3, "XYZZ", b"abc")], 40, 0x40, be(4, 6) + be(2, 0) + be(4, 40))], audio=A()),
        "exth23c": mp3.build([id3.tag(3, [id3.frame(3, "TIT2", id3.text_frame("Hello", 0))], 0, 0x40, be(4, 10) + be(2, 0x8000) + be(4, 0) + be(4, 0x12345678))], audio=A()),
        "footer": mp3.build([id3.tag(4, [id3.frame(4, "TIT2", id3.text_frame("Hello")), id3.frame(4, "TALB", id3.text_frame("Album"))], 0, 0x10)], audio=A()),
        "unsync23": mp3.build([id3.tag(3, [id3.frame(3, "TIT2", id3.text_frame("H\u00ff\u0100llo", 1)), id3.frame(3, "XYZZ", b"a\xff\0\xff\xe0\0b"), id3.frame(3, "TALB", id3.text_frame("Album", 1)), id3.frame(3, "APIC", id3.picture_frame(JPG))], 40, 0x80)], audio=A()),
        "unsync22": mp3.build([id3.tag(2, [id3.frame(2, "TT2", id3.text_frame("Hello", 1)), id3.frame(2, "TAL", id3.text_frame("Album", 1))], 0, 0x80)], audio=A()),
        "unsync24": mp3.build([id3.tag(4, [id3.frame(4, "TIT2", id3.unsync(id3.text_frame("H\u00ff\u0100llo", 1)), 2), id3.frame(4, "XYZZ", id3.unsync(b"a\xff\0\xff\xe0\0b"), 3, id3.synchsafe(7)), id3.frame(4, "TALB", id3.text_frame("Album", 1), 1, id3.synchsafe(len(id3.text_frame("Album", 1))))], 40, 0x80)], audio=A()),
        "group23": mp3.build([id3.tag(3, [id3.frame(3, "TPE1", id3.text_frame("Hello", 0), 0x20, b"\x85"), id3.frame(3, "TALB", id3.text_frame("Album", 0), 0xE000), id3.frame(3, "XYZZ", b"abcdef", 0x4020, b"\x86"), id3.frame(3, "TIT2", id3.text_frame("Artist", 0))], 40)], audio=A()),
        "group24": mp3.build([id3.tag(4, [id3.frame(4, "TPE1", id3.text_frame("Hello", 3), 0x40, b"\x85"), id3.frame(4, "TALB", id3.text_frame("Album", 0), 0x7000), id3.frame(4, "XYZZ", b"abcdef", 0x2041, b"\x86" + id3.synchsafe(6)), id3.frame(4, "TIT2", id3.text_frame("Artist", 0))], 40)], audio=A()),
        "comp23": mp3.build([id3.tag(3, [id3.frame(3, "TPE1", zlib.compress(id3.text_frame("Hello " * 60, 0)), 0x80, be(4, 361)), id3.frame(3, "TALB", zlib.compress(id3.text_frame("A", 0)), 0xA0, be(4, 2) + b"\x85"), id3.frame(3, "TIT2", id3.text_frame("Artist", 0))], 40)], audio=A()),
        "comp24": mp3.build([id3.tag(4, [id3.frame(4, "TPE1", zlib.compress(id3.text_frame("Hello " * 60, 0)), 9, id3.synchsafe(361)), id3.frame(4, "TALB", zlib.compress(id3.text_frame("A", 0)), 0x49, b"\x85" + id3.synchsafe(2)), id3.frame(4, "TIT2", id3.text_frame("Artist", 0))], 40)], audio=A()),
        "multi": mp3.build([_v2(4, 40, [id3.frame(4, "TCON", id3.text_frame(["Rock", "Pop", "Own genre"])), id3.frame(4, "TCOM", id3.text_frame(["A", "B"], 1)), id3.frame(4, "COMM", id3.comment_frame("zwei", "deu", "d", 3))])], audio=A()),
        "vbr": mp3.build([_v2(3, 64)], audio=mp3.frames(60, 3, xing=b"Xing" + be(4, 3) + be(4, 59) + be(4, 24000))),
    }
    return {k: ("mp3", v) for k, v in I.items()}

def _seek(n=5): return b"".join(be(8, i * 44100) + be(8, i * 900) + be(2, 4096) for i in range(n))
def flac_inputs():
    SI, vc = flac.streaminfo(), vorbis.comment([("TITLE", "Hello"), ("ARTIST", "Artist"), ("Unknown_Field", "keep me")])
    F = flac
    S, P, A_, K, C, U, I_ = F.STREAMINFO, F.PADDING, F.APPLICATION, F.SEEKTABLE, F.COMMENT, F.CUESHEET, F.PICTURE
    cue = b"CUE".ljust(128, b"\0") + be(8, 88200) + b"\1" + b"\0" * 258 + b"\1" + be(8, 0) + b"\xaa" + b"\0" * 12 + b"\0" + b"\0" * 13 + b"\0"
    aud = F.audio(1, 30000)
    I = {
        "min": F.build([(S, SI)], aud),
        "vc": F.build([(S, SI), (C, vc)], aud),
        "vcp": F.build([(S, SI), (C, vc), (P, b"\0" * 1000)], aud),
        "pvc": F.build([(S, SI), (P, b"\0" * 500), (C, vc)], aud),
        "app": F.build([(S, SI), (A_, b"test" + noise(4, 100)), (K, _seek()), (C, vc), (U, cue), (P, b"\0" * 2000)], aud),
        "vcapp": F.build([(S, SI), (C, vc), (A_, b"test" + noise(4, 100)), (K, _seek())], aud),
        "pic": F.build([(S, SI), (C, vc), (I_, F.picture(PNG, desc="front")), (P, b"\0" * 300)], aud),
        "pics": F.build([(S, SI), (K, _seek()), (C, vc), (I_, F.picture(PNG, desc="front")), (I_, F.picture(JPG, 4, "image/jpeg", "back")), (P, b"\0" * 4096)], aud),
        "picfirst": F.build([(S, SI), (I_, F.picture(PNG, desc="front")), (C, vc), (P, b"\0" * 300)], aud),
        "piconly": F.build([(S, SI), (I_, F.picture(PNG, desc="front")), (A_, b"test" + noise(4, 100))], aud),
        "id3nopad": F.build([(S, SI), (C, vc)], aud, _v2(3, 0)),
        "id3both": F.build([(S, SI), (K, _seek()), (C, vc), (P, b"\0" * 50)], aud, _v2(4, 30), id3.v1("Hello")),
        "p0": F.build([(S, SI), (C, vc), (P, b"")], aud),
        "pp": F.build([(S, SI), (P, b"\0" * 100), (C, vc), (P, b"\0" * 200), (P, b"\0" * 300)], aud),
        "id3": F.build([(S, SI), (C, vc), (P, b"\0" * 1000)], aud, _v2(4, 100)),
        "id3v1": F.build([(S, SI), (C, vc), (P, b"\0" * 1000)], aud, b"", id3.v1("Hello")),
        "novc": F.build([(S, SI), (K, _seek()), (P, b"\0" * 1000)], aud),
    }
    return {k: ("flac", v) for k, v in I.items()}

def ogg_inputs():
    o = ogg
    f = [("TITLE", "Hello"), ("ARTIST", "Artist"), ("Unknown_Field", "keep me"), ("GENRE", "Rock"), ("GENRE", "Pop")]
    big = [("LONGFIELD", "x" * 70000)]
    import base64
    pic = [("METADATA_BLOCK_PICTURE", base64.b64encode(flac.picture(PNG, desc="front")))]
    I = {
        "vorbis": o.mux(o.vorbis_stream(1, f)),
        "vorbis_nohdrflush": o.mux(o.vorbis_stream(1, f, flush_hdr=False)),
        "vorbis_min": o.mux(o.vorbis_stream(5, ())),
        "vorbis_big": o.mux(o.vorbis_stream(1, f + big, flush_hdr=False)),
        "vorbis_pic": o.mux(o.vorbis_stream(1, f + pic)),
        "vorbis_cont": o.mux(o.vorbis_stream(1, f, psize=9000, n=24, maxseg=20)),
        "vorbis_pad": o.mux(o.vorbis_stream(1, f, cpad=b"\0" * 600)),
        "vorbis_bigsetup": o.mux(o.vorbis_stream(1, f, setup=66000, flush_hdr=False)),
        "opus": o.mux(o.opus_stream(2, f)),
        "opus_pad": o.mux(o.opus_stream(2, f, pad=b"\0" * 800)),
        "flac": o.mux(o.flac_stream(3, f)),
        "flac_extra": o.mux(o.flac_stream(3, f, extra=((flac.SEEKTABLE, _seek()), (flac.APPLICATION, b"abcd" + noise(3, 60))))),
        "mux2": o.mux(o.vorbis_stream(1, f), o.opus_stream(2, f)),
        "muxunk": o.mux(o.unknown_stream(7), o.vorbis_stream(1, f)),
        "vorbunk": o.mux(o.vorbis_stream(1, f), o.unknown_stream(7)),
        "chain": o.chain(o.vorbis_stream(1, f), o.vorbis_stream(11, [("TITLE", "Second")], seed=10)),
        "chain3": o.chain(o.opus_stream(1, f), o.opus_stream(11, [("TITLE", "Second")], seed=10), o.opus_stream(12, [], seed=12)),
        "smallpages": o.mux(o.vorbis_stream(1, f + [("LONG", "z" * 3000)], flush_hdr=False, maxseg=3)),
        "opus_smallpages": o.mux(o.opus_stream(2, f + [("LONG", "z" * 3000)], maxseg=3)),
        "edge65025": o.mux(o.vorbis_stream(1, [("A", "y" * (255 * 255 - 25))])),
        "edge65025nf": o.mux(o.vorbis_stream(1, [("A", "y" * (255 * 255 - 25))], flush_hdr=False)),
        "opus_edge65025": o.mux(o.opus_stream(1, [("A", "y" * (255 * 255 - 25))])),
        "emptymid": o.mux(o.with_empty(o.vorbis_stream(1, f), 5)),
        "emptyhdr": o.mux(o.with_empty(o.vorbis_stream(1, f), 1)),
        "emptyend": o.mux(o.with_empty(o.vorbis_stream(1, f), -1)),
        "mux2swap": o.mux(o.opus_stream(2, f + [("LONG", "z" * 3000)], maxseg=3), o.vorbis_stream(1, f, maxseg=4)),
        "mux3": o.mux(o.unknown_stream(7), o.opus_stream(2, f), o.flac_stream(3, f)),
        "chainsame": o.chain(o.opus_stream(1, f), o.unknown_stream(9), o.vorbis_stream(12, [("TITLE", "Other")])),
        "edge255": o.mux(o.vorbis_stream(1, [("A", "y" * (255 * 255 - 50))])),
    }
    return {k: ("ogg", v) for k, v in I.items()}

def mp4_inputs():
    m = mp4
    def T(i=1, n=20, size=400, per=4, vary=90, **kw): return dict(id=i, chunks=m.chunked(m.samples(i, n, size, vary), per), **kw)
    items = [m.text(b"\xa9nam", "Hello"), m.text(b"\xa9ART", "Artist"), m.item(b"trkn", m.data(0, be(2, 0) + be(2, 3) + be(2, 12) + be(2, 0))), m.text(b"Xunk", "keep me"), m.longtext("com.apple.iTunes", "OWN", "own value")]
    cov = [m.item(b"covr", m.data(14, PNG), m.data(13, JPG))]
    B = m.build
    two = [T(1), T(2, kind="avc", size=900, w=320, h=240, flags=3)]
    frag = lambda base, **kw: B([dict(T(1), chunks=[])], ("ftyp", "moov", "frag", "frag"), items, frags=[dict(trafs=[dict(track=1, samples=m.samples(11, 4, 300), base=base)]), dict(trafs=[dict(track=1, samples=m.samples(12, 4, 350), base=base)])], moov_extra=[m.atom("mvex", m.full("trex", 0, 0, be(4, 1), be(4, 1), be(4, 1024), be(4, 0), be(4, 0)))], **kw)
    uuid = m.atom("uuid", noise(5, 16), noise(6, 40))
    I = {
        "front": B(two, ("ftyp", "moov", "mdat"), items),
        "back": B(two, ("ftyp", "mdat", "moov"), items),
        "frontfree": B(two, ("ftyp", "moov", "free:1000", "mdat"), items),
        "backfree": B(two, ("ftyp", "free:500", "mdat", "moov"), items),
        "freefront": B(two, ("ftyp", "free:64", "moov", "free:2000", "mdat", "free:100"), items),
        "skip": B(two, ("ftyp", "moov", "skip:300", "free:8", "mdat"), items),
        "notags": B(two, ("ftyp", "moov", "mdat")),
        "notagsback": B(two, ("ftyp", "mdat", "moov")),
        "co64": B([T(1, co64=True), T(2, co64=True, kind="avc")], ("ftyp", "moov", "free:200", "mdat"), items),
        "cover": B(two, ("ftyp", "moov", "free:400", "mdat"), items + cov),
        "udta": B(two, ("ftyp", "moov", "mdat"), items, udta=[m.atom("Xtra", noise(8, 60)), m.full("cprt", 0, 0, b"\x55\xc4", b"copy\0")]),
        "udtaonly": B(two, ("ftyp", "moov", "mdat"), None, udta=[m.atom("Xtra", noise(8, 60))]),
        "metaextra": B(two, ("ftyp", "moov", "free:500", "mdat"), items, metaextra=m.atom("xtrm", noise(9, 30))),
        "metafree": B(two, ("ftyp", "moov", "mdat"), items, metafree=700),
        "mdat2": B(two, ("ftyp", "moov", "free:100", "mdatA", "mdatB"), items),
        "mdat2mid": B(two, ("ftyp", "mdatA", "moov", "mdatB"), items),
        "mdat2back": B(two, ("ftyp", "mdatA", "mdatB", "moov"), items),
        "mdat2free": B(two, ("ftyp", "moov", "mdatA", "free:333", "mdatB"), items),
        "large": B(two, ("ftyp", "moov", "mdat"), items, large_mdat=True),
        "size0": B(two, ("ftyp", "moov", "mdat"), items, mdat_size0=True),
        "uuid": B(two, ("ftyp", "moov", "uuid", "mdat"), items, top=dict(uuid=uuid)),
        "uuidend": B(two, ("ftyp", "moov", "free:300", "mdat", "uuid"), items, top=dict(uuid=uuid)),
        "pdin": B(two, ("ftyp", "pdin", "moov", "mdat"), items),
        "moovlast": B(two, ("ftyp", "moov", "mdat"), items, moov_order=("mvhd", "udta", "trak", "extra"), moov_extra=[m.atom("Xmov", noise(10, 24))]),
        "trakextra": B([T(1, extra=[m.atom("Xtrk", noise(11, 20))], edts=True, mdia_extra=m.atom("Xmda", noise(12, 12)), stbl_extra=[m.full("sdtp", 0, 0, b"\0" * 20)]), T(2, kind="avc", dref="multi")], ("ftyp", "moov", "free:50", "mdat"), items),
        "trakextra2": B([T(1, extra=[m.atom("Xtrk", noise(11, 20))], mdia_after=[m.full("elng", 0, 0, b"de-AT\0")], minf_after=[m.atom("Xmin", noise(15, 30))], stbl_extra=[m.atom("Xstb", noise(16, 30)), m.atom("Xst2", noise(17, 30))]), T(2, kind="avc", extra=[m.atom("Xtrk", noise(18, 20))])], ("ftyp", "moov", "free:50", "mdat"), items),
        "stz2": B([T(1, n=12, size=200, vary=20, stz2=8), T(2, n=8, size=900, stz2=16)], ("ftyp", "moov", "mdat"), items),
        "onetrack": B([T(1, n=40, size=700, per=1, vary=0)], ("ftyp", "moov", "free:100", "mdat"), items),
        "v1hdr": B([T(1, ver=1, mdver=1), T(2, kind="avc")], ("ftyp", "moov", "mdat"), items, mv=dict(ver=1)),
        "fragabs": frag("abs"),
        "fragmoof": frag("moof"),
        "fragnone": frag("none"),
        "empty": B([dict(T(1), chunks=[])], ("ftyp", "moov"), items),
        "bigmdat": B([T(1, n=400, size=1000, per=10)], ("ftyp", "moov", "free:100", "mdat"), items),
    }
    return {k: ("mp4", v) for k, v in I.items()}

def mkv_inputs():
    m = mkv
    trk = m.el("Tracks", m.video(1), m.audio(2, name="Aud", lang="ger"))
    trkw = m.el("Tracks", m.video(1, default=1, forced=0, enabled=1, lang="eng", extra=(m.el(0x6DE7, b"\1"),)), m.audio(2, bits=16), m.subtitle(3, name="Sub", lang="fre", forced=1))
    tags = m.el("Tags", m.tag(m.simple("TITLE", "Hello", lang="eng"), m.simple("ARTIST", "Artist"), m.simple("OWN_FIELD", "keep me"), m.simple("BINARY_FIELD", binary=noise(5, 40))))
    tags2 = m.el("Tags", m.tag(m.simple("TITLE", "Hello")), m.tag(m.simple("TITLE", "Track title", lang="ger", default=0), level=30, tracks=[1002]), m.tag(m.simple("TITLE", "Edition"), level=60, ltype="EDITION", editions=[500]))
    chap = m.el("Chapters", m.edition(m.chapter(601, 0, 10**9, (("eng", "One"), ("ger", "Eins"))), m.chapter(602, 10**9, 2 * 10**9, nested=(m.chapter(603, 10**9, names=(("eng", "Sub"),)),))))
    att = m.el("Attachments", m.attachment("a.png", "image/png", PNG, 77, "desc"), m.attachment("b.ttf", "application/x-font", noise(6, 1500), 78))
    def cues(cl, rel=False): return [(i * 1000, 1, i, (0 if rel else None)) for i in range(len(cl))]
    def F(items, cl, cues_=None, seek=None, eb=None, **kw): return (eb or m.ebml()) + m.segment(items, cl, cues=cues_, seek=seek, **kw)
    C = m.clusters
    sk = ["Info", "Tracks", "Tags", "Cues"]
    c = C()
    inf = m.info("Movie title")
    I = {
        "std": F(["seek", m.void(200), inf, trk, tags, "clusters", "cues"], c, cues(c), sk),
        "cuesfront": F(["seek", inf, trk, "cues", tags, m.void(300), "clusters"], c, cues(c, True), sk),
        "tagsback": F(["seek", m.void(100), inf, trk, "clusters", "cues", tags], c, cues(c), sk),
        "nocues": F(["seek", inf, trk, tags, "clusters"], c, None, ["Info", "Tracks", "Tags"]),
        "noseek": F([inf, trk, tags, m.void(130), "clusters"], c),
        "notags": F(["seek", inf, trk, m.void(500), "clusters", "cues"], c, cues(c), ["Info", "Tracks", "Cues"]),
        "tags2": F(["seek", inf, trk, tags2, "clusters", "cues"], c, cues(c), sk),
        "full": F(["seek", m.void(400), inf, trkw, chap, att, tags2, m.void(1000), "clusters", "cues"], c, cues(c, True), sk[:3] + ["Chapters", "Attachments", "Cues"]),
        "fullback": F(["seek", m.void(150), inf, trkw, chap, "clusters", "cues", att, tags2], c, cues(c, True), sk[:3] + ["Chapters", "Attachments", "Cues"]),
    }
    c2 = C(position=4, prevsize=True)
    I["pos"] = F(["seek", inf, trk, tags, m.void(200), "clusters", "cues"], c2, cues(c2, True), sk)
    I["pos1"] = F(["seek", inf, trk, tags, "clusters", "cues"], C(position=True, prevsize=True), cues(c2), sk)
    c3 = C(crc=True, position=4)
    I["crc"] = F(["seek", inf, m.el("Tracks", m.crc(trk[5 + 0:]) if False else b"", m.video(1), m.audio(2)), tags, m.void(60), "clusters", "cues"], c3, cues(c3, True), sk)
    c4 = C(void_first=60)
    I["cvoid"] = F(["seek", inf, trk, tags, "clusters", "cues"], c4, cues(c4, True), sk)
    c5 = C(void_mid=40, position=4)
    I["cvoidmid"] = F(["seek", inf, trk, tags, m.void(90), "clusters", "cues"], c5, cues(c5, True), sk)
    c6 = C(width=8)
    I["wide"] = F(["seek", inf, trk, tags, m.void(90), "clusters", "cues"], c6, cues(c6, True), sk, width=8)
    I["segunk"] = F(["seek", inf, trk, tags, m.void(90), "clusters", "cues"], c, cues(c), sk, unknown=True)
    c7 = C(unknown=True)
    I["cunk"] = F([inf, trk, tags, m.void(200), "clusters"], c7)
    I["cunk1"] = F(["seek", inf, trk, tags, m.void(200), "clusters", "cues"], C(unknown=1), cues(C(unknown=1)), sk)
    I["cunktags"] = F(["seek", inf, trk, "clusters", "cues", tags], C(unknown=True, position=4), cues(C(unknown=True, position=4)), sk)
    I["live"] = F([inf, trk, tags, m.void(200), "clusters"], C(unknown=1), unknown=1)
    I["tagsmid"] = F(["seek", inf, trk, m.void(300), "cluster:0", tags, "cluster:1", "cluster:2", "cues"], c, cues(c), sk)
    I["cuesmid"] = F(["seek", inf, trk, tags, m.void(300), "cluster:0", "cues", "cluster:1", "cluster:2"], c, cues(c), sk)
    I["unkmid"] = F(["seek", inf, trk, tags, m.void(300), "cluster:0", m.el(0x1F112233, noise(3, 40)), "cluster:1", "cluster:2", "cues"], c, cues(c), sk)
    I["unkend"] = F(["seek", inf, trk, tags, m.void(300), "clusters", "cues", m.el(0x1F112233, noise(3, 40))], c, cues(c), sk)
    I["chapend"] = F(["seek", inf, trk, tags, m.void(300), "clusters", "cues", chap], c, cues(c), ["Info", "Tracks", "Tags", "Cues", "Chapters"])
    I["webm"] = F(["seek", inf, m.el("Tracks", m.video(1, codec="V_VP8", private=b"\0"), m.audio(2, codec="A_VORBIS", private=b"")), tags, "clusters", "cues"], c, cues(c), sk, eb=m.ebml("webm", 2, 2))
    I["voidbetween"] = F(["seek", inf, trk, tags, m.void(50), "cluster:0", m.void(70), "cluster:1", "cluster:2", "cues", m.void(30)], c, cues(c), sk)
    I["unkl1"] = F(["seek", inf, trk, tags, m.el(0x1F112233, noise(3, 40)), m.void(100), "clusters", "cues"], c, cues(c), sk)
    I["infocrc"] = F(["seek", m.el("Info", m.crc(inf[5:]), inf[5:]), trk, tags, m.void(80), "clusters", "cues"], c, cues(c), sk)
    I["tags_split"] = F(["seek", inf, trk, tags, m.void(100), "clusters", "cues", m.el("Tags", m.tag(m.simple("COMMENT", "late"), level=30))], c, cues(c), sk)
    I["long"] = F(["seek", inf, trk, tags, m.void(100), "clusters", "cues"], C(20, 8, 900), cues(C(20)), sk)
    cref = C()
    I["cueref"] = F(["seek", inf, trk, tags, m.void(100), "clusters", "cues"], cref, [(i * 1000, 1, i, 1, (m.u("CueDuration", 20), m.u("CueBlockNumber", 2)) if i else ()) for i in range(3)] + [(500, 2, 1, 2)], sk)
    # two segments; positions within the second one are relative to its own start
    seg1 = lambda k=c, cu=True: m.segment(["seek", inf, trk, tags, m.void(100), "clusters", "cues"], k, cues=cues(k, True), seek=sk)
    seg2 = lambda k=c, w=0, x=(): m.segment(["seek", m.info("Second"), trk, *x, m.void(70), "clusters", "cues"], k, cues=cues(k, True), seek=["Info", "Tracks", "Cues"], width=w)
    I["twoseg"] = m.ebml() + seg1() + seg2()
    cp = C(position=4, prevsize=True)
    I["twosegpos"] = m.ebml() + seg1(cp) + m.el(0x1F112233, noise(3, 40)) + seg2(cp, 8)
    I["unktop"] = m.ebml() + seg1() + m.el(0x1F112233, noise(3, 40))
    I["unktopfront"] = m.ebml() + m.el(0x1F112233, noise(3, 40)) + seg1()
    I["twosegvoid"] = m.ebml() + seg1(cp) + m.void(60) + seg2(C(void_first=40))
    return {k: ("mkv", v) for k, v in I.items()}

EXT = dict(mp3="mp3", flac="flac", ogg="ogg", mp4="m4a", mkv="mkv")
def policy_source(fmt, cfg):
    """A small file with the given tags: [type, target, [[name, text]]]"""
    F = [dict(f) for _, _, f in cfg]
    if fmt == "mkv":
        m = mkv
        trk = m.el("Tracks", m.video(1), m.audio(2))
        tg = lambda t, f: m.tag(*[m.simple({"Title": "TITLE", "Artist": "ARTIST"}[k], v) for k, v in f.items()], level=int(t.split("|")[0][6:]), tracks=[1002] if "T=1002" in t else ())
        c = m.clusters()
        tags = [m.el("Tags", *[tg(t[1], f) for t, f in zip(cfg, F)])] if cfg else []
        return m.ebml() + m.segment(["seek", m.info("Movie"), trk] + tags + [m.void(150), "clusters", "cues"], c, cues=[(i * 1000, 1, i, None) for i in range(len(c))], seek=["Info", "Tracks", "Cues"] + (["Tags"] if cfg else []))
    if fmt == "mp4":
        m = mp4
        items = [m.text({"Title": b"\xa9nam", "Artist": b"\xa9ART"}[k], v) for k, v in F[0].items()] if cfg else None
        return m.build([dict(id=1, chunks=m.chunked(m.samples(1, 12, 300, 60), 4))], ("ftyp", "moov", "free:100", "mdat"), items)
    N = {"Title": "TITLE", "Artist": "ARTIST"}
    fl = [(N[k], v) for k, v in F[0].items()] if cfg else []
    if fmt == "ogg": return ogg.mux(ogg.vorbis_stream(1, fl))
    return flac.build([(flac.STREAMINFO, flac.streaminfo())] + ([(flac.COMMENT, vorbis.comment(fl))] if cfg else []) + [(flac.PADDING, b"\0" * 90)], flac.audio(1, 9000))
def target_arg(t):
    """The driver's notation of a target."""
    return t.split("|")[0][6:] + "//" + ("1002" if "T=1002" in t else "") + "///"
def all_inputs():
    out = {}
    for d, p in ((mp3_inputs(), "mp3"), (flac_inputs(), "flac"), (ogg_inputs(), "ogg"), (mp4_inputs(), "mp4"), (mkv_inputs(), "mkv")):
        for k, v in d.items(): out["%s.%s" % (p, k)] = v
    return out
if __name__ == "__main__":
    from runner import PROJ
    for k, (f, b) in all_inputs().items():
        p = PROJ[f](b)
        if p["errs"]: print(k, len(b), p["errs"])
