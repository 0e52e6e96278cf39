-------------------------------- MODULE Info --------------------------------
(***************************************************************************)
(* What a file encodes and how the library has to report it.  A file is     *)
(* described by a record of the facts it encodes and of the choices made    *)
(* for encoding them (Facts and Choices); Want(f, d) is the technical       *)
(* information which has to be reported for the file.  The choices do not   *)
(* occur in Want: the same facts must be reported whatever the encoding.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
(* natural numbers of any size: limbs of base 10000, least significant first *)
RECURSIVE L(_), Trim(_), MulAt(_, _, _, _), Norm(_, _, _), AddAt(_, _, _, _), SubAt(_, _, _, _), LeqAt(_, _, _)
L(n) == IF n < 10000 THEN <<n>> ELSE <<n % 10000>> \o L(n \div 10000)
Trim(a) == IF Len(a) > 1 /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
Dg(a, i) == IF i >= 1 /\ i <= Len(a) THEN a[i] ELSE 0
Max2(x, y) == IF x > y THEN x ELSE y
AddAt(a, b, i, c) == IF i > Max2(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>) ELSE LET t == Dg(a, i) + Dg(b, i) + c IN <<t % 10000>> \o AddAt(a, b, i + 1, t \div 10000)
Add(a, b) == Trim(AddAt(a, b, 1, 0))
SubAt(a, b, i, c) == IF i > Len(a) THEN <<>> ELSE LET t == (Dg(a, i) - Dg(b, i)) - c IN <<IF t < 0 THEN t + 10000 ELSE t>> \o SubAt(a, b, i + 1, IF t < 0 THEN 1 ELSE 0)
Sub(a, b) == Trim(SubAt(a, b, 1, 0))                    (* a >= b *)
RECURSIVE Conv(_, _, _, _)
Conv(a, b, k, i) == IF i > k THEN 0 ELSE Dg(a, i) * Dg(b, (k + 1) - i) + Conv(a, b, k, i + 1)
MulAt(a, b, k, c) == IF k > Len(a) + Len(b) THEN (IF c = 0 THEN <<>> ELSE L(c)) ELSE LET t == Conv(a, b, k, 1) + c IN <<t % 10000>> \o MulAt(a, b, k + 1, t \div 10000)
Mul(a, b) == Trim(MulAt(a, b, 1, 0))
LeqAt(a, b, i) == IF i = 0 THEN TRUE ELSE IF Dg(a, i) # Dg(b, i) THEN Dg(a, i) < Dg(b, i) ELSE LeqAt(a, b, i - 1)
Leq(a, b) == LeqAt(a, b, Max2(Len(a), Len(b)))
Dist(a, b) == IF Leq(a, b) THEN Sub(b, a) ELSE Sub(a, b)
Norm(a, b, c) == Trim(a)
(* a ratio with tolerance: abs units and rel parts per thousand *)
R(num, den, abs, rel) == [ num |-> num, den |-> den, abs |-> abs, rel |-> rel ]
NearTo(v, r) == Leq(Mul(L(1000), Dist(Mul(v, r.den), r.num)), Add(Mul(L(r.abs * 1000), r.den), Mul(L(r.rel), r.num)))
Tick == <<0, 1000>>                                     (* 10 000 000 ticks are a second *)
Secs(num, den) == IF Trim(den) = <<0>> \/ Trim(num) = <<0>> THEN R(<<0>>, <<1>>, 0, 0) ELSE R(Mul(num, Tick), den, 20, 0)
Zero == R(<<0>>, <<1>>, 0, 0)
(* what is wanted of one item: fields with exactly this value, with one of the values, and with a value near the ratio *)
It(eq, in, near) == [ eq |-> eq, in |-> in, near |-> near ]
None == [ x \in {} |-> 0 ]
(* --------------------------------------------------------------------- *)
(* MPEG audio                                                              *)
BitrateTable == [ v \in {3, 2, 0} |-> [ l \in 1..3 |->
    IF v = 3 THEN (CASE l = 1 -> <<32,64,96,128,160,192,224,256,288,320,352,384,416,448>> [] l = 2 -> <<32,48,56,64,80,96,112,128,160,192,224,256,320,384>> [] l = 3 -> <<32,40,48,56,64,80,96,112,128,160,192,224,256,320>>)
    ELSE IF l = 1 THEN <<32,48,56,64,80,96,112,128,144,160,176,192,224,256>> ELSE <<8,16,24,32,40,48,56,64,80,96,112,128,144,160>> ] ]
MpegRate == [ v \in {3, 2, 0} |-> [ i \in 0..2 |-> (CASE i = 0 -> 44100 [] i = 1 -> 48000 [] i = 2 -> 32000) \div (CASE v = 3 -> 1 [] v = 2 -> 2 [] v = 0 -> 4) ] ]
SamplesPerFrame(v, l) == IF l = 1 THEN 384 ELSE IF l = 2 THEN 1152 ELSE IF v = 3 THEN 1152 ELSE 576
MpegName(l) == CASE l = 1 -> "MPEG-1 Layer 1" [] l = 2 -> "MPEG-1 Layer 2" [] l = 3 -> "MPEG-1 Layer 3"
MpegChannels(m) == IF m = 3 THEN 1 ELSE 2
VbrFrames(d) == IF d.vbr = "none" \/ d.xf = <<0>> THEN <<>> ELSE d.xf
FrameBytes(d) == (BitrateTable[d.ver][d.layer][d.br] * 125 * SamplesPerFrame(d.ver, d.layer)) \div MpegRate[d.ver][d.sr]
MpegTrack(d) ==
    LET rate == MpegRate[d.ver][d.sr] spf == SamplesPerFrame(d.ver, d.layer) br == BitrateTable[d.ver][d.layer][d.br]
        vbr == VbrFrames(d) # <<>> IN
    It([ type |-> 2, format |-> MpegName(d.layer), media |-> "Audio", rate |-> rate, ch |-> MpegChannels(d.mode), chcfg |-> d.mode, ver |-> (CASE d.ver = 3 -> "1.000" [] d.ver = 2 -> "2.000" [] d.ver = 0 -> "2.500"), valid |-> TRUE ],
       None,
       (* without a frame count the duration follows from the size of the audio data; a frame has a whole number of bytes (words for layer 1) *)
       IF vbr THEN [ duration |-> R(Mul(Mul(VbrFrames(d), L(spf)), Tick), L(rate), 20, 0) ]
       ELSE [ duration |-> R(Mul(Mul(L(d.n), L(spf)), Tick), L(rate), 20, (1000 * (IF d.layer = 1 THEN 4 ELSE 1)) \div FrameBytes(d) + 3), mbitrate |-> R(L(br), <<1>>, 0, 0) ])
(* --------------------------------------------------------------------- *)
(* AAC                                                                     *)
AacRate == <<96000,88200,64000,48000,44100,32000,24000,22050,16000,12000,11025,8000,7350>>
AacProfile == <<"Advanced Audio Coding Main Profile", "Advanced Audio Coding Low Complexity Profile", "Advanced Audio Coding Scalable Sampling Rate Profile", "Advanced Audio Coding Long Term Predicition">>
AacChannels == <<1, 2, 3, 4, 5, 6, 8>>
AdtsTrack(d) == It([ type |-> 6, format |-> AacProfile[d.profile + 1], media |-> "Audio", rate |-> AacRate[d.freq + 1], ch |-> AacChannels[d.ch], chcfg |-> d.ch, valid |-> TRUE ], None, None)
(* --------------------------------------------------------------------- *)
(* WAVE                                                                    *)
WavName(d) == IF d.tag = "float" \/ d.tag = "extfloat" THEN "Pulse Code Modulation (float, IEEE)" ELSE "Pulse Code Modulation (integer, little endian)"
WavTrack(d) == It([ type |-> 4, format |-> WavName(d), media |-> "Audio", rate |-> d.rate, ch |-> d.ch, bps |-> d.bits, samples |-> L(d.n), size |-> Mul(L(d.n), L((d.ch * d.bits) \div 8)), valid |-> TRUE ], None,
                  [ duration |-> Secs(L(d.n), L(d.rate)), mbitrate |-> R(Mul(L(d.rate), L(d.ch * d.bits)), <<1000>>, 1, 1) ])
WavMpegTrack(d) ==
    LET m == [ ver |-> 3, layer |-> 3, br |-> d.br, sr |-> 0, mode |-> 0, vbr |-> d.vbr, xf |-> d.xf, n |-> 30 ] t == MpegTrack(m) IN
    It([ x \in DOMAIN t.eq |-> IF x = "type" THEN 4 ELSE t.eq[x] ], None, t.near)
(* --------------------------------------------------------------------- *)
(* IVF                                                                     *)
IvfName(c) == CASE c = "VP80" -> "VP8" [] c = "VP90" -> "VP9" [] c = "AV01" -> "AOMedia Video 1"
IvfTrack(d) == It([ type |-> 8, format |-> IvfName(d.codec), media |-> "Video", fid |-> d.codec, w |-> d.w, h |-> d.h, samples |-> L(d.frames), ver |-> "0.000", valid |-> TRUE ],
                  [ fps |-> { d.rate \div d.scale, (d.rate + d.scale \div 2) \div d.scale } ],
                  [ duration |-> Secs(Mul(L(d.frames), L(d.scale)), L(d.rate)) ])
(* --------------------------------------------------------------------- *)
(* FLAC and Ogg                                                            *)
FlacName == "Free Lossless Audio Codec"
FlacTrack(d) == It([ type |-> 7, format |-> FlacName, media |-> "Audio", rate |-> d.rate, ch |-> d.ch, bps |-> d.bps, samples |-> d.samples, valid |-> TRUE ], None, [ duration |-> Secs(d.samples, L(d.rate)) ])
OggTrack(d, id) ==
    LET n == L(d.total) IN
    CASE d.codec = "vorbis" -> It([ type |-> 5, format |-> "Vorbis", media |-> "Audio", rate |-> d.rate, ch |-> d.ch, samples |-> n, id |-> L(id), valid |-> TRUE ], None,
                                  [ duration |-> Secs(n, L(d.rate)), mbitrate |-> R(L(IF d.br = -1 THEN 0 ELSE d.br), <<1000>>, 1, 0) ])
      [] d.codec = "opus" -> It([ type |-> 5, format |-> "Opus", media |-> "Audio", ch |-> d.ch, samples |-> L(d.total - d.preskip), id |-> L(id), valid |-> TRUE ], [ rate |-> {d.rate, 48000} ],
                                  [ duration |-> Secs(L(d.total - d.preskip), L(48000)) ])
      [] d.codec = "flac" -> It([ type |-> 5, format |-> FlacName, media |-> "Audio", rate |-> d.rate, ch |-> d.ch, bps |-> d.bps, samples |-> n, id |-> L(id), valid |-> TRUE ], None,
                                  [ duration |-> Secs(n, L(d.rate)) ])
      [] d.codec = "theora" -> It([ type |-> 5, format |-> "Theora", media |-> "Video", id |-> L(id) ], None, None)
      [] d.codec = "speex" -> It([ type |-> 5, format |-> "Speex", media |-> "Audio", id |-> L(id) ], None, None)
(* --------------------------------------------------------------------- *)
(* MP4                                                                     *)
Epoch1904 == <<2000, 5275, 600>>                       (* seconds from 0001-01-01 to 1904-01-01 *)
Date1904(secs) == IF secs = <<0>> THEN <<0>> ELSE Mul(Add(Epoch1904, secs), Tick)
DateOr(secs) == IF secs = <<0>> THEN {<<0>>, Mul(Epoch1904, Tick)} ELSE {Date1904(secs)}
LangOr(l) == IF l = "und" THEN {"", "und"} ELSE {l}      (* undetermined *)
RECURSIVE SumSizes(_, _)
SizeOf(d, i) == d.sz + ((i * d.step) % 7)
SumSizes(d, i) == IF i = 0 THEN 0 ELSE SizeOf(d, i) + SumSizes(d, i - 1)
Mp4Media(k) == CASE k \in {"avc", "hevc", "av01"} -> {"Video"} [] k = "text" -> {"Subtitle", "Subititle"} [] OTHER -> {"Audio"}
AvcName(p) == CASE p = 66 -> "Advanced Video Coding Basline Profile" [] p = 77 -> "Advanced Video Coding Main Profile" [] p = 88 -> "Advanced Video Coding Extended Profile" [] p = 100 -> "Advanced Video Coding High Profile" [] p = 110 -> "Advanced Video Coding High 10 Profile" [] p = 122 -> "Advanced Video Coding High 4:2:2 Profile"
Mp4Name(d) == CASE d.kind = "aac" -> AacProfile[d.ascobj] [] d.kind = "avc" -> AvcName(d.profile) [] d.kind = "alac" -> "Apple Lossless Audio Codec" [] d.kind = "ac-3" -> "Dolby Digital" [] d.kind = "ec-3" -> "Dolby Digital Plus"
                [] d.kind = "fLaC" -> FlacName [] d.kind = "Opus" -> "Opus" [] d.kind = "samr" -> "Adaptive Multi-Rate audio codec" [] d.kind = "hevc" -> "High Efficiency Video Coding" [] d.kind = "av01" -> "AOMedia Video 1" [] d.kind = "text" -> "MPEG-4 Timed Text"
IsVideo(k) == k \in {"avc", "hevc", "av01"}
IsAudio(k) == ~IsVideo(k) /\ k # "text"
Or0(f, c) == IF c THEN f ELSE None
Mp4Track(d) ==
    It([ type |-> 3, id |-> d.id, name |-> d.name, enabled |-> (d.flags % 2) = 1, samples |-> L(d.n), size |-> L(SumSizes(d, d.n)), valid |-> TRUE, format |-> Mp4Name(d) ]
       @@ Or0([ w |-> d.w, h |-> d.h, depth |-> 24 ], IsVideo(d.kind))
       @@ Or0([ rate |-> IF d.kind = "aac" THEN (IF d.ascidx = 15 THEN d.ascrate ELSE AacRate[d.ascidx + 1]) ELSE d.rate, bps |-> d.bps ], IsAudio(d.kind))
       @@ Or0([ chcfg |-> d.ascch ], d.kind = "aac"),
       [ media |-> Mp4Media(d.kind), lang |-> LangOr(d.lang), ctime |-> DateOr(d.ctime), mtime |-> DateOr(d.mtime) ] @@ Or0([ ch |-> {d.ch} \cup (IF d.kind = "aac" THEN {AacChannels[d.ascch]} ELSE {}) ], IsAudio(d.kind)),
       [ duration |-> Secs(d.mddur, d.ts) ])
Longer(a, b) == IF Leq(Mul(a.num, b.den), Mul(b.num, a.den)) THEN b ELSE a       (* of two ratios *)
Mp4Second == [ kind |-> "alac", id |-> <<7>>, lang |-> "deu", name |-> "second", flags |-> 7, n |-> 4, sz |-> 100, step |-> 0, ctime |-> <<0>>, mtime |-> <<0>>, rate |-> 48000, bps |-> 16, ch |-> 1, mddur |-> <<6000, 9>>, ts |-> <<8000, 4>> ]
Mp4Tracks(d) == <<Mp4Track(d)>> \o (IF d.second THEN <<Mp4Track(Mp4Second)>> ELSE <<>>)
Mp4Container(d) ==
    LET t == Mp4Tracks(d) longest == IF d.second THEN Longer(t[1].near.duration, t[2].near.duration) ELSE t[1].near.duration IN
    It([ timescale |-> d.mvts, doctype |-> d.brand ], (* the container is at least as recent as its tracks *)
       Or0([ ctime |-> {Date1904(d.mvctime), Date1904(d.ctime)} ], d.mvctime # <<0>>) @@ Or0([ mtime |-> {Date1904(d.mvmtime), Date1904(d.mtime)} ], d.mvmtime # <<0>>),
       [ duration |-> IF d.mvdur = <<0>> THEN longest ELSE Secs(d.mvdur, L(d.mvts)) ])
(* --------------------------------------------------------------------- *)
(* Matroska ("-" or -1: the element is absent)                             *)
MkvCodec(c) == CASE c = "V_MPEG4/ISO/AVC" -> "Advanced Video Coding High Profile" [] c = "V_VP8" -> "VP8" [] c = "V_VP9" -> "VP9" [] c = "V_AV1" -> "AOMedia Video 1" [] c = "V_MPEG2" -> "MPEG-2 Video" [] c = "V_THEORA" -> "Theora" [] c = "V_MPEGH/ISO/HEVC" -> "High Efficiency Video Coding" [] c = "V_PRORES" -> "ProRes"
                 [] c = "A_AAC" -> "Advanced Audio Coding Low Complexity Profile" [] c = "A_AC3" -> "Dolby Digital" [] c = "A_EAC3" -> "Dolby Digital Plus" [] c = "A_FLAC" -> FlacName [] c = "A_OPUS" -> "Opus" [] c = "A_VORBIS" -> "Vorbis" [] c = "A_MPEG/L3" -> "MPEG-1 Layer 3" [] c = "A_MPEG/L2" -> "MPEG-1 Layer 2"
                 [] c = "A_PCM/INT/LIT" -> "Pulse Code Modulation (integer, little endian)" [] c = "A_PCM/INT/BIG" -> "Pulse Code Modulation (integer, big endian)" [] c = "A_PCM/FLOAT/IEEE" -> "Pulse Code Modulation (float, IEEE)" [] c = "A_ALAC" -> "Apple Lossless Audio Codec" [] c = "A_DTS" -> "DTS"
Flag(v, def) == IF v = -1 THEN def ELSE v # 0
Langs(lang, bcp) == IF bcp # "-" /\ lang # "-" THEN LangOr(lang) \cup {bcp} ELSE IF bcp # "-" THEN {bcp, "eng"} ELSE (IF lang = "-" THEN {"eng"} ELSE LangOr(lang))
MkvFlags(d) == [ enabled |-> Flag(d.enabled, TRUE), default |-> Flag(d.default, TRUE), forced |-> Flag(d.forced, FALSE), lacing |-> Flag(d.lacing, TRUE) ]
MkvVideo(d) ==
    It([ type |-> 1, format |-> MkvCodec(d.vcodec), fid |-> d.vcodec, media |-> "Video", id |-> d.uid, number |-> d.number, name |-> IF d.name = "-" THEN "" ELSE d.name, w |-> d.w, h |-> d.h,
         dw |-> IF d.dw = -1 THEN d.w ELSE d.dw, dh |-> IF d.dw = -1 THEN d.h ELSE d.dh, interlaced |-> d.interlaced = 1, valid |-> TRUE ] @@ MkvFlags(d),
       [ lang |-> Langs(d.lang, d.bcp) ] @@ Or0([ fps |-> {1000000000 \div d.defdur, (1000000000 + d.defdur \div 2) \div d.defdur} ], d.defdur # -1) @@ Or0([ fps |-> {0} ], d.defdur = -1), None)
MkvAudio(d) ==
    It([ type |-> 1, format |-> MkvCodec(d.acodec), fid |-> d.acodec, media |-> "Audio", id |-> <<2002>>, number |-> 2, name |-> "", xrate |-> IF d.outrate = -1 THEN 0 ELSE d.outrate, valid |-> TRUE, enabled |-> TRUE, default |-> TRUE, forced |-> FALSE ],
       [ lang |-> {"fre"}, rate |-> IF d.arate = -1 THEN {0, 8000} ELSE {d.arate}, ch |-> IF d.ch = -1 THEN {0, 1} ELSE {d.ch}, bps |-> IF d.bits = -1 THEN {0} ELSE {d.bits} ], None)
MkvContainer(d) ==
    It([ doctype |-> d.doctype, docver |-> d.docver, docrver |-> d.docrver, version |-> 1, titles |-> <<IF d.title = "-" THEN "" ELSE d.title>>, mux |-> <<"mux 1">>, wr |-> <<"wr 1">>, segments |-> 1 ], None,
       [ duration |-> IF d.dur = <<0>> THEN Zero ELSE Secs(Mul(d.dur, d.scale), <<0, 0, 10>>) ])
(* chapters: [id, start, end (nanoseconds), names: <<text, languages>>, hidden, enabled, tracks, nested] *)
RECURSIVE ChapterOf(_)
Ns100(v) == v                                           (* given in units of 100 nanoseconds *)
ChapterOf(c) == [ id |-> c.id, start |-> Ns100(c.start), end |-> Ns100(c.end), names |-> [ i \in DOMAIN c.names |-> [ text |-> c.names[i].text, langs |-> IF c.names[i].langs = <<>> THEN <<"eng">> ELSE c.names[i].langs ] ],
                  hidden |-> Flag(c.hidden, FALSE), enabled |-> Flag(c.enabled, TRUE), tracks |-> c.tracks, nested |-> [ i \in DOMAIN c.nested |-> ChapterOf(c.nested[i]) ] ]
Ch(id, start, end, names, hidden, enabled, tracks, nested) == [ id |-> id, start |-> start, end |-> end, names |-> names, hidden |-> hidden, enabled |-> enabled, tracks |-> tracks, nested |-> nested ]
Nm(t, l) == [ text |-> t, langs |-> l ]
ChapterSets == [ none |-> <<>>,
    one |-> <<[ id |-> <<500>>, hidden |-> -1, default |-> -1, ordered |-> -1, chs |-> <<Ch(<<11>>, <<0>>, <<5, 1000>>, <<Nm("Intro", <<"eng">>)>>, -1, -1, <<>>, <<>>)>> ]>>,
    flags |-> <<[ id |-> <<9999, 9999, 9>>, hidden |-> 1, default |-> 1, ordered |-> 1, chs |-> <<Ch(<<11>>, <<0>>, <<0>>, <<Nm("Intro", <<>>)>>, 1, 0, <<>>, <<>>), Ch(<<12>>, <<1234, 5678, 90>>, <<1235, 5678, 90>>, <<>>, 0, 1, <<>>, <<>>)>> ],
                [ id |-> <<501>>, hidden |-> 0, default |-> 0, ordered |-> 0, chs |-> <<Ch(<<13>>, <<1>>, <<2>>, <<Nm("A", <<"eng">>), Nm("B", <<"ger">>), Nm("C%C3%BC", <<"ger", "de-AT">>)>>, -1, -1, <<>>, <<>>)>> ]>>,
    tracks |-> <<[ id |-> <<500>>, hidden |-> -1, default |-> 1, ordered |-> -1, chs |-> <<Ch(<<11>>, <<0>>, <<5, 1000>>, <<Nm("Intro", <<"eng">>)>>, 0, 1, <<<<1>>, <<2>>>>, <<>>), Ch(<<12>>, <<5, 1000>>, <<6, 1000>>, <<Nm("Two", <<"eng">>)>>, 0, 1, <<<<2>>>>, <<>>)>> ]>>,
    nested |-> <<[ id |-> <<500>>, hidden |-> -1, default |-> -1, ordered |-> -1, chs |-> <<Ch(<<11>>, <<0>>, <<0, 6000>>, <<Nm("Outer", <<"eng">>)>>, -1, -1, <<>>,
                     <<Ch(<<111>>, <<0>>, <<0, 3000>>, <<Nm("Inner", <<"eng">>)>>, -1, -1, <<>>, <<Ch(<<1111>>, <<0>>, <<10>>, <<Nm("Innermost", <<"und">>)>>, 1, -1, <<>>, <<>>)>>), Ch(<<112>>, <<0, 3000>>, <<0, 6000>>, <<>>, -1, -1, <<>>, <<>>)>>), Ch(<<12>>, <<0, 6000>>, <<0, 9000>>, <<Nm("Last", <<"eng">>)>>, -1, -1, <<>>, <<>>)>> ]>> ]
EditionOf(e) == [ id |-> e.id, hidden |-> Flag(e.hidden, FALSE), default |-> Flag(e.default, FALSE), ordered |-> Flag(e.ordered, FALSE), chs |-> [ i \in DOMAIN e.chs |-> ChapterOf(e.chs[i]) ] ]
Att(id, name, mime, desc, size) == [ id |-> id, name |-> name, mime |-> mime, desc |-> desc, size |-> size ]
AttachmentSets == [ none |-> <<>>, one |-> <<Att(<<77>>, "a.png", "image/png", "", 40)>>, two |-> <<Att(<<1615, 955, 737, 6744, 1844>>, "font%C3%BC.ttf", "application/x-truetype-font", "d%C3%A9sc", 700), Att(<<78>>, "empty", "text/plain", "", 0), Att(<<79>>, "b", "x/y", "z", 1)>> ]
(* --------------------------------------------------------------------- *)
(* files which are recognised but not parsed any further: the bytes they begin with and the name of the format *)
Sig(name, hex) == [ name |-> name, hex |-> hex ]
Signatures == [ ac3 |-> Sig("raw Dolby Digital", "0b77"), ar |-> Sig("Archive (GNU ar)", "213c617263683e0a"), asf |-> Sig("Advanced Systems Format", "3026b2758e66cf11a6d900aa0062ce6c"), dirac |-> Sig("raw Dirac", "42424344"), elf |-> Sig("Executable and Linkable Format", "7f454c46"),
    flv |-> Sig("Flash Video", "464c5601"), gif87 |-> Sig("Graphics Interchange Format", "474946383761"), gif89 |-> Sig("Graphics Interchange Format", "474946383961"), class |-> Sig("Java class file", "cafebabe"), jpeg |-> Sig("JPEG File Interchange Format", "ffd8ffe0"), lzh |-> Sig("LHA compressed file", "1fa0"),
    lzw |-> Sig("LZW compressed file", "1f9d"), psd |-> Sig("Photoshop document", "38425053"), png |-> Sig("Portable Network Graphics", "89504e470d0a1a0a"), pe |-> Sig("Portable Executable", "4d5a9000"), rar |-> Sig("RAR Archive", "526172211a0700"), riff |-> Sig("Resource Interchange File Format", "524946461122334443444441"),
    avi |-> Sig("RIFF/Audio Video Interleave", "5249464611223344415649204c495354"), tiffbe |-> Sig("Tagged Image File Format", "4d4d002a"), tiffle |-> Sig("Tagged Image File Format", "49492a00"), utf16 |-> Sig("UTF-16 text", "fffe6100"), utf32 |-> Sig("UTF-32 text", "fffe000061000000"), utf8 |-> Sig("UTF-8 text", "efbbbf61"),
    wavpack |-> Sig("WavPack", "7776706b"), bmp |-> Sig("Microsoft Windows Bitmap", "424d"), ico |-> Sig("Microsoft Windows Icon", "00000100"), bzip2 |-> Sig("bzip2 compressed file", "425a6839"), gzip |-> Sig("gzip compressed file", "1f8b0800"), lzip |-> Sig("lzip compressed file", "4c5a495001"),
    sevenz |-> Sig("7z archive", "377abcaf271c"), xz |-> Sig("xz compressed file", "fd377a585a00"), zip |-> Sig("ZIP archive", "504b0304"), zipempty |-> Sig("ZIP archive", "504b0506"), zipspan |-> Sig("ZIP archive", "504b0708"), ape |-> Sig("Monkey's Audio", "4d414320"), midi |-> Sig("MIDI", "4d546864"),
    aiff |-> Sig("Audio Interchange File Format", "464f524d00112233"), zstd |-> Sig("Zstandard compressed file", "28b52ffd") ]
(* --------------------------------------------------------------------- *)
WantTracks(f, d) ==
    CASE f = "sig" -> <<>> [] f = "mp3" -> <<MpegTrack(d)>> [] f = "aac" -> <<AdtsTrack(d)>> [] f = "wav" -> <<WavTrack(d)>> [] f = "wavmp3" -> <<WavMpegTrack(d)>> [] f = "ivf" -> <<IvfTrack(d)>> [] f = "flac" -> <<FlacTrack(d)>>
      [] f = "ogg" -> <<OggTrack(d, 5)>> \o (IF d.second THEN <<It([ format |-> "Vorbis", samples |-> L(30 * 1024), id |-> <<9>> ], None, [ duration |-> Secs(L(30 * 1024), L(44100)) ])>> ELSE <<>>)
      [] f = "mp4" -> Mp4Tracks(d) [] f = "mkv" -> <<MkvVideo(d), MkvAudio(d)>>
WantContainer(f, d) == CASE f = "mp4" -> Mp4Container(d) [] f = "mkv" -> MkvContainer(d) [] OTHER -> It(None, None, None)
WantChapters(f, d) == IF f = "mkv" THEN [ i \in DOMAIN ChapterSets[d.chapters] |-> EditionOf(ChapterSets[d.chapters][i]) ] ELSE <<>>
WantAttachments(f, d) == IF f = "mkv" THEN AttachmentSets[d.attachments] ELSE <<>>
FormatName(f, d) == CASE f = "mp3" -> "MPEG-1 Layer 1/2/3 frames" [] f = "aac" -> "Audio Data Transport Stream" [] f \in {"wav", "wavmp3"} -> "RIFF/WAVE" [] f = "ivf" -> "IVF" [] f = "flac" -> "raw Free Lossless Audio Codec frames"
                     [] f = "ogg" -> "Ogg transport bitstream" [] f = "mp4" -> "MPEG-4 Part 14" [] f = "mkv" -> (IF d.doctype = "webm" THEN "WebM" ELSE "Matroska") [] f = "sig" -> Signatures[d.sig].name
MimeType(f, d) == CASE f = "mp3" -> {"audio/mpeg"} [] f = "flac" -> {"audio/flac"} [] f = "ogg" -> {IF d.codec = "theora" THEN "video/ogg" ELSE "audio/ogg"} [] f = "mp4" -> {IF IsVideo(d.kind) THEN "video/mp4" ELSE "audio/mp4", IF d.kind = "text" THEN "video/mp4" ELSE "audio/mp4"}
                    [] f = "mkv" -> (IF d.doctype = "webm" THEN {"", "video/webm"} ELSE {"video/x-matroska"}) [] f = "aac" -> {"", "audio/aac"} [] f \in {"wav", "wavmp3"} -> {"", "audio/wav", "audio/x-wav"} [] f = "ivf" -> {"", "video/x-ivf"}
MaxDuration(f, d) == LET t == WantTracks(f, d) IN IF t = <<>> THEN Zero ELSE IF Len(t) = 2 /\ "duration" \in DOMAIN t[1].near /\ "duration" \in DOMAIN t[2].near THEN Longer(t[1].near.duration, t[2].near.duration) ELSE IF "duration" \in DOMAIN t[1].near THEN t[1].near.duration ELSE IF Len(t) = 2 THEN t[2].near.duration ELSE Zero
WantFile(f, d) ==
    It([ format |-> FormatName(f, d) ] @@ CASE f \in {"mp3", "sig"} -> [ padding |-> d.pad + (IF d.v2 # 0 THEN d.lead ELSE 0) ] [] f \in {"flac", "mp4"} -> [ padding |-> d.pad ] [] f = "mkv" /\ d.full = 1 -> [ padding |-> d.pad ] [] OTHER -> None, (IF f = "sig" THEN None ELSE [ mime |-> MimeType(f, d) ]),
       [ duration |-> IF f \in {"mp4", "mkv"} THEN WantContainer(f, d).near.duration ELSE MaxDuration(f, d) ])
=============================================================================
