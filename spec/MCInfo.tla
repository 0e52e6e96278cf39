------------------------------- MODULE MCInfo -------------------------------
(***************************************************************************)
(* Enumerates descriptions of files: everything which differs from a basic  *)
(* description in up to Depth facts or choices.  Every description is       *)
(* exported as a plan.  Checked here: every description has wanted          *)
(* information (Total), and the choices do not influence it (ChoiceFree).   *)
(***************************************************************************)
EXTENDS Info, Json
CONSTANTS Fmt, Depth
VARIABLES d, chg
vars == <<d, chg>>
(* facts; the basic description consists of the first ones *)
Big33 == <<7301, 9496, 42>>                             (* 2^32 + 5 *)
Big32 == <<7295, 9496, 42>>                             (* 2^32 - 1 *)
Big64 == <<1615, 955, 737, 6744, 1844>>                (* 2^64 - 1 *)
RECURSIVE Set2Seq(_)
Set2Seq(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o Set2Seq(S \ {x})
Facts ==
    CASE Fmt = "mp3" -> [ ver |-> <<3, 2, 0>>, layer |-> <<3, 2, 1>>, br |-> <<9, 1, 14, 4>>, sr |-> <<0, 1, 2>>, mode |-> <<0, 1, 2, 3>>, vbr |-> <<"none", "Xing", "Info">>, xf |-> << <<20>>, <<0>>, <<0, 500>>, Big32 >>, n |-> <<20, 60>>, pad |-> <<0, 30, 4000>>, lead |-> <<0, 1, 7>>, v2 |-> <<0, 2, 3, 4>> ]
      [] Fmt = "sig" -> [ sig |-> Set2Seq(DOMAIN Signatures), lead |-> <<0, 4, 60>>, v2 |-> <<0, 3, 4>>, pad |-> <<0, 30>> ]
      [] Fmt = "aac" -> [ profile |-> <<1, 0, 2, 3>>, freq |-> <<4, 0, 3, 11, 12>>, ch |-> <<2, 1, 3, 5, 6, 7>>, size |-> <<120, 20, 241, 249, 250, 300, 700, 8000>> ]
      [] Fmt = "wav" -> [ tag |-> <<"pcm", "float", "extpcm", "extfloat">>, ch |-> <<2, 1, 6, 8>>, rate |-> <<44100, 8000, 96000, 192000>>, bits |-> <<16, 8, 24, 32>>, n |-> <<500, 1, 7777, 44100, 0>> ]
      [] Fmt = "wavmp3" -> [ br |-> <<9, 5, 14>>, vbr |-> <<"none", "Xing", "Info">>, xf |-> << <<30>>, <<0>>, <<0, 500>> >> ]
      [] Fmt = "ivf" -> [ codec |-> <<"VP80", "VP90", "AV01">>, w |-> <<320, 1920, 65535>>, h |-> <<240, 1, 65535>>, rate |-> <<30, 25, 30000, 1000>>, scale |-> <<1, 2, 1001>>, frames |-> <<20, 0, 1, 70000>> ]
      [] Fmt = "flac" -> [ rate |-> <<44100, 8000, 192000, 655350, 1>>, ch |-> <<2, 1, 5, 8>>, bps |-> <<16, 8, 24, 32, 12, 4>>, samples |-> << <<1000, 44>>, <<0>>, <<1>>, Big32, Big33, <<6735, 1947, 687>> >>, pad |-> <<0, 4, 100, 5000>> ]
      [] Fmt = "ogg" -> [ codec |-> <<"vorbis", "opus", "flac", "theora", "speex">>, rate |-> <<44100, 8000, 48000, 96000>>, ch |-> <<2, 1, 6>>, bps |-> <<16, 24>>, total |-> <<30720, 960000, 2000000000, 5000>>, preskip |-> <<312, 0, 3840>>, second |-> <<FALSE, TRUE>>, br |-> <<128000, 0, -1>> ]
      [] Fmt = "mp4" -> [ kind |-> <<"aac", "alac", "avc", "hevc", "av01", "ac-3", "ec-3", "fLaC", "Opus", "samr", "text">>, rate |-> <<44100, 8000, 48000>>, ch |-> <<2, 1, 6>>, bps |-> <<16, 24>>, ascobj |-> <<2, 1, 3, 4>>, ascidx |-> <<4, 3, 11, 15>>, ascrate |-> <<37800, 96000>>, ascch |-> <<2, 1, 6>>,
                          profile |-> <<100, 66, 77, 88, 110, 122>>, w |-> <<320, 1920, 65535, 322, 176>>, h |-> <<240, 1080, 242>>, ts |-> << <<4100, 4>>, <<1000>>, <<1>>, Big32 >>, n |-> <<7, 0, 1, 12, 300>>, sz |-> <<5, 9, 40, 300, 70000>>, step |-> <<3, 0>>, mddur |-> << <<5000, 12>>, <<0>>, Big32, Big33, <<0, 0, 0, 5>> >>,
                          lang |-> <<"und", "eng", "deu", "zzz", "aaa">>, name |-> <<"", "N", "Sound Handler", "%C3%BCber", "A", "AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA">>, flags |-> <<7, 0, 1, 2, 14>>, ctime |-> << <<0, 0, 30>>, <<0>>, <<1>>, Big32, Big33, <<0, 0, 200>> >>, mtime |-> << <<100, 0, 30>>, <<0>>, Big33 >>, id |-> << <<1>>, <<300>>, Big32 >>,
                          mvts |-> <<1000, 600, 90000>>, mvdur |-> << <<5000>>, <<0>>, <<1>>, Big32, Big33 >>, mvctime |-> << <<0, 0, 30>>, <<1>>, Big32, Big33, <<0>> >>, mvmtime |-> << <<5, 0, 30>>, Big33, <<0>> >>, brand |-> <<"isom", "M4A ", "qt  ">>, second |-> <<FALSE, TRUE>>, pad |-> <<0, 8, 4096>> ]
      [] Fmt = "mkv" -> [ doctype |-> <<"matroska", "webm">>, docver |-> <<4, 1, 2>>, docrver |-> <<2, 1>>, title |-> <<"-", "", "Title", "T%C3%AFtle">>, scale |-> << <<0, 100>>, <<1>>, <<0, 0, 10>>, <<5729, 10>> >>, dur |-> << <<5000>>, <<0>>, <<1>>, <<7215, 1677>> >>,
                          vcodec |-> <<"V_MPEG4/ISO/AVC", "V_VP8", "V_VP9", "V_AV1", "V_MPEG2", "V_THEORA", "V_MPEGH/ISO/HEVC", "V_PRORES">>, acodec |-> <<"A_AAC", "A_AC3", "A_EAC3", "A_FLAC", "A_OPUS", "A_VORBIS", "A_MPEG/L3", "A_MPEG/L2", "A_PCM/INT/LIT", "A_PCM/INT/BIG", "A_PCM/FLOAT/IEEE", "A_ALAC", "A_DTS">>,
                          uid |-> << <<1001>>, <<1>>, Big32, Big33, Big64 >>, number |-> <<1, 100, 300>>, name |-> <<"-", "", "Video", "%C3%BCber">>, lang |-> <<"-", "ger", "und", "eng">>, bcp |-> <<"-", "de-DE">>, enabled |-> <<-1, 0, 1>>, default |-> <<-1, 0, 1>>, forced |-> <<-1, 0, 1>>, lacing |-> <<-1, 0, 1>>,
                          w |-> <<320, 1920, 70000, 322, 176>>, h |-> <<240, 1, 1080>>, dw |-> <<-1, 640, 16>>, dh |-> <<480, 9>>, interlaced |-> <<-1, 0, 1, 2>>, defdur |-> <<-1, 40000000, 33333333, 41708333, 20000000>>, arate |-> <<44100, 8000, 48000, 96000, -1>>, outrate |-> <<-1, 88200>>, ch |-> <<2, 1, 6, -1>>, bits |-> <<-1, 16, 24>>,
                          chapters |-> <<"none", "one", "flags", "tracks", "nested">>, attachments |-> <<"none", "one", "two">>, pad |-> <<0, 50, 3000>>,
                          full |-> <<0, 1>> ]            (* whether the element structure is read completely as well *)
Choices ==
    CASE Fmt = "mp3" -> [ v1 |-> <<0, 1>>, ape |-> <<0, 1>>, xb |-> <<0, 1>>, toc |-> <<0, 1>>, fpad |-> <<0, 1>> ]
      [] Fmt = "sig" -> [ v1 |-> <<0, 1>>, size |-> <<200, 0, 3000>> ]
      [] Fmt = "aac" -> [ mpeg2 |-> <<0, 1>>, crc |-> <<0, 1>>, v2 |-> <<0, 1>>, v1 |-> <<0, 1>>, frames |-> <<10, 1, 3>> ]
      [] Fmt = "wav" -> [ fmtlen |-> <<16, 18>>, junk |-> <<"none", "even", "odd", "list">>, tail |-> <<"none", "odd", "list">>, v1 |-> <<0, 1>>, riff |-> <<"exact", "zero", "max">> ]
      [] Fmt = "wavmp3" -> [ fmtlen |-> <<30, 18>>, junk |-> <<"none", "odd">> ]
      [] Fmt = "ivf" -> [ v1 |-> <<0, 1>> ]
      [] Fmt = "flac" -> [ order |-> <<"pc", "cp", "p", "c", "split">>, v2 |-> <<0, 1>>, v1 |-> <<0, 1>>, seek |-> <<0, 1>>, pic |-> <<0, 1>>, app |-> <<0, 1>>, minb |-> <<4096, 16>>, md5 |-> <<1, 0>> ]
      [] Fmt = "ogg" -> [ perpage |-> <<4, 1, 30>>, psize |-> <<700, 1, 255, 510, 5000>>, setup |-> <<3000, 100, 70000>>, cpad |-> <<0, 900>>, vendor |-> <<3, 300>>, nogranule |-> <<0, 1>>, empty |-> <<0, 1>> ]
      [] Fmt = "mp4" -> [ tkver |-> <<0, 1>>, mdver |-> <<0, 1>>, mvver |-> <<0, 1>>, stz |-> <<"stsz", "4", "8", "16">>, per |-> <<3, 1, 100>>, order |-> <<"moov", "mdat", "free">>, co64 |-> <<0, 1>>, elst |-> <<0, 1>>, extra |-> <<0, 1>>, namef |-> <<"c", "pascal", "bare">>, snd |-> <<0, 1, 2>>, large |-> <<0, 1>>, wide |-> <<1, 0>>, udta |-> <<"none", "tag", "empty">> ]
      [] Fmt = "mkv" -> [ order |-> <<"std", "rev", "rot">>, width |-> <<0, 2, 8>>, uwidth |-> <<0, 8>>, fwidth |-> <<8, 4>>, void |-> <<0, 1>>, crc |-> <<0, 1>>, seek |-> <<1, 0>>, place |-> <<"front", "back">>, nulpad |-> <<0, 1>>, corder |-> <<"std", "rev">>, split |-> <<0, 1>> ]
(* further values which are only tried on their own *)
Letters == "abcdefghijklmnopqrstuvwxyzab"
Words == [ i \in 1..26 |-> SubSeq(Letters, i, i + 2) ]
Rare == IF Fmt = "mp4" THEN [ lang |-> Words ] ELSE IF Fmt = "mkv" THEN [ lang |-> <<"jpn", "de", "enm">>, name |-> <<"%0A", "A long name which needs more than 127 bytes AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA">> ] ELSE << >>
First(r) == [ x \in DOMAIN r |-> r[x][1] ]
All == Facts @@ Choices
(* combinations which exist *)
Fits32(a) == Leq(a, Big32)
Valid(x) ==
    CASE Fmt = "mp3" -> (x.vbr = "none" => x.xf = <<20>> /\ x.xb = 0 /\ x.toc = 0) /\ (x.vbr # "none" => x.layer = 3 /\ x.br >= 4 /\ (x.toc = 1 => x.br >= 9 /\ x.ver = 3)) /\ (x.v2 = 0 => x.pad = 0) /\ (x.lead > 0 => x.v2 # 0) /\ ~(x.ver = 3 /\ x.layer = 2 /\ (x.mode = 3) # (x.br \in {1, 2, 3, 5}) /\ x.br \in {1, 2, 3, 5, 11, 12, 13, 14})
      [] Fmt = "sig" -> (x.v2 = 0 => x.pad = 0 /\ x.lead = 0) /\ (x.sig = "ico" => x.lead = 0)
      [] Fmt = "aac" -> TRUE
      [] Fmt = "wav" -> (x.tag = "float" => x.bits = 32) /\ (x.tag = "extfloat" => x.bits = 32)
      [] Fmt = "wavmp3" -> (x.vbr = "none" => x.xf = <<30>>)
      [] Fmt = "ivf" -> TRUE
      [] Fmt = "flac" -> (x.order \in {"c"} => x.pad = 0) /\ (x.order = "split" => x.pad = 5000)
      [] Fmt = "ogg" -> (x.codec = "opus" => x.total > x.preskip) /\ (x.codec # "opus" => x.preskip = 312) /\ (x.codec # "flac" => x.bps = 16) /\ (x.codec # "vorbis" => x.br = 128000)
      [] Fmt = "mp4" -> (x.mdver = 0 => Fits32(x.mddur) /\ Fits32(x.ctime) /\ Fits32(x.mtime)) /\ (x.mvver = 0 => Fits32(x.mvdur) /\ Fits32(x.mvctime) /\ Fits32(x.mvmtime))
                        /\ (x.kind # "aac" => x.ascidx = 4 /\ x.ascrate = 37800 /\ x.ascch = 2 /\ x.ascobj = 2 /\ x.wide = 1) /\ (x.ascidx # 15 => x.ascrate = 37800) /\ (x.kind # "avc" => x.profile = 100) /\ (~IsAudio(x.kind) => x.snd = 0)
                        /\ (x.stz = "4" => x.sz + 6 < 16) /\ (x.stz = "8" => x.sz + 6 < 256) /\ (x.stz = "16" => x.sz + 6 < 65536) /\ (x.sz = 70000 => x.n <= 12) /\ (x.namef = "pascal" => x.name # "") /\ (x.order # "free" => x.pad = 0) /\ (x.order = "free" => x.pad # 0)
                        /\ (x.second => ~(x.ts = Big32)) /\ (x.kind = "avc" => x.w <= 1920) /\ (Len(x.mddur) = 4 => x.ts # <<1>>)
      [] Fmt = "mkv" -> (x.vcodec = "V_MPEG4/ISO/AVC" => x.w <= 1920 /\ x.h > 1) /\ (x.dw = -1 => x.dh = 480) /\ (x.doctype = "webm" => x.chapters = "none" /\ x.attachments = "none" /\ x.docver # 1) /\ (x.uwidth = 8 => TRUE) /\ (x.number = 300 => TRUE)
(* what has to change together with a dimension, so that a single change is possible *)
Along(x, k) ==
    CASE Fmt = "mp3" /\ k \in {"xf", "xb", "toc"} /\ x.vbr = "none" -> [ x EXCEPT !.vbr = "Xing" ]
      [] Fmt \in {"mp3", "sig"} /\ k \in {"pad", "lead"} /\ x.v2 = 0 -> [ x EXCEPT !.v2 = 4 ]
      [] Fmt = "wavmp3" /\ k = "xf" /\ x.vbr = "none" -> [ x EXCEPT !.vbr = "Xing" ]
      [] Fmt = "wav" /\ k = "tag" /\ x.tag \in {"float", "extfloat"} -> [ x EXCEPT !.bits = 32 ]
      [] Fmt = "flac" /\ k = "order" /\ x.order = "c" -> [ x EXCEPT !.pad = 0 ]
      [] Fmt = "flac" /\ k = "order" /\ x.order = "split" -> [ x EXCEPT !.pad = 5000 ]
      [] Fmt = "ogg" /\ k = "preskip" -> [ x EXCEPT !.codec = "opus" ]
      [] Fmt = "ogg" /\ k = "bps" -> [ x EXCEPT !.codec = "flac" ]
      [] Fmt = "mp4" /\ k \in {"mddur", "ctime", "mtime"} /\ ~Fits32(x[k]) -> [ x EXCEPT !.mdver = 1 ]
      [] Fmt = "mp4" /\ k \in {"mvdur", "mvctime", "mvmtime"} /\ ~Fits32(x[k]) -> [ x EXCEPT !.mvver = 1 ]
      [] Fmt = "mp4" /\ k = "profile" -> [ x EXCEPT !.kind = "avc" ]
      [] Fmt = "mp4" /\ k = "ascrate" -> [ x EXCEPT !.ascidx = 15 ]
      [] Fmt = "mp4" /\ k = "pad" -> [ x EXCEPT !.order = "free" ]
      [] Fmt = "mp4" /\ k = "order" /\ x.order = "free" /\ x.pad = 0 -> [ x EXCEPT !.pad = 4096 ]
      [] Fmt = "mp4" /\ k \in {"rate"} /\ x.kind = "aac" -> [ x EXCEPT !.kind = "alac" ]
      [] Fmt = "mp4" /\ k = "w" /\ x.w > 1920 -> [ x EXCEPT !.kind = "hevc" ]
      [] Fmt = "mp4" /\ k \in {"w", "h"} /\ x.kind = "aac" -> [ x EXCEPT !.kind = "avc" ]
      [] Fmt = "mkv" /\ k \in {"w", "h"} /\ (x.w > 1920 \/ x.h = 1) -> [ x EXCEPT !.vcodec = "V_VP9" ]
      [] Fmt = "mkv" /\ k = "pad" -> [ x EXCEPT !.full = 1 ]
      [] Fmt = "mkv" /\ k = "dh" /\ x.dw = -1 -> [ x EXCEPT !.dw = 640 ]
      [] OTHER -> x
Init == d = First(All) /\ chg = 0 /\ PrintT(<<"PLAN", ToJson(d)>>)
Next == /\ chg < Depth /\ chg' = chg + 1
        /\ \E k \in DOMAIN All : \E i \in DOMAIN All[k] : d[k] # All[k][i] /\ d' = Along([ d EXCEPT ![k] = All[k][i] ], k) /\ Valid(d')
        /\ PrintT(<<"PLAN", ToJson(d')>>)
NextRare == /\ chg = 0 /\ chg' = Depth
            /\ \E k \in DOMAIN Rare : \E i \in DOMAIN Rare[k] : d' = [ d EXCEPT ![k] = Rare[k][i] ]
            /\ PrintT(<<"PLAN", ToJson(d')>>)
Spec == Init /\ [][Next \/ NextRare]_vars
View == d
(* padding, duration, ... are determined for every description *)
Total == (Fmt = "sig" \/ Len(WantTracks(Fmt, d)) >= 1) /\ "duration" \in DOMAIN WantFile(Fmt, d).near /\ DOMAIN WantContainer(Fmt, d).eq # {0} /\ \A i \in DOMAIN WantTracks(Fmt, d) : DOMAIN WantTracks(Fmt, d)[i].eq # {}
Neutral(x) == [ k \in DOMAIN All |-> IF k \in DOMAIN Choices THEN Choices[k][1] ELSE x[k] ]
ChoiceFree == WantTracks(Fmt, Neutral(d)) = WantTracks(Fmt, d) /\ WantContainer(Fmt, Neutral(d)) = WantContainer(Fmt, d) /\ WantFile(Fmt, Neutral(d)) = WantFile(Fmt, d)
ASSUME Add(<<9999, 9999>>, <<1>>) = <<0, 0, 1>> /\ Sub(<<0, 0, 1>>, <<1>>) = <<9999, 9999>> /\ Mul(<<7295, 9496, 42>>, <<7295, 9496, 42>>) = <<7025, 1961, 651, 6744, 1844>> /\ Leq(<<1>>, <<0, 1>>) /\ ~Leq(<<2>>, <<1>>)
===============================================================================
