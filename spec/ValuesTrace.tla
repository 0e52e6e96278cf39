----------------------------- MODULE ValuesTrace -----------------------------
(***************************************************************************)
(* Checks recorded conversions and comparisons of real tag values.          *)
(***************************************************************************)
EXTENDS Values, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ln, vals, bad
vars == <<ln, vals, bad>>
Ev == Trace[ln]
NoVals == [ x \in {} |-> 0 ]
Init == ln = 1 /\ vals = NoVals /\ bad = <<>>
B(c, d) == [ s |-> Ev.s, line |-> ln, c |-> c, d |-> d ]
Put(n, v) == [ x \in DOMAIN vals \cup {n} |-> IF x = n THEN v ELSE vals[x] ]
V == vals[Ev.n]
Show(v) == v.t \o " " \o ToString(v)
StrTargets == {"str", "u8", "l1", "le", "be", "w", "wb", "disp"}
EncOfTarget(to) == CASE to = "w" -> "le" [] to = "wb" -> "be" [] to = "disp" -> "u8" [] OTHER -> to
(* an incomplete character at the end of a text may be dropped *)
Complete(v) == LET K == { k \in 1..3 : k <= Len(v.b) /\ Dec(SubSeq(v.b, 1, Len(v.b) - k), v.e) # Malformed }
                   k == CHOOSE x \in K : \A y \in K : x <= y IN
               IF K = {} THEN Malformed ELSE Dec(SubSeq(v.b, 1, Len(v.b) - k), v.e)
(* the strings a value may be turned into *)
Strings(v, to) ==
    LET c == TextOf(v) IN
    IF v.t = "dt" /\ to \in {"w", "wb"} THEN Must({ Enc(x, EncOfTarget(to)) : x \in DateTexts(v) })
    ELSE IF v.t = "bytes" /\ to \in {"w", "wb"} THEN May(Texts(Complete(v), EncOfTarget(to)) \cup (IF Ev.r = "ok" THEN {Ev.out} ELSE {}))
    ELSE IF v.t = "bytes" /\ (to = "str" \/ EncOfTarget(to) = v.e) THEN Must({v.b})
    ELSE IF v.t = "bytes" THEN May(Texts(Complete(v), EncOfTarget(to)))
    ELSE IF to = "str" THEN (IF v.t = "text" THEN Must({Enc(c, v.e)}) ELSE Must(Texts(c, "u8")))
    ELSE Must(Texts(c, EncOfTarget(to)))
Exp(v, to) ==
    CASE to \in StrTargets -> Strings(v, to)
      [] to = "i" -> ToNum(v, InI32)
      [] to = "u" -> ToNum(v, InU64)
      [] to = "g" -> ToGenre(v)
      [] to = "p" -> ToPos(v)
      [] to = "ts" -> ToSpan(v)
      [] to = "dt" -> ToDate(v)
      [] to = "dtx" -> ToDateX(v)
      [] to = "pop" -> ToPop(v)
      [] to = "empty" -> Must({IF IsEmpty(v) THEN "1" ELSE "0"})
      [] to = "null" -> Must(IF v.t = "null" THEN {"1"} ELSE IF IsEmpty(v) THEN {"0", "1"} ELSE {"0"})
(* scaled ratings *)
ScaleOf(v, p) == IF v.t = "text" THEN Ev.scale ELSE p.scale
PopWrong ==
    LET e == ToPop(V) IN
    IF Ev.r # "ok" THEN ~(e.ref \/ (\E p \in e.vals : ScaleOf(V, p) # Ev.scale /\ ~({ScaleOf(V, p), Ev.scale} \subseteq Scales)))
    ELSE ~\E p \in e.vals : /\ Ev.out.user = p.user /\ Ev.out.count = p.count /\ Ev.out.scale = Ev.scale
                            /\ IF ScaleOf(V, p) = Ev.scale THEN Ev.out.rating = p.rating
                               ELSE {ScaleOf(V, p), Ev.scale} \subseteq Scales /\ ScaledOK(ScaleOf(V, p), Ev.scale, Ev.r4, Ev.out4)
GetWrong ==
    IF Ev.to = "scaled" THEN PopWrong
    ELSE IF Ev.to = "disp" /\ (V.t = "bytes" \/ Texts(TextOf(V), "u8") = {}) THEN Ev.r # "ok"       (* always some description of the value *)
    ELSE LET e == Exp(V, Ev.to) IN
         IF Ev.r = "ok" THEN Ev.out \notin e.vals ELSE ~(Ev.r = "conversion" /\ e.ref)
Conv(v, e) == IF v.t = "text" THEN [ v EXCEPT !.e = e ] ELSE v
ConvOK(v, e) == v.t # "text" \/ Encodable(v.c, e)
Step ==
    CASE Ev.op = "asg" ->
            LET v == Ev.v IN
            IF v.t = "text"
            THEN LET w == [ v EXCEPT !.c = StripBom(v.c, v.e) ]
                     can == Ev.conv = "" \/ Encodable(w.c, Ev.conv) IN
                 /\ vals' = IF can THEN Put(Ev.n, IF Ev.conv = "" THEN w ELSE [ w EXCEPT !.e = Ev.conv ]) ELSE vals
                 /\ bad' = IF can = (Ev.r = "ok") /\ Ev.r \in {"ok", "conversion"} THEN bad ELSE Append(bad, B("conv-assign", "assigning " \o Show(v) \o " as " \o Ev.conv \o ": " \o Ev.r))
            ELSE /\ vals' = Put(Ev.n, v) /\ bad' = IF Ev.r = "ok" THEN bad ELSE Append(bad, B("conv-assign", "assigning " \o Show(v) \o ": " \o Ev.r))
      [] Ev.op = "get" /\ Ev.n \in DOMAIN vals ->
            /\ UNCHANGED vals
            /\ bad' = IF ~GetWrong THEN bad
                      ELSE Append(bad, B("conv-value", Ev.to \o (IF Ev.to = "scaled" THEN ToString(Ev.scale) ELSE "") \o " of " \o Show(V) \o " gives " \o (IF Ev.r = "ok" THEN ToString(Ev.out) ELSE Ev.r)
                                                         \o (IF Ev.to = "scaled" THEN "" ELSE " permitted " \o ToString(Exp(V, Ev.to)))))
      [] Ev.op = "raw" /\ Ev.n \in DOMAIN vals ->
            /\ UNCHANGED vals
            /\ bad' = LET w == IF V.t = "text" THEN Ev.e = V.e /\ Ev.b = Enc(V.c, V.e) ELSE IF V.t = "bytes" THEN Ev.e = V.e /\ Ev.b = V.b ELSE TRUE
                          d == Ev.de = V.de /\ Ev.db = Enc(V.desc, V.de) /\ Ev.mime = V.mime IN
                      IF w /\ (d \/ V.t = "null") THEN bad ELSE Append(bad, B("conv-stored", "value " \o Show(V) \o " is stored as " \o ToString(<<Ev.e, Ev.b, Ev.de, Ev.db, Ev.mime>>)))
      [] Ev.op = "conv" /\ Ev.n \in DOMAIN vals ->
            LET same == V.t \notin {"text", "bytes"} \/ V.e = Ev.e
                can == IF V.t = "bytes" THEN same ELSE ConvOK(V, Ev.e) IN
            /\ vals' = IF can /\ V.t = "text" THEN Put(Ev.n, Conv(V, Ev.e))
                       ELSE IF V.t = "bytes" /\ ~same /\ Ev.r = "ok" THEN Put(Ev.n, [ V EXCEPT !.t = "text", !.e = Ev.e ] @@ [ c |-> Complete(V) ]) ELSE vals
            /\ bad' = IF V.t = "bytes" /\ ~same THEN (IF Ev.r = "conversion" \/ Texts(Complete(V), Ev.e) # {} THEN bad ELSE Append(bad, B("conv-encoding", "converting " \o Show(V) \o " to " \o Ev.e \o ": " \o Ev.r)))
                      ELSE IF Ev.r = (IF can THEN "ok" ELSE "conversion") THEN bad ELSE Append(bad, B("conv-encoding", "converting " \o Show(V) \o " to " \o Ev.e \o ": " \o Ev.r))
      [] Ev.op = "dconv" /\ Ev.n \in DOMAIN vals ->
            LET can == Encodable(V.desc, Ev.e) IN
            /\ vals' = IF can THEN Put(Ev.n, [ V EXCEPT !.de = Ev.e ]) ELSE vals
            /\ bad' = IF Ev.r = (IF can THEN "ok" ELSE "conversion") THEN bad ELSE Append(bad, B("conv-encoding", "converting the description of " \o Show(V) \o " to " \o Ev.e \o ": " \o Ev.r))
      [] Ev.op = "cmp" /\ {Ev.a, Ev.b} \subseteq DOMAIN vals ->
            /\ UNCHANGED vals
            /\ bad' = LET E == Equal(vals[Ev.a], vals[Ev.b], Ev.ci, Ev.nometa) IN
                      IF Ev.r = "ok" /\ Ev.eq \in E THEN bad
                      ELSE Append(bad, B("conv-equality", Show(vals[Ev.a]) \o " and " \o Show(vals[Ev.b]) \o " compare " \o (IF Ev.r = "ok" THEN ToString(Ev.eq) ELSE Ev.r) \o " ci " \o ToString(Ev.ci) \o " nometa " \o ToString(Ev.nometa)))
      [] Ev.op = "scale" ->
            /\ UNCHANGED vals
            /\ bad' = LET known == Ev.from = Ev.target \/ {Ev.from, Ev.target} \subseteq Scales IN
                      IF IF Ev.ok THEN known /\ Ev.scale = Ev.target /\ (Ev.from = Ev.target \/ ScaledOK(Ev.from, Ev.target, Ev.r4, Ev.out4)) /\ (Ev.from = Ev.target => Ev.r4 = Ev.out4)
                         ELSE ~known /\ Ev.scale = Ev.from /\ Ev.out4 = Ev.r4
                      THEN bad ELSE Append(bad, B("conv-scale", "scaling " \o ToString(Ev.r4) \o " from " \o ToString(Ev.from) \o " to " \o ToString(Ev.target) \o ": " \o ToString(<<Ev.ok, Ev.out4, Ev.scale>>)))
      [] Ev.op = "genre" ->
            /\ UNCHANGED vals
            /\ bad' = LET valid == Ev.i \in 0..GenreCount - 1 IN
                      IF Ev.valid = valid /\ (IF valid THEN Ev.name = GenreCps[Ev.i + 1] /\ Ev.idx = Ev.i ELSE Ev.name = <<>>) THEN bad
                      ELSE Append(bad, B("conv-genre", ToString(Ev.i) \o " " \o ToString(<<Ev.valid, Ev.name, Ev.idx>>)))
      [] Ev.op = "exit" -> vals' = NoVals /\ bad' = IF Ev.end = "clean" THEN bad ELSE Append(bad, B("exit", Ev.end \o " " \o ToString(Ev.code)))
      [] Ev.op = "begin" -> vals' = NoVals /\ UNCHANGED bad
      [] OTHER -> UNCHANGED <<vals, bad>>
Write == ln = Len(Trace) + 1 /\ JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), bad |-> bad])
Next == \/ ln <= Len(Trace) /\ Step /\ ln' = ln + 1
        \/ Write /\ ln' = ln + 1 /\ UNCHANGED <<vals, bad>>
Spec == Init /\ [][Next]_vars
===============================================================================
