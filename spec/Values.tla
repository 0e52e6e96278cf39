------------------------------- MODULE Values -------------------------------
(***************************************************************************)
(* What values of the different types denote and what converting them to    *)
(* another representation may yield.                                        *)
(*   Text is a sequence of code points; an encoding maps it to bytes.       *)
(*   Numbers are sign + decimal digits (TLC's integers have 32 bits only).  *)
(*   Durations: sign, seconds, ticks (1e-7 s); dates: days since 0001-01-01,*)
(*   seconds of the day, ticks; ratings are decimal numerals.               *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
F == INSTANCE Formats
Genres == F!Genres

Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code(ch) == 31 + CHOOSE i \in 1..Len(Ascii) : SubSeq(Ascii, i, i) = ch
Cps(s) == [ i \in 1..Len(s) |-> Code(SubSeq(s, i, i)) ]

(* ------------------------------- encodings ------------------------------ *)
Surrogate(c) == c \in 55296..57343
ValidCp(c) == c \in 0..1114111 /\ ~Surrogate(c)
U8(c) == IF c < 128 THEN <<c>>
         ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
         ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
         ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
Units(c) == IF c < 65536 THEN <<c>> ELSE <<55296 + (c - 65536) \div 1024, 56320 + ((c - 65536) % 1024)>>
LE2(u) == <<u % 256, u \div 256>>
BE2(u) == <<u \div 256, (u % 256)>>
Map(cs, G(_)) == FlattenSeq([ i \in DOMAIN cs |-> G(cs[i]) ])
Units16(cs) == Map(cs, Units)
LEc(c) == LET u == Units(c) IN IF Len(u) = 1 THEN LE2(u[1]) ELSE LE2(u[1]) \o LE2(u[2])
BEc(c) == LET u == Units(c) IN IF Len(u) = 1 THEN BE2(u[1]) ELSE BE2(u[1]) \o BE2(u[2])
Encodable(cs, e) == \A i \in DOMAIN cs : IF e = "l1" THEN cs[i] < 256 ELSE ValidCp(cs[i])
Enc(cs, e) == CASE e = "l1" -> cs [] e = "u8" -> Map(cs, U8) [] e = "le" -> Map(cs, LEc) [] e = "be" -> Map(cs, BEc)
Malformed == <<-1>>
Cont(b, i, n) == i + n <= Len(b) /\ \A k \in 1..n : b[i + k] \in 128..191
RECURSIVE DecU8(_, _)
DecU8(b, i) ==
    IF i > Len(b) THEN <<>>
    ELSE LET n == IF b[i] < 128 THEN 0 ELSE IF b[i] \in 194..223 THEN 1 ELSE IF b[i] \in 224..239 THEN 2 ELSE IF b[i] \in 240..244 THEN 3 ELSE 9 IN
         IF n = 9 \/ ~Cont(b, i, n) THEN Malformed
         ELSE LET c == CASE n = 0 -> b[i]
                         [] n = 1 -> (b[i] - 192) * 64 + (b[i+1] - 128)
                         [] n = 2 -> (b[i] - 224) * 4096 + (b[i+1] - 128) * 64 + (b[i+2] - 128)
                         [] n = 3 -> (b[i] - 240) * 262144 + (b[i+1] - 128) * 4096 + (b[i+2] - 128) * 64 + (b[i+3] - 128)
                  r == DecU8(b, i + n + 1) IN
              IF r = Malformed \/ ~ValidCp(c) \/ (n = 2 /\ c < 2048) \/ (n = 3 /\ c < 65536) THEN Malformed ELSE <<c>> \o r
Unit(b, i, e) == IF e = "le" THEN b[i] + 256 * b[i+1] ELSE 256 * b[i] + b[i+1]
RECURSIVE Dec16(_, _, _)
Dec16(b, i, e) ==
    IF i > Len(b) THEN <<>>
    ELSE IF i = Len(b) THEN Malformed
    ELSE LET u == Unit(b, i, e) IN
         IF u \in 55296..56319
         THEN IF i + 3 > Len(b) \/ Unit(b, i + 2, e) \notin 56320..57343 THEN Malformed
              ELSE LET r == Dec16(b, i + 4, e) IN IF r = Malformed THEN Malformed ELSE <<65536 + (u - 55296) * 1024 + (Unit(b, i + 2, e) - 56320)>> \o r
         ELSE IF Surrogate(u) THEN Malformed
         ELSE LET r == Dec16(b, i + 2, e) IN IF r = Malformed THEN Malformed ELSE <<u>> \o r
Dec(b, e) == CASE e = "l1" -> b [] e = "u8" -> DecU8(b, 1) [] OTHER -> Dec16(b, 1, e)
(* a byte order mark at the beginning of an assigned text is not part of the text *)
StripBom(cs, e) == IF e # "l1" /\ cs # <<>> /\ cs[1] = 65279 THEN Tail(cs) ELSE cs
Fold(cs) == [ i \in DOMAIN cs |-> IF cs[i] \in 65..90 THEN cs[i] + 32 ELSE cs[i] ]

(* -------------------------------- numbers ------------------------------- *)
N(neg, d) == [ s |-> neg, d |-> d ]
Zero == N(FALSE, <<0>>)
DigitsLe(a, b) == \/ Len(a) < Len(b)
                  \/ Len(a) = Len(b) /\ (a = b \/ \E i \in DOMAIN a : a[i] < b[i] /\ \A k \in 1..i - 1 : a[k] = b[k])
Max32 == <<2,1,4,7,4,8,3,6,4,7>>
Max32n == <<2,1,4,7,4,8,3,6,4,8>>
Max63 == <<9,2,2,3,3,7,2,0,3,6,8,5,4,7,7,5,8,0,7>>
Max64 == <<1,8,4,4,6,7,4,4,0,7,3,7,0,9,5,5,1,6,1,5>>
InI32(n) == IF n.s THEN DigitsLe(n.d, Max32n) ELSE DigitsLe(n.d, Max32)
InU64(n) == ~n.s /\ DigitsLe(n.d, Max64)
NumText(n) == (IF n.s THEN <<45>> ELSE <<>>) \o [ i \in DOMAIN n.d |-> 48 + n.d[i] ]
RECURSIVE DigitsOf(_)
DigitsOf(k) == IF k < 10 THEN <<k>> ELSE Append(DigitsOf(k \div 10), k % 10)
OfInt(k) == IF k < 0 THEN N(TRUE, DigitsOf(-k)) ELSE N(FALSE, DigitsOf(k))
RECURSIVE IntOf(_)
IntOf(d) == IF d = <<>> THEN 0 ELSE 10 * IntOf(Front(d)) + Last(d)
SmallInt(n) == IF n.s THEN -IntOf(n.d) ELSE IntOf(n.d)       (* only for numbers of few digits *)
IsDigits(cs) == cs # <<>> /\ \A i \in DOMAIN cs : cs[i] \in 48..57
RECURSIVE StripZeros(_)
StripZeros(d) == IF Len(d) > 1 /\ d[1] = 0 THEN StripZeros(Tail(d)) ELSE d
RECURSIVE TrimL(_)
TrimL(cs) == IF cs # <<>> /\ cs[1] = 32 THEN TrimL(Tail(cs)) ELSE cs
RECURSIVE TrimR(_)
TrimR(cs) == IF cs # <<>> /\ Last(cs) = 32 THEN TrimR(Front(cs)) ELSE cs
NaN == [ s |-> FALSE, d |-> <<>> ]
(* the number a text denotes; blanks, a plus sign and leading zeros do not matter, a text of blanks or *)
(* just a minus counts as zero (that is what the conversion functions of the used library do)                                                    *)
Literal(t) == LET cs == SelectSeq(t, LAMBDA c : c # 32)
                  body == IF cs # <<>> /\ cs[1] \in {43, 45} THEN Tail(cs) ELSE cs IN
              IF body = <<>> /\ t # <<>> /\ cs # <<43>> THEN Zero
              ELSE IF ~IsDigits(body) THEN NaN
              ELSE LET d == StripZeros([ i \in DOMAIN body |-> body[i] - 48 ]) IN N(cs[1] = 45 /\ d # <<0>>, d)
Canonical(t) == IsDigits(SelectSeq(t, LAMBDA c : c # 45)) /\ Literal(t) # NaN /\ NumText(Literal(t)) = t
Pad(k, w) == LET d == DigitsOf(k) IN [ i \in 1..(IF Len(d) < w THEN w - Len(d) ELSE 0) |-> 48 ] \o [ i \in DOMAIN d |-> 48 + d[i] ]
RECURSIVE TrimZeros(_)
TrimZeros(cs) == IF cs # <<>> /\ Last(cs) = 48 THEN TrimZeros(Front(cs)) ELSE cs
Frac(sub) == IF sub = 0 THEN <<>> ELSE <<46>> \o (IF sub % 10000 = 0 THEN Pad(sub \div 10000, 3) ELSE IF sub % 10 = 0 THEN Pad(sub \div 10, 6) ELSE Pad(sub, 7))
(* decimal numerals: digits, optionally with a fraction *)
Dot(cs) == { i \in DOMAIN cs : cs[i] = 46 }
IsDecimal(t) == LET cs == IF t # <<>> /\ t[1] = 45 THEN Tail(t) ELSE t IN
                 \/ IsDigits(cs)
                 \/ Cardinality(Dot(cs)) = 1 /\ LET i == CHOOSE x \in Dot(cs) : TRUE IN IsDigits(SubSeq(cs, 1, i - 1)) /\ IsDigits(SubSeq(cs, i + 1, Len(cs)))
RECURSIVE StripChars(_)
StripChars(cs) == IF Len(cs) > 1 /\ cs[1] = 48 THEN StripChars(Tail(cs)) ELSE cs
PosDecimal(cs) == IF Dot(cs) = {} THEN StripChars(cs)
                  ELSE LET i == CHOOSE x \in Dot(cs) : TRUE
                           f == TrimZeros(SubSeq(cs, i + 1, Len(cs))) IN
                       StripChars(SubSeq(cs, 1, i - 1)) \o (IF f = <<>> THEN <<>> ELSE <<46>> \o f)
Decimal(t) == IF t[1] = 45 THEN <<45>> \o PosDecimal(Tail(t)) ELSE PosDecimal(t)

(* -------------------------------- dates --------------------------------- *)
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysBefore(y) == 365 * (y - 1) + (y - 1) \div 4 - (y - 1) \div 100 + (y - 1) \div 400
MonthDays(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m = 2 -> (IF Leap(y) THEN 29 ELSE 28) [] OTHER -> 30
RECURSIVE DaysInto(_, _)
DaysInto(y, m) == IF m = 1 THEN 0 ELSE DaysInto(y, m - 1) + MonthDays(y, m - 1)
DayNumber(y, m, d) == DaysBefore(y) + DaysInto(y, m) + d - 1
Year(n) == CHOOSE y \in (n \div 366 + 1)..(n \div 365 + 1) : DaysBefore(y) <= n /\ n < DaysBefore(y + 1)
Month(n) == LET y == Year(n) r == n - DaysBefore(y) IN CHOOSE m \in 1..12 : DaysInto(y, m) <= r /\ r < DaysInto(y, m) + MonthDays(y, m)
Day(n) == LET y == Year(n) IN n - DaysBefore(y) - DaysInto(y, Month(n)) + 1
Clock(s) == Pad(s \div 3600, 2) \o <<58>> \o Pad((s \div 60) % 60, 2) \o <<58>> \o Pad(s % 60, 2)
DateText(v) == Pad(Year(v.days), 4) \o <<45>> \o Pad(Month(v.days), 2) \o <<45>> \o Pad(Day(v.days), 2) \o <<84>> \o Clock(v.secs) \o Frac(v.sub)
SpanText(v) == (IF v.neg THEN <<45>> ELSE <<>>) \o Clock(v.secs) \o Frac(v.sub)
(* components which have their default value may be omitted at the end; the c++utilities format used for UTF-16 strings reduces *)
(* the first day of a year to the year (whatever the time) *)
DateTexts(v) == LET t == DateText(v)
                    D == <<48, 48, 48, 49, 45, 48, 49, 45, 48, 49, 84, 48, 48, 58, 48, 48, 58, 48, 48>> IN
                {t} \cup { SubSeq(t, 1, n) : n \in { k \in {4, 7, 10, 13, 16} : SubSeq(t, k + 1, Len(t)) = SubSeq(D, k + 1, 19) \/ (k = 4 /\ SubSeq(t, 5, 10) = SubSeq(D, 5, 10)) } }
(* ticks of a duration or date as a decimal number *)
SpanTicks(v) == N(v.neg /\ ~(v.secs = 0 /\ v.sub = 0), StripZeros(DigitsOf(v.secs) \o [ i \in 1..7 |-> Pad(v.sub, 7)[i] - 48 ]))

(* -------------------------------- genres -------------------------------- *)
GenreCps == [ i \in 1..Len(Genres) |-> Cps(Genres[i]) ]
GenreCount == Len(Genres)
NameIx(cs) == { i \in 1..GenreCount : GenreCps[i] = cs }
(* positions: "a", "a/b" or "/b" *)
Slash(cs) == { i \in DOMAIN cs : cs[i] = 47 }

(* ------------------------------ denotations ----------------------------- *)
NoText == <<-2>>
PopText(v) == IF v.user = <<>> /\ v.rating = <<48>> /\ v.count = Zero THEN <<>>
              ELSE IF v.user = <<>> /\ v.count = Zero THEN v.rating ELSE v.user \o <<124>> \o v.rating \o <<124>> \o NumText(v.count)
(* the text a value is written as, NoText if there is none *)
TextOf(v) ==
    CASE v.t = "text" -> v.c
      [] v.t = "bytes" -> Dec(v.b, v.e)
      [] v.t \in {"int", "uint"} -> NumText(v.n)
      [] v.t = "pos" -> (IF v.p = Zero THEN <<>> ELSE NumText(v.p)) \o (IF v.q = Zero THEN <<>> ELSE <<47>> \o NumText(v.q))
      [] v.t = "genre" -> IF v.n = OfInt(255) THEN <<>> ELSE IF ~v.n.s /\ Len(v.n.d) < 4 /\ SmallInt(v.n) < GenreCount THEN GenreCps[SmallInt(v.n) + 1] ELSE NoText
      [] v.t = "ts" -> SpanText(v)
      [] v.t = "dt" -> DateText(v)
      [] v.t = "dtx" -> v.c
      [] v.t = "pop" -> PopText(v)
      [] v.t = "null" -> <<>>
      [] OTHER -> NoText
IsEmpty(v) == v.t = "null" \/ (v.t = "text" /\ v.c = <<>>) \/ (v.t = "pos" /\ v.p = Zero /\ v.q = Zero)
Texts(cs, e) == IF cs \in {NoText, Malformed} \/ ~Encodable(cs, e) THEN {} ELSE {Enc(cs, e)}

(* what converting v may yield: the permitted results and whether refusing is permitted *)
Must(S) == [ vals |-> S, ref |-> S = {} ]
May(S) == [ vals |-> S, ref |-> TRUE ]
Refuse == May({})
ToNum(v, In(_)) ==
    IF IsEmpty(v) THEN Must({Zero})
    ELSE CASE v.t = "text" -> IF Literal(v.c) = NaN \/ ~In(Literal(v.c)) THEN Refuse ELSE IF Canonical(v.c) THEN Must({Literal(v.c)}) ELSE May({Literal(v.c)})
           [] v.t \in {"int", "uint", "genre"} -> IF In(v.n) THEN Must({v.n}) ELSE Refuse
           [] v.t = "pos" -> IF ~In(v.p) THEN Refuse ELSE IF v.q = Zero THEN Must({v.p}) ELSE May({v.p})
           [] v.t = "pop" -> LET i == IF Dot(v.rating) = {} THEN v.rating ELSE SubSeq(v.rating, 1, (CHOOSE x \in Dot(v.rating) : TRUE) - 1)
                                 n == Literal(i) IN
                             IF ~In(n) THEN Refuse ELSE May({n})
           [] OTHER -> Refuse
ToGenre(v) ==
    LET ofNum(n, S(_)) == IF ~n.s /\ Len(n.d) < 4 /\ (SmallInt(n) < GenreCount \/ SmallInt(n) = 255) THEN S({n}) ELSE Refuse IN
    IF IsEmpty(v) THEN Must({OfInt(255)})
    ELSE CASE v.t = "text" -> IF Literal(v.c) # NaN THEN ofNum(Literal(v.c), LAMBDA x : IF Canonical(v.c) THEN Must(x) ELSE May(x))
                              ELSE IF NameIx(v.c) # {} THEN Must({OfInt((CHOOSE i \in NameIx(v.c) : TRUE) - 1)}) ELSE Refuse
           [] v.t \in {"int", "uint", "genre"} -> ofNum(v.n, Must)
           [] OTHER -> Refuse
ToPos(v) ==
    IF IsEmpty(v) THEN Must({<<Zero, Zero>>})
    ELSE CASE v.t = "text" ->
              LET sl == Slash(v.c) IN
              IF sl = {} THEN IF Literal(v.c) = NaN \/ ~InI32(Literal(v.c)) THEN Refuse ELSE IF Canonical(v.c) THEN Must({<<Literal(v.c), Zero>>}) ELSE May({<<Literal(v.c), Zero>>})
              ELSE LET i == CHOOSE x \in sl : \A y \in sl : x <= y
                       a == SubSeq(v.c, 1, i - 1)
                       b == SubSeq(v.c, i + 1, Len(v.c))
                       x == IF a = <<>> THEN Zero ELSE Literal(a)
                       y == IF b = <<>> THEN Zero ELSE Literal(b) IN
                   IF x = NaN \/ y = NaN \/ ~InI32(x) \/ ~InI32(y) THEN Refuse
                   ELSE IF (a = <<>> \/ Canonical(a)) /\ Canonical(b) THEN Must({<<x, y>>}) ELSE May({<<x, y>>})
           [] v.t \in {"int", "uint"} -> IF InI32(v.n) THEN Must({<<v.n, Zero>>}) ELSE Refuse
           [] v.t = "pos" -> Must({<<v.p, v.q>>})
           [] OTHER -> Refuse
(* texts of durations and dates carry the value they were made from (w); the text has to be the one that value is written as *)
ToSpan(v) ==
    IF IsEmpty(v) THEN Must({Zero})
    ELSE CASE v.t = "text" -> IF TextOf(v.w) = v.c THEN Must({SpanTicks(v.w)}) ELSE Refuse
           [] v.t = "ts" -> Must({SpanTicks(v)})
           [] v.t = "int" -> Must({v.n})
           [] v.t = "uint" -> IF DigitsLe(v.n.d, Max63) THEN (IF v.n.d = Max63 THEN May({v.n}) ELSE Must({v.n})) ELSE Refuse
           [] OTHER -> Refuse
DateOut(v) == [ days |-> v.days, secs |-> v.secs, sub |-> v.sub ]
Gmt(v) == LET m == v.h * 60 + v.mi - v.delta
              n == DayNumber(v.y, v.m, v.d) IN
          [ days |-> n + (IF m < 0 THEN -1 ELSE IF m >= 1440 THEN 1 ELSE 0), secs |-> ((m + 1440) % 1440) * 60 + v.s, sub |-> v.sub ]
NumDate(n) == [ ticks |-> n ]
ToDate(v) ==
    IF IsEmpty(v) THEN Must({[ days |-> 0, secs |-> 0, sub |-> 0 ]})
    ELSE CASE v.t = "text" -> IF TextOf(v.w) # v.c THEN Refuse ELSE IF v.w.t = "dt" THEN Must({DateOut(v.w)}) ELSE Must({Gmt(v.w)})
           [] v.t = "dt" -> Must({DateOut(v)})
           [] v.t = "dtx" -> Must({Gmt(v)})
           [] v.t \in {"int", "uint"} -> IF v.n.s THEN Refuse ELSE Must({NumDate(v.n)})
           [] OTHER -> Refuse
(* date expressions: the text they are written as *)
ToDateX(v) ==
    CASE v.t = "text" /\ v.c # <<>> -> IF TextOf(v.w) # v.c THEN Refuse ELSE Must({v.c})
      [] v.t = "dtx" -> Must({TextOf(v)})
      [] v.t = "dt" -> [ vals |-> {TextOf(v)} \cup (IF v.sub = 0 THEN {TextOf(v) \o <<46, 48, 48, 48>>} ELSE {}), ref |-> FALSE ]
      [] OTHER -> Refuse
Parts(cs) == LET S == { i \in DOMAIN cs : cs[i] = 124 }
                 B == SetToSortSeq(S \cup {0, Len(cs) + 1}, <) IN
             [ i \in 1..Len(B) - 1 |-> SubSeq(cs, B[i] + 1, B[i + 1] - 1) ]
Pop(u, r, c, sc) == [ user |-> u, rating |-> r, count |-> c, scale |-> sc ]
NoRating == <<48>>
ToPop(v) ==
    IF IsEmpty(v) THEN Must({Pop(<<>>, NoRating, Zero, 0)})
    ELSE CASE v.t = "text" ->
              LET p == Parts(v.c)
                  rate(x) == IF IsDecimal(x) THEN Decimal(x) ELSE <<>> IN
              IF Len(p) > 3 THEN Refuse
              ELSE IF Len(p) = 1 THEN IF IsDecimal(p[1]) THEN Must({Pop(<<>>, Decimal(p[1]), Zero, 0)}) ELSE May({Pop(p[1], NoRating, Zero, 0)})
              ELSE IF rate(p[2]) = <<>> \/ (Len(p) = 3 /\ (Literal(p[3]) = NaN \/ ~InU64(Literal(p[3])))) THEN Refuse
              ELSE LET r == Pop(p[1], rate(p[2]), IF Len(p) = 3 THEN Literal(p[3]) ELSE Zero, 0) IN
                   IF Len(p) = 2 \/ Canonical(p[3]) THEN Must({r}) ELSE May({r})
           [] v.t = "pop" -> Must({Pop(v.user, v.rating, v.count, v.scale)})
           [] v.t \in {"int", "uint"} -> Must({Pop(<<>>, NumText(v.n), Zero, 0)})
           [] OTHER -> Refuse

(* ----------------------------- rating scales ---------------------------- *)
(* scale -> lowest and highest rating, in 1/10000; 0 is the generic scale 1..5; ratings are mapped linearly between the end points *)
Low == [ s \in {0, 2, 8, 16, 32} |-> CASE s = 0 -> 10000 [] s = 2 -> 10000 [] s = 8 -> 0 [] OTHER -> 200000 ]
High == [ s \in {0, 2, 8, 16, 32} |-> CASE s = 0 -> 50000 [] s = 2 -> 2550000 [] s = 8 -> 50000 [] OTHER -> 1000000 ]
Scales == DOMAIN Low
Factor(s) == CASE s = 0 -> <<1, 1>> [] s = 2 -> <<127, 2>> [] s = 8 -> <<5, 4>> [] OTHER -> <<20, 1>>      (* (High - Low) / 40000 *)
Generic(s, r) == IF s = 2 /\ r < 10000 THEN 0 ELSE 10000 + ((r - Low[s]) * Factor(s)[2]) \div Factor(s)[1]
FromGeneric(s, g) == IF s = 2 /\ g < 10000 THEN {0}
                     ELSE {Low[s] + ((g - 10000) * Factor(s)[1]) \div Factor(s)[2]} \cup (IF g = 0 THEN {0} ELSE {})
(* permitted results of scaling r from one scale to another, with the tolerance of the integer arithmetic used here *)
ScaledOK(from, to, r, out) == \/ from = to /\ out = r
                              \/ from # to /\ \E x \in FromGeneric(to, Generic(from, r)) : out - x \in -140..140
(* ------------------------------- equality ------------------------------- *)
Opaque == {"ts", "dt", "dtx", "pic", "bin", "undef", "null"}
NumOf(v) == CASE v.t = "text" -> Literal(v.c) [] v.t \in {"int", "uint", "genre"} -> v.n [] OTHER -> NaN
SameKind(a, b) == a.t = b.t \/ ({a.t, b.t} \subseteq {"text", "bytes"})
(* a text and a rating of a scale: the text does not tell the scale, so the rating may be considered to differ *)
PopEq(a, b) == IF {a.t, b.t} \cap {"pos", "genre"} # {} THEN BOOLEAN ELSE LET sc(v) == IF v.t = "pop" THEN v.scale ELSE 0 IN IF sc(a) = sc(b) THEN {TRUE} ELSE BOOLEAN
PopDiff(a, b, ci) ==
    LET p == ToPop(a) q == ToPop(b) IN
    IF p.vals = {} \/ q.vals = {} THEN {FALSE}
    ELSE LET f == CHOOSE v \in p.vals : TRUE g == CHOOSE v \in q.vals : TRUE IN
         IF (IF ci THEN Fold(f.user) = Fold(g.user) ELSE f.user = g.user) /\ f.rating = g.rating /\ f.count = g.count
         THEN (IF f.scale = g.scale /\ "text" \in {a.t, b.t} THEN {TRUE} ELSE BOOLEAN) ELSE {FALSE}
(* permitted answers of comparing the data of two values *)
DataEq(a, b, ci) ==
    LET x == TextOf(a) y == TextOf(b) IN
    IF SameKind(a, b)
    THEN CASE a.t \in {"text", "bytes"} -> IF Malformed \in {x, y} THEN BOOLEAN ELSE {IF ci THEN Fold(x) = Fold(y) ELSE x = y}
           [] a.t \in {"int", "uint", "genre"} -> IF a.t = "genre" /\ NoText \in {x, y} THEN BOOLEAN ELSE {a.n = b.n}
           [] a.t = "pos" -> {a.p = b.p /\ a.q = b.q}
           [] a.t \in {"ts", "dt"} -> {a = b}
           [] a.t = "dtx" -> {a.c = b.c}
           [] a.t = "pop" -> {(IF ci THEN Fold(a.user) = Fold(b.user) ELSE a.user = b.user) /\ a.rating = b.rating /\ a.count = b.count /\ a.scale = b.scale}
           [] a.t = "null" -> {TRUE}
           [] OTHER -> {a.b = b.b}
    ELSE IF a.t \in Opaque \/ b.t \in Opaque THEN {FALSE}
    ELSE IF NoText \in {x, y} \/ Malformed \in {x, y} THEN BOOLEAN
    ELSE IF (IF ci THEN Fold(x) = Fold(y) ELSE x = y) THEN (IF "pop" \in {a.t, b.t} THEN PopEq(a, b) ELSE {TRUE})
    ELSE IF "pop" \in {a.t, b.t} THEN PopDiff(a, b, ci)
    ELSE IF NumOf(a) # NaN /\ NumOf(a) = NumOf(b) THEN BOOLEAN                    (* "007" and 7, genre 3 and 3 *)
    ELSE IF "pos" \in {a.t, b.t} /\ (LET p == ToPos(a) q == ToPos(b) IN p.vals # {} /\ p.vals = q.vals) THEN BOOLEAN
    ELSE {FALSE}
DescEq(a, b, ci) == LET x == a.desc y == b.desc IN IF ci THEN Fold(x) = Fold(y) ELSE x = y
Equal(a, b, ci, nometa) == IF nometa \/ (DescEq(a, b, ci) /\ a.mime = b.mime) THEN DataEq(a, b, ci) ELSE {FALSE}
===============================================================================
