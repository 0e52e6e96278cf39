------------------------------ MODULE MCValues ------------------------------
(***************************************************************************)
(* A text value taken through chains of encodings: converted in place,      *)
(* turned into a string of another encoding which is assigned again, or     *)
(* assigned with conversion.  Every chain is exported as a plan.  The       *)
(* invariants check that the encodings of the specification are inverses of *)
(* their decoders and that the text is never changed by a chain.            *)
(***************************************************************************)
EXTENDS Values, Json
CONSTANTS Depth
VARIABLES text, src, enc, bytes, hist
vars == <<text, src, enc, bytes, hist>>
Encs == {"l1", "u8", "le", "be"}
Samples == { <<>>, <<65>>, <<228, 98, 255>>, <<128, 159, 160>>, <<26085, 65, 956>>, <<127925, 66>>, <<65535, 55295, 57344>>, <<1114111, 65536>>, <<127, 2047, 2048>>, <<65, 0, 66>>, <<16706, 24930>>, <<97, 65279>> }
Init == /\ text \in Samples /\ src = text /\ enc \in { e \in Encs : Encodable(text, e) }
        /\ bytes = Enc(text, enc) /\ hist = <<<<"asg", enc, "">>>>
Rec(o) == hist' = Append(hist, o) /\ PrintT(<<"PLAN", ToJson([c |-> text, p |-> hist'])>>)
Try(op) == \E e \in Encs :
    /\ IF Encodable(Dec(bytes, enc), e) THEN enc' = e /\ bytes' = Enc(Dec(bytes, enc), e) ELSE UNCHANGED <<enc, bytes>>
    /\ UNCHANGED <<text, src>> /\ Rec(<<op, e>>)
Next == Len(hist) <= Depth /\ (Try("conv") \/ Try("again"))
Spec == Init /\ [][Next]_vars
View == <<text, enc, bytes, Len(hist)>>
DecodeOK == Dec(bytes, enc) = text
Unchanged == [][ Dec(bytes', enc') = text ]_vars
Total == \A e \in Encs \ {"l1"} : Encodable(text, e) /\ Dec(Enc(text, e), e) = text
(* the numerals, dates and scales of the specification *)
ASSUME \A k \in {0, 7, 10, 99, 100, 12345, 2147483647} : Literal(NumText(OfInt(k))) = OfInt(k) /\ SmallInt(OfInt(k)) = k
ASSUME \A n \in {0, 31, 58, 59, 364, 365, 1460, 1461, 36523, 36524, 146096, 146097, 730119, 738000, 3652058} :
    DayNumber(Year(n), Month(n), Day(n)) = n /\ Day(n) \in 1..MonthDays(Year(n), Month(n))
ASSUME \A s \in Scales, t \in Scales : ScaledOK(s, t, Low[s], Low[t]) /\ ScaledOK(s, t, High[s], High[t])
ASSUME \A s \in Scales, t \in Scales : \A i \in 0..39 :
    LET r == Low[s] + i * ((High[s] - Low[s]) \div 40) q == Low[s] + (i + 1) * ((High[s] - Low[s]) \div 40)
        G(x) == Low[t] + ((Generic(s, x) - 10000) * Factor(t)[1]) \div Factor(t)[2] IN G(r) < G(q)
ASSUME \A i \in 1..GenreCount : ToGenre([t |-> "text", c |-> GenreCps[i]]) = Must({OfInt(i - 1)})
===============================================================================
