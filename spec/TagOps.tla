------------------------------- MODULE TagOps -------------------------------
(***************************************************************************)
(* Tag containers as ordered multi-maps.  A tag maps every field to a       *)
(* sequence of slots; the slot "" is a value which has been set to empty    *)
(* while further values exist ("hole").  The operators say what an          *)
(* operation may make of a tag; where several outcomes are acceptable the   *)
(* operator is a set.  Used by the exhaustively checked design (MCTagOps)   *)
(* and by the trace specification (TagOpsTrace).                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NonEmpty(s) == SelectSeq(s, LAMBDA v : v # "")
Slots(t, f) == IF f \in DOMAIN t THEN t[f] ELSE <<>>
Values(t, f) == NonEmpty(Slots(t, f))
Has(t, f) == Values(t, f) # <<>>
Put(t, f, s) == IF NonEmpty(s) = <<>> THEN [ x \in DOMAIN t \ {f} |-> t[x] ] ELSE [ x \in DOMAIN t \cup {f} |-> IF x = f THEN s ELSE t[x] ]
(* what the accessor for a single value may return *)
Singles(s) == IF NonEmpty(s) = <<>> THEN {""} ELSE {s[1], NonEmpty(s)[1]}
Drop(s, n) == IF n >= Len(s) THEN <<>> ELSE SubSeq(s, n + 1, Len(s))

(* setValue: replaces the first value *)
SetFirst(s, v) == IF s = <<>> THEN <<v>> ELSE <<v>> \o Tail(s)
SetOutcomes(s, v) == {SetFirst(s, v)}
(* setValues: replaces all values, empty ones are not stored; types which hold one value per field take the first *)
SetsOutcomes(multi, vs) ==
    IF multi \/ vs = <<>> THEN {NonEmpty(vs)} ELSE {<<vs[1]>>} \cup (IF NonEmpty(vs) = <<>> THEN {} ELSE {<<NonEmpty(vs)[1]>>})

(* insertValues for one field: the values of the source and the own ones; same: both tags are of the same type.                    *)
(* Own values survive unless overwriting is requested; when overwriting or when there are none, (at least the first of) the source's *)
(* values become the first ones.                                                                                                     *)
InsertOutcomes(same, multi, own, from, ow) ==
    LET fs == NonEmpty(from) os == NonEmpty(own) IN
    IF fs = <<>> THEN {own}
    ELSE IF os # <<>> /\ ~ow THEN {own} \cup (IF own[1] = "" THEN {SetFirst(own, fs[1])} ELSE {})
    ELSE (IF same /\ multi THEN { fs \o Drop(own, Len(fs)), fs } ELSE { SetFirst(own, fs[1]), <<fs[1]>>, fs, fs \o Drop(own, Len(fs)) })
         \cup (IF from[1] = "" THEN (IF same THEN {from} ELSE {own}) ELSE {})

RECURSIVE Total(_, _)
Total(t, S) == IF S = {} THEN 0 ELSE LET f == CHOOSE x \in S : TRUE IN Len(Values(t, f)) + Total(t, S \ {f})
ValueCount(t) == Total(t, DOMAIN t)
FieldsWithValues(t) == { f \in DOMAIN t : Has(t, f) }
===============================================================================
