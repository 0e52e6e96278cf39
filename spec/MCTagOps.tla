------------------------------ MODULE MCTagOps ------------------------------
(***************************************************************************)
(* Exhaustive exploration of operations on two tags with two fields: the    *)
(* properties of the multi-map are checked on every transition and every    *)
(* transition is exported as a plan (a shortest operation sequence leading  *)
(* to it) which is then replayed on the real tag classes.                   *)
(***************************************************************************)
EXTENDS TagOps, Json
CONSTANTS Multi, Same, Depth
VARIABLES A, B, op, hist
vars == <<A, B, op, hist>>
Empty == [ x \in {} |-> <<>> ]
Fields == {"f", "g"}
Init == A = Empty /\ B = Empty /\ op = <<"init">> /\ hist = <<>>
Rec(o) == /\ op' = o /\ hist' = Append(hist, o) /\ PrintT(<<"PLAN", ToJson(hist')>>)
Pick(S) == CHOOSE x \in S : \A y \in S : Len(y) <= Len(x)
Set == \E f \in Fields, v \in {"", "a", "b"} : /\ A' = Put(A, f, SetFirst(Slots(A, f), v)) /\ B' = B /\ Rec(<<"set", "A", f, v>>)
Seqs == [ f \in Fields |-> IF f = "f" THEN { <<>>, <<"a">>, <<"a", "b">>, <<"", "b">>, <<"b", "", "a">>, <<"b", "a", "b">> } ELSE { <<>>, <<"b", "a">> } ]
Sets == \E f \in Fields : \E vs \in Seqs[f] : \E s \in SetsOutcomes(Multi, vs) : /\ A' = Put(A, f, s) /\ B' = B /\ Rec(<<"sets", "A", f, vs>>)
SetB == \E p \in { <<"f", <<"c">>>>, <<"f", <<"c", "d">>>>, <<"g", <<"c">>>> } : /\ B' = Put(B, p[1], p[2]) /\ A' = A /\ Rec(<<"sets", "B", p[1], p[2]>>)
RmAll == A' = Empty /\ B' = B /\ Rec(<<"rmall", "A">>)
Ins(own, from, ow) == [ f \in { x \in Fields : NonEmpty(Pick(InsertOutcomes(Same, Multi, Slots(own, x), Slots(from, x), ow))) # <<>> } |-> Pick(InsertOutcomes(Same, Multi, Slots(own, f), Slots(from, f), ow)) ]
Insert == \E ow \in BOOLEAN : \/ (A' = Ins(A, B, ow) /\ B' = B /\ Rec(<<"ins", "A", "B", ow>>))
                             \/ (B' = Ins(B, A, ow) /\ A' = A /\ Rec(<<"ins", "B", "A", ow>>))
Next == Len(hist) < Depth /\ (Set \/ Sets \/ SetB \/ RmAll \/ Insert)
Spec == Init /\ [][Next]_vars
View == <<A, B>>

(* ------------------------------ properties ------------------------------ *)
TypeOK == \A t \in {A, B} : \A f \in DOMAIN t : f \in Fields /\ NonEmpty(t[f]) # <<>> /\ \A i \in DOMAIN t[f] : t[f][i] # "" \/ i = 1
CountOK == \A t \in {A, B} : Cardinality(FieldsWithValues(t)) <= ValueCount(t) /\ \A f \in Fields : Has(t, f) <=> Values(t, f) # <<>>
O == op'
FrameOK == [][ (O[1] \in {"set", "sets"} => \A f \in Fields \ {O[3]} : Slots(A, f) = Slots(A', f) /\ Slots(B, f) = Slots(B', f)) ]_vars
SetOK == [][ /\ (O[1] = "set" => (O[4] # "" => Values(A', O[3])[1] = O[4]) /\ Values(A', O[3]) = NonEmpty(SetFirst(Slots(A, O[3]), O[4])))
             /\ (O[1] = "sets" /\ Multi => LET t == IF O[2] = "A" THEN A' ELSE B' IN Values(t, O[3]) = NonEmpty(O[4])) ]_vars
KeepOK == [][ O[1] = "ins" /\ ~O[4] => LET old == IF O[2] = "A" THEN A ELSE B new == IF O[2] = "A" THEN A' ELSE B' IN
                \A f \in Fields : \A v \in { old[f][i] : i \in (IF f \in DOMAIN old THEN DOMAIN old[f] ELSE {}) } \ {""} : \E i \in DOMAIN Slots(new, f) : new[f][i] = v ]_vars
TransferOK == [][ O[1] = "ins" => LET old == IF O[2] = "A" THEN A ELSE B new == IF O[2] = "A" THEN A' ELSE B' src == IF O[2] = "A" THEN B ELSE A IN
                \A f \in Fields : Has(src, f) /\ (O[4] \/ ~Has(old, f)) => Values(new, f)[1] = Values(src, f)[1] ]_vars
===============================================================================
