---------------------------- MODULE TagOpsTrace ----------------------------
(***************************************************************************)
(* Checks recorded operations on real tag objects against TagOps.  Every    *)
(* line carries what the accessors of the tag report afterwards:            *)
(*   obs = <<[f, has, vals, single]>>, count                                *)
(***************************************************************************)
EXTENDS TagOps, Formats, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ln, tags, bad
vars == <<ln, tags, bad>>
Empty == [ x \in {} |-> <<>> ]
Ev == Trace[ln]
NoTags == [ x \in {} |-> [type |-> "", f |-> Empty, x |-> FALSE] ]
Init == ln = 1 /\ tags = NoTags /\ bad = <<>>
ObsIx(obs) == [ f \in { obs[i].f : i \in DOMAIN obs } |-> CHOOSE i \in DOMAIN obs : obs[i].f = f ]
ObsVals(obs, f) == IF f \in DOMAIN ObsIx(obs) THEN obs[ObsIx(obs)[f]].vals ELSE <<>>
ObsSingle(obs, f) == IF f \in DOMAIN ObsIx(obs) THEN obs[ObsIx(obs)[f]].single ELSE ""
ObsHas(obs, f) == IF f \in DOMAIN ObsIx(obs) THEN obs[ObsIx(obs)[f]].has ELSE FALSE
Multi(type) == type # "id3v1"
Supp(type, f) == Supports(type, f)
Matches(obs, f, s) == ObsVals(obs, f) = NonEmpty(s) /\ ObsSingle(obs, f) \in Singles(s)
(* the tag afterwards: for each field one of the permitted outcomes; fields without permitted outcome are reported *)
Outcomes(f) ==
    LET t == tags[Ev.t] own == Slots(t.f, f) IN
    CASE Ev.a = "set" /\ Ev.f = f -> IF ~Supp(t.type, f) THEN {own}
                                     ELSE SetOutcomes(own, Ev.vals[1]) \cup (IF t.type = "mp4" /\ f = "Genre" THEN {<<Ev.vals[1]>>} ELSE {})
      [] Ev.a = "sets" /\ Ev.f = f -> IF ~Supp(t.type, f) THEN {own} ELSE SetsOutcomes(Multi(t.type) /\ f # "Vendor", Ev.vals)
      [] Ev.a = "rmall" -> {<<>>} \cup (IF f = "Vendor" THEN {own} ELSE {})
      [] Ev.a = "ins" /\ Supp(t.type, f) ->
            InsertOutcomes(t.type = tags[Ev.src].type \/ (t.type \in V2Types /\ tags[Ev.src].type \in V2Types), Multi(t.type), own, Slots(tags[Ev.src].f, f), Ev.ow)
            \cup (IF f = "Vendor" THEN {own} ELSE {})
      [] OTHER -> {own}
Touched == DOMAIN tags[Ev.t].f \cup { Ev.obs[i].f : i \in DOMAIN Ev.obs } \cup (IF "f" \in DOMAIN Ev THEN {Ev.f} ELSE {}) \cup (IF Ev.a = "ins" THEN DOMAIN tags[Ev.src].f ELSE {})
Wrong == { f \in Touched : ~\E s \in Outcomes(f) : Matches(Ev.obs, f, s) }
Next1(f) == IF \E s \in Outcomes(f) : Matches(Ev.obs, f, s) THEN CHOOSE s \in Outcomes(f) : Matches(Ev.obs, f, s) ELSE ObsVals(Ev.obs, f)
NewF == LET g == [ f \in Touched |-> Next1(f) ] IN [ f \in { x \in Touched : NonEmpty(g[x]) # <<>> } |-> g[f] ]
PresenceWrong == { f \in { Ev.obs[i].f : i \in DOMAIN Ev.obs } : ObsHas(Ev.obs, f) # (ObsVals(Ev.obs, f) # <<>>) }
ObsFields == { f \in { Ev.obs[i].f : i \in DOMAIN Ev.obs } : f # "Vendor" /\ ObsVals(Ev.obs, f) # <<>> }
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET f == CHOOSE x \in S : TRUE IN Len(ObsVals(Ev.obs, f)) + Sum(S \ {f})
(* inserting from an ID3v2 tag of another version may keep fields which are not supported as known field (they are still converted when possible) *)
Foreign == LET t == tags[Ev.t].type IN Ev.a = "ins" /\ t \in V2Types /\ tags[Ev.src].type \in V2Types /\ (tags[Ev.src].x \/ \E f \in DOMAIN tags[Ev.src].f : ~Supp(t, f))
CountWrong == Ev.count < Cardinality(ObsFields) \/ (Ev.count > Sum(ObsFields) /\ ~tags[Ev.t].x /\ ~Foreign)
RetWrong ==
    LET t == tags[Ev.t].type IN
    CASE Ev.a \in {"set", "sets"} -> IF ~Supp(t, Ev.f) THEN Ev.ok
                                     ELSE IF t = "id3v1" \/ Ev.a = "set" THEN Ev.vals # <<>> /\ Ev.vals[1] # "" /\ ~Ev.ok
                                     ELSE NonEmpty(Ev.vals) # <<>> /\ ~Ev.ok /\ Ev.f # "Vendor"
      [] Ev.a = "ins" -> \/ (Ev.n = 0) # (\A f \in DOMAIN tags[Ev.src].f : ~Supp(t, f) \/ f = "Vendor" \/ (~Ev.ow /\ Has(tags[Ev.t].f, f))) /\ (\A f \in DOMAIN tags[Ev.t].f : tags[Ev.t].f[f][1] # "") /\ ~(Ev.n > 0 /\ Foreign)
                         \/ Ev.n > ValueCount(tags[Ev.src].f)
      [] OTHER -> FALSE
SrcWrong == Ev.a = "ins" /\ \E f \in DOMAIN tags[Ev.src].f \cup { Ev.srcobs[i].f : i \in DOMAIN Ev.srcobs } : ~Matches(Ev.srcobs, f, Slots(tags[Ev.src].f, f))
B(c, d) == [ s |-> Ev.s, line |-> ln, c |-> c, d |-> d ]
Describe(f) == f \o ": " \o ToString(Slots(tags[Ev.t].f, f)) \o " -> " \o ToString(ObsVals(Ev.obs, f)) \o " single " \o ObsSingle(Ev.obs, f) \o " permitted " \o ToString(Outcomes(f))
Found ==
    (IF Wrong = {} THEN <<>> ELSE <<B("op-values", tags[Ev.t].type \o " " \o Ev.a \o " " \o ToString({ Describe(f) : f \in Wrong }))>>)
    \o (IF PresenceWrong = {} THEN <<>> ELSE <<B("op-presence", tags[Ev.t].type \o " presence disagrees with values: " \o ToString(PresenceWrong))>>)
    \o (IF CountWrong THEN <<B("op-count", tags[Ev.t].type \o " field count " \o ToString(Ev.count) \o " for " \o ToString(Ev.obs))>> ELSE <<>>)
    \o (IF RetWrong THEN <<B("op-result", tags[Ev.t].type \o " " \o Ev.a \o " returned " \o (IF Ev.a = "ins" THEN ToString(Ev.n) ELSE ToString(Ev.ok)))>> ELSE <<>>)
    \o (IF SrcWrong THEN <<B("op-source", tags[Ev.t].type \o " " \o Ev.a \o " changed the source")>> ELSE <<>>)
    \o (IF Ev.r # "ok" THEN <<B("op-exception", Ev.a \o " " \o Ev.r)>> ELSE <<>>)
Step ==
    CASE Ev.op = "tnew" -> /\ tags' = [ x \in DOMAIN tags \cup {Ev.t} |-> IF x = Ev.t THEN [type |-> Ev.type, f |-> Empty, x |-> FALSE] ELSE tags[x] ]
                           /\ bad' = IF Ev.obs = <<>> /\ Ev.count = 0 THEN bad ELSE Append(bad, B("op-values", "new tag is not empty"))
      [] Ev.op = "top" -> /\ tags' = [ tags EXCEPT ![Ev.t].f = NewF, ![Ev.t].x = IF Ev.a = "rmall" THEN FALSE ELSE @ \/ Foreign ] /\ bad' = bad \o Found
      [] Ev.op = "sup" -> /\ UNCHANGED tags
                          /\ bad' = LET w == { i \in DOMAIN Ev.sup : Ev.sup[i][2] # Supp(Ev.type, Ev.sup[i][1]) } IN
                                    IF w = {} THEN bad ELSE Append(bad, B("op-supported", Ev.type \o " supported fields differ: " \o ToString({ Ev.sup[i] : i \in w })))
      [] Ev.op = "enc" -> /\ tags' = [ tags EXCEPT ![Ev.t].f = [ f \in DOMAIN @ |-> ObsVals(Ev.obs, f) ] ]
                          /\ bad' = LET w == { i \in DOMAIN Ev.texts : Ev.texts[i][1] # Ev.texts[i][2] \/ Ev.texts[i][3] } IN
                                    IF w = {} /\ Ev.r = "ok" THEN bad ELSE Append(bad, B("op-encoding", tags[Ev.t].type \o " " \o Ev.r \o " " \o ToString({ Ev.texts[i] : i \in w })))
      [] Ev.op = "exit" -> /\ tags' = NoTags /\ bad' = IF Ev.end = "clean" THEN bad ELSE Append(bad, B("exit", Ev.end \o " " \o ToString(Ev.code)))
      [] Ev.op = "begin" -> tags' = NoTags /\ UNCHANGED bad
      [] OTHER -> UNCHANGED <<tags, bad>>
Write == ln = Len(Trace) + 1 /\ JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), bad |-> bad])
Next == \/ ln <= Len(Trace) /\ Step /\ ln' = ln + 1
        \/ Write /\ ln' = ln + 1 /\ UNCHANGED <<tags, bad>>
Spec == Init /\ [][Next]_vars
===============================================================================
