------------------------------- MODULE MCDamage -------------------------------
(***************************************************************************)
(* Every plan of at most two damages and a way of processing the result;    *)
(* processing is explored for every point at which the problem might be     *)
(* noticed.  The plans are exported and instantiated for real files.        *)
(***************************************************************************)
EXTENDS Damage, Json, TLC
VARIABLES plan, mode, s
vars == <<plan, mode, s>>
Where == { [ d |-> x, at |-> p ] : x \in Damages, p \in Places }
Plans == { <<w>> : w \in Where }
Init == s = Start /\ plan \in Plans /\ mode \in Modes /\ (mode = "p" => PrintT(<<"PLAN", ToJson(plan[1])>>))
Inpl == InPlaceMode(mode)
Next == /\ UNCHANGED <<plan, mode>>
        /\ \/ (s.stage = "start" /\ \E b \in BOOLEAN : s' = Parse(s, b))
           \/ (s.stage = "start" /\ s' = Unreadable(s))
           \/ (s.stage = "parsed" /\ mode = "p" /\ s' = [ s EXCEPT !.stage = "end" ])
           \/ (s.stage = "parsed" /\ mode # "p" /\ \E b \in BOOLEAN : s' = Prepare(s, b))
           \/ (s.stage = "prepared" /\ \E i \in BOOLEAN : (i => Inpl) /\ s' = Begin(s, i))
           \* the content can not be the reason for failing while overwriting in place
           \/ (s.stage = "writing" /\ \E b \in BOOLEAN : (~b => s.backup) /\ s' = Write(s, b, ~s.backup))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
EndsFine == Fine(s)
ParsingNeverWrites == mode = "p" => s.disk = "orig"
Ends == <>(s.stage = "end")
===============================================================================
