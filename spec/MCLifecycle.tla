----------------------------- MODULE MCLifecycle -----------------------------
(***************************************************************************)
(* Exhaustive exploration of the life of an object which is used for two    *)
(* files.  Every transition is exported as a plan (a shortest sequence of   *)
(* operations leading to it) which is replayed into the real library.       *)
(***************************************************************************)
EXTENDS Lifecycle, Json, TLC
CONSTANTS Cls, Depth
VARIABLES o, got, op, hist
vars == <<o, got, op, hist>>
(* got: for each step the content its results have been taken from *)
Init == o = Fresh(0) /\ got = [ s \in Steps |-> 2 ] /\ op = <<"new">> /\ hist = <<>>
Do(x, n) == /\ op' = x /\ hist' = Append(hist, x) /\ PrintT(<<"PLAN", ToJson(hist')>>) /\ o' = n
            /\ got' = [ s \in Steps |-> IF s \notin n.done THEN 2 ELSE IF s \in o.done THEN got[s] ELSE n.path ]
Ready(w) == w \in {"c", "e"} \/ "c" \in o.done
Next == Len(hist) < Depth /\
    ( \/ \E w \in Steps \cup {"e"} : Ready(w) /\ Do(<<"p", w>>, Parse(o, Cls, w))
      \/ \E w \in {"k", "t", "h", "a", "e"}, n \in {0, 1} : Ready(w) /\ Closure(Cls, w) \ o.done # {} /\ Do(<<"ab", w, n>>, o)
      \/ Do(<<"clear">>, Clear(o)) \/ Do(<<"inv">>, Invalidate(o)) \/ Do(<<"close">>, Close(o)) \/ Do(<<"open">>, Open(o)) \/ Do(<<"reopen">>, Reopen(o))
      \/ \E p \in {0, 1} : Do(<<"path", p>>, SetPath(o, p))
      \/ Do(<<"swap">>, Invalidate(o))
      \/ Do(<<"apply">>, IF {"k", "t"} \subseteq o.done THEN Clear(o) ELSE o)
      \/ (o.open /\ Do(<<"edit">>, IF {"k", "t"} \subseteq o.done THEN Clear(o) ELSE o)) )
Spec == Init /\ [][Next]_vars
View == o
(* ------------------------------ properties ------------------------------ *)
(* nothing parsed of one file is ever attributed to another one *)
NoLeak == \A s \in o.done : got[s] = o.path
Ordered == o.done # {} => "c" \in o.done
(* what has been completed is only discarded by the operations which are supposed to *)
Kept == [][ op'[1] \in {"p", "ab", "close"} => o.done \subseteq o'.done ]_vars
NotRepeated == [][ op'[1] = "p" => \A s \in o.done : got'[s] = got[s] ]_vars
Discarded == [][ op'[1] \in {"clear", "inv", "reopen", "swap"} \/ (op'[1] = "path" /\ op'[2] # o.path) => o'.done = {} ]_vars
===============================================================================
