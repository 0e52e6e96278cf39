------------------------------ MODULE Lifecycle ------------------------------
(***************************************************************************)
(* The life of one media file object: which parts of which file have been   *)
(* parsed.  The parsing steps are c (container format), k (tracks), t       *)
(* (tags), h (chapters) and a (attachments).  A step which has been         *)
(* completed is not repeated; parsing one part may involve another one.     *)
(* Everything parsed is a function of the content of the file alone.        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
Steps == {"c", "k", "t", "h", "a"}
StepNo(x) == CASE x = "c" -> 1 [] x = "k" -> 2 [] x = "t" -> 3 [] x = "h" -> 4 [] x = "a" -> 5
(* the steps completed by invoking the parsing of `what` for a file of class cls *)
Closure(cls, what) ==
    CASE what = "e" -> Steps
      [] what = "t" /\ cls = "flac" -> {"t", "k"}
      [] what = "k" /\ cls = "single" -> {"t", "k"}
      [] OTHER -> {what}
(* An object: the path, whether the file is open and the steps completed so far. *)
Fresh(p) == [ path |-> p, open |-> FALSE, done |-> {} ]
Parse(o, cls, what) == [ o EXCEPT !.open = @ \/ (what \in {"c", "e"} /\ "c" \notin o.done), !.done = @ \cup Closure(cls, what) ]
(* the outcomes permitted for parsing which is aborted: nothing completed before is lost *)
AbortedDone(o, cls, what) == { o.done \cup S : S \in SUBSET Closure(cls, what) }
Clear(o) == [ o EXCEPT !.done = {} ]
Invalidate(o) == [ o EXCEPT !.done = {}, !.open = FALSE ]
Close(o) == [ o EXCEPT !.open = FALSE ]
Reopen(o) == [ o EXCEPT !.done = {}, !.open = TRUE ]
Open(o) == IF o.open THEN o ELSE Reopen(o)
SetPath(o, p) == IF p = o.path THEN o ELSE Fresh(p)
(* changes may only be applied to a file whose tags and tracks have been parsed without critical errors *)
Bad == {"not", "crit"}
MayApply(st) == st["t"] \notin Bad /\ st["k"] \notin Bad
===============================================================================
