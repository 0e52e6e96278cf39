-------------------------------- MODULE Damage --------------------------------
(***************************************************************************)
(* Damaged files (P14).                                                     *)
(*                                                                          *)
(* A file is a tree of parts; every part has fields of certain kinds (its   *)
(* identification, its size, counts, references to other places, flags,     *)
(* text and other data).  A damage replaces a field by one of the values    *)
(* which are special for its kind or removes, repeats, exchanges or cuts a  *)
(* part.  Which damages exist does not depend on the format.                *)
(*                                                                          *)
(* The second half describes how a file is processed, damaged or not: the   *)
(* stages parsing and applying changes go through, where a problem may be   *)
(* noticed and what has to be true of the file whenever processing ends.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets
(* ------------------------------- damages -------------------------------- *)
Special == {"zero", "one", "less", "more", "half", "max"}
Values(kind) ==
    CASE kind = "id"    -> {"zero", "max", "other", "more"}
      [] kind = "size"  -> Special \cup {"toend", "beyond", "header", "shrink"}
      [] kind = "count" -> Special \cup {"shrink"}
      [] kind = "ref"   -> Special \cup {"self", "eof", "beyond"}
      [] kind = "flags" -> {"zero", "max", "more", "half"}
      [] kind = "text"  -> {"zero", "max", "half"}
      [] kind = "data"  -> {"zero", "max", "one", "more", "half"}
Kinds == {"id", "size", "count", "ref", "flags", "text", "data"}
Points == {"start", "start1", "body", "body1", "mid", "last"}
Damages == UNION { { [ k |-> k, v |-> v ] : v \in Values(k) } : k \in Kinds }
           \cup { [ k |-> "cut", v |-> p ] : p \in Points }
           \cup { [ k |-> "part", v |-> v ] : v \in {"drop", "repeat", "exchange", "junk", "empty"} }
(* which parts may carry it: only the outermost ones, inner ones with parts of their own or those without *)
Places == {"top", "inner", "leaf"}
(* p: only parse; others apply changes: a without any, e after editing, i/j the same in place, r removing all tags, s to another file, c after creating tags *)
Modes == {"p", "a", "e", "i", "j", "r", "s", "c"}
InPlaceMode(m) == m \in {"i", "j"}
(* ------------------------------ processing ------------------------------ *)
(* disk: what the file is compared to before; "mixed": neither the original nor a complete new file *)
(* backup: whether the original is still there under another name *)
Start == [ stage |-> "start", disk |-> "orig", backup |-> FALSE, said |-> FALSE, err |-> FALSE ]
Parse(s, found) == [ s EXCEPT !.stage = "parsed", !.said = @ \/ found ]
Unreadable(s) == [ s EXCEPT !.stage = "end", !.err = TRUE, !.said = TRUE ]
(* everything which can be wrong with the content has to be noticed before something is overwritten in place *)
Prepare(s, ok) == IF ok THEN [ s EXCEPT !.stage = "prepared" ] ELSE [ s EXCEPT !.stage = "end", !.err = TRUE, !.said = TRUE ]
Begin(s, inplace) == [ s EXCEPT !.stage = "writing", !.disk = "mixed", !.backup = ~inplace ]
Write(s, ok, inplace) ==
    IF ok THEN [ s EXCEPT !.stage = "end", !.disk = "new", !.backup = FALSE ]
    ELSE [ s EXCEPT !.stage = "end", !.disk = "orig", !.backup = FALSE, !.err = TRUE, !.said = TRUE ]
(* the states processing may end with *)
Fine(s) == s.stage = "end" =>
    /\ s.disk # "mixed"                          \* never a half written file
    /\ s.err => s.disk = "orig" /\ s.said        \* failing leaves the file as it was and says so
    /\ ~s.backup
(* ------------------------- judging observed runs ------------------------- *)
(* documented ways of ending: normally, an input/output error or one of the library's own failures *)
Failures == {"io", "invalid", "truncated", "nodata", "notimpl", "failure", "verify"}
ParseOutcome(r) == r \in {"ok", "io"}
ApplyOutcome(r) == r = "ok" \/ r \in Failures
(* the state a run ended with (in the terms of the above) *)
Ended(r, same, level) == [ stage |-> "end", disk |-> IF r = "ok" THEN (IF same THEN "orig" ELSE "new") ELSE IF same THEN "orig" ELSE "mixed",
                           backup |-> FALSE, said |-> level >= 4 \/ r \in {"ok", "io"}, err |-> r # "ok" ]
(* effort in proportion to the size of the file: bytes, milliseconds (sanitized code on a loaded machine), KiB *)
MsLimit(size) == 6000 + size \div 20
KbLimit(size) == 48000 + size \div 16
===============================================================================
