---------------------------- MODULE LifecycleTrace ----------------------------
(***************************************************************************)
(* Checks recorded operations on real media file objects.  What a file      *)
(* holds (status and results per step) is given by one parsing of it in     *)
(* the usual order by a fresh object; after every operation everything the  *)
(* object reports is compared with what the specification permits.          *)
(***************************************************************************)
EXTENDS Lifecycle, Json, IOUtils, TLC
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ln, o, murky, dirty, disk, canon, orig, bad
vars == <<ln, o, murky, dirty, disk, canon, orig, bad>>
Ev == Trace[ln]
None == [ x \in {} |-> 0 ]
Init == ln = 1 /\ o = Fresh("") /\ murky = FALSE /\ dirty = FALSE /\ disk = None /\ canon = None /\ orig = None /\ bad = <<>>
B(c, d) == [ s |-> Ev.s, line |-> ln, c |-> c, d |-> d ]
Put(f, k, v) == [ x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x] ]
Content == IF o.path \in DOMAIN disk THEN disk[o.path] ELSE ""
Cls == IF Content \in DOMAIN canon THEN canon[Content].cls ELSE "other"
(* ------------------------------ observations ----------------------------- *)
(* dirty: changes of tags have been assigned but not applied *)
(* Ev.st: status per step, Ev.res: digest of the results per step ("" if there are none), Ev.pad: padding and effective size *)
(* a file which cannot be read as a whole (an I/O error has been reported) *)
Unreadable(c) == c \in DOMAIN canon /\ canon[c].r # "ok"
Known(c) == c \in DOMAIN canon
WrongSteps(n, c) == { s \in Steps : IF s \in n.done THEN ~(Unreadable(c) /\ canon[c].st[s] = "not") /\ ( Ev.st[s] # canon[c].st[s] \/ (Ev.res[s] # canon[c].res[s] /\ ~(s = "t" /\ dirty')))
                                    ELSE Ev.st[s] # "not" }
LeakSteps(n) == IF n.done = {} /\ ~murky' THEN { s \in Steps : Ev.res[s] # "" } ELSE {}
Judge(n, c, what) ==
    IF ~Known(c) THEN <<>>
    ELSE LET W == WrongSteps(n, c) L == LeakSteps(n) IN
         (IF W = {} THEN <<>> ELSE LET s == CHOOSE x \in W : TRUE IN
            <<B(IF s \in n.done THEN "life-results" ELSE "life-status", what \o ": step " \o s \o " reports " \o Ev.st[s] \o " " \o Ev.res[s] \o (IF s \in n.done THEN " expected " \o canon[c].st[s] \o " " \o canon[c].res[s] ELSE " expected not"))>>)
         \o (IF L = {} THEN <<>> ELSE LET s == CHOOSE x \in L : TRUE IN <<B("life-leak", what \o ": results of " \o s \o " which has not been parsed: " \o Ev.res[s])>>)
         \o (IF W = {} /\ n.done = Steps /\ Ev.pad # canon[c].pad THEN <<B("life-results", what \o ": padding and size " \o Ev.pad \o " expected " \o canon[c].pad)>> ELSE <<>>)
Untouched(what) == IF \A i \in DOMAIN Ev.files : Ev.files[i][1] \in DOMAIN disk => Ev.files[i][2] = orig[Ev.files[i][1]] THEN <<>> ELSE <<B("life-untouched", what)>>
Doing == Ev.what
(* ------------------------------- operations ------------------------------ *)
NeedsContainer == Ev.step \notin {"c", "e"} /\ "c" \notin o.done
Pend == { s \in Closure(Cls, Ev.step) : s \notin o.done }
ParseStep ==
    LET done == Parse(o, Cls, Ev.step)
        closed == (~o.open /\ Pend # {} /\ "c" \in o.done) \/ Unreadable(Content)
        observed == [ o EXCEPT !.done = { s \in Steps : Ev.st[s] # "not" }, !.open = @ \/ done.open ]
        n == IF closed \/ Ev.abort THEN observed ELSE done IN
    /\ o' = n /\ dirty' = dirty
    /\ murky' = (murky \/ ((closed \/ Ev.abort) /\ n # done))
    /\ UNCHANGED <<disk, canon, orig>>
    /\ bad' = bad \o (IF Ev.r = "ok" \/ (closed /\ Ev.r = "io") THEN <<>> ELSE <<B("life-outcome", Doing \o ": " \o Ev.r)>>)
                  \o (IF Pend = {} /\ (Ev.ops # 0 \/ Ev.dl # 0) THEN <<B("life-repeated", Doing \o " though completed: " \o ToString(<<Ev.ops, Ev.dl>>))>> ELSE <<>>)
                  \o (IF Ev.writes = 0 THEN <<>> ELSE <<B("life-untouched", Doing \o ": writes")>>)
                  \o (IF (closed \/ Ev.abort) /\ ~(o.done \subseteq n.done /\ (n.done \subseteq done.done \/ Unreadable(Content))) THEN <<B("life-status", Doing \o ": completed " \o ToString(n.done))>> ELSE <<>>)
                  \o Judge(n, Content, Doing) \o Untouched(Doing)
Simple(n) ==
    /\ o' = n /\ murky' = (murky /\ n.done # {}) /\ dirty' = (dirty /\ "t" \in n.done) /\ UNCHANGED <<disk, canon, orig>>
    /\ bad' = bad \o (IF Ev.r = "ok" THEN <<>> ELSE <<B("life-outcome", Doing \o ": " \o Ev.r)>>) \o Judge(n, IF n.path \in DOMAIN disk THEN disk[n.path] ELSE "", Doing) \o Untouched(Doing)
(* the content of the other file is put in place of the current one and the object told so *)
Sha(p) == LET i == CHOOSE k \in DOMAIN Ev.files : Ev.files[k][1] = p IN Ev.files[i][2]
Swap ==
    /\ o' = Invalidate(o) /\ murky' = FALSE /\ dirty' = FALSE /\ UNCHANGED canon
    /\ disk' = Put(disk, o.path, disk[Ev.from]) /\ orig' = Put(orig, o.path, orig[Ev.from])
    /\ bad' = bad \o Judge(Invalidate(o), disk[Ev.from], Doing) \o (IF Sha(o.path) = orig[Ev.from] THEN <<>> ELSE <<B("life-untouched", Doing)>>)
(* applying changes: refused without parsing; everything is discarded afterwards *)
Apply ==
    LET st == [ s \in Steps |-> IF s \in o.done THEN canon[Content].st[s] ELSE "not" ]
        may == MayApply(st)
        new == Sha(o.path) IN
    IF ~may
    THEN /\ UNCHANGED <<o, murky, disk, canon, orig>> /\ dirty' = (dirty \/ Ev.edited)      \* the assigned changes are kept
         /\ bad' = bad \o (IF Ev.r = "invalid" /\ Ev.dl >= 4 THEN <<>> ELSE <<B("life-refused", Doing \o " though tags and tracks have not been parsed successfully: " \o Ev.r)>>)
                       \o Judge(o, Content, Doing) \o Untouched(Doing)
    ELSE /\ o' = [ o EXCEPT !.done = {}, !.open = Ev.open ] /\ murky' = FALSE /\ dirty' = FALSE
         /\ disk' = Put(disk, o.path, new) /\ orig' = Put(orig, o.path, Sha(o.path))
         /\ UNCHANGED canon
         /\ bad' = bad \o (IF \E s \in Steps : Ev.st[s] # "not" \/ Ev.res[s] # "" THEN <<B("life-leak", Doing \o " leaves results of parsing " \o ToString(<<Ev.st, Ev.res>>))>> ELSE <<>>)
                       \o (IF \A i \in DOMAIN Ev.files : Ev.files[i][1] = o.path \/ Ev.files[i][1] \notin DOMAIN orig \/ Ev.files[i][2] = orig[Ev.files[i][1]] THEN <<>> ELSE <<B("life-untouched", Doing \o ": another file changed")>>)
Step ==
    CASE Ev.op = "begin" -> /\ o' = Fresh("") /\ murky' = FALSE /\ dirty' = FALSE /\ disk' = None /\ orig' = None /\ canon' = None /\ UNCHANGED bad
      [] Ev.op = "canon" -> /\ canon' = Put(canon, Ev.c, [ cls |-> Ev.cls, r |-> Ev.r, st |-> Ev.st, res |-> Ev.res, pad |-> Ev.pad ]) /\ disk' = Put(disk, Ev.file, Ev.c) /\ orig' = Put(orig, Ev.file, Ev.id) /\ UNCHANGED <<o, murky, dirty, bad>>
      [] Ev.op = "new" -> o' = Fresh(Ev.path) /\ murky' = FALSE /\ dirty' = FALSE /\ UNCHANGED <<disk, canon, orig, bad>>
      [] Ev.op = "parse" -> ParseStep
      [] Ev.op = "clear" -> Simple(Clear(o))
      [] Ev.op = "inv" -> Simple(Invalidate(o))
      [] Ev.op = "close" -> Simple(Close(o))
      [] Ev.op = "open" -> Simple(Open(o))
      [] Ev.op = "reopen" -> Simple(Reopen(o))
      [] Ev.op = "path" -> Simple(SetPath(o, Ev.path))
      [] Ev.op = "swap" -> Swap
      [] Ev.op = "apply" -> Apply
      [] Ev.op = "exit" -> /\ bad' = (IF Ev.end = "clean" THEN bad ELSE Append(bad, B("exit", Ev.end \o " " \o ToString(Ev.code)))) /\ UNCHANGED <<o, murky, dirty, disk, canon, orig>>
      [] OTHER -> UNCHANGED <<o, murky, dirty, disk, canon, orig, bad>>
Write == ln = Len(Trace) + 1 /\ JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), bad |-> bad])
Next == \/ ln <= Len(Trace) /\ Step /\ ln' = ln + 1
        \/ Write /\ ln' = ln + 1 /\ UNCHANGED <<o, murky, dirty, disk, canon, orig, bad>>
Spec == Init /\ [][Next]_vars
===============================================================================
