------------------------------ MODULE InfoTrace ------------------------------
(***************************************************************************)
(* The technical information reported by the library for a real file is the *)
(* wanted information of the description the file was made from.            *)
(***************************************************************************)
EXTENDS Info, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ln, bad
vars == <<ln, bad>>
Ev == Trace[ln]
Init == ln = 1 /\ bad = <<>>
Diff(w, o, what) ==
    { what \o "." \o x \o ": " \o ToString(o[x]) \o " instead of " \o ToString(w.eq[x]) : x \in { y \in DOMAIN w.eq : y \notin DOMAIN o \/ o[y] # w.eq[y] } }
    \cup { what \o "." \o x \o ": " \o ToString(o[x]) \o " instead of one of " \o ToString(w.in[x]) : x \in { y \in DOMAIN w.in : o[y] \notin w.in[y] } }
    \cup { what \o "." \o x \o ": " \o ToString(o[x]) \o " instead of " \o ToString(w.near[x].num) \o "/" \o ToString(w.near[x].den) : x \in { y \in DOMAIN w.near : ~NearTo(o[y], w.near[y]) } }
(* after a file has been rewritten only the padding, the writing application and the way the bits are put may differ *)
Kept(w) == IF Ev.after = -1 THEN w ELSE [ w EXCEPT !.eq = [ x \in DOMAIN w.eq \ {"padding", "wr", "mux"} |-> w.eq[x] ] ]
AttOK(w, o) == o.id = w.id /\ o.name = w.name /\ o.mime = w.mime /\ o.desc = w.desc /\ o.size = w.size /\ o.intact
Wrong ==
    IF Ev.r # "ok" THEN {"parsing failed: " \o Ev.r}
    ELSE LET wt == WantTracks(Ev.fmt, Ev.d) wc == WantChapters(Ev.fmt, Ev.d) wa == WantAttachments(Ev.fmt, Ev.d) IN
         Diff(Kept(WantFile(Ev.fmt, Ev.d)), Ev.file, "file")
         \cup (IF Ev.fmt \in {"mp4", "mkv"} THEN Diff(Kept(WantContainer(Ev.fmt, Ev.d)), Ev.container, "container") ELSE {})
         \cup (IF Len(Ev.tracks) # Len(wt) THEN {"tracks: " \o ToString(Len(Ev.tracks)) \o " instead of " \o ToString(Len(wt))}
               ELSE UNION { Diff(wt[i], Ev.tracks[i], "track" \o ToString(i)) : i \in DOMAIN wt })
         \cup (IF Ev.chapters # wc THEN {"chapters: " \o ToString(Ev.chapters) \o " instead of " \o ToString(wc)} ELSE {})
         \cup (IF Len(Ev.atts) # Len(wa) \/ \E i \in DOMAIN wa : i \in DOMAIN Ev.atts /\ ~AttOK(wa[i], Ev.atts[i]) THEN {"attachments: " \o ToString(Ev.atts) \o " instead of " \o ToString(wa)} ELSE {})
         \cup (IF Ev.again # "same" THEN {"information reported after parsing again: " \o Ev.again} ELSE {})
         \cup (IF Ev.after >= 0 /\ Ev.file.padding # Ev.after THEN {"padding: " \o ToString(Ev.file.padding) \o " reported, " \o ToString(Ev.after) \o " written"} ELSE {})
         \cup (IF Ev.critical # "" THEN {"the file is not understood: " \o Ev.critical} ELSE {})
Set2Seq(S) == LET RECURSIVE F(_) F(T) == IF T = {} THEN <<>> ELSE LET x == CHOOSE y \in T : TRUE IN <<x>> \o F(T \ {x}) IN F(S)
Findings == LET w == Set2Seq(Wrong) IN [ i \in DOMAIN w |-> [ s |-> Ev.s, line |-> ln, c |-> "info", d |-> w[i] ] ]
Step == ln <= Len(Trace) /\ ln' = ln + 1 /\ bad' = bad \o Findings
Write == ln = Len(Trace) + 1 /\ JsonSerialize(IOEnv.OUT, [lines |-> Len(Trace), bad |-> bad])
         /\ ln' = ln + 1 /\ UNCHANGED bad
Next == Step \/ Write
Spec == Init /\ [][Next]_vars
===============================================================================
