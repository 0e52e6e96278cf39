------------------------------ MODULE FileTrace ------------------------------
(***************************************************************************)
(* Trace specification: every recorded execution of the real library (one   *)
(* line per operation or per look at the disk) has to be explained by       *)
(* TagFile.  The behaviour is deterministic; each clause which does not hold *)
(* for a line is recorded in `bad` together with the scenario and the line.  *)
(***************************************************************************)
EXTENDS TagFile, Json, IOUtils, TLCExt

Lines == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES ln, st, bad
vars == <<ln, st, bad>>

NoApply == [ kind |-> "none" ]
Fresh(ev) == [ s |-> ev.s, fmt |-> ev.fmt, disk |-> << >>, names |-> {}, cur |-> "", parsed |-> FALSE, tags |-> <<>>, edited |-> FALSE, ids |-> << >>, hurt |-> {}, last |-> NoApply, pend |-> NoApply ]

Perms(n) == { p \in [1..n -> 1..n] : \A i, j \in 1..n : i # j => p[i] # p[j] }
Clause(name, ok, detail) == IF ok THEN <<>> ELSE <<[ c |-> name, d |-> detail ]>>
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))

(* --- progress reports of an operation --- *)
(* entries: <<kind, step, step percentage, overall percentage, modifications so far>> *)
ProgressBad(ev) ==
    LET P == ev.prog
        inRange == \A k \in DOMAIN P : P[k][3] \in 0..100 /\ P[k][4] \in 0..100
        mono == \A k \in 2..Len(P) : (P[k][1] = "p" /\ P[k][2] = P[k - 1][2]) => P[k][3] >= P[k - 1][3]
        omono == \A k \in 2..Len(P) : P[k][4] >= P[k - 1][4]
    IN Clause("progress-range", inRange, "percentage outside 0..100") \o Clause("progress-monotonic", mono, "percentage decreases within a step")
       \o Clause("progress-overall-monotonic", omono, "overall percentage decreases")

(* --- what a file must look like after a successful apply --- *)
AppliedBad(s, pend, post) ==
    LET pre == pend.pre
        ap == pend.ev
        o == ap.o
        diff == TagDiff(pend.tags, AbsTags(post))
        wasOk == pre.errs = <<>>
    IN  Clause("payload", post.media = pre.media, "payload changed")
     \o Clause("refs", RefsKept(pre, post), RefsDiff(pre, post))
     \o Clause("others", post.others = pre.others, ToString(Range(pre.others) \ Range(post.others)) \o " -> " \o ToString(Range(post.others) \ Range(pre.others)))
     \o Clause(IF pend.edited THEN "tags" ELSE "tags-noedit", diff = {}, ToString(diff))
     \o Clause("wellformed", wasOk => post.errs = <<>>, ToString(post.errs))
     \o Clause("inplace-forced", ap.inplace => ~o.force, "updated in place though a rewrite is forced")
     \o Clause("inplace-padding", (ap.inplace /\ HasPadding(s.fmt, post)) => (post.pad0 >= o.min /\ post.pad <= o.max), ToString(<<post.pad0, post.pad, o.min, o.max>>))
     \o Clause("rewrite-padding", ~ap.inplace => PaddingMatches(s.fmt, o.pref, post.pad, post), ToString(<<post.pad, o.pref>>))
     \o Clause("tag-position", post.tagpos \in TagPositions(s.fmt, o, ap.inplace, pre), post.tagpos \o " is none of " \o ToString(TagPositions(s.fmt, o, ap.inplace, pre)))
     \o Clause("index-position", post.idxpos \in IndexPositions(s.fmt, o, ap.inplace, pre), post.idxpos \o " is none of " \o ToString(IndexPositions(s.fmt, o, ap.inplace, pre)))
     \o Clause("stable-bytes", (s.last.kind = "applied" /\ ~pend.edited /\ s.last.o = o /\ s.last.path = ap.path /\ s.last.sha = pre.sha) => post.sha = s.last.sha, ToString(<<pre.size, post.size>>))

(* Files which appear: the target and, only when the file itself has been rewritten, one backup of it holding the original content. *)
DirNames(ev) == { ev.dir[k][1] : k \in DOMAIN ev.dir }
StrayOk(s, ev) == \A n \in DirNames(ev) \ s.names : n = ev.target \/ (~ev.inplace /\ ev.target = s.cur /\ IF ev.bdir = "" THEN Prefix(n, Len(s.cur)) = s.cur ELSE Prefix(n, Len(ev.bdir) + 1) = ev.bdir \o "/")
BackupOk(s, ev) == \E k \in DOMAIN ev.dir : ev.dir[k][1] # s.cur /\ ev.dir[k][1] \notin s.names /\ ev.dir[k][2] = s.disk[s.cur].id
KeptOk(s, ev) == \A n \in s.names : n \in DirNames(ev) /\ ((n \in DOMAIN s.disk /\ n # s.cur /\ n # ev.target) => \E k \in DOMAIN ev.dir : ev.dir[k] = <<n, s.disk[n].id>>)

(* --- faults: what is on disk after every single file operation, and what is reported in the end --- *)
(* In place means that nothing has been created, renamed or removed: there is no backup by design. *)
Verb(op, v) == Prefix(op, Len(v)) = v
FsInPlace(ev) == \A k \in DOMAIN ev.fs : Verb(ev.fs[k].op, "write ") \/ Verb(ev.fs[k].op, "truncate ")
OrigId(s) == s.disk[s.cur].id
Holds(dir, id) == \E k \in DOMAIN dir : dir[k][2] = id
HoldsAt(dir, n, id) == \E k \in DOMAIN dir : dir[k] = <<n, id>>
(* all states the directory goes through *)
DirStates(ev) == { ev.fs[k].dir : k \in { x \in DOMAIN ev.fs : ev.fs[x].dir # <<>> } } \cup {ev.dir}
Requested(ev) == ev.aborted
Injected(ev) == ev.fault = "io" \/ ev.fault = "exdev"
(* A request which arrives with the very last reports may be too late; changes made in place cannot be undone so they are not interrupted. *)
TooLate(ev) == IF FsInPlace(ev) THEN ev.abortcall > 1 \/ ev.abortcall = Len(ev.prog) - 1 ELSE ev.abortcall >= Len(ev.prog) - 3
FaultBad(s, ev) ==
    LET ok == ev.r = "ok"
        foreign == { n \in DOMAIN s.ids : n # s.cur /\ n # ev.target }
        reported == { k \in DOMAIN ev.dir : ev.dir[k][2] = OrigId(s) /\ (ev.dir[k][1] \in {s.cur} \/ ev.dir[k][1] \in Range(ev.mentioned)) }
    IN Clause("crash-safe", ~FsInPlace(ev) => \A d \in DirStates(ev) : Holds(d, OrigId(s)), ev.fault \o ": the original content is nowhere to be found")
    \o Clause("foreign-kept", \A d \in DirStates(ev) : \A n \in foreign : HoldsAt(d, n, s.ids[n]), ev.fault)
    \o Clause("source-kept", ev.target # s.cur => \A d \in DirStates(ev) : HoldsAt(d, s.cur, OrigId(s)), ev.fault)
    \o Clause("backup-reported", (~ok /\ ~FsInPlace(ev)) => reported # {}, ev.r \o ToString(ev.dir) \o ToString(ev.mentioned))
    \o Clause("fault-outcome", ~Verb(ev.r, "!"), ev.r)
    \o Clause("abort-truthful", ev.r = "aborted" => Requested(ev), ev.r)
    \o Clause("abort-honoured", Requested(ev) => (ev.r = "aborted" \/ TooLate(ev)), ev.r \o ToString(<<ev.abortcall, Len(ev.prog)>>))
    \o Clause("abort-untouched", (ev.r = "aborted" /\ ev.fault = "abort") => HoldsAt(ev.dir, s.cur, OrigId(s)) , ToString(ev.dir))

(* --- what the API reports about the tags after parsing --- *)
ApiKnown(k, name) == LET S == { i \in DOMAIN k : k[i][1] = name } IN IF S = {} THEN <<name, FALSE, <<>>, <<>>>> ELSE k[CHOOSE i \in S : TRUE]
ApiNames(t, got) == { n \in Range(FieldNames) : Supports(t, n) } \cup { got.known[i][1] : i \in DOMAIN got.known }
ApiFieldOk(tag, n, a) ==
    IF tag.type = "vorbis" /\ n = "Vendor" THEN (IF a[4] = <<>> THEN Vals(tag.f, "vendor") \in {<<>>, <<"">>} ELSE Vals(tag.f, "vendor") = <<a[4][2]>>) ELSE \* no actual field
    LET got == IF tag.type = "id3v1" /\ n = "Genre" /\ a[3] # <<>> /\ a[3][1][2] = "255" THEN <<n, FALSE, <<>>, <<>>>> ELSE a \* 255: no genre
        toks == IF Supports(tag.type, n) THEN Vals(tag.f, Key(tag.type, n)) ELSE <<>> IN
    /\ Len(toks) = Len(got[3]) /\ \A j \in DOMAIN toks : ApiValOk(tag.type, n, toks[j], got[3][j])
    /\ got[2] = (toks # <<>>)
    /\ IF toks = <<>> THEN got[4] = <<>> ELSE got[4] = got[3][1]
ApiBad(s, ev) ==
    LET exp == SelectSeq(s.tags, LAMBDA t : t.type \in TagTypes)
        headsOk == Len(exp) = Len(ev.tags) /\ \E m \in Perms(Len(exp)) : \A i \in DOMAIN exp : ev.tags[m[i]].type = exp[i].type
        diff(e, g) == { n \in ApiNames(e.type, g) : ~ApiFieldOk(e, n, ApiKnown(g.known, n)) }
        show(e, g) == { ToString(<<e.type, n, IF Supports(e.type, n) THEN Vals(e.f, Key(e.type, n)) ELSE <<>>, ApiKnown(g.known, n)>>) : n \in diff(e, g) }
        ok(e, g) == e.type = g.type /\ diff(e, g) = {}
    IN Clause("api-tags", headsOk, ToString(<<MapSeq(exp, TagHead), [ i \in DOMAIN ev.tags |-> <<ev.tags[i].type, ev.tags[i].target>> ]>>))
       \o Clause("api-values", headsOk => \A i \in DOMAIN exp : \E j \in DOMAIN ev.tags : ok(exp[i], ev.tags[j]),
                 ToString(UNION { UNION { show(exp[i], ev.tags[j]) : j \in { x \in DOMAIN ev.tags : ev.tags[x].type = exp[i].type } } : i \in { x \in DOMAIN exp : ~\E j \in DOMAIN ev.tags : ok(exp[x], ev.tags[j]) } }))

(* --- the tags held by the object while it is being edited --- *)
MemNames(t) == { n \in Range(FieldNames) : Supports(t.type, n) /\ n \notin {"Vendor", "EncoderSettings"} /\ Vals(t.f, Key(t.type, n)) # <<>> }
GotNames(g) == { g.known[i][1] : i \in { x \in DOMAIN g.known : g.known[x][2] /\ g.known[x][1] \notin {"Vendor", "EncoderSettings"} } }
MemBad(s, ev) ==
    LET exp(c) == SelectSeq(s.tags, LAMBDA t : Class(t.type) = c)
        got(c) == SelectSeq(ev.tags, LAMBDA t : Class(t.type) = c)
        heads(ts) == MapSeq(ts, LAMBDA t : t.type)
        ok(c) == Len(exp(c)) = Len(got(c)) /\ \A i \in DOMAIN exp(c) : exp(c)[i].type = got(c)[i].type
        diff(c) == { i \in DOMAIN exp(c) : MemNames(exp(c)[i]) # (GotNames(got(c)[i]) \ (IF c = "v1" /\ "Genre" \notin MemNames(exp(c)[i]) THEN {"Genre"} ELSE {})) }
        C == { c \in {"v1", "v2", "c"} : ok(c) }
    IN Clause("mem-tags", \A c \in {"v1", "v2", "c"} : ok(c), ToString(<<heads(s.tags), heads(ev.tags)>>))
       \o Clause("mem-fields", \A c \in C : diff(c) = {}, ToString({ <<c, { <<MemNames(exp(c)[i]), GotNames(got(c)[i])>> : i \in diff(c) }>> : c \in C }))

IsLossy(tag) == tag.lossy # {} \/ \E k \in DOMAIN Filled(tag.f) : Unstorable(tag.type, k)
Step(s, ev) ==
    CASE ev.op = "begin" -> [ st |-> Fresh(ev), bad |-> <<>> ]
      [] ev.op = "exit" -> [ st |-> s, bad |-> Clause("exit", ev.end = "clean", ev.end \o " " \o ToString(ev.code)) ]
      [] ev.op = "new" -> [ st |-> [ s EXCEPT !.cur = "", !.parsed = FALSE, !.edited = FALSE ], bad |-> <<>> ]
      [] ev.op = "path" -> [ st |-> [ s EXCEPT !.cur = ev.name, !.parsed = FALSE ], bad |-> <<>> ]
      [] ev.op = "parse" ->
            IF ev.what \in {"all", "tags"} /\ s.cur \in DOMAIN s.disk
            THEN [ st |-> [ s EXCEPT !.tags = IF s.parsed THEN @ ELSE AbsTags(s.disk[s.cur]), !.parsed = TRUE ],
                   bad |-> Clause("parse-ok", s.disk[s.cur].errs = <<>> => (ev.r = "ok" /\ \A k \in 1..3 : ev.st[k] \in {1, 2}), ev.r \o ToString(ev.st)) \o ProgressBad(ev) ]
            ELSE [ st |-> s, bad |-> ProgressBad(ev) ]
      [] ev.op = "edit" -> [ st |-> [ s EXCEPT !.tags = Edit(s.fmt, @, ev), !.edited = TRUE ], bad |-> Clause("edit-result", ev.exp = "any" \/ (ev.exp = "ok") = ev.ok, ev.a \o " returned " \o ToString(ev.ok)) ]
      [] ev.op = "dir" -> [ st |-> [ s EXCEPT !.ids = [ n \in DirNames(ev) |-> ev.dir[CHOOSE k \in DOMAIN ev.dir : ev.dir[k][1] = n][2] ], !.names = DirNames(ev),
                                     !.disk = [ n \in DOMAIN @ \cap DirNames(ev) |-> @[n] ] ],
                            bad |-> Clause("crash-safe", (s.pend.kind = "faulty" /\ ~FsInPlace(s.pend.ev)) => Holds(ev.dir, s.pend.pre.id), "the original content is nowhere to be found afterwards")
                                   \o Clause("abort-untouched", (s.pend.kind = "faulty" /\ s.pend.ev.fault = "abort" /\ s.pend.ev.r = "aborted") => HoldsAt(ev.dir, s.pend.src, s.pend.pre.id), ToString(ev.dir)) ]
      [] ev.op = "api" -> [ st |-> s, bad |-> IF s.parsed /\ ~s.edited THEN ApiBad(s, ev) ELSE <<>> ]
      [] ev.op = "mem" -> [ st |-> s, bad |-> IF s.parsed THEN MemBad(s, ev) ELSE <<>> ]
      [] ev.op = "apply" /\ s.cur \notin DOMAIN s.disk -> [ st |-> [ s EXCEPT !.pend = NoApply, !.last = NoApply ], bad |-> Clause("apply-nothing", ev.r # "ok", ev.r) ]
      [] ev.op = "apply" ->
            LET pre == s.disk[s.cur]
                ok == ev.r = "ok"
                faulty == "fault" \in DOMAIN ev
                fault == faulty /\ ev.fault # "none"
            IN [ st |-> [ s EXCEPT !.pend = [ kind |-> IF ok /\ (fault => ev.dl < 4) THEN "applied" ELSE IF fault THEN "faulty" ELSE "failed", ev |-> ev, pre |-> pre, tags |-> s.tags, edited |-> s.edited, target |-> ev.target, src |-> s.cur, hurt |-> s.hurt ],
                                   !.cur = ev.path, !.parsed = FALSE, !.edited = FALSE, !.last = IF ok THEN @ ELSE NoApply, !.names = @ \cup DirNames(ev) ],
                 bad |-> Clause("apply-ok", (pre.errs = <<>> /\ ~fault) => ok, ev.r) \o Clause("apply-critical", (ok /\ ~fault /\ pre.errs = <<>> /\ \A k \in DOMAIN s.tags : ~IsLossy(s.tags[k])) => ev.dl < 4, ev.dmsg)
                         \o Clause("loss-reported", (ok /\ \E k \in DOMAIN s.tags : IsLossy(s.tags[k])) => ev.dl >= 2, ToString({ s.tags[k].lossy : k \in DOMAIN s.tags }))
                         \o Clause("apply-target", ok => ev.target \in DirNames(ev), ev.target)
                         \o Clause("apply-path", ok => ev.path = ev.target, ev.path)
                         \o Clause("apply-stray", ok => StrayOk(s, ev), ToString(ev.dir)) \o (IF faulty THEN FaultBad(s, ev) ELSE <<>>) \o Clause("apply-keeps", (fault /\ ~ok) \/ KeptOk(s, ev), ToString(ev.dir)) \o Clause("apply-backup", (ok /\ ~ev.inplace /\ ev.target = s.cur) => BackupOk(s, ev), ToString(ev.dir))
                         \o ProgressBad(ev) ]
      [] ev.op = "file" ->
            LET p == ev.p
                pe == s.pend
                hit == pe.kind = "applied" /\ pe.target = ev.name
                failed == pe.kind = "failed" /\ ev.name \in DOMAIN s.disk
                other == pe.kind = "applied" /\ pe.target # ev.name /\ ev.name \in DOMAIN s.disk
            IN [ st |-> [ s EXCEPT !.disk = [ n \in DOMAIN @ \cup {ev.name} |-> IF n = ev.name THEN p ELSE @[n] ], !.names = @ \cup {ev.name},
                                   !.last = IF hit THEN [ kind |-> "applied", o |-> pe.ev.o, path |-> pe.target, sha |-> p.sha ] ELSE @,
                                   !.hurt = IF pe.kind = "faulty" /\ (ev.name \notin DOMAIN s.disk \/ s.disk[ev.name].sha # p.sha) THEN @ \cup {ev.name} ELSE IF hit /\ pe.src \notin @ THEN @ \ {ev.name} ELSE @,
                                   !.pend = IF hit THEN NoApply ELSE @ ],
                 bad |-> IF hit THEN (IF pe.src \in pe.hurt THEN <<>> ELSE AppliedBad(s, pe, p))
                         ELSE IF pe.kind = "faulty" THEN <<>>
                         ELSE IF other \/ pe.kind = "none" THEN Clause("untouched", ev.name \in DOMAIN s.disk => s.disk[ev.name].sha = p.sha, ev.name)
                         ELSE IF failed THEN Clause("failed-untouched", s.disk[ev.name].sha = p.sha, ev.name) ELSE <<>> ]
      [] OTHER -> [ st |-> s, bad |-> <<>> ]

Init == ln = 1 /\ st = Fresh([ s |-> "", fmt |-> "" ]) /\ bad = <<>>
Next ==
    \/ /\ ln <= Len(Lines)
       /\ LET ev == Lines[ln]
              r == Step(st, ev)
          IN /\ st' = r.st
             /\ bad' = bad \o [ k \in 1..Len(r.bad) |-> [ s |-> ev.s, line |-> ln, c |-> r.bad[k].c, d |-> r.bad[k].d ] ]
       /\ ln' = ln + 1
    \/ /\ ln = Len(Lines) + 1
       /\ JsonSerialize(IOEnv.OUT, [ lines |-> Len(Lines), bad |-> bad ])
       /\ ln' = ln + 1
       /\ UNCHANGED <<st, bad>>
Spec == Init /\ [][Next]_vars
===============================================================================
