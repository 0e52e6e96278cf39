------------------------------ MODULE RobustTrace ------------------------------
(***************************************************************************)
(* Checks recorded runs on damaged files: one line per run.                  *)
(*  m: mode, size, r: outcome of parsing, pdl: worst diagnostic of it, rl:   *)
(*  outcome of accessing everything reported, r2: outcome of applying,       *)
(*  adl: worst diagnostic of that, same: file unchanged, before/after: tags  *)
(*  (numbered per scenario), title: the ones which have been edited, ar:     *)
(*  outcome of parsing the result, proj: payload before and after according  *)
(*  to independent readers.                                                  *)
(***************************************************************************)
EXTENDS Damage, Json, IOUtils, TLC
TF == INSTANCE TagFile
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES ln, bad
Ev == Trace[ln]
Init == ln = 1 /\ bad = <<>>
B(c, d) == [ s |-> Ev.s, line |-> ln, c |-> c, d |-> d ]
Is(ok, c, d) == IF ok THEN <<>> ELSE <<B(c, d)>>
S(x) == { x[i] : i \in DOMAIN x }
What == Ev.m \o " " \o Ev.cmd
Applied == Ev.m # "p" /\ Ev.r2 # "-"
Run ==
    Is(ParseOutcome(Ev.r) /\ Ev.rl \in {"ok", "-"}, "rob-outcome", What \o ": parsing " \o Ev.r \o ", accessing " \o Ev.rl)
    \o Is(Ev.m # "p" \/ Ev.same, "rob-untouched", What)
    \o Is(Ev.ms <= MsLimit(Ev.size), "rob-time", What \o ": " \o ToString(Ev.ms) \o " ms")
    \o Is(Ev.kb <= KbLimit(Ev.size), "rob-memory", What \o ": " \o ToString(Ev.kb) \o " KiB")
    \o IF ~Applied THEN <<>> ELSE
       LET e == Ended(Ev.r2, Ev.same, Ev.adl) IN
       Is(ApplyOutcome(Ev.r2), "rob-outcome", What \o ": applying " \o Ev.r2)
       \o Is(e.disk # "mixed", "rob-failed-untouched", What \o ": " \o Ev.r2 \o " " \o Ev.crit)
       \o Is(e.disk = "mixed" \/ Fine(e), "rob-reported", What \o ": " \o Ev.r2)
       \o IF Ev.r2 # "ok" THEN <<>> ELSE
          Is(ParseOutcome(Ev.ar), "rob-reparse", What \o ": " \o Ev.ar)
          \o (IF Ev.m \in {"r", "c"} \/ Ev.ar # "ok" THEN <<>> ELSE
              LET lost == (S(Ev.before) \ S(Ev.title)) \ S(Ev.after) IN Is(lost = {} \/ Ev.lossok, "rob-tags", What \o ": lost " \o ToString({ Ev.names[x] : x \in lost })))
          \o (IF Ev.proj = <<>> THEN <<>> ELSE
              LET b == Ev.proj[1] a == Ev.proj[2] IN
              LET told == Ev.pdl >= 4 \/ Ev.adl >= 4 IN (* damage has been reported as critical: only the media data must be kept *)
              Is(told \/ b.errs # <<>> \/ a.errs = <<>>, "rob-wellformed", What \o ": " \o ToString(a.errs))
              \o Is(b.errs # <<>> \/ (a.media = b.media /\ (told \/ TF!RefsKept(b, a))), "rob-payload", What \o ": " \o IF a.media # b.media THEN "media" ELSE TF!RefsDiff(b, a)))
Exit == Is(Ev.end = "clean", "rob-crash", Ev.cmd \o ": " \o Ev.end \o " " \o Ev.why)
Line == /\ ln <= Len(Trace) /\ ln' = ln + 1
        /\ bad' = bad \o (CASE Ev.op = "rob" -> Run [] Ev.op = "exit" -> Exit [] OTHER -> <<>>)
Output == /\ ln = Len(Trace) + 1 /\ ln' = ln + 1 /\ UNCHANGED bad
         /\ JsonSerialize(IOEnv.OUT, [ lines |-> Len(Trace), bad |-> bad ])
Next == Line \/ Output
Spec == Init /\ [][Next]_<<ln, bad>>
===============================================================================
