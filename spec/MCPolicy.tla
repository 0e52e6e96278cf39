------------------------------ MODULE MCPolicy ------------------------------
(***************************************************************************)
(* The policy of creating, converting and removing tags (TagFile!Create,    *)
(* Edit) explored exhaustively: every configuration of existing tags x      *)
(* every combination of settings, followed by further operations up to      *)
(* Depth.  The properties say what a user may rely on independent of how    *)
(* the operators are written; every transition is exported as a plan which  *)
(* is replayed on real files.                                               *)
(***************************************************************************)
EXTENDS TagFile, Json
CONSTANTS Fmt, Depth, Few
VARIABLES tags, cfg, hist
vars == <<tags, cfg, hist>>

T(s) == [ k |-> "text", s |-> s, lang |-> "", desc |-> "", enc |-> "u8" ]
MkTag(type, target, fields) == \* fields: sequence of <<name, text>>
    [ NewTag(type, target) EXCEPT !.f = [ k \in { Key(type, fields[i][1]) : i \in DOMAIN fields } |->
        LET i == CHOOSE i \in DOMAIN fields : Key(type, fields[i][1]) = k IN << Render(type, fields[i][1], T(fields[i][2])) >> ] ]
C1(x) == << "id3v1", "", x >>
C2(v, x) == << V2Type(v), "", x >>
Ti(s) == <<"Title", s>>
Ar(s) == <<"Artist", s>>
Al(s) == <<"Album", s>>
Co(s) == <<"Comment", s>>
Id3Configs == {
    << >>,
    << C1(<<Ti("t1"), Ar("a1")>>) >>,
    << C2(2, <<Ti("t2"), Al("l2"), <<"Composer", "c2">>>>) >>,
    << C2(3, <<Ti("t3"), Co("k3"), <<"RecordDate", "2003">>>>) >>,
    << C2(4, <<Ti("t4"), <<"Mood", "m4">>, <<"RecordDate", "2004">>>>) >>,
    << C2(3, <<Ti("t3")>>), C1(<<Ti("t1"), Ar("a1"), <<"Genre", "Rock">>>>) >>,
    << C2(4, <<Al("l4"), Co("k4")>>), C1(<<Ti("t1"), Co("k1"), Al("l1")>>) >>,
    << C2(3, <<Ti("x3"), Al("y3")>>), C2(3, <<Ti("t3"), Ar("a3"), Co("k3")>>) >>,
    << C2(4, <<Ti("x4")>>), C2(3, <<Ar("a3"), <<"RecordDate", "2003">>>>), C2(2, <<Al("l2"), Ar("z2")>>) >>,
    << C2(2, <<Ti("t2")>>), C2(4, <<Ti("x4"), <<"Mood", "m4">>>>), C1(<<Ar("a1")>>) >> }
Tg == {"level=50", "level=30", "level=50|T=1002"}
MkvConfigs == { <<>>, << <<"matroska", "level=50", <<Ti("a")>>>> >>, << <<"matroska", "level=30", <<Ti("a")>>>> >>,
                << <<"matroska", "level=50", <<Ti("a")>>>>, <<"matroska", "level=30", <<Ti("b"), Ar("c")>>>> >>,
                << <<"matroska", "level=50|T=1002", <<Ti("a")>>>>, <<"matroska", "level=50", <<Ti("b")>>>>, <<"matroska", "level=30", <<Ti("c")>>>> >> }
OtherConfigs == { IF Fmt = "ogg" THEN << <<"vorbis", "", <<>>>> >> ELSE <<>>, << <<ContainerTagType(Fmt), "", <<Ti("a"), Ar("b")>>>> >> }
Configs == CASE Fmt \in Id3Formats -> Id3Configs [] Fmt = "mkv" -> MkvConfigs [] OTHER -> OtherConfigs

Usage == {"always", "keep", "never"}
TargetSeqs == IF Fmt = "mkv" THEN { <<>>, <<"level=50">>, <<"level=30">>, <<"level=30", "level=50">>, <<"level=50|T=1002", "level=70">>, <<"level=50", "level=50">> }
              ELSE IF Fmt \in Id3Formats THEN { <<>> } ELSE { <<>>, <<"level=30">>, <<"level=30", "level=50">> }
Params == { p \in [ v1 : Usage, v2 : Usage, ver : {2, 3, 4}, init : BOOLEAN, transfer : BOOLEAN, merge : BOOLEAN, keepver : BOOLEAN, targets : TargetSeqs ] :
              /\ Fmt \notin Id3Formats => (~p.init /\ ~p.merge /\ p.ver = 3 /\ p.keepver /\ p.transfer /\ p.v1 = "keep")
              /\ Few => (p.ver \in {2, 4} /\ p.init = p.transfer /\ p.merge = p.keepver)
              /\ p.v2 = "never" => (p.ver = (IF Few THEN 4 ELSE 3) /\ p.keepver) }
ModelCfg(c) == [ i \in DOMAIN c |-> MkTag(c[i][1], c[i][2], c[i][3]) ]
Init == /\ cfg \in Configs
        /\ tags = ModelCfg(cfg)
        /\ hist = <<>>
Do(ev) == /\ tags' = Edit(Fmt, tags, ev)
          /\ hist' = Append(hist, ev)
          /\ UNCHANGED cfg
          /\ PrintT(<<"PLAN", ToJson([ cfg |-> cfg, ops |-> hist', heads |-> [ i \in DOMAIN tags' |-> TagHead(tags'[i]) ] ])>>)
CreateEv(p) == [ a |-> "create", v1 |-> p.v1, v2 |-> p.v2, ver |-> p.ver, init |-> p.init, transfer |-> p.transfer, merge |-> p.merge, keepver |-> p.keepver, targets |-> p.targets ]
Classes == { Class(tags[i].type) : i \in DOMAIN tags }
Num(c) == Cardinality({ i \in DOMAIN tags : Class(tags[i].type) = c })
Next == /\ Len(hist) < Depth
        /\ \/ \E p \in Params : Do(CreateEv(p))
           \/ \E c \in Classes : \E n \in 0..(Num(c) - 1) : Do([ a |-> "rm", c |-> c, n |-> n ])
           \/ \E c \in Classes : \E n \in 0..(Num(c) - 1) : Do([ a |-> "rmfields", c |-> c, n |-> n ])
           \/ tags # <<>> /\ Do([ a |-> "rmall" ])
           \/ Fmt \in Id3Formats /\ ( \/ \E a \in {"merge", "v1tov2", "v2tov1"} : Do([ a |-> a ])
                                      \/ \E c \in {"v1", "v2"} : Do([ a |-> "rmclass", c |-> c ])
                                      \/ \E c \in {"v1", "v2"} : Do([ a |-> "mk", c |-> c, target |-> "" ])
                                      \/ \E v \in {2, 3, 4} : \E n \in 0..(Num("v2") - 1) : Do([ a |-> "ver", c |-> "v2", n |-> n, ver |-> v ]) )
           \/ Fmt \notin Id3Formats /\ \E tg \in (IF Fmt = "mkv" THEN Tg ELSE {""}) : Do([ a |-> "mk", c |-> "c", target |-> tg ])
           \/ \E c \in Classes : \E x \in {"Artist", "Comment"} : Do([ a |-> "set", c |-> c, n |-> 0, name |-> x, vals |-> << T("new" \o ToString(Len(hist))) >> ])
Spec == Init /\ [][Next]_vars
View == <<tags, IF Len(hist) < Depth THEN Len(hist) ELSE 0>>

(* ------------------------------ properties ------------------------------ *)
Ev == hist'[Len(hist')]
IsCreate == Len(hist') > Len(hist) /\ Ev.a = "create"
Of(ts, c) == SelectSeq(ts, LAMBDA t : Class(t.type) = c)
Holds(t, k) == Vals(t.f, k) # <<>>
(* exactly the usage which has been asked for *)
UsageOK == [][ IsCreate /\ Fmt \in Id3Formats =>
    /\ (Ev.v1 = "never" => Of(tags', "v1") = <<>>) /\ (Ev.v1 = "always" => Len(Of(tags', "v1")) = 1) /\ (Ev.v1 = "keep" => Len(Of(tags', "v1")) = Len(Of(tags, "v1")))
    /\ (Ev.v2 = "never" => Of(tags', "v2") = <<>>) /\ (Ev.v2 = "always" => Of(tags', "v2") # <<>>) /\ (Ev.v2 = "keep" /\ ~Ev.merge => Len(Of(tags', "v2")) = Len(Of(tags, "v2")))
    /\ (Ev.merge => Len(Of(tags', "v2")) <= 1)
    /\ (~Ev.merge /\ Ev.v2 # "never" => Len(Of(tags', "v2")) >= Len(Of(tags, "v2"))) ]_vars
VersionOK == [][ IsCreate /\ Fmt \in Id3Formats =>
    \A i \in DOMAIN tags' : Class(tags'[i].type) = "v2" =>
        IF ~Ev.keepver \/ Of(tags, "v2") = <<>> THEN tags'[i].type = V2Type(Ev.ver) ELSE \E j \in DOMAIN tags : tags[j].type = tags'[i].type ]_vars
(* values of the tag which remains are never overwritten *)
FirstKept == [][ IsCreate => \A c \in {"v1", "v2"} : Of(tags, c) # <<>> /\ Of(tags', c) # <<>> =>
    \A k \in DOMAIN Of(tags, c)[1].f : Holds(Of(tags, c)[1], k) => Of(tags', c)[1].f[k] = Of(tags, c)[1].f[k] ]_vars
(* merging loses no field *)
MergeOK == [][ (IsCreate /\ Ev.v2 # "never") \/ (Len(hist') > Len(hist) /\ Ev.a = "merge") =>
    \A i \in DOMAIN tags : Class(tags[i].type) = "v2" => \A k \in DOMAIN tags[i].f : Holds(tags[i], k) => \E j \in DOMAIN tags' : Class(tags'[j].type) = "v2" /\ Holds(tags'[j], k) ]_vars
(* transferring on removal loses no field the remaining tag can hold *)
TransferOK == [][ (IsCreate /\ Ev.transfer) \/ (Len(hist') > Len(hist) /\ Ev.a \in {"v1tov2", "v2tov1"}) =>
    \A i \in DOMAIN tags : \A n \in DOMAIN IdMap[tags[i].type] : Holds(tags[i], Key(tags[i].type, n)) =>
        (tags' = <<>> \/ \E j \in DOMAIN tags' : ~Supports(tags'[j].type, n) \/ Holds(tags'[j], Key(tags'[j].type, n))) ]_vars
(* targets: each required target has a tag, nothing else is touched *)
TargetOK == [][ IsCreate /\ Fmt \notin Id3Formats =>
    /\ \A i \in DOMAIN tags : tags'[i] = tags[i]
    /\ tags' # <<>>
    /\ Fmt = "mkv" => \A i \in DOMAIN Ev.targets : \E j \in DOMAIN tags' : tags'[j].target = Ev.targets[i]
    /\ Len(tags') - Len(tags) <= (IF Fmt = "mkv" /\ Ev.targets # <<>> THEN Cardinality(Range(Ev.targets)) ELSE IF tags = <<>> THEN 1 ELSE 0) ]_vars
(* asking twice changes nothing further *)
IdempotentOK == [][ IsCreate => Edit(Fmt, tags', Ev) = tags' ]_vars
(* removal affects precisely the tag meant *)
RemovalOK == [][ Len(hist') > Len(hist) =>
    CASE Ev.a = "rm" -> Len(tags') = Len(tags) - 1 /\ \A i \in DOMAIN tags' : \E j \in {i, i + 1} : tags'[i] = tags[j]
      [] Ev.a = "rmall" -> tags' = <<>>
      [] Ev.a = "rmclass" -> Of(tags', Ev.c) = <<>> /\ \A c \in {"v1", "v2"} \ {Ev.c} : Of(tags', c) = Of(tags, c)
      [] Ev.a = "rmfields" -> Len(tags') = Len(tags) /\ Cardinality({ i \in DOMAIN tags : tags'[i].f # tags[i].f }) <= 1
      [] OTHER -> TRUE ]_vars
===============================================================================
