------------------------------- MODULE TagFile -------------------------------
(***************************************************************************)
(* The abstract view of a media file and of the object which edits it.      *)
(*                                                                          *)
(* A file is what an independent reader of its format can see of it:        *)
(*   media  - the payload units in their order                              *)
(*   refs   - what the positions stored in the file designate               *)
(*   others - all metadata which is not a tag                               *)
(*   tags   - <<[type, target, fields]>>, pad, tagpos, idxpos, size, sha    *)
(*   errs   - structural rules the file violates                            *)
(* The operators below say how operations of the library transform the      *)
(* model of the tags and what a file must look like after changes have been *)
(* applied.  They are used by the exhaustively checked design (MC*.tla) and *)
(* by the trace specification (FileTrace.tla) alike.                        *)
(***************************************************************************)
EXTENDS Formats

Range(s) == { s[i] : i \in DOMAIN s }
MapSeq(s, Op(_)) == [ i \in 1..Len(s) |-> Op(s[i]) ]
Class(t) == IF t = "id3v1" THEN "v1" ELSE IF t \in V2Types THEN "v2" ELSE "c"

(* ------------------------------ tag models ------------------------------ *)
NatOf(fields) == [ id \in { fields[i][1] : i \in DOMAIN fields } |-> (CHOOSE i \in DOMAIN fields : fields[i][1] = id) ]
FieldsOf(fields) == LET ix == NatOf(fields) IN [ id \in DOMAIN ix |-> fields[ix[id]][2] ]
AbsTag(t) == [ type |-> t.type, target |-> t.target, f |-> AbsFields(t.type, FieldsOf(t.fields)), new |-> {}, lossy |-> {} ]
AbsTags(p) == MapSeq(p.tags, AbsTag)

(* ID3v2.2 has no identifiers for some fields: those can not be stored when the version of a tag is changed (the loss is reported) *)
Unstorable(type, k) == type = "id3v2.2" /\ k \in (DOMAIN IdMap["id3v2.4"] \cup DOMAIN IdMap["id3v2.3"]) \ DOMAIN IdMap["id3v2.2"]
Storable(tag) == [ tag EXCEPT !.f = [ k \in { x \in DOMAIN @ : ~Unstorable(tag.type, x) } |-> @[k] ] ]
(* fields holding at least one value *)
Filled(f) == [ k \in { x \in DOMAIN f : f[x] # <<>> } |-> f[k] ]
IsEmptyTag(tag) == DOMAIN Filled(tag.f) \subseteq {"vendor"} 

NewTag(type, target) == [ type |-> type, target |-> target, f |-> << >>, new |-> {}, lossy |-> {} ]
SetKey(f, k, v) == [ x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x] ]
DropKey(f, k) == [ x \in DOMAIN f \ {k} |-> f[x] ]
Vals(f, k) == IF k \in DOMAIN f THEN f[k] ELSE << >>

(* Index of the n-th (0-based) tag of a class or 0 *)
IndexOf(tags, c, n) ==
    LET S == { i \in DOMAIN tags : Class(tags[i].type) = c /\ Cardinality({ j \in 1..(i - 1) : Class(tags[j].type) = c }) = n }
    IN IF S = {} THEN 0 ELSE CHOOSE i \in S : TRUE

(* setValues replaces all values; setValue replaces the first value only *)
SetValuesIn(tag, k, toks) ==
    [ tag EXCEPT !.f = IF toks = <<>> THEN DropKey(@, k) ELSE SetKey(@, k, toks), !.new = @ \cup {k} ]
SetValueIn(tag, k, toks) ==
    LET old == Vals(tag.f, k)
        rest == IF old = <<>> THEN <<>> ELSE Tail(old)
    IN SetValuesIn(tag, k, toks \o rest)
Singular(t) == t \in {"id3v1", "mp4"}

SetField(tags, i, ev) ==
    LET t == tags[i].type
        k == IF ev.name = "" THEN ev.id ELSE Key(t, ev.name)
        kept == SelectSeq(ev.vals, LAMBDA v : ~NotStorable(t, ev.name, v))
        toks == [ j \in 1..Len(kept) |-> Render(t, ev.name, kept[j]) ]
        lost == ev.name # "" /\ \E j \in DOMAIN ev.vals : Lossy(t, ev.name, ev.vals[j])
    IN [ tags EXCEPT ![i].lossy = IF lost THEN @ \cup {k} ELSE @ \ {k}, ![i] = IF ev.a = "setvals" THEN SetValuesIn(@, k, toks) ELSE SetValueIn(@, k, toks) ]

(* insertValues: transfers the fields known to both tag types *)
CommonNames(a, b) == DOMAIN IdMap[a] \cap DOMAIN IdMap[b]
InsertValues(dst, src, overwrite) ==
    LET names == { n \in CommonNames(dst.type, src.type) : Vals(src.f, Key(src.type, n)) # <<>> /\ (overwrite \/ Vals(dst.f, Key(dst.type, n)) = <<>>) }
        ks == { Key(dst.type, n) : n \in names }
        nameOf(k) == CHOOSE n \in names : Key(dst.type, n) = k
    IN [ dst EXCEPT !.f = [ k \in DOMAIN dst.f \cup ks |-> IF k \in ks THEN Transfer(src.type, dst.type, nameOf(k), src.f[Key(src.type, nameOf(k))]) ELSE dst.f[k] ] ]

RemoveAt(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
RemoveClass(tags, c) == SelectSeq(tags, LAMBDA t : Class(t.type) # c)

(* Merging: the first ID3v2 tag receives what it lacks from the others; frames unknown to both sides are kept as well.  Of frames which carry a       *)
(* description and a language there is one per description and language.                                                                              *)
DescKey(tok) == Prefix(tok, IF IsDescribed(tok) THEN NthBar(tok, 2) ELSE 0)
MergeVals(own, from) ==
    IF own = <<>> THEN from
    ELSE IF \A i \in DOMAIN own : IsDescribed(own[i]) THEN own \o SelectSeq(from, LAMBDA v : \A i \in DOMAIN own : DescKey(own[i]) # DescKey(v))
    ELSE own
MergeV2(tags) ==
    LET vs == SelectSeq(tags, LAMBDA t : Class(t.type) = "v2")
        RECURSIVE Fold(_, _)
        Fold(acc, i) == IF i > Len(vs) THEN acc
                        ELSE Fold([ acc EXCEPT !.f = [ k \in DOMAIN acc.f \cup DOMAIN vs[i].f |-> MergeVals(Vals(acc.f, k), Vals(vs[i].f, k)) ] ], i + 1)
        merged == Fold(vs[1], 2)
        first == IndexOf(tags, "v2", 0)
    IN IF Len(vs) < 2 THEN tags
       ELSE [ i \in 1..Cardinality({ j \in DOMAIN tags : Class(tags[j].type) # "v2" \/ j = first }) |->
              LET keep == SelectSeq([ j \in 1..Len(tags) |-> j ], LAMBDA j : Class(tags[j].type) # "v2" \/ j = first)
              IN IF keep[i] = first THEN merged ELSE tags[keep[i]] ]

(* createAppropriateTags *)
Id3Formats == {"mp3", "aac", "wavpack", "aiff"}
AddV1(tags) == Append(tags, NewTag("id3v1", ""))
AddV2(tags, ver) == <<NewTag(V2Type(ver), "")>> \o tags
CreateId3(tags, p) ==
    LET has1 == IndexOf(tags, "v1", 0) # 0
        has2 == IndexOf(tags, "v2", 0) # 0
        RECURSIVE InsAll(_, _, _, _)
        InsAll(dst, srcs, i, ow) == IF i > Len(srcs) THEN dst ELSE InsAll(InsertValues(dst, srcs[i], ow), srcs, i + 1, ow)
        V2s(ts) == SelectSeq(ts, LAMBDA t : Class(t.type) = "v2")
        a1 == IF p.v1 = "always" /\ ~has1
              THEN Append(tags, IF p.init THEN InsAll(NewTag("id3v1", ""), V2s(tags), 1, TRUE) ELSE NewTag("id3v1", "")) ELSE tags
        a2 == IF p.v2 = "always" /\ ~has2
              THEN <<IF p.init /\ IndexOf(a1, "v1", 0) # 0 THEN InsertValues(NewTag(V2Type(p.ver), ""), a1[IndexOf(a1, "v1", 0)], TRUE) ELSE NewTag(V2Type(p.ver), "")>> \o a1 ELSE a1
        a3 == IF p.merge THEN MergeV2(a2) ELSE a2
        i1 == IndexOf(a3, "v1", 0)
        i2 == IndexOf(a3, "v2", 0)
        a4 == IF p.v1 = "never" /\ i1 # 0
              THEN RemoveClass(IF p.transfer /\ i2 # 0 THEN [ a3 EXCEPT ![i2] = InsertValues(@, a3[i1], FALSE) ] ELSE a3, "v1") ELSE a3
        j1 == IndexOf(a4, "v1", 0)
        a5 == IF p.v2 = "never"
              THEN RemoveClass(IF p.transfer /\ j1 # 0 THEN [ a4 EXCEPT ![j1] = InsAll(@, V2s(a4), 1, FALSE) ] ELSE a4, "v2")
              ELSE IF ~p.keepver THEN [ i \in DOMAIN a4 |-> IF Class(a4[i].type) = "v2" THEN [ a4[i] EXCEPT !.type = V2Type(p.ver) ] ELSE a4[i] ] ELSE a4
    IN a5
(* containers: one tag (per target where targets are supported) *)
ContainerTagType(fmt) == CASE fmt = "mp4" -> "mp4" [] fmt = "mkv" -> "matroska" [] OTHER -> "vorbis"
HasTarget(tags, tg) == \E i \in DOMAIN tags : tags[i].target = tg
CreateContainer(fmt, tags, p) ==
    IF fmt = "mkv" /\ p.targets # <<>>
    THEN LET RECURSIVE Add(_, _)
             Add(ts, i) == IF i > Len(p.targets) THEN ts ELSE Add(IF HasTarget(ts, p.targets[i]) THEN ts ELSE Append(ts, NewTag("matroska", p.targets[i])), i + 1)
         IN Add(tags, 1)
    ELSE IF \E i \in DOMAIN tags : Class(tags[i].type) = "c" THEN tags
    ELSE Append(tags, NewTag(ContainerTagType(fmt), IF fmt = "mkv" THEN "level=50" ELSE ""))
Create(fmt, tags, p) == IF fmt \in Id3Formats THEN CreateId3(tags, p) ELSE CreateContainer(fmt, tags, p)

ConvertParams(v1, v2) == [ v1 |-> v1, v2 |-> v2, ver |-> 3, init |-> TRUE, transfer |-> TRUE, merge |-> TRUE, keepver |-> TRUE, targets |-> <<>> ]
Make(fmt, tags, ev) ==
    CASE ev.c = "v1" -> IF IndexOf(tags, "v1", 0) # 0 THEN tags ELSE AddV1(tags)
      [] ev.c = "v2" -> IF IndexOf(tags, "v2", 0) # 0 THEN tags ELSE AddV2(tags, 4)
      [] OTHER -> CreateContainer(fmt, tags, [ targets |-> IF ev.target = "" THEN <<>> ELSE <<ev.target>> ])
(* The model of the tags after an edit event *)
Edit(fmt, tags, ev) ==
    LET i == IF "c" \in DOMAIN ev THEN IndexOf(tags, ev.c, ev.n) ELSE 0 IN
    CASE ev.a \in {"set", "setvals"} -> IF i # 0 /\ (ev.name = "" \/ Supports(tags[i].type, ev.name)) THEN SetField(tags, i, ev) ELSE tags
      [] ev.a = "rmall" -> <<>>
      [] ev.a = "rm" -> IF i # 0 THEN RemoveAt(tags, i) ELSE tags
      [] ev.a = "rmfields" -> IF i # 0 THEN [ tags EXCEPT ![i].f = << >> ] ELSE tags
      [] ev.a = "rmclass" -> RemoveClass(tags, ev.c)
      [] ev.a = "merge" -> MergeV2(tags)
      [] ev.a = "create" -> Create(fmt, tags, ev)
      [] ev.a = "mk" -> Make(fmt, tags, ev)
      [] ev.a = "v1tov2" -> IF fmt \in Id3Formats /\ IndexOf(tags, "v1", 0) # 0 THEN CreateId3(tags, ConvertParams("never", "always")) ELSE tags
      [] ev.a = "v2tov1" -> IF fmt \in Id3Formats /\ IndexOf(tags, "v2", 0) # 0 THEN CreateId3(tags, ConvertParams("always", "never")) ELSE tags
      [] ev.a = "ver" -> IF i # 0 THEN [ tags EXCEPT ![i].type = V2Type(ev.ver) ] ELSE tags
      [] ev.a = "target" -> IF i # 0 THEN [ tags EXCEPT ![i].target = ev.target ] ELSE tags
      [] OTHER -> tags

(* --------------------------- applying changes --------------------------- *)
(* A field of a Matroska tag which did not exist before may or may not carry an explicit default flag. *)
SameToken(t, isNew, exp, got) == exp = got \/ (t = "matroska" /\ isNew /\ BeforeBrace(got) = BeforeBrace(exp)) \/ (t = "mp4" /\ isNew /\ got = "utf16:" \o exp)
(* a genre of an ID3v2 tag may be given by its name or by its index *)
SameVals(t, k, isNew, exp, got) == Len(exp) = Len(got) /\ \A i \in DOMAIN exp : IF t \in V2Types /\ k = "Genre" THEN GenreName(exp[i]) = GenreName(got[i]) ELSE SameToken(t, isNew, exp[i], got[i])
FieldDiff(tag, got) == \* keys whose values differ
    LET e == Filled(tag.f) g == Filled(got.f)
    IN { k \in DOMAIN e \cup DOMAIN g : k # "vendor" /\ ~SameVals(tag.type, k, k \in tag.new, Vals(e, k), Vals(g, k)) }
Kept(tags) == SelectSeq(tags, LAMBDA t : ~IsEmptyTag(t))
TagHead(t) == <<t.type, t.target>>
(* The differences between the expected and the found tags as a set of descriptions *)
TagDiff(exp, got) ==
    LET e == Kept(MapSeq(exp, Storable)) g == Kept(got)
        \* the logical stream a new Vorbis comment ends up in is not prescribed
        headsOk == Len(e) = Len(g) /\ \A i \in DOMAIN e : e[i].type = g[i].type /\ (e[i].target = g[i].target \/ (e[i].type = "vorbis" /\ e[i].target = ""))
    IN IF ~headsOk THEN { "tags:" \o ToString(MapSeq(e, TagHead)) \o " found " \o ToString(MapSeq(g, TagHead)) }
       ELSE UNION { { e[i].type \o "." \o k \o " expected " \o ToString(Vals(e[i].f, k)) \o " found " \o ToString(Vals(g[i].f, k)) : k \in FieldDiff(e[i], g[i]) } : i \in DOMAIN e }

IsSeek(r) == Len(r) > 5 /\ SubSeq(r, 1, 5) = "seek:"
Vanished(post, r) == \/ (post.tags = <<>> /\ Len(r) >= 9 /\ SubSeq(r, 1, 9) = "seek:Tags")
                     \/ (Len(r) >= 16 /\ SubSeq(r, 1, 16) = "seek:Attachments" /\ \A i \in DOMAIN post.others : ~(Len(post.others[i]) > 4 /\ SubSeq(post.others[i], 1, 4) = "att."))
                     \/ (Len(r) >= 9 /\ SubSeq(r, 1, 9) = "seek:Void")
RefsKept(pre, post) ==
    /\ SelectSeq(pre.refs, LAMBDA r : ~IsSeek(r)) = SelectSeq(post.refs, LAMBDA r : ~IsSeek(r))
    /\ \A r \in Range(pre.refs) : IsSeek(r) => (r \in Range(post.refs) \/ Vanished(post, r))
RefsDiff(pre, post) == ToString({ r \in Range(pre.refs) : r \notin Range(post.refs) }) \o " -> " \o ToString({ r \in Range(post.refs) : r \notin Range(pre.refs) })

(* Padding: which amounts a format can represent at all, and what it makes of the preferred amount. *)
Representable(fmt, n) == CASE fmt = "mp4" -> n = 0 \/ n >= 8 [] fmt = "mkv" -> n # 1 [] OTHER -> n >= 0
HasPadding(fmt, p) == fmt \in {"mkv", "mp4", "flac"} \/ (fmt = "mp3" /\ \E i \in DOMAIN p.tags : p.tags[i].type \in V2Types)
PaddingMatches(fmt, pref, pad, post) ==
    CASE ~HasPadding(fmt, post) -> TRUE
      [] fmt = "mkv" -> pad = pref \/ (pref = 1 /\ pad \in {0, 2})
      [] fmt = "mp4" -> pad = pref \/ (pref < 8 /\ pad \in {0, 8})
      [] fmt = "flac" -> pad \in {pref, pref + 4} \* the header of the padding block may or may not count
      [] OTHER -> pad = pref
(* Where tags and index may be found afterwards.  In MP4 files both are part of the moov atom: the forced position wins, the tag position if both or  *)
(* none are forced; it is always placed before the fragments of a fragmented file.  Without force, an update in place may put it at the end.           *)
Fragmented(p) == \E i \in DOMAIN p.media : Len(p.media[i]) > 4 /\ SubSeq(p.media[i], 1, 4) = "moof"
AnyPos == {"none", "before", "after"}
Mp4Positions(o, inplace, pre) ==
    LET want == IF o.ftag \/ ~o.findex THEN o.tag ELSE o.index
        eff == IF Fragmented(pre) THEN "before" ELSE IF want = "keep" THEN pre.tagpos ELSE want
    IN IF pre.media = <<>> THEN AnyPos ELSE {eff} \cup (IF inplace /\ ~o.ftag /\ ~o.findex /\ ~Fragmented(pre) THEN {"after"} ELSE {})
TagPositions(fmt, o, inplace, pre) ==
    CASE fmt = "mp4" -> Mp4Positions(o, inplace, pre)
      [] fmt = "mkv" /\ o.tag # "keep" /\ (o.ftag \/ ~inplace) -> {"none", o.tag}
      [] OTHER -> AnyPos
IndexPositions(fmt, o, inplace, pre) ==
    CASE fmt = "mp4" -> Mp4Positions(o, inplace, pre)
      [] fmt = "mkv" /\ o.index # "keep" /\ (o.findex \/ ~inplace) -> {"none", o.index}
      [] OTHER -> AnyPos
===============================================================================
