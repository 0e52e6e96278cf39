----------------------------- MODULE MCInfoSets -----------------------------
(* Exports the sets of chapters and attachments of Info for the writers.    *)
EXTENDS Info, Json
VARIABLE x
Init == x = 0 /\ PrintT(<<"SETS", ToJson([ ch |-> ChapterSets, at |-> AttachmentSets, sg |-> Signatures ])>>)
Next == UNCHANGED x
=============================================================================
