------------------------------- MODULE Formats -------------------------------
(***************************************************************************)
(* What the tag formats can hold and how values look like in them.  The     *)
(* tables follow the published format specifications (ID3v1.1, ID3v2.2-2.4, *)
(* Vorbis comments, iTunes metadata, Matroska tags).                        *)
(* Everything here speaks about *observable* text tokens: a value is the     *)
(* token an independent reader of the format reports for it.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

FieldNames == <<"Title", "Album", "Artist", "Genre", "Comment", "Bpm", "Bps", "Lyricist", "TrackPosition", "DiskPosition", "PartNumber",
"TotalParts", "Encoder", "RecordDate", "Performers", "Length", "Language", "EncoderSettings", "Lyrics", "SynchronizedLyrics", "Grouping",
"RecordLabel", "Cover", "Composer", "Rating", "Description", "Vendor", "AlbumArtist", "ReleaseDate", "Subtitle", "LeadPerformer", "Arranger",
"Conductor", "Director", "AssistantDirector", "DirectorOfPhotography", "SoundEngineer", "ArtDirector", "ProductionDesigner", "Choregrapher",
"CostumeDesigner", "Actor", "Character", "WrittenBy", "ScreenplayBy", "EditedBy", "Producer", "Coproducer", "ExecutiveProducer", "DistributedBy",
"MasteredBy", "EncodedBy", "MixedBy", "RemixedBy", "ProductionStudio", "ThanksTo", "Publisher", "Mood", "OriginalMediaType", "ContentType",
"Subject", "Keywords", "Summary", "Synopsis", "InitialKey", "Period", "LawRating", "EncodingDate", "TaggingDate", "OriginalReleaseDate",
"DigitalizationDate", "WritingDate", "PurchasingDate", "RecordingLocation", "CompositionLocation", "ComposerNationality", "PlayCounter", "Measure",
"Tuning", "ISRC", "MCDI", "ISBN", "Barcode", "CatalogNumber", "LabelCode", "LCCN", "IMDB", "TMDB", "TVDB", "PurchaseItem", "PurchaseInfo",
"PurchaseOwner", "PurchasePrice", "PurchaseCurrency", "Copyright", "ProductionCopyright", "License", "TermsOfUse", "PublisherWebpage",
"StoreDescription", "MediaType", "PerformerWebpage", "ContentRating">>
V1Ids ==
    { <<"Title", "title">>,  <<"Album", "album">>,  <<"Artist", "artist">>,  <<"Genre", "genre">>,  <<"Comment", "comment">>,  <<"TrackPosition",
"track">>,  <<"RecordDate", "year">> }
V22Ids ==
    { <<"Title", "TT2">>,  <<"Album", "TAL">>,  <<"Artist", "TP1">>,  <<"Genre", "TCO">>,  <<"Comment", "COM">>,  <<"Bpm", "TBP">>,  <<"Lyricist",
"TXT">>,  <<"TrackPosition", "TRK">>,
      <<"DiskPosition", "TPA">>,  <<"Encoder", "TEN">>,  <<"RecordDate", "TDRC">>,  <<"Length", "TLE">>,  <<"Language", "TLA">>,
<<"EncoderSettings", "TSS">>,  <<"Lyrics", "ULT">>,  <<"SynchronizedLyrics", "SLT">>,
      <<"Grouping", "TT1">>,  <<"Cover", "PIC">>,  <<"Composer", "TCM">>,  <<"Rating", "POP">>,  <<"AlbumArtist", "TP2">>,  <<"Subtitle", "TT3">>,
<<"RemixedBy", "TP4">>,  <<"Publisher", "TPB">>,
      <<"OriginalMediaType", "TMT">>,  <<"InitialKey", "TKE">>,  <<"PlayCounter", "CNT">>,  <<"Copyright", "TCR">>,  <<"PublisherWebpage", "WPB">>,
<<"PerformerWebpage", "WAR">> }
V23Ids ==
    { <<"Title", "TIT2">>,  <<"Album", "TALB">>,  <<"Artist", "TPE1">>,  <<"Genre", "TCON">>,  <<"Comment", "COMM">>,  <<"Bpm", "TBPM">>,
<<"Lyricist", "TEXT">>,  <<"TrackPosition", "TRCK">>,
      <<"DiskPosition", "TPOS">>,  <<"Encoder", "TENC">>,  <<"RecordDate", "TDRC">>,  <<"Length", "TLEN">>,  <<"Language", "TLAN">>,
<<"EncoderSettings", "TSSE">>,  <<"Lyrics", "USLT">>,  <<"SynchronizedLyrics", "SYLT">>,
      <<"Grouping", "TIT1">>,  <<"Cover", "APIC">>,  <<"Composer", "TCOM">>,  <<"Rating", "POPM">>,  <<"AlbumArtist", "TPE2">>,  <<"ReleaseDate",
"TDRL">>,  <<"Subtitle", "TIT3">>,  <<"RemixedBy", "TPE4">>,
      <<"Publisher", "TPUB">>,  <<"Mood", "TMOO">>,  <<"OriginalMediaType", "TMED">>,  <<"Synopsis", "TDES">>,  <<"InitialKey", "TKEY">>,
<<"EncodingDate", "TDEN">>,  <<"TaggingDate", "TDTG">>,  <<"OriginalReleaseDate", "TDOR">>,
      <<"PlayCounter", "PCNT">>,  <<"PurchaseItem", "WPAY">>,  <<"Copyright", "TCOP">>,  <<"PublisherWebpage", "WPUB">>,  <<"PerformerWebpage",
"WOAR">> }
V24Ids ==
    { <<"Title", "TIT2">>,  <<"Album", "TALB">>,  <<"Artist", "TPE1">>,  <<"Genre", "TCON">>,  <<"Comment", "COMM">>,  <<"Bpm", "TBPM">>,
<<"Lyricist", "TEXT">>,  <<"TrackPosition", "TRCK">>,
      <<"DiskPosition", "TPOS">>,  <<"Encoder", "TENC">>,  <<"RecordDate", "TDRC">>,  <<"Length", "TLEN">>,  <<"Language", "TLAN">>,
<<"EncoderSettings", "TSSE">>,  <<"Lyrics", "USLT">>,  <<"SynchronizedLyrics", "SYLT">>,
      <<"Grouping", "TIT1">>,  <<"Cover", "APIC">>,  <<"Composer", "TCOM">>,  <<"Rating", "POPM">>,  <<"AlbumArtist", "TPE2">>,  <<"ReleaseDate",
"TDRL">>,  <<"Subtitle", "TIT3">>,  <<"RemixedBy", "TPE4">>,
      <<"Publisher", "TPUB">>,  <<"Mood", "TMOO">>,  <<"OriginalMediaType", "TMED">>,  <<"Synopsis", "TDES">>,  <<"InitialKey", "TKEY">>,
<<"EncodingDate", "TDEN">>,  <<"TaggingDate", "TDTG">>,  <<"OriginalReleaseDate", "TDOR">>,
      <<"PlayCounter", "PCNT">>,  <<"PurchaseItem", "WPAY">>,  <<"Copyright", "TCOP">>,  <<"PublisherWebpage", "WPUB">>,  <<"PerformerWebpage",
"WOAR">> }
VorbisIds ==
    { <<"Title", "TITLE">>,  <<"Album", "ALBUM">>,  <<"Artist", "ARTIST">>,  <<"Genre", "GENRE">>,  <<"Comment", "COMMENT">>,  <<"Bpm", "BPM">>,
<<"Lyricist", "LYRICIST">>,  <<"TrackPosition", "TRACKNUMBER">>,
      <<"DiskPosition", "DISCNUMBER">>,  <<"PartNumber", "PARTNUMBER">>,  <<"Encoder", "ENCODER">>,  <<"RecordDate", "DATE">>,  <<"Performers",
"PERFORMER">>,  <<"Language", "LANGUAGE">>,  <<"EncoderSettings", "ENCODER_OPTIONS">>,  <<"Lyrics", "LYRICS">>,
      <<"Grouping", "GROUPING">>,  <<"RecordLabel", "LABEL">>,  <<"Cover", "METADATA_BLOCK_PICTURE">>,  <<"Composer", "COMPOSER">>,  <<"Rating",
"RATING">>,  <<"Description", "DESCRIPTION">>,  <<"AlbumArtist", "ALBUMARTIST">>,  <<"Arranger", "ARRANGER">>,
      <<"Conductor", "CONDUCTOR">>,  <<"Director", "DIRECTOR">>,  <<"EncodedBy", "ENCODED_BY">>,  <<"Publisher", "PUBLISHER">>,  <<"ISRC", "ISRC">>,
<<"Copyright", "COPYRIGHT">>,  <<"License", "LICENSE">>,  <<"PublisherWebpage", "WWWPUBLISHER">>,
      <<"PerformerWebpage", "WEBSITE">> }
Mp4Ids ==
    { <<"Title", "%A9nam">>,  <<"Album", "%A9alb">>,  <<"Artist", "%A9ART">>,  <<"Genre", "%A9gen">>,  <<"Comment", "%A9cmt">>,  <<"Bpm", "tmpo">>,
<<"Lyricist", "%A9swf">>,  <<"TrackPosition", "trkn">>,
      <<"DiskPosition", "disk">>,  <<"Encoder", "%A9too">>,  <<"RecordDate", "%A9day">>,  <<"Performers", "%A9prf">>,  <<"Lyrics", "%A9lyr">>,
<<"Grouping", "%A9grp">>,  <<"RecordLabel", "%A9lab">>,  <<"Cover", "covr">>,
      <<"Composer", "%A9wrt">>,  <<"Description", "desc">>,  <<"AlbumArtist", "aART">>,  <<"Arranger", "%A9arg">>,  <<"Conductor", "@con">>,
<<"Director", "@dir">>,  <<"SoundEngineer", "%A9sne">>,  <<"ArtDirector", "%A9ard">>,
      <<"Producer", "%A9prd">>,  <<"ExecutiveProducer", "%A9xpd">>,  <<"EncodedBy", "%A9enc">>,  <<"Publisher", "%A9pub">>,  <<"Synopsis", "ldes">>,
<<"Copyright", "cprt">>,  <<"StoreDescription", "sdes">>,  <<"MediaType", "stik">>,
      <<"ContentRating", "rtng">> }
MatroskaIds ==
    { <<"Title", "TITLE">>,  <<"Album", "ALBUM">>,  <<"Artist", "ARTIST">>,  <<"Genre", "GENRE">>,  <<"Comment", "COMMENT">>,  <<"Bpm", "BPM">>,
<<"Bps", "BPS">>,  <<"Lyricist", "LYRICIST">>,
      <<"PartNumber", "PART_NUMBER">>,  <<"TotalParts", "TOTAL_PARTS">>,  <<"Encoder", "ENCODER">>,  <<"RecordDate", "DATE_RECORDED">>,
<<"Performers", "ACTOR">>,  <<"Length", "DURATION">>,  <<"Language", "LANGUAGE">>,  <<"EncoderSettings", "ENCODER_SETTINGS">>,
      <<"Lyrics", "LYRICS">>,  <<"RecordLabel", "LABEL">>,  <<"Composer", "COMPOSER">>,  <<"Rating", "RATING">>,  <<"Description", "DESCRIPTION">>,
<<"AlbumArtist", "ACCOMPANIMENT">>,  <<"ReleaseDate", "DATE_RELEASED">>,  <<"Subtitle", "SUBTITLE">>,
      <<"LeadPerformer", "LEAD_PERFORMER">>,  <<"Arranger", "ARRANGER">>,  <<"Conductor", "CONDUCTOR">>,  <<"Director", "DIRECTOR">>,
<<"AssistantDirector", "ASSISTANT_DIRECTOR">>,  <<"DirectorOfPhotography", "DIRECTOR_OF_PHOTOGRAPHY">>,  <<"SoundEngineer", "SOUND_ENGINEER">>,
<<"ArtDirector", "ART_DIRECTOR">>,
      <<"ProductionDesigner", "PRODUCTION_DESIGNER">>,  <<"Choregrapher", "CHOREGRAPHER">>,  <<"CostumeDesigner", "COSTUME_DESIGNER">>,  <<"Actor",
"ACTOR">>,  <<"Character", "CHARACTER">>,  <<"WrittenBy", "WRITTEN_BY">>,  <<"ScreenplayBy", "SCREENPLAY_BY">>,  <<"EditedBy", "EDITED_BY">>,
      <<"Producer", "PRODUCER">>,  <<"Coproducer", "COPRODUCER">>,  <<"ExecutiveProducer", "EXECUTIVE_PRODUCER">>,  <<"DistributedBy",
"DISTRIBUTED_BY">>,  <<"MasteredBy", "MASTERED_BY">>,  <<"EncodedBy", "ENCODED_BY">>,  <<"MixedBy", "MIXED_BY">>,  <<"RemixedBy", "REMIXED_BY">>,
      <<"ProductionStudio", "PRODUCTION_STUDIO">>,  <<"ThanksTo", "THANKS_TO">>,  <<"Publisher", "PUBLISHER">>,  <<"Mood", "MOOD">>,
<<"OriginalMediaType", "ORIGINAL_MEDIA_TYPE">>,  <<"ContentType", "CONTENT_TYPE">>,  <<"Subject", "SUBJECT">>,  <<"Keywords", "KEYWORDS">>,
      <<"Summary", "SUMMARY">>,  <<"Synopsis", "SYNOPSIS">>,  <<"InitialKey", "INITIAL_KEY">>,  <<"Period", "PERIOD">>,  <<"LawRating",
"LAW_RATING">>,  <<"EncodingDate", "DATE_ENCODED">>,  <<"TaggingDate", "DATE_TAGGED">>,  <<"DigitalizationDate", "DATE_DIGITIZED">>,
      <<"WritingDate", "DATE_WRITTEN">>,  <<"PurchasingDate", "DATE_PURCHASED">>,  <<"RecordingLocation", "RECORDING_LOCATION">>,
<<"CompositionLocation", "COMPOSITION_LOCATION">>,  <<"ComposerNationality", "COMPOSER_NATIONALITY">>,  <<"PlayCounter", "PLAY_COUNTER">>,
<<"Measure", "MEASURE">>,  <<"Tuning", "TUNING">>,
      <<"ISRC", "ISRC">>,  <<"MCDI", "MCDI">>,  <<"ISBN", "ISBN">>,  <<"Barcode", "BARCODE">>,  <<"CatalogNumber", "CATALOG_NUMBER">>,
<<"LabelCode", "LABEL_CODE">>,  <<"LCCN", "LCCN">>,  <<"IMDB", "IMDB">>,
      <<"TMDB", "TMDB">>,  <<"TVDB", "TVDB">>,  <<"PurchaseItem", "PURCHASE_ITEM">>,  <<"PurchaseInfo", "PURCHASE_INFO">>,  <<"PurchaseOwner",
"PURCHASE_OWNER">>,  <<"PurchasePrice", "PURCHASE_PRICE">>,  <<"PurchaseCurrency", "PURCHASE_CURRENCY">>,  <<"Copyright", "COPYRIGHT">>,
      <<"ProductionCopyright", "PRODUCTION_COPYRIGHT">>,  <<"License", "LICENSE">>,  <<"TermsOfUse", "TERMS_OF_USE">> }

Id3Types == {"id3v1", "id3v2.2", "id3v2.3", "id3v2.4"}
V2Types  == Id3Types \ {"id3v1"}
TagTypes == Id3Types \cup {"vorbis", "mp4", "matroska"}
V2Type(ver) == CASE ver = 2 -> "id3v2.2" [] ver = 3 -> "id3v2.3" [] OTHER -> "id3v2.4"

IdTable == [ t \in TagTypes |-> CASE t = "id3v1" -> V1Ids [] t = "id3v2.2" -> V22Ids [] t = "id3v2.3" -> V23Ids [] t = "id3v2.4" -> V24Ids
                                  [] t = "vorbis" -> VorbisIds [] t = "mp4" -> Mp4Ids [] OTHER -> MatroskaIds ]
IdMap   == [ t \in TagTypes |-> [ n \in { p[1] : p \in IdTable[t] } |-> (CHOOSE p \in IdTable[t] : p[1] = n)[2] ] ]
NameMap == [ t \in TagTypes |-> [ i \in { p[2] : p \in IdTable[t] } |-> (CHOOSE p \in IdTable[t] : p[2] = i)[1] ] ]

Supports(t, name) == name \in DOMAIN IdMap[t] \/ (t = "mp4" /\ name = "EncoderSettings") \/ (t = "vorbis" /\ name = "Vendor")

(* The key of a field within the model of a tag: ID3 tags are modelled by     *)
(* field names (so changing the version keeps the keys), the others by their *)
(* native identifiers.                                                       *)
Key(t, name) == IF t \in Id3Types THEN name
                ELSE IF t = "mp4" /\ name = "EncoderSettings" THEN "----:com.apple.iTunes:cdec"
                ELSE IF t = "vorbis" /\ name = "Vendor" THEN "vendor"
                ELSE IdMap[t][name]
KeyOfId(t, id) == IF t \in Id3Types /\ id \in DOMAIN NameMap[t] THEN NameMap[t][id] ELSE id

(* ---------------------------------------------------------------------- *)
(* Values.  An assigned value is a record [k |-> kind, ...]:                *)
(*   text [s, lang, desc]   int [n]   pos [a, b]   date [s]                 *)
(*   pic [mime, ptype, desc, tok]   pop [user, rating, count]   raw [tok]   *)
(* Render gives the token found in a file of the format.                    *)
(* ---------------------------------------------------------------------- *)
Genres == << "Blues", "Classic Rock", "Country", "Dance", "Disco", "Funk", "Grunge", "Hip-Hop", "Jazz", "Metal", "New Age", "Oldies", "Other", "Pop",
             "R&B", "Rap", "Reggae", "Rock", "Techno", "Industrial", "Alternative", "Ska", "Death Metal", "Pranks", "Soundtrack", "Euro-Techno",
             "Ambient", "Trip-Hop", "Vocal", "Jazz+Funk", "Fusion", "Trance", "Classical", "Instrumental", "Acid", "House", "Game", "Sound Clip",
             "Gospel", "Noise", "AlternRock", "Bass", "Soul", "Punk", "Space", "Meditative", "Instrumental Pop", "Instrumental Rock", "Ethnic",
             "Gothic", "Darkwave", "Techno-Industrial", "Electronic", "Pop-Folk", "Eurodance", "Dream", "Southern Rock", "Comedy", "Cult", "Gangsta",
             "Top 40", "Christian Rap", "Pop/Funk", "Jungle", "Native American", "Cabaret", "New Wave", "Psychedelic", "Rave", "Showtunes",
             "Trailer", "Lo-Fi", "Tribal", "Acid Punk", "Acid Jazz", "Polka", "Retro", "Musical", "Rock & Roll", "Hard Rock", "Folk", "Folk-Rock",
             "National Folk", "Swing", "Fast Fusion", "Bebob", "Latin", "Revival", "Celtic", "Bluegrass", "Avantgarde", "Gothic Rock",
             "Progressive Rock", "Psychedelic Rock", "Symphonic Rock", "Slow Rock", "Big Band", "Chorus", "Easy Listening", "Acoustic", "Humour",
             "Speech", "Chanson", "Opera", "Chamber Music", "Sonata", "Symphony", "Booty Bass", "Primus", "Porn Groove", "Satire", "Slow Jam",
             "Club", "Tango", "Samba", "Folklore", "Ballad", "Power Ballad", "Rhythmic Soul", "Freestyle", "Duet", "Punk Rock", "Drum Solo",
             "A capella", "Euro-House", "Dance Hall", "Goa", "Drum & Bass", "Club-House", "Hardcore Techno", "Terror", "Indie", "BritPop",
             "Negerpunk", "Polsk Punk", "Beat", "Christian Gangsta Rap", "Heavy Metal", "Black Metal", "Crossover", "Contemporary Christian",
             "Christian Rock", "Merengue", "Salsa", "Thrash Metal", "Anime", "Jpop", "Synthpop", "Abstract", "Art Rock", "Baroque", "Bhangra",
             "Big Beat", "Breakbeat", "Chillout", "Downtempo", "Dub", "EBM", "Eclectic", "Electro", "Electroclash", "Emo", "Experimental", "Garage",
             "Global", "IDM", "Illbient", "Industro-Goth", "Jam Band", "Krautrock", "Leftfield", "Lounge", "Math Rock", "New Romantic", "Nu-Breakz",
             "Post-Punk", "Post-Rock", "Psytrance", "Shoegaze", "Space Rock", "Trop Rock", "World Music", "Neoclassical", "Audiobook",
             "Audio Theatre", "Neue Deutsche Welle", "Podcast", "Indie Rock", "G-Funk", "Dubstep", "Garage Rock", "Psybient" >>
GenreIndex(s) == IF \E i \in 1..Len(Genres) : Genres[i] = s THEN (CHOOSE i \in 1..Len(Genres) : Genres[i] = s) - 1 ELSE 255
GenreName(tok) == IF \E i \in 1..Len(Genres) : ToString(i - 1) = tok THEN Genres[CHOOSE i \in 1..Len(Genres) : ToString(i - 1) = tok] ELSE tok

Prefix(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)
PosText(a, b) == IF b = 0 THEN ToString(a) ELSE ToString(a) \o "/" \o ToString(b)
DescribedText(lang, desc, s) == "lang=" \o lang \o "|desc=" \o desc \o "|" \o s
PicText(v) == "mime=" \o v.mime \o "|type=" \o ToString(v.ptype) \o "|desc=" \o v.desc \o "|" \o v.tok
Mp4PicType(mime) == CASE mime = "image/jpeg" -> "pic13:" [] mime = "image/png" -> "pic14:" [] mime = "image/bmp" -> "pic27:" [] mime = "image/gif" -> "pic12:" [] OTHER -> "pic0:"
(* What the API reports for the token of a value: the text (or the data of a picture), the description, the MIME type and the language. *)
Bars(s) == { i \in 1..Len(s) : SubSeq(s, i, i) = "|" }
NthBar(s, n) == CHOOSE i \in Bars(s) : Cardinality({ j \in Bars(s) : j <= i }) = n
AfterBar(s, n) == SubSeq(s, NthBar(s, n) + 1, Len(s))
Starts(s, p) == Len(s) >= Len(p) /\ SubSeq(s, 1, Len(p)) = p
IsDescribed(s) == Len(s) >= 5 /\ SubSeq(s, 1, 5) = "lang=" /\ Cardinality(Bars(s)) >= 2
IsPic(s) == Len(s) >= 5 /\ SubSeq(s, 1, 5) = "mime=" /\ Cardinality(Bars(s)) = 3
AfterColon(s) == LET C == { i \in 1..Len(s) : SubSeq(s, i, i) = ":" } IN IF C = {} THEN s ELSE SubSeq(s, (CHOOSE i \in C : \A j \in C : i <= j) + 1, Len(s))
BeforeBrace(s) == LET C == { i \in 1..Len(s) : SubSeq(s, i, i) = "{" } IN IF C = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in C : \A j \in C : i >= j) - 1)
ApiText(t, name, tok) ==
    CASE t \in V2Types /\ IsDescribed(tok) -> AfterBar(tok, 2)
      [] IsPic(tok) -> AfterBar(tok, 3)
      [] t = "mp4" /\ (Starts(tok, "pic") \/ Starts(tok, "utf16:") \/ Starts(tok, "int")) -> AfterColon(tok)
      [] t = "matroska" -> IF Starts(tok, "bin:") THEN AfterColon(BeforeBrace(tok)) ELSE BeforeBrace(tok)
      [] t \in V2Types /\ Starts(tok, "raw:") -> AfterColon(tok)
      [] t \in V2Types /\ name = "Length" -> IF tok = "0" THEN "0" ELSE tok \o "0000"
      [] t \in V2Types /\ name = "Rating" -> tok \o "|2"
      [] OTHER -> tok
MediaTypes == [ n \in {"0", "1", "2", "5", "6", "9", "10", "11", "14", "21"} |-> CASE n = "0" -> "Movie" [] n = "1" -> "Music" [] n = "2" -> "Audiobook" [] n = "5" -> "Whacked Bookmark"
                  [] n = "6" -> "Music Video" [] n = "9" -> "Short Film" [] n = "10" -> "TV Show" [] n = "11" -> "Booklet" [] n = "14" -> "Ringtone" [] OTHER -> "Podcast" ]
ApiTextOk(t, name, tok, got) == (t = "mp4" /\ name = "MediaType" /\ AfterColon(tok) \in DOMAIN MediaTypes /\ got = MediaTypes[AfterColon(tok)])
    \/ (t = "mp4" /\ name = "ContentRating" /\ got = (CASE AfterColon(tok) = "0" -> "None" [] AfterColon(tok) = "2" -> "Clean" [] OTHER -> "Explicit"))
    \/ (t = "mp4" /\ name \in {"TrackPosition", "DiskPosition"} /\ tok = got \o "/0") \/ (name = "Rating" /\ t = "vorbis" /\ got = "|" \o tok \o "|0|16") \/ (name = "Rating" /\ t = "matroska" /\ got = "|" \o ApiText(t, name, tok) \o "|0|8") \/ got = ApiText(t, name, tok) \/ (name = "Genre" /\ GenreName(got) = GenreName(tok))
ApiDescOk(t, name, tok, got) == (t \in V2Types /\ IsDescribed(tok)) => got = SubSeq(tok, NthBar(tok, 1) + 6, NthBar(tok, 2) - 1)
ApiLangOk(t, name, tok, got) == (t \in V2Types /\ IsDescribed(tok)) => LET l == SubSeq(tok, 6, NthBar(tok, 1) - 1) IN got = l \/ (l \in {"und", "XXX"} /\ got = "")
ApiMimeOk(t, name, tok, got) == (IsPic(tok) /\ t # "id3v2.2") => (Starts(tok, "mime=" \o got \o "|") /\ TRUE)
ApiValOk(t, name, tok, got) == \* got: <<type, text, description, MIME type, language, encoding>>
    ApiTextOk(t, name, tok, got[2]) /\ ApiDescOk(t, name, tok, got[3]) /\ ApiMimeOk(t, name, tok, got[4]) /\ ApiLangOk(t, name, tok, got[5])

(* ID3v1 fields have a fixed length; text beyond ASCII is Latin-1 or UTF-8 after a byte order mark. *)
RECURSIVE Units(_)
Units(s) == IF s = "" THEN <<>> ELSE IF SubSeq(s, 1, 1) = "%" THEN <<SubSeq(s, 1, 3)>> \o Units(SubSeq(s, 4, Len(s))) ELSE <<SubSeq(s, 1, 1)>> \o Units(SubSeq(s, 2, Len(s)))
HighUnit(u) == Len(u) = 3 /\ SubSeq(u, 2, 2) \in {"8", "9", "A", "B", "C", "D", "E", "F"}
LeadUnit(u) == Len(u) = 3 /\ SubSeq(u, 2, 2) \in {"C", "D", "E", "F"}
RECURSIVE Latin(_) \* the units of text whose non-ASCII characters take two units each, one per character
Latin(u) == IF u = <<>> THEN <<>> ELSE IF LeadUnit(u[1]) THEN <<u[1] \o u[2]>> \o Latin(SubSeq(u, 3, Len(u))) ELSE <<u[1]>> \o Latin(Tail(u))
RECURSIVE JoinUnits(_, _)
JoinUnits(u, n) == IF u = <<>> \/ n = 0 THEN "" ELSE u[1] \o JoinUnits(Tail(u), n - 1)
V1Len(name) == CASE name = "Comment" -> 28 [] name = "RecordDate" -> 4 [] OTHER -> 30
V1Room(name, s, enc) == IF enc = "u8" /\ \E i \in DOMAIN Units(s) : HighUnit(Units(s)[i]) THEN V1Len(name) - 3 ELSE V1Len(name)
V1Chars(s, enc) == IF enc = "l1" THEN Latin(Units(s)) ELSE Units(s)
V1Text(name, s, enc) == LET p == Prefix(s, 200) IN JoinUnits(V1Chars(p, enc), V1Room(name, p, enc))
(* Values which can not be stored at all or not completely; link frames are restricted to Latin-1. *)
NumNames == {"MediaType", "ContentRating", "Bpm"}
UrlNames == {"PublisherWebpage", "PerformerWebpage", "PurchaseItem"}
BeyondLatin1(s) == \E i \in DOMAIN Units(s) : LeadUnit(Units(s)[i]) /\ Units(s)[i] \notin {"%C2", "%C3"}
NotStorable(t, name, v) == (t = "mp4" /\ name \in NumNames /\ v.k = "text" /\ v.s = "NaN") \/ (t = "id3v1" /\ name = "Genre" /\ v.k = "text" /\ GenreIndex(v.s) = 255) \/ (v.k = "text" /\ v.s = "") \/ (t \in V2Types /\ name \in UrlNames /\ v.k = "text" /\ BeyondLatin1(Prefix(v.s, 200)))
Lossy(t, name, v) ==
    IF NotStorable(t, name, v) THEN v.s # "" ELSE
    CASE t = "id3v1" /\ name = "Genre" -> v.k = "text" /\ GenreIndex(v.s) = 255
      [] t = "id3v1" /\ v.k = "text" -> Len(v.s) > 200 \/ Len(V1Chars(v.s, v.enc)) > V1Room(name, v.s, v.enc)
      [] t = "id3v1" /\ v.k = "date" -> Len(v.s) > 4
      [] t \in {"id3v2.2", "id3v2.3"} /\ name = "RecordDate" /\ v.k = "date" -> Len(v.s) \notin {4, 10, 16}
      [] t = "id3v1" /\ v.k = "pos" -> v.b # 0 \/ v.a > 255
      [] OTHER -> FALSE

(* older versions of ID3v2 store the recording date as year, day with month and hour with minute *)
OldDate(s) == CASE Len(s) = 7 -> s \o "-01" [] Len(s) = 13 -> s \o ":00" [] OTHER -> Prefix(s, 16)
Render(t, name, v) ==
    CASE v.k = "text" -> IF t = "id3v1" /\ name # "Genre" THEN V1Text(name, v.s, v.enc) ELSE IF t \in V2Types /\ name \in {"Comment", "Lyrics"} THEN DescribedText(v.lang, v.desc, v.s)
                         ELSE IF t = "id3v1" /\ name = "Genre" THEN ToString(GenreIndex(v.s))
                         ELSE v.s
      [] v.k = "int" -> IF t = "mp4" THEN "int:" \o ToString(v.n) ELSE ToString(v.n)
      [] v.k = "pos" -> IF t = "mp4" THEN ToString(v.a) \o "/" \o ToString(v.b) ELSE IF t = "id3v1" THEN ToString(v.a) ELSE PosText(v.a, v.b)
      [] v.k = "date" -> IF t = "id3v1" THEN Prefix(v.s, 4) ELSE IF t \in {"id3v2.2", "id3v2.3"} /\ name = "RecordDate" THEN OldDate(v.s) ELSE v.s
      [] v.k = "pic" -> IF t = "mp4" THEN Mp4PicType(v.mime) \o v.tok ELSE PicText(v)
      [] v.k = "pop" -> IF t \notin V2Types /\ v.user = "" /\ v.count = "0" THEN ToString(v.rating) ELSE v.user \o "|" \o ToString(v.rating) \o "|" \o v.count
      [] v.k = "span" -> IF t = "matroska" THEN v.s ELSE v.n
      [] v.k = "raw" -> IF t = "matroska" THEN "bin:" \o v.tok ELSE "raw:" \o v.tok
      [] OTHER -> v.s

(* ID3v2.2 and ID3v2.3 spread the recording time over several frames. *)
DateIds(t) == IF t = "id3v2.2" THEN <<"TYE", "TDA", "TIM">> ELSE <<"TYER", "TDAT", "TIME">>
HasId(nat, id) == id \in DOMAIN nat /\ nat[id] # <<>>
AbsDate(t, nat) ==
    LET d == DateIds(t)
        y == nat[d[1]][1]
        md == IF HasId(nat, d[2]) /\ Len(nat[d[2]][1]) = 4 THEN "-" \o SubSeq(nat[d[2]][1], 3, 4) \o "-" \o SubSeq(nat[d[2]][1], 1, 2) ELSE ""
        hm == IF md # "" /\ HasId(nat, d[3]) /\ Len(nat[d[3]][1]) = 4 THEN "T" \o SubSeq(nat[d[3]][1], 1, 2) \o ":" \o SubSeq(nat[d[3]][1], 3, 4) ELSE ""
    IN y \o md \o hm
(* The model fields of a tag found in a file; nat: native id -> values. *)
AbsFields(t, nat) ==
    IF t \in {"id3v2.2", "id3v2.3"} /\ HasId(nat, DateIds(t)[1])
    THEN LET own == { DateIds(t)[i] : i \in 1..3 }
             ks == { KeyOfId(t, id) : id \in DOMAIN nat \ own } \cup {"RecordDate"}
         IN [ k \in ks |-> IF k = "RecordDate" THEN <<AbsDate(t, nat)>> ELSE nat[CHOOSE id \in DOMAIN nat \ own : KeyOfId(t, id) = k] ]
    ELSE [ k \in { KeyOfId(t, id) : id \in DOMAIN nat } |-> nat[CHOOSE id \in DOMAIN nat : KeyOfId(t, id) = k] ]

(* Conversion of the values of a field when it is transferred to a tag of another type. *)
StripDescribed(s) == \* "lang=..|desc=..|text" -> "text"
    LET bars == { i \in 1..Len(s) : SubSeq(s, i, i) = "|" }
    IN IF Len(s) >= 5 /\ SubSeq(s, 1, 5) = "lang=" /\ Cardinality(bars) >= 2
       THEN LET b1 == CHOOSE i \in bars : \A j \in bars : i <= j
                b2 == CHOOSE i \in bars \ {b1} : \A j \in bars \ {b1} : i <= j
            IN SubSeq(s, b2 + 1, Len(s))
       ELSE s
PosFirst(s) == LET sl == { i \in 1..Len(s) : SubSeq(s, i, i) = "/" } IN IF sl = {} THEN s ELSE SubSeq(s, 1, (CHOOSE i \in sl : \A j \in sl : i <= j) - 1)
Transfer(from, to, name, vals) ==
    IF from = "id3v1" /\ to \in V2Types
    THEN [ i \in 1..Len(vals) |-> CASE name = "Comment" -> DescribedText("", "", vals[i]) [] name = "Genre" -> GenreName(vals[i]) [] OTHER -> vals[i] ]
    ELSE IF from \in V2Types /\ to = "id3v1"
    THEN << CASE name = "Comment" -> Prefix(StripDescribed(vals[1]), 28) [] name = "Genre" -> ToString(GenreIndex(GenreName(vals[1])))
              [] name = "RecordDate" -> Prefix(vals[1], 4) [] name = "TrackPosition" -> PosFirst(vals[1]) [] OTHER -> Prefix(vals[1], 30) >>
    ELSE vals
===============================================================================
