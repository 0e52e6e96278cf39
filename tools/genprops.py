#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as code so that it stays readable)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=observe, hook_needed=hook)))

NOFILES = "The container tests need media files which are not in the repository and fail at baseline; the stable tests never write a container."

p("P01", "Applying changes never alters the media payload",
  "Whenever changes are applied successfully to an MP3, MP4, Matroska/WebM, Ogg or FLAC file, the audio/video/subtitle payload of the resulting file (frames, sample chunks, clusters' blocks, packets) is byte for byte the payload of the original file, in the same order and nothing missing or duplicated. This holds no matter which tags were edited or removed, whether the file was updated in place, rewritten or saved under another path, and for every layout and padding setting.",
  ["inputs", "configurations", "histories"],
  "every file structure of the supported containers x every sequence of tag edits x every layout/padding/save-path setting",
  NOFILES + " Layout decisions depend on the combination of input structure, tag sizes and settings, which no sample covers.",
  ["mediafileinfo.cpp", "mp4/mp4container.cpp", "matroska/matroskacontainer.cpp", "ogg/oggcontainer.cpp", "flac/flacstream.cpp"],
  [("ID3v2/FLAC rewriting and in-place update", "mediafileinfo.cpp:MediaFileInfo::makeMp3File"),
   ("MP4 rewriting", "mp4/mp4container.cpp:Mp4Container::internalMakeFile"),
   ("Matroska rewriting", "matroska/matroskacontainer.cpp:MatroskaContainer::internalMakeFile"),
   ("Ogg rewriting", "ogg/oggcontainer.cpp:OggContainer::internalMakeFile"),
   ("FLAC header making", "flac/flacstream.cpp:FlacStream::makeHeader")],
  [("payload", "sequence of payload units found by an independent parser of the file", "on disk")],
  ["file content before and after MediaFileInfo::applyChanges()"])

p("P02", "Positions stored in a file keep pointing at the same payload",
  "After a successful change, every position the file stores about itself - MP4 chunk offset tables and fragment base offsets, Matroska seek head entries, cue cluster/relative positions and cluster positions/previous sizes - designates the same piece of media or the same kind of top-level element it designated before. No entry is lost and none points outside the file or into the middle of something else.",
  ["inputs", "configurations", "histories"],
  "every stored position in every input structure x every combination of tag size change, tag/index position and padding",
  NOFILES + " A stale position is invisible to tag tests: the file still parses and tags read back correctly.",
  ["mp4/mp4track.cpp", "mp4/mp4container.cpp", "matroska/matroskacues.cpp", "matroska/matroskaseekinfo.cpp", "matroska/matroskacontainer.cpp"],
  [("chunk offset update", "mp4/mp4track.cpp:Mp4Track::updateChunkOffsets"),
   ("fragment base data offset update", "mp4/mp4container.cpp:Mp4Container::updateOffsets"),
   ("cue position updater", "matroska/matroskacues.cpp:MatroskaCuePositionUpdater"),
   ("seek info", "matroska/matroskaseekinfo.cpp:MatroskaSeekInfo")],
  [("refs", "stored position -> identity of what is found there", "on disk")],
  ["file content before and after MediaFileInfo::applyChanges()"])

p("P03", "What is written into a tag is what is read back",
  "For every tag format (ID3v1, ID3v2.2/2.3/2.4, Vorbis comments in Ogg and FLAC, MP4/iTunes tags, Matroska tags), each field value assigned through the API and applied successfully is found with an equal value (up to the documented limits of the format, which are reported as diagnostics) when the written file is parsed afresh, both by this library and by an independent reader of the format. All values of multi-valued fields are kept in order, fields removed are gone, and fields not edited keep their values across any number of write/read cycles.",
  ["inputs", "histories", "configurations"],
  "every known field x value type x text encoding x tag format/version, edit histories of any length",
  NOFILES + " Existing unit tests check conversions of single values in memory but never a written tag.",
  ["id3/id3v1tag.cpp", "id3/id3v2tag.cpp", "id3/id3v2frame.cpp", "vorbis/vorbiscomment.cpp", "vorbis/vorbiscommentfield.cpp", "mp4/mp4tag.cpp", "mp4/mp4tagfield.cpp", "matroska/matroskatag.cpp", "matroska/matroskatagfield.cpp", "flac/flacmetadata.cpp", "tagvalue.cpp"],
  [("ID3v2 frames", "id3/id3v2frame.cpp:Id3v2Frame::parse / Id3v2FrameMaker"),
   ("Vorbis comment fields", "vorbis/vorbiscommentfield.cpp"),
   ("iTunes fields", "mp4/mp4tagfield.cpp:Mp4TagField::reparse / Mp4TagFieldMaker"),
   ("Matroska fields", "matroska/matroskatagfield.cpp")],
  [("fields", "field -> ordered values (type, text, description, mime type, language)", "tag on disk")],
  ["Tag API after re-parsing; independent reader of the file"])

p("P04", "Metadata nobody touched survives rewriting",
  "Everything in a file that is not part of the edit - unknown or unsupported tag fields, frames, atoms and elements, chapters, attachments, track headers and their flags, names and languages, other streams' headers, metadata blocks, trailing APE tags - is still there with equal content after changes have been applied. Only padding, checksums, indexes and an APE tag at the beginning of the file may change or vanish.",
  ["inputs", "configurations", "histories"],
  "every input structure with additional, unknown or unedited parts x every edit and layout setting",
  NOFILES,
  ["mp4/mp4container.cpp", "mp4/mp4track.cpp", "matroska/matroskacontainer.cpp", "matroska/matroskatrack.cpp", "matroska/matroskaattachment.cpp", "flac/flacstream.cpp", "ogg/oggcontainer.cpp", "id3/id3v2frame.cpp", "vorbis/vorbiscomment.cpp"],
  [("re-made track atoms", "mp4/mp4track.cpp:Mp4Track::makeTrack"),
   ("copied level-1 elements", "matroska/matroskacontainer.cpp:MatroskaContainer::internalMakeFile"),
   ("metadata blocks", "flac/flacstream.cpp:FlacStream::makeHeader"),
   ("unknown fields", "id3/id3v2frame.cpp, mp4/mp4tagfield.cpp, vorbis/vorbiscommentfield.cpp")],
  [("others", "sequence of parts other than payload, edited tags, padding and indexes", "on disk")],
  ["file content before and after MediaFileInfo::applyChanges()"])

p("P05", "A failed or aborted change leaves the original content",
  "If applying changes is aborted by the caller at any point, or an I/O operation fails at any point, the call reports it (exception or critical diagnostic) instead of claiming success, and the complete original content is still available: in the file itself, or in the backup file whose location is reported. At every intermediate moment of rewriting a file, a crash leaves either the untouched original or a backup of it on disk; no fault makes the library delete the only copy. Only a file which is updated in place (possible when a rewrite is not forced) has no backup: there an abort is honoured before the first modification or not at all, and an I/O failure is reported.",
  ["fault_sequences", "crash_points", "schedules"],
  "every abort point and every failing or short I/O operation during applying changes, every crash point between two file system operations, for every container and for rewrite, in-place and save-as modes",
  "No stable test aborts or fails an apply; fault positions are unbounded and only reachable by enumeration with an injected fault.",
  ["backuphelper.cpp", "mediafileinfo.cpp", "mp4/mp4container.cpp", "matroska/matroskacontainer.cpp", "ogg/oggcontainer.cpp", "genericfileelement.h", "progressfeedback.h"],
  [("backup creation/restoration", "backuphelper.cpp:createBackupFileCanonical / restoreOriginalFileFromBackupFileCanonical / handleFailureAfterFileModifiedCanonical"),
   ("abort checks", "progressfeedback.h:AbortableProgressFeedback::stopIfAborted")],
  [("dir", "path -> content class (original, partial, complete new, absent)", "file system")],
  ["file system operations issued during MediaFileInfo::applyChanges() and directory content afterwards"])

p("P06", "Backups and save-as never destroy existing files",
  "Creating a backup never overwrites, truncates or removes a file that existed before: a free name is chosen in the requested (absolute or relative) backup directory or next to the file, and the backup holds exactly the original content. When a different save path is given, the source file stays untouched, no backup of it is made and the result is complete under the new path; restoring a backup brings back the identical content.",
  ["histories", "configurations", "inputs"],
  "every pre-existing set of files at candidate backup paths x backup directory settings x repeated applies x save paths",
  "The existing helper tests exercise a couple of fixed paths and fail at baseline for lack of media files; name collisions and histories of applies are not covered.",
  ["backuphelper.cpp", "mediafileinfo.cpp"],
  [("backup path selection", "backuphelper.cpp:createBackupFileCanonical"), ("save path", "mediafileinfo.cpp:MediaFileInfo::setSaveFilePath and the makers")],
  [("dir", "path -> content", "file system")],
  ["directory content and file system operations during applyChanges() and the backup helper functions"])

p("P07", "Padding, position and rewrite settings are honoured",
  "When changes are applied, the file is updated in place only if no rewrite is forced and the resulting padding lies within the configured minimum and maximum; a rewritten file gets the preferred padding (up to the representable granularity of the format). Tags and index end up before or after the media data as requested - always when the position is forced, and otherwise whenever the file has to be rewritten anyway.",
  ["configurations", "inputs", "histories"],
  "every combination of minimum/maximum/preferred padding, tag/index position, force flags and tag size change, for each container",
  NOFILES + " The decision is a function of many integers; off-by-one errors only show at boundaries.",
  ["mediafileinfo.cpp", "mp4/mp4container.cpp", "matroska/matroskacontainer.cpp", "flac/flacstream.cpp", "mediafileinfo.h"],
  [("padding decision for ID3v2/FLAC", "mediafileinfo.cpp:MediaFileInfo::makeMp3File"),
   ("padding/position decision for MP4", "mp4/mp4container.cpp:Mp4Container::internalMakeFile"),
   ("padding/position decision for Matroska", "matroska/matroskacontainer.cpp:MatroskaContainer::internalMakeFile")],
  [("layout", "tag position, index position, padding size, written in place or rewritten", "on disk")],
  ["file layout and whether a backup/rewrite happened"])

p("P08", "Written files are well-formed and self-consistent",
  "Every file written successfully is structurally valid for an independent strict parser: declared sizes of nested structures add up exactly to the bytes present, nothing unaccounted for lies between them, mandatory ordering and last/first/continued markers are right, sequence numbers and granule positions are consistent, an ID3v1 tag is the very end of the file, and every checksum (Ogg pages, Matroska CRC-32 elements) matches the data it covers.",
  ["inputs", "configurations", "histories"],
  "every input structure x edit x setting",
  NOFILES + " The library's own lenient parser hides malformed output, so reading back with it cannot detect the problem.",
  ["ogg/oggcontainer.cpp", "ogg/oggpage.cpp", "matroska/matroskacontainer.cpp", "matroska/ebmlelement.cpp", "mp4/mp4container.cpp", "mp4/mp4atom.cpp", "flac/flacstream.cpp", "flac/flacmetadata.cpp", "id3/id3v2tag.cpp", "mediafileinfo.cpp"],
  [("page making, renumbering and checksums", "ogg/oggcontainer.cpp:OggContainer::internalMakeFile, ogg/oggpage.cpp:OggPage::updateChecksum"),
   ("size denotations", "matroska/ebmlelement.cpp:EbmlElement::makeSizeDenotation, mp4/mp4atom.cpp:Mp4Atom::makeHeader"),
   ("CRC-32 elements", "matroska/matroskacontainer.cpp:MatroskaContainer::internalMakeFile"),
   ("last-block flag", "flac/flacstream.cpp:FlacStream::makeHeader")],
  [("structure", "verdict of the strict parser by rule", "on disk")],
  ["file content after MediaFileInfo::applyChanges()"])

p("P09", "Applying without edits is stable and histories converge",
  "Parsing a file and applying changes without having edited anything yields a file with the same tags, payload and structure; applying a second time with the same settings yields identical bytes, and any number of further parse/apply cycles neither grows the file nor loses information. The same in-memory object can be re-parsed and applied repeatedly and behaves like a fresh one.",
  ["histories", "configurations"],
  "every history of parse/edit/apply cycles on one object or on fresh objects",
  NOFILES + " Drift such as growing padding, duplicated fields or numbers changing on every save needs multi-cycle histories.",
  ["mediafileinfo.cpp", "abstractcontainer.cpp", "genericcontainer.h", "mp4/mp4tagfield.cpp", "id3/id3v2tag.cpp", "ogg/oggcontainer.cpp", "matroska/matroskacontainer.cpp"],
  [("clearing of parsing results", "mediafileinfo.cpp:MediaFileInfo::clearParsingResults, invalidated"), ("container reset", "abstractcontainer.cpp:AbstractContainer::reset")],
  [("file", "content after n cycles", "on disk")],
  ["file content and parse results after each cycle"])

p("P10", "Parsing follows its status protocol and never modifies the file",
  "Once the container format has been parsed, the parsing steps (tracks, tags, chapters, attachments) may be invoked in any order and any number of times: a completed step is not repeated, its reported status and results are the same in every order, results are discarded exactly when parsing results are cleared, changes have been applied or another path is set, and nothing parsed of one file leaks into another. A step which fails or is aborted never reports success, and an aborted step can be resumed by invoking it again. Parsing never modifies the file, and changes are refused with an error, leaving the file untouched, when the tags or tracks have not been parsed successfully.",
  ["histories", "schedules", "inputs"],
  "every interleaving of open, parse steps, setting paths, clearing, creating/removing tags and applying",
  "The stable tests call each step once in the customary order on an unsupported file; order dependence needs all interleavings.",
  ["mediafileinfo.cpp", "mediafileinfo.h", "abstractcontainer.cpp", "basicfileinfo.cpp"],
  [("parsing status", "mediafileinfo.cpp:parseContainerFormat/parseTracks/parseTags/parseChapters/parseAttachments"), ("invalidation", "mediafileinfo.cpp:MediaFileInfo::clearParsingResults")],
  [("status", "per step: not parsed, ok, not supported, critical failure", "MediaFileInfo")],
  ["status accessors, results and file content after each call"])

p("P11", "Tags are created, converted and removed as requested",
  "Ensuring appropriate tags creates, keeps, merges or drops ID3v1/ID3v2 and container tags exactly as the usage settings, version, flags and required targets say, transferring values on removal or creation when requested without overwriting existing ones, and never dropping a value silently when merging. Removing a tag, all tags or identical tags affects precisely those tags, in memory and in the file written afterwards.",
  ["histories", "configurations", "inputs"],
  "every combination of existing tags x creation settings x sequences of create/remove/merge operations",
  "Existing stable tests cover only creating tags for an unsupported file.",
  ["mediafileinfo.cpp", "tag.cpp", "fieldbasedtag.h", "genericcontainer.h", "tagtarget.cpp"],
  [("tag creation policy", "mediafileinfo.cpp:MediaFileInfo::createAppropriateTags"), ("merging", "mediafileinfo.cpp:MediaFileInfo::mergeId3v2Tags"), ("value transfer", "tag.cpp:Tag::insertValues, fieldbasedtag.h:insertFields")],
  [("tags", "list of tags with type, version, target, values", "MediaFileInfo / on disk")],
  ["tag accessors, written file"])

p("P12", "Tag containers behave like ordered multi-maps of values",
  "For every tag type, setting, reading, counting, removing and inserting values of a field behaves consistently: what was set is returned by the single- and multi-value accessors in the order given, presence and field count agree with the values, an unsupported field is refused without side effects, no operation on one field affects another field, and inserting from another tag respects the overwrite flag.",
  ["histories", "inputs"],
  "every sequence of tag operations over every field and tag type",
  "The stable tests exercise a few operations on single tag types; interference between operations needs sequences.",
  ["fieldbasedtag.h", "tag.cpp", "tag.h", "id3/id3v1tag.cpp", "id3/id3v2tag.cpp", "mp4/mp4tag.cpp", "vorbis/vorbiscomment.cpp", "matroska/matroskatag.cpp"],
  [("field map", "fieldbasedtag.h:FieldMapBasedTag"), ("multiple values", "id3/id3v2tag.cpp:internallySetValues, mp4/mp4tag.cpp:Mp4Tag::setValues")],
  [("fields", "field -> sequence of values", "Tag")],
  ["Tag API"])

p("P13", "Value conversions are exact or refused",
  "Converting a tag value to another type or text encoding yields exactly the value the source denotes, or fails with a conversion error - never a silently different value: text survives conversion between Latin-1, UTF-8 and UTF-16, numbers, positions, genres, durations, dates and popularity ratings survive being turned into text and back, and rating scales map monotonically with their end points preserved. Equality of values is consistent with these conversions.",
  ["inputs"],
  "every value of every type (text in every encoding, integers, positions, genres, durations, dates, popularities) x every target type and encoding",
  "The stable tests check a handful of literals per conversion.",
  ["tagvalue.cpp", "tagvalue.h", "positioninset.h", "id3/id3genres.h", "id3/id3genres.cpp"],
  [("conversions", "tagvalue.cpp:TagValue::toInteger/toPositionInSet/toStandardGenreIndex/toTimeSpan/toPopularity/toString"), ("rating scale", "tagvalue.cpp:Popularity::scaleTo")],
  [("value", "type, data, encoding", "TagValue")],
  ["TagValue API"])

p("P14", "Any input is handled without crashing, hanging or corruption",
  "Parsing any byte sequence - truncated, corrupted, self-referential or random, under any file name - terminates with documented outcomes only (statuses, diagnostics, documented exception types), without undefined behaviour and in time and memory proportionate to the file. Applying changes to such a file either fails leaving it byte-identical or succeeds with a file that still holds the payload and tags that were readable.",
  ["inputs", "fault_sequences"],
  "every byte string; in particular every truncation and every single-field corruption of valid files",
  "The stable tests parse valid or plainly unsupported input.",
  ["mediafileinfo.cpp", "signature.cpp", "mp4/mp4atom.cpp", "mp4/mp4track.cpp", "matroska/ebmlelement.cpp", "matroska/matroskacontainer.cpp", "ogg/oggiterator.cpp", "ogg/oggpage.cpp", "flac/flacstream.cpp", "id3/id3v2frame.cpp", "mpegaudio/mpegaudioframestream.cpp", "genericfileelement.h"],
  [("size validation", "mp4/mp4atom.cpp:Mp4Atom::internalParse, matroska/ebmlelement.cpp:EbmlElement::internalParse, id3/id3v2frame.cpp:Id3v2Frame::parse")],
  [("outcome", "status/exception/diagnostics", "API")],
  ["process exit state, API outcome, sanitizer reports, file content"])

p("P15", "Reported technical information matches the file",
  "The container format, document type, title, duration, creation times, tracks (format, type, id, name, language, enabled/default flags, channels, sampling rate, bit depth, pixel size, sample count, duration), chapters, attachments, tags' targets and padding reported after parsing are exactly what the file encodes. This holds for every position, order, size-field width and version in which the format allows the information to be stored.",
  ["inputs"],
  "every valid encoding of the same information in each supported format",
  NOFILES,
  ["mediafileinfo.cpp", "signature.cpp", "mp4/mp4container.cpp", "mp4/mp4track.cpp", "matroska/matroskacontainer.cpp", "matroska/matroskatrack.cpp", "matroska/matroskachapter.cpp", "matroska/matroskaattachment.cpp", "ogg/oggstream.cpp", "flac/flacstream.cpp", "flac/flacmetadata.cpp", "mpegaudio/mpegaudioframe.cpp", "wav/waveaudiostream.cpp", "adts/adtsstream.cpp", "ivf/ivfstream.cpp"],
  [("signature detection", "signature.cpp:parseSignature"), ("track parsing", "mp4/mp4track.cpp, matroska/matroskatrack.cpp, ogg/oggstream.cpp, flac/flacstream.cpp, mpegaudio/mpegaudioframe.cpp")],
  [("info", "reported technical data", "API")],
  ["MediaFileInfo, AbstractTrack, AbstractChapter, AbstractAttachment accessors"])

p("P16", "Loss and problems are reported, progress and abort are truthful",
  "Whenever applying changes cannot store something as requested (value truncated or not convertible, field or encoding not supported, multiple values reduced to one, target or position ignored), a diagnostic of at least informational level says so, and when everything is stored no critical diagnostic is raised. Progress percentages reported to the caller stay within 0 to 100, never decrease within a step, and after the caller requested an abort the operation ends as aborted with the file unchanged or restored, unless the request arrives with the last reports of a rewrite or after an in-place update has begun, when the operation completes.",
  ["inputs", "configurations", "schedules"],
  "every edit that exceeds what a format can store; every moment of aborting",
  "No stable test writes a tag with unstorable values or observes progress callbacks.",
  ["diagnostics.cpp", "diagnostics.h", "progressfeedback.h", "progressfeedback.cpp", "id3/id3v1tag.cpp", "id3/id3v2frame.cpp", "mp4/mp4tagfield.cpp", "vorbis/vorbiscommentfield.cpp", "mediafileinfo.cpp"],
  [("diagnostics", "diagnostics.h:Diagnostics"), ("progress", "progressfeedback.h:BasicProgressFeedback")],
  [("diag", "multiset of messages with level", "Diagnostics"), ("progress", "sequence of (step, step %, overall %)", "callback")],
  ["Diagnostics object and progress callback"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
