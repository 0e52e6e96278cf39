From 35346e8efe10cf8cf9ab93059d992b3316f19aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:55 +0000
Subject: [PATCH 001/105] fix: consider size of binary values when computing
 size of Matroska SimpleTag elements

---
 matroska/matroskatagfield.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/matroska/matroskatagfield.cpp b/matroska/matroskatagfield.cpp
index 581e35d..ae0317d 100644
--- a/matroska/matroskatagfield.cpp
+++ b/matroska/matroskatagfield.cpp
@@ -237,6 +237,9 @@ MatroskaTagFieldMaker::MatroskaTagFieldMaker(MatroskaTagField &field, Diagnostic
     const auto languageIETFElementSize
         = m_languageIETF.empty() ? 0 : (2 + EbmlElement::calculateSizeDenotationLength(m_languageIETF.size()) + m_languageIETF.size());
 
+    // compute size of the value
+    const auto valueSize = m_isBinary ? m_field.value().dataSize() : m_stringValue.size();
+
     // compute "SimpleTag" element size
     m_simpleTagSize =
         // "TagName" element
@@ -248,8 +251,8 @@ MatroskaTagFieldMaker::MatroskaTagFieldMaker(MatroskaTagField &field, Diagnostic
         // "TagDefault" element
         + 2 + 1
         + 1
-        // "TagString" element
-        + 2 + EbmlElement::calculateSizeDenotationLength(m_stringValue.size()) + m_stringValue.size();
+        // "TagString"/"TagBinary" element
+        + 2 + EbmlElement::calculateSizeDenotationLength(valueSize) + valueSize;
 
     // compute size of nested tags
     for (auto &nestedField : field.nestedFields()) {
-- 
2.43.0


From 59cd30835b2417b26b0f83db667c8d23c99808bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:33 +0000
Subject: [PATCH 002/105] fix: treat Matroska tag fields without TagDefault
 element as default

---
 matroska/matroskatagfield.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/matroska/matroskatagfield.cpp b/matroska/matroskatagfield.cpp
index ae0317d..f039adf 100644
--- a/matroska/matroskatagfield.cpp
+++ b/matroska/matroskatagfield.cpp
@@ -49,6 +49,7 @@ void MatroskaTagField::reparse(EbmlElement &simpleTagElement, Diagnostics &diag,
     string context("parsing Matroska tag field");
     simpleTagElement.parse(diag);
     bool tagDefaultFound = false, tagLanguageFound = false, tagLanguageIETFFound = false;
+    setDefault(true); // the value is supposed to be treated as default unless the "TagDefault"-element says otherwise
     for (EbmlElement *child = simpleTagElement.firstChild(); child; child = child->nextSibling()) {
         try {
             child->parse(diag);
-- 
2.43.0


From 47a9e85487898d6df559059adde7d7a7726500ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:44 +0000
Subject: [PATCH 003/105] fix: avoid writing 1-byte padding in Matroska files
 which cannot be represented by Void element

---
 matroska/matroskacontainer.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 22b8c3f..bceb9ca 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1333,9 +1333,10 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             }
                             if (totalOffset <= segment.firstClusterElement->startOffset()) {
                                 // calculate new padding
-                                if (segment.newPadding != 1) {
+                                const auto padding = segment.firstClusterElement->startOffset() - totalOffset;
+                                if (padding != 1) {
                                     // "Void"-element is at least 2 byte long -> can't add 1 byte padding
-                                    newPadding += (segment.newPadding = segment.firstClusterElement->startOffset() - totalOffset);
+                                    newPadding += (segment.newPadding = padding);
                                 } else {
                                     rewriteRequired = true;
                                 }
@@ -1371,8 +1372,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
 
                     // pretend writing "Void"-element (only if there is at least one "Cluster"-element in the segment)
                     if (!segmentIndex && rewriteRequired && (level1Element = level0Element->childById(MatroskaIds::Cluster, diag))) {
-                        // simply use the preferred padding
-                        segment.totalDataSize += (segment.newPadding = newPadding = fileInfo().preferredPadding());
+                        // simply use the preferred padding ("Void"-element is at least 2 byte long -> can't add 1 byte padding)
+                        newPadding = fileInfo().preferredPadding() != 1 ? fileInfo().preferredPadding() : 2;
+                        segment.totalDataSize += (segment.newPadding = newPadding);
                     }
 
                     // pretend writing "Cluster"-element
-- 
2.43.0


From 02d72c921fcdc4a97d304a82f9c880aacc1fb58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:14 +0000
Subject: [PATCH 004/105] fix: restore write position after adjusting
 last-block flag of FLAC metadata block

---
 flac/flacstream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index 0b8cfee..e084517 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -221,7 +221,7 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
         outputStream.seekp(lastStartOffset);
         lastActuallyWrittenHeader.setLast(!m_vorbisComment);
         lastActuallyWrittenHeader.makeHeader(outputStream);
-        originalStream.seekg(lastActuallyWrittenHeader.dataSize(), ios_base::cur);
+        outputStream.seekp(lastActuallyWrittenHeader.dataSize(), ios_base::cur);
     }
 
     // write Vorbis comment
@@ -290,7 +290,7 @@ std::streamoff FlacStream::makeHeader(ostream &outputStream, Diagnostics &diag)
         outputStream.seekp(lastStartOffset);
         lastActuallyWrittenHeader.setLast(true);
         lastActuallyWrittenHeader.makeHeader(outputStream);
-        outputStream.seekp(lastActuallyWrittenHeader.dataSize());
+        outputStream.seekp(lastActuallyWrittenHeader.dataSize(), ios_base::cur);
     }
 
     return lastStartOffset;
-- 
2.43.0


From 97b800c7eaf9de9980a6507c0a30a0a2d36a7784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:25 +0000
Subject: [PATCH 005/105] fix: avoid writing padding twice when a FLAC file has
 an ID3v2 tag

---
 mediafileinfo.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index cb56aa9..becf04b 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1836,12 +1836,12 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             for (auto i = makers.begin(), end = makers.end() - 1; i != end; ++i) {
                 i->make(outputStream, 0, diag);
             }
-            // include padding into the last ID3v2 tag
-            makers.back().make(outputStream, (flacStream && padding && padding < 4) ? 0 : static_cast<std::uint32_t>(padding), diag);
+            // include padding into the last ID3v2 tag (unless it is included in the FLAC metadata)
+            makers.back().make(outputStream, (flacStream && padding >= 4) ? 0 : static_cast<std::uint32_t>(padding), diag);
         }
 
         if (flacStream) {
-            if (padding && startOfLastMetaDataBlock) {
+            if (padding >= 4 && startOfLastMetaDataBlock) {
                 // if appending padding, ensure the last flag of the last "METADATA_BLOCK_HEADER" is not set
                 flacMetaData.seekg(startOfLastMetaDataBlock);
                 flacMetaData.seekp(startOfLastMetaDataBlock);
@@ -1853,7 +1853,7 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             outputStream << flacMetaData.rdbuf();
 
             // write padding
-            if (padding) {
+            if (padding >= 4) {
                 flacStream->makePadding(outputStream, static_cast<std::uint32_t>(padding), true, diag);
             }
         }
-- 
2.43.0


From fc11ec446fac2dd489a6113ef23461be9dd0f1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:39 +0000
Subject: [PATCH 006/105] fix: avoid dereferencing null when a FLAC picture
 precedes the Vorbis comment

---
 flac/flacstream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index e084517..c2eee3c 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -2,6 +2,7 @@
 #include "./flacmetadata.h"
 
 #include "../vorbis/vorbiscomment.h"
+#include "../vorbis/vorbiscommentids.h"
 
 #include "../exceptions.h"
 #include "../mediafileinfo.h"
@@ -129,7 +130,7 @@ void FlacStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
             try {
                 // parse the cover
                 VorbisCommentField coverField;
-                coverField.setId(m_vorbisComment->fieldId(KnownField::Cover));
+                coverField.setId(std::string(VorbisCommentIds::cover()));
                 FlacMetaDataBlockPicture picture(coverField.value());
                 picture.parse(*m_istream, header.dataSize());
                 coverField.setTypeInfo(picture.pictureType());
-- 
2.43.0


From f24d967718a525168b6b597994cdfe90f4be8515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:26 +0000
Subject: [PATCH 007/105] fix: rewrite Ogg pages containing comments without
 breaking other packets

* keep packets which are continued on the next page unconcluded
* support comments in files with multiple streams
* keep the mandatory comment packet when a tag is removed
* keep pages without segments and their sequence numbers
* do not put padding into FLAC metadata blocks
---
 ogg/oggcontainer.cpp | 216 ++++++++++++++++++++++++++-----------------
 1 file changed, 129 insertions(+), 87 deletions(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index a8348c4..c5be91c 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -308,8 +308,13 @@ void OggContainer::internalParseTags(Diagnostics &diag, AbortableProgressFeedbac
         default:
             diag.emplace_back(DiagLevel::Critical, "Stream format not supported.", context);
         }
-        params.lastPageIndex = m_iterator.currentPageIndex();
-        params.lastSegmentIndex = m_iterator.currentSegmentIndex();
+        if (m_iterator) {
+            params.lastPageIndex = m_iterator.currentPageIndex();
+            params.lastSegmentIndex = m_iterator.currentSegmentIndex();
+        } else {
+            params.lastPageIndex = m_iterator.pages().size() - 1;
+            params.lastSegmentIndex = numeric_limits<size_t>::max();
+        }
         fileInfo().reportPaddingSizeChanged(fileInfo().paddingSize() + padding);
 
         // do a few sanity checks on the continued-flag and absolute granule position as some Ogg demuxers are picky about them
@@ -416,7 +421,10 @@ void OggContainer::makeVorbisCommentSegment(stringstream &buffer, CopyHelper<653
     }
     default:;
     }
-    MediaFileInfo::writePadding(buffer, fileInfo().preferredPadding());
+    // add padding (a FLAC metadata block must cover its entire packet so there must not be any padding in this case)
+    if (params->streamFormat != GeneralMediaFormat::Flac) {
+        MediaFileInfo::writePadding(buffer, fileInfo().preferredPadding());
+    }
 
     newSegmentSizes.push_back(static_cast<std::uint32_t>(buffer.tellp() - offset));
 }
@@ -458,19 +466,28 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
     try {
         progress.nextStepOrStop("Writing Ogg pages ...");
 
-        // prepare iterating comments
-        OggVorbisComment *currentComment;
-        OggParameter *currentParams;
-        auto tagIterator = m_tags.cbegin(), tagEnd = m_tags.cend();
-        if (tagIterator != tagEnd) {
-            currentParams = &(currentComment = tagIterator->get())->oggParams();
-        } else {
-            currentComment = nullptr;
-            currentParams = nullptr;
+        // prepare finding comments by page
+        // note: The pages of different streams might be multiplexed so the range of pages covered by one comment might also cover
+        //       pages of other streams.
+        auto commentBySerialNo = std::unordered_multimap<std::uint32_t, OggVorbisComment *>();
+        for (const auto &tag : m_tags) {
+            commentBySerialNo.emplace(m_iterator.pages()[tag->oggParams().firstPageIndex].streamSerialNumber(), tag.get());
         }
+        const auto findComment = [&](const OggPage &page, std::size_t pageIndex) -> OggVorbisComment * {
+            if (page.segmentSizes().empty()) {
+                return nullptr;
+            }
+            for (auto [i, end] = commentBySerialNo.equal_range(page.streamSerialNumber()); i != end; ++i) {
+                if (const auto &params = i->second->oggParams(); pageIndex >= params.firstPageIndex && pageIndex <= params.lastPageIndex) {
+                    return i->second;
+                }
+            }
+            return nullptr;
+        };
 
         // define misc variables
-        const OggPage *lastPage = nullptr;
+        auto pageWritten = false;
+        auto nextPageIndex = std::size_t();
         static constexpr auto oggPageHeaderSize = 27u;
         auto lastPageNewOffset = std::uint64_t();
         auto copyHelper = CopyHelper<65307>();
@@ -478,6 +495,46 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         auto nextPageOffset = std::uint64_t();
         auto pageSequenceNumberBySerialNo = std::unordered_map<std::uint32_t, std::uint32_t>();
 
+        // define buffer for segments of pages which need to be rewritten
+        struct PendingRewrite {
+            std::stringstream buffer = std::stringstream(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
+            std::vector<std::uint32_t> newSegmentSizes;
+            std::uint8_t firstPageFlag = 0x00;
+            bool firstSegmentContinued = false;
+        };
+        auto rewriteBySerialNo = std::unordered_map<std::uint32_t, PendingRewrite>();
+
+        // define functions for copying pages which only need their sequence number to be updated
+        const auto copyPage = [&](const OggPage &page) {
+            auto &pageSequenceNumber = pageSequenceNumberBySerialNo[page.streamSerialNumber()];
+            lastPageNewOffset = static_cast<std::uint64_t>(stream().tellp());
+            backupStream.seekg(static_cast<streamoff>(page.startOffset()));
+            if (pageSequenceNumber != page.sequenceNumber()) {
+                // just update page sequence number
+                updatedPageOffsets.push_back(lastPageNewOffset); // memorize offset to update checksum later
+                copyHelper.copy(backupStream, stream(), oggPageHeaderSize);
+                stream().seekp(-9, ios_base::cur);
+                writer().writeUInt32LE(pageSequenceNumber);
+                stream().seekp(5, ios_base::cur);
+                copyHelper.copy(backupStream, stream(), page.totalSize() - oggPageHeaderSize);
+            } else {
+                // copy page unchanged
+                copyHelper.copy(backupStream, stream(), page.totalSize());
+            }
+            ++pageSequenceNumber;
+        };
+        const auto copyEmptyPages = [&](std::size_t endPageIndex) {
+            // copy pages without segments which are skipped by the iterator
+            for (; nextPageIndex < endPageIndex; ++nextPageIndex) {
+                const auto &page = m_iterator.pages()[nextPageIndex];
+                if (!page.segmentSizes().empty() || (nextPageOffset && page.startOffset() != nextPageOffset)) {
+                    break;
+                }
+                copyPage(page);
+                nextPageOffset = page.startOffset() + page.totalSize();
+            }
+        };
+
         // iterate through all pages of the original file
         auto updateTick = 0u;
         for (m_iterator.setStream(backupStream), m_iterator.removeFilter(), m_iterator.reset(); m_iterator; m_iterator.nextPage(), ++updateTick) {
@@ -487,10 +544,13 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                 progress.stopIfAborted();
             }
 
+            // copy empty pages in front of the current page
+            copyEmptyPages(m_iterator.currentPageIndex());
+
             // check for gaps
             // note: This is not just to print diag messages but also for taking into account that the parser might skip pages
             //       unless a full parse has been enforced.
-            if (lastPage && currentPage.startOffset() != nextPageOffset) {
+            if (pageWritten && currentPage.startOffset() != nextPageOffset) {
                 m_iterator.pages().resize(m_iterator.currentPageIndex() - 1); // drop all further pages after the last consecutively parsed one
                 if (m_iterator.resyncAt(nextPageOffset)) {
                     // try again at the page we've just found
@@ -514,65 +574,52 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
             }
             const auto pageSize = currentPage.totalSize();
             auto &pageSequenceNumber = pageSequenceNumberBySerialNo[currentPage.streamSerialNumber()];
-            lastPage = &currentPage;
-            lastPageNewOffset = static_cast<std::uint64_t>(stream().tellp());
+            pageWritten = true;
+            nextPageIndex = m_iterator.currentPageIndex() + 1;
             nextPageOffset = currentPage.startOffset() + pageSize;
 
             // check whether the Vorbis Comment is present in this Ogg page
-            if (currentComment && m_iterator.currentPageIndex() >= currentParams->firstPageIndex
-                && m_iterator.currentPageIndex() <= currentParams->lastPageIndex && !currentPage.segmentSizes().empty()) {
+            if (auto *const currentComment = findComment(currentPage, m_iterator.currentPageIndex())) {
+                auto *const currentParams = &currentComment->oggParams();
                 // page needs to be rewritten (not just copied)
-                // -> write segments to a buffer first
-                auto buffer = std::stringstream(std::ios_base::in | std::ios_base::out | std::ios_base::binary);
-                auto newSegmentSizes = std::vector<std::uint32_t>();
-                newSegmentSizes.reserve(currentPage.segmentSizes().size());
+                // -> write segments to a buffer first; all pages covered by the comment are buffered until the last one is reached
+                auto &rewrite = rewriteBySerialNo[currentPage.streamSerialNumber()];
+                auto &buffer = rewrite.buffer;
+                auto &newSegmentSizes = rewrite.newSegmentSizes;
+                auto &firstSegmentContinued = rewrite.firstSegmentContinued;
+                auto lastSegmentUnconcluded = false;
+                newSegmentSizes.reserve(newSegmentSizes.size() + currentPage.segmentSizes().size());
+                if (currentPage.isFirstpage()) {
+                    rewrite.firstPageFlag = 0x02;
+                }
                 auto segmentOffset = m_iterator.currentSegmentOffset();
-                auto segmentIndex = std::vector<std::uint32_t>::size_type();
+                auto segmentIndex = std::size_t();
                 for (const auto segmentSize : currentPage.segmentSizes()) {
-                    if (!segmentSize) {
-                        ++segmentIndex;
-                        continue;
-                    }
-                    // check whether this segment contains the Vorbis Comment
-                    if (currentParams
-                        && (m_iterator.currentPageIndex() >= currentParams->firstPageIndex && segmentIndex >= currentParams->firstSegmentIndex)
-                        && (m_iterator.currentPageIndex() <= currentParams->lastPageIndex && segmentIndex <= currentParams->lastSegmentIndex)) {
+                    // check whether this segment contains (a part of) the Vorbis Comment
+                    const auto position = std::make_pair(m_iterator.currentPageIndex(), segmentIndex);
+                    const auto isComment = position >= std::make_pair(currentParams->firstPageIndex, currentParams->firstSegmentIndex)
+                        && position <= std::make_pair(currentParams->lastPageIndex, currentParams->lastSegmentIndex);
+                    if (isComment) {
                         // prevent making the comment twice if it spreads over multiple pages/segments
-                        if (!currentParams->removed
-                            && ((m_iterator.currentPageIndex() == currentParams->firstPageIndex
-                                && m_iterator.currentSegmentIndex() == currentParams->firstSegmentIndex))) {
+                        // note: A comment which has been removed is still written (without any fields) because the comment packet is mandatory.
+                        if (position == std::make_pair(currentParams->firstPageIndex, currentParams->firstSegmentIndex)) {
                             makeVorbisCommentSegment(buffer, copyHelper, newSegmentSizes, currentComment, currentParams, diag);
                         }
-
-                        // proceed with next comment?
-                        if (m_iterator.currentPageIndex() > currentParams->lastPageIndex
-                            || (m_iterator.currentPageIndex() == currentParams->lastPageIndex && segmentIndex > currentParams->lastSegmentIndex)) {
-                            if (++tagIterator != tagEnd) {
-                                currentParams = &(currentComment = tagIterator->get())->oggParams();
-                            } else {
-                                currentComment = nullptr;
-                                currentParams = nullptr;
-                            }
-                        }
                     } else {
                         // copy other segments unchanged
                         backupStream.seekg(static_cast<std::streamoff>(segmentOffset));
                         copyHelper.copy(backupStream, buffer, segmentSize);
                         newSegmentSizes.push_back(segmentSize);
+                        firstSegmentContinued = firstSegmentContinued || (newSegmentSizes.size() == 1 && !segmentIndex && currentPage.isContinued());
+                        // do not conclude the last segment if it is continued on the next page
+                        lastSegmentUnconcluded = segmentIndex + 1 == currentPage.segmentSizes().size() && currentPage.isLastSegmentUnconcluded();
 
                         // check whether there is a new comment to be inserted into the current page
-                        if (currentParams && m_iterator.currentPageIndex() == currentParams->lastPageIndex
-                            && currentParams->firstSegmentIndex == numeric_limits<size_t>::max()) {
+                        if (m_iterator.currentPageIndex() == currentParams->lastPageIndex
+                            && currentParams->firstSegmentIndex == numeric_limits<size_t>::max() && !segmentIndex) {
                             if (!currentParams->removed) {
                                 makeVorbisCommentSegment(buffer, copyHelper, newSegmentSizes, currentComment, currentParams, diag);
                             }
-                            // proceed with next comment
-                            if (++tagIterator != tagEnd) {
-                                currentParams = &(currentComment = tagIterator->get())->oggParams();
-                            } else {
-                                currentComment = nullptr;
-                                currentParams = nullptr;
-                            }
                         }
                     }
                     segmentOffset += segmentSize;
@@ -580,14 +627,18 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                 }
 
                 // write buffered data to actual stream
+                if (m_iterator.currentPageIndex() != currentParams->lastPageIndex) {
+                    continue;
+                }
                 if (auto newSegmentSizesIterator = newSegmentSizes.cbegin(), newSegmentSizesEnd = newSegmentSizes.cend();
                     newSegmentSizesIterator != newSegmentSizesEnd) {
                     auto bytesLeft = *newSegmentSizesIterator;
-                    auto continuePreviousSegment = false, needsZeroLacingValue = false;
+                    auto continuePreviousSegment = firstSegmentContinued;
+                    auto needsZeroLacingValue = !bytesLeft;
                     // write pages until all data in the buffer is written
                     while (newSegmentSizesIterator != newSegmentSizesEnd) {
                         // memorize offset to update checksum later
-                        updatedPageOffsets.push_back(static_cast<std::uint64_t>(stream().tellp()));
+                        updatedPageOffsets.push_back(lastPageNewOffset = static_cast<std::uint64_t>(stream().tellp()));
                         // copy page header from original file (except for the segment table)
                         backupStream.seekg(static_cast<streamoff>(currentPage.startOffset()));
                         copyHelper.copy(backupStream, stream(), oggPageHeaderSize);
@@ -595,8 +646,8 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                         auto flags = (currentPage.headerTypeFlag() & 0xFE) | (continuePreviousSegment ? 0x01 : 0x00);
                         continuePreviousSegment = true;
                         // ensure "first page of logical bitstream"-flag is cleared for additional pages we need to insert
-                        // ensure "last page of logical bitstream"-flag is cleared for the first page
-                        flags = flags & (newSegmentSizesIterator != newSegmentSizes.cbegin() ? 0xFD : 0xF);
+                        flags = (flags & 0xFD) | rewrite.firstPageFlag;
+                        rewrite.firstPageFlag = 0x00;
                         // override flags copied from original file
                         stream().seekp(-22, ios_base::cur);
                         stream().put(static_cast<char>(flags));
@@ -610,7 +661,9 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                         // the max number of segment sizes (255) is not exceeded
                         auto segmentSizesWritten = std::int16_t(); // in the current page header only
                         auto currentSize = std::uint32_t();
+                        auto packetFinished = false;
                         while ((bytesLeft || needsZeroLacingValue) && segmentSizesWritten < 0xFF) {
+                            const auto concludeSegment = !lastSegmentUnconcluded || newSegmentSizesIterator + 1 != newSegmentSizesEnd;
                             while (bytesLeft > 0xFF && segmentSizesWritten < 0xFF) {
                                 stream().put(static_cast<char>(0xFF));
                                 currentSize += 0xFF;
@@ -621,37 +674,36 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                                 // bytes left is here <= 0xFF
                                 stream().put(static_cast<char>(bytesLeft));
                                 currentSize += bytesLeft;
-                                needsZeroLacingValue = bytesLeft == 0xFF;
+                                needsZeroLacingValue = bytesLeft == 0xFF && concludeSegment;
                                 bytesLeft = 0;
                                 ++segmentSizesWritten;
                             }
                             if (!bytesLeft && !needsZeroLacingValue) {
                                 // sizes for the segment have been written
                                 // -> continue with next segment
+                                packetFinished = packetFinished || concludeSegment;
                                 if (++newSegmentSizesIterator != newSegmentSizesEnd) {
                                     bytesLeft = *newSegmentSizesIterator;
-                                    continuePreviousSegment = false;
+                                    needsZeroLacingValue = !bytesLeft;
+                                    // set the continue flag of the next page only if there have been lacing values written for the next segment
+                                    continuePreviousSegment = segmentSizesWritten < 0xFF;
                                 }
                             }
                         }
 
-                        // remove continue flag if there are no bytes left in the current segment
-                        if (!bytesLeft && !needsZeroLacingValue) {
-                            continuePreviousSegment = false;
+                        // ensure "last page of logical bitstream"-flag is cleared for all pages except the last one
+                        if (newSegmentSizesIterator != newSegmentSizesEnd && (flags & 0x04)) {
+                            stream().seekp(-22 - segmentSizesWritten, ios_base::cur);
+                            stream().put(static_cast<char>(flags & 0xFB));
+                            stream().seekp(21 + segmentSizesWritten, ios_base::cur);
                         }
 
                         // set the absolute granule postion
-                        if (newSegmentSizesIterator != newSegmentSizesEnd) {
-                            // set absolute granule position to special value "-1" if there are still bytes to be written in the current packet
+                        if (!packetFinished) {
+                            // set absolute granule position to special value "-1" if no packet finishes on the page
                             stream().seekp(-21 - segmentSizesWritten, ios_base::cur);
                             writer().writeInt64LE(-1);
                             stream().seekp(12, ios_base::cur);
-                        } else if (currentParams->lastPageIndex != currentParams->firstPageIndex) {
-                            // ensure the written absolute granule position matches the one from the last page of the existing file
-                            backupStream.seekg(static_cast<streamoff>(m_iterator.pages()[currentParams->lastPageIndex].startOffset() + 6));
-                            stream().seekp(-21 - segmentSizesWritten, ios_base::cur);
-                            copyHelper.copy(backupStream, stream(), 8);
-                            stream().seekp(12, ios_base::cur);
                         } else {
                             // leave the absolute granule position unchanged
                             stream().seekp(-1 - segmentSizesWritten, ios_base::cur);
@@ -668,26 +720,16 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                         ++pageSequenceNumber;
                     }
                 }
+                rewriteBySerialNo.erase(currentPage.streamSerialNumber());
 
             } else {
-                if (pageSequenceNumber != m_iterator.currentPageIndex()) {
-                    // just update page sequence number
-                    backupStream.seekg(static_cast<streamoff>(currentPage.startOffset()));
-                    updatedPageOffsets.push_back(static_cast<std::uint64_t>(stream().tellp())); // memorize offset to update checksum later
-                    copyHelper.copy(backupStream, stream(), oggPageHeaderSize);
-                    stream().seekp(-9, ios_base::cur);
-                    writer().writeUInt32LE(pageSequenceNumber);
-                    stream().seekp(5, ios_base::cur);
-                    copyHelper.copy(backupStream, stream(), pageSize - oggPageHeaderSize);
-                } else {
-                    // copy page unchanged
-                    backupStream.seekg(static_cast<streamoff>(currentPage.startOffset()));
-                    copyHelper.copy(backupStream, stream(), pageSize);
-                }
-                ++pageSequenceNumber;
+                copyPage(currentPage);
             }
         }
 
+        // copy empty pages at the end
+        copyEmptyPages(m_iterator.pages().size());
+
         // report new size
         fileInfo().reportSizeChanged(static_cast<std::uint64_t>(stream().tellp()));
         progress.updateStepPercentage(100);
@@ -705,7 +747,7 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         stream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
 
         // ensure the "last page of logical bitstream"-flag is set on the last Ogg page (in case the last page was written/modified by us)
-        if (lastPage && lastPageNewOffset) {
+        if (lastPageNewOffset) {
             const auto offset = static_cast<std::streamoff>(lastPageNewOffset + 5ul);
             stream.seekg(offset);
             if (const auto flag = stream.get(); !(flag & 0x04)) {
-- 
2.43.0


From 4304bcb50f29be1eafa0d7117cedaaafeb8c734a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:26 +0000
Subject: [PATCH 008/105] fix: do not treat packet following a Vorbis comment
 as its padding

---
 vorbis/vorbiscomment.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index 0a7ac6f..4b56ad0 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -306,7 +306,8 @@ void VorbisComment::internalParse(StreamType &stream, std::uint64_t maxSize, Vor
         auto bytesRemaining = std::uint64_t();
         if (stream) {
             bytesRemaining = stream.remainingBytesInCurrentSegment();
-            if (stream.currentPage().isLastSegmentUnconcluded()) {
+            while (stream && stream.currentPage().isLastSegmentUnconcluded()
+                && stream.currentSegmentIndex() + 1 == stream.currentPage().segmentSizes().size()) {
                 stream.nextSegment();
                 if (stream) {
                     bytesRemaining += stream.remainingBytesInCurrentSegment();
-- 
2.43.0


From 78eb9f3c40aca92662e4c44fa14a89f496c7ed1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:26 +0000
Subject: [PATCH 009/105] fix: reset number of read bytes when setting position
 of Ogg iterator

---
 ogg/oggiterator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ogg/oggiterator.h b/ogg/oggiterator.h
index c76a06f..f01c30b 100644
--- a/ogg/oggiterator.h
+++ b/ogg/oggiterator.h
@@ -183,7 +183,7 @@ inline std::vector<OggPage>::size_type OggIterator::currentPageIndex() const
 inline void OggIterator::setPageIndex(std::vector<OggPage>::size_type index)
 {
     const OggPage &page = m_pages[m_page = index];
-    m_segment = 0;
+    m_segment = m_bytesRead = 0;
     m_offset = page.startOffset() + page.headerSize();
 }
 
@@ -196,6 +196,7 @@ inline void OggIterator::setSegmentIndex(std::vector<std::uint32_t>::size_type i
 {
     const OggPage &page = m_pages[m_page];
     m_offset = page.dataOffset(m_segment = index);
+    m_bytesRead = 0;
 }
 
 /*!
-- 
2.43.0


From 9fe3255f398a170e22f84ff57f55c70fd0c581c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:34 +0000
Subject: [PATCH 010/105] fix: avoid outdated order of SeekHead entries when
 recalculating Matroska segment

---
 matroska/matroskacontainer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index bceb9ca..f459650 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1061,6 +1061,11 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         // -> index of current element during iteration
         unsigned int index;
 
+        // discard seek information of previous calculations (positions, presence and order of elements might be different now)
+        for (auto &segment : segmentData) {
+            segment.seekInfo.clear();
+        }
+
         // if rewriting is required always use the preferred tag/cue position
         if (rewriteRequired) {
             newTagPos = fileInfo().tagPosition();
-- 
2.43.0


From fdd61231e64026892eea079db9958a90cd2b7469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:40 +0000
Subject: [PATCH 011/105] fix: update PrevSize elements when rewriting Matroska
 clusters

---
 matroska/matroskacontainer.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index f459650..aa0a770 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1385,6 +1385,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     // pretend writing "Cluster"-element
                     segment.clusterSizes.clear();
                     bool cuesInvalidated = false;
+                    std::uint64_t previousClusterSize = 0;
                     for (index = 0; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++index) {
                         // update offset of "Cluster"-element in "Cues"-element
                         clusterReadOffset = level1Element->startOffset() - level0Element->dataOffset() + readOffset;
@@ -1411,13 +1412,19 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                     case MatroskaIds::Position:
                                         clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(currentPosition + segment.totalDataSize);
                                         break;
+                                    case MatroskaIds::PrevSize:
+                                        // the size of the previous cluster might be changed as well
+                                        clusterSize += previousClusterSize ? 1u + 1u + EbmlElement::calculateUIntegerLength(previousClusterSize)
+                                                                           : level2Element->totalSize();
+                                        break;
                                     default:
                                         clusterSize += level2Element->totalSize();
                                     }
                                     clusterReadSize += level2Element->totalSize();
                                 }
                                 segment.clusterSizes.push_back(clusterSize);
-                                segment.totalDataSize += 4u + EbmlElement::calculateSizeDenotationLength(clusterSize) + clusterSize;
+                                segment.totalDataSize += previousClusterSize
+                                    = 4u + EbmlElement::calculateSizeDenotationLength(clusterSize) + clusterSize;
                             }
                         }
                         // check whether aborted (because this loop might take some seconds to process)
@@ -1729,6 +1736,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     // write "Cluster"-element
                     auto clusterSizesIterator = segment.clusterSizes.cbegin();
                     unsigned int index = 0;
+                    std::uint64_t previousClusterSize = 0;
                     for (; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++clusterSizesIterator, ++index) {
                         // calculate position of cluster in segment
                         clusterSize = currentPosition + (static_cast<std::uint64_t>(outputStream.tellp()) - offset);
@@ -1745,10 +1753,18 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             case MatroskaIds::Position:
                                 EbmlElement::makeSimpleElement(outputStream, MatroskaIds::Position, clusterSize);
                                 break;
+                            case MatroskaIds::PrevSize:
+                                if (previousClusterSize) {
+                                    EbmlElement::makeSimpleElement(outputStream, MatroskaIds::PrevSize, previousClusterSize);
+                                } else {
+                                    level2Element->copyEntirely(outputStream, diag, nullptr);
+                                }
+                                break;
                             default:
                                 level2Element->copyEntirely(outputStream, diag, nullptr);
                             }
                         }
+                        previousClusterSize = 4u + sizeLength + *clusterSizesIterator;
                         // update percentage, check whether the operation has been aborted
                         progress.stopIfAborted();
                         if (index % 50 == 0) {
-- 
2.43.0


From d1f8b88ea53424487d2938b76125d52249d559bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:04 +0000
Subject: [PATCH 012/105] fix: update Position elements of all Matroska
 clusters when updating in place

---
 matroska/matroskacontainer.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index aa0a770..ee27db3 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1777,9 +1777,26 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     progress.nextStepOrStop("Updating cluster ...",
                         static_cast<std::uint8_t>((static_cast<std::uint64_t>(outputStream.tellp()) - offset) * 100 / segment.totalDataSize));
                     for (; level1Element; level1Element = level1Element->nextSibling()) {
-                        for (level2Element = level1Element->firstChild(); level2Element; level2Element = level2Element->nextSibling()) {
+                        EbmlElement *crc32Element = nullptr;
+                        // note: The "Position"-element precedes the blocks so it is not required to parse the entire cluster.
+                        for (level2Element = level1Element->id() == MatroskaIds::Cluster ? level1Element->firstChild() : nullptr; level2Element;
+                            level2Element = level2Element->nextSibling()) {
+                            level2Element->parse(diag);
+                            if (level2Element->id() == EbmlIds::Crc32) {
+                                crc32Element = level2Element;
+                            }
+                            if (level2Element->id() == MatroskaIds::SimpleBlock || level2Element->id() == MatroskaIds::BlockGroup) {
+                                break;
+                            }
                             switch (level2Element->id()) {
                             case MatroskaIds::Position:
+                                // void the checksum of the cluster if it becomes invalid (checksums of clusters are not preserved when rewriting either)
+                                if (crc32Element
+                                    && level2Element->readUInteger() != level1Element->startOffset() - segmentData.front().newDataOffset) {
+                                    outputStream.seekp(static_cast<streamoff>(crc32Element->startOffset()));
+                                    outputStream.put(static_cast<char>(EbmlIds::Void));
+                                    crc32Element = nullptr;
+                                }
                                 // calculate new position
                                 sizeLength = EbmlElement::makeUInteger(level1Element->startOffset() - segmentData.front().newDataOffset, buff,
                                     level2Element->dataSize() > 8 ? 8 : static_cast<std::uint8_t>(level2Element->dataSize()));
-- 
2.43.0


From c226a3d0276cd3245da15d82998b295a08f56554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:06 +0000
Subject: [PATCH 013/105] fix: handle Matroska clusters of unknown size when
 applying changes

---
 genericfileelement.h           | 9 +++++++++
 matroska/ebmlelement.cpp       | 4 ++++
 matroska/matroskacontainer.cpp | 9 +++++++++
 3 files changed, 22 insertions(+)

diff --git a/genericfileelement.h b/genericfileelement.h
index eef3987..b4a7264 100644
--- a/genericfileelement.h
+++ b/genericfileelement.h
@@ -110,6 +110,7 @@ public:
     bool isPadding() const;
     std::uint64_t firstChildOffset() const;
     bool isParsed() const;
+    bool isSizeUnknown() const;
     void clear();
     void parse(Diagnostics &diag);
     void reparse(Diagnostics &diag);
@@ -744,6 +745,14 @@ template <class ImplementationType> inline bool GenericFileElement<Implementatio
     return m_parsed;
 }
 
+/*!
+ * \brief Returns whether the denoted size of the element is unknown so dataSize() is just an assumption.
+ */
+template <class ImplementationType> inline bool GenericFileElement<ImplementationType>::isSizeUnknown() const
+{
+    return m_sizeUnknown;
+}
+
 /*!
  * \brief Clears the status of the element.
  *
diff --git a/matroska/ebmlelement.cpp b/matroska/ebmlelement.cpp
index d1baf02..6043aec 100644
--- a/matroska/ebmlelement.cpp
+++ b/matroska/ebmlelement.cpp
@@ -173,6 +173,10 @@ void EbmlElement::internalParse(Diagnostics &diag)
             // xor the first byte in buffer which has been read from the file with mask
             *(buf + (maximumSizeLengthSupported() - m_sizeLength)) ^= static_cast<char>(mask);
             m_dataSize = BE::toInt<std::uint64_t>(buf);
+            if ((m_sizeUnknown = (m_dataSize == (static_cast<std::uint64_t>(1) << (7 * m_sizeLength)) - 1))) {
+                // all bits of the size are set which indicates an unknown size as well (see comment above)
+                m_dataSize = maxTotalSize() - headerSize();
+            }
             // check if element is truncated
             if (totalSize() > maxTotalSize()) {
                 if (m_idLength + m_sizeLength > maxTotalSize()) { // header truncated
diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index ee27db3..cd523b2 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1268,6 +1268,8 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             for (index = 0; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++index) {
                                 clusterReadOffset = level1Element->startOffset() - level0Element->dataOffset() + readOffset;
                                 segment.clusterEndOffset = level1Element->endOffset();
+                                // rewrite file if the end of the cluster is not known
+                                rewriteRequired = rewriteRequired || level1Element->isSizeUnknown();
                                 if (segment.cuesElement
                                     && segment.cuesUpdater.updateOffsets(
                                         clusterReadOffset, level1Element->startOffset() - 4 - segment.sizeDenotationLength - ebmlHeaderSize)
@@ -1281,6 +1283,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                     progress.updateStepPercentage(static_cast<std::uint8_t>(level1Element->dataOffset() * 100 / fileInfo().size()));
                                 }
                             }
+                            if (rewriteRequired) {
+                                goto calculateSegmentData;
+                            }
                             if (cuesInvalidated) {
                                 segment.totalDataSize = offset;
                                 goto addCuesElementSize;
@@ -1400,6 +1405,10 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                 clusterSize = clusterReadSize = 0;
                                 for (level2Element = level1Element->firstChild(); level2Element; level2Element = level2Element->nextSibling()) {
                                     level2Element->parse(diag);
+                                    if (level2Element->parent() != level1Element) {
+                                        // the size of the cluster is unknown and this element turned out to be not part of it anymore
+                                        break;
+                                    }
                                     if (segment.cuesElement
                                         && segment.cuesUpdater.updateRelativeOffsets(clusterReadOffset, clusterReadSize, clusterSize)
                                         && newCuesPos == ElementPosition::BeforeData) {
-- 
2.43.0


From 716039e0b8510b29513e357009c0638c3375a333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:57 +0000
Subject: [PATCH 014/105] fix: preserve unknown elements and elements between
 clusters when applying changes to Matroska files

---
 matroska/matroskacontainer.cpp | 67 ++++++++++++++++++++++++++++++----
 1 file changed, 60 insertions(+), 7 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index cd523b2..6d7f72d 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -858,6 +858,26 @@ struct SegmentData {
     std::uint8_t sizeDenotationLength;
 };
 
+/// \brief Returns whether elements with the specified \a id on "Segment"-level are taken care of explicitly by MatroskaContainer::internalMakeFile().
+static bool isKnownSegmentChild(EbmlElement::IdentifierType id)
+{
+    switch (id) {
+    case EbmlIds::Void:
+    case EbmlIds::Crc32:
+    case MatroskaIds::SeekHead:
+    case MatroskaIds::SegmentInfo:
+    case MatroskaIds::Tracks:
+    case MatroskaIds::Chapters:
+    case MatroskaIds::Tags:
+    case MatroskaIds::Attachments:
+    case MatroskaIds::Cues:
+    case MatroskaIds::Cluster:
+        return true;
+    default:
+        return false;
+    }
+}
+
 void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback &progress)
 {
     static const string context("making Matroska container");
@@ -1015,6 +1035,19 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 switch (level0Element->id()) {
                 case MatroskaIds::Segment:
                     ++lastSegmentIndex;
+                    // determine the actual end of clusters of unknown size (elements which turn out not to be part of the cluster become its siblings)
+                    for (level1Element = level0Element->childById(MatroskaIds::Cluster, diag); level1Element;
+                        level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag)) {
+                        if (!level1Element->isSizeUnknown()) {
+                            continue;
+                        }
+                        for (level2Element = level1Element->firstChild(); level2Element; level2Element = level2Element->nextSibling()) {
+                            level2Element->parse(diag);
+                            if (level2Element->parent() != level1Element) {
+                                break;
+                            }
+                        }
+                    }
                     for (level1Element = level0Element->firstChild(); level1Element && !firstClusterFound && !firstTagFound;
                         level1Element = level1Element->nextSibling()) {
                         level1Element->parse(diag);
@@ -1191,6 +1224,15 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     }
                 }
 
+                // pretend writing unknown elements (those are just preserved)
+                for (level1Element = level0Element->firstChild(); level1Element; level1Element = level1Element->nextSibling()) {
+                    level1Element->parse(diag);
+                    if (!isKnownSegmentChild(level1Element->id())) {
+                        level1Element->makeBuffer();
+                        segment.totalDataSize += level1Element->totalSize();
+                    }
+                }
+
                 // "Tags"- and "Attachments"-element are written in either the first or the last segment
                 // and either before "Cues"- and "Cluster"-elements or after these elements
                 // depending on the desired tag position (at the front/at the end)
@@ -1264,12 +1306,19 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                 goto calculateSegmentSize;
                             }
                             // -> update offset of "Cluster"-element in "Cues"-element and get end offset of last "Cluster"-element
-                            bool cuesInvalidated = false;
+                            bool cuesInvalidated = false, otherElementBetweenClusters = false;
                             for (index = 0; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++index) {
                                 clusterReadOffset = level1Element->startOffset() - level0Element->dataOffset() + readOffset;
                                 segment.clusterEndOffset = level1Element->endOffset();
-                                // rewrite file if the end of the cluster is not known
-                                rewriteRequired = rewriteRequired || level1Element->isSizeUnknown();
+                                // rewrite file if there are other elements between clusters
+                                rewriteRequired = rewriteRequired || otherElementBetweenClusters;
+                                for (level2Element = level1Element->nextSibling(); level2Element; level2Element = level2Element->nextSibling()) {
+                                    level2Element->parse(diag);
+                                    if (level2Element->id() == MatroskaIds::Cluster) {
+                                        break;
+                                    }
+                                    otherElementBetweenClusters = otherElementBetweenClusters || level2Element->id() != EbmlIds::Void;
+                                }
                                 if (segment.cuesElement
                                     && segment.cuesUpdater.updateOffsets(
                                         clusterReadOffset, level1Element->startOffset() - 4 - segment.sizeDenotationLength - ebmlHeaderSize)
@@ -1405,10 +1454,6 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                 clusterSize = clusterReadSize = 0;
                                 for (level2Element = level1Element->firstChild(); level2Element; level2Element = level2Element->nextSibling()) {
                                     level2Element->parse(diag);
-                                    if (level2Element->parent() != level1Element) {
-                                        // the size of the cluster is unknown and this element turned out to be not part of it anymore
-                                        break;
-                                    }
                                     if (segment.cuesElement
                                         && segment.cuesUpdater.updateRelativeOffsets(clusterReadOffset, clusterReadSize, clusterSize)
                                         && newCuesPos == ElementPosition::BeforeData) {
@@ -1692,6 +1737,14 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     level1Element->discardBuffer();
                 }
 
+                // write unknown elements
+                for (level1Element = level0Element->firstChild(); level1Element; level1Element = level1Element->nextSibling()) {
+                    if (!isKnownSegmentChild(level1Element->id())) {
+                        level1Element->copyBuffer(outputStream);
+                        level1Element->discardBuffer();
+                    }
+                }
+
                 if (newTagPos == ElementPosition::BeforeData && segmentIndex == 0) {
                     // write "Tags"-element
                     if (tagsSize) {
-- 
2.43.0


From 56639eaf04318505b131a56f12a5121a0ad244e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:21 +0000
Subject: [PATCH 015/105] fix: consider the atom containing the chunk when
 updating MP4 chunk offsets

---
 mp4/mp4container.cpp | 10 ++++++----
 mp4/mp4track.cpp     | 15 ++++++++-------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 1cf39d5..4422a85 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -727,13 +727,14 @@ calculatePadding:
                             if (writeChunkByChunk) {
                                 // write actual data separately when writing chunk-by-chunk
                                 break;
-                            } else {
+                            }
+                            [[fallthrough]];
+                        default:
+                            if (!writeChunkByChunk) {
                                 // store media data offsets when not writing chunk-by-chunk to be able to update chunk offset table
                                 origMediaDataOffsets.push_back(static_cast<std::int64_t>(level0Atom->startOffset()));
                                 newMediaDataOffsets.push_back(outputStream.tellp());
                             }
-                            [[fallthrough]];
-                        default:
                             // update status
                             progress.updateStep("Writing atom: " + level0Atom->idToString());
                             // copy atom entirely and forward status update calls
@@ -971,7 +972,8 @@ void Mp4Container::updateOffsets(const std::vector<std::int64_t> &oldMdatOffsets
                         }
                         stream().seekg(4, ios_base::cur); // skip track ID
                         std::uint64_t off = reader().readUInt64BE();
-                        for (auto iOld = oldMdatOffsets.cbegin(), iNew = newMdatOffsets.cbegin(), end = oldMdatOffsets.cend(); iOld != end;
+                        // find the last atom starting before or at the offset
+                        for (auto iOld = oldMdatOffsets.crbegin(), iNew = newMdatOffsets.crbegin(), end = oldMdatOffsets.crend(); iOld != end;
                             ++iOld, ++iNew) {
                             if (off < static_cast<std::uint64_t>(*iOld)) {
                                 continue;
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 8a77edd..7196468 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -958,16 +958,16 @@ void Mp4Track::updateChunkOffsets(const vector<std::int64_t> &oldMdatOffsets, co
     m_istream->seekg(static_cast<streamoff>(startPos));
     m_ostream->seekp(static_cast<streamoff>(startPos));
     vector<std::int64_t>::size_type i;
-    vector<std::int64_t>::size_type size;
     auto currentPos = static_cast<std::uint64_t>(m_istream->tellg());
     switch (m_stcoAtom->id()) {
     case Mp4AtomIds::ChunkOffset: {
         std::uint32_t off;
         while ((currentPos + 4) <= endPos) {
             off = m_reader.readUInt32BE();
-            for (i = 0, size = oldMdatOffsets.size(); i < size; ++i) {
-                if (off > static_cast<std::uint64_t>(oldMdatOffsets[i])) {
-                    off += static_cast<std::uint32_t>(newMdatOffsets[i] - oldMdatOffsets[i]);
+            for (i = oldMdatOffsets.size(); i > 0; --i) {
+                // adjust the offset according to the last atom starting before it
+                if (off > static_cast<std::uint64_t>(oldMdatOffsets[i - 1])) {
+                    off += static_cast<std::uint32_t>(newMdatOffsets[i - 1] - oldMdatOffsets[i - 1]);
                     break;
                 }
             }
@@ -981,9 +981,10 @@ void Mp4Track::updateChunkOffsets(const vector<std::int64_t> &oldMdatOffsets, co
         std::uint64_t off;
         while ((currentPos + 8) <= endPos) {
             off = m_reader.readUInt64BE();
-            for (i = 0, size = oldMdatOffsets.size(); i < size; ++i) {
-                if (off > static_cast<std::uint64_t>(oldMdatOffsets[i])) {
-                    off += static_cast<std::uint64_t>(newMdatOffsets[i] - oldMdatOffsets[i]);
+            for (i = oldMdatOffsets.size(); i > 0; --i) {
+                // adjust the offset according to the last atom starting before it
+                if (off > static_cast<std::uint64_t>(oldMdatOffsets[i - 1])) {
+                    off += static_cast<std::uint64_t>(newMdatOffsets[i - 1] - oldMdatOffsets[i - 1]);
                     break;
                 }
             }
-- 
2.43.0


From 314dad47ff968f8a01e4fe6a0d23699781ace77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:29 +0000
Subject: [PATCH 016/105] fix: skip voided atoms between media data when
 updating MP4 files in place

---
 mp4/mp4container.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 4422a85..a33250a 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -823,6 +823,7 @@ calculatePadding:
                             // must void these if they occur "between" the media data
                             outputStream.seekp(4, ios_base::cur);
                             outputWriter.writeUInt32BE(Mp4AtomIds::Free);
+                            outputStream.seekp(static_cast<iostream::off_type>(level0Atom->totalSize() - 8), ios_base::cur);
                             break;
                         default:
                             outputStream.seekp(static_cast<iostream::off_type>(level0Atom->totalSize()), ios_base::cur);
-- 
2.43.0


From b54d466656fcf80b025305e26b8dff3cbb60076d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:36 +0000
Subject: [PATCH 017/105] fix: handle MP4 files without media data when
 applying changes

---
 mp4/mp4container.cpp | 8 ++++++--
 mp4/mp4track.cpp     | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index a33250a..90fd165 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -333,7 +333,11 @@ void Mp4Container::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                 newTagPos = currentTagPos;
             }
         } else {
-            currentTagPos = ElementPosition::Keep;
+            // treat files without media data as if the tags were placed before it
+            currentTagPos = ElementPosition::BeforeData;
+            if (newTagPos == ElementPosition::Keep) {
+                newTagPos = currentTagPos;
+            }
         }
 
         // ensure index and tags are always placed at the beginning when dealing with DASH files
@@ -485,7 +489,7 @@ calculatePadding:
             //    min padding: says "at least ... byte should be reserved to prepend further tag info", so the padding at the end
             //                 shouldn't be tanken into account (it can't be used to prepend further tag info)
             //    max padding: says "do not waste more than ... byte", so here all padding should be taken into account
-            newPadding = firstMediaDataAtom->startOffset() - currentOffset;
+            newPadding = firstMediaDataAtom ? firstMediaDataAtom->startOffset() - currentOffset : 0;
             rewriteRequired = (newPadding > 0 && newPadding < 8) || newPadding < fileInfo().minPadding()
                 || (newPadding + newPaddingEnd) > fileInfo().maxPadding();
         }
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 7196468..b79e4bb 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -949,7 +949,7 @@ void Mp4Track::updateChunkOffsets(const vector<std::int64_t> &oldMdatOffsets, co
     if (!isHeaderValid() || !m_ostream || !m_istream || !m_stcoAtom) {
         throw InvalidDataException();
     }
-    if (oldMdatOffsets.size() == 0 || oldMdatOffsets.size() != newMdatOffsets.size()) {
+    if (oldMdatOffsets.size() != newMdatOffsets.size()) {
         throw InvalidDataException();
     }
     static const unsigned int stcoDataBegin = 8;
-- 
2.43.0


From ee05e17017a0190e5e155682e2890808a264e52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:43 +0000
Subject: [PATCH 018/105] fix: preserve further children of MP4 media atoms

---
 mp4/mp4track.cpp | 38 ++++++++++++++++++++++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index b79e4bb..2b9b190 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1113,6 +1113,21 @@ void Mp4Track::addInfo(const Av1Configuration &av1Config, AbstractTrack &track)
     throw NotImplementedException();
 }
 
+/*!
+ * \brief Returns whether the specified child of the "mdia"-atom is made from scratch (and not copied as-is).
+ */
+static bool isMadeMediaChild(const Mp4Atom *mdiaChild)
+{
+    switch (mdiaChild->id()) {
+    case Mp4AtomIds::MediaHeader:
+    case Mp4AtomIds::HandlerReference:
+    case Mp4AtomIds::MediaInformation:
+        return true;
+    default:
+        return false;
+    }
+}
+
 /*!
  * \brief Buffers all atoms required by the makeTrack() method.
  *
@@ -1132,6 +1147,13 @@ void Mp4Track::bufferTrackAtoms(Diagnostics &diag)
         }
         trakChild->makeBuffer();
     }
+    if (m_mdiaAtom) {
+        for (Mp4Atom *childAtom = m_mdiaAtom->firstChild(); childAtom; childAtom = childAtom->nextSibling()) {
+            if (childAtom->parse(diag), !isMadeMediaChild(childAtom)) {
+                childAtom->makeBuffer();
+            }
+        }
+    }
     if (m_minfAtom) {
         for (Mp4Atom *childAtom = m_minfAtom->firstChild(); childAtom; childAtom = childAtom->nextSibling()) {
             if (childAtom->id() == Mp4AtomIds::SampleTable) {
@@ -1224,6 +1246,14 @@ std::uint64_t Mp4Track::requiredSize(Diagnostics &diag) const
     }
     // ... mdia header + hdlr total size + minf header
     size += 8 + (33 + m_name.size()) + 8;
+    // ... further mdia children
+    if (m_mdiaAtom) {
+        for (Mp4Atom *childAtom = m_mdiaAtom->firstChild(); childAtom; childAtom = childAtom->nextSibling()) {
+            if (childAtom->parse(diag), !isMadeMediaChild(childAtom)) {
+                size += childAtom->totalSize();
+            }
+        }
+    }
     // ... minf children
     auto dinfAtomWritten = false;
     if (m_minfAtom) {
@@ -1462,6 +1492,14 @@ void Mp4Track::makeMedia(Diagnostics &diag)
     for (int i = 0; i < 3; ++i)
         writer().writeUInt32BE(0); // reserved
     writer().writeTerminatedString(m_name);
+    // write further children of mdia atom
+    if (m_mdiaAtom) {
+        for (Mp4Atom *childAtom = m_mdiaAtom->firstChild(); childAtom; childAtom = childAtom->nextSibling()) {
+            if (childAtom->parse(diag), !isMadeMediaChild(childAtom)) {
+                childAtom->copyPreferablyFromBuffer(outputStream(), diag, nullptr);
+            }
+        }
+    }
     // write minf atom
     makeMediaInfo(diag);
     // write size (of mdia atom)
-- 
2.43.0


From 30b063897a3bb7749daa6ba1ed412c11420ecea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:17 +0000
Subject: [PATCH 019/105] fix: denote size of MP4 media data extending to the
 end of the file when writing tags after it

---
 mp4/mp4container.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 90fd165..15c974e 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -268,7 +268,7 @@ void Mp4Container::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
     auto mediaSize = std::uint64_t();
 
     // find relevant atoms in original file and determine media size
-    Mp4Atom *fileTypeAtom, *progressiveDownloadInfoAtom, *movieAtom, *firstMediaDataAtom, *firstMovieFragmentAtom /*, *userDataAtom*/;
+    Mp4Atom *fileTypeAtom, *progressiveDownloadInfoAtom, *movieAtom, *firstMediaDataAtom, *firstMovieFragmentAtom, *unboundMediaDataAtom = nullptr /*, *userDataAtom*/;
     Mp4Atom *level0Atom, *level1Atom, *level2Atom, *lastAtomToBeWritten = nullptr;
     try {
         // file type atom (mandatory)
@@ -322,6 +322,11 @@ void Mp4Container::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
                     firstMediaDataAtom = level0Atom;
                 }
                 mediaSize += level0Atom->totalSize();
+                // check whether the atom extends to the end of the file (size denotation is zero)
+                stream().seekg(static_cast<std::streamoff>(level0Atom->startOffset()));
+                if (!reader().readUInt32BE()) {
+                    unboundMediaDataAtom = level0Atom;
+                }
             }
         }
 
@@ -535,6 +540,14 @@ calculatePadding:
         }
     }
 
+    // ensure an atom extending to the end of the file can be bound if something needs to be written after it
+    if (newTagPos != ElementPosition::AfterData) {
+        unboundMediaDataAtom = nullptr;
+    } else if (unboundMediaDataAtom && unboundMediaDataAtom->totalSize() > std::numeric_limits<std::uint32_t>::max()) {
+        diag.emplace_back(DiagLevel::Critical, "Putting index/tags after media data of unspecified size exceeding 4 GiB is not supported.", context);
+        throw NotImplementedException();
+    }
+
     // setup stream(s) for writing
     // -> update status
     progress.nextStepOrStop("Preparing streams ...");
@@ -742,7 +755,11 @@ calculatePadding:
                             // update status
                             progress.updateStep("Writing atom: " + level0Atom->idToString());
                             // copy atom entirely and forward status update calls
+                            const auto newOffset = outputStream.tellp();
                             level0Atom->copyEntirely(outputStream, diag, &progress);
+                            if (level0Atom == unboundMediaDataAtom) {
+                                Mp4Atom::seekBackAndWriteAtomSize(outputStream, newOffset, diag);
+                            }
                         }
                     }
 
@@ -830,6 +847,10 @@ calculatePadding:
                             outputStream.seekp(static_cast<iostream::off_type>(level0Atom->totalSize() - 8), ios_base::cur);
                             break;
                         default:
+                            if (level0Atom == unboundMediaDataAtom) {
+                                outputWriter.writeUInt32BE(static_cast<std::uint32_t>(level0Atom->totalSize()));
+                                outputStream.seekp(-4, ios_base::cur);
+                            }
                             outputStream.seekp(static_cast<iostream::off_type>(level0Atom->totalSize()), ios_base::cur);
                         }
                         if (level0Atom == lastAtomToBeWritten) {
-- 
2.43.0


From ed6392dbcf069f55b38e8b420fa8f850460ea39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:52 +0000
Subject: [PATCH 020/105] fix: keep data type of additional MP4 data atoms

---
 mp4/mp4tagfield.cpp | 25 ++++++++++++++++---------
 mp4/mp4tagfield.h   |  4 ++--
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index bffd89b..c68e555 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -144,10 +144,13 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                     diag.emplace_back(DiagLevel::Warning,
                         "The version indicator byte is not zero, the tag atom might be unsupported and hence not be parsed correctly.", context);
                 }
-                setTypeInfo(*rawDataType = reader.readUInt24BE());
+                *rawDataType = reader.readUInt24BE();
+                if (dataAtomFound == 1) {
+                    setTypeInfo(*rawDataType);
+                }
                 try { // try to show warning if parsed raw data type differs from expected raw data type for this atom id
                     const vector<std::uint32_t> expectedRawDataTypes = this->expectedRawDataTypes();
-                    if (find(expectedRawDataTypes.cbegin(), expectedRawDataTypes.cend(), m_parsedRawDataType) == expectedRawDataTypes.cend()) {
+                    if (find(expectedRawDataTypes.cbegin(), expectedRawDataTypes.cend(), *rawDataType) == expectedRawDataTypes.cend()) {
                         diag.emplace_back(DiagLevel::Warning, "Unexpected data type indicator found.", context);
                     }
                 } catch (const Failure &) {
@@ -160,13 +163,13 @@ void Mp4TagField::reparse(Mp4Atom &ilstChild, Diagnostics &diag)
                 case RawDataType::Utf16:
                     stream.seekg(static_cast<streamoff>(dataAtom->dataOffset() + 8));
                     val->assignText(reader.readString(dataAtom->dataSize() - 8),
-                        (m_parsedRawDataType == RawDataType::Utf16) ? TagTextEncoding::Utf16BigEndian : TagTextEncoding::Utf8);
+                        (*rawDataType == RawDataType::Utf16) ? TagTextEncoding::Utf16BigEndian : TagTextEncoding::Utf8);
                     break;
                 case RawDataType::Gif:
                 case RawDataType::Jpeg:
                 case RawDataType::Png:
                 case RawDataType::Bmp: {
-                    switch (m_parsedRawDataType) {
+                    switch (*rawDataType) {
                     case RawDataType::Gif:
                         val->setMimeType("image/gif");
                         break;
@@ -549,9 +552,10 @@ Mp4TagFieldMaker::Mp4TagFieldMaker(Mp4TagField &field, Diagnostics &diag)
     m_totalSize = 8 + (m_field.name().empty() ? 0 : (12 + m_field.name().size())) + (m_field.mean().empty() ? 0 : (12 + m_field.mean().size()));
 
     // prepare making data atom and calculate the expected size
-    m_totalSize += prepareDataAtom(field.value(), field.countryIndicator(), field.languageIndicator(), context, diag);
+    m_totalSize += prepareDataAtom(field.value(), 0, field.countryIndicator(), field.languageIndicator(), context, diag);
     for (const auto &additionalData : m_field.additionalData()) {
-        m_totalSize += prepareDataAtom(additionalData.value, additionalData.countryIndicator, additionalData.languageIndicator, context, diag);
+        m_totalSize += prepareDataAtom(
+            additionalData.value, additionalData.rawDataType, additionalData.countryIndicator, additionalData.languageIndicator, context, diag);
     }
 
     if (m_totalSize > numeric_limits<std::uint32_t>::max()) {
@@ -588,9 +592,10 @@ static bool writeSpecialInteger(std::underlying_type_t<Mp4TagAtomIds::KnownValue
 
 /*!
  * \brief Prepares making a data atom for the specified \a value.
+ * \remarks Uses the specified \a rawDataType unless it is zero; otherwise uses the field's type info or an appropriate type.
  */
-std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
-    const TagValue &value, std::uint16_t countryIndicator, std::uint16_t languageIndicator, const std::string &context, Diagnostics &diag)
+std::uint64_t Mp4TagFieldMaker::prepareDataAtom(const TagValue &value, std::uint32_t rawDataType, std::uint16_t countryIndicator,
+    std::uint16_t languageIndicator, const std::string &context, Diagnostics &diag)
 {
     // add new data entry
     auto &data = m_data.emplace_back();
@@ -603,7 +608,9 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(
 
     try {
         // try to use appropriate raw data type
-        data.rawType = m_field.isTypeInfoAssigned() ? m_field.typeInfo() : m_field.appropriateRawDataTypeForValue(value);
+        data.rawType = rawDataType ? rawDataType
+            : m_field.isTypeInfoAssigned() ? m_field.typeInfo()
+                                           : m_field.appropriateRawDataTypeForValue(value);
     } catch (const Failure &) {
         // unable to obtain appropriate raw data type
         if (m_field.id() == Mp4TagAtomIds::Cover) {
diff --git a/mp4/mp4tagfield.h b/mp4/mp4tagfield.h
index a491763..72e6818 100644
--- a/mp4/mp4tagfield.h
+++ b/mp4/mp4tagfield.h
@@ -84,8 +84,8 @@ private:
     /// \endcond
 
     Mp4TagFieldMaker(Mp4TagField &field, Diagnostics &diag);
-    std::uint64_t prepareDataAtom(
-        const TagValue &value, std::uint16_t countryIndicator, std::uint16_t languageIndicator, const std::string &context, Diagnostics &diag);
+    std::uint64_t prepareDataAtom(const TagValue &value, std::uint32_t rawDataType, std::uint16_t countryIndicator, std::uint16_t languageIndicator,
+        const std::string &context, Diagnostics &diag);
 
     Mp4TagField &m_field;
     CppUtilities::BinaryWriter m_writer;
-- 
2.43.0


From 365fab92a2bd600b764221bdfe44635752ce5128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:00 +0000
Subject: [PATCH 021/105] fix: write UTF-16 text of MP4 tags using big endian
 byte order

---
 mp4/mp4tagfield.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index c68e555..1f45f36 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -635,8 +635,8 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(const TagValue &value, std::uint
                 }
                 break;
             case RawDataType::Utf16:
-                if (value.type() != TagDataType::Text || value.dataEncoding() != TagTextEncoding::Utf16LittleEndian) {
-                    m_writer.writeString(value.toString(TagTextEncoding::Utf16LittleEndian));
+                if (value.type() != TagDataType::Text || value.dataEncoding() != TagTextEncoding::Utf16BigEndian) {
+                    m_writer.writeString(value.toString(TagTextEncoding::Utf16BigEndian));
                 }
                 break;
             case RawDataType::BeSignedInt: {
-- 
2.43.0


From fe593b439e9e4d71f7cde6f11d00f92d26c1721c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:07 +0000
Subject: [PATCH 022/105] fix: write one-based index of predefined genre in MP4
 tags

---
 mp4/mp4tagfield.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index 1f45f36..b2ebd39 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -458,8 +458,8 @@ std::uint32_t Mp4TagField::appropriateRawDataTypeForValue(const TagValue &value)
         break;
     case TrackPosition:
     case DiskPosition:
-        return RawDataType::Reserved;
     case PreDefinedGenre:
+        return RawDataType::Reserved;
     case Bpm:
     case Rating:
     case Mp4TagAtomIds::MediaType:
@@ -688,7 +688,8 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(const TagValue &value, std::uint
                     break;
                 }
                 case Mp4TagAtomIds::PreDefinedGenre:
-                    m_writer.writeUInt16BE(static_cast<std::uint16_t>(value.toStandardGenreIndex()));
+                    // note: Indices are one-based in MP4 files.
+                    m_writer.writeUInt16BE(static_cast<std::uint16_t>(value.toStandardGenreIndex() + 1));
                     break;
                 default:
                     if (writeSpecialInteger(m_field.id(), value, m_writer)) {
-- 
2.43.0


From 7de456b639282d2d6ebb9ee51750d58a367f0d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:08 +0000
Subject: [PATCH 023/105] fix: ID3v1: read values of a single character

---
 id3/id3v1tag.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 66f40de..ad06a91 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -277,12 +277,10 @@ void Id3v1Tag::ensureTextValuesAreProperlyEncoded()
  */
 void Id3v1Tag::readValue(TagValue &value, size_t maxLength, const char *buffer)
 {
-    const char *end = buffer + maxLength - 1;
-    while ((*end == 0x0 || *end == ' ') && end >= buffer) {
-        --end;
+    while (maxLength && (buffer[maxLength - 1] == 0x0 || buffer[maxLength - 1] == ' ')) {
         --maxLength;
     }
-    if (buffer == end) {
+    if (!maxLength) {
         return;
     }
     if (maxLength >= 3 && BE::toUInt24(buffer) == 0x00EFBBBF) {
-- 
2.43.0


From e007a863b899d70dbbd2b0f461167681fe550ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:08 +0000
Subject: [PATCH 024/105] fix: ID3v1: treat track number as unsigned

---
 id3/id3v1tag.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index ad06a91..82e7600 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -78,7 +78,7 @@ void Id3v1Tag::parse(std::istream &stream, Diagnostics &diag)
     }
     readValue(m_comment, is11 ? 28 : 30, buffer + 97);
     if (is11) {
-        m_trackPos.assignPosition(PositionInSet(*reinterpret_cast<char *>(buffer + 126), 0));
+        m_trackPos.assignPosition(PositionInSet(*reinterpret_cast<unsigned char *>(buffer + 126), 0));
     }
     m_genre.assignStandardGenreIndex(*reinterpret_cast<unsigned char *>(buffer + 127));
 }
-- 
2.43.0


From 666b99c6d4cfbe75ed2c4679bba7f32cf6966428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:08 +0000
Subject: [PATCH 025/105] fix: ID3v1: leave genre unset if it cannot be
 represented

---
 id3/id3v1tag.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 82e7600..91dc728 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -1,4 +1,5 @@
 #include "./id3v1tag.h"
+#include "./id3genres.h"
 
 #include "../diagnostics.h"
 #include "../exceptions.h"
@@ -109,7 +110,7 @@ void Id3v1Tag::make(ostream &stream, Diagnostics &diag)
     // set "default" values for numeric fields
     buffer[0] = 0x0; // empty byte
     buffer[1] = 0x0; // track number
-    buffer[2] = 0x0; // genre
+    buffer[2] = static_cast<char>(Id3Genres::emptyGenreIndex()); // genre
 
     // write track
     if (!m_trackPos.isEmpty()) {
-- 
2.43.0


From cd747492b95c4def5dda0e25d30bcda85abeb41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:08 +0000
Subject: [PATCH 026/105] fix: ID3v1: report presence of record date correctly

---
 id3/id3v1tag.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 91dc728..8400b1d 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -208,6 +208,7 @@ bool Id3v1Tag::hasField(KnownField field) const
         return !m_artist.isEmpty();
     case KnownField::Album:
         return !m_album.isEmpty();
+    case KnownField::RecordDate:
         return !m_year.isEmpty();
     case KnownField::Comment:
         return !m_comment.isEmpty();
-- 
2.43.0


From ff9e3ddb08aa9f28811a3b3ad5bb304c1d1dfefc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:08 +0000
Subject: [PATCH 027/105] fix: ID3v1: warn about truncation if BOM leaves less
 room

---
 id3/id3v1tag.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 8400b1d..9222155 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -339,9 +339,9 @@ void Id3v1Tag::writeValue(const TagValue &value, size_t length, char *buffer, os
     }
 
     // copy the string
-    if (valueAsString.size() > length) {
+    if (valueAsString.size() > valueLength) {
         diag.emplace_back(
-            DiagLevel::Warning, argsToString("Value has been truncated. Max. ", length, " characters supported."), "making ID3v1 tag field");
+            DiagLevel::Warning, argsToString("Value has been truncated. Max. ", valueLength, " characters supported."), "making ID3v1 tag field");
     }
     valueAsString.copy(valueStart, valueLength);
 
-- 
2.43.0


From 5f45fa0870dd68b16fad19455823bba8f6fccc65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:08 +0000
Subject: [PATCH 028/105] fix: ID3v2: warn if partial recording date/time is
 completed

---
 id3/id3v2tag.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index f90071f..6b5cd96 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -823,6 +823,13 @@ void Id3v2Tag::prepareRecordDataForMaking(const std::string &diagContext, Diagno
             time << std::setfill('0') << std::setw(2) << asDateTime.hour() << std::setfill('0') << std::setw(2) << asDateTime.minute();
             setValue(Id3v2FrameIds::lTime, TagValue(time.str()));
         }
+        if (((dateTimeExpr.parts & DateTimeParts::Month) && !(dateTimeExpr.parts & DateTimeParts::Day))
+            || ((dateTimeExpr.parts & DateTimeParts::Hour) && !(dateTimeExpr.parts & DateTimeParts::Minute))) {
+            diag.emplace_back(DiagLevel::Warning,
+                "The recording time field (TDRC) is not a full date or time and has been completed when converting to corresponding fields for older "
+                "ID3v2 versions.",
+                diagContext);
+        }
         if (dateTimeExpr.parts & (DateTimeParts::Second | DateTimeParts::SubSecond)) {
             diag.emplace_back(DiagLevel::Warning,
                 "The recording time field (TDRC) has been truncated to full minutes when converting to corresponding fields for older ID3v2 "
-- 
2.43.0


From b257b611bb426598af859df447da3bb2e810c5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:08 +0000
Subject: [PATCH 029/105] fix: MP4: write cover with data type matching its
 MIME type

---
 mp4/mp4tagfield.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mp4/mp4tagfield.cpp b/mp4/mp4tagfield.cpp
index b2ebd39..a4ba73a 100644
--- a/mp4/mp4tagfield.cpp
+++ b/mp4/mp4tagfield.cpp
@@ -606,6 +606,15 @@ std::uint64_t Mp4TagFieldMaker::prepareDataAtom(const TagValue &value, std::uint
     data.countryIndicator = countryIndicator;
     data.languageIndicator = languageIndicator;
 
+    // ignore the existing type if the cover has been replaced with a picture of another format
+    if (m_field.id() == Mp4TagAtomIds::Cover) {
+        try {
+            rawDataType = m_field.appropriateRawDataTypeForValue(value);
+        } catch (const Failure &) {
+            // keep the existing type if there is no well-known type for the MIME-type
+        }
+    }
+
     try {
         // try to use appropriate raw data type
         data.rawType = rawDataType ? rawDataType
-- 
2.43.0


From c67753ff325e0bcb2008b665e8825cb7ede5ad6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:05 +0000
Subject: [PATCH 030/105] fix: report errors of final write operations

---
 matroska/matroskacontainer.cpp | 3 +++
 mediafileinfo.cpp              | 2 ++
 mp4/mp4container.cpp           | 3 +++
 ogg/oggcontainer.cpp           | 2 ++
 4 files changed, 10 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 6d7f72d..f622c51 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1937,6 +1937,8 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
             }
 
             // the outputStream needs to be reopened to be able to read again
+            // note: Closing the stream does not report errors of deferred write operations so it needs to be flushed explicitly.
+            outputStream.flush();
             outputStream.close();
             outputStream.open(fileInfo().path(), ios_base::in | ios_base::out | ios_base::binary);
             setStream(outputStream);
@@ -1945,6 +1947,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
             if (newSize < fileInfo().size()) {
                 // file is smaller after the modification -> truncate
                 // -> close stream before truncating
+                outputStream.flush();
                 outputStream.close();
                 // -> truncate file
                 auto ec = std::error_code();
diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index becf04b..2c067f4 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1908,12 +1908,14 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             }
             // prevent deferring final write operations (to catch and handle possible errors here); stream is useless for further
             // usage anyways because it is write-only
+            outputStream.flush();
             outputStream.close();
         } else {
             const auto newSize = static_cast<std::uint64_t>(outputStream.tellp());
             if (newSize < size()) {
                 // file is smaller after the modification -> truncate
                 // -> prevent deferring final write operations
+                outputStream.flush();
                 outputStream.close();
                 // -> truncate file
                 auto ec = std::error_code();
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 15c974e..55a6743 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -872,6 +872,8 @@ calculatePadding:
                 fileInfo().setSaveFilePath(string());
             }
             // the outputStream needs to be reopened to be able to read again
+            // note: Closing the stream does not report errors of deferred write operations so it needs to be flushed explicitly.
+            outputStream.flush();
             outputStream.close();
             outputStream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
             setStream(outputStream);
@@ -880,6 +882,7 @@ calculatePadding:
             if (newSize < fileInfo().size()) {
                 // file is smaller after the modification -> truncate
                 // -> close stream before truncating
+                outputStream.flush();
                 outputStream.close();
                 // -> truncate file
                 auto ec = std::error_code();
diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index c5be91c..53c2633 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -742,7 +742,9 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
 
         // close backups stream; reopen new file as readable stream
         auto &stream = fileInfo().stream();
+        // note: Closing the stream does not report errors of deferred write operations so it needs to be flushed explicitly.
         backupStream.close();
+        stream.flush();
         fileInfo().close();
         stream.open(BasicFileInfo::pathForOpen(fileInfo().path()).data(), ios_base::in | ios_base::out | ios_base::binary);
 
-- 
2.43.0


From f74a97bfe6bdc25991a3c6be6ffdc84581cb00e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:36 +0000
Subject: [PATCH 031/105] fix: MP3/FLAC: handle abortion when applying changes

---
 mediafileinfo.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 2c067f4..232ec74 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1670,7 +1670,7 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
                 diag.emplace_back(DiagLevel::Information, "Nothing to be changed.", context);
                 return;
             }
-            progress.updateStep("Removing ID3v1 tag ...");
+            progress.nextStepOrStop("Removing ID3v1 tag ...");
             stream().close();
             auto ec = std::error_code();
             std::filesystem::resize_file(makeNativePath(BasicFileInfo::pathForOpen(path())), size() - 128, ec);
@@ -1684,7 +1684,7 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
         } else {
             // add or update ID3v1 tag
             if (m_fileStructureFlags & MediaFileStructureFlags::ActualExistingId3v1Tag) {
-                progress.updateStep("Updating existing ID3v1 tag ...");
+                progress.nextStepOrStop("Updating existing ID3v1 tag ...");
                 // ensure the file is still open / not readonly
                 open();
                 stream().seekp(-128, ios_base::end);
@@ -1694,7 +1694,7 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
                     diag.emplace_back(DiagLevel::Warning, "Unable to write ID3v1 tag.", context);
                 }
             } else {
-                progress.updateStep("Adding new ID3v1 tag ...");
+                progress.nextStepOrStop("Adding new ID3v1 tag ...");
                 // ensure the file is still open / not readonly
                 open();
                 stream().seekp(0, ios_base::end);
@@ -1712,7 +1712,7 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
 
     // ID3v2 needs to be modified
     FlacStream *const flacStream = (m_containerFormat == ContainerFormat::Flac ? static_cast<FlacStream *>(m_singleTrack.get()) : nullptr);
-    progress.updateStep(flacStream ? "Updating FLAC tags ..." : "Updating ID3v2 tags ...");
+    progress.nextStepOrStop(flacStream ? "Updating FLAC tags ..." : "Updating ID3v2 tags ...");
 
     // prepare ID3v2 tags
     auto makers = std::vector<Id3v2TagMaker>();
@@ -1776,7 +1776,7 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
         // can not be used for additional meta data
         padding += 4;
     }
-    progress.updateStep(rewriteRequired ? "Preparing streams for rewriting ..." : "Preparing streams for updating ...");
+    progress.nextStepOrStop(rewriteRequired ? "Preparing streams for rewriting ..." : "Preparing streams for updating ...");
 
     // setup stream(s) for writing
     // -> define variables needed to handle output stream and backup stream (required when rewriting the file)
@@ -1832,7 +1832,7 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
 
         if (!makers.empty()) {
             // write ID3v2 tags
-            progress.updateStep("Writing ID3v2 tag ...");
+            progress.nextStepOrStop("Writing ID3v2 tag ...");
             for (auto i = makers.begin(), end = makers.end() - 1; i != end; ++i) {
                 i->make(outputStream, 0, diag);
             }
@@ -1873,15 +1873,17 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             // copy data from original file
             switch (m_containerFormat) {
             case ContainerFormat::MpegAudioFrames:
-                progress.updateStep("Writing MPEG audio frames ...");
+                progress.nextStepOrStop("Writing MPEG audio frames ...");
                 break;
             default:
-                progress.updateStep("Writing data ...");
+                progress.nextStepOrStop("Writing data ...");
             }
             backupStream.seekg(static_cast<streamoff>(streamOffset));
             CopyHelper<0x4000> copyHelper;
             copyHelper.callbackCopy(backupStream, stream(), mediaDataSize, std::bind(&AbortableProgressFeedback::isAborted, std::ref(progress)),
-                std::bind(&AbortableProgressFeedback::updateStepPercentage, std::ref(progress), _1));
+                std::bind(&AbortableProgressFeedback::updateStepPercentageFromFraction, std::ref(progress), _1));
+            // ensure a partially copied stream is not considered complete
+            progress.stopIfAborted();
         } else {
             // just skip actual stream data
             outputStream.seekp(static_cast<std::streamoff>(mediaDataSize), ios_base::cur);
-- 
2.43.0


From e6f105c8a9cf5addb36deaf921dccc686108a10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:54 +0000
Subject: [PATCH 032/105] fix: stop if element has only been copied partially
 due to abortion

---
 genericfileelement.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/genericfileelement.h b/genericfileelement.h
index b4a7264..6f4f1cb 100644
--- a/genericfileelement.h
+++ b/genericfileelement.h
@@ -963,6 +963,8 @@ void GenericFileElement<ImplementationType>::copyInternal(
     if (progress) {
         copyHelper.callbackCopy(stream, targetStream, bytesToCopy, std::bind(&AbortableProgressFeedback::isAborted, std::ref(progress)),
             std::bind(&AbortableProgressFeedback::updateStepPercentageFromFraction, std::ref(progress), std::placeholders::_1));
+        // ensure a partially copied element is not considered complete
+        progress->stopIfAborted();
     } else {
         copyHelper.copy(stream, targetStream, bytesToCopy);
     }
-- 
2.43.0


From 41ce3f530acda377cef8c366361413445e93f00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:06 +0000
Subject: [PATCH 033/105] fix: restore original file if it can not be
 re-created for rewriting

---
 backuphelper.cpp               | 18 +++++++++++++++++-
 backuphelper.h                 |  2 ++
 matroska/matroskacontainer.cpp |  2 +-
 mediafileinfo.cpp              |  2 +-
 mp4/mp4container.cpp           |  2 +-
 ogg/oggcontainer.cpp           |  2 +-
 6 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/backuphelper.cpp b/backuphelper.cpp
index 3198c9d..9845bcb 100644
--- a/backuphelper.cpp
+++ b/backuphelper.cpp
@@ -71,7 +71,7 @@ void restoreOriginalFileFromBackupFile(
     // remove original file and restore backup
     std::filesystem::remove(originalPathForOpen, ec);
     if (ec) {
-        throw std::ios_base::failure("Unable to remove original file: " + ec.message());
+        throw std::ios_base::failure("Unable to remove original file to restore it from backup file \"" % backupPath % "\": " + ec.message());
     }
     std::filesystem::rename(backupPathForOpen, originalPathForOpen, ec);
     if (ec) {
@@ -208,6 +208,22 @@ void createBackupFileCanonical(const std::string &backupDir, std::string &origin
     createBackupFile(backupDir, originalPath, backupPath, originalStream, backupStream);
 }
 
+/*!
+ * \brief Creates the file at \a originalPath again (for rewriting it) after it has been moved to \a backupPath via createBackupFile().
+ * \remarks Restores the original file using restoreOriginalFileFromBackupFile() if the file can not be created.
+ * \throws Throws std::ios_base::failure on failure.
+ */
+void recreateOriginalFile(const std::string &originalPath, const std::string &backupPath, CppUtilities::NativeFileStream &outputStream,
+    CppUtilities::NativeFileStream &backupStream)
+{
+    try {
+        outputStream.open(BasicFileInfo::pathForOpen(originalPath).data(), ios_base::out | ios_base::binary | ios_base::trunc);
+    } catch (const std::ios_base::failure &failure) {
+        restoreOriginalFileFromBackupFile(originalPath, backupPath, outputStream, backupStream);
+        throw std::ios_base::failure(argsToString("Unable to re-create \"", originalPath, "\": ", failure.what()));
+    }
+}
+
 /*!
  * \brief Handles a failure/abort which occurred after the file has been modified.
  *
diff --git a/backuphelper.h b/backuphelper.h
index d109a06..2ae8719 100644
--- a/backuphelper.h
+++ b/backuphelper.h
@@ -18,6 +18,8 @@ TAG_PARSER_EXPORT void createBackupFile(const std::string &backupDir, const std:
     CppUtilities::NativeFileStream &originalStream, CppUtilities::NativeFileStream &backupStream);
 TAG_PARSER_EXPORT void createBackupFileCanonical(const std::string &backupDir, std::string &originalPath, std::string &backupPath,
     CppUtilities::NativeFileStream &originalStream, CppUtilities::NativeFileStream &backupStream);
+TAG_PARSER_EXPORT void recreateOriginalFile(const std::string &originalPath, const std::string &backupPath,
+    CppUtilities::NativeFileStream &outputStream, CppUtilities::NativeFileStream &backupStream);
 TAG_PARSER_EXPORT void handleFailureAfterFileModified(MediaFileInfo &fileInfo, const std::string &backupPath,
     CppUtilities::NativeFileStream &outputStream, CppUtilities::NativeFileStream &backupStream, Diagnostics &diag,
     const std::string &context = "making file");
diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index f622c51..a4e1c2e 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1594,7 +1594,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
             try {
                 BackupHelper::createBackupFileCanonical(fileInfo().backupDirectory(), originalPath, backupPath, outputStream, backupStream);
                 // recreate original file, define buffer variables
-                outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
+                BackupHelper::recreateOriginalFile(originalPath, backupPath, outputStream, backupStream);
             } catch (const std::ios_base::failure &failure) {
                 diag.emplace_back(
                     DiagLevel::Critical, argsToString("Creation of temporary file (to rewrite the original file) failed: ", failure.what()), context);
diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 232ec74..c5eb749 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1790,7 +1790,7 @@ void MediaFileInfo::makeMp3File(Diagnostics &diag, AbortableProgressFeedback &pr
             try {
                 BackupHelper::createBackupFileCanonical(backupDirectory(), originalPath, backupPath, outputStream, backupStream);
                 // recreate original file, define buffer variables
-                outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
+                BackupHelper::recreateOriginalFile(originalPath, backupPath, outputStream, backupStream);
             } catch (const std::ios_base::failure &failure) {
                 diag.emplace_back(
                     DiagLevel::Critical, argsToString("Creation of temporary file (to rewrite the original file) failed: ", failure.what()), context);
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 55a6743..9d339a2 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -564,7 +564,7 @@ calculatePadding:
             try {
                 BackupHelper::createBackupFileCanonical(fileInfo().backupDirectory(), originalPath, backupPath, outputStream, backupStream);
                 // recreate original file, define buffer variables
-                outputStream.open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
+                BackupHelper::recreateOriginalFile(originalPath, backupPath, outputStream, backupStream);
             } catch (const std::ios_base::failure &failure) {
                 diag.emplace_back(
                     DiagLevel::Critical, argsToString("Creation of temporary file (to rewrite the original file) failed: ", failure.what()), context);
diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index 53c2633..c570c24 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -442,7 +442,7 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
         try {
             BackupHelper::createBackupFileCanonical(fileInfo().backupDirectory(), originalPath, backupPath, fileInfo().stream(), backupStream);
             // recreate original file, define buffer variables
-            fileInfo().stream().open(originalPath, ios_base::out | ios_base::binary | ios_base::trunc);
+            BackupHelper::recreateOriginalFile(originalPath, backupPath, fileInfo().stream(), backupStream);
         } catch (const std::ios_base::failure &failure) {
             diag.emplace_back(
                 DiagLevel::Critical, argsToString("Creation of temporary file (to rewrite the original file) failed: ", failure.what()), context);
-- 
2.43.0


From c8df2b24d7c7b6c58b4fc720b487b1b017b9ffcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:01 +0000
Subject: [PATCH 034/105] fix: do not abort in the middle of updating a file
 in-place

---
 matroska/matroskacontainer.cpp | 6 ++++--
 mp4/mp4container.cpp           | 4 +++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index a4e1c2e..d2dd1a5 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1836,7 +1836,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     }
                 } else {
                     // can't just skip existing "Cluster"-elements: "Position"-elements must be updated
-                    progress.nextStepOrStop("Updating cluster ...",
+                    progress.updateStep("Updating cluster ...",
                         static_cast<std::uint8_t>((static_cast<std::uint64_t>(outputStream.tellp()) - offset) * 100 / segment.totalDataSize));
                     for (; level1Element; level1Element = level1Element->nextSibling()) {
                         EbmlElement *crc32Element = nullptr;
@@ -1966,7 +1966,9 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         }
         reset();
         try {
-            parseHeader(diag, progress);
+            // note: Changes made in-place can not be undone so it is too late for aborting when not rewriting.
+            auto nonAbortableProgress = AbortableProgressFeedback();
+            parseHeader(diag, rewriteRequired ? progress : nonAbortableProgress);
         } catch (const OperationAbortedException &) {
             throw;
         } catch (const Failure &) {
diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 9d339a2..369a04f 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -902,7 +902,9 @@ calculatePadding:
 
         reset();
         try {
-            parseTracks(diag, progress);
+            // note: Changes made in-place can not be undone so it is too late for aborting when not rewriting.
+            auto nonAbortableProgress = AbortableProgressFeedback();
+            parseTracks(diag, rewriteRequired ? progress : nonAbortableProgress);
         } catch (const OperationAbortedException &) {
             throw;
         } catch (const Failure &) {
-- 
2.43.0


From 80510e9ac2425853e5b5597143f4df16009da55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:53 +0000
Subject: [PATCH 035/105] fix: ID3v2.2: preserve image format of pictures

---
 id3/id3v2frame.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index df12b8e..58685e0 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -1048,6 +1048,16 @@ void Id3v2Frame::parseLegacyPicture(const char *buffer, std::size_t maxSize, Tag
     const char *end = buffer + maxSize;
     auto dataEncoding = parseTextEncodingByte(static_cast<std::uint8_t>(*buffer), diag); // the first byte stores the encoding
     typeInfo = static_cast<unsigned char>(*(buffer + 4));
+    // the image format corresponds to the MIME type of the newer picture frame (see makeLegacyPicture())
+    if (const auto imageFormat = std::string_view(buffer + 1, 3); imageFormat == "JPG") {
+        tagValue.setMimeType("image/jpeg");
+    } else if (imageFormat == "PNG") {
+        tagValue.setMimeType("image/png");
+    } else if (imageFormat == "GIF") {
+        tagValue.setMimeType("image/gif");
+    } else if (imageFormat == "-->") {
+        tagValue.setMimeType("-->");
+    }
     auto substr = parseSubstring(buffer + 5, static_cast<size_t>(end - 5 - buffer), dataEncoding, true, diag);
     tagValue.setDescription(string(get<0>(substr), get<1>(substr)), dataEncoding);
     if (get<2>(substr) >= end) {
-- 
2.43.0


From 86aaf70c2dfdd1065e3d97f69fad74862b3d6bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:53 +0000
Subject: [PATCH 036/105] fix: consider additional values when determining
 presence of fields; skip empty first value in ID3v2 text frames

---
 fieldbasedtag.h  | 9 +++++++--
 id3/id3v2tag.cpp | 8 +++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/fieldbasedtag.h b/fieldbasedtag.h
index 6d95b6c..4c8212f 100644
--- a/fieldbasedtag.h
+++ b/fieldbasedtag.h
@@ -299,8 +299,10 @@ template <class ImplementationType> inline bool FieldMapBasedTag<ImplementationT
  */
 template <class ImplementationType> bool FieldMapBasedTag<ImplementationType>::internallyHasField(const IdentifierType &id) const
 {
+    auto values = std::vector<const TagValue *>();
     for (auto range = m_fields.equal_range(id); range.first != range.second; ++range.first) {
-        if (!range.first->second.value().isEmpty()) {
+        static_cast<const ImplementationType *>(this)->internallyGetValuesFromField(range.first->second, values);
+        if (!values.empty()) {
             return true;
         }
     }
@@ -340,8 +342,11 @@ template <class ImplementationType> inline auto FieldMapBasedTag<ImplementationT
 template <class ImplementationType> std::size_t FieldMapBasedTag<ImplementationType>::fieldCount() const
 {
     auto count = std::size_t(0);
+    auto values = std::vector<const TagValue *>();
     for (const auto &field : m_fields) {
-        if (!field.second.value().isEmpty()) {
+        values.clear();
+        static_cast<const ImplementationType *>(this)->internallyGetValuesFromField(field.second, values);
+        if (!values.empty()) {
             ++count;
         }
     }
diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 6b5cd96..16232b2 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -104,8 +104,13 @@ bool Id3v2Tag::internallySetValues(const IdentifierType &id, const std::vector<T
     auto range = fields().equal_range(id);
     auto frameIterator = range.first;
 
-    // use existing frame or insert new text frame
+    // skip leading empty values as the frame's primary value must not be empty
     auto valuesIterator = values.cbegin();
+    while (valuesIterator != values.cend() && valuesIterator->isEmpty()) {
+        ++valuesIterator;
+    }
+
+    // use existing frame or insert new text frame
     if (frameIterator != range.second) {
         ++range.first;
         // add primary value to existing frame
@@ -131,6 +136,7 @@ bool Id3v2Tag::internallySetValues(const IdentifierType &id, const std::vector<T
     // remove remaining existing values (there are more existing values than specified ones)
     for (; range.first != range.second; ++range.first) {
         range.first->second.setValue(TagValue());
+        range.first->second.additionalValues().clear();
     }
     return true;
 }
-- 
2.43.0


From 85158d13b2116ec6ba38d5ab2b475930fdd4f3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:59 +0000
Subject: [PATCH 037/105] fix: ID3v2: ensure encoding of additional values as
 well

---
 id3/id3v2tag.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 16232b2..9696d2f 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -69,6 +69,10 @@ void Id3v2Tag::ensureTextValuesAreProperlyEncoded()
         auto &value = field.second.value();
         value.convertDataEncoding(encoding);
         value.convertDescriptionEncoding(encoding);
+        for (auto &additionalValue : field.second.additionalValues()) {
+            additionalValue.convertDataEncoding(encoding);
+            additionalValue.convertDescriptionEncoding(encoding);
+        }
     }
 }
 
-- 
2.43.0


From 4b21c3adba0b027227031f73973e977a62c770e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:03 +0000
Subject: [PATCH 038/105] fix: consider all known fields when inserting values
 from another tag

---
 tag.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tag.cpp b/tag.cpp
index 065e98b..87d9def 100644
--- a/tag.cpp
+++ b/tag.cpp
@@ -89,8 +89,7 @@ bool Tag::setValues(KnownField field, const std::vector<TagValue> &values)
 std::size_t Tag::insertValues(const Tag &from, bool overwrite)
 {
     auto count = std::size_t(0);
-    for (int i = static_cast<int>(KnownField::Invalid) + 1, last = static_cast<int>(KnownField::Description); i <= last; ++i) {
-        auto field = static_cast<KnownField>(i);
+    for (auto field = firstKnownField; field != KnownField::Invalid; field = nextKnownField(field)) {
         const TagValue &ownValue = value(field);
         if (overwrite || ownValue.isEmpty()) {
             const TagValue &otherValue = from.value(field);
-- 
2.43.0


From f9a5e43b69bcc6e42c21b1d2132788e27b57c0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:48 +0000
Subject: [PATCH 039/105] fix: insert all fields of the other tag when there
 are multiple fields with the same ID

---
 fieldbasedtag.h  | 26 ++++++++++++++++++++++----
 id3/id3v2tag.cpp | 34 ++++++++++++++++++++++++++++++++++
 id3/id3v2tag.h   |  1 +
 mp4/mp4tag.cpp   |  9 +++++++++
 mp4/mp4tag.h     |  1 +
 5 files changed, 67 insertions(+), 4 deletions(-)

diff --git a/fieldbasedtag.h b/fieldbasedtag.h
index 4c8212f..c7cc85b 100644
--- a/fieldbasedtag.h
+++ b/fieldbasedtag.h
@@ -3,6 +3,7 @@
 
 #include "./tag.h"
 
+#include <algorithm>
 #include <functional>
 #include <map>
 
@@ -72,6 +73,7 @@ protected:
     bool internallySetValue(const IdentifierType &id, const TagValue &value);
     bool internallySetValues(const IdentifierType &id, const std::vector<TagValue> &values);
     bool internallyHasField(const IdentifierType &id) const;
+    bool internallyIsSameField(const FieldType &ownField, const FieldType &otherField) const;
     // no default implementation: IdentifierType internallyGetFieldId(KnownField field) const;
     // no default implementation: KnownField internallyGetKnownField(const IdentifierType &id) const;
     TagDataType internallyGetProposedDataType(const IdentifierType &id) const;
@@ -406,6 +408,7 @@ template <class ImplementationType>
 std::size_t FieldMapBasedTag<ImplementationType>::insertFields(const FieldMapBasedTag<ImplementationType> &from, bool overwrite)
 {
     auto fieldsInserted = std::size_t(0);
+    auto insertedFields = std::vector<const FieldType *>();
     for (const auto &pair : from.fields()) {
         const FieldType &fromField = pair.second;
         if (fromField.value().isEmpty()) {
@@ -415,24 +418,39 @@ std::size_t FieldMapBasedTag<ImplementationType>::insertFields(const FieldMapBas
         auto range = fields().equal_range(fromField.id());
         for (auto i = range.first; i != range.second; ++i) {
             FieldType &ownField = i->second;
-            if ((fromField.isTypeInfoAssigned() && ownField.isTypeInfoAssigned() && fromField.typeInfo() == ownField.typeInfo())
-                || (!fromField.isTypeInfoAssigned() && !ownField.isTypeInfoAssigned())) {
+            // skip fields which have just been inserted (to avoid overriding one of multiple fields to be inserted with another one)
+            if (std::find(insertedFields.cbegin(), insertedFields.cend(), &ownField) != insertedFields.cend()) {
+                continue;
+            }
+            if (static_cast<const ImplementationType *>(this)->internallyIsSameField(ownField, fromField)) {
                 if (overwrite || ownField.value().isEmpty()) {
                     ownField = fromField;
+                    insertedFields.emplace_back(&ownField);
                     ++fieldsInserted;
                 }
                 fieldInserted = true;
-                continue;
+                break;
             }
         }
         if (!fieldInserted) {
-            fields().insert(std::make_pair(fromField.id(), fromField));
+            insertedFields.emplace_back(&fields().insert(std::make_pair(fromField.id(), fromField))->second);
             ++fieldsInserted;
         }
     }
     return fieldsInserted;
 }
 
+/*!
+ * \brief Default way to determine whether \a ownField is replaced by \a otherField (which has the same ID) in insertFields().
+ * \remarks Shadow when subclassing to consider additional data which is required to identify a field.
+ */
+template <class ImplementationType>
+bool FieldMapBasedTag<ImplementationType>::internallyIsSameField(const FieldType &ownField, const FieldType &otherField) const
+{
+    return otherField.isTypeInfoAssigned() == ownField.isTypeInfoAssigned()
+        && (!otherField.isTypeInfoAssigned() || otherField.typeInfo() == ownField.typeInfo());
+}
+
 template <class ImplementationType> std::size_t FieldMapBasedTag<ImplementationType>::insertValues(const Tag &from, bool overwrite)
 {
     if (type() == from.type()) {
diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 9696d2f..3ca99e1 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -145,6 +145,40 @@ bool Id3v2Tag::internallySetValues(const IdentifierType &id, const std::vector<T
     return true;
 }
 
+/*!
+ * \brief Considers description and language for frames which may occur multiple times if these differ.
+ */
+bool Id3v2Tag::internallyIsSameField(const Id3v2Tag::FieldType &ownField, const Id3v2Tag::FieldType &otherField) const
+{
+    using namespace Id3v2FrameIds;
+    const auto &ownValue = ownField.value(), &otherValue = otherField.value();
+    switch (otherField.id()) {
+    case sComment:
+    case lComment:
+    case sUnsynchronizedLyrics:
+    case lUnsynchronizedLyrics:
+    case sSynchronizedLyrics:
+    case lSynchronizedLyrics:
+        if (const auto &ownLanguage = ownValue.locale().abbreviatedName(LocaleFormat::ISO_639_2_B),
+            &otherLanguage = otherValue.locale().abbreviatedName(LocaleFormat::ISO_639_2_B);
+            !ownLanguage.empty() && !otherLanguage.empty() && ownLanguage != otherLanguage) {
+            return false;
+        }
+        [[fallthrough]];
+    case sUserDefinedText:
+    case lUserDefinedText:
+    case sUserDefinedURL:
+    case lUserDefinedURL:
+        if (TagValue(ownValue.description(), ownValue.descriptionEncoding())
+            != TagValue(otherValue.description(), otherValue.descriptionEncoding())) {
+            return false;
+        }
+        break;
+    default:;
+    }
+    return CRTPBase::internallyIsSameField(ownField, otherField);
+}
+
 Id3v2Tag::IdentifierType Id3v2Tag::internallyGetFieldId(KnownField field) const
 {
     using namespace Id3v2FrameIds;
diff --git a/id3/id3v2tag.h b/id3/id3v2tag.h
index 15042c1..b0ac6a3 100644
--- a/id3/id3v2tag.h
+++ b/id3/id3v2tag.h
@@ -117,6 +117,7 @@ protected:
     TagDataType internallyGetProposedDataType(const std::uint32_t &id) const;
     void internallyGetValuesFromField(const FieldType &field, std::vector<const TagValue *> &values) const;
     bool internallySetValues(const IdentifierType &id, const std::vector<TagValue> &values);
+    bool internallyIsSameField(const FieldType &ownField, const FieldType &otherField) const;
 
 private:
     void convertOldRecordDateFields(const std::string &diagContext, Diagnostics &diag);
diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index eb230b6..605ac8b 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -284,6 +284,15 @@ void Mp4Tag::internallyGetValuesFromField(const Mp4Tag::FieldType &field, std::v
     }
 }
 
+/*!
+ * \brief Considers mean and name to distinguish extended fields and the raw data type only to distinguish covers.
+ */
+bool Mp4Tag::internallyIsSameField(const Mp4Tag::FieldType &ownField, const Mp4Tag::FieldType &otherField) const
+{
+    return ownField.mean() == otherField.mean() && ownField.name() == otherField.name()
+        && (otherField.id() != Mp4TagAtomIds::Cover || CRTPBase::internallyIsSameField(ownField, otherField));
+}
+
 bool Mp4Tag::setValue(KnownField field, const TagValue &value)
 {
     switch (field) {
diff --git a/mp4/mp4tag.h b/mp4/mp4tag.h
index 587bf47..9fc3cdb 100644
--- a/mp4/mp4tag.h
+++ b/mp4/mp4tag.h
@@ -128,6 +128,7 @@ protected:
     IdentifierType internallyGetFieldId(KnownField field) const;
     KnownField internallyGetKnownField(const IdentifierType &id) const;
     void internallyGetValuesFromField(const FieldType &field, std::vector<const TagValue *> &values) const;
+    bool internallyIsSameField(const FieldType &ownField, const FieldType &otherField) const;
 };
 
 /*!
-- 
2.43.0


From 58bbe02e44f5ef0fc00234b15e3c9902ff0112a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:13 +0000
Subject: [PATCH 040/105] fix: MP4: make accessors for genre, encoder settings
 and record label consistent

---
 mp4/mp4tag.cpp | 62 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 24 deletions(-)

diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index 605ac8b..fb231c8 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -85,15 +85,17 @@ const TagValue &Mp4Tag::value(KnownField field) const
 std::vector<const TagValue *> Mp4Tag::values(KnownField field) const
 {
     auto values = FieldMapBasedTag<Mp4Tag>::values(field);
+    if (!values.empty()) {
+        return values;
+    }
+    if (field == KnownField::Genre) {
+        return FieldMapBasedTag<Mp4Tag>::values(Mp4TagAtomIds::PreDefinedGenre);
+    }
     if (const auto extendedId = Mp4ExtendedFieldId(field)) {
         auto range = fields().equal_range(Mp4TagAtomIds::Extended);
         for (auto i = range.first; i != range.second; ++i) {
-            const auto &extendedField = i->second;
-            if (extendedId.matches(extendedField)) {
-                values.emplace_back(&extendedField.value());
-                for (const auto &additionalData : extendedField.additionalData()) {
-                    values.emplace_back(&additionalData.value);
-                }
+            if (extendedId.matches(i->second)) {
+                internallyGetValuesFromField(i->second, values);
             }
         }
     }
@@ -319,33 +321,42 @@ bool Mp4Tag::setValue(KnownField field, const TagValue &value)
 
 bool Mp4Tag::setValues(KnownField field, const std::vector<TagValue> &values)
 {
+    if (field == KnownField::Genre) {
+        fields().erase(Mp4TagAtomIds::PreDefinedGenre);
+        if (values.size() == 1) {
+            return setValues(Mp4TagAtomIds::Genre, std::vector<TagValue>()) && setValue(field, values.front());
+        }
+    }
     if (const auto extendedId = Mp4ExtendedFieldId(field)) {
         auto valuesIterator = values.cbegin();
+        const auto skipEmptyValues = [&valuesIterator, &values] {
+            while (valuesIterator != values.cend() && valuesIterator->isEmpty()) {
+                ++valuesIterator;
+            }
+        };
         auto range = fields().equal_range(Mp4TagAtomIds::Extended);
-        for (; valuesIterator != values.cend() && range.first != range.second;) {
-            if (!valuesIterator->isEmpty()) {
-                auto &extendedField = range.first->second;
-                if (extendedId.matches(extendedField) && (!extendedId.updateOnly || !extendedField.value().isEmpty())) {
-                    extendedField.clearValue();
-                    extendedField.setValue(*valuesIterator);
-                    // note: Not sure which extended tag fields support multiple data atoms and which don't. Let's simply use
-                    //       only one data atom per extended field here and get rid of any possibly assigned additional data
-                    //       atoms.
-                    ++valuesIterator;
-                }
-                ++range.first;
-            } else {
+        for (; range.first != range.second; ++range.first) {
+            auto &extendedField = range.first->second;
+            if (!extendedId.matches(extendedField) || (extendedId.updateOnly && extendedField.value().isEmpty())) {
+                continue;
+            }
+            // note: Not sure which extended tag fields support multiple data atoms and which don't. Let's simply use
+            //       only one data atom per extended field here and get rid of any possibly assigned additional data
+            //       atoms.
+            extendedField.clearValue();
+            extendedField.additionalData().clear();
+            skipEmptyValues();
+            if (valuesIterator != values.cend()) {
+                extendedField.setValue(*valuesIterator);
                 ++valuesIterator;
             }
         }
-        for (; valuesIterator != values.cend(); ++valuesIterator) {
-            if (valuesIterator->isEmpty()) {
+        if (!extendedId.updateOnly) {
+            for (skipEmptyValues(); valuesIterator != values.cend(); ++valuesIterator, skipEmptyValues()) {
                 fields().emplace(std::piecewise_construct, std::forward_as_tuple(Mp4TagAtomIds::Extended),
                     std::forward_as_tuple(extendedId.mean, extendedId.name, *valuesIterator));
             }
-        }
-        for (; range.first != range.second; ++range.first) {
-            range.first->second.clearValue();
+            return true;
         }
     }
     return FieldMapBasedTag<Mp4Tag>::setValues(field, values);
@@ -376,6 +387,9 @@ bool Mp4Tag::hasField(KnownField field) const
     switch (field) {
     case KnownField::Genre:
         return FieldMapBasedTag<Mp4Tag>::hasField(Mp4TagAtomIds::PreDefinedGenre) || FieldMapBasedTag<Mp4Tag>::hasField(Mp4TagAtomIds::Genre);
+    case KnownField::EncoderSettings:
+    case KnownField::RecordLabel:
+        return !values(field).empty();
     default:
         return FieldMapBasedTag<Mp4Tag>::hasField(field);
     }
-- 
2.43.0


From 7718562b8b147f69b13ef870551aadfe71e0ce4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:50 +0000
Subject: [PATCH 041/105] fix: MP4: replace additional data atoms when setting
 the values of a field

---
 mp4/mp4tag.cpp | 11 +++++++++++
 mp4/mp4tag.h   |  1 +
 2 files changed, 12 insertions(+)

diff --git a/mp4/mp4tag.cpp b/mp4/mp4tag.cpp
index fb231c8..d447682 100644
--- a/mp4/mp4tag.cpp
+++ b/mp4/mp4tag.cpp
@@ -286,6 +286,17 @@ void Mp4Tag::internallyGetValuesFromField(const Mp4Tag::FieldType &field, std::v
     }
 }
 
+/*!
+ * \brief Replaces additional data atoms of existing fields as well.
+ */
+bool Mp4Tag::internallySetValues(const IdentifierType &id, const std::vector<TagValue> &values)
+{
+    for (auto range = fields().equal_range(id); range.first != range.second; ++range.first) {
+        range.first->second.additionalData().clear();
+    }
+    return CRTPBase::internallySetValues(id, values);
+}
+
 /*!
  * \brief Considers mean and name to distinguish extended fields and the raw data type only to distinguish covers.
  */
diff --git a/mp4/mp4tag.h b/mp4/mp4tag.h
index 9fc3cdb..9bcaae8 100644
--- a/mp4/mp4tag.h
+++ b/mp4/mp4tag.h
@@ -128,6 +128,7 @@ protected:
     IdentifierType internallyGetFieldId(KnownField field) const;
     KnownField internallyGetKnownField(const IdentifierType &id) const;
     void internallyGetValuesFromField(const FieldType &field, std::vector<const TagValue *> &values) const;
+    bool internallySetValues(const IdentifierType &id, const std::vector<TagValue> &values);
     bool internallyIsSameField(const FieldType &ownField, const FieldType &otherField) const;
 };
 
-- 
2.43.0


From bd24fc8f68d85478d46fc9fe854d1abf9f220ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:07 +0000
Subject: [PATCH 042/105] fix: Vorbis comment: make accessors for vendor
 consistent

---
 vorbis/vorbiscomment.cpp | 40 ++++++++++++++++++++++++++++++++++++++++
 vorbis/vorbiscomment.h   |  7 +++++++
 2 files changed, 47 insertions(+)

diff --git a/vorbis/vorbiscomment.cpp b/vorbis/vorbiscomment.cpp
index 4b56ad0..d026189 100644
--- a/vorbis/vorbiscomment.cpp
+++ b/vorbis/vorbiscomment.cpp
@@ -45,6 +45,46 @@ bool VorbisComment::setValue(KnownField field, const TagValue &value)
     }
 }
 
+std::vector<const TagValue *> VorbisComment::values(KnownField field) const
+{
+    switch (field) {
+    case KnownField::Vendor:
+        return Tag::values(field);
+    default:
+        return FieldMapBasedTag<VorbisComment>::values(field);
+    }
+}
+
+bool VorbisComment::setValues(KnownField field, const std::vector<TagValue> &values)
+{
+    switch (field) {
+    case KnownField::Vendor:
+        return Tag::setValues(field, values);
+    default:
+        return FieldMapBasedTag<VorbisComment>::setValues(field, values);
+    }
+}
+
+bool VorbisComment::hasField(KnownField field) const
+{
+    switch (field) {
+    case KnownField::Vendor:
+        return !vendor().isEmpty();
+    default:
+        return FieldMapBasedTag<VorbisComment>::hasField(field);
+    }
+}
+
+bool VorbisComment::supportsField(KnownField field) const
+{
+    switch (field) {
+    case KnownField::Vendor:
+        return true;
+    default:
+        return FieldMapBasedTag<VorbisComment>::supportsField(field);
+    }
+}
+
 VorbisComment::IdentifierType VorbisComment::internallyGetFieldId(KnownField field) const
 {
     using namespace VorbisCommentIds;
diff --git a/vorbis/vorbiscomment.h b/vorbis/vorbiscomment.h
index af73d32..5034aba 100644
--- a/vorbis/vorbiscomment.h
+++ b/vorbis/vorbiscomment.h
@@ -40,6 +40,13 @@ public:
     const TagValue &value(KnownField field) const override;
     using FieldMapBasedTag<VorbisComment>::setValue;
     bool setValue(KnownField field, const TagValue &value) override;
+    using FieldMapBasedTag<VorbisComment>::values;
+    std::vector<const TagValue *> values(KnownField field) const override;
+    using FieldMapBasedTag<VorbisComment>::setValues;
+    bool setValues(KnownField field, const std::vector<TagValue> &values) override;
+    using FieldMapBasedTag<VorbisComment>::hasField;
+    bool hasField(KnownField field) const override;
+    bool supportsField(KnownField field) const override;
 
     void parse(OggIterator &iterator, VorbisCommentFlags flags, Diagnostics &diag);
     void parse(OggIterator &iterator, VorbisCommentFlags flags, std::uint64_t &padding, Diagnostics &diag);
-- 
2.43.0


From fc339ab85b0efe36aa3cae72ae9199060c0ee309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:23 +0000
Subject: [PATCH 043/105] fix: consider additional values when inserting fields
 of another tag

---
 fieldbasedtag.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/fieldbasedtag.h b/fieldbasedtag.h
index c7cc85b..6eab7af 100644
--- a/fieldbasedtag.h
+++ b/fieldbasedtag.h
@@ -409,9 +409,14 @@ std::size_t FieldMapBasedTag<ImplementationType>::insertFields(const FieldMapBas
 {
     auto fieldsInserted = std::size_t(0);
     auto insertedFields = std::vector<const FieldType *>();
+    const auto hasValues = [this](const FieldType &field) {
+        auto values = std::vector<const TagValue *>();
+        static_cast<const ImplementationType *>(this)->internallyGetValuesFromField(field, values);
+        return !values.empty();
+    };
     for (const auto &pair : from.fields()) {
         const FieldType &fromField = pair.second;
-        if (fromField.value().isEmpty()) {
+        if (!hasValues(fromField)) {
             continue;
         }
         bool fieldInserted = false;
@@ -423,7 +428,7 @@ std::size_t FieldMapBasedTag<ImplementationType>::insertFields(const FieldMapBas
                 continue;
             }
             if (static_cast<const ImplementationType *>(this)->internallyIsSameField(ownField, fromField)) {
-                if (overwrite || ownField.value().isEmpty()) {
+                if (overwrite || !hasValues(ownField)) {
                     ownField = fromField;
                     insertedFields.emplace_back(&ownField);
                     ++fieldsInserted;
-- 
2.43.0


From 69f7772ee1ce1d7fa128bf7aa3998a2e8a4b4a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:08 +0000
Subject: [PATCH 044/105] fix: ID3v2: make order of mixed short and long frame
 IDs consistent

---
 id3/id3v2tag.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 3ca99e1..64a91a8 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -768,9 +768,12 @@ bool FrameComparer::operator()(std::uint32_t lhs, std::uint32_t rhs) const
         } else if (!rhsLong) {
             rhs = Id3v2FrameIds::convertToLongId(rhs);
             if (!rhs) {
-                return true;
+                return false;
             }
         }
+        if (lhs == rhs) {
+            return false;
+        }
     }
 
     if (lhs == Id3v2FrameIds::lUniqueFileId || lhs == Id3v2FrameIds::sUniqueFileId) {
-- 
2.43.0


From 5d3a8454cf6b3ac30738a2dcdaed7e9dbdf66506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:44 +0000
Subject: [PATCH 045/105] fix: ID3v2: convert IDs of composer, unique file ID
 and synchronized lyrics frames between versions

---
 id3/id3v2frameids.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/id3/id3v2frameids.cpp b/id3/id3v2frameids.cpp
index 9afb674..e42ed8f 100644
--- a/id3/id3v2frameids.cpp
+++ b/id3/id3v2frameids.cpp
@@ -105,6 +105,12 @@ std::uint32_t convertToShortId(std::uint32_t id)
         return sUserDefinedURL;
     case lSubtitleOrDescriptionRefinement:
         return sSubtitleOrDescriptionRefinement;
+    case lComposer:
+        return sComposer;
+    case lUniqueFileId:
+        return sUniqueFileId;
+    case lSynchronizedLyrics:
+        return sSynchronizedLyrics;
     default:
         return 0;
     }
@@ -195,6 +201,12 @@ std::uint32_t convertToLongId(std::uint32_t id)
         return lUserDefinedURL;
     case sSubtitleOrDescriptionRefinement:
         return lSubtitleOrDescriptionRefinement;
+    case sComposer:
+        return lComposer;
+    case sUniqueFileId:
+        return lUniqueFileId;
+    case sSynchronizedLyrics:
+        return lSynchronizedLyrics;
     default:
         return 0;
     }
-- 
2.43.0


From 2973bd0d0edebccfcc61ee2afeccee220dfe1e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:28 +0000
Subject: [PATCH 046/105] fix: ID3v2: order short and long frame IDs
 consistently

---
 id3/id3v2tag.cpp | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 64a91a8..4ce9c97 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -757,24 +757,24 @@ bool FrameComparer::operator()(std::uint32_t lhs, std::uint32_t rhs) const
         return false;
     }
 
-    const bool lhsLong = Id3v2FrameIds::isLongId(lhs);
-    const bool rhsLong = Id3v2FrameIds::isLongId(rhs);
-    if (lhsLong != rhsLong) {
-        if (!lhsLong) {
-            lhs = Id3v2FrameIds::convertToLongId(lhs);
-            if (!lhs) {
-                return true;
-            }
-        } else if (!rhsLong) {
-            rhs = Id3v2FrameIds::convertToLongId(rhs);
-            if (!rhs) {
-                return false;
-            }
+    // convert short IDs to long IDs (regardless of whether the other ID is short or long to get a consistent order)
+    if (Id3v2FrameIds::isShortId(lhs)) {
+        if (const auto longId = Id3v2FrameIds::convertToLongId(lhs)) {
+            lhs = longId;
         }
-        if (lhs == rhs) {
-            return false;
+    }
+    if (Id3v2FrameIds::isShortId(rhs)) {
+        if (const auto longId = Id3v2FrameIds::convertToLongId(rhs)) {
+            rhs = longId;
         }
     }
+    if (lhs == rhs) {
+        return false;
+    }
+    const bool lhsShort = Id3v2FrameIds::isShortId(lhs);
+    if (lhsShort != Id3v2FrameIds::isShortId(rhs)) {
+        return lhsShort;
+    }
 
     if (lhs == Id3v2FrameIds::lUniqueFileId || lhs == Id3v2FrameIds::sUniqueFileId) {
         return true;
-- 
2.43.0


From 7d5e1d26465cd921478709f5b06b178181d12cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:54 +0000
Subject: [PATCH 047/105] fix: transfer values when converting ID3v1 tags to
 ID3v2 and vice versa

---
 mediafileinfo.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index c5eb749..ca13b80 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1455,7 +1455,10 @@ bool MediaFileInfo::id3v1ToId3v2()
         return false;
     }
     return createAppropriateTags(TagCreationSettings{
-        {}, TagCreationFlags::MergeMultipleSuccessiveId3v2Tags | TagCreationFlags::KeepExistingId3v2Version, TagUsage::Never, TagUsage::Always, 3 });
+        {},
+        TagCreationFlags::Id3InitOnCreate | TagCreationFlags::Id3TransferValuesOnRemoval | TagCreationFlags::MergeMultipleSuccessiveId3v2Tags
+            | TagCreationFlags::KeepExistingId3v2Version,
+        TagUsage::Never, TagUsage::Always, 3 });
 }
 
 /*!
@@ -1474,7 +1477,10 @@ bool MediaFileInfo::id3v2ToId3v1()
         return false;
     }
     return createAppropriateTags(TagCreationSettings{
-        {}, TagCreationFlags::MergeMultipleSuccessiveId3v2Tags | TagCreationFlags::KeepExistingId3v2Version, TagUsage::Always, TagUsage::Never, 3 });
+        {},
+        TagCreationFlags::Id3InitOnCreate | TagCreationFlags::Id3TransferValuesOnRemoval | TagCreationFlags::MergeMultipleSuccessiveId3v2Tags
+            | TagCreationFlags::KeepExistingId3v2Version,
+        TagUsage::Always, TagUsage::Never, 3 });
 }
 
 /*!
-- 
2.43.0


From bddfcaccd1f5eb9ef5234776f3c2bbe8ecb0e7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:15 +0000
Subject: [PATCH 048/105] fix: ID3v1: do not treat the absence of a genre as a
 genre

---
 id3/id3v1tag.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/id3/id3v1tag.cpp b/id3/id3v1tag.cpp
index 9222155..d03f050 100644
--- a/id3/id3v1tag.cpp
+++ b/id3/id3v1tag.cpp
@@ -81,7 +81,12 @@ void Id3v1Tag::parse(std::istream &stream, Diagnostics &diag)
     if (is11) {
         m_trackPos.assignPosition(PositionInSet(*reinterpret_cast<unsigned char *>(buffer + 126), 0));
     }
-    m_genre.assignStandardGenreIndex(*reinterpret_cast<unsigned char *>(buffer + 127));
+    const auto genreIndex = static_cast<int>(*reinterpret_cast<unsigned char *>(buffer + 127));
+    if (Id3Genres::isEmptyGenre(genreIndex)) {
+        m_genre.clearDataAndMetadata();
+    } else {
+        m_genre.assignStandardGenreIndex(genreIndex);
+    }
 }
 
 /*!
-- 
2.43.0


From 3eec8e7d405f82b961074406dc2487b3e16fb0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:26 +0000
Subject: [PATCH 049/105] fix: make TagValue::toWString() return the text of
 values which are no text

The size of the (empty) result has been used instead of the size of the
string to be converted so always an empty string has been returned.
---
 tagvalue.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index aaa0924..8f7990a 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -1190,8 +1190,8 @@ void TagValue::toWString(std::u16string &result, TagTextEncoding encoding) const
         throw ConversionException(argsToString("Can not convert ", tagDataTypeString(m_type), " to string."));
     }
     if (encoding == TagTextEncoding::Utf16LittleEndian || encoding == TagTextEncoding::Utf16BigEndian) {
-        auto encodedData = encoding == TagTextEncoding::Utf16LittleEndian ? convertUtf8ToUtf16LE(regularStrRes.data(), result.size())
-                                                                          : convertUtf8ToUtf16BE(regularStrRes.data(), result.size());
+        auto encodedData = encoding == TagTextEncoding::Utf16LittleEndian ? convertUtf8ToUtf16LE(regularStrRes.data(), regularStrRes.size())
+                                                                          : convertUtf8ToUtf16BE(regularStrRes.data(), regularStrRes.size());
         result.assign(reinterpret_cast<const char16_t *>(encodedData.first.get()), encodedData.second / sizeof(const char16_t));
     }
 }
-- 
2.43.0


From ac35280653544b0774a4ce71c3efd35d3f265642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:01 +0000
Subject: [PATCH 050/105] fix: refuse converting ratings to integers they are
 out of range for

The conversion from floating point numbers to integers they do not fit into
is undefined behavior and yields an arbitrary number.
---
 tagvalue.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index 8f7990a..31b12aa 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -565,8 +565,14 @@ std::int32_t TagValue::toInteger() const
             return *reinterpret_cast<std::int32_t *>(m_ptr.get());
         }
         throw ConversionException("Can not convert assigned data to integer because the data size is not appropriate.");
-    case TagDataType::Popularity:
-        return static_cast<std::int32_t>(toPopularity().rating);
+    case TagDataType::Popularity: {
+        const auto rating = toPopularity().rating;
+        if (!(rating >= static_cast<double>(std::numeric_limits<std::int32_t>::min())
+                && rating <= static_cast<double>(std::numeric_limits<std::int32_t>::max()))) {
+            throw ConversionException("Rating is out of range for conversion to integer.");
+        }
+        return static_cast<std::int32_t>(rating);
+    }
     case TagDataType::UnsignedInteger: {
         const auto unsignedInteger = toUnsignedInteger();
         if (unsignedInteger > std::numeric_limits<std::int32_t>::max()) {
@@ -605,8 +611,13 @@ std::uint64_t TagValue::toUnsignedInteger() const
         }
         return static_cast<std::uint64_t>(integer);
     }
-    case TagDataType::Popularity:
-        return static_cast<std::uint64_t>(toPopularity().rating);
+    case TagDataType::Popularity: {
+        const auto rating = toPopularity().rating;
+        if (!(rating >= 0.0 && rating < static_cast<double>(std::numeric_limits<std::uint64_t>::max()))) {
+            throw ConversionException("Rating is out of range for conversion to unsigned integer.");
+        }
+        return static_cast<std::uint64_t>(rating);
+    }
     case TagDataType::UnsignedInteger:
         if (m_size == sizeof(std::uint64_t)) {
             return *reinterpret_cast<std::uint64_t *>(m_ptr.get());
-- 
2.43.0


From 124493d1a58030cb5c76fca596898885a8d1dc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:01 +0000
Subject: [PATCH 051/105] fix: refuse converting negative integers to a date

The integer has been reinterpreted as unsigned integer so a completely
different date has been returned.
---
 tagvalue.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index 31b12aa..1c80cb6 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -789,6 +789,9 @@ DateTime TagValue::toDateTime() const
     case TagDataType::DateTime:
     case TagDataType::UnsignedInteger:
         if (m_size == sizeof(std::int32_t)) {
+            if (m_type == TagDataType::Integer && *reinterpret_cast<std::int32_t *>(m_ptr.get()) < 0) {
+                throw ConversionException("Can not convert negative value to date time.");
+            }
             return DateTime(*(reinterpret_cast<std::uint32_t *>(m_ptr.get())));
         } else if (m_size == sizeof(std::uint64_t)) {
             return DateTime(*(reinterpret_cast<std::uint64_t *>(m_ptr.get())));
-- 
2.43.0


From d80688618971b7424f45d3c95029e75f58905ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:01 +0000
Subject: [PATCH 052/105] fix: return the text of a popularity as Latin-1 if
 that is the requested encoding

The user has still been encoded as UTF-8 then.
---
 tagvalue.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index 1c80cb6..082c96c 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -1110,7 +1110,11 @@ void TagValue::toString(string &result, TagTextEncoding encoding) const
     default:
         throw ConversionException(argsToString("Can not convert ", tagDataTypeString(m_type), " to string."));
     }
-    if (encoding == TagTextEncoding::Utf16LittleEndian || encoding == TagTextEncoding::Utf16BigEndian) {
+    if (encoding == TagTextEncoding::Latin1 && m_type == TagDataType::Popularity) {
+        // convert the user which might contain non-ASCII characters
+        auto encodedData = convertUtf8ToLatin1(result.data(), result.size());
+        result.assign(encodedData.first.get(), encodedData.second);
+    } else if (encoding == TagTextEncoding::Utf16LittleEndian || encoding == TagTextEncoding::Utf16BigEndian) {
         auto encodedData = encoding == TagTextEncoding::Utf16LittleEndian ? convertUtf8ToUtf16LE(result.data(), result.size())
                                                                           : convertUtf8ToUtf16BE(result.data(), result.size());
         result.assign(encodedData.first.get(), encodedData.second);
-- 
2.43.0


From 45c555e85cdbced8b978f9b58a3aa111ab29e31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:39 +0000
Subject: [PATCH 053/105] fix: do not consider different tag values of
 different types equal

Values of different types are supposed to be equal if their string
representation is identical. However, the total of positions, the fraction of
ratings, the user and the play counter of popularities were ignored when
comparing with integers and empty text was considered equal to the integer 0.
---
 tagvalue.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index 082c96c..3a9bcaa 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -469,18 +469,21 @@ bool TagValue::compareTo(const TagValue &other, TagValueComparisionFlags options
         }
 
         // handle types where an implicit conversion to the specific type can be done
-        if (m_type == TagDataType::Integer || other.m_type == TagDataType::Integer) {
+        // note: Empty values are not considered equal to zero but their string representation is compared.
+        const auto involves = [this, &other](TagDataType type) { return m_type == type || other.m_type == type; };
+        if (isEmpty() || other.isEmpty()) {
+            return toString(TagTextEncoding::Utf8) == other.toString(TagTextEncoding::Utf8);
+        } else if (involves(TagDataType::PositionInSet) && (involves(TagDataType::Integer) || involves(TagDataType::UnsignedInteger))) {
+            return toPositionInSet() == other.toPositionInSet();
+        } else if (involves(TagDataType::Popularity)) {
+            const auto lhs = toPopularity(), rhs = other.toPopularity();
+            return lhs.rating == rhs.rating && lhs.playCounter == rhs.playCounter
+                && (lhs.scale == rhs.scale || involves(TagDataType::Integer) || involves(TagDataType::UnsignedInteger))
+                && compareData(lhs.user, rhs.user, options & TagValueComparisionFlags::CaseInsensitive);
+        } else if (involves(TagDataType::Integer)) {
             return toInteger() == other.toInteger();
-        } else if (m_type == TagDataType::UnsignedInteger || other.m_type == TagDataType::UnsignedInteger) {
+        } else if (involves(TagDataType::UnsignedInteger)) {
             return toUnsignedInteger() == other.toUnsignedInteger();
-        } else if (m_type == TagDataType::Popularity || other.m_type == TagDataType::Popularity) {
-            if (options & TagValueComparisionFlags::CaseInsensitive) {
-                const auto lhs = toPopularity(), rhs = other.toPopularity();
-                return lhs.rating == rhs.rating && lhs.playCounter == rhs.playCounter && lhs.scale == rhs.scale
-                    && compareData(lhs.user, rhs.user, true);
-            } else {
-                return toPopularity() == other.toPopularity();
-            }
         }
 
         // handle other types where an implicit conversion to string can be done by comparing the string representation
@@ -715,7 +718,7 @@ PositionInSet TagValue::toPositionInSet() const
         switch (m_size) {
         case sizeof(std::uint64_t): {
             const auto track = *(reinterpret_cast<std::uint64_t *>(m_ptr.get()));
-            if (track < std::numeric_limits<std::int32_t>::max()) {
+            if (track <= static_cast<std::uint64_t>(std::numeric_limits<std::int32_t>::max())) {
                 return PositionInSet(static_cast<std::int32_t>(track));
             }
         }
-- 
2.43.0


From 0660abbeaae9e7ce60917d3b01cbd5d595ad482c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:55 +0000
Subject: [PATCH 054/105] fix: compare UTF-16 text case-insensitively by
 characters and not by bytes

---
 tagvalue.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/tagvalue.cpp b/tagvalue.cpp
index 3a9bcaa..915af30 100644
--- a/tagvalue.cpp
+++ b/tagvalue.cpp
@@ -328,6 +328,11 @@ TagTextEncoding pickUtfEncoding(TagTextEncoding encoding1, TagTextEncoding encod
     }
     return TagTextEncoding::Utf8;
 }
+
+static bool isUtf16(TagTextEncoding encoding)
+{
+    return encoding == TagTextEncoding::Utf16LittleEndian || encoding == TagTextEncoding::Utf16BigEndian;
+}
 /// \endcond
 
 /*!
@@ -361,13 +366,14 @@ bool TagValue::compareTo(const TagValue &other, TagValueComparisionFlags options
         }
 
         // check description which might use different encodings
-        if (m_descEncoding == other.m_descEncoding || m_descEncoding == TagTextEncoding::Unspecified
-            || other.m_descEncoding == TagTextEncoding::Unspecified || m_desc.empty() || other.m_desc.empty()) {
+        if ((m_descEncoding == other.m_descEncoding && !(options & TagValueComparisionFlags::CaseInsensitive && isUtf16(m_descEncoding)))
+            || m_descEncoding == TagTextEncoding::Unspecified || other.m_descEncoding == TagTextEncoding::Unspecified || m_desc.empty() || other.m_desc.empty()) {
             if (!compareData(m_desc, other.m_desc, options & TagValueComparisionFlags::CaseInsensitive)) {
                 return false;
             }
         } else {
-            const auto utfEncodingToUse = pickUtfEncoding(m_descEncoding, other.m_descEncoding);
+            const auto utfEncodingToUse
+                = options & TagValueComparisionFlags::CaseInsensitive ? TagTextEncoding::Utf8 : pickUtfEncoding(m_descEncoding, other.m_descEncoding);
             StringData str1, str2;
             const char *data1, *data2;
             size_t size1, size2;
@@ -406,13 +412,15 @@ bool TagValue::compareTo(const TagValue &other, TagValueComparisionFlags options
                 if (m_size != other.m_size && m_encoding == other.m_encoding) {
                     return false;
                 }
-                if (m_encoding == other.m_encoding || m_encoding == TagTextEncoding::Unspecified
-                    || other.m_encoding == TagTextEncoding::Unspecified) {
+                if ((m_encoding == other.m_encoding && !(options & TagValueComparisionFlags::CaseInsensitive && isUtf16(m_encoding)))
+                    || m_encoding == TagTextEncoding::Unspecified || other.m_encoding == TagTextEncoding::Unspecified) {
                     return compareData(other, options & TagValueComparisionFlags::CaseInsensitive);
                 }
 
                 // compare UTF-8 or UTF-16 representation of strings avoiding unnecessary conversions
-                const auto utfEncodingToUse = pickUtfEncoding(m_encoding, other.m_encoding);
+                // note: The case can only be ignored when comparing the UTF-8 representation because the comparison is done byte-wise.
+                const auto utfEncodingToUse
+                    = options & TagValueComparisionFlags::CaseInsensitive ? TagTextEncoding::Utf8 : pickUtfEncoding(m_encoding, other.m_encoding);
                 string str1, str2;
                 const char *data1, *data2;
                 size_t size1, size2;
-- 
2.43.0


From dab3c42d2c680e6ddb70de7a6c27988bd3bb36bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:59 +0000
Subject: [PATCH 055/105] fix: do not access the FLAC stream in
 MediaFileInfo::hasAnyTag() before the tracks have been parsed

---
 mediafileinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index ca13b80..540d577 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -1597,7 +1597,7 @@ vector<Tag *> MediaFileInfo::tags() const
 bool MediaFileInfo::hasAnyTag() const
 {
     return hasId3v1Tag() || hasId3v2Tag() || (m_container && m_container->tagCount())
-        || (m_containerFormat == ContainerFormat::Flac && static_cast<FlacStream *>(m_singleTrack.get())->vorbisComment());
+        || (m_containerFormat == ContainerFormat::Flac && m_singleTrack && static_cast<FlacStream *>(m_singleTrack.get())->vorbisComment());
 }
 
 /*!
-- 
2.43.0


From ad34345f9e1b4d25c4ea9b514146b09d7957db6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:59 +0000
Subject: [PATCH 056/105] fix: do not treat aborting the parsing of chapters or
 attachments as critical failure

---
 mediafileinfo.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 540d577..49a45ef 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -536,6 +536,8 @@ void MediaFileInfo::parseChapters(Diagnostics &diag, AbortableProgressFeedback &
     } catch (const NotImplementedException &) {
         m_chaptersParsingStatus = ParsingStatus::NotSupported;
         diag.emplace_back(DiagLevel::Information, "Parsing chapters is not implemented for the container format of the file.", context);
+    } catch (const OperationAbortedException &) {
+        diag.emplace_back(DiagLevel::Information, "Parsing chapters has been aborted.", context);
     } catch (const Failure &) {
         m_chaptersParsingStatus = ParsingStatus::CriticalFailure;
         diag.emplace_back(DiagLevel::Critical, "Unable to parse chapters.", context);
@@ -569,6 +571,8 @@ void MediaFileInfo::parseAttachments(Diagnostics &diag, AbortableProgressFeedbac
     } catch (const NotImplementedException &) {
         m_attachmentsParsingStatus = ParsingStatus::NotSupported;
         diag.emplace_back(DiagLevel::Information, "Parsing attachments is not implemented for the container format of the file.", context);
+    } catch (const OperationAbortedException &) {
+        diag.emplace_back(DiagLevel::Information, "Parsing attachments has been aborted.", context);
     } catch (const Failure &) {
         m_attachmentsParsingStatus = ParsingStatus::CriticalFailure;
         diag.emplace_back(DiagLevel::Critical, "Unable to parse attachments.", context);
-- 
2.43.0


From aae3b5a1138d7243420f41f288076ef376646377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:59 +0000
Subject: [PATCH 057/105] fix: do not read beyond the end of the file if the
 size denoted by an ID3v2 header exceeds it

---
 mediafileinfo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 49a45ef..816b8bc 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -164,7 +164,7 @@ startParsingSignature:
         diag.emplace_back(DiagLevel::Information, "Parsing the container format has been aborted.", context);
         return;
     }
-    if (size() - containerOffset() >= 16) {
+    if (size() >= containerOffset() + 16) {
         stream().seekg(m_containerOffset, ios_base::beg);
         stream().read(buff, sizeof(buff));
 
-- 
2.43.0


From 87d6f45fbd011a79307215c996175eeff12ff43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:21 +0000
Subject: [PATCH 058/105] fix: restore the original file if rewriting an Ogg
 file fails and its pages cannot be read

Resetting the container while handling the failure fetched pages and hence could raise another exception which prevented the backup from being restored. Besides, tracks and tags were not reset at all.
---
 ogg/oggcontainer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index c570c24..f568b33 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -58,7 +58,10 @@ OggContainer::~OggContainer()
 
 void OggContainer::reset()
 {
-    m_iterator.reset();
+    GenericContainer<MediaFileInfo, OggVorbisComment, OggStream, OggPage>::reset();
+    m_streamsBySerialNo.clear();
+    // do not fetch any pages here as this method is also used to handle a failure when writing the file
+    m_iterator.clear(stream(), startOffset(), fileInfo().size());
 }
 
 /*!
-- 
2.43.0


From d28c9101ba8d44a0ad9160fa5d10037caa7d97d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:44 +0000
Subject: [PATCH 059/105] fix: ID3v2: do not read beyond the end of frames with
 unterminated strings

---
 id3/id3v2frame.cpp | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 58685e0..9b84aec 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -239,6 +239,10 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
             diag.emplace_back(DiagLevel::Critical, "The decompressed size is smaller than the compressed size.", context);
             throw InvalidDataException();
         }
+        if (decompressedSize > maxId3v2FrameDataSize) {
+            diag.emplace_back(DiagLevel::Critical, "The decompressed data exceeds the maximum supported frame size.", context);
+            throw InvalidDataException();
+        }
         const auto bufferCompressed = make_unique<char[]>(m_dataSize);
         reader.read(bufferCompressed.get(), m_dataSize);
         buffer = make_unique<char[]>(decompressedSize);
@@ -259,10 +263,6 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
             diag.emplace_back(DiagLevel::Critical, "Decompressing failed (unknown reason).", context);
             throw InvalidDataException();
         }
-        if (decompressedSize > maxId3v2FrameDataSize) {
-            diag.emplace_back(DiagLevel::Critical, "The decompressed data exceeds the maximum supported frame size.", context);
-            throw InvalidDataException();
-        }
         m_dataSize = static_cast<std::uint32_t>(decompressedSize);
     } else {
         buffer = make_unique<char[]>(m_dataSize);
@@ -932,16 +932,18 @@ tuple<const char *, size_t, const char *> Id3v2Frame::parseSubstring(
             get<0>(res) += 3;
         }
         const char *pos = get<0>(res);
-        for (; *pos != 0x00; ++pos) {
-            if (pos < get<2>(res)) {
-                ++get<1>(res);
-            } else {
+        for (;; ++pos) {
+            if (pos >= get<2>(res)) {
                 if (addWarnings) {
                     diag.emplace_back(
                         DiagLevel::Warning, "String in frame is not terminated properly.", "parsing termination of frame " + idToString());
                 }
                 break;
             }
+            if (*pos == 0x00) {
+                break;
+            }
+            ++get<1>(res);
         }
         get<2>(res) = pos + 1;
         break;
@@ -964,19 +966,21 @@ tuple<const char *, size_t, const char *> Id3v2Frame::parseSubstring(
                 get<0>(res) += 2;
             }
         }
-        const std::uint16_t *pos = reinterpret_cast<const std::uint16_t *>(get<0>(res));
-        for (; *pos != 0x0000; ++pos) {
-            if (pos < reinterpret_cast<const std::uint16_t *>(get<2>(res))) {
-                get<1>(res) += 2;
-            } else {
+        const char *pos = get<0>(res);
+        for (;; pos += 2) {
+            if (get<2>(res) - pos < 2) {
                 if (addWarnings) {
                     diag.emplace_back(
                         DiagLevel::Warning, "Wide string in frame is not terminated properly.", "parsing termination of frame " + idToString());
                 }
                 break;
             }
+            if (!pos[0] && !pos[1]) {
+                break;
+            }
+            get<1>(res) += 2;
         }
-        get<2>(res) = reinterpret_cast<const char *>(pos + 1);
+        get<2>(res) = pos + 2;
         break;
     }
     }
-- 
2.43.0


From 487b279107bc2d7e36d9f34e710b4b394f5e425c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:02 +0000
Subject: [PATCH 060/105] fix: ID3v2: read frames with additional header
 information, extended headers before ID3v2.4 and unsynchronised tags
 correctly

The group byte and data length are part of the frame size so frames having these were shifted and the following frames lost after
rewriting. The layout of the flags depends on the version. The size of extended headers is stored differently before ID3v2.4. Flags
denoting unsynchronisation or a footer were written although neither is made.
---
 id3/id3v2frame.cpp | 81 +++++++++++++++++++++++++++++++++-------------
 id3/id3v2frame.h   |  6 ++--
 id3/id3v2tag.cpp   | 58 ++++++++++++++++++++++++++-------
 id3/id3v2tag.h     |  1 +
 4 files changed, 109 insertions(+), 37 deletions(-)

diff --git a/id3/id3v2frame.cpp b/id3/id3v2frame.cpp
index 9b84aec..b7e8cf9 100644
--- a/id3/id3v2frame.cpp
+++ b/id3/id3v2frame.cpp
@@ -1,5 +1,6 @@
 #include "./id3v2frame.h"
 #include "./id3v2frameids.h"
+#include "./id3v2tag.h"
 
 #include "../diagnostics.h"
 #include "../exceptions.h"
@@ -152,6 +153,8 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
 {
     static const string defaultContext("parsing ID3v2 frame");
     string context;
+    auto dataLength = std::uint32_t();
+    m_parsedVersion = version;
 
     // parse header
     if (version < 3) {
@@ -198,20 +201,38 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
 
         // -> read size, check whether frame is truncated
         m_dataSize = version >= 4 ? reader.readSynchsafeUInt32BE() : reader.readUInt32BE();
-        m_totalSize = m_dataSize + 10;
+        m_totalSize = m_dataSize <= maxId3v2FrameDataSize ? m_dataSize + 10 : numeric_limits<std::uint32_t>::max();
         if (m_totalSize > maximalSize) {
             diag.emplace_back(DiagLevel::Warning, "The frame is truncated and will be ignored.", context);
             throw TruncatedDataException();
         }
 
-        // -> read flags and group
+        // -> read flags
         m_flag = reader.readUInt16BE();
-        m_group = hasGroupInformation() ? reader.readByte() : 0;
+        m_group = 0;
         if (isEncrypted()) {
             // encryption is not implemented
             diag.emplace_back(DiagLevel::Critical, "Encrypted frames aren't supported.", context);
             throw VersionNotSupportedException();
         }
+
+        // -> read additional header information (which is part of the denoted size)
+        const auto hasDataLength = isCompressed() || hasDataLengthIndicator();
+        const auto additionalHeaderSize = (hasDataLength ? 4u : 0u) + (hasGroupInformation() ? 1u : 0u);
+        if (m_dataSize < additionalHeaderSize) {
+            diag.emplace_back(DiagLevel::Critical, "The frame header is truncated.", context);
+            throw TruncatedDataException();
+        }
+        m_dataSize -= additionalHeaderSize;
+        if (version >= 4 && hasGroupInformation()) {
+            m_group = reader.readByte();
+        }
+        if (hasDataLength) {
+            dataLength = version >= 4 ? reader.readSynchsafeUInt32BE() : reader.readUInt32BE();
+        }
+        if (version < 4 && hasGroupInformation()) {
+            m_group = reader.readByte();
+        }
     }
 
     // add a warning if a frame appears in an ID3v2 tag known not to support it
@@ -232,19 +253,20 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
     // parse the data
     unique_ptr<char[]> buffer;
 
-    // -> decompress data if compressed; otherwise just read it
+    // -> read data, undo unsynchronisation, decompress data if compressed
+    buffer = make_unique<char[]>(m_dataSize);
+    reader.read(buffer.get(), m_dataSize);
+    if (isUnsynchronized()) {
+        m_dataSize = static_cast<std::uint32_t>(Id3v2Tag::undoUnsynchronisation(buffer.get(), m_dataSize));
+    }
     if (isCompressed()) {
-        uLongf decompressedSize = version >= 4 ? reader.readSynchsafeUInt32BE() : reader.readUInt32BE();
-        if (decompressedSize < m_dataSize) {
-            diag.emplace_back(DiagLevel::Critical, "The decompressed size is smaller than the compressed size.", context);
-            throw InvalidDataException();
-        }
-        if (decompressedSize > maxId3v2FrameDataSize) {
-            diag.emplace_back(DiagLevel::Critical, "The decompressed data exceeds the maximum supported frame size.", context);
+        // check the denoted size considering the maximum compression ratio of the algorithm
+        auto decompressedSize = static_cast<uLongf>(dataLength);
+        if (decompressedSize > maxId3v2FrameDataSize || decompressedSize / 1040u > m_dataSize) {
+            diag.emplace_back(DiagLevel::Critical, "The denoted size of the decompressed data is invalid.", context);
             throw InvalidDataException();
         }
-        const auto bufferCompressed = make_unique<char[]>(m_dataSize);
-        reader.read(bufferCompressed.get(), m_dataSize);
+        auto bufferCompressed = std::move(buffer);
         buffer = make_unique<char[]>(decompressedSize);
         switch (
             uncompress(reinterpret_cast<Bytef *>(buffer.get()), &decompressedSize, reinterpret_cast<Bytef *>(bufferCompressed.get()), m_dataSize)) {
@@ -263,10 +285,10 @@ void Id3v2Frame::parse(BinaryReader &reader, std::uint32_t version, std::uint32_
             diag.emplace_back(DiagLevel::Critical, "Decompressing failed (unknown reason).", context);
             throw InvalidDataException();
         }
-        m_dataSize = static_cast<std::uint32_t>(decompressedSize);
-    } else {
-        buffer = make_unique<char[]>(m_dataSize);
-        reader.read(buffer.get(), m_dataSize);
+        if (!(m_dataSize = static_cast<std::uint32_t>(decompressedSize))) {
+            diag.emplace_back(DiagLevel::Warning, "The frame size is 0.", context);
+            throw InvalidDataException();
+        }
     }
 
     const auto isTextFrame = Id3v2FrameIds::isTextFrame(id());
@@ -818,7 +840,7 @@ Id3v2FrameMaker::Id3v2FrameMaker(Id3v2Frame &frame, std::uint8_t version, Diagno
             m_requiredSize += 1;
         }
         // -> decompressed size
-        if (version >= 3 && m_frame.isCompressed()) {
+        if (m_frame.isCompressed()) {
             m_requiredSize += 4;
         }
     }
@@ -837,23 +859,36 @@ void Id3v2FrameMaker::make(BinaryWriter &writer)
         writer.writeUInt24BE(m_frameId);
         writer.writeUInt24BE(m_dataSize);
     } else {
+        // the denoted size includes the group and the decompressed size
+        const auto hasGroup = m_frame.hasGroupInformation(), isCompressed = m_frame.isCompressed();
         writer.writeUInt32BE(m_frameId);
         if (m_version >= 4) {
-            writer.writeSynchsafeUInt32BE(m_dataSize);
+            writer.writeSynchsafeUInt32BE(m_requiredSize - 10);
         } else {
-            writer.writeUInt32BE(m_dataSize);
+            writer.writeUInt32BE(m_requiredSize - 10);
         }
-        writer.writeUInt16BE(m_frame.flag());
-        if (m_frame.hasGroupInformation()) {
+        // the layout of the flags and the order of the additional information depends on the version
+        auto flags = static_cast<std::uint16_t>((m_frame.toDiscardWhenUnknownAndTagIsAltered() ? 0x8000 : 0)
+            | (m_frame.toDiscardWhenUnknownAndFileIsAltered() ? 0x4000 : 0) | (m_frame.isReadOnly() ? 0x2000 : 0));
+        if (m_version >= 4) {
+            flags = static_cast<std::uint16_t>((flags >> 1) | (hasGroup ? 0x40 : 0) | (isCompressed ? 0x8 | 0x1 : 0));
+        } else {
+            flags = static_cast<std::uint16_t>(flags | (isCompressed ? 0x80 : 0) | (hasGroup ? 0x20 : 0));
+        }
+        writer.writeUInt16BE(flags);
+        if (m_version >= 4 && hasGroup) {
             writer.writeByte(m_frame.group());
         }
-        if (m_version >= 3 && m_frame.isCompressed()) {
+        if (isCompressed) {
             if (m_version >= 4) {
                 writer.writeSynchsafeUInt32BE(m_decompressedSize);
             } else {
                 writer.writeUInt32BE(m_decompressedSize);
             }
         }
+        if (m_version < 4 && hasGroup) {
+            writer.writeByte(m_frame.group());
+        }
     }
     writer.write(m_data.get(), m_dataSize);
 }
diff --git a/id3/id3v2frame.h b/id3/id3v2frame.h
index 27799aa..178e567 100644
--- a/id3/id3v2frame.h
+++ b/id3/id3v2frame.h
@@ -236,7 +236,7 @@ inline std::uint32_t Id3v2Frame::dataSize() const
  */
 inline bool Id3v2Frame::toDiscardWhenUnknownAndTagIsAltered() const
 {
-    return m_flag & 0x8000;
+    return m_flag & (m_parsedVersion >= 4 ? 0x4000 : 0x8000);
 }
 
 /*!
@@ -244,7 +244,7 @@ inline bool Id3v2Frame::toDiscardWhenUnknownAndTagIsAltered() const
  */
 inline bool Id3v2Frame::toDiscardWhenUnknownAndFileIsAltered() const
 {
-    return m_flag & 0x4000;
+    return m_flag & (m_parsedVersion >= 4 ? 0x2000 : 0x4000);
 }
 
 /*!
@@ -252,7 +252,7 @@ inline bool Id3v2Frame::toDiscardWhenUnknownAndFileIsAltered() const
  */
 inline bool Id3v2Frame::isReadOnly() const
 {
-    return m_flag & 0x2000;
+    return m_flag & (m_parsedVersion >= 4 ? 0x1000 : 0x2000);
 }
 
 /*!
diff --git a/id3/id3v2tag.cpp b/id3/id3v2tag.cpp
index 4ce9c97..117629a 100644
--- a/id3/id3v2tag.cpp
+++ b/id3/id3v2tag.cpp
@@ -9,6 +9,7 @@
 #include <c++utilities/conversion/stringconversion.h>
 
 #include <iostream>
+#include <sstream>
 
 using namespace std;
 using namespace CppUtilities;
@@ -584,6 +585,22 @@ void Id3v2Tag::convertOldRecordDateFields(const std::string &diagContext, Diagno
     }
 }
 
+/*!
+ * \brief Undoes the unsynchronisation scheme (ID3v2 specification, section 6.1) for the specified \a data in-place.
+ * \returns Returns the new size of the data.
+ */
+std::size_t Id3v2Tag::undoUnsynchronisation(char *data, std::size_t size)
+{
+    auto newSize = std::size_t();
+    for (auto i = std::size_t(); i != size; ++i) {
+        if (!data[i] && i && data[i - 1] == '\xFF') {
+            continue;
+        }
+        data[newSize++] = data[i];
+    }
+    return newSize;
+}
+
 /*!
  * \brief Parses tag information from the specified \a stream.
  *
@@ -627,32 +644,49 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
         throw VersionNotSupportedException();
     }
 
+    // undo unsynchronisation which is applied on the tag as a whole (since ID3v2.4 it is applied on individual frames instead)
+    auto *frameStream = &stream;
+    auto synchronizedStream = std::stringstream();
+    auto synchronizedSize = m_sizeExcludingHeader;
+    if (isUnsynchronisationUsed() && majorVersion < 4) {
+        auto data = std::string(
+            maximalSize && m_sizeExcludingHeader > maximalSize - 10 ? static_cast<std::size_t>(maximalSize - 10) : m_sizeExcludingHeader, '\0');
+        stream.read(data.data(), static_cast<std::streamsize>(data.size()));
+        data.resize(undoUnsynchronisation(data.data(), data.size()));
+        synchronizedSize = static_cast<std::uint32_t>(data.size());
+        synchronizedStream.exceptions(std::ios_base::failbit | std::ios_base::badbit);
+        synchronizedStream.str(std::move(data));
+        reader.setStream(frameStream = &synchronizedStream);
+    }
+
     // read extended header (if present)
     if (hasExtendedHeader()) {
         if (maximalSize && maximalSize < 14) {
             diag.emplace_back(DiagLevel::Critical, "Extended header denoted but not present.", context);
             throw TruncatedDataException();
         }
-        m_extendedHeaderSize = reader.readSynchsafeUInt32BE();
-        if (m_extendedHeaderSize < 6 || m_extendedHeaderSize > m_sizeExcludingHeader || (maximalSize && maximalSize < (10 + m_extendedHeaderSize))) {
+        // note: The size does not include the size field itself before ID3v2.4.
+        const auto extendedHeaderSize = majorVersion >= 4 ? reader.readSynchsafeUInt32BE() : reader.readUInt32BE();
+        m_extendedHeaderSize = majorVersion >= 4 || extendedHeaderSize > m_sizeExcludingHeader ? extendedHeaderSize : extendedHeaderSize + 4;
+        if (m_extendedHeaderSize < 6 || m_extendedHeaderSize > synchronizedSize || m_extendedHeaderSize > m_sizeExcludingHeader || (maximalSize && maximalSize < (10 + m_extendedHeaderSize))) {
             diag.emplace_back(DiagLevel::Critical, "Extended header is invalid/truncated.", context);
             throw TruncatedDataException();
         }
-        stream.seekg(m_extendedHeaderSize - 4, ios_base::cur);
+        frameStream->seekg(m_extendedHeaderSize - 4, ios_base::cur);
     }
 
     // how many bytes remain for frames and padding?
-    std::uint32_t bytesRemaining = m_sizeExcludingHeader - m_extendedHeaderSize;
+    std::uint32_t bytesRemaining = synchronizedSize - m_extendedHeaderSize;
     if (maximalSize && bytesRemaining > maximalSize) {
         bytesRemaining = static_cast<std::uint32_t>(maximalSize);
         diag.emplace_back(DiagLevel::Critical, "Frames are truncated.", context);
     }
 
     // read frames
-    auto pos = static_cast<std::uint64_t>(stream.tellg());
+    auto pos = static_cast<std::uint64_t>(frameStream->tellg());
     while (bytesRemaining) {
         // seek to next frame
-        stream.seekg(static_cast<streamoff>(pos));
+        frameStream->seekg(static_cast<streamoff>(pos));
         // parse frame
         Id3v2Frame frame;
         try {
@@ -663,7 +697,7 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
             fields().emplace(frame.id(), std::move(frame));
         } catch (const NoDataFoundException &) {
             if (frame.hasPaddingReached()) {
-                m_paddingSize = startOffset + m_size - pos;
+                m_paddingSize = frameStream == &stream ? startOffset + m_size - pos : bytesRemaining;
                 break;
             }
         } catch (const Failure &) {
@@ -687,9 +721,11 @@ void Id3v2Tag::parse(istream &stream, const std::uint64_t maximalSize, Diagnosti
     if (!hasFooter()) {
         return;
     }
-    if (maximalSize && m_size + 10 < maximalSize) {
+    if (!maximalSize || m_size + 10 <= maximalSize) {
         // the footer does not provide additional information, just check the signature
-        stream.seekg(static_cast<streamoff>(startOffset + (m_size += 10)));
+        stream.seekg(static_cast<streamoff>(startOffset + m_size));
+        m_size += 10;
+        reader.setStream(&stream);
         if (reader.readUInt24LE() != 0x494433u) {
             diag.emplace_back(DiagLevel::Critical, "Footer signature is invalid.", context);
         }
@@ -954,8 +990,8 @@ void Id3v2TagMaker::make(std::ostream &stream, std::uint32_t padding, Diagnostic
     // -> version
     writer.writeByte(m_tag.majorVersion());
     writer.writeByte(m_tag.revisionVersion());
-    // -> flags, but without extended header or compression bit set
-    writer.writeByte(m_tag.flags() & 0xBF);
+    // -> flags, but without unsynchronisation, extended header, compression or footer bit set
+    writer.writeByte(m_tag.flags() & 0x20);
     // -> size (excluding header)
     writer.writeSynchsafeUInt32BE(m_framesSize + padding);
 
diff --git a/id3/id3v2tag.h b/id3/id3v2tag.h
index b0ac6a3..ad5441d 100644
--- a/id3/id3v2tag.h
+++ b/id3/id3v2tag.h
@@ -110,6 +110,7 @@ public:
     bool hasFooter() const;
     std::uint32_t extendedHeaderSize() const;
     std::uint64_t paddingSize() const;
+    static std::size_t undoUnsynchronisation(char *data, std::size_t size);
 
 protected:
     IdentifierType internallyGetFieldId(KnownField field) const;
-- 
2.43.0


From 2eea074c16ae11dd60877f91d6c983b089a1d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:08 +0000
Subject: [PATCH 061/105] fix: MP4: do not overflow when reading
 creation/modification time and duration

---
 mp4/mp4container.cpp | 50 ++++++++++++++++++++++++++++++++++----------
 mp4/mp4container.h   |  2 ++
 mp4/mp4track.cpp     |  8 +++----
 3 files changed, 45 insertions(+), 15 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 369a04f..3a5e73d 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -11,7 +11,9 @@
 #include <c++utilities/io/copy.h>
 #include <c++utilities/io/path.h>
 
+#include <algorithm>
 #include <filesystem>
+#include <limits>
 #include <memory>
 #include <numeric>
 #include <tuple>
@@ -31,6 +33,34 @@ namespace TagParser {
  */
 const CppUtilities::DateTime Mp4Container::epoch = DateTime::fromDate(1904, 1, 1);
 
+/*!
+ * \brief Returns the date denoted by the specified number of seconds since the Mp4Container::epoch.
+ * \remarks Dates which can not be represented are limited to the latest date which can.
+ */
+CppUtilities::DateTime Mp4Container::dateTimeFromSeconds(std::uint64_t secondsSinceEpoch)
+{
+    constexpr auto maxTicks = std::numeric_limits<TimeSpan::TickType>::max();
+    const auto maxSeconds = static_cast<std::uint64_t>((maxTicks - epoch.totalTicks()) / TimeSpan::ticksPerSecond);
+    return epoch
+        + TimeSpan(static_cast<TimeSpan::TickType>(std::min(secondsSinceEpoch, maxSeconds)) * static_cast<TimeSpan::TickType>(TimeSpan::ticksPerSecond));
+}
+
+/*!
+ * \brief Returns the duration denoted by the specified number of \a units; a second has \a timeScale units.
+ * \remarks Durations which can not be represented are limited to the longest duration which can. Returns a duration of
+ *          zero if \a timeScale is zero.
+ */
+CppUtilities::TimeSpan Mp4Container::durationFromUnits(std::uint64_t units, std::uint32_t timeScale)
+{
+    if (!timeScale) {
+        return TimeSpan();
+    }
+    constexpr auto ticksPerSecond = static_cast<std::uint64_t>(TimeSpan::ticksPerSecond);
+    constexpr auto maxSeconds = static_cast<std::uint64_t>(std::numeric_limits<TimeSpan::TickType>::max()) / ticksPerSecond - 1u;
+    const auto seconds = std::min(units / timeScale, maxSeconds);
+    return TimeSpan(static_cast<TimeSpan::TickType>(seconds * ticksPerSecond + (units % timeScale) * ticksPerSecond / timeScale));
+}
+
 /*!
  * \brief Constructs a new container for the specified \a fileInfo at the specified \a startOffset.
  */
@@ -131,22 +161,20 @@ void Mp4Container::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
                 if (mvhdAtom->dataSize() > 0) {
                     stream().seekg(static_cast<iostream::off_type>(mvhdAtom->dataOffset()));
                     std::uint8_t version = reader().readByte();
-                    if ((version == 1 && mvhdAtom->dataSize() >= 32) || (mvhdAtom->dataSize() >= 20)) {
+                    if (mvhdAtom->dataSize() >= (version == 1 ? 32u : 20u)) {
                         stream().seekg(3, ios_base::cur); // skip flags
                         switch (version) {
                         case 0:
-                            m_creationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()));
-                            m_modificationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()));
+                            m_creationTime = dateTimeFromSeconds(reader().readUInt32BE());
+                            m_modificationTime = dateTimeFromSeconds(reader().readUInt32BE());
                             m_timeScale = reader().readUInt32BE();
-                            m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt32BE()))
-                                / static_cast<TimeSpan::TickType>(m_timeScale);
+                            m_duration = durationFromUnits(reader().readUInt32BE(), m_timeScale);
                             break;
                         case 1:
-                            m_creationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()));
-                            m_modificationTime = epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()));
+                            m_creationTime = dateTimeFromSeconds(reader().readUInt64BE());
+                            m_modificationTime = dateTimeFromSeconds(reader().readUInt64BE());
                             m_timeScale = reader().readUInt32BE();
-                            m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(reader().readUInt64BE()))
-                                / static_cast<TimeSpan::TickType>(m_timeScale);
+                            m_duration = durationFromUnits(reader().readUInt64BE(), m_timeScale);
                             break;
                         default:;
                         }
@@ -169,10 +197,10 @@ void Mp4Container::internalParseTracks(Diagnostics &diag, AbortableProgressFeedb
                         stream().seekg(3, ios_base::cur); // skip flags
                         switch (durationSize) {
                         case 4u:
-                            m_duration = TimeSpan::fromSeconds(static_cast<double>(reader().readUInt32BE()) / static_cast<double>(m_timeScale));
+                            m_duration = durationFromUnits(reader().readUInt32BE(), m_timeScale);
                             break;
                         case 8u:
-                            m_duration = TimeSpan::fromSeconds(static_cast<double>(reader().readUInt64BE()) / static_cast<double>(m_timeScale));
+                            m_duration = durationFromUnits(reader().readUInt64BE(), m_timeScale);
                             break;
                         default:;
                         }
diff --git a/mp4/mp4container.h b/mp4/mp4container.h
index c636947..a730f32 100644
--- a/mp4/mp4container.h
+++ b/mp4/mp4container.h
@@ -27,6 +27,8 @@ public:
     ElementPosition determineIndexPosition(Diagnostics &diag) const override;
 
     static const CppUtilities::DateTime epoch;
+    static CppUtilities::DateTime dateTimeFromSeconds(std::uint64_t secondsSinceEpoch);
+    static CppUtilities::TimeSpan durationFromUnits(std::uint64_t units, std::uint32_t timeScale);
 
 protected:
     void internalParseHeader(Diagnostics &diag, AbortableProgressFeedback &progress) override;
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 2b9b190..6e70eb1 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1719,9 +1719,9 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
         m_timeScale = 0;
         m_duration = TimeSpan();
     }
-    m_creationTime = Mp4Container::epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdCreationTime));
-    m_modificationTime = Mp4Container::epoch + TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdModificationTime));
-    m_duration = TimeSpan::fromSeconds(static_cast<TimeSpan::TickType>(m_rawMdhdDuration)) / static_cast<TimeSpan::TickType>(m_timeScale);
+    m_creationTime = Mp4Container::dateTimeFromSeconds(m_rawMdhdCreationTime);
+    m_modificationTime = Mp4Container::dateTimeFromSeconds(m_rawMdhdModificationTime);
+    m_duration = Mp4Container::durationFromUnits(m_rawMdhdDuration, m_timeScale);
 
     std::uint16_t tmp = reader.readUInt16BE();
     if (tmp) {
@@ -2196,7 +2196,7 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
             timeScale = trakAtom().container().timeScale();
         }
         if (timeScale) {
-            m_duration = TimeSpan::fromSeconds(static_cast<double>(totalDuration) / static_cast<double>(timeScale));
+            m_duration = Mp4Container::durationFromUnits(totalDuration, timeScale);
         }
     }
 
-- 
2.43.0


From 1bd8ccd77cfc934cec5cfb55f809ffcef980b952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:08 +0000
Subject: [PATCH 062/105] fix: do not read beyond the bitrate table for MPEG
 audio frames denoting an invalid bitrate

---
 mpegaudio/mpegaudioframe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpegaudio/mpegaudioframe.h b/mpegaudio/mpegaudioframe.h
index 7f95a0d..8ed4b13 100644
--- a/mpegaudio/mpegaudioframe.h
+++ b/mpegaudio/mpegaudioframe.h
@@ -108,7 +108,7 @@ constexpr bool MpegAudioFrame::isProtectedByCrc() const
  */
 inline std::uint16_t MpegAudioFrame::bitrate() const
 {
-    if (mpegVersion() > 0.0 && layer() > 0) {
+    if (mpegVersion() > 0.0 && layer() > 0 && (m_header & 0xf000u) != 0xf000u) {
         return s_bitrateTable[mpegVersion() == 1.0 ? 0 : 1][layer() - 1][(m_header & 0xf000u) >> 12];
     } else {
         return 0;
-- 
2.43.0


From 3564a0ed8c6c9d3d0d292f6db33fb95e12f135fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:06 +0000
Subject: [PATCH 063/105] fix: do not read beyond the table of MPEG-4 sampling
 frequencies

---
 aac/aacframe.cpp           | 6 +++---
 adts/adtsstream.cpp        | 2 +-
 matroska/matroskatrack.cpp | 4 ++--
 mp4/mp4track.cpp           | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/aac/aacframe.cpp b/aac/aacframe.cpp
index 62120b0..dd72eee 100644
--- a/aac/aacframe.cpp
+++ b/aac/aacframe.cpp
@@ -1297,12 +1297,12 @@ void AacFrameElementParser::parseSbrChannelPairElement(std::shared_ptr<AacSbrInf
 
 shared_ptr<AacSbrInfo> AacFrameElementParser::makeSbrInfo(std::uint8_t sbrElement, bool isDrm)
 {
-    if (m_mpeg4ExtensionSamplingFrequencyIndex >= sizeof(mpeg4SamplingFrequencyTable)
-        && m_mpeg4SamplingFrequencyIndex >= sizeof(mpeg4SamplingFrequencyTable)) {
+    if (m_mpeg4ExtensionSamplingFrequencyIndex >= std::size(mpeg4SamplingFrequencyTable)
+        && m_mpeg4SamplingFrequencyIndex >= std::size(mpeg4SamplingFrequencyTable)) {
         throw InvalidDataException(); // sampling frequency index is invalid
     }
     return make_shared<AacSbrInfo>(m_elementId[sbrElement],
-        m_mpeg4ExtensionSamplingFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)
+        m_mpeg4ExtensionSamplingFrequencyIndex < std::size(mpeg4SamplingFrequencyTable)
             ? mpeg4SamplingFrequencyTable[m_mpeg4ExtensionSamplingFrequencyIndex]
             : mpeg4SamplingFrequencyTable[m_mpeg4SamplingFrequencyIndex] * 2,
         m_frameLength, isDrm);
diff --git a/adts/adtsstream.cpp b/adts/adtsstream.cpp
index 405fbda..9253f72 100644
--- a/adts/adtsstream.cpp
+++ b/adts/adtsstream.cpp
@@ -30,7 +30,7 @@ void AdtsStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
     m_format = Mpeg4AudioObjectIds::idToMediaFormat(m_firstFrame.mpeg4AudioObjectId());
     m_channelCount = Mpeg4ChannelConfigs::channelCount(m_channelConfig = m_firstFrame.mpeg4ChannelConfig());
     std::uint8_t sampleRateIndex = m_firstFrame.mpeg4SamplingFrequencyIndex();
-    m_samplingFrequency = sampleRateIndex < sizeof(mpeg4SamplingFrequencyTable) ? mpeg4SamplingFrequencyTable[sampleRateIndex] : 0;
+    m_samplingFrequency = sampleRateIndex < std::size(mpeg4SamplingFrequencyTable) ? mpeg4SamplingFrequencyTable[sampleRateIndex] : 0;
 }
 
 } // namespace TagParser
diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 74beeb4..e441215 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -491,14 +491,14 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
                 audioSpecificConfig->audioObjectType, audioSpecificConfig->sbrPresent, audioSpecificConfig->psPresent);
             if (audioSpecificConfig->sampleFrequencyIndex == 0xF) {
                 //m_samplingFrequency = audioSpecificConfig->sampleFrequency;
-            } else if (audioSpecificConfig->sampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+            } else if (audioSpecificConfig->sampleFrequencyIndex < std::size(mpeg4SamplingFrequencyTable)) {
                 //m_samplingFrequency = mpeg4SamplingFrequencyTable[audioSpecificConfig->sampleFrequencyIndex];
             } else {
                 diag.emplace_back(DiagLevel::Warning, "Audio specific config has invalid sample frequency index.", context);
             }
             if (audioSpecificConfig->extensionSampleFrequencyIndex == 0xF) {
                 //m_extensionSamplingFrequency = audioSpecificConfig->extensionSampleFrequency;
-            } else if (audioSpecificConfig->extensionSampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+            } else if (audioSpecificConfig->extensionSampleFrequencyIndex < std::size(mpeg4SamplingFrequencyTable)) {
                 //m_extensionSamplingFrequency = mpeg4SamplingFrequencyTable[audioSpecificConfig->extensionSampleFrequencyIndex];
             } else {
                 diag.emplace_back(DiagLevel::Warning, "Audio specific config has invalid extension sample frequency index.", context);
diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 6e70eb1..392b919 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1931,14 +1931,14 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                                     m_esInfo->audioSpecificConfig->sbrPresent, m_esInfo->audioSpecificConfig->psPresent);
                                 if (m_esInfo->audioSpecificConfig->sampleFrequencyIndex == 0xF) {
                                     m_samplingFrequency = m_esInfo->audioSpecificConfig->sampleFrequency;
-                                } else if (m_esInfo->audioSpecificConfig->sampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+                                } else if (m_esInfo->audioSpecificConfig->sampleFrequencyIndex < std::size(mpeg4SamplingFrequencyTable)) {
                                     m_samplingFrequency = mpeg4SamplingFrequencyTable[m_esInfo->audioSpecificConfig->sampleFrequencyIndex];
                                 } else {
                                     diag.emplace_back(DiagLevel::Warning, "Audio specific config has invalid sample frequency index.", context);
                                 }
                                 if (m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex == 0xF) {
                                     m_extensionSamplingFrequency = m_esInfo->audioSpecificConfig->extensionSampleFrequency;
-                                } else if (m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex < sizeof(mpeg4SamplingFrequencyTable)) {
+                                } else if (m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex < std::size(mpeg4SamplingFrequencyTable)) {
                                     m_extensionSamplingFrequency
                                         = mpeg4SamplingFrequencyTable[m_esInfo->audioSpecificConfig->extensionSampleFrequencyIndex];
                                 } else {
-- 
2.43.0


From 26c404cc922ec8a7c7e60f5e3f0039f293e5585a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:06 +0000
Subject: [PATCH 064/105] fix: do not underflow the data size of elements with
 truncated header

---
 matroska/ebmlelement.cpp | 8 +++++++-
 mp4/mp4atom.cpp          | 4 ++++
 mp4/mpeg4descriptor.cpp  | 5 ++++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/matroska/ebmlelement.cpp b/matroska/ebmlelement.cpp
index 6043aec..e679efa 100644
--- a/matroska/ebmlelement.cpp
+++ b/matroska/ebmlelement.cpp
@@ -149,6 +149,12 @@ void EbmlElement::internalParse(Diagnostics &diag)
         if ((m_sizeUnknown = (beg == 0xFF))) {
             // this indicates that the element size is unknown
             // -> just assume the element takes the maximum available size
+            if (headerSize() > maxTotalSize()) { // header truncated
+                if (!skipped) {
+                    diag.emplace_back(DiagLevel::Critical, "EBML header seems to be truncated.", parsingContext());
+                }
+                continue; // try again
+            }
             m_dataSize = maxTotalSize() - headerSize();
         } else {
             while (m_sizeLength <= maximumSizeLengthSupported() && (beg & mask) == 0) {
@@ -175,7 +181,7 @@ void EbmlElement::internalParse(Diagnostics &diag)
             m_dataSize = BE::toInt<std::uint64_t>(buf);
             if ((m_sizeUnknown = (m_dataSize == (static_cast<std::uint64_t>(1) << (7 * m_sizeLength)) - 1))) {
                 // all bits of the size are set which indicates an unknown size as well (see comment above)
-                m_dataSize = maxTotalSize() - headerSize();
+                m_dataSize = maxTotalSize() > headerSize() ? maxTotalSize() - headerSize() : 0;
             }
             // check if element is truncated
             if (totalSize() > maxTotalSize()) {
diff --git a/mp4/mp4atom.cpp b/mp4/mp4atom.cpp
index 2e99a81..98e2e9a 100644
--- a/mp4/mp4atom.cpp
+++ b/mp4/mp4atom.cpp
@@ -98,6 +98,10 @@ void Mp4Atom::internalParse(Diagnostics &diag)
         m_dataSize = maxTotalSize(); // using max size instead
     }
     // currently m_dataSize holds data size plus header size!
+    if (m_dataSize < headerSize()) {
+        diag.emplace_back(DiagLevel::Critical, "The header of the atom is truncated.", parsingContext());
+        throw TruncatedDataException();
+    }
     m_dataSize -= headerSize();
     Mp4Atom *child = nullptr;
     if (std::uint64_t firstChildOffset = this->firstChildOffset()) {
diff --git a/mp4/mpeg4descriptor.cpp b/mp4/mpeg4descriptor.cpp
index 0d3bb29..449d32c 100644
--- a/mp4/mpeg4descriptor.cpp
+++ b/mp4/mpeg4descriptor.cpp
@@ -76,7 +76,10 @@ void Mpeg4Descriptor::internalParse(Diagnostics &diag)
     // check whether the denoted data size exceeds the available data size
     if (maxTotalSize() < totalSize()) {
         diag.emplace_back(DiagLevel::Warning, "The descriptor seems to be truncated; unable to parse siblings of that ", parsingContext());
-        m_dataSize = static_cast<std::uint32_t>(maxTotalSize()); // using max size instead
+        if (maxTotalSize() < headerSize()) {
+            throw TruncatedDataException();
+        }
+        m_dataSize = static_cast<std::uint32_t>(maxTotalSize() - headerSize()); // using max size instead
     }
     m_firstChild.reset();
 
-- 
2.43.0


From 87608fa86b9dcac81dec05ad2c0a32cd5b3d3235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:00 +0000
Subject: [PATCH 065/105] fix: do not increment an invalid Ogg iterator

---
 ogg/oggiterator.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ogg/oggiterator.h b/ogg/oggiterator.h
index f01c30b..e804ede 100644
--- a/ogg/oggiterator.h
+++ b/ogg/oggiterator.h
@@ -304,7 +304,9 @@ inline bool OggIterator::bytesRemaining(size_t atLeast) const
  */
 inline OggIterator &OggIterator::operator++()
 {
-    nextSegment();
+    if (*this) {
+        nextSegment();
+    }
     return *this;
 }
 
@@ -314,7 +316,7 @@ inline OggIterator &OggIterator::operator++()
 inline OggIterator OggIterator::operator++(int)
 {
     OggIterator tmp = *this;
-    nextSegment();
+    ++*this;
     return tmp;
 }
 
-- 
2.43.0


From ec99d50e679ca30673e5416be75c106ac77e2755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:26 +0000
Subject: [PATCH 066/105] fix: Ogg: do not loop endlessly or skip pages when
 rewriting a file with gaps between pages; stop searching for pages at the end
 of the file

---
 ogg/oggcontainer.cpp | 2 +-
 ogg/oggiterator.cpp  | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ogg/oggcontainer.cpp b/ogg/oggcontainer.cpp
index f568b33..6cecd2e 100644
--- a/ogg/oggcontainer.cpp
+++ b/ogg/oggcontainer.cpp
@@ -554,7 +554,7 @@ void OggContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFeedback
             // note: This is not just to print diag messages but also for taking into account that the parser might skip pages
             //       unless a full parse has been enforced.
             if (pageWritten && currentPage.startOffset() != nextPageOffset) {
-                m_iterator.pages().resize(m_iterator.currentPageIndex() - 1); // drop all further pages after the last consecutively parsed one
+                m_iterator.pages().resize(m_iterator.currentPageIndex()); // drop all further pages after the last consecutively parsed one
                 if (m_iterator.resyncAt(nextPageOffset)) {
                     // try again at the page we've just found
                     const auto actuallyNextPageOffset = m_iterator.currentPageOffset();
diff --git a/ogg/oggiterator.cpp b/ogg/oggiterator.cpp
index 7a3cd22..d960292 100644
--- a/ogg/oggiterator.cpp
+++ b/ogg/oggiterator.cpp
@@ -100,7 +100,7 @@ void OggIterator::previousPage()
     while (m_page) {
         const OggPage &page = m_pages[--m_page];
         if (matchesFilter(page)) {
-            m_offset = page.dataOffset(m_segment = page.segmentSizes().size() - 1);
+            m_offset = page.dataOffset(m_segment = page.segmentSizes().empty() ? 0 : page.segmentSizes().size() - 1);
             return;
         }
     }
@@ -244,7 +244,7 @@ bool OggIterator::resyncAt(std::uint64_t offset)
     // find capture pattern 'OggS'
     stream().seekg(static_cast<streamoff>(offset));
     std::uint8_t lettersFound = 0;
-    for (std::uint64_t bytesAvailable = max<std::uint64_t>(streamSize() - offset, 65307ul); bytesAvailable >= 27; --bytesAvailable) {
+    for (std::uint64_t bytesAvailable = streamSize() - offset; bytesAvailable >= 27; --bytesAvailable) {
         switch (static_cast<char>(stream().get())) {
         case 'O':
             lettersFound = 1;
@@ -259,8 +259,8 @@ bool OggIterator::resyncAt(std::uint64_t offset)
                 // -> try to parse an Ogg page at this position
                 try {
                     m_pages.emplace_back(stream(), static_cast<std::uint64_t>(stream().tellg()) - 4,
-                        bytesAvailable > numeric_limits<std::int32_t>::max() ? numeric_limits<std::int32_t>::max()
-                                                                             : static_cast<std::int32_t>(bytesAvailable));
+                        bytesAvailable + 3 > numeric_limits<std::int32_t>::max() ? numeric_limits<std::int32_t>::max()
+                                                                             : static_cast<std::int32_t>(bytesAvailable + 3));
                     setPageIndex(m_pages.size() - 1);
                     return true;
                 } catch (const Failure &) {
-- 
2.43.0


From 773047bc4d7f4fa45f73dbd0f81c952e820ac92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:57 +0000
Subject: [PATCH 067/105] fix: MP4: handle truncated track headers when
 applying changes

---
 mp4/mp4track.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 392b919..616cf4e 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -429,7 +429,16 @@ const TrackHeaderInfo &Mp4Track::verifyPresentTrackHeader() const
 
     // return the default TrackHeaderInfo in case there is no track header prsent
     auto &info = *(m_trackHeaderInfo = std::make_unique<TrackHeaderInfo>());
-    if (!m_tkhdAtom) {
+    info.timings = computeTimings();
+    info.timingsVersion = info.timings.requiredTkhdVersion();
+    const auto computeSizeForDefaults = [&info] {
+        // account for the version, flags and timing fields and further fields with default values
+        info.writeVersion = info.timingsVersion;
+        info.requiredSize = 8 + (info.writeVersion != 0 ? 44 : 32) + 52;
+    };
+    if (!m_tkhdAtom || !m_tkhdAtom->dataSize()) {
+        info.truncated = m_tkhdAtom != nullptr;
+        computeSizeForDefaults();
         return info;
     }
 
@@ -458,15 +467,17 @@ const TrackHeaderInfo &Mp4Track::verifyPresentTrackHeader() const
     } else {
         info.truncated = true;
         info.canUseExisting = info.additionalDataOffset < m_tkhdAtom->dataSize();
-        if (!info.canUseExisting && info.discardBuffer) {
-            m_tkhdAtom->discardBuffer();
+        if (!info.canUseExisting) {
+            if (info.discardBuffer) {
+                m_tkhdAtom->discardBuffer();
+            }
+            computeSizeForDefaults();
+            return info;
         }
     }
 
     // determine required size
     info.requiredSize = m_tkhdAtom->dataSize() + 8;
-    info.timings = computeTimings();
-    info.timingsVersion = info.timings.requiredTkhdVersion();
     if (info.version == 0) {
         info.writeVersion = info.timingsVersion;
         // add 12 byte to size if update from version 0 to version 1 is required (which needs 12 byte more)
-- 
2.43.0


From 6450b60351dfe7c35104c1885db8ceddce2f97cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:57 +0000
Subject: [PATCH 068/105] fix: MP4: compute the size of track atoms correctly
 if only the media header needs 64-bit timing values

---
 mp4/mp4track.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 616cf4e..8469121 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1248,7 +1248,7 @@ std::uint64_t Mp4Track::requiredSize(Diagnostics &diag) const
         size += trakChild->totalSize();
     }
     // ... mdhd total size
-    if (info.timingsVersion == 0) {
+    if (info.timings.requiredMdhdVersion() == 0) {
         // write version 0 where timing fields are 32-bit
         size += 32;
     } else {
-- 
2.43.0


From 582e49ddcbce33021f2399acae1559ff8c763f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:57 +0000
Subject: [PATCH 069/105] fix: MP4: preserve the 64-bit chunk offset table of
 tracks which could not be parsed instead of failing after the file has been
 modified

---
 mp4/mp4track.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 8469121..a12069d 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1202,16 +1202,17 @@ std::tuple<std::uint64_t, std::uint64_t> Mp4Track::calculateSampleTableSize(Diag
     auto stcoSize = std::uint64_t();
     auto writeChunkOffsetTableManually = false;
     if (m_stblAtom) {
+        // note: The chunk offset table can only be re-made if the track could be parsed; it is just copied otherwise.
         for (Mp4Atom *stblChildAtom = m_stblAtom->firstChild(); stblChildAtom; stblChildAtom = stblChildAtom->nextSibling()) {
             switch (stblChildAtom->id()) {
             case Mp4AtomIds::ChunkOffset:
-                if (m_chunkOffsetSize != 4) {
+                if (isHeaderValid() && m_chunkOffsetSize != 4) {
                     writeChunkOffsetTableManually = true;
                     continue;
                 }
                 break;
             case Mp4AtomIds::ChunkOffset64:
-                if (m_chunkOffsetSize != 8) {
+                if (isHeaderValid() && m_chunkOffsetSize != 8) {
                     writeChunkOffsetTableManually = true;
                     continue;
                 }
-- 
2.43.0


From 160624361e8e235ffcb6b2a6700984a122bc8404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:12 +0000
Subject: [PATCH 070/105] fix: Matroska: detect truncated clusters before
 modifying the file in place

---
 matroska/matroskacontainer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index d2dd1a5..3c3f757 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1310,6 +1310,13 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             for (index = 0; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++index) {
                                 clusterReadOffset = level1Element->startOffset() - level0Element->dataOffset() + readOffset;
                                 segment.clusterEndOffset = level1Element->endOffset();
+                                // parse elements which will be considered for updating "Position"-elements to detect errors before modifying the file
+                                for (level2Element = level1Element->firstChild(); level2Element; level2Element = level2Element->nextSibling()) {
+                                    level2Element->parse(diag);
+                                    if (level2Element->id() == MatroskaIds::SimpleBlock || level2Element->id() == MatroskaIds::BlockGroup) {
+                                        break;
+                                    }
+                                }
                                 // rewrite file if there are other elements between clusters
                                 rewriteRequired = rewriteRequired || otherElementBetweenClusters;
                                 for (level2Element = level1Element->nextSibling(); level2Element; level2Element = level2Element->nextSibling()) {
-- 
2.43.0


From bd8103bc7c6879cd4b2decd51ce8fbb5bd3cb4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:39 +0000
Subject: [PATCH 071/105] fix: Matroska: report aborting the parsing of
 chapters as such instead of keeping partially parsed chapters

---
 matroska/matroskacontainer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 3c3f757..f438d41 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -754,6 +754,8 @@ void MatroskaContainer::internalParseChapters(Diagnostics &diag, AbortableProgre
                         m_editionEntries.back()->parseNested(diag, progress);
                     } catch (const NoDataFoundException &) {
                         m_editionEntries.pop_back();
+                    } catch (const OperationAbortedException &) {
+                        throw;
                     } catch (const Failure &) {
                         diag.emplace_back(DiagLevel::Critical, argsToString("Unable to parse edition entry ", m_editionEntries.size(), '.'), context);
                     }
@@ -766,6 +768,9 @@ void MatroskaContainer::internalParseChapters(Diagnostics &diag, AbortableProgre
                         "\"Chapters\"-element contains unknown child element \"" % subElement->idToString() + "\". It will be ignored.", context);
                 }
             }
+        } catch (const OperationAbortedException &) {
+            m_editionEntries.clear();
+            throw;
         } catch (const Failure &) {
             diag.emplace_back(DiagLevel::Critical, "Element structure seems to be invalid.", context);
             throw;
-- 
2.43.0


From 581ca3d79b86bee00765d5a4dbd3d70fc7336a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:11 +0000
Subject: [PATCH 072/105] fix: WAV: avoid division by zero if the block size is
 zero

---
 wav/waveaudiostream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index 38c6950..a91b18d 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -172,8 +172,10 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
         case 0x64617461u: // data segment
             m_dataOffset = static_cast<std::uint64_t>(m_istream->tellg());
             m_size = restHeaderLen;
-            m_sampleCount = m_size / m_chunkSize;
-            m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / static_cast<double>(m_samplingFrequency));
+            if (m_chunkSize && m_samplingFrequency) {
+                m_sampleCount = m_size / m_chunkSize;
+                m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / static_cast<double>(m_samplingFrequency));
+            }
             break;
         default:;
         }
-- 
2.43.0


From 99578f3fb4acb9f6b40ccfd01f3c7bb833042d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:52 +0000
Subject: [PATCH 073/105] fix: Matroska: compute cluster sizes of the second
 and following segments as well

---
 matroska/matroskacontainer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index f438d41..2e2faf3 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1442,7 +1442,8 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     // if rewrite is required, pretend writing the remaining elements to compute total segment size and cluster sizes
 
                     // pretend writing "Void"-element (only if there is at least one "Cluster"-element in the segment)
-                    if (!segmentIndex && rewriteRequired && (level1Element = level0Element->childById(MatroskaIds::Cluster, diag))) {
+                    level1Element = level0Element->childById(MatroskaIds::Cluster, diag);
+                    if (!segmentIndex && rewriteRequired && level1Element) {
                         // simply use the preferred padding ("Void"-element is at least 2 byte long -> can't add 1 byte padding)
                         newPadding = fileInfo().preferredPadding() != 1 ? fileInfo().preferredPadding() : 2;
                         segment.totalDataSize += (segment.newPadding = newPadding);
-- 
2.43.0


From 2f00d3fd136510537405b142e10809b26c9535f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:52 +0000
Subject: [PATCH 074/105] fix: Matroska: refuse to apply changes if a track
 header could not be parsed entirely instead of dropping the track or using an
 invalid element size

---
 matroska/matroskacontainer.cpp | 2 ++
 matroska/matroskatrack.cpp     | 3 +--
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 2e2faf3..6337794 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1026,6 +1026,8 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     trackHeaderElementsSize += maker.requiredSize();
                 }
             } catch (const Failure &) {
+                diag.emplace_back(DiagLevel::Critical, "Unable to parse the header of one of the tracks entirely; it can therefore not be preserved.", context);
+                throw;
             }
         }
         trackHeaderSize
diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index e441215..1b7358e 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -565,8 +565,6 @@ MatroskaTrackHeaderMaker::MatroskaTrackHeaderMaker(const MatroskaTrack &track, D
     , m_languageIETF(m_track.locale().abbreviatedName(LocaleFormat::BCP_47))
     , m_dataSize(0)
 {
-    CPP_UTILITIES_UNUSED(diag);
-
     // calculate size for recognized elements
     m_dataSize += 2u + 1u + EbmlElement::calculateUIntegerLength(m_track.id());
     m_dataSize += 1u + 1u + EbmlElement::calculateUIntegerLength(m_track.trackNumber());
@@ -587,6 +585,7 @@ MatroskaTrackHeaderMaker::MatroskaTrackHeaderMaker(const MatroskaTrack &track, D
 
     // calculate size for other elements
     for (EbmlElement *trackInfoElement = m_track.m_trackElement->firstChild(); trackInfoElement; trackInfoElement = trackInfoElement->nextSibling()) {
+        trackInfoElement->parse(diag);
         switch (trackInfoElement->id()) {
         case MatroskaIds::TrackNumber:
         case MatroskaIds::TrackUID:
-- 
2.43.0


From af53e12857a02a5bc4d4144738749f1dc1490ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:42 +0000
Subject: [PATCH 075/105] fix: Matroska: treat positions as relative to the
 segment they occur in (and not to the first segment)

---
 matroska/matroskacontainer.cpp | 73 ++++++++++++++--------------------
 1 file changed, 29 insertions(+), 44 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 6337794..b930461 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -88,7 +88,7 @@ void MatroskaContainer::validateIndex(Diagnostics &diag, AbortableProgressFeedba
         auto ids = std::unordered_set<EbmlElement::IdentifierType>();
         auto cueTimeFound = false, cueTrackPositionsFound = false;
         auto clusterElement = std::unique_ptr<EbmlElement>();
-        auto pos = std::uint64_t(), prevClusterSize = std::uint64_t(), currentOffset = std::uint64_t();
+        auto pos = std::uint64_t(), prevClusterSize = std::uint64_t();
         // iterate through all segments
         for (EbmlElement *segmentElement = m_firstElement->siblingById(MatroskaIds::Segment, diag); segmentElement;
             segmentElement = segmentElement->siblingById(MatroskaIds::Segment, diag)) {
@@ -169,7 +169,7 @@ void MatroskaContainer::validateIndex(Diagnostics &diag, AbortableProgressFeedba
                                         case MatroskaIds::CueClusterPosition:
                                             // validate "Cluster" position denoted by "CueClusterPosition"-element
                                             clusterElement = make_unique<EbmlElement>(
-                                                *this, segmentElement->dataOffset() + subElement->readUInteger() - currentOffset);
+                                                *this, segmentElement->dataOffset() + subElement->readUInteger());
                                             try {
                                                 clusterElement->parse(diag);
                                                 if (clusterElement->id() != MatroskaIds::Cluster) {
@@ -261,7 +261,7 @@ void MatroskaContainer::validateIndex(Diagnostics &diag, AbortableProgressFeedba
                         case MatroskaIds::Position:
                             // validate position
                             if ((pos = clusterElementChild->readUInteger()) > 0
-                                && (segmentChildElement->startOffset() - segmentElement->dataOffset() + currentOffset) != pos) {
+                                && (segmentChildElement->startOffset() - segmentElement->dataOffset()) != pos) {
                                 diag.emplace_back(DiagLevel::Critical,
                                     argsToString("\"Position\"-element at ", clusterElementChild->startOffset(), " points to ", pos,
                                         " which is not the offset of the containing \"Cluster\"-element."),
@@ -285,7 +285,6 @@ void MatroskaContainer::validateIndex(Diagnostics &diag, AbortableProgressFeedba
                 default:;
                 }
             }
-            currentOffset += segmentElement->totalSize();
         }
     }
     // add a warning when no index could be found
@@ -411,7 +410,6 @@ void MatroskaContainer::internalParseHeader(Diagnostics &diag, AbortableProgress
     m_tagsElements.clear();
     m_seekInfos.clear();
     m_segmentCount = 0;
-    std::uint64_t currentOffset = 0;
     vector<MatroskaSeekInfo>::difference_type seekInfosIndex = 0;
 
     // loop through all top level elements
@@ -506,7 +504,7 @@ void MatroskaContainer::internalParseHeader(Diagnostics &diag, AbortableProgress
                             // -> take elements from seek tables within this segment into account
                             for (auto i = m_seekInfos.cbegin() + seekInfosIndex, end = m_seekInfos.cend(); i != end; ++i, ++seekInfosIndex) {
                                 for (const auto &infoPair : (*i)->info()) {
-                                    std::uint64_t offset = currentOffset + topLevelElement->dataOffset() + infoPair.second;
+                                    std::uint64_t offset = topLevelElement->dataOffset() + infoPair.second;
                                     if (offset >= fileInfo().size()) {
                                         diag.emplace_back(DiagLevel::Critical,
                                             argsToString("Offset (", offset, ") denoted by \"SeekHead\" element is invalid."), context);
@@ -573,7 +571,6 @@ void MatroskaContainer::internalParseHeader(Diagnostics &diag, AbortableProgress
                         break;
                     }
                 }
-                currentOffset += topLevelElement->totalSize();
                 break;
             default:;
             }
@@ -934,7 +931,6 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
     // current total offset (including EBML header)
     std::uint64_t totalOffset;
     // current write offset (used to calculate positions)
-    std::uint64_t currentPosition = 0;
     // holds the offsets of all CRC-32 elements and the length of the enclosing block
     std::vector<std::tuple<std::uint64_t, std::uint64_t>> crc32Offsets;
     // size length used to make size denotations
@@ -1096,8 +1092,6 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         // define variables to store sizes, offsets and other information required to make a header and "Segment"-elements
         // -> current "pretent" write offset
         std::uint64_t currentOffset = ebmlHeaderSize;
-        // -> current read offset (used to calculate positions)
-        std::uint64_t readOffset = 0;
         // -> index of current element during iteration
         unsigned int index;
 
@@ -1118,7 +1112,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         }
 
         // calculate sizes and other information required to make segments
-        for (level0Element = firstElement(), currentPosition = newPadding = segmentIndex = 0; level0Element;
+        for (level0Element = firstElement(), newPadding = segmentIndex = 0; level0Element;
             level0Element = level0Element->nextSibling()) {
             switch (level0Element->id()) {
             case EbmlIds::Header:
@@ -1174,7 +1168,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 for (level1Element = level0Element->childById(MatroskaIds::SegmentInfo, diag), index = 0; level1Element;
                     level1Element = level1Element->siblingById(MatroskaIds::SegmentInfo, diag), ++index) {
                     // update offset in "SeekHead"-element
-                    if (segment.seekInfo.push(index, MatroskaIds::SegmentInfo, currentPosition + segment.totalDataSize)) {
+                    if (segment.seekInfo.push(index, MatroskaIds::SegmentInfo, segment.totalDataSize)) {
                         goto calculateSegmentSize;
                     } else {
                         // add size of "SegmentInfo"-element
@@ -1210,7 +1204,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 // pretend writing "Tracks"-element
                 if (trackHeaderSize) {
                     // update offsets in "SeekHead"-element
-                    if (segment.seekInfo.push(0, MatroskaIds::Tracks, currentPosition + segment.totalDataSize)) {
+                    if (segment.seekInfo.push(0, MatroskaIds::Tracks, segment.totalDataSize)) {
                         goto calculateSegmentSize;
                     } else {
                         // add size of "Tracks"-element
@@ -1222,7 +1216,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 for (level1Element = level0Element->childById(MatroskaIds::Chapters, diag), index = 0; level1Element;
                     level1Element = level1Element->siblingById(MatroskaIds::Chapters, diag), ++index) {
                     // update offset in "SeekHead"-element
-                    if (segment.seekInfo.push(index, MatroskaIds::Chapters, currentPosition + segment.totalDataSize)) {
+                    if (segment.seekInfo.push(index, MatroskaIds::Chapters, segment.totalDataSize)) {
                         goto calculateSegmentSize;
                     } else {
                         // add size of element
@@ -1247,7 +1241,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     // pretend writing "Tags"-element
                     if (tagsSize) {
                         // update offsets in "SeekHead"-element
-                        if (segment.seekInfo.push(0, MatroskaIds::Tags, currentPosition + segment.totalDataSize)) {
+                        if (segment.seekInfo.push(0, MatroskaIds::Tags, segment.totalDataSize)) {
                             goto calculateSegmentSize;
                         } else {
                             // add size of "Tags"-element
@@ -1257,7 +1251,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     // pretend writing "Attachments"-element
                     if (attachmentsSize) {
                         // update offsets in "SeekHead"-element
-                        if (segment.seekInfo.push(0, MatroskaIds::Attachments, currentPosition + segment.totalDataSize)) {
+                        if (segment.seekInfo.push(0, MatroskaIds::Attachments, segment.totalDataSize)) {
                             goto calculateSegmentSize;
                         } else {
                             // add size of "Attachments"-element
@@ -1271,7 +1265,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 // pretend writing "Cues"-element
                 if (newCuesPos == ElementPosition::BeforeData && segment.cuesElement) {
                     // update offset of "Cues"-element in "SeekHead"-element
-                    if (segment.seekInfo.push(0, MatroskaIds::Cues, currentPosition + segment.totalDataSize)) {
+                    if (segment.seekInfo.push(0, MatroskaIds::Cues, segment.totalDataSize)) {
                         goto calculateSegmentSize;
                     } else {
                         // add size of "Cues"-element
@@ -1309,13 +1303,13 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             // pretend writing "Cluster"-elements assuming there is no rewrite required
                             // -> update offset in "SeakHead"-element
                             if (segment.seekInfo.push(
-                                    0, MatroskaIds::Cluster, level1Element->startOffset() - 4 - segment.sizeDenotationLength - ebmlHeaderSize)) {
+                                    0, MatroskaIds::Cluster, level1Element->startOffset() - 4 - segment.sizeDenotationLength - segment.startOffset)) {
                                 goto calculateSegmentSize;
                             }
                             // -> update offset of "Cluster"-element in "Cues"-element and get end offset of last "Cluster"-element
                             bool cuesInvalidated = false, otherElementBetweenClusters = false;
                             for (index = 0; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++index) {
-                                clusterReadOffset = level1Element->startOffset() - level0Element->dataOffset() + readOffset;
+                                clusterReadOffset = level1Element->startOffset() - level0Element->dataOffset();
                                 segment.clusterEndOffset = level1Element->endOffset();
                                 // parse elements which will be considered for updating "Position"-elements to detect errors before modifying the file
                                 for (level2Element = level1Element->firstChild(); level2Element; level2Element = level2Element->nextSibling()) {
@@ -1335,7 +1329,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                 }
                                 if (segment.cuesElement
                                     && segment.cuesUpdater.updateOffsets(
-                                        clusterReadOffset, level1Element->startOffset() - 4 - segment.sizeDenotationLength - ebmlHeaderSize)
+                                        clusterReadOffset, level1Element->startOffset() - 4 - segment.sizeDenotationLength - segment.startOffset)
                                     && newCuesPos == ElementPosition::BeforeData) {
                                     cuesInvalidated = true;
                                 }
@@ -1359,7 +1353,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             progress.updateStep("Calculating offsets of elements after cluster ...");
                             if (newCuesPos == ElementPosition::AfterData && segment.cuesElement) {
                                 // update offset of "Cues"-element in "SeekHead"-element
-                                if (segment.seekInfo.push(0, MatroskaIds::Cues, currentPosition + segment.totalDataSize)) {
+                                if (segment.seekInfo.push(0, MatroskaIds::Cues, segment.totalDataSize)) {
                                     goto calculateSegmentSize;
                                 } else {
                                     // add size of "Cues"-element
@@ -1371,7 +1365,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                 // pretend writing "Tags"-element
                                 if (tagsSize) {
                                     // update offsets in "SeekHead"-element
-                                    if (segment.seekInfo.push(0, MatroskaIds::Tags, currentPosition + segment.totalDataSize)) {
+                                    if (segment.seekInfo.push(0, MatroskaIds::Tags, segment.totalDataSize)) {
                                         goto calculateSegmentSize;
                                     } else {
                                         // add size of "Tags"-element
@@ -1381,7 +1375,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                 // pretend writing "Attachments"-element
                                 if (attachmentsSize) {
                                     // update offsets in "SeekHead"-element
-                                    if (segment.seekInfo.push(0, MatroskaIds::Attachments, currentPosition + segment.totalDataSize)) {
+                                    if (segment.seekInfo.push(0, MatroskaIds::Attachments, segment.totalDataSize)) {
                                         goto calculateSegmentSize;
                                     } else {
                                         // add size of "Attachments"-element
@@ -1457,12 +1451,12 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     std::uint64_t previousClusterSize = 0;
                     for (index = 0; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++index) {
                         // update offset of "Cluster"-element in "Cues"-element
-                        clusterReadOffset = level1Element->startOffset() - level0Element->dataOffset() + readOffset;
-                        if (segment.cuesElement && segment.cuesUpdater.updateOffsets(clusterReadOffset, currentPosition + segment.totalDataSize)
+                        clusterReadOffset = level1Element->startOffset() - level0Element->dataOffset();
+                        if (segment.cuesElement && segment.cuesUpdater.updateOffsets(clusterReadOffset, segment.totalDataSize)
                             && newCuesPos == ElementPosition::BeforeData) {
                             cuesInvalidated = true;
                         } else {
-                            if (index == 0 && segment.seekInfo.push(index, MatroskaIds::Cluster, currentPosition + segment.totalDataSize)) {
+                            if (index == 0 && segment.seekInfo.push(index, MatroskaIds::Cluster, segment.totalDataSize)) {
                                 goto calculateSegmentSize;
                             } else {
                                 // add size of "Cluster"-element
@@ -1479,7 +1473,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                                     case EbmlIds::Crc32:
                                         break;
                                     case MatroskaIds::Position:
-                                        clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(currentPosition + segment.totalDataSize);
+                                        clusterSize += 1u + 1u + EbmlElement::calculateUIntegerLength(segment.totalDataSize);
                                         break;
                                     case MatroskaIds::PrevSize:
                                         // the size of the previous cluster might be changed as well
@@ -1515,7 +1509,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     progress.updateStep("Calculating offsets of elements after cluster ...");
                     if (newCuesPos == ElementPosition::AfterData && segment.cuesElement) {
                         // update offset of "Cues"-element in "SeekHead"-element
-                        if (segment.seekInfo.push(0, MatroskaIds::Cues, currentPosition + segment.totalDataSize)) {
+                        if (segment.seekInfo.push(0, MatroskaIds::Cues, segment.totalDataSize)) {
                             goto calculateSegmentSize;
                         } else {
                             // add size of "Cues"-element
@@ -1530,7 +1524,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                         // pretend writing "Tags"-element
                         if (tagsSize) {
                             // update offsets in "SeekHead"-element
-                            if (segment.seekInfo.push(0, MatroskaIds::Tags, currentPosition + segment.totalDataSize)) {
+                            if (segment.seekInfo.push(0, MatroskaIds::Tags, segment.totalDataSize)) {
                                 goto calculateSegmentSize;
                             } else {
                                 // add size of "Tags"-element
@@ -1540,7 +1534,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                         // pretend writing "Attachments"-element
                         if (attachmentsSize) {
                             // update offsets in "SeekHead"-element
-                            if (segment.seekInfo.push(0, MatroskaIds::Attachments, currentPosition + segment.totalDataSize)) {
+                            if (segment.seekInfo.push(0, MatroskaIds::Attachments, segment.totalDataSize)) {
                                 goto calculateSegmentSize;
                             } else {
                                 // add size of "Attachments"-element
@@ -1553,14 +1547,10 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 // increase the current segment index
                 ++segmentIndex;
 
-                // increase write offsets by the size of the segment which size has just been computed
+                // increase write offset by the size of the segment which size has just been computed
                 segment.totalSize = 4 + EbmlElement::calculateSizeDenotationLength(segment.totalDataSize) + segment.totalDataSize;
-                currentPosition += segment.totalSize;
                 currentOffset += segment.totalSize;
 
-                // increase the read offset by the size of the segment read from the original file
-                readOffset += level0Element->totalSize();
-
                 break;
             }
             default:
@@ -1569,7 +1559,6 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     "The top-level element \"" % level0Element->idToString() + "\" of the original file is unknown and will just be copied.",
                     context);
                 currentOffset += level0Element->totalSize();
-                readOffset += level0Element->totalSize();
             }
         }
 
@@ -1665,7 +1654,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         EbmlElement::makeSimpleElement(outputStream, EbmlIds::DocTypeReadVersion, m_doctypeReadVersion);
 
         // iterates through all level 0 elements of the original file
-        for (level0Element = firstElement(), segmentIndex = 0, currentPosition = 0; level0Element; level0Element = level0Element->nextSibling()) {
+        for (level0Element = firstElement(), segmentIndex = 0; level0Element; level0Element = level0Element->nextSibling()) {
 
             // write all level 0 elements of the original file
             switch (level0Element->id()) {
@@ -1816,7 +1805,7 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                     std::uint64_t previousClusterSize = 0;
                     for (; level1Element; level1Element = level1Element->siblingById(MatroskaIds::Cluster, diag), ++clusterSizesIterator, ++index) {
                         // calculate position of cluster in segment
-                        clusterSize = currentPosition + (static_cast<std::uint64_t>(outputStream.tellp()) - offset);
+                        clusterSize = static_cast<std::uint64_t>(outputStream.tellp()) - offset;
                         // write header; checking whether clusterSizesIterator is valid shouldn't be necessary
                         outputWriter.writeUInt32BE(MatroskaIds::Cluster);
                         sizeLength = EbmlElement::makeSizeDenotation(*clusterSizesIterator, buff);
@@ -1869,13 +1858,13 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             case MatroskaIds::Position:
                                 // void the checksum of the cluster if it becomes invalid (checksums of clusters are not preserved when rewriting either)
                                 if (crc32Element
-                                    && level2Element->readUInteger() != level1Element->startOffset() - segmentData.front().newDataOffset) {
+                                    && level2Element->readUInteger() != level1Element->startOffset() - segment.newDataOffset) {
                                     outputStream.seekp(static_cast<streamoff>(crc32Element->startOffset()));
                                     outputStream.put(static_cast<char>(EbmlIds::Void));
                                     crc32Element = nullptr;
                                 }
                                 // calculate new position
-                                sizeLength = EbmlElement::makeUInteger(level1Element->startOffset() - segmentData.front().newDataOffset, buff,
+                                sizeLength = EbmlElement::makeUInteger(level1Element->startOffset() - segment.newDataOffset, buff,
                                     level2Element->dataSize() > 8 ? 8 : static_cast<std::uint8_t>(level2Element->dataSize()));
                                 // new position can only applied if it doesn't need more bytes than the previous position
                                 if (level2Element->dataSize() < sizeLength) {
@@ -1927,15 +1916,11 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 // increase the current segment index
                 ++segmentIndex;
 
-                // increase write offsets by the size of the segment which has just been written
-                currentPosition += segment.totalSize;
-
                 break;
             }
             default:
                 // just copy any unknown top-level elements
                 level0Element->copyEntirely(outputStream, diag, nullptr);
-                currentPosition += level0Element->totalSize();
             }
         }
 
-- 
2.43.0


From 88355b32f56d0dc25e1f9fd5b490dd71ab255968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:42 +0000
Subject: [PATCH 076/105] fix: Matroska: rewrite files with unknown top-level
 elements instead of corrupting them when updating in-place

---
 matroska/matroskacontainer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index b930461..ccd069e 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1558,6 +1558,11 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 diag.emplace_back(DiagLevel::Warning,
                     "The top-level element \"" % level0Element->idToString() + "\" of the original file is unknown and will just be copied.",
                     context);
+                if (!rewriteRequired) {
+                    // do calculations again for rewriting because copying elements to a different position is not possible when updating in-place
+                    rewriteRequired = true;
+                    goto calculateSegmentData;
+                }
                 currentOffset += level0Element->totalSize();
             }
         }
-- 
2.43.0


From 039167a3e736658990747d83954e1cbfafedf62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:42 +0000
Subject: [PATCH 077/105] fix: Matroska: keep title of further segments

---
 matroska/matroskacontainer.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index ccd069e..49d8766 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1187,10 +1187,14 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                             switch (level2Element->id()) {
                             case EbmlIds::Void: // skipped
                             case EbmlIds::Crc32: // skipped
-                            case MatroskaIds::Title: // calculated separately
                             case MatroskaIds::MuxingApp: // calculated separately
                             case MatroskaIds::WrittingApp: // calculated separately
                                 break;
+                            case MatroskaIds::Title: // calculated separately (unless the title of the segment is unknown)
+                                if (segmentIndex < m_titles.size()) {
+                                    break;
+                                }
+                                [[fallthrough]];
                             default:
                                 level2Element->makeBuffer();
                                 segment.infoDataSize += level2Element->totalSize();
@@ -1708,10 +1712,14 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                         switch (level2Element->id()) {
                         case EbmlIds::Void: // skipped
                         case EbmlIds::Crc32: // skipped
-                        case MatroskaIds::Title: // written separately
                         case MatroskaIds::MuxingApp: // written separately
                         case MatroskaIds::WrittingApp: // written separately
                             break;
+                        case MatroskaIds::Title: // written separately (unless the title of the segment is unknown)
+                            if (segmentIndex < m_titles.size()) {
+                                break;
+                            }
+                            [[fallthrough]];
                         default:
                             level2Element->copyBuffer(outputStream);
                             level2Element->discardBuffer();
-- 
2.43.0


From f73ec29c1ff05a8e445cf0ec50183ea10e8e4ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:42 +0000
Subject: [PATCH 078/105] fix: ID3v2: evaluate the footer flag only as of v2.4
 and Matroska: ignore a too small maximum ID length

---
 id3/id3v2tag.h                 |  2 +-
 matroska/matroskacontainer.cpp |  5 +++++
 mediafileinfo.cpp              | 10 +++++-----
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/id3/id3v2tag.h b/id3/id3v2tag.h
index ad5441d..f65647d 100644
--- a/id3/id3v2tag.h
+++ b/id3/id3v2tag.h
@@ -257,7 +257,7 @@ inline bool Id3v2Tag::isExperimental() const
  */
 inline bool Id3v2Tag::hasFooter() const
 {
-    return (m_majorVersion >= 3) && (m_flags & 0x10);
+    return (m_majorVersion >= 4) && (m_flags & 0x10);
 }
 
 /*!
diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 49d8766..0d6c33e 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -446,6 +446,11 @@ void MatroskaContainer::internalParseHeader(Diagnostics &diag, AbortableProgress
                                     context);
                                 throw InvalidDataException();
                             }
+                            if (m_maxIdLength < 4) {
+                                diag.emplace_back(DiagLevel::Warning,
+                                    argsToString("Maximum EBML element ID length must be at least 4 bytes but ", m_maxIdLength, " is specified. Assuming 4 bytes."), context);
+                                m_maxIdLength = 4;
+                            }
                             break;
                         case EbmlIds::MaxSizeLength:
                             m_maxSizeLength = subElement->readUInteger();
diff --git a/mediafileinfo.cpp b/mediafileinfo.cpp
index 816b8bc..db7d38c 100644
--- a/mediafileinfo.cpp
+++ b/mediafileinfo.cpp
@@ -203,13 +203,13 @@ startParsingSignature:
             }
 
             // read ID3v2 header
-            stream().seekg(m_containerOffset + 5, ios_base::beg);
-            stream().read(buff, 5);
+            stream().seekg(m_containerOffset + 3, ios_base::beg);
+            stream().read(buff, 7);
 
             // set the container offset to skip ID3v2 header
-            m_containerOffset += toNormalInt(BE::toInt<std::uint32_t>(buff + 1)) + 10;
-            if ((*buff) & 0x10) {
-                // footer present
+            m_containerOffset += toNormalInt(BE::toInt<std::uint32_t>(buff + 3)) + 10;
+            if (static_cast<std::uint8_t>(*buff) >= 4 && (buff[2] & 0x10)) {
+                // footer present (only possible as of ID3v2.4)
                 m_containerOffset += 10;
             }
             id3v2Size = m_containerOffset;
-- 
2.43.0


From a5278b50c0f2818c487a9fdca9a187684cd9f6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:31 +0000
Subject: [PATCH 079/105] fix: Matroska: refuse to apply changes if an element
 other than a segment or cluster has an unknown size instead of swallowing
 subsequent elements

---
 matroska/matroskacontainer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index 0d6c33e..a79787d 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -1237,6 +1237,11 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 // pretend writing unknown elements (those are just preserved)
                 for (level1Element = level0Element->firstChild(); level1Element; level1Element = level1Element->nextSibling()) {
                     level1Element->parse(diag);
+                    if (level1Element->isSizeUnknown() && level1Element->id() != MatroskaIds::Cluster) {
+                        diag.emplace_back(DiagLevel::Critical,
+                            argsToString("The size of the element \"", level1Element->idToString(), "\" is unknown but only segments and clusters may have an unknown size."), context);
+                        throw InvalidDataException();
+                    }
                     if (!isKnownSegmentChild(level1Element->id())) {
                         level1Element->makeBuffer();
                         segment.totalDataSize += level1Element->totalSize();
-- 
2.43.0


From 86746452de64e1c4e9558bf147c3382b483a93f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:52 +0000
Subject: [PATCH 080/105] fix: MP4: write the tags only once if there are
 multiple meta atoms

---
 mp4/mp4container.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mp4/mp4container.cpp b/mp4/mp4container.cpp
index 3a5e73d..1bc9c44 100644
--- a/mp4/mp4container.cpp
+++ b/mp4/mp4container.cpp
@@ -690,10 +690,12 @@ calculatePadding:
                                 switch (level2Atom->id()) {
                                 case Mp4AtomIds::Meta:
                                     // write meta atom
-                                    for (auto &maker : tagMaker) {
-                                        maker.make(outputStream, diag);
+                                    if (!metaAtomWritten) {
+                                        for (auto &maker : tagMaker) {
+                                            maker.make(outputStream, diag);
+                                        }
+                                        metaAtomWritten = true;
                                     }
-                                    metaAtomWritten = true;
                                     break;
                                 default:
                                     // write buffered data
-- 
2.43.0


From d614ac014ebe302ae304fa0b11fc3087a5ca1db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:42 +0000
Subject: [PATCH 081/105] fix: MP4: refuse to apply changes if a track lacks
 mandatory atoms instead of dropping its contents

---
 mp4/mp4track.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index a12069d..fed7468 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1233,7 +1233,12 @@ std::tuple<std::uint64_t, std::uint64_t> Mp4Track::calculateSampleTableSize(Diag
  */
 std::uint64_t Mp4Track::requiredSize(Diagnostics &diag) const
 {
-    CPP_UTILITIES_UNUSED(diag)
+    // ensure the track is not destroyed if it lacks mandatory atoms and hence could not be parsed (those atoms cannot be made from scratch)
+    if (!m_trakAtom || !m_tkhdAtom || !m_mdiaAtom || !m_mdhdAtom || !m_hdlrAtom || !m_minfAtom || !m_stblAtom) {
+        diag.emplace_back(
+            DiagLevel::Critical, "Source track lacks mandatory atoms and the tagparser lib is unable to make those from scratch.", "making track");
+        throw InvalidDataException();
+    }
 
     const auto &info = verifyPresentTrackHeader();
     // add size of
-- 
2.43.0


From cf2e58f7dd7e6e7c70f4e2946648a0d1ea06b1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:21 +0000
Subject: [PATCH 082/105] fix: Matroska: write track headers only into the
 segment they belong to

---
 matroska/matroskacontainer.cpp | 55 ++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/matroska/matroskacontainer.cpp b/matroska/matroskacontainer.cpp
index a79787d..82d51f7 100644
--- a/matroska/matroskacontainer.cpp
+++ b/matroska/matroskacontainer.cpp
@@ -823,6 +823,7 @@ struct SegmentData {
         : hasCrc32(false)
         , cuesElement(nullptr)
         , infoDataSize(0)
+        , trackHeaderElementsSize(0)
         , firstClusterElement(nullptr)
         , clusterEndOffset(0)
         , startOffset(0)
@@ -845,6 +846,8 @@ struct SegmentData {
     MatroskaCuePositionUpdater cuesUpdater;
     /// \brief size of the "SegmentInfo"-element
     std::uint64_t infoDataSize;
+    /// \brief size of the data of the "Tracks"-element
+    std::uint64_t trackHeaderElementsSize;
     /// \brief cluster sizes, needed because cluster elements are not necessarily copied as-is so they're size might change
     std::vector<std::uint64_t> clusterSizes;
     /// \brief first "Cluster"-element (original file)
@@ -923,8 +926,11 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
     std::uint64_t attachmentsSize;
     std::vector<MatroskaTrackHeaderMaker> trackHeaderMaker;
     trackHeaderMaker.reserve(tracks().size());
-    std::uint64_t trackHeaderElementsSize = 0;
-    std::uint64_t trackHeaderSize;
+    const auto isTrackOfSegment = [](const MatroskaTrackHeaderMaker &maker, const EbmlElement *segment) {
+        // a track header of 3 bytes size is empty and can be skipped
+        return maker.requiredSize() > 3 && maker.track().m_trackElement->startOffset() >= segment->startOffset()
+            && maker.track().m_trackElement->startOffset() < segment->endOffset();
+    };
 
     // define variables to store sizes, offsets and other information required to make a header and "Segment"-elements
     // current segment index
@@ -1018,21 +1024,15 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
         attachmentsSize
             = attachedFileElementsSize ? 4 + EbmlElement::calculateSizeDenotationLength(attachedFileElementsSize) + attachedFileElementsSize : 0;
 
-        // calculate size of "Tracks"-element
+        // prepare making "Tracks"-element
         for (auto &track : tracks()) {
             try {
-                const auto &maker = trackHeaderMaker.emplace_back(track->prepareMakingHeader(diag));
-                if (maker.requiredSize() > 3) {
-                    // a track header of 3 bytes size is empty and can be skipped
-                    trackHeaderElementsSize += maker.requiredSize();
-                }
+                trackHeaderMaker.emplace_back(track->prepareMakingHeader(diag));
             } catch (const Failure &) {
                 diag.emplace_back(DiagLevel::Critical, "Unable to parse the header of one of the tracks entirely; it can therefore not be preserved.", context);
                 throw;
             }
         }
-        trackHeaderSize
-            = trackHeaderElementsSize ? 4 + EbmlElement::calculateSizeDenotationLength(trackHeaderElementsSize) + trackHeaderElementsSize : 0;
 
         // inspect layout of original file
         //  - number of segments
@@ -1211,13 +1211,30 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 }
 
                 // pretend writing "Tracks"-element
-                if (trackHeaderSize) {
+                segment.trackHeaderElementsSize = 0;
+                for (const auto &maker : trackHeaderMaker) {
+                    if (isTrackOfSegment(maker, level0Element)) {
+                        segment.trackHeaderElementsSize += maker.requiredSize();
+                    }
+                }
+                if (segment.trackHeaderElementsSize) {
                     // update offsets in "SeekHead"-element
                     if (segment.seekInfo.push(0, MatroskaIds::Tracks, segment.totalDataSize)) {
                         goto calculateSegmentSize;
                     } else {
                         // add size of "Tracks"-element
-                        segment.totalDataSize += trackHeaderSize;
+                        segment.totalDataSize
+                            += 4 + EbmlElement::calculateSizeDenotationLength(segment.trackHeaderElementsSize) + segment.trackHeaderElementsSize;
+                    }
+                } else if (segmentIndex) {
+                    // preserve "Tracks"-elements of further segments which have not been parsed as-is
+                    for (level1Element = level0Element->childById(MatroskaIds::Tracks, diag), index = 0; level1Element;
+                        level1Element = level1Element->siblingById(MatroskaIds::Tracks, diag), ++index) {
+                        if (segment.seekInfo.push(index, MatroskaIds::Tracks, segment.totalDataSize)) {
+                            goto calculateSegmentSize;
+                        }
+                        level1Element->makeBuffer();
+                        segment.totalDataSize += level1Element->totalSize();
                     }
                 }
 
@@ -1748,12 +1765,20 @@ void MatroskaContainer::internalMakeFile(Diagnostics &diag, AbortableProgressFee
                 }
 
                 // write "Tracks"-element
-                if (trackHeaderElementsSize) {
+                if (segment.trackHeaderElementsSize) {
                     outputWriter.writeUInt32BE(MatroskaIds::Tracks);
-                    sizeLength = EbmlElement::makeSizeDenotation(trackHeaderElementsSize, buff);
+                    sizeLength = EbmlElement::makeSizeDenotation(segment.trackHeaderElementsSize, buff);
                     outputStream.write(buff, sizeLength);
                     for (auto &maker : trackHeaderMaker) {
-                        maker.make(outputStream);
+                        if (isTrackOfSegment(maker, level0Element)) {
+                            maker.make(outputStream);
+                        }
+                    }
+                } else if (segmentIndex) {
+                    for (level1Element = level0Element->childById(MatroskaIds::Tracks, diag); level1Element;
+                        level1Element = level1Element->siblingById(MatroskaIds::Tracks, diag)) {
+                        level1Element->copyBuffer(outputStream);
+                        level1Element->discardBuffer();
                     }
                 }
 
-- 
2.43.0


From b9788f7c28a28de5791e69e6872a0ce17231758b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:56 +0000
Subject: [PATCH 083/105] fix: ADTS: do not truncate the frame length to 8 bits

---
 adts/adtsframe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adts/adtsframe.h b/adts/adtsframe.h
index 53ad236..88fce67 100644
--- a/adts/adtsframe.h
+++ b/adts/adtsframe.h
@@ -102,7 +102,7 @@ constexpr std::uint8_t AdtsFrame::mpeg4ChannelConfig() const
  */
 constexpr std::uint16_t AdtsFrame::totalSize() const
 {
-    return static_cast<std::uint8_t>((m_header2 >> 0x1D) & 0x1FFFu);
+    return static_cast<std::uint16_t>((m_header2 >> 0x1D) & 0x1FFFu);
 }
 
 /*!
-- 
2.43.0


From d332a2ae46e080e87b5dc1a92cbe2960f4145230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:56 +0000
Subject: [PATCH 084/105] fix: MP4: read compact sample sizes of 4 bits
 correctly

---
 mp4/mp4track.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index fed7468..ca3c064 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -2038,13 +2038,13 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
             std::uint32_t i = 1;
             switch (fieldSize) {
             case 4:
-                for (; i <= actualSampleCount; i += 2) {
+                for (; i < actualSampleCount; i += 2) {
                     std::uint8_t val = reader.readByte();
                     m_sampleSizes.push_back(val >> 4);
-                    m_sampleSizes.push_back(val & 0xF0);
-                    m_size += (val >> 4) + (val & 0xF0);
+                    m_sampleSizes.push_back(val & 0x0F);
+                    m_size += (val >> 4) + (val & 0x0F);
                 }
-                if (i <= actualSampleCount + 1) {
+                if (i <= actualSampleCount) {
                     m_sampleSizes.push_back(reader.readByte() >> 4);
                     m_size += m_sampleSizes.back();
                 }
-- 
2.43.0


From f2856bae858f5591084554da1dcc9791d93b1700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:56 +0000
Subject: [PATCH 085/105] fix: MP4: read the sampling frequency of sample
 entries correctly

---
 mp4/mp4track.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index ca3c064..994bb64 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1829,7 +1829,7 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                     m_bitsPerSample = reader.readUInt16BE();
                     m_istream->seekg(4, ios_base::cur); // skip reserved bytes (again)
                     if (!m_samplingFrequency) {
-                        m_samplingFrequency = reader.readUInt32BE() >> 16;
+                        m_samplingFrequency = reader.readUInt32BE();
                         if (codecConfigContainerAtom->id() != FourccIds::DolbyMpl) {
                             m_samplingFrequency >>= 16;
                         }
-- 
2.43.0


From 98f7ae9f0c2d07363b3b4c4e53aecf19a0dd4398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:56 +0000
Subject: [PATCH 086/105] fix: MP4: skip the whole sound description of version
 2

---
 mp4/mp4track.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 994bb64..e2e616a 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1842,7 +1842,7 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                             codecConfigContainerAtom->denoteFirstChild(codecConfigContainerAtom->headerSize() + 28 + 16);
                             break;
                         case 2:
-                            codecConfigContainerAtom->denoteFirstChild(codecConfigContainerAtom->headerSize() + 28 + 32);
+                            codecConfigContainerAtom->denoteFirstChild(codecConfigContainerAtom->headerSize() + 28 + 36);
                             break;
                         default:
                             codecConfigContainerAtom->denoteFirstChild(codecConfigContainerAtom->headerSize() + 28);
-- 
2.43.0


From 351426725a88aecdf55ed36657544a128c96dfe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:29 +0000
Subject: [PATCH 087/105] fix: MP4: read the name of the handler until its
 terminator if there is one

---
 mp4/mp4track.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index e2e616a..1828cf5 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1778,9 +1778,13 @@ void Mp4Track::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     // -> name
     m_istream->seekg(12, ios_base::cur); // skip reserved bytes
     if (static_cast<std::uint64_t>(tmp = static_cast<std::uint8_t>(m_istream->peek())) == m_hdlrAtom->dataSize() - 12 - 4 - 8 - 1) {
-        // assume size prefixed string (seems to appear in QuickTime files)
-        m_istream->seekg(1, ios_base::cur);
-        m_name = reader.readString(tmp);
+        // assume size prefixed string (seems to appear in QuickTime files) unless the string is null terminated
+        m_name = reader.readString(m_hdlrAtom->dataSize() - 12 - 4 - 8);
+        if (const auto terminator = m_name.find('\0'); terminator != std::string::npos) {
+            m_name.resize(terminator);
+        } else {
+            m_name.erase(0, 1);
+        }
     } else {
         // assume null terminated string (appears in MP4 files)
         m_name = reader.readTerminatedString(m_hdlrAtom->dataSize() - 12 - 4 - 8, 0);
-- 
2.43.0


From b7b00dee420121082263ead16e27ba1b90b60e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:29 +0000
Subject: [PATCH 088/105] fix: MPEG audio: find the Xing header of mono and
 MPEG-2 files

---
 mpegaudio/mpegaudioframe.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpegaudio/mpegaudioframe.cpp b/mpegaudio/mpegaudioframe.cpp
index df8a99d..af82572 100644
--- a/mpegaudio/mpegaudioframe.cpp
+++ b/mpegaudio/mpegaudioframe.cpp
@@ -60,10 +60,12 @@ void MpegAudioFrame::parseHeader(BinaryReader &reader, Diagnostics &diag)
     }
 
     // read XING header (see https://www.codeproject.com/Articles/8295/MPEG-Audio-Frame-Header#XINGHeader)
-    if (size() < s_xingHeaderOffset - 4 + 8) {
+    const auto isMono = channelMode() == MpegChannelMode::SingleChannel;
+    const auto xingHeaderOffset = mpegVersion() == 1.0 ? (isMono ? 0x15u : static_cast<std::uint32_t>(s_xingHeaderOffset)) : (isMono ? 0x0du : 0x15u);
+    if (size() < xingHeaderOffset - 4 + 8) {
         return;
     }
-    reader.stream()->seekg(s_xingHeaderOffset - 4, ios_base::cur);
+    reader.stream()->seekg(xingHeaderOffset - 4, ios_base::cur);
     m_xingHeader = reader.readUInt64BE();
     if (isXingHeaderAvailable()) {
         m_xingHeaderFlags = static_cast<XingHeaderFlags>(m_xingHeader & 0xffffffffuL);
-- 
2.43.0


From cbed22c00c0b8db3ae6861ea34d32a3b6fe48ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:29 +0000
Subject: [PATCH 089/105] fix: MPEG audio: do not mistake other data for a Xing
 header

---
 mpegaudio/mpegaudioframe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpegaudio/mpegaudioframe.h b/mpegaudio/mpegaudioframe.h
index 8ed4b13..570b3f9 100644
--- a/mpegaudio/mpegaudioframe.h
+++ b/mpegaudio/mpegaudioframe.h
@@ -158,7 +158,7 @@ constexpr XingHeaderFlags operator&(XingHeaderFlags lhs, XingHeaderFlags rhs)
  */
 constexpr bool MpegAudioFrame::isXingHeaderAvailable() const
 {
-    return ((m_xingHeader & 0x58696e6700000000uL) == 0x58696e6700000000uL) || ((m_xingHeader & 0x496e666f00000000uL) == 0x496e666f00000000uL);
+    return ((m_xingHeader & 0xffffffff00000000uL) == 0x58696e6700000000uL) || ((m_xingHeader & 0xffffffff00000000uL) == 0x496e666f00000000uL);
 }
 
 /*!
-- 
2.43.0


From b73dec770ab8d864c9e6747caa550d7fe12d7974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:29 +0000
Subject: [PATCH 090/105] fix: MPEG audio: compute the duration from the frame
 count without overflow

---
 mpegaudio/mpegaudioframestream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpegaudio/mpegaudioframestream.cpp b/mpegaudio/mpegaudioframestream.cpp
index 32d05ba..8204676 100644
--- a/mpegaudio/mpegaudioframestream.cpp
+++ b/mpegaudio/mpegaudioframestream.cpp
@@ -79,7 +79,7 @@ void MpegAudioFrameStream::internalParseHeader(Diagnostics &diag, AbortableProgr
         }
     }
     if (frame.isXingFramefieldPresent()) {
-        const auto duration = static_cast<double>(frame.xingFrameCount() * frame.sampleCount()) / static_cast<double>(frame.samplingFrequency());
+        const auto duration = static_cast<double>(frame.xingFrameCount()) * static_cast<double>(frame.sampleCount()) / static_cast<double>(frame.samplingFrequency());
         m_bitrate = static_cast<double>(m_size) / duration / 125.0;
         m_duration = TimeSpan::fromSeconds(duration);
     } else {
-- 
2.43.0


From 0a4653a605052c449272325d04ba8e08e33349a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:29 +0000
Subject: [PATCH 091/105] fix: WAVE: compute duration and bitrate of MPEG audio
 consistently

---
 wav/waveaudiostream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index a91b18d..ef59de4 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -190,10 +190,11 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
     MpegAudioFrameStream::addInfo(frame, *this);
     m_bitrate = frame.isXingFramefieldPresent()
         ? ((static_cast<double>(m_size) * 8.0)
-              / (static_cast<double>(frame.xingFrameCount() * frame.sampleCount()) / static_cast<double>(frame.samplingFrequency())) / 1024.0)
+              / (static_cast<double>(frame.xingFrameCount()) * static_cast<double>(frame.sampleCount()) / static_cast<double>(frame.samplingFrequency()))
+              / 1000.0)
         : frame.bitrate();
     m_bytesPerSecond = static_cast<std::uint32_t>(m_bitrate * 125);
-    m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / (m_bitrate * 128.0));
+    m_duration = TimeSpan::fromSeconds(static_cast<double>(m_size) / (m_bitrate * 125.0));
 }
 
 } // namespace TagParser
-- 
2.43.0


From d13846004786c985910e06c4f7af17ad2df8c941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:29 +0000
Subject: [PATCH 092/105] fix: WAVE: report the bitrate in kbit/s

---
 wav/waveaudiostream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index ef59de4..fd06f4e 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -141,7 +141,7 @@ void WaveAudioStream::addInfo(const WaveFormatHeader &waveHeader, AbstractTrack
     track.m_bytesPerSecond = waveHeader.bytesPerSecond;
     track.m_chunkSize = waveHeader.chunkSize;
     track.m_bitsPerSample = waveHeader.bitsPerSample;
-    track.m_bitrate = waveHeader.bitrate();
+    track.m_bitrate = waveHeader.bitrate() / 1000.0;
 }
 
 void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback &progress)
-- 
2.43.0


From efdf9285a593a8afbb6f8f76f186c5237a27d431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:29 +0000
Subject: [PATCH 093/105] fix: WAVE: skip the padding of chunks with odd size

---
 wav/waveaudiostream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wav/waveaudiostream.cpp b/wav/waveaudiostream.cpp
index fd06f4e..0f005bf 100644
--- a/wav/waveaudiostream.cpp
+++ b/wav/waveaudiostream.cpp
@@ -162,6 +162,7 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
     while (!m_dataOffset) {
         const auto segmentId = m_reader.readUInt32BE();
         auto restHeaderLen = static_cast<std::uint64_t>(m_reader.readUInt32LE());
+        const auto padding = restHeaderLen & 1u;
         switch (segmentId) {
         case 0x666D7420u: { // format segment
             WaveFormatHeader waveHeader;
@@ -179,7 +180,7 @@ void WaveAudioStream::internalParseHeader(Diagnostics &diag, AbortableProgressFe
             break;
         default:;
         }
-        m_istream->seekg(static_cast<std::streamoff>(restHeaderLen), ios_base::cur);
+        m_istream->seekg(static_cast<std::streamoff>(restHeaderLen + padding), ios_base::cur);
     }
     if (m_format.general != GeneralMediaFormat::Mpeg1Audio || !m_dataOffset) {
         return;
-- 
2.43.0


From 1db4554d681d6554de8d322ae2fb7b32df8a3a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:29 +0000
Subject: [PATCH 094/105] fix: IVF: consider the time scale when computing
 frame rate and duration

---
 ivf/ivfstream.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ivf/ivfstream.cpp b/ivf/ivfstream.cpp
index 05a272f..acd2b51 100644
--- a/ivf/ivfstream.cpp
+++ b/ivf/ivfstream.cpp
@@ -7,6 +7,7 @@
 #include <c++utilities/conversion/stringbuilder.h>
 #include <c++utilities/conversion/stringconversion.h>
 
+#include <cmath>
 #include <string>
 
 using namespace std;
@@ -46,13 +47,16 @@ void IvfStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     m_formatId = interpretIntegerAsString(formatId);
     m_pixelSize.setWidth(m_reader.readUInt16LE());
     m_pixelSize.setHeight(m_reader.readUInt16LE());
-    m_fps = m_reader.readUInt32LE();
+    const auto rate = m_reader.readUInt32LE();
     m_timeScale = m_reader.readUInt32LE();
     m_sampleCount = m_reader.readUInt32LE();
 
     // compute further values
     m_format = FourccIds::fourccToMediaFormat(formatId);
-    m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / m_fps);
+    if (rate && m_timeScale) {
+        m_fps = static_cast<std::uint32_t>(std::round(static_cast<double>(rate) / static_cast<double>(m_timeScale)));
+        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) * static_cast<double>(m_timeScale) / static_cast<double>(rate));
+    }
 
     // skip unused bytes
     m_istream->seekg(4, ios_base::cur);
-- 
2.43.0


From 6e305fa5ddbe3ca3b6a5ac99ae6d1d67ee3000df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:02 +0000
Subject: [PATCH 095/105] fix: Ogg: consider only pages on which a packet ends
 when computing the sample count

---
 ogg/oggstream.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ogg/oggstream.cpp b/ogg/oggstream.cpp
index dd83fce..ad5187d 100644
--- a/ogg/oggstream.cpp
+++ b/ogg/oggstream.cpp
@@ -16,6 +16,7 @@
 
 #include <functional>
 #include <iostream>
+#include <limits>
 
 using namespace std;
 using namespace std::placeholders;
@@ -298,7 +299,9 @@ void OggStream::calculateDurationViaSampleCount(std::uint16_t preSkip)
     if (!m_sampleCount && iterator.isLastPageFetched()) {
         const auto &pages = iterator.pages();
         const auto firstPage = find_if(pages.cbegin(), pages.cend(), pred);
-        const auto lastPage = find_if(pages.crbegin(), pages.crend(), pred);
+        // ignore pages with the granule position -1 as those do not contain the end of a packet
+        const auto lastPage = find_if(pages.crbegin(), pages.crend(),
+            [&pred](const OggPage &page) { return pred(page) && page.absoluteGranulePosition() != std::numeric_limits<std::uint64_t>::max(); });
         if (firstPage != pages.cend() && lastPage != pages.crend()) {
             m_sampleCount = lastPage->absoluteGranulePosition() - firstPage->absoluteGranulePosition();
             // must apply "pre-skip" here to calculate effective sample count and duration?
-- 
2.43.0


From f6f696493165872717744fe391262237e0a6f163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:02 +0000
Subject: [PATCH 096/105] fix: Ogg: compute the duration of Opus streams using
 its fixed granule rate

---
 ogg/oggstream.cpp | 11 +++++++----
 ogg/oggstream.h   |  2 +-
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/ogg/oggstream.cpp b/ogg/oggstream.cpp
index ad5187d..91bbda0 100644
--- a/ogg/oggstream.cpp
+++ b/ogg/oggstream.cpp
@@ -145,7 +145,7 @@ void OggStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                     m_version = ind.version();
                     m_channelCount = ind.channels();
                     m_samplingFrequency = ind.sampleRate();
-                    calculateDurationViaSampleCount(ind.preSkip());
+                    calculateDurationViaSampleCount(ind.preSkip(), 48000);
                     hasIdentificationHeader = true;
                 } else {
                     diag.emplace_back(
@@ -289,7 +289,7 @@ void OggStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
     }
 }
 
-void OggStream::calculateDurationViaSampleCount(std::uint16_t preSkip)
+void OggStream::calculateDurationViaSampleCount(std::uint16_t preSkip, std::uint32_t granuleRate)
 {
     // define predicate for finding pages of this stream by its stream serial number
     const auto pred = bind(&OggPage::matchesStreamSerialNumber, _1, m_id);
@@ -314,8 +314,11 @@ void OggStream::calculateDurationViaSampleCount(std::uint16_t preSkip)
     }
 
     // actually calculate the duration
-    if (m_sampleCount && m_samplingFrequency != 0.0) {
-        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / m_samplingFrequency);
+    if (!granuleRate) {
+        granuleRate = m_samplingFrequency;
+    }
+    if (m_sampleCount && granuleRate) {
+        m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / granuleRate);
     }
 }
 
diff --git a/ogg/oggstream.h b/ogg/oggstream.h
index 11d85e0..25787ad 100644
--- a/ogg/oggstream.h
+++ b/ogg/oggstream.h
@@ -24,7 +24,7 @@ protected:
     void internalParseHeader(Diagnostics &diag, AbortableProgressFeedback &progress) override;
 
 private:
-    void calculateDurationViaSampleCount(std::uint16_t preSkip = 0);
+    void calculateDurationViaSampleCount(std::uint16_t preSkip = 0, std::uint32_t granuleRate = 0);
 
     std::size_t m_startPage;
     OggContainer &m_container;
-- 
2.43.0


From 2aa12d0c6f1f9f5cbbe9f1ac36293d58a9e35147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:02 +0000
Subject: [PATCH 097/105] fix: Ogg: treat unset bitrates in the Vorbis
 identification header as such

---
 ogg/oggstream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ogg/oggstream.cpp b/ogg/oggstream.cpp
index 91bbda0..f9129a0 100644
--- a/ogg/oggstream.cpp
+++ b/ogg/oggstream.cpp
@@ -95,9 +95,10 @@ void OggStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedback
                         m_version = ind.version();
                         m_channelCount = ind.channels();
                         m_samplingFrequency = ind.sampleRate();
-                        if (ind.nominalBitrate()) {
+                        // note: The bitrates are actually signed and not positive if unset.
+                        if (static_cast<std::int32_t>(ind.nominalBitrate()) > 0) {
                             m_bitrate = ind.nominalBitrate();
-                        } else if (ind.maxBitrate() == ind.minBitrate()) {
+                        } else if (ind.maxBitrate() == ind.minBitrate() && static_cast<std::int32_t>(ind.maxBitrate()) > 0) {
                             m_bitrate = ind.maxBitrate();
                         }
                         if (m_bitrate != 0.0) {
-- 
2.43.0


From 882a3c6bd7fd44137d5d8b420f992b99697a1a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:02 +0000
Subject: [PATCH 098/105] fix: FLAC: avoid division by zero if the sampling
 frequency is zero

---
 flac/flacstream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/flac/flacstream.cpp b/flac/flacstream.cpp
index c2eee3c..2a394fd 100644
--- a/flac/flacstream.cpp
+++ b/flac/flacstream.cpp
@@ -103,7 +103,9 @@ void FlacStream::internalParseHeader(Diagnostics &diag, AbortableProgressFeedbac
                 m_samplingFrequency = streamInfo.samplingFrequency();
                 m_sampleCount = streamInfo.totalSampleCount();
                 m_bitsPerSample = streamInfo.bitsPerSample();
-                m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / m_samplingFrequency);
+                if (m_samplingFrequency) {
+                    m_duration = TimeSpan::fromSeconds(static_cast<double>(m_sampleCount) / m_samplingFrequency);
+                }
             } else {
                 diag.emplace_back(DiagLevel::Critical, "\"METADATA_BLOCK_STREAMINFO\" is truncated and will be ignored.", context);
             }
-- 
2.43.0


From c0a8c55a927aaf3afed8b1cef34d405fb0b51aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:02 +0000
Subject: [PATCH 099/105] fix: Matroska: compute the frame rate regardless of
 the order of the elements

---
 matroska/matroskatrack.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 1b7358e..1f92a61 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -296,6 +296,7 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
     }
     // read information about the track from the children of the track entry element
     auto hasIsoLanguage = false;
+    auto defaultDuration = std::uint64_t();
     m_flags = TrackFlags::Default | TrackFlags::Enabled;
     for (EbmlElement *trackInfoElement = m_trackElement->firstChild(), *subElement = nullptr; trackInfoElement;
         trackInfoElement = trackInfoElement->nextSibling()) {
@@ -305,7 +306,6 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
             diag.emplace_back(DiagLevel::Critical, "Unable to parse track information element.", context);
             break;
         }
-        std::uint64_t defaultDuration = 0;
         switch (trackInfoElement->id()) {
         case MatroskaIds::TrackType:
             switch (trackInfoElement->readUInteger()) {
@@ -444,14 +444,11 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
             break;
         default:;
         }
-        switch (m_mediaType) {
-        case MediaType::Video:
-            if (!m_fps && defaultDuration) {
-                m_fps = static_cast<std::uint32_t>(1000000000.0 / static_cast<double>(defaultDuration));
-            }
-            break;
-        default:;
-        }
+    }
+
+    // compute frame rate from the default duration
+    if (m_mediaType == MediaType::Video && !m_fps && defaultDuration) {
+        m_fps = static_cast<std::uint32_t>(1000000000.0 / static_cast<double>(defaultDuration));
     }
 
     // read further information from the CodecPrivate element for some codecs
-- 
2.43.0


From 343e78c0e32709458ef12b5068fcfec91a568fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:02 +0000
Subject: [PATCH 100/105] fix: Matroska: do not report progressive tracks as
 interlaced

---
 matroska/matroskatrack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 1f92a61..4c61d33 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -365,7 +365,7 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
                     m_fps = static_cast<std::uint32_t>(subElement->readFloat());
                     break;
                 case MatroskaIds::FlagInterlaced:
-                    modFlagEnum(m_flags, TrackFlags::Interlaced, subElement->readUInteger());
+                    modFlagEnum(m_flags, TrackFlags::Interlaced, subElement->readUInteger() == 1);
                     break;
                 case MatroskaIds::ColorSpace:
                     m_colorSpace = static_cast<std::uint32_t>(subElement->readUInteger());
-- 
2.43.0


From 9c3758a445982f65e4b5fe436c6b98976858400b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:02 +0000
Subject: [PATCH 101/105] fix: Matroska: apply the default value of the lacing
 flag

---
 matroska/matroskatrack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/matroska/matroskatrack.cpp b/matroska/matroskatrack.cpp
index 4c61d33..5d9c151 100644
--- a/matroska/matroskatrack.cpp
+++ b/matroska/matroskatrack.cpp
@@ -297,7 +297,7 @@ void MatroskaTrack::internalParseHeader(Diagnostics &diag, AbortableProgressFeed
     // read information about the track from the children of the track entry element
     auto hasIsoLanguage = false;
     auto defaultDuration = std::uint64_t();
-    m_flags = TrackFlags::Default | TrackFlags::Enabled;
+    m_flags = TrackFlags::Default | TrackFlags::Enabled | TrackFlags::Lacing;
     for (EbmlElement *trackInfoElement = m_trackElement->firstChild(), *subElement = nullptr; trackInfoElement;
         trackInfoElement = trackInfoElement->nextSibling()) {
         try {
-- 
2.43.0


From 36a3969b09c4a9ec1a7c9efa33543501f893a67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:02 +0000
Subject: [PATCH 102/105] fix: Matroska: read the tracks of chapters

---
 matroska/matroskachapter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matroska/matroskachapter.cpp b/matroska/matroskachapter.cpp
index d695f7a..44e9c1e 100644
--- a/matroska/matroskachapter.cpp
+++ b/matroska/matroskachapter.cpp
@@ -76,12 +76,12 @@ void MatroskaChapter::internalParse(Diagnostics &diag, AbortableProgressFeedback
                 chapterTrackElement = chapterTrackElement->nextSibling()) {
                 chapterTrackElement->parse(diag);
                 switch (chapterTrackElement->id()) {
-                case MatroskaIds::ChapterTrack:
+                case MatroskaIds::ChapterTrackNumber:
                     m_tracks.emplace_back(chapterTrackElement->readUInteger());
                     break;
                 default:
                     diag.emplace_back(DiagLevel::Warning,
-                        "\"ChapterTrack\"-element contains unknown child element \"" % chapterAtomChild->idToString() + "\". It will be ignored.",
+                        "\"ChapterTrack\"-element contains unknown child element \"" % chapterTrackElement->idToString() + "\". It will be ignored.",
                         context);
                 }
             }
-- 
2.43.0


From 09fdef4c148ceb994253e9715be8e0e26c3b7fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:02 +0000
Subject: [PATCH 103/105] fix: EBML: strip the padding of strings

---
 matroska/ebmlelement.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/matroska/ebmlelement.cpp b/matroska/ebmlelement.cpp
index e679efa..d438e4e 100644
--- a/matroska/ebmlelement.cpp
+++ b/matroska/ebmlelement.cpp
@@ -236,7 +236,10 @@ void EbmlElement::internalParse(Diagnostics &diag)
 std::string EbmlElement::readString()
 {
     stream().seekg(static_cast<streamoff>(dataOffset()));
-    return reader().readString(dataSize());
+    auto res = reader().readString(dataSize());
+    // remove null bytes the string might be padded with
+    res.erase(res.find_last_not_of('\0') + 1);
+    return res;
 }
 
 /*!
-- 
2.43.0


From e2e413864018897e1ad2d1928a9061c70b51459e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:45 +0000
Subject: [PATCH 104/105] fix: MP4: keep track header flags which are not
 interpreted

---
 mp4/mp4track.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mp4/mp4track.cpp b/mp4/mp4track.cpp
index 1828cf5..9486fb8 100644
--- a/mp4/mp4track.cpp
+++ b/mp4/mp4track.cpp
@@ -1360,6 +1360,10 @@ void Mp4Track::makeTrackHeader(Diagnostics &diag)
     // make version and flags
     writer().writeByte(info.writeVersion);
     std::uint32_t flags = 0;
+    if (info.canUseExisting) {
+        // preserve flags which are not handled explicitly
+        flags = BE::toInt<std::uint32_t>(m_tkhdAtom->buffer().get() + m_tkhdAtom->headerSize()) & 0xFFFFF8u;
+    }
     if (isEnabled()) {
         flags |= 0x000001;
     }
-- 
2.43.0


From ca225ba689b1ecb49f47b7bf7ac32c6378d23f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:56:45 +0000
Subject: [PATCH 105/105] fix: Matroska: keep empty data of attachments

---
 matroska/matroskaattachment.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/matroska/matroskaattachment.cpp b/matroska/matroskaattachment.cpp
index 8db1f32..5b58453 100644
--- a/matroska/matroskaattachment.cpp
+++ b/matroska/matroskaattachment.cpp
@@ -118,7 +118,8 @@ MatroskaAttachmentMaker::MatroskaAttachmentMaker(MatroskaAttachment &attachment,
     m_attachedFileElementSize = 2 + EbmlElement::calculateSizeDenotationLength(attachment.name().size()) + attachment.name().size() + 2
         + EbmlElement::calculateSizeDenotationLength(attachment.mimeType().size()) + attachment.mimeType().size() + 2 + 1
         + EbmlElement::calculateUIntegerLength(attachment.id());
-    if (auto dataSize = attachment.data() ? attachment.data()->size() : static_cast<std::uint64_t>(0)) {
+    if (attachment.data()) {
+        const auto dataSize = static_cast<std::uint64_t>(attachment.data()->size());
         m_attachedFileElementSize += 2 + EbmlElement::calculateSizeDenotationLength(dataSize) + dataSize;
     }
     if (!attachment.description().empty()) {
@@ -171,7 +172,7 @@ void MatroskaAttachmentMaker::make(ostream &stream, Diagnostics &diag) const
             }
         }
     }
-    if (attachment().data() && attachment().data()->size()) {
+    if (attachment().data()) {
         BE::getBytes(static_cast<std::uint16_t>(MatroskaIds::FileData), buff);
         stream.write(buff, 2);
         len = EbmlElement::makeSizeDenotation(static_cast<std::uint64_t>(attachment().data()->size()), buff);
-- 
2.43.0

