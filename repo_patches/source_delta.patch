From 5d3ad9c91164494286f69121ac98fd2332b7c880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:40:40 +0000
Subject: [PATCH 01/33] fix: subtracting a 32-bit bitmap from itself yields the
 empty bitmap

The in-place difference of the roaring library does not accept the same
bitmap on both sides: it aborts in debug builds.
---
 src/paimon/common/utils/roaring_bitmap32.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/paimon/common/utils/roaring_bitmap32.cpp b/src/paimon/common/utils/roaring_bitmap32.cpp
index 4f5b2ad..33418a9 100644
--- a/src/paimon/common/utils/roaring_bitmap32.cpp
+++ b/src/paimon/common/utils/roaring_bitmap32.cpp
@@ -146,6 +146,11 @@ RoaringBitmap32& RoaringBitmap32::operator&=(const RoaringBitmap32& other) {
     return *this;
 }
 RoaringBitmap32& RoaringBitmap32::operator-=(const RoaringBitmap32& other) {
+    if (&other == this) {
+        // the in-place difference of roaring does not accept the same bitmap twice
+        GetRoaringBitmap(roaring_bitmap_) = roaring::Roaring();
+        return *this;
+    }
     GetRoaringBitmap(roaring_bitmap_) -= GetRoaringBitmap(other.roaring_bitmap_);
     return *this;
 }
-- 
2.43.0


From d6162a930ceba044b091df5cea91f5279dc028ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:42 +0000
Subject: [PATCH 02/33] fix: range merging and exclusion at the maximum of the
 integer domain

Merging adjacent ranges and excluding ranges computed 'to + 1', which
overflows for a range that ends at the maximum: overlapping ranges stayed
unmerged and an excluded range left a bogus remainder.
---
 src/paimon/common/utils/range.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/paimon/common/utils/range.cpp b/src/paimon/common/utils/range.cpp
index 42d360a..b4f12a4 100644
--- a/src/paimon/common/utils/range.cpp
+++ b/src/paimon/common/utils/range.cpp
@@ -43,7 +43,7 @@ std::vector<Range> Range::SortAndMergeOverlap(const std::vector<Range>& ranges,
     for (size_t i = 1; i < sorted_ranges.size(); ++i) {
         Range next = sorted_ranges[i];
         // Check if current and next overlap (not just adjacent)
-        if (current.to + (adjacent ? 1 : 0) >= next.from) {
+        if (current.to >= next.from || (adjacent && current.to == next.from - 1)) {
             // Merge: extend current range
             current = Range(current.from, std::max(current.to, next.to));
         } else {
@@ -125,10 +125,10 @@ std::vector<Range> Range::Exclude(const std::vector<Range>& ranges) const {
             result.emplace_back(current, intersect.value().from - 1);
         }
         // Move current position past the intersection
-        current = intersect.value().to + 1;
-        if (current > to) {
-            break;
+        if (intersect.value().to >= to) {
+            return result;
         }
+        current = intersect.value().to + 1;
     }
     // Add the remaining part after all exclusions (if any)
     if (current <= to) {
-- 
2.43.0


From 6454a5455d9b62e53bf53701f492448b37ecbf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:46:57 +0000
Subject: [PATCH 03/33] fix: bit-sliced index refuses a value below its
 declared minimum

Appending such a value wrote outside the slices.
---
 .../common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp  | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
index 468ffb3..78a050f 100644
--- a/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
+++ b/src/paimon/common/file_index/bsi/bit_slice_index_roaring_bitmap.cpp
@@ -256,6 +256,10 @@ Status BitSliceIndexRoaringBitmap::Appender::Append(int32_t rid, int64_t value)
         return Status::Invalid(
             fmt::format("value {} is too large for append to BitSliceIndexRoaringBitmap", value));
     }
+    if (value < bsi_->min_) {
+        return Status::Invalid(
+            fmt::format("value {} is too small for append to BitSliceIndexRoaringBitmap", value));
+    }
     if (bsi_->ebm_.Contains(rid)) {
         return Status::Invalid(
             fmt::format("rid {} is already exists for append to BitSliceIndexRoaringBitmap", rid));
-- 
2.43.0


From e4b7468d83121d94bf7cdc799bba331d6f34214c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:50:44 +0000
Subject: [PATCH 04/33] fix: an empty value list yields an index answer instead
 of a null pointer

IN over no values matches nothing and NOT IN over no values excludes
nothing; the readers returned a null result that callers dereference.
---
 src/paimon/common/file_index/file_index_reader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/paimon/common/file_index/file_index_reader.cpp b/src/paimon/common/file_index/file_index_reader.cpp
index 7fd1814..73bfd63 100644
--- a/src/paimon/common/file_index/file_index_reader.cpp
+++ b/src/paimon/common/file_index/file_index_reader.cpp
@@ -68,6 +68,9 @@ Result<std::shared_ptr<FileIndexResult>> FileIndexReader::VisitGreaterThan(const
 
 Result<std::shared_ptr<FileIndexResult>> FileIndexReader::VisitIn(
     const std::vector<Literal>& literals) {
+    if (literals.empty()) {
+        return FileIndexResult::Skip();
+    }
     std::shared_ptr<FileIndexResult> file_index_result;
     for (const Literal& key : literals) {
         if (!file_index_result) {
@@ -82,6 +85,9 @@ Result<std::shared_ptr<FileIndexResult>> FileIndexReader::VisitIn(
 
 Result<std::shared_ptr<FileIndexResult>> FileIndexReader::VisitNotIn(
     const std::vector<Literal>& literals) {
+    if (literals.empty()) {
+        return FileIndexResult::Remain();
+    }
     std::shared_ptr<FileIndexResult> file_index_result;
     for (const Literal& key : literals) {
         if (!file_index_result) {
-- 
2.43.0


From e8ffd8038f584812dcaf2b2db5ba1fb824f7c7b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 23:58:18 +0000
Subject: [PATCH 05/33] fix: refuse malformed lengths when decoding blob
 descriptors and deletion file lists

A negative or oversized length in a damaged encoding made the decoders throw
std::length_error or std::bad_alloc instead of returning an error.
---
 src/paimon/common/data/blob_descriptor.cpp   | 4 ++++
 src/paimon/core/table/source/deletion_file.h | 4 +++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/paimon/common/data/blob_descriptor.cpp b/src/paimon/common/data/blob_descriptor.cpp
index d0189cd..5e064e4 100644
--- a/src/paimon/common/data/blob_descriptor.cpp
+++ b/src/paimon/common/data/blob_descriptor.cpp
@@ -65,6 +65,10 @@ Result<std::unique_ptr<BlobDescriptor>> BlobDescriptor::Deserialize(const char*
             "Expecting BlobDescriptor version to be {}, but found {}.", CURRENT_VERSION, version));
     }
     PAIMON_ASSIGN_OR_RAISE(int32_t uri_length, in.ReadValue<int32_t>());
+    if (uri_length < 0 || static_cast<uint64_t>(uri_length) > size) {
+        return Status::Invalid(
+            fmt::format("invalid uri length {} in BlobDescriptor of {} bytes", uri_length, size));
+    }
     std::string uri(uri_length, '\0');
     PAIMON_RETURN_NOT_OK(in.Read(uri.data(), uri.size()));
     PAIMON_ASSIGN_OR_RAISE(int64_t offset, in.ReadValue<int64_t>());
diff --git a/src/paimon/core/table/source/deletion_file.h b/src/paimon/core/table/source/deletion_file.h
index f15d9ab..4ee82b1 100644
--- a/src/paimon/core/table/source/deletion_file.h
+++ b/src/paimon/core/table/source/deletion_file.h
@@ -95,7 +95,9 @@ struct DeletionFile {
         PAIMON_ASSIGN_OR_RAISE(char has_deletion_file, in->ReadValue<char>());
         if (has_deletion_file == static_cast<char>(1)) {
             PAIMON_ASSIGN_OR_RAISE(int32_t size, in->ReadValue<int32_t>());
-            files.reserve(size);
+            if (size < 0) {
+                return Status::Invalid(fmt::format("Invalid deletion file list size: {}", size));
+            }
             for (int32_t i = 0; i < size; i++) {
                 std::optional<DeletionFile> file;
                 if (version >= 4) {
-- 
2.43.0


From 40887393f70ca8dcdeefae7cd54a76c1cc73d3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:56 +0000
Subject: [PATCH 06/33] fix: keep the position of byte-array streams when a
 seek or read is refused

A refused seek left the position outside the array, and a positional read close
to 2^64 wrapped around the bound check; both led to reads outside the buffer.
---
 src/paimon/common/io/byte_array_input_stream.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/paimon/common/io/byte_array_input_stream.cpp b/src/paimon/common/io/byte_array_input_stream.cpp
index b98ab24..c5658fd 100644
--- a/src/paimon/common/io/byte_array_input_stream.cpp
+++ b/src/paimon/common/io/byte_array_input_stream.cpp
@@ -33,28 +33,30 @@ const char* ByteArrayInputStream::GetRawData() const {
 }
 
 Status ByteArrayInputStream::Seek(int64_t offset, SeekOrigin origin) {
+    int64_t position = position_;
     switch (origin) {
         case SeekOrigin::FS_SEEK_SET: {
-            position_ = offset;
+            position = offset;
             break;
         }
         case SeekOrigin::FS_SEEK_CUR: {
-            position_ += offset;
+            position += offset;
             break;
         }
         case SeekOrigin::FS_SEEK_END: {
             PAIMON_ASSIGN_OR_RAISE(uint64_t length, Length());
-            position_ = static_cast<int64_t>(length) + offset;
+            position = static_cast<int64_t>(length) + offset;
             break;
         }
         default:
             return Status::Invalid(
                 "invalid SeekOrigin, only support FS_SEEK_SET, FS_SEEK_CUR, and FS_SEEK_END");
     }
-    if (position_ < 0 || position_ > static_cast<int64_t>(length_)) {
+    if (position < 0 || position > static_cast<int64_t>(length_)) {
         return Status::Invalid(
-            fmt::format("invalid seek, after seek, current pos {}, length {}", position_, length_));
+            fmt::format("invalid seek, after seek, current pos {}, length {}", position, length_));
     }
+    position_ = position;
     return Status::OK();
 }
 
@@ -71,7 +73,7 @@ Result<int32_t> ByteArrayInputStream::Read(char* buffer, uint32_t size) {
 }
 
 Result<int32_t> ByteArrayInputStream::Read(char* buffer, uint32_t size, uint64_t offset) {
-    if (offset + static_cast<uint64_t>(size) > length_) {
+    if (offset > length_ || static_cast<uint64_t>(size) > length_ - offset) {
         return Status::Invalid(
             fmt::format("ByteArrayInputStream assert boundary failed: need length {}, read offset "
                         "{}, exceed length {}",
-- 
2.43.0


From 36fb5081152c729f52d5da2842807a4bcaa7b4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:56 +0000
Subject: [PATCH 07/33] fix: check window bounds of OffsetInputStream in 64
 bits and keep its position on failure

Positions beyond 2 GiB were truncated to 32 bits by the bound check, and a
refused seek or a short read left the window position out of step with the
wrapped stream.
---
 src/paimon/common/io/offset_input_stream.cpp | 26 +++++++++++---------
 src/paimon/common/io/offset_input_stream.h   |  2 +-
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/paimon/common/io/offset_input_stream.cpp b/src/paimon/common/io/offset_input_stream.cpp
index 1382e6a..5abf761 100644
--- a/src/paimon/common/io/offset_input_stream.cpp
+++ b/src/paimon/common/io/offset_input_stream.cpp
@@ -56,33 +56,35 @@ OffsetInputStream::OffsetInputStream(const std::shared_ptr<InputStream>& wrapped
     : wrapped_(wrapped), length_(length), offset_(offset) {}
 
 Status OffsetInputStream::Seek(int64_t offset, SeekOrigin origin) {
+    int64_t position = inner_position_;
     switch (origin) {
         case SeekOrigin::FS_SEEK_SET: {
-            inner_position_ = offset;
-            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_));
-            return wrapped_->Seek(offset_ + inner_position_, SeekOrigin::FS_SEEK_SET);
+            position = offset;
+            break;
         }
         case SeekOrigin::FS_SEEK_CUR: {
-            inner_position_ += offset;
-            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_));
-            return wrapped_->Seek(offset, SeekOrigin::FS_SEEK_CUR);
+            position += offset;
+            break;
         }
         case SeekOrigin::FS_SEEK_END: {
-            inner_position_ = length_ + offset;
-            PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_));
-            return wrapped_->Seek(offset_ + inner_position_, SeekOrigin::FS_SEEK_SET);
+            position = length_ + offset;
+            break;
         }
         default:
             return Status::Invalid(
                 "invalid SeekOrigin, only support FS_SEEK_SET, FS_SEEK_CUR, and FS_SEEK_END");
     }
+    PAIMON_RETURN_NOT_OK(AssertBoundary(position));
+    PAIMON_RETURN_NOT_OK(wrapped_->Seek(offset_ + position, SeekOrigin::FS_SEEK_SET));
+    inner_position_ = position;
     return Status::OK();
 }
 
 Result<int32_t> OffsetInputStream::Read(char* buffer, uint32_t size) {
     PAIMON_RETURN_NOT_OK(AssertBoundary(inner_position_ + size));
-    inner_position_ += size;
-    return wrapped_->Read(buffer, size);
+    PAIMON_ASSIGN_OR_RAISE(int32_t actual_read_length, wrapped_->Read(buffer, size));
+    inner_position_ += actual_read_length;
+    return actual_read_length;
 }
 
 Result<int32_t> OffsetInputStream::Read(char* buffer, uint32_t size, uint64_t offset) {
@@ -122,7 +124,7 @@ Result<uint64_t> OffsetInputStream::Length() const {
     return length_;
 }
 
-Status OffsetInputStream::AssertBoundary(int32_t inner_pos) const {
+Status OffsetInputStream::AssertBoundary(int64_t inner_pos) const {
     if (inner_pos < 0 || inner_pos > length_) {
         return Status::Invalid(
             fmt::format("OffsetInputStream assert boundary failed: inner pos {} exceed length {}",
diff --git a/src/paimon/common/io/offset_input_stream.h b/src/paimon/common/io/offset_input_stream.h
index 6316eec..fa42899 100644
--- a/src/paimon/common/io/offset_input_stream.h
+++ b/src/paimon/common/io/offset_input_stream.h
@@ -53,7 +53,7 @@ class PAIMON_EXPORT OffsetInputStream : public InputStream {
 
  private:
     OffsetInputStream(const std::shared_ptr<InputStream>& wrapped, int64_t length, int64_t offset);
-    Status AssertBoundary(int32_t inner_pos) const;
+    Status AssertBoundary(int64_t inner_pos) const;
 
  private:
     std::shared_ptr<InputStream> wrapped_;
-- 
2.43.0


From 9858a1c7f3027b102ee04e1f6a5d30af5dec68ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:56 +0000
Subject: [PATCH 08/33] fix: report end of input from BufferedInputStream
 instead of looping

A read of at least the buffer size at the end of a stream that returns zero
bytes there never returned (or hit an assertion).
---
 src/paimon/common/io/buffered_input_stream.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/paimon/common/io/buffered_input_stream.cpp b/src/paimon/common/io/buffered_input_stream.cpp
index 7739b1d..5f388a4 100644
--- a/src/paimon/common/io/buffered_input_stream.cpp
+++ b/src/paimon/common/io/buffered_input_stream.cpp
@@ -61,7 +61,11 @@ Result<int32_t> BufferedInputStream::Read(char* buffer, uint32_t size) {
     while (actual_read_len < size) {
         PAIMON_ASSIGN_OR_RAISE(int32_t nread,
                                InnerRead(buffer + actual_read_len, size - actual_read_len));
-        assert(nread > 0);
+        if (nread <= 0) {
+            return Status::Invalid(fmt::format(
+                "read failed, no bytes available (may read eof), but expect read {} bytes",
+                size - actual_read_len));
+        }
         actual_read_len += nread;
     }
     PAIMON_RETURN_NOT_OK(AssertReadLength(size, actual_read_len));
-- 
2.43.0


From f8df3ba76695a673c3e757ee19642299a4aed9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:00:56 +0000
Subject: [PATCH 09/33] fix: refuse strings longer than the 16-bit length field
 in DataOutputStream

The length was silently truncated, so the string and everything after it was
read back wrongly.
---
 src/paimon/common/io/data_output_stream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/paimon/common/io/data_output_stream.cpp b/src/paimon/common/io/data_output_stream.cpp
index 5252ece..9da04f6 100644
--- a/src/paimon/common/io/data_output_stream.cpp
+++ b/src/paimon/common/io/data_output_stream.cpp
@@ -17,6 +17,7 @@
 #include "paimon/common/io/data_output_stream.h"
 
 #include <cassert>
+#include <limits>
 #include <type_traits>
 
 #include "fmt/format.h"
@@ -54,6 +55,10 @@ Status DataOutputStream::WriteBytes(const std::shared_ptr<Bytes>& bytes) {
 }
 
 Status DataOutputStream::WriteString(const std::string& value) {
+    if (value.size() > std::numeric_limits<uint16_t>::max()) {
+        return Status::Invalid(
+            fmt::format("string of {} bytes exceeds the 16-bit length field", value.size()));
+    }
     uint16_t write_length = value.size();
     PAIMON_RETURN_NOT_OK(WriteValue<uint16_t>(write_length));
     PAIMON_ASSIGN_OR_RAISE(int32_t actual_write_length,
-- 
2.43.0


From e3db3a7df96097c2cf4b51e596eda91f9f598aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:15 +0000
Subject: [PATCH 10/33] fix: compare memory segments byte by byte from the
 first byte

On little-endian machines MemorySegment::Compare compared whole words in native
order, so the last byte of a word decided instead of the first.
---
 src/paimon/common/memory/memory_segment.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/paimon/common/memory/memory_segment.cpp b/src/paimon/common/memory/memory_segment.cpp
index 836010e..192ccaf 100644
--- a/src/paimon/common/memory/memory_segment.cpp
+++ b/src/paimon/common/memory/memory_segment.cpp
@@ -18,16 +18,21 @@
 
 #include <algorithm>
 
+#include "paimon/common/utils/math.h"
+#include "paimon/io/byte_order.h"
+
 namespace paimon {
 
 int32_t MemorySegment::Compare(const MemorySegment& seg2, int32_t offset1, int32_t offset2,
                                int32_t len) const {
     while (len >= 8) {
-        // TODO(yonghao.fyh): support big endian, decide SmallEndian or BigEndian
-        // long l1 = GetLongBigEndian(offset1);
-        // long l2 = seg2.getLongBigEndian(offset2);
-        uint64_t l1 = GetValue<int64_t>(offset1);
-        uint64_t l2 = seg2.GetValue<int64_t>(offset2);
+        // the first byte decides, so words are compared in big-endian order
+        auto l1 = GetValue<uint64_t>(offset1);
+        auto l2 = seg2.GetValue<uint64_t>(offset2);
+        if (SystemByteOrder() == ByteOrder::PAIMON_LITTLE_ENDIAN) {
+            l1 = EndianSwapValue(l1);
+            l2 = EndianSwapValue(l2);
+        }
 
         if (l1 != l2) {
             return (l1 < l2) ? -1 : 1;
-- 
2.43.0


From fc246398778bb8816e9cf540219ac3a31c190b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:05:15 +0000
Subject: [PATCH 11/33] fix: keep BinaryString::Substring inside the string for
 truncated characters

The last character of malformed text may announce more bytes than the string
has; the substring then contained bytes from beyond the string.
---
 src/paimon/common/data/binary_string.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/paimon/common/data/binary_string.cpp b/src/paimon/common/data/binary_string.cpp
index aed44e4..3ba70ec 100644
--- a/src/paimon/common/data/binary_string.cpp
+++ b/src/paimon/common/data/binary_string.cpp
@@ -246,6 +246,8 @@ BinaryString BinaryString::SubStringMultiSegs(const int32_t start, const int32_t
         c += 1;
     }
 
+    // a truncated last character must not reach beyond the string
+    i = std::min(i, size_in_bytes_);
     if (i > j) {
         std::shared_ptr<Bytes> bytes =
             MemorySegmentUtils::CopyToBytes(segments_, offset_ + j, i - j, pool);
@@ -275,6 +277,8 @@ BinaryString BinaryString::Substring(int32_t begin_index, int32_t end_index,
             c += 1;
         }
 
+        // a truncated last character must not reach beyond the string
+        i = std::min(i, size_in_bytes_);
         if (i > j) {
             std::shared_ptr<Bytes> bytes = Bytes::AllocateBytes(i - j, pool);
             segment.Get(offset_ + j, bytes.get(), 0, i - j);
-- 
2.43.0


From ab4603a7a06b7faf162ebd2f31a56879e256ad12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:11:59 +0000
Subject: [PATCH 12/33] fix: empty strings at the end of segmented memory have
 no characters and contain nothing

---
 src/paimon/common/data/binary_string.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/paimon/common/data/binary_string.cpp b/src/paimon/common/data/binary_string.cpp
index 3ba70ec..a154d6f 100644
--- a/src/paimon/common/data/binary_string.cpp
+++ b/src/paimon/common/data/binary_string.cpp
@@ -196,6 +196,9 @@ int32_t BinaryString::NumChars() const {
 }
 
 int32_t BinaryString::NumCharsMultiSegs() const {
+    if (size_in_bytes_ == 0) {
+        return 0;
+    }
     int32_t len = 0;
     int32_t seg_size = segments_[0].Size();
     BinaryString::SegmentAndOffset index = FirstSegmentAndOffset(seg_size);
@@ -340,6 +343,9 @@ int32_t BinaryString::IndexOf(const BinaryString& str, int32_t from_index) const
 }
 
 int32_t BinaryString::IndexOfMultiSegs(const BinaryString& str, int32_t from_index) const {
+    if (size_in_bytes_ < str.size_in_bytes_) {
+        return -1;
+    }
     // position in byte
     int32_t byte_idx = 0;
     // position is char
-- 
2.43.0


From 743e79544fa6006df73cd0e11381c0d761aa3b49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:40 +0000
Subject: [PATCH 13/33] fix: hand exceptions of asynchronous calls to the
 caller's future

---
 src/paimon/common/executor/future.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/paimon/common/executor/future.h b/src/paimon/common/executor/future.h
index 9f140fb..fe6509a 100644
--- a/src/paimon/common/executor/future.h
+++ b/src/paimon/common/executor/future.h
@@ -66,11 +66,15 @@ auto Via(Executor* executor, Func&& func) -> std::future<decltype(func())> {
 
     // Wrap the task and submit it to the executor.
     executor->Add([promise, func = std::forward<Func>(func)]() mutable {
-        if constexpr (std::is_void_v<ResultType>) {
-            func();
-            promise->set_value();
-        } else {
-            promise->set_value(func());
+        try {
+            if constexpr (std::is_void_v<ResultType>) {
+                func();
+                promise->set_value();
+            } else {
+                promise->set_value(func());
+            }
+        } catch (...) {
+            promise->set_exception(std::current_exception());
         }
     });
 
-- 
2.43.0


From e0967f3a73aaf847d2f1fc672853458c1cb73a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:40 +0000
Subject: [PATCH 14/33] fix: merge metrics in one step

---
 src/paimon/common/metrics/metrics_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paimon/common/metrics/metrics_impl.cpp b/src/paimon/common/metrics/metrics_impl.cpp
index e445507..feb33b0 100644
--- a/src/paimon/common/metrics/metrics_impl.cpp
+++ b/src/paimon/common/metrics/metrics_impl.cpp
@@ -49,8 +49,8 @@ std::map<std::string, uint64_t> MetricsImpl::GetAllCounters() const {
 void MetricsImpl::Merge(const std::shared_ptr<Metrics>& other) {
     if (other && this != other.get()) {
         std::map<std::string, uint64_t> other_counters = other->GetAllCounters();
+        std::lock_guard<std::mutex> guard(counter_lock_);
         for (const auto& kv : other_counters) {
-            std::lock_guard<std::mutex> guard(counter_lock_);
             auto iter = counters_.find(kv.first);
             if (iter == counters_.end()) {
                 counters_[kv.first] = kv.second;
-- 
2.43.0


From 4b52131ad63187856efb52861e5af06c71a3f811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:40 +0000
Subject: [PATCH 15/33] fix: erasing a map entry by a reference to its own key

---
 src/paimon/common/utils/linked_hash_map.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/paimon/common/utils/linked_hash_map.h b/src/paimon/common/utils/linked_hash_map.h
index 28300cc..235e77e 100644
--- a/src/paimon/common/utils/linked_hash_map.h
+++ b/src/paimon/common/utils/linked_hash_map.h
@@ -70,12 +70,14 @@ class LinkedHashMap {
     }
 
     IteratorType erase(const K& key) {
-        if (!map_.count(key)) {
+        auto map_iter = map_.find(key);
+        if (map_iter == map_.end()) {
             return order_.end();
         }
-        auto iter = order_.erase(map_[key]);
-        map_.erase(key);
-        return iter;
+        // `key` may refer to the erased element
+        auto iter = map_iter->second;
+        map_.erase(map_iter);
+        return order_.erase(iter);
     }
 
     IteratorType insert(const K& key, const V& value) {
-- 
2.43.0


From 662e0dcf12ec2c54d32421d56cb848a4c26d2244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:18:40 +0000
Subject: [PATCH 16/33] fix: track the peak of the memory pool atomically and
 refuse a failed reallocation

---
 src/paimon/common/memory/memory_pool.cpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/paimon/common/memory/memory_pool.cpp b/src/paimon/common/memory/memory_pool.cpp
index a0f3573..2bed1bf 100644
--- a/src/paimon/common/memory/memory_pool.cpp
+++ b/src/paimon/common/memory/memory_pool.cpp
@@ -39,10 +39,19 @@ class MemoryPoolImpl : public MemoryPool {
     }
 
  protected:
+    void UpdateUsage(int64_t delta);
+
     std::atomic<int64_t> total_allocated_size = {0};
     std::atomic<int64_t> max_allocated = {0};
 };
 
+void MemoryPoolImpl::UpdateUsage(int64_t delta) {
+    int64_t usage = total_allocated_size.fetch_add(delta) + delta;
+    int64_t max_usage = max_allocated.load();
+    while (usage > max_usage && !max_allocated.compare_exchange_weak(max_usage, usage)) {
+    }
+}
+
 void* MemoryPoolImpl::Malloc(uint64_t size, uint64_t alignment) {
     void* memptr = nullptr;
 #define DEFAULT_ALIGNMENT 64
@@ -50,16 +59,17 @@ void* MemoryPoolImpl::Malloc(uint64_t size, uint64_t alignment) {
                        alignment == 0 ? DEFAULT_ALIGNMENT : alignment, size) != 0) {
         throw std::bad_alloc();
     }
-    total_allocated_size.fetch_add(size);
-    max_allocated.store(std::max(total_allocated_size.load(), max_allocated.load()));
+    UpdateUsage(size);
     return memptr;
 }
 
 void* MemoryPoolImpl::Realloc(void* p, size_t old_size, size_t new_size, size_t alignment) {
     if (alignment == 0) {
         void* memptr = ::realloc(p, new_size);
-        total_allocated_size.fetch_add(new_size - old_size);
-        max_allocated.store(std::max(total_allocated_size.load(), max_allocated.load()));
+        if (memptr == nullptr && new_size != 0) {
+            throw std::bad_alloc();
+        }
+        UpdateUsage(static_cast<int64_t>(new_size) - static_cast<int64_t>(old_size));
         return memptr;
     } else {
         if (p == nullptr) {
@@ -70,8 +80,7 @@ void* MemoryPoolImpl::Realloc(void* p, size_t old_size, size_t new_size, size_t
             Free(p, old_size);
             return Malloc(0, alignment);
         } else if (new_size < old_size && old_size / 2 < new_size) {
-            total_allocated_size.fetch_add(new_size - old_size);
-            max_allocated.store(std::max(total_allocated_size.load(), max_allocated.load()));
+            UpdateUsage(static_cast<int64_t>(new_size) - static_cast<int64_t>(old_size));
             // do not shrink to fit, when new size is not very small, to avoid memory copy
             return p;
         } else {
-- 
2.43.0


From 945f94174265a7e0a18971d0f964f8748b3d0e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:41 +0000
Subject: [PATCH 17/33] fix: do not trust a latest hint that names a missing
 snapshot

---
 src/paimon/core/utils/snapshot_manager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/paimon/core/utils/snapshot_manager.cpp b/src/paimon/core/utils/snapshot_manager.cpp
index fc5e2cc..b6f0671 100644
--- a/src/paimon/core/utils/snapshot_manager.cpp
+++ b/src/paimon/core/utils/snapshot_manager.cpp
@@ -142,7 +142,11 @@ Result<std::optional<int64_t>> SnapshotManager::FindLatest(
         std::string path = path_func(next_snapshot);
         PAIMON_ASSIGN_OR_RAISE(bool is_exist, fs_->Exists(path));
         if (!is_exist) {
-            return snapshot_id;
+            // the hint may name a snapshot that is gone or never existed
+            PAIMON_ASSIGN_OR_RAISE(bool hinted_exist, fs_->Exists(path_func(snapshot_id.value())));
+            if (hinted_exist) {
+                return snapshot_id;
+            }
         }
     }
     return FindByListFiles([](int64_t lhs, int64_t rhs) -> int64_t { return std::max(lhs, rhs); },
-- 
2.43.0


From d2da6f500d84731885a67be691d4927e562fd212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:41 +0000
Subject: [PATCH 18/33] fix: keep row ids of an unsuccessful attempt out of the
 commit message

---
 src/paimon/core/manifest/manifest_entry.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/paimon/core/manifest/manifest_entry.h b/src/paimon/core/manifest/manifest_entry.h
index b645904..8308495 100644
--- a/src/paimon/core/manifest/manifest_entry.h
+++ b/src/paimon/core/manifest/manifest_entry.h
@@ -140,10 +140,13 @@ class ManifestEntry : public FileEntry {
     }
 
     void AssignSequenceNumber(int64_t min_sequence_number, int64_t max_sequence_number) {
+        // the meta is shared with the commit message, which may have to be committed again
+        file_ = std::make_shared<DataFileMeta>(*file_);
         file_->AssignSequenceNumber(min_sequence_number, max_sequence_number);
     }
 
     void AssignFirstRowId(int64_t first_row_id) {
+        file_ = std::make_shared<DataFileMeta>(*file_);
         file_->AssignFirstRowId(first_row_id);
     }
 
-- 
2.43.0


From e0d8f3b8a7aa918451789f8d3a80e8118e2595ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:41 +0000
Subject: [PATCH 19/33] fix: report a recreated empty table to a streaming scan
 as an error

---
 src/paimon/core/table/source/data_table_stream_scan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paimon/core/table/source/data_table_stream_scan.cpp b/src/paimon/core/table/source/data_table_stream_scan.cpp
index 3d893f3..14a0212 100644
--- a/src/paimon/core/table/source/data_table_stream_scan.cpp
+++ b/src/paimon/core/table/source/data_table_stream_scan.cpp
@@ -106,7 +106,7 @@ Result<std::optional<Snapshot>> DataTableStreamScan::GetNextSnapshot(
             return Status::Invalid(fmt::format(
                 "The next expected snapshot is too big! Most possible cause might be the table had "
                 "been recreated. The next snapshot id is {}, while the latest snapshot id is {}",
-                next_snapshot_id, latest.value()));
+                next_snapshot_id, latest.value_or(0)));
         }
         return std::optional<Snapshot>();
     }
-- 
2.43.0


From 4cec5dcaaa3d07b6779dfc737c9bebeb16986299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:41 +0000
Subject: [PATCH 20/33] fix: let orphan cleaning use the options stored with
 the table

---
 src/paimon/core/operation/orphan_files_cleaner.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paimon/core/operation/orphan_files_cleaner.cpp b/src/paimon/core/operation/orphan_files_cleaner.cpp
index fd9d849..e2e23e0 100644
--- a/src/paimon/core/operation/orphan_files_cleaner.cpp
+++ b/src/paimon/core/operation/orphan_files_cleaner.cpp
@@ -164,7 +164,7 @@ Result<std::unique_ptr<OrphanFilesCleaner>> OrphanFilesCleaner::Create(
     for (const auto& [key, value] : ctx->GetOptions()) {
         opts[key] = value;
     }
-    PAIMON_ASSIGN_OR_RAISE(CoreOptions options, CoreOptions::FromMap(ctx->GetOptions()));
+    PAIMON_ASSIGN_OR_RAISE(CoreOptions options, CoreOptions::FromMap(opts));
     auto arrow_schema = DataField::ConvertDataFieldsToArrowSchema(schema->Fields());
     PAIMON_ASSIGN_OR_RAISE(std::vector<std::string> external_paths, options.CreateExternalPaths());
     PAIMON_ASSIGN_OR_RAISE(
-- 
2.43.0


From 1781dfd390afef6a7929b7101b78a84784a67777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:33:41 +0000
Subject: [PATCH 21/33] fix: wait for the listing tasks when orphan cleaning
 fails early

---
 src/paimon/core/operation/orphan_files_cleaner_impl.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/paimon/core/operation/orphan_files_cleaner_impl.cpp b/src/paimon/core/operation/orphan_files_cleaner_impl.cpp
index 7473472..e9eacbb 100644
--- a/src/paimon/core/operation/orphan_files_cleaner_impl.cpp
+++ b/src/paimon/core/operation/orphan_files_cleaner_impl.cpp
@@ -92,6 +92,14 @@ Result<std::set<std::string>> OrphanFilesCleanerImpl::Clean() {
     }
     PAIMON_ASSIGN_OR_RAISE(std::set<std::string> all_dirs, ListPaimonFileDirs());
     std::vector<std::future<std::vector<std::unique_ptr<FileStatus>>>> file_statuses_futures;
+    // the listing tasks use this cleaner: do not return before they are done
+    ScopeGuard listing_guard([&file_statuses_futures]() {
+        for (const auto& future : file_statuses_futures) {
+            if (future.valid()) {
+                future.wait();
+            }
+        }
+    });
     for (const auto& dir : all_dirs) {
         file_statuses_futures.push_back(
             Via(executor_.get(), [this, dir] { return TryBestListingDirs(dir); }));
-- 
2.43.0


From 4972badf3e442e838d6896da8c56059a427dd7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:57 +0000
Subject: [PATCH 22/33] fix: LocalFileSystem::Rename never replaces the
 destination and accepts paths with a scheme

The destination was looked up first and renamed over afterwards, so two
processes publishing the same name could both succeed and one result was lost.
The paths were also passed on with their scheme.
---
 src/paimon/fs/local/local_file_system.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/paimon/fs/local/local_file_system.cpp b/src/paimon/fs/local/local_file_system.cpp
index 07a3fe3..f03a79b 100644
--- a/src/paimon/fs/local/local_file_system.cpp
+++ b/src/paimon/fs/local/local_file_system.cpp
@@ -224,8 +224,19 @@ Status LocalFileSystem::Rename(const std::string& src, const std::string& dst) c
     PAIMON_ASSIGN_OR_RAISE(LocalFile dst_file, ToFile(dst));
     auto parent = dst_file.GetParentFile();
     PAIMON_RETURN_NOT_OK(Mkdirs(parent.GetAbsolutePath()));
-    if (::rename(src.c_str(), dst.c_str()) != 0) {
+    // the destination may have appeared since it was looked for, it must not be replaced
+    const char* src_path = src_file.GetAbsolutePath().c_str();
+    const char* dst_path = dst_file.GetAbsolutePath().c_str();
+    int32_t ret = ::renameat2(AT_FDCWD, src_path, AT_FDCWD, dst_path, RENAME_NOREPLACE);
+    if (ret != 0 && (errno == EINVAL || errno == ENOSYS)) {
+        // not supported by the underlying file system
+        ret = ::rename(src_path, dst_path);
+    }
+    if (ret != 0) {
         int32_t cur_errno = errno;
+        if (cur_errno == EEXIST) {
+            return Status::Invalid(err_msg, "dst file already exist");
+        }
         return Status::IOError(err_msg, std::strerror(cur_errno));
     }
     return Status::OK();
-- 
2.43.0


From d238c67babcb76f25ecf827ad9f19cf4e670b729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:38:58 +0000
Subject: [PATCH 23/33] fix: report failures to close a file in
 FileSystem::WriteFile

The status of closing the stream was dropped, although a stream may only
become durable when it is closed.
---
 src/paimon/common/fs/file_system.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/paimon/common/fs/file_system.cpp b/src/paimon/common/fs/file_system.cpp
index 262973e..6bc9934 100644
--- a/src/paimon/common/fs/file_system.cpp
+++ b/src/paimon/common/fs/file_system.cpp
@@ -76,6 +76,8 @@ Status FileSystem::WriteFile(const std::string& path, const std::string& content
                                                path, length, write_length));
         }
         PAIMON_RETURN_NOT_OK(out->Flush());
+        guard.Release();
+        PAIMON_RETURN_NOT_OK(out->Close());
     }
     return Status::OK();
 }
-- 
2.43.0


From 7afcf72fd710485b03a0f058d1b3bde3f0f24a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:56 +0000
Subject: [PATCH 24/33] fix: keep keys ascending in files of tables with a
 descending sequence order

The writer of a primary-key table used the sort order of the sequence
field for the key as well. With a descending sequence field the batches
of a flush were then merged in the wrong key order, and files were not
sorted by key.
---
 src/paimon/core/operation/file_store_write.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paimon/core/operation/file_store_write.cpp b/src/paimon/core/operation/file_store_write.cpp
index ac21d0c..7907a32 100644
--- a/src/paimon/core/operation/file_store_write.cpp
+++ b/src/paimon/core/operation/file_store_write.cpp
@@ -144,7 +144,7 @@ Result<std::unique_ptr<FileStoreWrite>> FileStoreWrite::Create(std::unique_ptr<W
                                schema->GetFields(trimmed_primary_keys));
         PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<FieldsComparator> key_comparator,
                                FieldsComparator::Create(trimmed_primary_key_fields,
-                                                        options.SequenceFieldSortOrderIsAscending(),
+                                                        /*is_ascending_order=*/true,
                                                         /*use_view=*/true));
         auto primary_keys = schema->PrimaryKeys();
         PAIMON_ASSIGN_OR_RAISE(
-- 
2.43.0


From 842d989afd87c365ceb8ce21d80183a0eabeec62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:57 +0000
Subject: [PATCH 25/33] fix: merge the records of a batch in descending
 sequence order when configured

The records of one written batch were always sorted by ascending sequence
field, so with sequence.field.sort-order=descending the wrong record of a
key was kept.
---
 src/paimon/core/io/key_value_in_memory_record_reader.cpp | 7 +++++--
 src/paimon/core/io/key_value_in_memory_record_reader.h   | 3 ++-
 src/paimon/core/mergetree/merge_tree_writer.cpp          | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/paimon/core/io/key_value_in_memory_record_reader.cpp b/src/paimon/core/io/key_value_in_memory_record_reader.cpp
index 1297fed..2377b99 100644
--- a/src/paimon/core/io/key_value_in_memory_record_reader.cpp
+++ b/src/paimon/core/io/key_value_in_memory_record_reader.cpp
@@ -75,10 +75,11 @@ KeyValueInMemoryRecordReader::KeyValueInMemoryRecordReader(
     const std::vector<std::string>& user_defined_sequence_fields,
     const std::shared_ptr<FieldsComparator>& key_comparator,
     const std::shared_ptr<MergeFunctionWrapper<KeyValue>>& merge_function_wrapper,
-    const std::shared_ptr<MemoryPool>& pool)
+    const std::shared_ptr<MemoryPool>& pool, bool sequence_fields_ascending)
     : last_sequence_num_(last_sequence_num),
       primary_keys_(primary_keys),
       user_defined_sequence_fields_(user_defined_sequence_fields),
+      sequence_fields_ascending_(sequence_fields_ascending),
       pool_(pool),
       value_struct_array_(std::move(struct_array)),
       row_kinds_(std::move(row_kinds)),
@@ -125,7 +126,9 @@ KeyValueInMemoryRecordReader::SortBatch() const {
         sort_keys.emplace_back(name, arrow::compute::SortOrder::Ascending);
     }
     for (const auto& name : user_defined_sequence_fields_) {
-        sort_keys.emplace_back(name, arrow::compute::SortOrder::Ascending);
+        sort_keys.emplace_back(name, sequence_fields_ascending_
+                                         ? arrow::compute::SortOrder::Ascending
+                                         : arrow::compute::SortOrder::Descending);
     }
     auto sort_options =
         arrow::compute::SortOptions(sort_keys, arrow::compute::NullPlacement::AtStart);
diff --git a/src/paimon/core/io/key_value_in_memory_record_reader.h b/src/paimon/core/io/key_value_in_memory_record_reader.h
index ec6f7b0..295be3f 100644
--- a/src/paimon/core/io/key_value_in_memory_record_reader.h
+++ b/src/paimon/core/io/key_value_in_memory_record_reader.h
@@ -51,7 +51,7 @@ class KeyValueInMemoryRecordReader : public KeyValueRecordReader {
         const std::vector<std::string>& user_defined_sequence_fields,
         const std::shared_ptr<FieldsComparator>& key_comparator,
         const std::shared_ptr<MergeFunctionWrapper<KeyValue>>& merge_function_wrapper,
-        const std::shared_ptr<MemoryPool>& pool);
+        const std::shared_ptr<MemoryPool>& pool, bool sequence_fields_ascending = true);
 
     class Iterator : public KeyValueRecordReader::Iterator {
      public:
@@ -82,6 +82,7 @@ class KeyValueInMemoryRecordReader : public KeyValueRecordReader {
     int64_t last_sequence_num_ = -1;
     std::vector<std::string> primary_keys_;
     std::vector<std::string> user_defined_sequence_fields_;
+    bool sequence_fields_ascending_ = true;
     std::shared_ptr<MemoryPool> pool_;
     std::shared_ptr<arrow::StructArray> value_struct_array_;
     std::vector<RecordBatch::RowKind> row_kinds_;
diff --git a/src/paimon/core/mergetree/merge_tree_writer.cpp b/src/paimon/core/mergetree/merge_tree_writer.cpp
index db9216f..8d89d05 100644
--- a/src/paimon/core/mergetree/merge_tree_writer.cpp
+++ b/src/paimon/core/mergetree/merge_tree_writer.cpp
@@ -131,7 +131,7 @@ Status MergeTreeWriter::Flush() {
         auto in_memory_reader = std::make_unique<KeyValueInMemoryRecordReader>(
             sequence_number, std::move(batch_vec_[i]), std::move(row_kinds_vec_[i]),
             trimmed_primary_keys_, options_.GetSequenceField(), key_comparator_,
-            merge_function_wrapper_, pool_);
+            merge_function_wrapper_, pool_, options_.SequenceFieldSortOrderIsAscending());
         readers.push_back(std::move(in_memory_reader));
     }
     batch_vec_.clear();
-- 
2.43.0


From 4ac16dccca8b8d58ef7d6015d0a7921c619febb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:53:57 +0000
Subject: [PATCH 26/33] fix: write a batch whose only records of a key are
 ignored deletes

With ignore-delete, two deletes of one key in a batch have no merge
result, which the reader of the batch neither expected nor checked.
---
 .../io/key_value_in_memory_record_reader.cpp  | 35 +++++++++++--------
 .../io/key_value_in_memory_record_reader.h    |  2 ++
 2 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/paimon/core/io/key_value_in_memory_record_reader.cpp b/src/paimon/core/io/key_value_in_memory_record_reader.cpp
index 2377b99..7c72c0e 100644
--- a/src/paimon/core/io/key_value_in_memory_record_reader.cpp
+++ b/src/paimon/core/io/key_value_in_memory_record_reader.cpp
@@ -38,23 +38,27 @@
 namespace paimon {
 class MemoryPool;
 
+Result<KeyValue> KeyValueInMemoryRecordReader::Iterator::ReadAt(int64_t cursor) const {
+    uint64_t index = reader_->sort_indices_->Value(cursor);
+    const RowKind* row_kind = RowKind::Insert();
+    if (!reader_->row_kinds_.empty()) {
+        PAIMON_ASSIGN_OR_RAISE(
+            row_kind, RowKind::FromByteValue(static_cast<int8_t>(reader_->row_kinds_[index])));
+    }
+    // key must hold value_struct_array as min/max key may be used after projection
+    auto key = std::make_unique<ColumnarRow>(reader_->value_struct_array_, reader_->key_fields_,
+                                             reader_->pool_, index);
+    auto value = std::make_unique<ColumnarRow>(reader_->value_struct_array_, reader_->value_fields_,
+                                               reader_->pool_, index);
+    return KeyValue(row_kind, reader_->last_sequence_num_ + index,
+                    /*level=*/KeyValue::UNKNOWN_LEVEL, std::move(key), std::move(value));
+}
+
 Result<KeyValue> KeyValueInMemoryRecordReader::Iterator::Next() {
     reader_->merge_function_wrapper_->Reset();
     std::shared_ptr<InternalRow> current_key;
     while (cursor_ < reader_->value_struct_array_->length()) {
-        uint64_t index = reader_->sort_indices_->Value(cursor_);
-        const RowKind* row_kind = RowKind::Insert();
-        if (!reader_->row_kinds_.empty()) {
-            PAIMON_ASSIGN_OR_RAISE(
-                row_kind, RowKind::FromByteValue(static_cast<int8_t>(reader_->row_kinds_[index])));
-        }
-        // key must hold value_struct_array as min/max key may be used after projection
-        auto key = std::make_unique<ColumnarRow>(reader_->value_struct_array_, reader_->key_fields_,
-                                                 reader_->pool_, index);
-        auto value = std::make_unique<ColumnarRow>(reader_->value_struct_array_,
-                                                   reader_->value_fields_, reader_->pool_, index);
-        KeyValue kv(row_kind, reader_->last_sequence_num_ + index,
-                    /*level=*/KeyValue::UNKNOWN_LEVEL, std::move(key), std::move(value));
+        PAIMON_ASSIGN_OR_RAISE(KeyValue kv, ReadAt(cursor_));
         if (current_key == nullptr) {
             current_key = kv.key;
         } else if (reader_->key_comparator_->CompareTo(*current_key, *kv.key) != 0) {
@@ -65,7 +69,10 @@ Result<KeyValue> KeyValueInMemoryRecordReader::Iterator::Next() {
     }
     PAIMON_ASSIGN_OR_RAISE(std::optional<KeyValue> result,
                            reader_->merge_function_wrapper_->GetResult());
-    assert(result != std::nullopt);
+    if (result == std::nullopt) {
+        // all records of the key are ignored by the merge, as the last one will be later
+        return ReadAt(cursor_ - 1);
+    }
     return std::move(result).value();
 }
 
diff --git a/src/paimon/core/io/key_value_in_memory_record_reader.h b/src/paimon/core/io/key_value_in_memory_record_reader.h
index 295be3f..de978a4 100644
--- a/src/paimon/core/io/key_value_in_memory_record_reader.h
+++ b/src/paimon/core/io/key_value_in_memory_record_reader.h
@@ -62,6 +62,8 @@ class KeyValueInMemoryRecordReader : public KeyValueRecordReader {
         Result<KeyValue> Next() override;
 
      private:
+        Result<KeyValue> ReadAt(int64_t cursor) const;
+
         int64_t cursor_ = 0;
         KeyValueInMemoryRecordReader* reader_ = nullptr;
     };
-- 
2.43.0


From 7bf29b926eb2c697d3b3cda778c583725a4ddf7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:06:11 +0000
Subject: [PATCH 27/33] fix: keep key and sequence number of removed and
 retracted records in partial update

The merge result of a removed record, or of records that are all
retractions, had null key columns and the sequence number of an earlier
merge. Written to a file it lost its key, so the removed record came back.
A merge whose records are all ignored gave a row of nulls instead of no
result, and an ignored record after a delete undid the delete.
---
 .../compact/partial_update_merge_function.cpp | 35 +++++++++++++++++--
 .../compact/partial_update_merge_function.h   | 16 ++++++++-
 2 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp b/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
index 70f9439..d36d5e7 100644
--- a/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
+++ b/src/paimon/core/mergetree/compact/partial_update_merge_function.cpp
@@ -39,7 +39,7 @@
 namespace paimon {
 PartialUpdateMergeFunction::PartialUpdateMergeFunction(
     bool ignore_delete, bool remove_record_on_delete, bool field_sequence_enabled,
-    std::vector<InternalRow::FieldGetterFunc>&& getters,
+    std::vector<InternalRow::FieldGetterFunc>&& getters, std::vector<int32_t>&& key_fields,
     std::map<int32_t, std::shared_ptr<FieldsComparator>>&& field_comparators,
     std::map<int32_t, std::shared_ptr<FieldAggregator>>&& field_aggregators,
     std::set<int32_t>&& sequence_group_partial_delete)
@@ -47,6 +47,7 @@ PartialUpdateMergeFunction::PartialUpdateMergeFunction(
       remove_record_on_delete_(remove_record_on_delete),
       field_sequence_enabled_(field_sequence_enabled),
       getters_(std::move(getters)),
+      key_fields_(std::move(key_fields)),
       field_comparators_(std::move(field_comparators)),
       field_aggregators_(std::move(field_aggregators)),
       sequence_group_partial_delete_(std::move(sequence_group_partial_delete)) {}
@@ -168,10 +169,17 @@ Result<std::unique_ptr<PartialUpdateMergeFunction>> PartialUpdateMergeFunction::
     // 4. create data getters
     PAIMON_ASSIGN_OR_RAISE(std::vector<InternalRow::FieldGetterFunc> getters,
                            InternalRowUtils::CreateFieldGetters(value_schema, /*use_view=*/true));
+    std::vector<int32_t> key_fields;
+    for (const auto& primary_key : primary_keys) {
+        auto field_idx = value_schema->GetFieldIndex(primary_key);
+        if (field_idx != -1) {
+            key_fields.push_back(field_idx);
+        }
+    }
     return std::unique_ptr<PartialUpdateMergeFunction>(new PartialUpdateMergeFunction(
         ignore_delete, remove_record_on_delete,
         /*field_sequence_enabled=*/!value_field_to_seq_group_field.empty(), std::move(getters),
-        std::move(field_comparators), std::move(field_aggregators),
+        std::move(key_fields), std::move(field_comparators), std::move(field_aggregators),
         std::move(sequence_group_partial_delete)));
 }
 Result<std::map<int32_t, std::shared_ptr<FieldsComparator>>>
@@ -270,7 +278,6 @@ Status PartialUpdateMergeFunction::Add(KeyValue&& moved_kv) {
     // refresh key object to avoid reference overwritten
     KeyValue kv = std::move(moved_kv);
     current_key_ = kv.key;
-    current_delete_row_ = false;
 
     if (kv.value_kind->IsRetract()) {
         // In 0.7- versions, the delete records might be written into data file even when
@@ -279,6 +286,10 @@ Status PartialUpdateMergeFunction::Add(KeyValue&& moved_kv) {
             return Status::OK();
         }
         if (field_sequence_enabled_) {
+            last_seq_num_ = kv.sequence_number;
+            retract_value_ = kv.value.get();
+            has_result_ = true;
+            current_delete_row_ = false;
             PAIMON_RETURN_NOT_OK(RetractWithSequenceGroup(std::move(kv)));
             return Status::OK();
         }
@@ -286,6 +297,10 @@ Status PartialUpdateMergeFunction::Add(KeyValue&& moved_kv) {
             if (kv.value_kind == RowKind::Delete()) {
                 current_delete_row_ = true;
                 row_ = std::make_unique<GenericRow>(getters_.size());
+                last_seq_num_ = kv.sequence_number;
+                retract_value_ = kv.value.get();
+                has_result_ = true;
+                row_->AddDataHolder(std::move(kv.value));
             }
             return Status::OK();
         }
@@ -298,6 +313,8 @@ Status PartialUpdateMergeFunction::Add(KeyValue&& moved_kv) {
             "columns.");
     }
     last_seq_num_ = kv.sequence_number;
+    has_result_ = true;
+    current_delete_row_ = false;
     if (field_comparators_.empty()) {
         UpdateNonNullFields(std::move(kv));
     } else {
@@ -306,6 +323,17 @@ Status PartialUpdateMergeFunction::Add(KeyValue&& moved_kv) {
     return Status::OK();
 }
 
+void PartialUpdateMergeFunction::FillKeyFields() {
+    if (retract_value_ == nullptr) {
+        return;
+    }
+    for (int32_t i : key_fields_) {
+        if (DataDefine::IsVariantNull(getters_[i](*row_))) {
+            row_->SetField(i, getters_[i](*retract_value_));
+        }
+    }
+}
+
 void PartialUpdateMergeFunction::UpdateNonNullFields(KeyValue&& kv) {
     for (size_t i = 0; i < getters_.size(); ++i) {
         VariantType field = getters_[i](*(kv.value));
@@ -383,6 +411,7 @@ Status PartialUpdateMergeFunction::RetractWithSequenceGroup(KeyValue&& kv) {
                                     sequence_group_partial_delete_.end()) {
                                 current_delete_row_ = true;
                                 row_ = std::make_unique<GenericRow>(getters_.size());
+                                row_->AddDataHolder(std::move(kv.value));
                                 return Status::OK();
                             } else {
                                 row_->SetField(field_idx, getters_[field_idx](*(kv.value)));
diff --git a/src/paimon/core/mergetree/compact/partial_update_merge_function.h b/src/paimon/core/mergetree/compact/partial_update_merge_function.h
index fb78abe..c79810a 100644
--- a/src/paimon/core/mergetree/compact/partial_update_merge_function.h
+++ b/src/paimon/core/mergetree/compact/partial_update_merge_function.h
@@ -69,6 +69,9 @@ class PartialUpdateMergeFunction : public MergeFunction {
 
     void Reset() override {
         current_key_.reset();
+        retract_value_ = nullptr;
+        has_result_ = false;
+        current_delete_row_ = false;
         row_ = std::make_unique<GenericRow>(getters_.size());
         for (auto& [_, agg] : field_aggregators_) {
             assert(agg);
@@ -79,6 +82,10 @@ class PartialUpdateMergeFunction : public MergeFunction {
     Status Add(KeyValue&& kv) override;
 
     Result<std::optional<KeyValue>> GetResult() override {
+        if (!has_result_) {
+            return std::optional<KeyValue>();
+        }
+        FillKeyFields();
         return std::optional<KeyValue>(
             KeyValue(current_delete_row_ ? RowKind::Delete() : RowKind::Insert(), last_seq_num_,
                      KeyValue::UNKNOWN_LEVEL, std::move(current_key_), std::move(row_)));
@@ -87,7 +94,7 @@ class PartialUpdateMergeFunction : public MergeFunction {
  private:
     PartialUpdateMergeFunction(
         bool ignore_delete, bool remove_record_on_delete, bool field_sequence_enabled,
-        std::vector<InternalRow::FieldGetterFunc>&& getters,
+        std::vector<InternalRow::FieldGetterFunc>&& getters, std::vector<int32_t>&& key_fields,
         std::map<int32_t, std::shared_ptr<FieldsComparator>>&& field_comparators,
         std::map<int32_t, std::shared_ptr<FieldAggregator>>&& field_aggregators,
         std::set<int32_t>&& sequence_group_partial_delete);
@@ -105,6 +112,9 @@ class PartialUpdateMergeFunction : public MergeFunction {
     bool IsEmptySequenceGroup(const KeyValue& kv,
                               const std::shared_ptr<FieldsComparator>& comparator) const;
 
+    // a record that was removed or only retracted still needs its key
+    void FillKeyFields();
+
     void UpdateNonNullFields(KeyValue&& kv);
 
     void UpdateWithSequenceGroup(KeyValue&& kv);
@@ -116,12 +126,16 @@ class PartialUpdateMergeFunction : public MergeFunction {
     bool remove_record_on_delete_;
     bool field_sequence_enabled_;
     std::vector<InternalRow::FieldGetterFunc> getters_;
+    std::vector<int32_t> key_fields_;
     std::map<int32_t, std::shared_ptr<FieldsComparator>> field_comparators_;
     std::map<int32_t, std::shared_ptr<FieldAggregator>> field_aggregators_;
     std::set<int32_t> sequence_group_partial_delete_;
 
     std::shared_ptr<InternalRow> current_key_;
     std::unique_ptr<GenericRow> row_;
+    // value of the last retract record, owned by row_
+    const InternalRow* retract_value_ = nullptr;
+    bool has_result_ = false;
     int64_t last_seq_num_ = KeyValue::UNKNOWN_SEQUENCE;
     bool current_delete_row_ = false;
 };
-- 
2.43.0


From 404eb4035b47bf64f1f3402f36fa128e7f261f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:26:06 +0000
Subject: [PATCH 28/33] fix: forget records of the merge function when a
 merging reader ends

A failed merge, or one that ignored its first record, left records in the
merge function, which lives longer than the reader. They were then freed
after the memory pool of the reader they came from.
---
 .../mergetree/compact/sort_merge_reader_with_loser_tree.h    | 5 +++++
 .../core/mergetree/compact/sort_merge_reader_with_min_heap.h | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/paimon/core/mergetree/compact/sort_merge_reader_with_loser_tree.h b/src/paimon/core/mergetree/compact/sort_merge_reader_with_loser_tree.h
index 46eda58..af2c7f3 100644
--- a/src/paimon/core/mergetree/compact/sort_merge_reader_with_loser_tree.h
+++ b/src/paimon/core/mergetree/compact/sort_merge_reader_with_loser_tree.h
@@ -46,6 +46,11 @@ class SortMergeReaderWithLoserTree : public SortMergeReader {
         const std::shared_ptr<FieldsComparator>& user_defined_seq_comparator,
         const std::shared_ptr<MergeFunctionWrapper<KeyValue>>& merge_function_wrapper);
 
+    ~SortMergeReaderWithLoserTree() override {
+        // records left by a failed or ignored merge must not outlive the readers
+        merge_function_wrapper_->Reset();
+    }
+
     std::shared_ptr<Metrics> GetReaderMetrics() const override {
         return loser_tree_->GetReaderMetrics();
     }
diff --git a/src/paimon/core/mergetree/compact/sort_merge_reader_with_min_heap.h b/src/paimon/core/mergetree/compact/sort_merge_reader_with_min_heap.h
index be13c42..fe8da92 100644
--- a/src/paimon/core/mergetree/compact/sort_merge_reader_with_min_heap.h
+++ b/src/paimon/core/mergetree/compact/sort_merge_reader_with_min_heap.h
@@ -48,6 +48,11 @@ class SortMergeReaderWithMinHeap : public SortMergeReader {
         const std::shared_ptr<FieldsComparator>& user_defined_seq_comparator,
         const std::shared_ptr<MergeFunctionWrapper<KeyValue>>& merge_function_wrapper);
 
+    ~SortMergeReaderWithMinHeap() override {
+        // records left by a failed or ignored merge must not outlive the readers
+        merge_function_wrapper_->Reset();
+    }
+
     class Iterator : public SortMergeReader::Iterator {
      public:
         explicit Iterator(SortMergeReaderWithMinHeap* reader) : reader_(reader) {}
-- 
2.43.0


From 7028c6be6b3487b9e5e3f82f294d835259ce516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:19 +0000
Subject: [PATCH 29/33] fix: rename columns of a batch when only their names
 changed

Files written before a column was renamed were returned with the old
column name when no other column of the projection moved or changed its
type.
---
 src/paimon/core/io/field_mapping_reader.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/paimon/core/io/field_mapping_reader.cpp b/src/paimon/core/io/field_mapping_reader.cpp
index 427e774..a349a47 100644
--- a/src/paimon/core/io/field_mapping_reader.cpp
+++ b/src/paimon/core/io/field_mapping_reader.cpp
@@ -58,7 +58,9 @@ FieldMappingReader::FieldMappingReader(int32_t field_count, std::unique_ptr<Batc
 
     for (int32_t i = 0;
          i < static_cast<int32_t>(non_partition_info_.idx_in_target_read_schema.size()); i++) {
-        if (i != non_partition_info_.idx_in_target_read_schema[i]) {
+        if (i != non_partition_info_.idx_in_target_read_schema[i] ||
+            non_partition_info_.non_partition_read_schema[i].Name() !=
+                non_partition_info_.non_partition_data_schema[i].Name()) {
             need_mapping_ = true;
         }
         if (non_partition_info_.cast_executors[i] != nullptr) {
-- 
2.43.0


From 158cba14a8f66ddaea92fe642047f73bf1359bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:11:20 +0000
Subject: [PATCH 30/33] fix: test key statistics with the schema of the keys

The key filter of primary-key tables addresses the trimmed primary keys,
but it was evaluated with the schema of the table. Keys of type decimal or
timestamp were read with the type of another column or refused.
---
 src/paimon/core/operation/key_value_file_store_scan.cpp | 9 ++++++++-
 src/paimon/core/operation/key_value_file_store_scan.h   | 2 ++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/paimon/core/operation/key_value_file_store_scan.cpp b/src/paimon/core/operation/key_value_file_store_scan.cpp
index 08b0c0b..bfaa36b 100644
--- a/src/paimon/core/operation/key_value_file_store_scan.cpp
+++ b/src/paimon/core/operation/key_value_file_store_scan.cpp
@@ -22,6 +22,7 @@
 #include <set>
 #include <utility>
 
+#include "arrow/type.h"
 #include "paimon/common/data/binary_array.h"
 #include "paimon/common/data/binary_row.h"
 #include "paimon/common/predicate/predicate_filter.h"
@@ -77,7 +78,7 @@ Result<bool> KeyValueFileStoreScan::FilterByStats(const ManifestEntry& entry) co
 
     if (key_filter_ != nullptr) {
         const auto& stats = entry.File()->key_stats;
-        return key_filter_->Test(schema_, entry.File()->row_count, stats.MinValues(),
+        return key_filter_->Test(key_schema_, entry.File()->row_count, stats.MinValues(),
                                  stats.MaxValues(), stats.NullCounts());
     }
     return true;
@@ -111,6 +112,12 @@ Status KeyValueFileStoreScan::SplitAndSetKeyValueFilter(
         if (!key_filter) {
             return Status::Invalid("invalid key predicate, cannot cast to PredicateFilter");
         }
+        arrow::FieldVector key_fields;
+        key_fields.reserve(trimmed_pk.size());
+        for (const auto& key : trimmed_pk) {
+            key_fields.push_back(schema_->GetFieldByName(key));
+        }
+        key_schema_ = arrow::schema(std::move(key_fields));
         WithKeyFilter(key_filter);
     }
     // support value filter in bucket level
diff --git a/src/paimon/core/operation/key_value_file_store_scan.h b/src/paimon/core/operation/key_value_file_store_scan.h
index 44f1db1..f8d2642 100644
--- a/src/paimon/core/operation/key_value_file_store_scan.h
+++ b/src/paimon/core/operation/key_value_file_store_scan.h
@@ -112,6 +112,8 @@ class KeyValueFileStoreScan : public FileStoreScan {
  private:
     bool value_filter_force_enabled_ = false;
     std::shared_ptr<PredicateFilter> key_filter_;
+    // schema of the trimmed primary keys, matches the field indexes of key_filter_
+    std::shared_ptr<arrow::Schema> key_schema_;
     std::shared_ptr<PredicateFilter> value_filter_;
 };
 }  // namespace paimon
-- 
2.43.0


From a5033cd7825c5ea36703d14a8323e798e22776a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:35:27 +0000
Subject: [PATCH 31/33] fix: guard the schema cache of SchemaManager against
 parallel scan tasks

---
 src/paimon/core/schema/schema_manager.cpp | 10 +++++++---
 src/paimon/core/schema/schema_manager.h   |  3 +++
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/paimon/core/schema/schema_manager.cpp b/src/paimon/core/schema/schema_manager.cpp
index 94ed36a..9cc4b74 100644
--- a/src/paimon/core/schema/schema_manager.cpp
+++ b/src/paimon/core/schema/schema_manager.cpp
@@ -66,15 +66,19 @@ Result<std::optional<std::shared_ptr<TableSchema>>> SchemaManager::Latest() cons
 }
 
 Result<std::shared_ptr<TableSchema>> SchemaManager::ReadSchema(int64_t schema_id) const {
-    auto iter = schema_cache_.find(schema_id);
-    if (iter != schema_cache_.end()) {
-        return iter->second;
+    {
+        std::lock_guard<std::mutex> lock(schema_cache_mutex_);
+        auto iter = schema_cache_.find(schema_id);
+        if (iter != schema_cache_.end()) {
+            return iter->second;
+        }
     }
     auto path = ToSchemaPath(schema_id);
     std::string content;
     PAIMON_RETURN_NOT_OK(file_system_->ReadFile(path, &content));
     PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<TableSchema> schema,
                            TableSchema::CreateFromJson(content));
+    std::lock_guard<std::mutex> lock(schema_cache_mutex_);
     schema_cache_[schema_id] = schema;
     return schema;
 }
diff --git a/src/paimon/core/schema/schema_manager.h b/src/paimon/core/schema/schema_manager.h
index c70bc45..32ca57d 100644
--- a/src/paimon/core/schema/schema_manager.h
+++ b/src/paimon/core/schema/schema_manager.h
@@ -19,6 +19,7 @@
 #include <cstdint>
 #include <map>
 #include <memory>
+#include <mutex>
 #include <optional>
 #include <string>
 #include <vector>
@@ -66,6 +67,8 @@ class SchemaManager {
     std::shared_ptr<FileSystem> file_system_;
     std::string table_root_;
     const std::string branch_;
+    /// Guards `schema_cache_`, schemas are read by parallel scan and read tasks.
+    mutable std::mutex schema_cache_mutex_;
     mutable std::map<int64_t, std::shared_ptr<TableSchema>> schema_cache_;
 };
 
-- 
2.43.0


From 19aa4c227709697cb28afd1a22fd540e2b944c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:52:11 +0000
Subject: [PATCH 32/33] fix: write the row ids of a manifest file in full

The least and greatest row id were written as four-byte integers and read back
as eight-byte ones, so row ids of 2^31 and above came back changed.
---
 src/paimon/core/manifest/manifest_file_meta_serializer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/paimon/core/manifest/manifest_file_meta_serializer.cpp b/src/paimon/core/manifest/manifest_file_meta_serializer.cpp
index 0d1c382..435653e 100644
--- a/src/paimon/core/manifest/manifest_file_meta_serializer.cpp
+++ b/src/paimon/core/manifest/manifest_file_meta_serializer.cpp
@@ -71,14 +71,14 @@ Result<BinaryRow> ManifestFileMetaSerializer::ToRow(const ManifestFileMeta& reco
     if (!min_row_id) {
         writer.SetNullAt(11);
     } else {
-        writer.WriteInt(11, min_row_id.value());
+        writer.WriteLong(11, min_row_id.value());
     }
 
     auto max_row_id = record.MaxRowId();
     if (!max_row_id) {
         writer.SetNullAt(12);
     } else {
-        writer.WriteInt(12, max_row_id.value());
+        writer.WriteLong(12, max_row_id.value());
     }
     writer.Complete();
     return row;
-- 
2.43.0


From 14b20b5d321a70a5e11619200e0b08954faafc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:52:29 +0000
Subject: [PATCH 33/33] fix: reject negative lengths in serialized rows, lists
 and splits

A damaged length was passed on to the allocator, which threw or aborted
instead of an error being returned to the caller.
---
 src/paimon/common/data/serializer/binary_row_serializer.cpp | 3 +++
 src/paimon/common/utils/serialization_utils.h               | 3 +++
 src/paimon/core/table/source/split.cpp                      | 6 ++++++
 src/paimon/core/utils/object_serializer.h                   | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/src/paimon/common/data/serializer/binary_row_serializer.cpp b/src/paimon/common/data/serializer/binary_row_serializer.cpp
index 064fdbb..b99e6ee 100644
--- a/src/paimon/common/data/serializer/binary_row_serializer.cpp
+++ b/src/paimon/common/data/serializer/binary_row_serializer.cpp
@@ -76,6 +76,9 @@ Status BinaryRowSerializer::SerializeWithoutLengthSlow(const BinaryRow& record,
 Result<BinaryRow> BinaryRowSerializer::Deserialize(DataInputStream* source) const {
     BinaryRow row(num_fields_);
     PAIMON_ASSIGN_OR_RAISE(int32_t read_length, source->ReadValue<int32_t>());
+    if (read_length < 0) {
+        return Status::Invalid(fmt::format("Invalid binary row length: {}", read_length));
+    }
     std::shared_ptr<Bytes> bytes = Bytes::AllocateBytes(read_length, pool_.get());
     PAIMON_RETURN_NOT_OK(source->ReadBytes(bytes.get()));
     row.PointTo(MemorySegment::Wrap(bytes), 0, read_length);
diff --git a/src/paimon/common/utils/serialization_utils.h b/src/paimon/common/utils/serialization_utils.h
index 0bcd155..ac83983 100644
--- a/src/paimon/common/utils/serialization_utils.h
+++ b/src/paimon/common/utils/serialization_utils.h
@@ -91,6 +91,9 @@ class SerializationUtils {
     static Result<BinaryRow> DeserializeBinaryRow(DataInputStream* input, MemoryPool* pool) {
         int32_t read_length = -1;
         PAIMON_ASSIGN_OR_RAISE(read_length, input->ReadValue<int32_t>());
+        if (PAIMON_UNLIKELY(read_length < 0)) {
+            return Status::Invalid(fmt::format("Invalid binary row length: {}", read_length));
+        }
         std::shared_ptr<Bytes> bytes = Bytes::AllocateBytes(read_length, pool);
         PAIMON_RETURN_NOT_OK(input->ReadBytes(bytes.get()));
         return DeserializeBinaryRow(bytes);
diff --git a/src/paimon/core/table/source/split.cpp b/src/paimon/core/table/source/split.cpp
index 2d188cd..a320987 100644
--- a/src/paimon/core/table/source/split.cpp
+++ b/src/paimon/core/table/source/split.cpp
@@ -187,6 +187,9 @@ Result<std::shared_ptr<Split>> Split::Deserialize(const char* buffer, size_t len
         PAIMON_ASSIGN_OR_RAISE(std::shared_ptr<DataSplitImpl> data_split,
                                ReadDataSplitWithoutMagicNumber(data_split_magic, &in, pool));
         PAIMON_ASSIGN_OR_RAISE(int32_t range_size, in.ReadValue<int32_t>());
+        if (range_size < 0) {
+            return Status::Invalid(fmt::format("Invalid row range list size: {}", range_size));
+        }
         std::vector<Range> row_ranges;
         row_ranges.reserve(range_size);
         for (int32_t i = 0; i < range_size; ++i) {
@@ -198,6 +201,9 @@ Result<std::shared_ptr<Split>> Split::Deserialize(const char* buffer, size_t len
         PAIMON_ASSIGN_OR_RAISE(bool has_scores, in.ReadValue<bool>());
         if (has_scores) {
             PAIMON_ASSIGN_OR_RAISE(int32_t scores_length, in.ReadValue<int32_t>());
+            if (scores_length < 0) {
+                return Status::Invalid(fmt::format("Invalid score list size: {}", scores_length));
+            }
             scores.resize(scores_length);
             for (int32_t i = 0; i < scores_length; ++i) {
                 PAIMON_ASSIGN_OR_RAISE(float score, in.ReadValue<float>());
diff --git a/src/paimon/core/utils/object_serializer.h b/src/paimon/core/utils/object_serializer.h
index 1161678..b33033c 100644
--- a/src/paimon/core/utils/object_serializer.h
+++ b/src/paimon/core/utils/object_serializer.h
@@ -21,6 +21,7 @@
 #include <vector>
 
 #include "arrow/api.h"
+#include "fmt/format.h"
 #include "paimon/common/data/serializer/binary_row_serializer.h"
 #include "paimon/common/io/memory_segment_output_stream.h"
 #include "paimon/io/data_input_stream.h"
@@ -87,6 +88,9 @@ class ObjectSerializer {
     Result<std::vector<T>> DeserializeList(DataInputStream* source) const {
         int32_t size = 0;
         PAIMON_ASSIGN_OR_RAISE(size, source->ReadValue<int32_t>());
+        if (size < 0) {
+            return Status::Invalid(fmt::format("Invalid record list size: {}", size));
+        }
         std::vector<T> records;
         records.reserve(size);
         for (int32_t i = 0; i < size; i++) {
-- 
2.43.0

