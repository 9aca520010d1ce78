From bbf9b9358d85399fba498eabe67628abefd2f88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 01/63] fix: size the point decompression buffers by the record
 length

Decompressor::DecompressBytes and LazReader::GetPointData decompressed every
point into a 255-byte stack buffer, so any file whose records are longer than
that (38 base bytes plus extra bytes) overflowed the stack.
---
 cpp/include/copc-lib/laz/decompressor.hpp | 6 +++---
 cpp/src/io/laz_reader.cpp                 | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/cpp/include/copc-lib/laz/decompressor.hpp b/cpp/include/copc-lib/laz/decompressor.hpp
index 034d6ac..d939c60 100644
--- a/cpp/include/copc-lib/laz/decompressor.hpp
+++ b/cpp/include/copc-lib/laz/decompressor.hpp
@@ -28,11 +28,11 @@ class Decompressor
         las_decompressor::ptr decompressor = build_las_decompressor(stre.cb(), point_format_id, eb_byte_size);
 
         int point_size = copc::las::PointByteSize(point_format_id, eb_byte_size);
-        char buff[255];
+        std::vector<char> buff(point_size);
         for (int i = 0; i < point_count; i++)
         {
-            decompressor->decompress(buff);
-            out.insert(out.end(), buff, buff + point_size);
+            decompressor->decompress(buff.data());
+            out.insert(out.end(), buff.begin(), buff.end());
         }
         // clear the EOF flag, since lazperf may read too large of a buffer
         in_stream.clear();
diff --git a/cpp/src/io/laz_reader.cpp b/cpp/src/io/laz_reader.cpp
index 60a48d9..6682656 100644
--- a/cpp/src/io/laz_reader.cpp
+++ b/cpp/src/io/laz_reader.cpp
@@ -10,11 +10,11 @@ std::vector<char> LazReader::GetPointData()
 
     std::vector<char> out;
     int point_size = copc::las::PointByteSize(las_header.PointFormatId(), las_header.EbByteSize());
-    char buff[255];
+    std::vector<char> buff(point_size);
     for (size_t i = 0; i < las_header.PointCount(); i++)
     {
-        reader_->readPoint(buff);
-        out.insert(out.end(), buff, buff + point_size);
+        reader_->readPoint(buff.data());
+        out.insert(out.end(), buff.begin(), buff.end());
     }
 
     return out;
-- 
2.43.0


From f1ecadc9cee330a30a9c2243120bcb2414053e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 02/63] fix: GetParentAtDepth overflowed for keys 31 or more
 levels below the requested depth

---
 cpp/src/hierarchy/key.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cpp/src/hierarchy/key.cpp b/cpp/src/hierarchy/key.cpp
index 9c34bec..2df9d9a 100644
--- a/cpp/src/hierarchy/key.cpp
+++ b/cpp/src/hierarchy/key.cpp
@@ -55,8 +55,9 @@ VoxelKey VoxelKey::GetParentAtDepth(int32_t depth) const
     if (depth < 0 || depth > d)
         throw std::runtime_error("VoxelKey::GetParentAtDepth: Invalid depth requested.");
 
-    int reduction_factor = (int)std::pow(2, d - depth);
-    return {depth, x / reduction_factor, y / reduction_factor, z / reduction_factor};
+    // Coordinates are 31-bit, so anything beyond that is a shift to 0
+    const int32_t shift = std::min<int32_t>(d - depth, 31);
+    return {depth, x >> shift, y >> shift, z >> shift};
 }
 
 std::vector<VoxelKey> VoxelKey::GetParents(bool include_self) const
-- 
2.43.0


From 36c75aa710225aacea8e1828fe0fdb3c6cbffe07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 03/63] fix: reject undefined extra byte data types instead of
 reading past the size table

---
 cpp/src/las/vlr.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/src/las/vlr.cpp b/cpp/src/las/vlr.cpp
index f3c1f4a..2229cf2 100644
--- a/cpp/src/las/vlr.cpp
+++ b/cpp/src/las/vlr.cpp
@@ -14,6 +14,9 @@ int NumBytesFromExtraBytes(const std::vector<EbVlr::ebfield> &items)
     {
         if (item.data_type == 0)
             out += item.options;
+        else if (item.data_type >= sizeof(EXTRA_BYTE_DATA_TYPE))
+            throw std::runtime_error("NumBytesFromExtraBytes: Invalid extra byte data type " +
+                                     std::to_string(item.data_type) + ".");
         else
             out += EXTRA_BYTE_DATA_TYPE[item.data_type];
     }
-- 
2.43.0


From 3023fa62eaf24b6af6c9c00ef5688bbff0f35845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 04/63] fix: Points::PointSourceId truncated the 16-bit ids to
 8 bits

---
 cpp/include/copc-lib/las/points.hpp | 7 ++++---
 python/bindings.cpp                 | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/cpp/include/copc-lib/las/points.hpp b/cpp/include/copc-lib/las/points.hpp
index ff76f28..b8c9781 100644
--- a/cpp/include/copc-lib/las/points.hpp
+++ b/cpp/include/copc-lib/las/points.hpp
@@ -134,15 +134,15 @@ class Points
             points_[i]->Classification(in[i]);
     }
 
-    std::vector<uint8_t> PointSourceId() const
+    std::vector<uint16_t> PointSourceId() const
     {
-        std::vector<uint8_t> out;
+        std::vector<uint16_t> out;
         out.resize(Size());
         std::transform(points_.begin(), points_.end(), out.begin(),
                        [](const std::shared_ptr<Point> &p) { return p->PointSourceId(); });
         return out;
     }
-    void PointSourceId(const std::vector<uint8_t> &in)
+    void PointSourceId(const std::vector<uint16_t> &in)
     {
         if (in.size() != Size())
             throw std::runtime_error("PointSourceId setter array must be same size as Points array!");
@@ -150,6 +150,7 @@ class Points
         for (unsigned i = 0; i < points_.size(); ++i)
             points_[i]->PointSourceId(in[i]);
     }
+    void PointSourceId(const std::vector<uint8_t> &in) { PointSourceId(std::vector<uint16_t>(in.begin(), in.end())); }
 
     std::vector<uint16_t> Red() const
     {
diff --git a/python/bindings.cpp b/python/bindings.cpp
index b054fe3..8d60588 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -303,7 +303,7 @@ PYBIND11_MODULE(_core, m)
         .def_property("classification", py::overload_cast<>(&las::Points::Classification, py::const_),
                       py::overload_cast<const std::vector<uint8_t> &>(&las::Points::Classification))
         .def_property("point_source_id", py::overload_cast<>(&las::Points::PointSourceId, py::const_),
-                      py::overload_cast<const std::vector<uint8_t> &>(&las::Points::PointSourceId))
+                      py::overload_cast<const std::vector<uint16_t> &>(&las::Points::PointSourceId))
         .def_property("red", py::overload_cast<>(&las::Points::Red, py::const_),
                       py::overload_cast<const std::vector<uint16_t> &>(&las::Points::Red))
         .def_property("green", py::overload_cast<>(&las::Points::Green, py::const_),
-- 
2.43.0


From c5d043b6e5c5e587edb651823bd35e1c5b0db5e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 05/63] fix: setting a scan angle in degrees truncated it, so
 writing back a read value could change it

---
 cpp/include/copc-lib/las/point.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/include/copc-lib/las/point.hpp b/cpp/include/copc-lib/las/point.hpp
index 9e3c53f..6b87791 100644
--- a/cpp/include/copc-lib/las/point.hpp
+++ b/cpp/include/copc-lib/las/point.hpp
@@ -66,7 +66,10 @@ class Point
 
     float ScanAngleDegrees() const { return 0.006f * float(scan_angle_); }
 
-    void ScanAngleDegrees(const float &scan_angle) { scan_angle_ = static_cast<int16_t>(scan_angle / 0.006f); }
+    void ScanAngleDegrees(const float &scan_angle)
+    {
+        scan_angle_ = static_cast<int16_t>(std::lround(scan_angle / 0.006f));
+    }
 
     uint8_t UserData() const { return user_data_; }
     void UserData(const uint8_t &user_data) { user_data_ = user_data; }
-- 
2.43.0


From f24641ddcb2cf6a5bd89dc63a1568863f601b92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:29 +0000
Subject: [PATCH 06/63] fix: extra byte item equality compared only three bytes
 of each numeric triple

---
 cpp/include/copc-lib/las/vlr.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cpp/include/copc-lib/las/vlr.hpp b/cpp/include/copc-lib/las/vlr.hpp
index 363e595..8da4c9b 100644
--- a/cpp/include/copc-lib/las/vlr.hpp
+++ b/cpp/include/copc-lib/las/vlr.hpp
@@ -70,9 +70,11 @@ namespace lazperf
 inline bool operator==(const eb_vlr::ebfield &a, const eb_vlr::ebfield &b)
 {
     return std::memcmp(a.reserved, b.reserved, 2) == 0 && a.data_type == b.data_type && a.options == b.options &&
-           a.name == b.name && std::memcmp(a.no_data, b.no_data, 3) == 0 && std::memcmp(a.minval, b.minval, 3) == 0 &&
-           std::memcmp(a.maxval, b.maxval, 3) == 0 && std::memcmp(a.scale, b.scale, 3) == 0 &&
-           std::memcmp(a.offset, b.offset, 3) == 0 && a.description == b.description;
+           a.name == b.name && std::memcmp(a.no_data, b.no_data, sizeof(a.no_data)) == 0 &&
+           std::memcmp(a.minval, b.minval, sizeof(a.minval)) == 0 &&
+           std::memcmp(a.maxval, b.maxval, sizeof(a.maxval)) == 0 &&
+           std::memcmp(a.scale, b.scale, sizeof(a.scale)) == 0 &&
+           std::memcmp(a.offset, b.offset, sizeof(a.offset)) == 0 && a.description == b.description;
 }
 } // namespace lazperf
 
-- 
2.43.0


From 5d42bcd6b72dcbf0d2873149b8698edeef982552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:43 +0000
Subject: [PATCH 07/63] fix: RemoveScale let NaN through to an undefined
 integer conversion

---
 cpp/include/copc-lib/las/utils.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/include/copc-lib/las/utils.hpp b/cpp/include/copc-lib/las/utils.hpp
index 75af069..42587f9 100644
--- a/cpp/include/copc-lib/las/utils.hpp
+++ b/cpp/include/copc-lib/las/utils.hpp
@@ -19,7 +19,8 @@ template <typename T> T RemoveScale(double value, double scale, double offset)
 {
     double val = std::round((value - offset) / scale);
 
-    if (val < std::numeric_limits<T>::min() || val > std::numeric_limits<T>::max())
+    // Written so that NaN is refused as well
+    if (!(val >= std::numeric_limits<T>::min() && val <= std::numeric_limits<T>::max()))
         throw std::runtime_error("The value " + std::to_string(value) +
                                  " is too large to save into the requested format." +
                                  " Your scale and/or offset may be incorrect.");
-- 
2.43.0


From bbe806cc99bb91ab8b3785e9f55f32093cdf93b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:52 +0000
Subject: [PATCH 08/63] fix: converting extents to another format shared the
 original's extent objects

---
 cpp/src/copc/extents.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cpp/src/copc/extents.cpp b/cpp/src/copc/extents.cpp
index c2cb88a..a0328fb 100644
--- a/cpp/src/copc/extents.cpp
+++ b/cpp/src/copc/extents.cpp
@@ -74,19 +74,19 @@ CopcExtents::CopcExtents(const CopcExtents &other, int8_t point_format_id, uint1
 {
     // Copy generic extents
     for (int i{0}; i <= 13; i++)
-        extents_[i] = other.extents_[i];
+        *extents_[i] = *other.extents_[i];
 
     // Copy RGB
     if (point_format_id > 6 && other.point_format_id_ > 6)
     {
-        extents_[14] = other.extents_[14];
-        extents_[15] = other.extents_[15];
-        extents_[16] = other.extents_[16];
+        *extents_[14] = *other.extents_[14];
+        *extents_[15] = *other.extents_[15];
+        *extents_[16] = *other.extents_[16];
     }
 
     // Copy NIR
     if (point_format_id == 8 && other.point_format_id_ == 8)
-        extents_[17] = other.extents_[17];
+        *extents_[17] = *other.extents_[17];
 
     // Copy EBs
     auto other_num_eb = other.NumberOfExtents() - PointBaseNumberExtents(other.PointFormatId());
@@ -97,8 +97,8 @@ CopcExtents::CopcExtents(const CopcExtents &other, int8_t point_format_id, uint1
     else
     {
         for (int i{0}; i < num_eb_items; i++)
-            extents_[PointBaseNumberExtents(point_format_id_) + i] =
-                other.extents_[PointBaseNumberExtents(other.PointFormatId()) + i];
+            *extents_[PointBaseNumberExtents(point_format_id_) + i] =
+                *other.extents_[PointBaseNumberExtents(other.PointFormatId()) + i];
     }
 }
 
-- 
2.43.0


From 4ef3c4e48c5c0f88acfb05aa5c040df406060781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:03 +0000
Subject: [PATCH 09/63] fix: an extent built from a list accepted a negative
 variance

---
 cpp/src/copc/extents.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/copc/extents.cpp b/cpp/src/copc/extents.cpp
index a0328fb..ff2ca5c 100644
--- a/cpp/src/copc/extents.cpp
+++ b/cpp/src/copc/extents.cpp
@@ -26,6 +26,8 @@ CopcExtent::CopcExtent(const std::vector<double> &vec)
 
     if (vec.size() == 4)
     {
+        if (vec[3] < 0)
+            throw std::runtime_error("CopcExtent: Variance must be >= 0.");
         mean = vec[2];
         var = vec[3];
     }
-- 
2.43.0


From 4be74d4d8c3c35381209e56f55fb121b7bba56d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:23 +0000
Subject: [PATCH 10/63] fix: header text fields of full width were read past
 their end

---
 cpp/src/las/header.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/cpp/src/las/header.cpp b/cpp/src/las/header.cpp
index 85472d4..6fd2160 100644
--- a/cpp/src/las/header.cpp
+++ b/cpp/src/las/header.cpp
@@ -1,5 +1,6 @@
 #include "copc-lib/las/header.hpp"
 
+#include <algorithm>
 #include <cstring>
 #include <limits>
 #include <stdexcept>
@@ -14,6 +15,15 @@
 namespace copc::las
 {
 
+namespace
+{
+// Header text fields are zero-padded, but not terminated when they use the full width
+template <size_t N> std::string FixedString(const char (&field)[N])
+{
+    return std::string(field, std::find(field, field + N, '\0'));
+}
+} // namespace
+
 LasHeader::LasHeader(const LasHeader &header, int8_t point_format_id, uint16_t point_record_length,
                      const Vector3 &scale, const Vector3 &offset)
     : LasHeader(header)
@@ -58,11 +68,11 @@ LasHeader LasHeader::FromLazPerf(const lazperf::header14 &header)
     if (!(header.global_encoding & 0x10))
         throw std::runtime_error("LasHeader::FromLazPerf: WKT bit must be set.");
     h.global_encoding = header.global_encoding;
-    h.guid_ = header.guid;
+    h.guid_ = FixedString(header.guid);
     if (header.version.major != 1 || header.version.minor != 4)
         throw std::runtime_error("LasHeader::FromLazPerf: Header version needs to be 1.4");
-    h.system_identifier_ = header.system_identifier;
-    h.generating_software_ = header.generating_software;
+    h.system_identifier_ = FixedString(header.system_identifier);
+    h.generating_software_ = FixedString(header.generating_software);
     h.creation_day = header.creation.day;
     h.creation_year = header.creation.year;
     if (header.header_size != HEADER_SIZE_BYTES)
-- 
2.43.0


From 5866d080307c2b4e18796ce4d8ec5712224617e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:38 +0000
Subject: [PATCH 11/63] fix: LasHeader::RemoveScaleX/Y/Z converted
 unrepresentable values instead of refusing them

---
 cpp/include/copc-lib/las/header.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cpp/include/copc-lib/las/header.hpp b/cpp/include/copc-lib/las/header.hpp
index f7fc0e6..4dc82da 100644
--- a/cpp/include/copc-lib/las/header.hpp
+++ b/cpp/include/copc-lib/las/header.hpp
@@ -9,6 +9,7 @@
 #include <string>
 
 #include "copc-lib/geometry/vector3.hpp"
+#include "copc-lib/las/utils.hpp"
 #include <lazperf/header.hpp>
 #include <lazperf/readers.hpp>
 
@@ -114,15 +115,15 @@ class LasHeader
     double ApplyScaleZ(double unscaled_value) const { return unscaled_value * scale_.z + offset_.z; }
     int32_t RemoveScaleX(double scaled_value) const
     {
-        return static_cast<int32_t>(std::round((scaled_value - offset_.x) / scale_.x));
+        return RemoveScale<int32_t>(scaled_value, scale_.x, offset_.x);
     }
     int32_t RemoveScaleY(double scaled_value) const
     {
-        return static_cast<int32_t>(std::round((scaled_value - offset_.y) / scale_.y));
+        return RemoveScale<int32_t>(scaled_value, scale_.y, offset_.y);
     }
     int32_t RemoveScaleZ(double scaled_value) const
     {
-        return static_cast<int32_t>(std::round((scaled_value - offset_.z) / scale_.z));
+        return RemoveScale<int32_t>(scaled_value, scale_.z, offset_.z);
     }
 
     uint16_t file_source_id{};
-- 
2.43.0


From 1b8e08766fca52fc21729166b783fd631c2a50d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 12/63] fix: ApplyInverseScale was not the inverse of
 ApplyScale

---
 cpp/include/copc-lib/las/header.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/include/copc-lib/las/header.hpp b/cpp/include/copc-lib/las/header.hpp
index 4dc82da..7a8dba3 100644
--- a/cpp/include/copc-lib/las/header.hpp
+++ b/cpp/include/copc-lib/las/header.hpp
@@ -109,7 +109,7 @@ class LasHeader
 
     // Apply Las scale factors to Vector3 or double
     Vector3 ApplyScale(const Vector3 &unscaled_value) const { return unscaled_value * scale_ + offset_; }
-    Vector3 ApplyInverseScale(const Vector3 &scaled_value) const { return scaled_value / scale_ - offset_; }
+    Vector3 ApplyInverseScale(const Vector3 &scaled_value) const { return (scaled_value - offset_) / scale_; }
     double ApplyScaleX(double unscaled_value) const { return unscaled_value * scale_.x + offset_.x; }
     double ApplyScaleY(double unscaled_value) const { return unscaled_value * scale_.y + offset_.y; }
     double ApplyScaleZ(double unscaled_value) const { return unscaled_value * scale_.z + offset_.z; }
-- 
2.43.0


From e9e61f03fc499a48a962756c5c6c397c51a4fc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:46 +0000
Subject: [PATCH 13/63] fix: ChangeNodePage left the node's page key unchanged,
 so later moves and queries used the wrong page

---
 cpp/src/io/copc_writer_public.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index ef33802..5f4cc54 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -160,14 +160,16 @@ void Writer::ChangeNodePage(const VoxelKey &node_key, const VoxelKey &new_page_k
     }
 
     // Add node to new page
+    const VoxelKey old_page_key = node->page_key;
     hierarchy_->seen_pages_[new_page_key]->nodes[node_key] = node;
+    node->page_key = new_page_key;
 
     // Remove node from old page
-    hierarchy_->seen_pages_[node->page_key]->nodes.erase(node_key);
+    hierarchy_->seen_pages_[old_page_key]->nodes.erase(node_key);
 
     // If old page has no nodes left then remove it, unless it is root page
-    if (node->page_key != VoxelKey::RootKey() && hierarchy_->seen_pages_[node->page_key]->nodes.empty())
-        hierarchy_->seen_pages_.erase(node->page_key);
+    if (old_page_key != VoxelKey::RootKey() && hierarchy_->seen_pages_[old_page_key]->nodes.empty())
+        hierarchy_->seen_pages_.erase(old_page_key);
 }
 
 void FileWriter::Close()
-- 
2.43.0


From 011f334c1c7e4562fff92a9d194e2d45d88f22c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 14/63] fix: writing to a closed writer overwrote the finished
 file

---
 cpp/src/io/laz_base_writer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index dc72d9e..7ab401f 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -112,6 +112,9 @@ void BaseWriter::WriteWKT()
 int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count, bool compressed, uint64_t *offset,
                                int32_t *byte_size)
 {
+    if (!open_)
+        throw std::runtime_error("BaseWriter::WriteChunk: The writer has already been closed.");
+
     uint64_t startpos = out_stream_.tellp();
     if (startpos <= 0)
         throw std::runtime_error("BaseWriter::WriteChunk: Error while writing chunk!");
-- 
2.43.0


From b31081689e59d95911af82b6aed0cd28d1b12ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:01 +0000
Subject: [PATCH 15/63] fix: negative compressed point counts were accepted

---
 cpp/src/io/copc_writer_public.cpp | 2 +-
 cpp/src/io/laz_writer.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index 5f4cc54..5b23de5 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -126,7 +126,7 @@ Node Writer::AddNode(const VoxelKey &key, std::vector<char> const &uncompressed_
 Node Writer::AddNodeCompressed(const VoxelKey &key, std::vector<char> const &compressed_data, int32_t point_count,
                                const VoxelKey &page_key)
 {
-    if (point_count == 0)
+    if (point_count <= 0)
         throw std::runtime_error("Point count must be >0!");
 
     return DoAddNode(key, compressed_data, point_count, true, page_key);
diff --git a/cpp/src/io/laz_writer.cpp b/cpp/src/io/laz_writer.cpp
index 509cfcc..5dc91ee 100644
--- a/cpp/src/io/laz_writer.cpp
+++ b/cpp/src/io/laz_writer.cpp
@@ -29,7 +29,7 @@ void LazWriter::WritePoints(const las::Points &points)
 // Write a group of points as a chunk
 void LazWriter::WritePointsCompressed(std::vector<char> const &compressed_data, int32_t point_count)
 {
-    if (point_count == 0)
+    if (point_count <= 0)
         throw std::runtime_error("Point count must be >0!");
 
     WriteChunk(compressed_data, point_count, true);
-- 
2.43.0


From f0b3dece59f977bba3ce08e374b5889f3f09f762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 16/63] fix: WKT, extra bytes and extents were read at the
 wrong offset when stored as VLR / EVLR

---
 cpp/include/copc-lib/io/base_reader.hpp | 2 ++
 cpp/src/io/base_reader.cpp              | 9 +++++++--
 cpp/src/io/copc_reader.cpp              | 4 ++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/cpp/include/copc-lib/io/base_reader.hpp b/cpp/include/copc-lib/io/base_reader.hpp
index 9e4d52a..0560045 100644
--- a/cpp/include/copc-lib/io/base_reader.hpp
+++ b/cpp/include/copc-lib/io/base_reader.hpp
@@ -37,6 +37,8 @@ class BaseReader
     // Fetchs the map key for a query vlr user and record IDs
     static uint64_t FetchVlr(const std::map<uint64_t, las::VlrHeader> &vlrs, const std::string &user_id,
                              uint16_t record_id);
+    // Moves the stream to the data of the VLR or EVLR at offset
+    void SeekToVlrData(const std::map<uint64_t, las::VlrHeader> &vlrs, uint64_t offset) const;
 
     // Finds and loads the WKT vlr
     las::WktVlr ReadWktVlr(std::map<uint64_t, las::VlrHeader> &vlrs);
diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index 9a5d2f1..b793f0e 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -68,7 +68,7 @@ las::WktVlr BaseReader::ReadWktVlr(std::map<uint64_t, las::VlrHeader> &vlrs)
     auto offset = FetchVlr(vlrs, "LASF_Projection", 2112);
     if (offset != 0)
     {
-        in_stream_->seekg(offset + las::EVLR_HEADER_SIZE);
+        SeekToVlrData(vlrs, offset);
         return las::WktVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
     }
     return las::WktVlr();
@@ -79,12 +79,17 @@ las::EbVlr BaseReader::ReadExtraBytesVlr(std::map<uint64_t, las::VlrHeader> &vlr
     auto offset = FetchVlr(vlrs, "LASF_Spec", 4);
     if (offset != 0)
     {
-        in_stream_->seekg(offset + las::VLR_HEADER_SIZE);
+        SeekToVlrData(vlrs, offset);
         return las::EbVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));
     }
     return las::EbVlr();
 }
 
+void BaseReader::SeekToVlrData(const std::map<uint64_t, las::VlrHeader> &vlrs, uint64_t offset) const
+{
+    in_stream_->seekg(offset + (vlrs.at(offset).evlr_flag ? las::EVLR_HEADER_SIZE : las::VLR_HEADER_SIZE));
+}
+
 uint64_t BaseReader::FetchVlr(const std::map<uint64_t, las::VlrHeader> &vlrs, const std::string &user_id,
                               uint16_t record_id)
 {
diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index a18e7b4..ea83e05 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -47,7 +47,7 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
     auto extended_offset = FetchVlr(vlrs, "rock_robotic", 10001);
     if (offset != 0)
     {
-        in_stream_->seekg(offset + las::VLR_HEADER_SIZE);
+        SeekToVlrData(vlrs, offset);
         CopcExtents extents(las::CopcExtentsVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length)),
                             static_cast<int8_t>(reader_->header().point_format_id),
                             static_cast<uint16_t>(eb_vlr.items.size()), extended_offset != 0);
@@ -55,7 +55,7 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
         // Load mean/var if they exist
         if (extended_offset != 0)
         {
-            in_stream_->seekg(extended_offset + las::VLR_HEADER_SIZE);
+            SeekToVlrData(vlrs, extended_offset);
             extents.SetExtendedStats(
                 las::CopcExtentsVlr::create(*in_stream_, static_cast<int>(vlrs[extended_offset].data_length)));
         }
-- 
2.43.0


From e3236e3d00b0af5e8001bacbec4294a1e021273f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:50 +0000
Subject: [PATCH 17/63] fix: extents of files without an extents record ignored
 the extra byte dimensions

---
 cpp/src/io/copc_reader.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index ea83e05..6286b7e 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -63,7 +63,8 @@ CopcExtents Reader::ReadCopcExtentsVlr(std::map<uint64_t, las::VlrHeader> &vlrs,
     }
     else
     {
-        return CopcExtents(reader_->header().point_format_id);
+        return CopcExtents(static_cast<int8_t>(reader_->header().point_format_id),
+                           static_cast<uint16_t>(eb_vlr.items.size()));
     }
 }
 
-- 
2.43.0


From 3c9f4aeab807d50a6a02e687f1659a07fd1449c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:30 +0000
Subject: [PATCH 18/63] fix: reading the compressed data of a node without
 points indexed an empty vector

---
 cpp/src/io/copc_reader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 6286b7e..fff76e5 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -142,7 +142,7 @@ std::vector<char> Reader::GetPointDataCompressed(Node const &node)
 
     std::vector<char> out;
     out.resize(node.byte_size);
-    in_stream_->read(&out[0], node.byte_size);
+    in_stream_->read(out.data(), node.byte_size);
     return out;
 }
 
-- 
2.43.0


From 4f8e9a9502937b9214f58437cab358fce32fb795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:53 +0000
Subject: [PATCH 19/63] fix: files with extra bytes but no extra bytes VLR
 could not be copied

---
 cpp/include/copc-lib/io/laz_base_writer.hpp | 3 +++
 cpp/src/io/laz_base_writer.cpp              | 4 ++--
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/cpp/include/copc-lib/io/laz_base_writer.hpp b/cpp/include/copc-lib/io/laz_base_writer.hpp
index fb09a7a..095074a 100644
--- a/cpp/include/copc-lib/io/laz_base_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_base_writer.hpp
@@ -46,6 +46,9 @@ class BaseWriter
   protected:
     static const uint32_t VARIABLE_CHUNK_SIZE = std::numeric_limits<uint32_t>::max();
 
+    // Records may have extra bytes that no VLR describes
+    bool HasExtraBytesVlr() const { return !config_->ExtraBytesVlr().items.empty(); }
+
     bool open_{};
     std::ostream &out_stream_;
     std::vector<lazperf::chunk> chunks_;
diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index 7ab401f..a8e3af8 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -28,7 +28,7 @@ void BaseWriter::WriteLasHeader(bool extended_stats_flag)
 {
     // Write LAS header
     auto las_header = config_->LasHeader().ToLazPerf(OffsetToPointData(), point_count_, evlr_offset_, evlr_count_,
-                                                     config_->LasHeader().EbByteSize(), extended_stats_flag);
+                                                     HasExtraBytesVlr(), extended_stats_flag);
     out_stream_.seekp(0);
     las_header.write(out_stream_);
 }
@@ -37,7 +37,7 @@ void BaseWriter::WriteLazAndEbVlrs()
 {
 
     // Write optional LAS Extra Byte VLR
-    if (config_->LasHeader().EbByteSize() > 0)
+    if (HasExtraBytesVlr())
     {
         auto ebVlr = this->config_->ExtraBytesVlr();
         ebVlr.header().write(out_stream_);
-- 
2.43.0


From 08afad6a55c17482a89eeecdf50f76d9dec7e842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 20/63] fix: the children of a page depended on which pages had
 been loaded before

---
 cpp/include/copc-lib/io/copc_base_io.hpp |  2 ++
 cpp/src/io/copc_base_io.cpp              | 11 +++++++++++
 cpp/src/io/copc_reader.cpp               |  1 +
 3 files changed, 14 insertions(+)

diff --git a/cpp/include/copc-lib/io/copc_base_io.hpp b/cpp/include/copc-lib/io/copc_base_io.hpp
index 5136187..4f8f49a 100644
--- a/cpp/include/copc-lib/io/copc_base_io.hpp
+++ b/cpp/include/copc-lib/io/copc_base_io.hpp
@@ -29,6 +29,8 @@ class BaseIO
     std::shared_ptr<Internal::Hierarchy> hierarchy_;
     virtual std::vector<Entry> ReadPage(std::shared_ptr<Internal::PageInternal> page) = 0;
     void ReadAndParsePage(const std::shared_ptr<Internal::PageInternal> &page);
+    // Loads every page above the key, so that a page with this key has been seen if it exists
+    void LoadPagesAbove(const VoxelKey &key);
     // Recursively reads all subpages and nodes given a root and returns all the nodes that were loaded
     void LoadPageHierarchy(const std::shared_ptr<Internal::PageInternal> &page, std::vector<Node> &loaded_nodes);
 };
diff --git a/cpp/src/io/copc_base_io.cpp b/cpp/src/io/copc_base_io.cpp
index 2aea847..c0b5759 100644
--- a/cpp/src/io/copc_base_io.cpp
+++ b/cpp/src/io/copc_base_io.cpp
@@ -49,6 +49,17 @@ void BaseIO::LoadPageHierarchy(const std::shared_ptr<Internal::PageInternal> &pa
     }
 }
 
+void BaseIO::LoadPagesAbove(const VoxelKey &key)
+{
+    // From the root down, since each page lists the pages nested in it
+    auto parents_list = key.GetParents(false);
+    for (auto parent = parents_list.rbegin(); parent != parents_list.rend(); ++parent)
+    {
+        if (hierarchy_->PageExists(*parent) && !hierarchy_->seen_pages_[*parent]->loaded)
+            ReadAndParsePage(hierarchy_->seen_pages_[*parent]);
+    }
+}
+
 void BaseIO::ReadAndParsePage(const std::shared_ptr<Internal::PageInternal> &page)
 {
     auto children = ReadPage(page);
diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index fff76e5..4c12546 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -167,6 +167,7 @@ std::vector<Node> Reader::GetAllChildrenOfPage(const VoxelKey &key)
 
     // Load all pages upto the current key
     auto node = FindNode(key);
+    LoadPagesAbove(key);
     // If a page with this key doesn't exist, check if the node itself exists and return it
     if (!hierarchy_->PageExists(key))
     {
-- 
2.43.0


From f12a707492045908c98d0ee24e74c7c942bad18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:11 +0000
Subject: [PATCH 21/63] fix: hierarchy pages that list themselves or each other
 recursed without end

---
 cpp/src/io/copc_base_io.cpp | 55 +++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/cpp/src/io/copc_base_io.cpp b/cpp/src/io/copc_base_io.cpp
index c0b5759..2127bb1 100644
--- a/cpp/src/io/copc_base_io.cpp
+++ b/cpp/src/io/copc_base_io.cpp
@@ -2,6 +2,9 @@
 #include "copc-lib/hierarchy/internal/hierarchy.hpp"
 #include "copc-lib/hierarchy/internal/page.hpp"
 
+#include <stdexcept>
+#include <unordered_set>
+
 namespace copc
 {
 
@@ -33,36 +36,58 @@ Node BaseIO::FindNode(VoxelKey key)
 
 void BaseIO::LoadPageHierarchy(const std::shared_ptr<Internal::PageInternal> &page, std::vector<Node> &loaded_nodes)
 {
-    if (!page->IsValid())
-        return;
+    // Iterative, since the nesting depth is up to the file
+    std::vector<std::shared_ptr<Internal::PageInternal>> pages{page};
+    while (!pages.empty())
+    {
+        auto current = pages.back();
+        pages.pop_back();
 
-    if (!page->loaded)
-        ReadAndParsePage(page);
+        if (!current->IsValid())
+            continue;
+        if (!current->loaded)
+            ReadAndParsePage(current);
 
-    for (const auto &sub_page : page->sub_pages)
-    {
-        LoadPageHierarchy(sub_page, loaded_nodes);
-    }
-    for (const auto &node : page->nodes)
-    {
-        loaded_nodes.push_back(*node.second);
+        for (const auto &node : current->nodes)
+            loaded_nodes.push_back(*node.second);
+        pages.insert(pages.end(), current->sub_pages.begin(), current->sub_pages.end());
     }
 }
 
 void BaseIO::LoadPagesAbove(const VoxelKey &key)
 {
     // From the root down, since each page lists the pages nested in it
-    auto parents_list = key.GetParents(false);
-    for (auto parent = parents_list.rbegin(); parent != parents_list.rend(); ++parent)
+    std::vector<std::shared_ptr<Internal::PageInternal>> pages{hierarchy_->seen_pages_[VoxelKey::RootKey()]};
+    while (!pages.empty())
     {
-        if (hierarchy_->PageExists(*parent) && !hierarchy_->seen_pages_[*parent]->loaded)
-            ReadAndParsePage(hierarchy_->seen_pages_[*parent]);
+        auto page = pages.back();
+        pages.pop_back();
+
+        if (page->key.d >= key.d || key.GetParentAtDepth(page->key.d) != page->key)
+            continue;
+        if (!page->loaded)
+            ReadAndParsePage(page);
+        pages.insert(pages.end(), page->sub_pages.begin(), page->sub_pages.end());
     }
 }
 
 void BaseIO::ReadAndParsePage(const std::shared_ptr<Internal::PageInternal> &page)
 {
     auto children = ReadPage(page);
+
+    // A page lies strictly above the pages it lists, and is listed once. Otherwise the pages could form a cycle.
+    std::unordered_set<VoxelKey> sub_keys;
+    for (const Entry &e : children)
+    {
+        if (e.IsPage() && (e.key.d <= page->key.d || e.key.GetParentAtDepth(page->key.d) != page->key ||
+                           hierarchy_->PageExists(e.key) || !sub_keys.insert(e.key).second))
+        {
+            page->loaded = false;
+            throw std::runtime_error("BaseIO::ReadAndParsePage: Page " + page->key.ToString() +
+                                     " can't list page " + e.key.ToString() + ".");
+        }
+    }
+
     for (const Entry &e : children)
     {
         if (e.IsPage())
-- 
2.43.0


From 0a8864a96626a1a43db3411ea2685b8380f03010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 22/63] fix: compressed data of nodes past the end of the file
 was silently zero-filled

---
 cpp/src/io/copc_reader.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 4c12546..54031b9 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -138,11 +138,22 @@ std::vector<char> Reader::GetPointDataCompressed(Node const &node)
     if (!node.IsValid())
         throw std::runtime_error("Reader::GetPointDataCompressed: Cannot load an invalid node.");
 
+    // Don't trust the size of corrupt entries
+    in_stream_->clear();
+    in_stream_->seekg(0, std::ios::end);
+    const auto file_size = static_cast<uint64_t>(in_stream_->tellg());
+    if (node.offset > file_size || static_cast<uint64_t>(node.byte_size) > file_size - node.offset)
+        throw std::runtime_error("Reader::GetPointDataCompressed: Node " + node.key.ToString() +
+                                 " extends past the end of the file.");
+
     in_stream_->seekg(node.offset);
 
     std::vector<char> out;
     out.resize(node.byte_size);
     in_stream_->read(out.data(), node.byte_size);
+    if (!in_stream_->good())
+        throw std::runtime_error("Reader::GetPointDataCompressed: Error while reading node " + node.key.ToString() +
+                                 ".");
     return out;
 }
 
-- 
2.43.0


From e18f60f02782e71777dd4fbca59d4ca41ea0578f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 23/63] fix: a corrupt VLR or EVLR count made opening a file
 loop for billions of failed reads

---
 cpp/src/io/base_reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index b793f0e..3a256a0 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -43,6 +43,8 @@ std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
     {
         uint64_t cur_pos = in_stream_->tellg();
         auto h = las::VlrHeader(lazperf::vlr_header::create(*in_stream_));
+        if (!in_stream_->good())
+            throw std::runtime_error("BaseReader::ReadVlrHeaders: Error while reading VLR headers.");
         out.insert({cur_pos, h});
 
         in_stream_->seekg(h.data_length, std::ios::cur); // jump foward
@@ -56,6 +58,8 @@ std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
     {
         uint64_t cur_pos = in_stream_->tellg();
         auto h = las::VlrHeader(lazperf::evlr_header::create(*in_stream_));
+        if (!in_stream_->good())
+            throw std::runtime_error("BaseReader::ReadVlrHeaders: Error while reading EVLR headers.");
         out.insert({cur_pos, h});
 
         in_stream_->seekg(h.data_length, std::ios::cur); // jump foward
-- 
2.43.0


From 53fe9f21fd4a12a2c885752e37b0dd2ee44d0a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:47 +0000
Subject: [PATCH 24/63] fix: GetDepthAtResolution overflowed or did not end for
 corrupt keys and spacings

---
 cpp/src/io/copc_reader.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 54031b9..77257a4 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -295,10 +295,13 @@ int32_t Reader::GetDepthAtResolution(double resolution)
 
     auto current_resolution = config_.CopcInfo().spacing;
 
-    for (int32_t i = 0; i <= max_depth; i++)
+    for (int32_t i = 0; i < max_depth; i++)
     {
         if (current_resolution <= resolution)
             return i;
+        // Halving these never reaches the resolution
+        if (!std::isfinite(current_resolution) || std::isnan(resolution))
+            break;
         current_resolution /= 2;
     }
     return max_depth;
-- 
2.43.0


From b6b469a54b55c59c150b70c5adaa7fa0ff66db22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:31 +0000
Subject: [PATCH 25/63] fix: an EVLR length leading backwards made opening a
 file loop

---
 cpp/src/io/base_reader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index 3a256a0..63be2f6 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -50,6 +50,9 @@ std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
         in_stream_->seekg(h.data_length, std::ios::cur); // jump foward
     }
 
+    in_stream_->seekg(0, std::ios::end);
+    const auto file_size = static_cast<uint64_t>(in_stream_->tellg());
+
     // Move stream to beginning of EVLRs
     in_stream_->seekg(reader_->header().evlr_offset);
 
@@ -60,6 +63,9 @@ std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
         auto h = las::VlrHeader(lazperf::evlr_header::create(*in_stream_));
         if (!in_stream_->good())
             throw std::runtime_error("BaseReader::ReadVlrHeaders: Error while reading EVLR headers.");
+        // Don't trust the length of corrupt EVLRs, which could even lead backwards
+        if (h.data_length > file_size - (cur_pos + las::EVLR_HEADER_SIZE))
+            throw std::runtime_error("BaseReader::ReadVlrHeaders: EVLR extends past the end of the file.");
         out.insert({cur_pos, h});
 
         in_stream_->seekg(h.data_length, std::ios::cur); // jump foward
-- 
2.43.0


From 8bff20ab3c88d471852df835a63d0bf7baa54a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:08 +0000
Subject: [PATCH 26/63] fix: headers with a record length below the point
 format's base size were accepted

---
 cpp/src/las/header.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/las/header.cpp b/cpp/src/las/header.cpp
index 6fd2160..99feb9c 100644
--- a/cpp/src/las/header.cpp
+++ b/cpp/src/las/header.cpp
@@ -83,6 +83,8 @@ LasHeader LasHeader::FromLazPerf(const lazperf::header14 &header)
     if (header.point_format_id < 6 || header.point_format_id > 8)
         throw std::runtime_error("LasHeader::FromLazPerf: Supported point formats are 6 to 8.");
     h.point_format_id_ = static_cast<int8_t>(header.point_format_id);
+    if (header.point_record_length < PointBaseByteSize(h.point_format_id_))
+        throw std::runtime_error("LasHeader::FromLazPerf: Point record length is too small for the point format.");
     h.point_record_length_ = header.point_record_length;
     std::copy(std::begin(header.points_by_return), std::end(header.points_by_return), std::begin(h.points_by_return));
     h.scale_.x = header.scale.x;
-- 
2.43.0


From 67bd3a04f056590c9efe7d1e24017e079a1da441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 27/63] fix: hierarchy entries past the end of the file were
 made up from uninitialised memory

---
 cpp/src/io/copc_reader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 77257a4..6bf1d3d 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -75,6 +75,7 @@ std::vector<Entry> Reader::ReadPage(std::shared_ptr<Internal::PageInternal> page
         throw std::runtime_error("Reader::ReadPage: Cannot load an invalid page.");
 
     // reset the stream to the page's offset
+    in_stream_->clear();
     in_stream_->seekg(page->offset);
 
     // Iterate through each Entry in the page
@@ -82,6 +83,9 @@ std::vector<Entry> Reader::ReadPage(std::shared_ptr<Internal::PageInternal> page
     for (int i = 0; i < num_entries; i++)
     {
         Entry e = Entry::Unpack(*in_stream_);
+        if (!in_stream_->good())
+            throw std::runtime_error("Reader::ReadPage: Page " + page->key.ToString() +
+                                     " extends past the end of the file.");
         if (!e.IsValid())
             throw std::runtime_error("Entry is invalid! " + e.ToString());
 
-- 
2.43.0


From 4bd279ef6c273895c0aae1b7da28e6748e442598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 28/63] fix: point data could not be read after an earlier read
 had failed

---
 cpp/src/io/copc_reader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 6bf1d3d..f32372d 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -117,6 +117,8 @@ std::vector<char> Reader::GetPointData(Node const &node)
     if (!node.IsValid())
         throw std::runtime_error("Reader::GetPointData: Cannot load an invalid node.");
 
+    // An earlier read may have failed
+    in_stream_->clear();
     in_stream_->seekg(node.offset);
 
     auto las_header = config_.LasHeader();
-- 
2.43.0


From 6218df17782f46cd317559abf2ac60576d9e7962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 29/63] fix: ValidateSpatialBounds overflowed its counters on
 corrupt point counts

---
 cpp/src/io/copc_reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index f32372d..9c66265 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -350,8 +350,8 @@ bool Reader::ValidateSpatialBounds(bool verbose)
     bool is_valid = true;
     auto header = config_.LasHeader();
 
-    int total_points_outside_header_bounds{0};
-    int total_points_outside_node_bounds{0};
+    int64_t total_points_outside_header_bounds{0};
+    int64_t total_points_outside_node_bounds{0};
 
     // If verbose, set precision and print the las header.
     if (verbose)
-- 
2.43.0


From de079ff1fef31ff7a68559181e79df1eef085049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:17 +0000
Subject: [PATCH 30/63] fix: failed writes were not reported

WriteChunk compared tellp() == -1 as an unsigned number, and neither Close nor
the file writers looked at the state of the stream, so a full disk left an
incomplete file behind without any error.
---
 cpp/include/copc-lib/io/laz_base_writer.hpp |  3 +++
 cpp/src/io/copc_writer_internal.cpp         |  2 ++
 cpp/src/io/laz_base_writer.cpp              | 25 ++++++++++++++++-----
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/cpp/include/copc-lib/io/laz_base_writer.hpp b/cpp/include/copc-lib/io/laz_base_writer.hpp
index 095074a..d4b48b8 100644
--- a/cpp/include/copc-lib/io/laz_base_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_base_writer.hpp
@@ -49,6 +49,9 @@ class BaseWriter
     // Records may have extra bytes that no VLR describes
     bool HasExtraBytesVlr() const { return !config_->ExtraBytesVlr().items.empty(); }
 
+    // Throws if the stream has not accepted everything that was written
+    void CheckWritten();
+
     bool open_{};
     std::ostream &out_stream_;
     std::vector<lazperf::chunk> chunks_;
diff --git a/cpp/src/io/copc_writer_internal.cpp b/cpp/src/io/copc_writer_internal.cpp
index deab4e8..c59dcf2 100644
--- a/cpp/src/io/copc_writer_internal.cpp
+++ b/cpp/src/io/copc_writer_internal.cpp
@@ -64,6 +64,8 @@ void WriterInternal::Close()
 
     WriteHeader();
 
+    CheckWritten();
+
     open_ = false;
 }
 
diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index a8e3af8..cb4afbb 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -115,7 +115,7 @@ int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count,
     if (!open_)
         throw std::runtime_error("BaseWriter::WriteChunk: The writer has already been closed.");
 
-    uint64_t startpos = out_stream_.tellp();
+    const auto startpos = static_cast<int64_t>(out_stream_.tellp());
     if (startpos <= 0)
         throw std::runtime_error("BaseWriter::WriteChunk: Error while writing chunk!");
     if (offset != nullptr)
@@ -128,11 +128,11 @@ int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count,
 
     point_count_ += point_count;
 
-    uint64_t endpos = out_stream_.tellp();
-    if (endpos <= 0)
+    const auto endpos = static_cast<int64_t>(out_stream_.tellp());
+    if (!out_stream_.good() || endpos <= 0)
         throw std::runtime_error("BaseWriter::WriteChunk: Error while writing chunk!");
 
-    chunks_.push_back(lazperf::chunk{static_cast<uint64_t>(point_count), endpos});
+    chunks_.push_back(lazperf::chunk{static_cast<uint64_t>(point_count), static_cast<uint64_t>(endpos)});
 
     auto size = endpos - startpos;
     if (size > (std::numeric_limits<int32_t>::max)())
@@ -159,9 +159,18 @@ void BaseWriter::Close()
 
     WriteHeader();
 
+    CheckWritten();
+
     open_ = false;
 }
 
+void BaseWriter::CheckWritten()
+{
+    out_stream_.flush();
+    if (!out_stream_.good())
+        throw std::runtime_error("BaseWriter::Close: Error while writing to the stream!");
+}
+
 BaseFileWriter::BaseFileWriter(const std::string &file_path)
 {
     file_path_ = file_path;
@@ -172,7 +181,11 @@ BaseFileWriter::BaseFileWriter(const std::string &file_path)
 
 void BaseFileWriter::Close()
 {
-    if (f_stream_.is_open())
-        f_stream_.close();
+    if (!f_stream_.is_open())
+        return;
+
+    f_stream_.close();
+    if (!f_stream_.good())
+        throw std::runtime_error("FileWriterBase: Error while writing to the file.");
 }
 } // namespace copc::laz
-- 
2.43.0


From 8431948921daa43421a70c0345f135568df98878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 31/63] fix: a writer that could not write ended the process

Errors raised while closing left the writer open, so its destructor tried
again and threw, which terminates the process. Destructors no longer throw, a
close is attempted once, and a file writer whose close failed releases its
file.
---
 cpp/include/copc-lib/io/copc_writer.hpp       |  4 +--
 .../io/internal/copc_writer_internal.hpp      |  2 +-
 cpp/include/copc-lib/io/laz_base_writer.hpp   |  2 +-
 cpp/include/copc-lib/io/laz_writer.hpp        |  8 ++---
 cpp/src/io/copc_writer_internal.cpp           | 14 +++++++-
 cpp/src/io/copc_writer_public.cpp             | 35 +++++++++++++++++--
 cpp/src/io/laz_base_writer.cpp                | 14 +++++++-
 cpp/src/io/laz_writer.cpp                     | 26 ++++++++++++++
 8 files changed, 91 insertions(+), 14 deletions(-)

diff --git a/cpp/include/copc-lib/io/copc_writer.hpp b/cpp/include/copc-lib/io/copc_writer.hpp
index 482c1e7..96d326e 100644
--- a/cpp/include/copc-lib/io/copc_writer.hpp
+++ b/cpp/include/copc-lib/io/copc_writer.hpp
@@ -49,7 +49,7 @@ class Writer : public BaseIO
 
     std::shared_ptr<CopcConfigWriter> CopcConfig() { return config_; }
 
-    ~Writer() { Close(); }
+    ~Writer();
 
   protected:
     Writer() = default;
@@ -89,7 +89,7 @@ class FileWriter : public Writer, laz::BaseFileWriter
     }
 
     void Close() override;
-    ~FileWriter() { Close(); }
+    ~FileWriter();
 
     std::string FilePath() { return file_path_; }
 };
diff --git a/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp b/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp
index 8ca65fd..9f3fc61 100644
--- a/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp
+++ b/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp
@@ -20,7 +20,7 @@ class WriterInternal : laz::BaseWriter
     // Writes the header and COPC vlrs
     void Close() override;
     // Call close on destructor if needed
-    ~WriterInternal() { Close(); }
+    ~WriterInternal();
 
     // Writes a chunk to the laz file
     Entry WriteNode(const std::vector<char> &in, int32_t point_count, bool compressed);
diff --git a/cpp/include/copc-lib/io/laz_base_writer.hpp b/cpp/include/copc-lib/io/laz_base_writer.hpp
index d4b48b8..de1f0e0 100644
--- a/cpp/include/copc-lib/io/laz_base_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_base_writer.hpp
@@ -41,7 +41,7 @@ class BaseWriter
     virtual void WriteHeader();
 
     virtual void Close();
-    ~BaseWriter() { Close(); }
+    ~BaseWriter();
 
   protected:
     static const uint32_t VARIABLE_CHUNK_SIZE = std::numeric_limits<uint32_t>::max();
diff --git a/cpp/include/copc-lib/io/laz_writer.hpp b/cpp/include/copc-lib/io/laz_writer.hpp
index 1586a2e..24a1a38 100644
--- a/cpp/include/copc-lib/io/laz_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_writer.hpp
@@ -46,12 +46,8 @@ class LazFileWriter : BaseFileWriter, public LazWriter
         : BaseFileWriter(file_path), LazWriter(f_stream_, laz_config_writer)
     {
     }
-    void Close()
-    {
-        LazWriter::Close();
-        BaseFileWriter::Close();
-    };
-    ~LazFileWriter() { Close(); };
+    void Close();
+    ~LazFileWriter();
 
     std::string FilePath() { return file_path_; }
 };
diff --git a/cpp/src/io/copc_writer_internal.cpp b/cpp/src/io/copc_writer_internal.cpp
index c59dcf2..e6dc0fd 100644
--- a/cpp/src/io/copc_writer_internal.cpp
+++ b/cpp/src/io/copc_writer_internal.cpp
@@ -46,6 +46,8 @@ void WriterInternal::Close()
 {
     if (!open_)
         return;
+    // A close that fails can't be repeated
+    open_ = false;
 
     WriteChunkTable();
 
@@ -65,8 +67,18 @@ void WriterInternal::Close()
     WriteHeader();
 
     CheckWritten();
+}
 
-    open_ = false;
+WriterInternal::~WriterInternal()
+{
+    try
+    {
+        Close();
+    }
+    catch (...)
+    {
+        // Destructors must not throw, call Close() to be told of errors
+    }
 }
 
 // Writes the LAS header and VLRs
diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index 5b23de5..7191d75 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -69,6 +69,18 @@ void Writer::Close()
         writer_->Close();
 }
 
+Writer::~Writer()
+{
+    try
+    {
+        Close();
+    }
+    catch (...)
+    {
+        // Destructors must not throw, call Close() to be told of errors
+    }
+}
+
 bool Writer::PageExists(const VoxelKey &key) { return hierarchy_->PageExists(key); }
 
 // Writes a node to the file and reference it in the hierarchy and in the parent page
@@ -174,9 +186,28 @@ void Writer::ChangeNodePage(const VoxelKey &node_key, const VoxelKey &new_page_k
 
 void FileWriter::Close()
 {
-    if (writer_ != nullptr)
-        writer_->Close();
+    try
+    {
+        Writer::Close();
+    }
+    catch (...)
+    {
+        f_stream_.close();
+        throw;
+    }
     laz::BaseFileWriter::Close();
 }
 
+FileWriter::~FileWriter()
+{
+    try
+    {
+        Close();
+    }
+    catch (...)
+    {
+        // Destructors must not throw, call Close() to be told of errors
+    }
+}
+
 } // namespace copc
diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index cb4afbb..7525b35 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -148,6 +148,8 @@ void BaseWriter::Close()
 {
     if (!open_)
         return;
+    // A close that fails can't be repeated
+    open_ = false;
 
     WriteChunkTable();
 
@@ -160,8 +162,18 @@ void BaseWriter::Close()
     WriteHeader();
 
     CheckWritten();
+}
 
-    open_ = false;
+BaseWriter::~BaseWriter()
+{
+    try
+    {
+        Close();
+    }
+    catch (...)
+    {
+        // Destructors must not throw, call Close() to be told of errors
+    }
 }
 
 void BaseWriter::CheckWritten()
diff --git a/cpp/src/io/laz_writer.cpp b/cpp/src/io/laz_writer.cpp
index 5dc91ee..ce91a8b 100644
--- a/cpp/src/io/laz_writer.cpp
+++ b/cpp/src/io/laz_writer.cpp
@@ -35,4 +35,30 @@ void LazWriter::WritePointsCompressed(std::vector<char> const &compressed_data,
     WriteChunk(compressed_data, point_count, true);
 }
 
+void LazFileWriter::Close()
+{
+    try
+    {
+        LazWriter::Close();
+    }
+    catch (...)
+    {
+        f_stream_.close();
+        throw;
+    }
+    BaseFileWriter::Close();
+}
+
+LazFileWriter::~LazFileWriter()
+{
+    try
+    {
+        Close();
+    }
+    catch (...)
+    {
+        // Destructors must not throw, call Close() to be told of errors
+    }
+}
+
 } // namespace copc::laz
-- 
2.43.0


From 784cce7243d804217cf93f96f824ea10afa13f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:08 +0000
Subject: [PATCH 32/63] fix: deleting a file reader or writer through its base
 class was undefined

The destructors of the polymorphic readers and writers were not virtual: a
FileWriter held as a Writer was never finalised.
---
 cpp/include/copc-lib/io/base_reader.hpp     | 1 +
 cpp/include/copc-lib/io/copc_base_io.hpp    | 2 ++
 cpp/include/copc-lib/io/laz_base_writer.hpp | 3 ++-
 3 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/cpp/include/copc-lib/io/base_reader.hpp b/cpp/include/copc-lib/io/base_reader.hpp
index 0560045..9a0cf3f 100644
--- a/cpp/include/copc-lib/io/base_reader.hpp
+++ b/cpp/include/copc-lib/io/base_reader.hpp
@@ -19,6 +19,7 @@ class BaseReader
 {
   public:
     BaseReader(std::istream *in_stream) : in_stream_(in_stream) { InitReader(); }
+    virtual ~BaseReader() = default;
 
   protected:
     BaseReader() = default;
diff --git a/cpp/include/copc-lib/io/copc_base_io.hpp b/cpp/include/copc-lib/io/copc_base_io.hpp
index 4f8f49a..75a0f08 100644
--- a/cpp/include/copc-lib/io/copc_base_io.hpp
+++ b/cpp/include/copc-lib/io/copc_base_io.hpp
@@ -25,6 +25,8 @@ class BaseIO
     // Find a node object given a key
     Node FindNode(VoxelKey key);
 
+    virtual ~BaseIO() = default;
+
   protected:
     std::shared_ptr<Internal::Hierarchy> hierarchy_;
     virtual std::vector<Entry> ReadPage(std::shared_ptr<Internal::PageInternal> page) = 0;
diff --git a/cpp/include/copc-lib/io/laz_base_writer.hpp b/cpp/include/copc-lib/io/laz_base_writer.hpp
index de1f0e0..085e153 100644
--- a/cpp/include/copc-lib/io/laz_base_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_base_writer.hpp
@@ -41,7 +41,7 @@ class BaseWriter
     virtual void WriteHeader();
 
     virtual void Close();
-    ~BaseWriter();
+    virtual ~BaseWriter();
 
   protected:
     static const uint32_t VARIABLE_CHUNK_SIZE = std::numeric_limits<uint32_t>::max();
@@ -65,6 +65,7 @@ class BaseFileWriter
 {
   public:
     BaseFileWriter(const std::string &file_path);
+    virtual ~BaseFileWriter() = default;
     virtual void Close();
 
   protected:
-- 
2.43.0


From b0a95bd81ee1474257ce0dc15f5f693553e6ed95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:02 +0000
Subject: [PATCH 33/63] fix: file readers that could not be opened leaked their
 stream

---
 cpp/include/copc-lib/io/copc_reader.hpp | 6 ++++--
 cpp/include/copc-lib/io/laz_reader.hpp  | 7 +++++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/cpp/include/copc-lib/io/copc_reader.hpp b/cpp/include/copc-lib/io/copc_reader.hpp
index 75a2652..48a8c6f 100644
--- a/cpp/include/copc-lib/io/copc_reader.hpp
+++ b/cpp/include/copc-lib/io/copc_reader.hpp
@@ -4,6 +4,7 @@
 #include <istream>
 #include <limits>
 #include <map>
+#include <memory>
 #include <string>
 
 #include "copc-lib/copc/copc_config.hpp"
@@ -86,15 +87,16 @@ class FileReader : public Reader
   public:
     FileReader(const std::string &file_path) : is_open_(true)
     {
-        auto f_stream = new std::fstream;
+        auto f_stream = std::make_unique<std::fstream>();
         this->file_path_ = file_path;
         f_stream->open(file_path.c_str(), std::ios::in | std::ios::binary);
         if (!f_stream->good())
             throw std::runtime_error("FileReader: Error while opening file path.");
-        in_stream_ = f_stream;
+        in_stream_ = f_stream.get();
 
         InitReader();
         InitCopcReader();
+        f_stream.release(); // deleted by Close()
     }
 
     void Close()
diff --git a/cpp/include/copc-lib/io/laz_reader.hpp b/cpp/include/copc-lib/io/laz_reader.hpp
index faf4edb..e974b42 100644
--- a/cpp/include/copc-lib/io/laz_reader.hpp
+++ b/cpp/include/copc-lib/io/laz_reader.hpp
@@ -1,6 +1,8 @@
 #ifndef COPCLIB_IO_LAZ_READER_H_
 #define COPCLIB_IO_LAZ_READER_H_
 
+#include <memory>
+
 #include "copc-lib/io/base_reader.hpp"
 
 namespace copc::laz
@@ -25,14 +27,15 @@ class LazFileReader : public LazReader
   public:
     LazFileReader(const std::string &file_path) : is_open_(true)
     {
-        auto f_stream = new std::fstream;
+        auto f_stream = std::make_unique<std::fstream>();
         this->file_path_ = file_path;
         f_stream->open(file_path.c_str(), std::ios::in | std::ios::binary);
         if (!f_stream->good())
             throw std::runtime_error("LazFileReader: Error while opening file path.");
-        in_stream_ = f_stream;
+        in_stream_ = f_stream.get();
 
         InitReader();
+        f_stream.release(); // deleted by Close()
     }
 
     void Close()
-- 
2.43.0


From 3f7a8ceef50ce42ea14f6838c73f3e5daf0b8ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:13 +0000
Subject: [PATCH 34/63] fix: asking a closed file reader for data accessed its
 deleted stream

---
 cpp/include/copc-lib/io/copc_reader.hpp | 9 ++++++---
 cpp/include/copc-lib/io/laz_reader.hpp  | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/cpp/include/copc-lib/io/copc_reader.hpp b/cpp/include/copc-lib/io/copc_reader.hpp
index 48a8c6f..92b3d58 100644
--- a/cpp/include/copc-lib/io/copc_reader.hpp
+++ b/cpp/include/copc-lib/io/copc_reader.hpp
@@ -96,7 +96,7 @@ class FileReader : public Reader
 
         InitReader();
         InitCopcReader();
-        f_stream.release(); // deleted by Close()
+        f_stream.release(); // deleted by the destructor, a closed reader may still be asked for data
     }
 
     void Close()
@@ -104,14 +104,17 @@ class FileReader : public Reader
         if (is_open_)
         {
             dynamic_cast<std::fstream *>(in_stream_)->close();
-            delete in_stream_;
             is_open_ = false;
         }
     }
 
     std::string FilePath() { return file_path_; }
 
-    ~FileReader() { Close(); }
+    ~FileReader()
+    {
+        Close();
+        delete in_stream_;
+    }
 
   private:
     bool is_open_;
diff --git a/cpp/include/copc-lib/io/laz_reader.hpp b/cpp/include/copc-lib/io/laz_reader.hpp
index e974b42..9e81079 100644
--- a/cpp/include/copc-lib/io/laz_reader.hpp
+++ b/cpp/include/copc-lib/io/laz_reader.hpp
@@ -35,7 +35,7 @@ class LazFileReader : public LazReader
         in_stream_ = f_stream.get();
 
         InitReader();
-        f_stream.release(); // deleted by Close()
+        f_stream.release(); // deleted by the destructor, a closed reader may still be asked for data
     }
 
     void Close()
@@ -43,14 +43,17 @@ class LazFileReader : public LazReader
         if (is_open_)
         {
             dynamic_cast<std::fstream *>(in_stream_)->close();
-            delete in_stream_;
             is_open_ = false;
         }
     }
 
     std::string FilePath() { return file_path_; }
 
-    ~LazFileReader() { Close(); }
+    ~LazFileReader()
+    {
+        Close();
+        delete in_stream_;
+    }
 
   private:
     bool is_open_;
-- 
2.43.0


From 515b4feb46256b537a62b3a1950c2f6a067837f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:39 +0000
Subject: [PATCH 35/63] fix: the points of a LAZ file could be read only once

LazReader continued after the last point, so a second GetPoints() failed or
returned other points.
---
 cpp/src/io/laz_reader.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpp/src/io/laz_reader.cpp b/cpp/src/io/laz_reader.cpp
index 6682656..b916ffb 100644
--- a/cpp/src/io/laz_reader.cpp
+++ b/cpp/src/io/laz_reader.cpp
@@ -1,10 +1,17 @@
 #include "copc-lib/io/laz_reader.hpp"
 
+#include <lazperf/readers.hpp>
+
 namespace copc::laz
 {
 std::vector<char> LazReader::GetPointData()
 {
     auto las_header = las_config_.LasHeader();
+    // Points are read in sequence, so start again from the first one: they may have been read before, or an earlier
+    // read may have failed
+    in_stream_->clear();
+    in_stream_->seekg(0);
+    reader_ = std::make_unique<lazperf::reader::generic_file>(*in_stream_);
     // Seek to the end of the chunk table offset/start of the points
     in_stream_->seekg(las_header.PointOffset() + sizeof(int64_t));
 
-- 
2.43.0


From baa1fda1ed0ee595ef4324eb3588b1eabd3fea63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:51 +0000
Subject: [PATCH 36/63] fix: copying a LazConfigWriter shared the original's
 header and extra bytes

---
 cpp/include/copc-lib/las/laz_config.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/include/copc-lib/las/laz_config.hpp b/cpp/include/copc-lib/las/laz_config.hpp
index 3686ec8..59cdb25 100644
--- a/cpp/include/copc-lib/las/laz_config.hpp
+++ b/cpp/include/copc-lib/las/laz_config.hpp
@@ -58,6 +58,9 @@ class LazConfigWriter : public LazConfig
     {
     }
 
+    // A copy must not share its header and extra bytes with the original
+    LazConfigWriter(const LazConfigWriter &other) : LazConfigWriter(static_cast<const LazConfig &>(other)) {}
+
     std::shared_ptr<las::LasHeader> LasHeader() { return header_; }
     las::LasHeader LasHeader() const override { return *header_; }
 };
-- 
2.43.0


From cdb8651b00fa506be5c7ec98c95e22fd4a442afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:52 +0000
Subject: [PATCH 37/63] fix: reading the coordinates of no nodes raised an
 error

---
 python/copclib/mp/read.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/copclib/mp/read.py b/python/copclib/mp/read.py
index e2a90df..f09735f 100644
--- a/python/copclib/mp/read.py
+++ b/python/copclib/mp/read.py
@@ -190,7 +190,9 @@ def read_concat_xyz_class_limit(
     )
 
     # Concatenate all the points in the end, and return one large array of
-    # all the points in the file
+    # all the points in the file. There may be no nodes to concatenate.
+    if not all_xyz:
+        return np.empty((0, 3))
     return np.concatenate(all_xyz)
 
 
-- 
2.43.0


From 2557211d82844ac84392b4b0e065bff17055b5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:01 +0000
Subject: [PATCH 38/63] fix: points transformed into another format than the
 writer's were written as garbage

---
 python/copclib/mp/transform.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/copclib/mp/transform.py b/python/copclib/mp/transform.py
index cc2a00b..a80ab95 100644
--- a/python/copclib/mp/transform.py
+++ b/python/copclib/mp/transform.py
@@ -217,6 +217,14 @@ def _transform_node(
         xyz_max = [max(points.x), max(points.y), max(points.z)]
 
     point_count = len(points)
+    # As when adding points to a writer, they must be in its format
+    if point_count > 0 and (
+        points.point_format_id != writer_header.point_format_id
+        or points.point_record_length != writer_header.point_record_length
+    ):
+        raise RuntimeError(
+            "The transform_function must return points of the same format and size as the writer's!"
+        )
     # Repack and compress the points using the new writer header
     compressed_points = copc.CompressBytes(points.Pack(writer_header), writer_header)
     return compressed_points, node, point_count, xyz_min, xyz_max, return_vals
-- 
2.43.0


From 8cdd28e64c27315e586afef6fb1876c0572d536e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:33 +0000
Subject: [PATCH 39/63] fix: extra bytes that do not fit the record or VLR
 length fields produced corrupt files

---
 cpp/include/copc-lib/io/laz_base_writer.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cpp/include/copc-lib/io/laz_base_writer.hpp b/cpp/include/copc-lib/io/laz_base_writer.hpp
index 085e153..f894a7b 100644
--- a/cpp/include/copc-lib/io/laz_base_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_base_writer.hpp
@@ -3,6 +3,7 @@
 
 #include <array>
 #include <iterator>
+#include <limits>
 #include <optional>
 #include <ostream>
 #include <stdexcept>
@@ -26,6 +27,12 @@ class BaseWriter
     BaseWriter(std::ostream &out_stream, std::shared_ptr<las::LazConfig> laz_config)
         : out_stream_(out_stream), config_(std::move(laz_config)), open_(true)
     {
+        // The record length and the lengths of VLRs are 16-bit fields
+        const auto eb_vlr = config_->ExtraBytesVlr();
+        if (eb_vlr.size() > (std::numeric_limits<uint16_t>::max)() ||
+            las::PointBaseByteSize(config_->LasHeader().PointFormatId()) + las::NumBytesFromExtraBytes(eb_vlr.items) >
+                (std::numeric_limits<uint16_t>::max)())
+            throw std::runtime_error("BaseWriter: Too many extra bytes to be stored in a file.");
     }
 
     int32_t WriteChunk(const std::vector<char> &in, int32_t point_count = 0, bool compressed = false,
-- 
2.43.0


From e9e6c9ea86c945f0f5db3a6bad95608c21e450ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:02 +0000
Subject: [PATCH 40/63] fix: binary GUIDs were truncated at their first zero
 byte

---
 cpp/src/las/header.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/cpp/src/las/header.cpp b/cpp/src/las/header.cpp
index 99feb9c..3afc95d 100644
--- a/cpp/src/las/header.cpp
+++ b/cpp/src/las/header.cpp
@@ -22,6 +22,15 @@ template <size_t N> std::string FixedString(const char (&field)[N])
 {
     return std::string(field, std::find(field, field + N, '\0'));
 }
+
+// The GUID is binary: zeros are part of it, except for the padding at its end
+template <size_t N> std::string FixedBytes(const char (&field)[N])
+{
+    size_t size = N;
+    while (size > 0 && field[size - 1] == '\0')
+        size--;
+    return std::string(field, size);
+}
 } // namespace
 
 LasHeader::LasHeader(const LasHeader &header, int8_t point_format_id, uint16_t point_record_length,
@@ -68,7 +77,7 @@ LasHeader LasHeader::FromLazPerf(const lazperf::header14 &header)
     if (!(header.global_encoding & 0x10))
         throw std::runtime_error("LasHeader::FromLazPerf: WKT bit must be set.");
     h.global_encoding = header.global_encoding;
-    h.guid_ = FixedString(header.guid);
+    h.guid_ = FixedBytes(header.guid);
     if (header.version.major != 1 || header.version.minor != 4)
         throw std::runtime_error("LasHeader::FromLazPerf: Header version needs to be 1.4");
     h.system_identifier_ = FixedString(header.system_identifier);
@@ -114,7 +123,8 @@ lazperf::header14 LasHeader::ToLazPerf(uint32_t point_offset, uint64_t point_cou
     h.file_source_id = file_source_id;
     h.global_encoding = global_encoding;
     h.global_encoding |= (1 << 4); // Set the WKT bit.
-    std::strncpy(h.guid, guid_.c_str(), 16);
+    std::fill(std::begin(h.guid), std::end(h.guid), '\0');
+    std::copy(guid_.begin(), guid_.end(), h.guid);
     h.version.major = version_major_;
     h.version.minor = version_minor_;
     std::strncpy(h.system_identifier, system_identifier_.c_str(), 32);
-- 
2.43.0


From 06f6429af45f149b24135cbb72ee5b37e7059b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 41/63] fix: headers whose text fields are not UTF-8 could not
 be pickled

---
 python/bindings.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/bindings.cpp b/python/bindings.cpp
index 8d60588..3879d55 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -506,11 +506,12 @@ PYBIND11_MODULE(_core, m)
         .def(py::pickle(
             [](const las::LasHeader &h) { // __getstate__
                 /* Return a tuple that fully encodes the state of the object */
-                return py::make_tuple(h.file_source_id, h.global_encoding, h.GUID(), h.SystemIdentifier(),
-                                      h.GeneratingSoftware(), h.creation_day, h.creation_year, h.PointOffset(),
-                                      h.VlrCount(), h.PointFormatId(), h.PointRecordLength(), h.Scale(), h.Offset(),
-                                      h.max, h.min, h.EvlrOffset(), h.EvlrCount(), h.PointCount(), h.points_by_return,
-                                      h.IsCopc());
+                // The text fields are bytes of the file, not necessarily UTF-8
+                return py::make_tuple(h.file_source_id, h.global_encoding, py::bytes(h.GUID()),
+                                      py::bytes(h.SystemIdentifier()), py::bytes(h.GeneratingSoftware()),
+                                      h.creation_day, h.creation_year, h.PointOffset(), h.VlrCount(), h.PointFormatId(),
+                                      h.PointRecordLength(), h.Scale(), h.Offset(), h.max, h.min, h.EvlrOffset(),
+                                      h.EvlrCount(), h.PointCount(), h.points_by_return, h.IsCopc());
             },
             [](const py::tuple &t) { // __setstate__
                 if (t.size() != 20)
-- 
2.43.0


From 91cc2351bce373afbf9f898fc850f6fe9306d9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 42/63] fix: empty slices of a Points object raised an error

---
 python/bindings.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/bindings.cpp b/python/bindings.cpp
index 3879d55..fc580ab 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -360,7 +360,8 @@ PYBIND11_MODULE(_core, m)
                      start += step;
                  }
 
-                 auto *seq = new las::Points(new_points);
+                 auto *seq = new las::Points(s.PointFormatId(), s.EbByteSize());
+                 seq->AddPoints(new_points);
                  return seq;
              })
         .def("__setitem__",
-- 
2.43.0


From b6fce12da363c53c0148e99ab6602327f0c98fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:51 +0000
Subject: [PATCH 43/63] fix: assigning a point of another format or size to a
 Points element made the object inconsistent

---
 python/bindings.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/bindings.cpp b/python/bindings.cpp
index fc580ab..65ebe3d 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -335,6 +335,8 @@ PYBIND11_MODULE(_core, m)
         .def("__setitem__",
              [wrap_i](las::Points &s, DiffType i, std::shared_ptr<las::Point> v) {
                  i = wrap_i(i, s.Size());
+                 if (v->PointFormatId() != s.PointFormatId() || v->PointRecordLength() != s.PointRecordLength())
+                     throw std::runtime_error("New point must be of same format and byte_size.");
                  s[(SizeType)i] = std::move(v);
              })
         .def("__len__", &las::Points::Size)
@@ -373,6 +375,9 @@ PYBIND11_MODULE(_core, m)
                  if (slicelength != value.Size())
                      throw std::runtime_error("Left and right hand size of slice assignment have different sizes!");
 
+                 if (value.PointFormatId() != s.PointFormatId() || value.PointRecordLength() != s.PointRecordLength())
+                     throw std::runtime_error("New points must be of same format and byte_size.");
+
                  for (size_t i = 0; i < slicelength; ++i)
                  {
                      s[start] = value[i];
-- 
2.43.0


From a64fe0ef86dd9160de4fabd4f53e65b728992e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 44/63] fix: scan angles in degrees beyond the 16-bit field
 wrapped instead of being refused

---
 cpp/include/copc-lib/las/point.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/cpp/include/copc-lib/las/point.hpp b/cpp/include/copc-lib/las/point.hpp
index 6b87791..0f53095 100644
--- a/cpp/include/copc-lib/las/point.hpp
+++ b/cpp/include/copc-lib/las/point.hpp
@@ -1,6 +1,8 @@
 #ifndef COPCLIB_LAS_POINT_H_
 #define COPCLIB_LAS_POINT_H_
 
+#include <cmath>
+#include <limits>
 #include <sstream>
 #include <vector>
 
@@ -68,7 +70,11 @@ class Point
 
     void ScanAngleDegrees(const float &scan_angle)
     {
-        scan_angle_ = static_cast<int16_t>(std::lround(scan_angle / 0.006f));
+        const float steps = std::round(scan_angle / 0.006f);
+        // written so that NaN is refused too
+        if (!(steps >= (std::numeric_limits<int16_t>::min)() && steps <= (std::numeric_limits<int16_t>::max)()))
+            throw std::runtime_error("Scan angle does not fit in 16 bits.");
+        scan_angle_ = static_cast<int16_t>(steps);
     }
 
     uint8_t UserData() const { return user_data_; }
-- 
2.43.0


From 2bbc59dfe08cd4899480101f5647557f24f3919d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 45/63] fix: compressed chunks without data were accepted for a
 positive point count

---
 cpp/src/io/copc_writer_public.cpp | 2 ++
 cpp/src/io/laz_writer.cpp         | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index 7191d75..9cd6a81 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -140,6 +140,8 @@ Node Writer::AddNodeCompressed(const VoxelKey &key, std::vector<char> const &com
 {
     if (point_count <= 0)
         throw std::runtime_error("Point count must be >0!");
+    if (compressed_data.empty())
+        throw std::runtime_error("Compressed data must not be empty!");
 
     return DoAddNode(key, compressed_data, point_count, true, page_key);
 }
diff --git a/cpp/src/io/laz_writer.cpp b/cpp/src/io/laz_writer.cpp
index ce91a8b..ac48857 100644
--- a/cpp/src/io/laz_writer.cpp
+++ b/cpp/src/io/laz_writer.cpp
@@ -31,6 +31,8 @@ void LazWriter::WritePointsCompressed(std::vector<char> const &compressed_data,
 {
     if (point_count <= 0)
         throw std::runtime_error("Point count must be >0!");
+    if (compressed_data.empty())
+        throw std::runtime_error("Compressed data must not be empty!");
 
     WriteChunk(compressed_data, point_count, true);
 }
-- 
2.43.0


From 111f0f3e758cb2a5fdeb1439e9fb7c0f66d98207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:07 +0000
Subject: [PATCH 46/63] fix: refuse to add a node to a COPC file twice

The second AddNode with the same key replaced the first in the writer's lookups,
while the points of both stayed in the file and in its point count; given another
page, the finished hierarchy listed the node in both pages.
---
 cpp/src/io/copc_writer_public.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index 9cd6a81..2da7b6c 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -89,7 +89,8 @@ Node Writer::DoAddNode(const VoxelKey &key, const std::vector<char> &in, int32_t
 {
     if (!page_key.IsValid() || !key.IsValid())
         throw std::runtime_error("Invalid page or node key!");
-    // TODO[leo]: Check if node already loaded
+    if (hierarchy_->NodeExists(key))
+        throw std::runtime_error("Node " + key.ToString() + " has already been added.");
 
     if (!key.ChildOf(page_key))
         throw std::runtime_error("Target key " + key.ToString() + " is not a child of page node " + key.ToString());
-- 
2.43.0


From b5df51e2d16c73bc3a78003d75c66ddaf0a56007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:18 +0000
Subject: [PATCH 47/63] fix: refuse compressed chunks over 2 GiB before writing
 them, not after

The error came only once the chunk was in the file and in the chunk table,
so the finished file had a chunk that belongs to no node.
---
 cpp/src/io/laz_base_writer.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index 7525b35..9be27c9 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -114,6 +114,9 @@ int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count,
 {
     if (!open_)
         throw std::runtime_error("BaseWriter::WriteChunk: The writer has already been closed.");
+    // Refuse what is known not to fit before any of it is in the file
+    if (compressed && in.size() > static_cast<size_t>((std::numeric_limits<int32_t>::max)()))
+        throw std::runtime_error("BaseWriter::WriteChunk: Chunk is too large!");
 
     const auto startpos = static_cast<int64_t>(out_stream_.tellp());
     if (startpos <= 0)
-- 
2.43.0


From 73c1edfd5a4aed55d23e66e05b16b6ea6129664f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:42 +0000
Subject: [PATCH 48/63] fix: FindNode recursed over nested pages and listed
 every ancestor of the key, whose depth is up to the file

---
 .../copc-lib/hierarchy/internal/hierarchy.hpp | 25 +++++++++++++------
 cpp/src/hierarchy/key.cpp                     |  7 +-----
 cpp/src/io/copc_base_io.cpp                   | 25 +++++++++++--------
 3 files changed, 33 insertions(+), 24 deletions(-)

diff --git a/cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp b/cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp
index e5ea74a..cf34377 100644
--- a/cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp
+++ b/cpp/include/copc-lib/hierarchy/internal/hierarchy.hpp
@@ -29,15 +29,24 @@ class Hierarchy
             std::make_shared<PageInternal>(VoxelKey::RootKey(), root_hier_offset, root_hier_size);
     };
 
-    // Find the lowest depth page that has been seen within a hierarchy list
-    std::shared_ptr<PageInternal> NearestLoadedPage(const std::vector<VoxelKey> &parents_list)
+    // Find the deepest page that has been seen among a key and its ancestors
+    std::shared_ptr<PageInternal> NearestLoadedPage(const VoxelKey &key)
     {
-        // Iterates through the list of key ancestors to find if any have been seen
-        for (auto &nearest_seen_parent : parents_list)
-            if (PageExists(nearest_seen_parent))
-                return seen_pages_[nearest_seen_parent];
-
-        return nullptr;
+        std::shared_ptr<PageInternal> nearest;
+        // The depth of a key is up to the file, so go through whichever is fewer: its ancestors or the pages
+        if (key.d > 0 && static_cast<size_t>(key.d) > seen_pages_.size())
+        {
+            for (const auto &page : seen_pages_)
+                if (key.ChildOf(page.first) && (nearest == nullptr || page.first.d > nearest->key.d))
+                    nearest = page.second;
+            return nearest;
+        }
+
+        for (auto ancestor = key; ancestor.IsValid(); ancestor = ancestor.GetParent())
+            if (PageExists(ancestor))
+                return seen_pages_[ancestor];
+
+        return nearest;
     }
 
     bool PageExists(VoxelKey key) { return seen_pages_.find(key) != seen_pages_.end(); }
diff --git a/cpp/src/hierarchy/key.cpp b/cpp/src/hierarchy/key.cpp
index 2df9d9a..6c3c3ea 100644
--- a/cpp/src/hierarchy/key.cpp
+++ b/cpp/src/hierarchy/key.cpp
@@ -81,12 +81,7 @@ std::vector<VoxelKey> VoxelKey::GetParents(bool include_self) const
 
 bool VoxelKey::ChildOf(VoxelKey parent_key) const
 {
-    for (auto parent : GetParents(true))
-    {
-        if (parent == parent_key)
-            return true;
-    }
-    return false;
+    return IsValid() && parent_key.IsValid() && parent_key.d <= d && GetParentAtDepth(parent_key.d) == parent_key;
 }
 
 double VoxelKey::Resolution(const las::LasHeader &header, const CopcInfo &copc_info) const
diff --git a/cpp/src/io/copc_base_io.cpp b/cpp/src/io/copc_base_io.cpp
index 2127bb1..3127a00 100644
--- a/cpp/src/io/copc_base_io.cpp
+++ b/cpp/src/io/copc_base_io.cpp
@@ -17,21 +17,26 @@ Node BaseIO::FindNode(VoxelKey key)
         return *hierarchy_->loaded_nodes_[key];
     }
 
-    // Get a list of the key's hierarchial parents, so we can see if any of them are loaded
-    auto parents_list = key.GetParents(true);
-
     // Find if of the key's ancestors have been seen
-    std::shared_ptr<Internal::PageInternal> nearest_page = hierarchy_->NearestLoadedPage(parents_list);
+    std::shared_ptr<Internal::PageInternal> nearest_page = hierarchy_->NearestLoadedPage(key);
     // If none of the key's ancestors exist, then this key doesn't exist in the hierarchy
     // Or, if the nearest ancestor has already been loaded, that means the key isn't a node within that page.
-    if (nearest_page == nullptr || nearest_page->loaded)
-        return {};
+    while (nearest_page != nullptr && !nearest_page->loaded)
+    {
+        // Load the page and add the subpages and page nodes
+        const auto page = nearest_page;
+        ReadAndParsePage(page);
 
-    // Load the page and add the subpages and page nodes
-    ReadAndParsePage(nearest_page);
+        // Try to find the key again
+        if (hierarchy_->NodeExists(key))
+            return *hierarchy_->loaded_nodes_[key];
 
-    // Try to find the key again
-    return FindNode(key);
+        // The nearest of the pages just seen
+        for (const auto &sub_page : page->sub_pages)
+            if (sub_page->key.d > nearest_page->key.d && key.ChildOf(sub_page->key))
+                nearest_page = sub_page;
+    }
+    return {};
 }
 
 void BaseIO::LoadPageHierarchy(const std::shared_ptr<Internal::PageInternal> &page, std::vector<Node> &loaded_nodes)
-- 
2.43.0


From 92fe5d309439013b3d62012d4080ee4b3934f5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:21 +0000
Subject: [PATCH 49/63] fix: assigning extents shared the original's extent
 objects

---
 cpp/include/copc-lib/copc/extents.hpp | 1 +
 cpp/src/copc/extents.cpp              | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/cpp/include/copc-lib/copc/extents.hpp b/cpp/include/copc-lib/copc/extents.hpp
index 4c7ba3e..0da3de0 100644
--- a/cpp/include/copc-lib/copc/extents.hpp
+++ b/cpp/include/copc-lib/copc/extents.hpp
@@ -58,6 +58,7 @@ class CopcExtents
 
     // Copy constructor
     CopcExtents(const CopcExtents &other);
+    CopcExtents &operator=(const CopcExtents &other);
 
     // Copy constructor with updated protected attributes
     CopcExtents(const CopcExtents &other, int8_t point_format_id, uint16_t num_eb_items, bool has_extended_stats);
diff --git a/cpp/src/copc/extents.cpp b/cpp/src/copc/extents.cpp
index ff2ca5c..fbbbf8e 100644
--- a/cpp/src/copc/extents.cpp
+++ b/cpp/src/copc/extents.cpp
@@ -70,6 +70,15 @@ CopcExtents::CopcExtents(const CopcExtents &other)
         extents_.push_back(std::make_shared<CopcExtent>(other.Extents()[i]));
 }
 
+// A copy must not share its extents with the original
+CopcExtents &CopcExtents::operator=(const CopcExtents &other)
+{
+    extents_ = CopcExtents(other).extents_;
+    point_format_id_ = other.point_format_id_;
+    has_extended_stats_ = other.has_extended_stats_;
+    return *this;
+}
+
 CopcExtents::CopcExtents(const CopcExtents &other, int8_t point_format_id, uint16_t num_eb_items,
                          bool has_extended_stats)
     : CopcExtents(point_format_id, num_eb_items, has_extended_stats)
-- 
2.43.0


From 3bbdf380f3fadeb0467703952195c354ac1ef07e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:02 +0000
Subject: [PATCH 50/63] fix: assigned or plain copies of a writer's
 configuration shared its header, extra bytes, info and extents

---
 cpp/include/copc-lib/copc/copc_config.hpp | 10 ++++++++++
 cpp/include/copc-lib/las/laz_config.hpp   | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/cpp/include/copc-lib/copc/copc_config.hpp b/cpp/include/copc-lib/copc/copc_config.hpp
index 5bd503b..0c7a5d6 100644
--- a/cpp/include/copc-lib/copc/copc_config.hpp
+++ b/cpp/include/copc-lib/copc/copc_config.hpp
@@ -30,6 +30,16 @@ class CopcConfig : public las::LazConfig
           copc_info_(std::make_shared<copc::CopcInfo>(copc_info)),
           copc_extents_(std::make_shared<copc::CopcExtents>(copc_extents)){};
 
+    // A copy must not share its info and extents with the original, which may be a writer's
+    CopcConfig(const CopcConfig &other) { *this = other; }
+    CopcConfig &operator=(const CopcConfig &other)
+    {
+        LazConfig::operator=(other);
+        copc_info_ = other.copc_info_ ? std::make_shared<copc::CopcInfo>(*other.copc_info_) : nullptr;
+        copc_extents_ = other.copc_extents_ ? std::make_shared<copc::CopcExtents>(*other.copc_extents_) : nullptr;
+        return *this;
+    }
+
     virtual copc::CopcInfo CopcInfo() const { return *copc_info_; }
 
     virtual copc::CopcExtents CopcExtents() const { return *copc_extents_; }
diff --git a/cpp/include/copc-lib/las/laz_config.hpp b/cpp/include/copc-lib/las/laz_config.hpp
index 59cdb25..2899155 100644
--- a/cpp/include/copc-lib/las/laz_config.hpp
+++ b/cpp/include/copc-lib/las/laz_config.hpp
@@ -26,6 +26,16 @@ class LazConfig
         eb_vlr_ = std::make_shared<las::EbVlr>(extra_bytes_vlr);
     }
 
+    // A copy must not share its header and extra bytes with the original, which may be a writer's
+    LazConfig(const LazConfig &other) { *this = other; }
+    LazConfig &operator=(const LazConfig &other)
+    {
+        header_ = other.header_ ? std::make_shared<las::LasHeader>(*other.header_) : nullptr;
+        wkt_ = other.wkt_;
+        eb_vlr_ = other.eb_vlr_ ? std::make_shared<las::EbVlr>(*other.eb_vlr_) : nullptr;
+        return *this;
+    }
+
     virtual las::LasHeader LasHeader() const { return *header_; }
 
     std::string Wkt() const { return wkt_; }
-- 
2.43.0


From cd63c9f25c654a0dad7471c7677da9fd47a2658a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:24 +0000
Subject: [PATCH 51/63] fix: assigning a Points object to a slice of itself
 used points that had already been replaced

---
 python/bindings.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/bindings.cpp b/python/bindings.cpp
index 65ebe3d..019a1cd 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -367,7 +367,8 @@ PYBIND11_MODULE(_core, m)
                  return seq;
              })
         .def("__setitem__",
-             [](las::Points &s, const py::slice &slice, const las::Points &value) {
+             // value is a copy, since it may be s itself
+             [](las::Points &s, const py::slice &slice, const las::Points value) {
                  size_t start = 0, stop = 0, step = 0, slicelength = 0;
                  if (!slice.compute(s.Size(), &start, &stop, &step, &slicelength))
                      throw py::error_already_set();
-- 
2.43.0


From 476265e475de0583d047063a0e99e6bac2651849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:00 +0000
Subject: [PATCH 52/63] fix: None (or an empty pointer) given as a point
 crashed instead of being refused

---
 cpp/src/las/points.cpp | 6 ++++++
 python/bindings.cpp    | 2 ++
 2 files changed, 8 insertions(+)

diff --git a/cpp/src/las/points.cpp b/cpp/src/las/points.cpp
index 57e34b1..164e805 100644
--- a/cpp/src/las/points.cpp
+++ b/cpp/src/las/points.cpp
@@ -22,6 +22,8 @@ Points::Points(const std::vector<std::shared_ptr<Point>> &points)
     if (points.empty())
         throw std::runtime_error("Can't add empty vector of points to Points!");
 
+    if (points[0] == nullptr)
+        throw std::runtime_error("Can't add an empty pointer to Points!");
     point_record_length_ = points[0]->PointRecordLength();
     point_format_id_ = points[0]->PointFormatId();
 
@@ -41,6 +43,8 @@ void Points::ToPointFormat(const int8_t &point_format_id)
 
 void Points::AddPoint(const std::shared_ptr<Point> &point)
 {
+    if (point == nullptr)
+        throw std::runtime_error("Can't add an empty pointer to Points!");
     if (point->PointFormatId() == point_format_id_ && point->PointRecordLength() == point_record_length_)
         points_.push_back(point);
     else
@@ -60,6 +64,8 @@ void Points::AddPoints(std::vector<std::shared_ptr<Point>> points)
 {
     for (const auto &point : points)
     {
+        if (point == nullptr)
+            throw std::runtime_error("Can't add an empty pointer to Points!");
         if (point->PointFormatId() != point_format_id_ || point->PointRecordLength() != point_record_length_)
             throw std::runtime_error("New points must be of same format and byte_size.");
     }
diff --git a/python/bindings.cpp b/python/bindings.cpp
index 019a1cd..f6e762d 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -335,6 +335,8 @@ PYBIND11_MODULE(_core, m)
         .def("__setitem__",
              [wrap_i](las::Points &s, DiffType i, std::shared_ptr<las::Point> v) {
                  i = wrap_i(i, s.Size());
+                 if (v == nullptr)
+                     throw std::runtime_error("New point must not be None.");
                  if (v->PointFormatId() != s.PointFormatId() || v->PointRecordLength() != s.PointRecordLength())
                      throw std::runtime_error("New point must be of same format and byte_size.");
                  s[(SizeType)i] = std::move(v);
-- 
2.43.0


From ab2877df5645b6540b347b0b236b5977dbf3a6dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:07 +0000
Subject: [PATCH 53/63] fix: None given as an extent was accepted and crashed
 when the extents were used

---
 cpp/include/copc-lib/copc/extents.hpp | 47 +++++++++++++++++----------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/cpp/include/copc-lib/copc/extents.hpp b/cpp/include/copc-lib/copc/extents.hpp
index 0da3de0..716f1ce 100644
--- a/cpp/include/copc-lib/copc/extents.hpp
+++ b/cpp/include/copc-lib/copc/extents.hpp
@@ -1,6 +1,8 @@
 #ifndef COPCLIB_COPC_EXTENTS_H_
 #define COPCLIB_COPC_EXTENTS_H_
 
+#include <algorithm>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <vector>
@@ -139,44 +141,44 @@ class CopcExtents
     }
 
     // Setters for python bindings
-    void X(std::shared_ptr<CopcExtent> x) { extents_[0] = std::move(x); }
-    void Y(std::shared_ptr<CopcExtent> y) { extents_[1] = std::move(y); }
-    void Z(std::shared_ptr<CopcExtent> z) { extents_[2] = std::move(z); }
-    void Intensity(std::shared_ptr<CopcExtent> intensity) { extents_[3] = std::move(intensity); }
-    void ReturnNumber(std::shared_ptr<CopcExtent> return_number) { extents_[4] = std::move(return_number); }
-    void NumberOfReturns(std::shared_ptr<CopcExtent> number_of_returns) { extents_[5] = std::move(number_of_returns); }
-    void ScannerChannel(std::shared_ptr<CopcExtent> scanner_channel) { extents_[6] = std::move(scanner_channel); }
+    void X(std::shared_ptr<CopcExtent> x) { Set(0, std::move(x)); }
+    void Y(std::shared_ptr<CopcExtent> y) { Set(1, std::move(y)); }
+    void Z(std::shared_ptr<CopcExtent> z) { Set(2, std::move(z)); }
+    void Intensity(std::shared_ptr<CopcExtent> intensity) { Set(3, std::move(intensity)); }
+    void ReturnNumber(std::shared_ptr<CopcExtent> return_number) { Set(4, std::move(return_number)); }
+    void NumberOfReturns(std::shared_ptr<CopcExtent> number_of_returns) { Set(5, std::move(number_of_returns)); }
+    void ScannerChannel(std::shared_ptr<CopcExtent> scanner_channel) { Set(6, std::move(scanner_channel)); }
     void ScanDirectionFlag(std::shared_ptr<CopcExtent> scan_direction_flag)
     {
-        extents_[7] = std::move(scan_direction_flag);
+        Set(7, std::move(scan_direction_flag));
     }
     void EdgeOfFlightLine(std::shared_ptr<CopcExtent> edge_of_flight_line)
     {
-        extents_[8] = std::move(edge_of_flight_line);
+        Set(8, std::move(edge_of_flight_line));
     }
-    void Classification(std::shared_ptr<CopcExtent> classification) { extents_[9] = std::move(classification); }
-    void UserData(std::shared_ptr<CopcExtent> user_data) { extents_[10] = std::move(user_data); }
-    void ScanAngle(std::shared_ptr<CopcExtent> scan_angle) { extents_[11] = std::move(scan_angle); }
-    void PointSourceId(std::shared_ptr<CopcExtent> point_source_id) { extents_[12] = std::move(point_source_id); }
-    void GpsTime(std::shared_ptr<CopcExtent> gps_time) { extents_[13] = std::move(gps_time); }
+    void Classification(std::shared_ptr<CopcExtent> classification) { Set(9, std::move(classification)); }
+    void UserData(std::shared_ptr<CopcExtent> user_data) { Set(10, std::move(user_data)); }
+    void ScanAngle(std::shared_ptr<CopcExtent> scan_angle) { Set(11, std::move(scan_angle)); }
+    void PointSourceId(std::shared_ptr<CopcExtent> point_source_id) { Set(12, std::move(point_source_id)); }
+    void GpsTime(std::shared_ptr<CopcExtent> gps_time) { Set(13, std::move(gps_time)); }
     void Red(std::shared_ptr<CopcExtent> red)
     {
         if (point_format_id_ > 6)
-            extents_[14] = std::move(red);
+            Set(14, std::move(red));
         else
             throw std::runtime_error("CopcExtents::Red: This point format does not have Red");
     }
     void Green(std::shared_ptr<CopcExtent> green)
     {
         if (point_format_id_ > 6)
-            extents_[15] = std::move(green);
+            Set(15, std::move(green));
         else
             throw std::runtime_error("CopcExtents::Green: This point format does not have Green");
     }
     void Blue(std::shared_ptr<CopcExtent> blue)
     {
         if (point_format_id_ > 6)
-            extents_[16] = std::move(blue);
+            Set(16, std::move(blue));
         else
             throw std::runtime_error("CopcExtents::Blue: This point format does not have Blue");
     }
@@ -184,7 +186,7 @@ class CopcExtents
     void Nir(std::shared_ptr<CopcExtent> nir)
     {
         if (point_format_id_ == 8)
-            extents_[17] = std::move(nir);
+            Set(17, std::move(nir));
         else
             throw std::runtime_error("CopcExtents::NIR: This point format does not have NIR");
     }
@@ -193,6 +195,8 @@ class CopcExtents
     {
         if (extra_bytes.size() != (extents_.size() - NumberOfExtents(point_format_id_)))
             throw std::runtime_error("CopcExtents::ExtraBytesVlr: Vector of extra byte must be the right length.");
+        if (std::find(extra_bytes.begin(), extra_bytes.end(), nullptr) != extra_bytes.end())
+            throw std::runtime_error("CopcExtents::ExtraBytesVlr: Extent must not be None.");
         std::copy(extra_bytes.begin(), extra_bytes.end(), extents_.begin() + NumberOfExtents(point_format_id_));
     }
 
@@ -221,6 +225,13 @@ class CopcExtents
     }
 
   private:
+    void Set(size_t i, std::shared_ptr<CopcExtent> extent)
+    {
+        if (extent == nullptr)
+            throw std::runtime_error("CopcExtents: Extent must not be None.");
+        extents_[i] = std::move(extent);
+    }
+
     int8_t point_format_id_;
     bool has_extended_stats_{false};
     std::vector<std::shared_ptr<CopcExtent>> extents_;
-- 
2.43.0


From c12f84ad9796b0a0c02396c551264e77c666ed36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:32 +0000
Subject: [PATCH 54/63] fix: deeply nested pages were destroyed and written
 recursively, exhausting the stack

---
 .../copc-lib/hierarchy/internal/page.hpp      | 18 +++++++++++
 .../io/internal/copc_writer_internal.hpp      |  2 +-
 cpp/src/io/copc_writer_internal.cpp           | 30 ++++++++++++++-----
 3 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/cpp/include/copc-lib/hierarchy/internal/page.hpp b/cpp/include/copc-lib/hierarchy/internal/page.hpp
index f4ab4e1..995bd4b 100644
--- a/cpp/include/copc-lib/hierarchy/internal/page.hpp
+++ b/cpp/include/copc-lib/hierarchy/internal/page.hpp
@@ -1,9 +1,11 @@
 #ifndef COPCLIB_HIERARCHY_PAGE_INTERNAL_H_
 #define COPCLIB_HIERARCHY_PAGE_INTERNAL_H_
 
+#include <memory>
 #include <set>
 #include <unordered_map>
 #include <utility>
+#include <vector>
 
 #include "copc-lib/hierarchy/page.hpp"
 
@@ -18,6 +20,22 @@ class PageInternal : public Page
     PageInternal(VoxelKey key, int64_t offset, int32_t byte_size) : Page(key, offset, byte_size){};
     PageInternal(VoxelKey key) : Page(key, -1, -1){};
 
+    // Pages may be nested as deeply as a file says, so sub pages that only this page owns are not destroyed recursively
+    ~PageInternal()
+    {
+        std::vector<std::shared_ptr<PageInternal>> owned(sub_pages.begin(), sub_pages.end());
+        sub_pages.clear();
+        while (!owned.empty())
+        {
+            auto page = std::move(owned.back());
+            owned.pop_back();
+            if (page.use_count() > 1)
+                continue;
+            owned.insert(owned.end(), page->sub_pages.begin(), page->sub_pages.end());
+            page->sub_pages.clear();
+        }
+    }
+
     std::set<std::shared_ptr<PageInternal>> sub_pages;
     std::unordered_map<VoxelKey, std::shared_ptr<Node>> nodes;
 };
diff --git a/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp b/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp
index 9f3fc61..cc91388 100644
--- a/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp
+++ b/cpp/include/copc-lib/io/internal/copc_writer_internal.hpp
@@ -41,7 +41,7 @@ class WriterInternal : laz::BaseWriter
     void ComputePageHierarchy();
 
     // Iterates through a given page in a postorder traversal and writes the pages
-    void WritePageTree(const std::shared_ptr<PageInternal> &current);
+    void WritePageTree(const std::shared_ptr<PageInternal> &root);
 };
 } // namespace copc::Internal
 #endif // COPCLIB_IO_COPC_WRITER_INTERNAL_H_
diff --git a/cpp/src/io/copc_writer_internal.cpp b/cpp/src/io/copc_writer_internal.cpp
index e6dc0fd..9d0fcc2 100644
--- a/cpp/src/io/copc_writer_internal.cpp
+++ b/cpp/src/io/copc_writer_internal.cpp
@@ -1,8 +1,10 @@
 #include <cstring>
 #include <iterator>
 #include <memory>
+#include <set>
 #include <stdexcept>
 #include <string>
+#include <vector>
 
 #include "copc-lib/copc/extents.hpp"
 #include "copc-lib/hierarchy/internal/hierarchy.hpp"
@@ -180,19 +182,31 @@ void WriterInternal::ComputePageHierarchy()
 }
 
 // https://en.wikipedia.org/wiki/Tree_traversal#Arbitrary_trees
-void WriterInternal::WritePageTree(const std::shared_ptr<PageInternal> &current)
+void WriterInternal::WritePageTree(const std::shared_ptr<PageInternal> &root)
 {
     // If the current node is empty then return.
-    if (current == nullptr)
+    if (root == nullptr)
         return;
 
-    // For each i from 1 to the current node's number of subtrees, do:
-    for (const auto &child : current->sub_pages)
+    // The pages from the root to the current one, each with the next of its subtrees
+    std::vector<std::pair<std::shared_ptr<PageInternal>, std::set<std::shared_ptr<PageInternal>>::const_iterator>> path;
+    path.emplace_back(root, root->sub_pages.begin());
+    while (!path.empty())
     {
-        WritePageTree(child);
-    }
+        const auto current = path.back().first;
+        auto &child = path.back().second;
 
-    // Visit the current node for post-order traversal.
-    WritePage(current);
+        // For each i from 1 to the current node's number of subtrees, do:
+        if (child != current->sub_pages.end())
+        {
+            const auto next = *child++;
+            path.emplace_back(next, next->sub_pages.begin());
+            continue;
+        }
+
+        // Visit the current node for post-order traversal.
+        WritePage(current);
+        path.pop_back();
+    }
 }
 } // namespace copc::Internal
-- 
2.43.0


From b02f3174350114de9f4ea15ea703c0badccc034f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:23 +0000
Subject: [PATCH 55/63] fix: bounds updated by a transformation were those
 before rounding to the writer's scale, leaving points outside them

---
 python/copclib/mp/transform.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/python/copclib/mp/transform.py b/python/copclib/mp/transform.py
index a80ab95..1d567f4 100644
--- a/python/copclib/mp/transform.py
+++ b/python/copclib/mp/transform.py
@@ -209,13 +209,6 @@ def _transform_node(
         points = ret
         return_vals = {}
 
-    # compute the minimum and maximum of the node's points, if necessary
-    xyz_min = None
-    xyz_max = None
-    if update_minmax and len(points) > 0:
-        xyz_min = [min(points.x), min(points.y), min(points.z)]
-        xyz_max = [max(points.x), max(points.y), max(points.z)]
-
     point_count = len(points)
     # As when adding points to a writer, they must be in its format
     if point_count > 0 and (
@@ -226,5 +219,16 @@ def _transform_node(
             "The transform_function must return points of the same format and size as the writer's!"
         )
     # Repack and compress the points using the new writer header
-    compressed_points = copc.CompressBytes(points.Pack(writer_header), writer_header)
+    packed_points = points.Pack(writer_header)
+    compressed_points = copc.CompressBytes(packed_points, writer_header)
+
+    # compute the minimum and maximum of the node's points, if necessary
+    xyz_min = None
+    xyz_max = None
+    if update_minmax and point_count > 0:
+        # the writer's scale and offset may have moved them
+        points = copc.Points.Unpack(packed_points, writer_header)
+        xyz_min = [min(points.x), min(points.y), min(points.z)]
+        xyz_max = [max(points.x), max(points.y), max(points.z)]
+
     return compressed_points, node, point_count, xyz_min, xyz_max, return_vals
-- 
2.43.0


From 078a4d8e18803ae316062e742e1257e6995f508e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:06:22 +0000
Subject: [PATCH 56/63] fix: pages outside of the root node were accepted,
 making the file impossible to close

---
 cpp/src/io/copc_writer_public.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cpp/src/io/copc_writer_public.cpp b/cpp/src/io/copc_writer_public.cpp
index 2da7b6c..5d68cad 100644
--- a/cpp/src/io/copc_writer_public.cpp
+++ b/cpp/src/io/copc_writer_public.cpp
@@ -89,6 +89,9 @@ Node Writer::DoAddNode(const VoxelKey &key, const std::vector<char> &in, int32_t
 {
     if (!page_key.IsValid() || !key.IsValid())
         throw std::runtime_error("Invalid page or node key!");
+    // Every page is nested in the root page
+    if (!page_key.ChildOf(VoxelKey::RootKey()))
+        throw std::runtime_error("Page key " + page_key.ToString() + " is outside of the root node!");
     if (hierarchy_->NodeExists(key))
         throw std::runtime_error("Node " + key.ToString() + " has already been added.");
 
-- 
2.43.0


From 905d3bbc4118dcaef0c19a0e17d703d66a767049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:03 +0000
Subject: [PATCH 57/63] fix: point records longer than 65535 bytes wrapped
 around to a short length, reading past the records' ends

---
 cpp/src/las/point.cpp  | 4 ++--
 cpp/src/las/points.cpp | 5 +++--
 cpp/src/las/utils.cpp  | 8 +++++++-
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/cpp/src/las/point.cpp b/cpp/src/las/point.cpp
index bb78b47..eff1b67 100644
--- a/cpp/src/las/point.cpp
+++ b/cpp/src/las/point.cpp
@@ -8,7 +8,7 @@ Point::Point(const int8_t &point_format_id, const uint16_t &eb_byte_size) : poin
     if (point_format_id < 6 || point_format_id > 8)
         throw std::runtime_error("Point: Point format must be 6-8");
 
-    point_record_length_ = PointBaseByteSize(point_format_id) + eb_byte_size;
+    point_record_length_ = PointByteSize(point_format_id, eb_byte_size);
 
     has_rgb_ = FormatHasRgb(point_format_id);
     has_nir_ = FormatHasNir(point_format_id);
@@ -143,10 +143,10 @@ void Point::ToPointFormat(const int8_t &point_format_id)
 {
     if (point_format_id < 6 || point_format_id > 8)
         throw std::runtime_error("Point format must be 6-8.");
+    point_record_length_ = PointByteSize(point_format_id, EbByteSize());
     // Update flags
     has_rgb_ = FormatHasRgb(point_format_id);
     has_nir_ = FormatHasNir(point_format_id);
-    point_record_length_ = PointBaseByteSize(point_format_id) + extra_bytes_.size();
     point_format_id_ = point_format_id;
 }
 
diff --git a/cpp/src/las/points.cpp b/cpp/src/las/points.cpp
index 164e805..6588a9d 100644
--- a/cpp/src/las/points.cpp
+++ b/cpp/src/las/points.cpp
@@ -34,11 +34,12 @@ void Points::ToPointFormat(const int8_t &point_format_id)
 {
     if (point_format_id < 6 || point_format_id > 8)
         throw std::runtime_error("Point format must be 6-8.");
+    unsigned int eb_byte_size = point_record_length_ - PointBaseByteSize(point_format_id_);
+    const auto point_record_length = PointByteSize(point_format_id, eb_byte_size);
     for (auto &point : points_)
         point->ToPointFormat(point_format_id);
-    unsigned int eb_byte_size = point_record_length_ - PointBaseByteSize(point_format_id_);
     point_format_id_ = point_format_id;
-    point_record_length_ = PointByteSize(point_format_id, eb_byte_size);
+    point_record_length_ = point_record_length;
 }
 
 void Points::AddPoint(const std::shared_ptr<Point> &point)
diff --git a/cpp/src/las/utils.cpp b/cpp/src/las/utils.cpp
index 5e59d0a..962cfc8 100644
--- a/cpp/src/las/utils.cpp
+++ b/cpp/src/las/utils.cpp
@@ -1,5 +1,8 @@
 #include "copc-lib/las/utils.hpp"
 
+#include <limits>
+#include <stdexcept>
+
 namespace copc::las
 {
 
@@ -68,7 +71,10 @@ uint16_t EbByteSize(const int8_t &point_format_id, const uint32_t &point_record_
 
 uint16_t PointByteSize(const int8_t &point_format_id, const uint16_t &eb_byte_size)
 {
-    return PointBaseByteSize(point_format_id) + eb_byte_size;
+    const int byte_size = PointBaseByteSize(point_format_id) + eb_byte_size;
+    if (byte_size > (std::numeric_limits<uint16_t>::max)())
+        throw std::runtime_error("PointByteSize: Point records must be at most 65535 bytes.");
+    return static_cast<uint16_t>(byte_size);
 }
 
 } // namespace copc::las
-- 
2.43.0


From c02e6ae5a2682534c3628a4580dfa35abd6975cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:29 +0000
Subject: [PATCH 58/63] fix: Point::Unpack returned uninitialised fields when
 the stream ended within the point

---
 cpp/src/las/point.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/src/las/point.cpp b/cpp/src/las/point.cpp
index eff1b67..a458f57 100644
--- a/cpp/src/las/point.cpp
+++ b/cpp/src/las/point.cpp
@@ -108,6 +108,8 @@ std::shared_ptr<Point> Point::Unpack(std::istream &in_stream, const int8_t &poin
     {
         p->extra_bytes_[i] = unpack<uint8_t>(in_stream);
     }
+    if (!in_stream)
+        throw std::runtime_error("Point::Unpack: The stream ends within the point.");
     return p;
 }
 
-- 
2.43.0


From acf2beab6fd6061f783c2fd4471f0db0060995a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:51 +0000
Subject: [PATCH 59/63] fix: iterating over a Points object in Python while
 points are added to it read freed memory

---
 python/bindings.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/python/bindings.cpp b/python/bindings.cpp
index f6e762d..4926da1 100644
--- a/python/bindings.cpp
+++ b/python/bindings.cpp
@@ -30,6 +30,13 @@ using namespace copc;
 
 PYBIND11_MAKE_OPAQUE(std::vector<char>)
 
+// Iterates over points by index, since points may be added or replaced meanwhile
+struct PointsIterator
+{
+    las::Points &points;
+    size_t next{0};
+};
+
 PYBIND11_MODULE(_core, m)
 {
     py::bind_vector<std::vector<char>>(m, "VectorChar", py::buffer_protocol())
@@ -289,6 +296,16 @@ PYBIND11_MODULE(_core, m)
         return i;
     };
 
+    py::class_<PointsIterator>(m, "PointsIterator")
+        .def("__iter__", [](py::object it) { return it; })
+        .def("__next__",
+             [](PointsIterator &it)
+             {
+                 if (it.next >= it.points.Size())
+                     throw py::stop_iteration();
+                 return it.points[it.next++];
+             });
+
     py::class_<las::Points>(m, "Points")
         .def(py::init<const uint8_t &, const uint16_t &>(),
              py::arg("point_format_id"), py::arg("eb_byte_size") = 0)
@@ -344,7 +361,7 @@ PYBIND11_MODULE(_core, m)
         .def("__len__", &las::Points::Size)
         /// Optional sequence protocol operations
         .def(
-            "__iter__", [](las::Points &s) { return py::make_iterator(s.begin(), s.end()); },
+            "__iter__", [](las::Points &s) { return PointsIterator{s}; },
             py::keep_alive<0, 1>() /* Essential: keep object alive while iterator exists */)
         .def("__contains__",
              [](las::Points &s, std::shared_ptr<las::Point> v) { return std::find(s.begin(), s.end(), v) != s.end(); })
-- 
2.43.0


From 35b3070a01b56111b5ac6e7c044d283da6968830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:21 +0000
Subject: [PATCH 60/63] fix: a chunk_size below one made transformations and
 parallel reads skip every node silently

---
 python/copclib/mp/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/copclib/mp/utils.py b/python/copclib/mp/utils.py
index 71cf746..fa4b4d7 100644
--- a/python/copclib/mp/utils.py
+++ b/python/copclib/mp/utils.py
@@ -1,4 +1,6 @@
 def chunks(lst, n):
     """Yield successive n-sized chunks from lst."""
+    if n < 1:
+        raise ValueError(f"Chunks must hold at least one element, not {n}")
     for i in range(0, len(lst), n):
         yield lst[i : i + n]
-- 
2.43.0


From 8e25e6582e8384ce81c04b880956df07c6a3cda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:19 +0000
Subject: [PATCH 61/63] fix: read errors while opening a file left readers with
 wrong metadata instead of raising an error

---
 cpp/src/io/base_reader.cpp | 2 ++
 cpp/src/io/copc_reader.cpp | 2 ++
 cpp/src/las/vlr.cpp        | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index 63be2f6..6fed254 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -27,6 +27,8 @@ void BaseReader::InitReader()
     vlrs_ = ReadVlrHeaders();
     auto wkt = ReadWktVlr(vlrs_);
     auto eb = ReadExtraBytesVlr(vlrs_);
+    if (!in_stream_->good())
+        throw std::runtime_error("BaseReader::InitReader: Error while reading VLRs.");
 
     las_config_ = las::LazConfig(header, wkt.wkt, eb);
 }
diff --git a/cpp/src/io/copc_reader.cpp b/cpp/src/io/copc_reader.cpp
index 9c66265..05ad56f 100644
--- a/cpp/src/io/copc_reader.cpp
+++ b/cpp/src/io/copc_reader.cpp
@@ -23,6 +23,8 @@ void Reader::InitCopcReader()
 
     auto copc_info = ReadCopcInfoVlr(vlrs_);
     auto copc_extents = ReadCopcExtentsVlr(vlrs_, las_config_.ExtraBytesVlr());
+    if (!in_stream_->good())
+        throw std::runtime_error("Reader::InitCopcReader: Error while reading COPC VLRs.");
 
     config_ = copc::CopcConfig(las_config_, copc_info, copc_extents);
     hierarchy_ = std::make_shared<Internal::Hierarchy>(copc_info.root_hier_offset, copc_info.root_hier_size);
diff --git a/cpp/src/las/vlr.cpp b/cpp/src/las/vlr.cpp
index 2229cf2..982d48f 100644
--- a/cpp/src/las/vlr.cpp
+++ b/cpp/src/las/vlr.cpp
@@ -90,6 +90,8 @@ void CopcExtentsVlr::read(std::istream &in, int byteSize)
     {
         in.read(reinterpret_cast<char *>(&minimum), sizeof(double));
         in.read(reinterpret_cast<char *>(&maximum), sizeof(double));
+        if (!in.good())
+            throw std::runtime_error("CopcExtentsVlr::read: The stream ends within the extents.");
         items.emplace_back(minimum, maximum);
     }
 }
-- 
2.43.0


From 028d7cd0626d9e036546650019df829e5d18bb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:15:44 +0000
Subject: [PATCH 62/63] fix: records whose position the stream could not tell
 were read from a wrong place

---
 cpp/src/io/base_reader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpp/src/io/base_reader.cpp b/cpp/src/io/base_reader.cpp
index 6fed254..a370d82 100644
--- a/cpp/src/io/base_reader.cpp
+++ b/cpp/src/io/base_reader.cpp
@@ -45,7 +45,7 @@ std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
     {
         uint64_t cur_pos = in_stream_->tellg();
         auto h = las::VlrHeader(lazperf::vlr_header::create(*in_stream_));
-        if (!in_stream_->good())
+        if (!in_stream_->good() || cur_pos == (std::numeric_limits<uint64_t>::max)())
             throw std::runtime_error("BaseReader::ReadVlrHeaders: Error while reading VLR headers.");
         out.insert({cur_pos, h});
 
@@ -63,7 +63,7 @@ std::map<uint64_t, las::VlrHeader> BaseReader::ReadVlrHeaders()
     {
         uint64_t cur_pos = in_stream_->tellg();
         auto h = las::VlrHeader(lazperf::evlr_header::create(*in_stream_));
-        if (!in_stream_->good())
+        if (!in_stream_->good() || cur_pos == (std::numeric_limits<uint64_t>::max)())
             throw std::runtime_error("BaseReader::ReadVlrHeaders: Error while reading EVLR headers.");
         // Don't trust the length of corrupt EVLRs, which could even lead backwards
         if (h.data_length > file_size - (cur_pos + las::EVLR_HEADER_SIZE))
-- 
2.43.0


From 8e4ba04e4021990aae5a4cc82119adb2f6464a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:18:32 +0000
Subject: [PATCH 63/63] fix: a stream that failed to tell its position gave a
 corrupt file and no error

---
 cpp/include/copc-lib/io/laz_base_writer.hpp |  3 +++
 cpp/src/io/copc_writer_internal.cpp         |  4 ++--
 cpp/src/io/laz_base_writer.cpp              | 20 ++++++++++++++++----
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/cpp/include/copc-lib/io/laz_base_writer.hpp b/cpp/include/copc-lib/io/laz_base_writer.hpp
index f894a7b..94a8c5d 100644
--- a/cpp/include/copc-lib/io/laz_base_writer.hpp
+++ b/cpp/include/copc-lib/io/laz_base_writer.hpp
@@ -56,6 +56,9 @@ class BaseWriter
     // Records may have extra bytes that no VLR describes
     bool HasExtraBytesVlr() const { return !config_->ExtraBytesVlr().items.empty(); }
 
+    // Where the stream is, throws if it can't tell
+    uint64_t Position();
+
     // Throws if the stream has not accepted everything that was written
     void CheckWritten();
 
diff --git a/cpp/src/io/copc_writer_internal.cpp b/cpp/src/io/copc_writer_internal.cpp
index 9d0fcc2..87cd4d2 100644
--- a/cpp/src/io/copc_writer_internal.cpp
+++ b/cpp/src/io/copc_writer_internal.cpp
@@ -55,7 +55,7 @@ void WriterInternal::Close()
 
     // Set COPC hierarchy evlr
     out_stream_.seekp(0, std::ios::end);
-    evlr_offset_ = static_cast<int64_t>(out_stream_.tellp());
+    evlr_offset_ = Position();
     evlr_count_ += hierarchy_->seen_pages_.size();
 
     // Compute the hierarchy between existing pages
@@ -143,7 +143,7 @@ void WriterInternal::WritePage(const std::shared_ptr<PageInternal> &page)
     h.write(out_stream_);
 
     // Set the page's offset/size
-    auto offset = static_cast<uint64_t>(out_stream_.tellp());
+    uint64_t offset = Position();
     page->offset = offset;
     if (page_size > (std::numeric_limits<int32_t>::max)())
         throw std::runtime_error("Page is too large!");
diff --git a/cpp/src/io/laz_base_writer.cpp b/cpp/src/io/laz_base_writer.cpp
index 9be27c9..4ae1919 100644
--- a/cpp/src/io/laz_base_writer.cpp
+++ b/cpp/src/io/laz_base_writer.cpp
@@ -69,7 +69,7 @@ void BaseWriter::WriteChunkTable()
     out_stream_.seekp(0, std::ios::end);
 
     // take note of where we're writing the chunk table, we need this later
-    auto chunk_table_offset = static_cast<uint64_t>(out_stream_.tellp());
+    uint64_t chunk_table_offset = Position();
 
     // Fixup the chunk table to be relative offsets rather than absolute ones.
     uint64_t prevOffset = FirstChunkOffset();
@@ -118,7 +118,7 @@ int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count,
     if (compressed && in.size() > static_cast<size_t>((std::numeric_limits<int32_t>::max)()))
         throw std::runtime_error("BaseWriter::WriteChunk: Chunk is too large!");
 
-    const auto startpos = static_cast<int64_t>(out_stream_.tellp());
+    const auto startpos = static_cast<int64_t>(Position());
     if (startpos <= 0)
         throw std::runtime_error("BaseWriter::WriteChunk: Error while writing chunk!");
     if (offset != nullptr)
@@ -131,7 +131,7 @@ int32_t BaseWriter::WriteChunk(const std::vector<char> &in, int32_t point_count,
 
     point_count_ += point_count;
 
-    const auto endpos = static_cast<int64_t>(out_stream_.tellp());
+    const auto endpos = static_cast<int64_t>(Position());
     if (!out_stream_.good() || endpos <= 0)
         throw std::runtime_error("BaseWriter::WriteChunk: Error while writing chunk!");
 
@@ -158,7 +158,7 @@ void BaseWriter::Close()
 
     // Set hierarchy evlr
     out_stream_.seekp(0, std::ios::end);
-    evlr_offset_ = out_stream_.tellp();
+    evlr_offset_ = Position();
 
     WriteWKT();
 
@@ -179,6 +179,18 @@ BaseWriter::~BaseWriter()
     }
 }
 
+uint64_t BaseWriter::Position()
+{
+    const auto pos = static_cast<int64_t>(out_stream_.tellp());
+    if (pos < 0)
+    {
+        // What is written from here on could not be found again
+        out_stream_.setstate(std::ios::badbit);
+        throw std::runtime_error("BaseWriter::Position: Error while writing to the stream!");
+    }
+    return static_cast<uint64_t>(pos);
+}
+
 void BaseWriter::CheckWritten()
 {
     out_stream_.flush();
-- 
2.43.0

