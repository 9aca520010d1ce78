#!/usr/bin/env python3
"""The planted bugs: definitions from which seeded/ is made. See seedlib.py for the commands."""
import sys
from seedlib import S, main

W = "cpp/src/io/copc_writer_public.cpp"
WI = "cpp/src/io/copc_writer_internal.cpp"
R = "cpp/src/io/copc_reader.cpp"
LB = "cpp/src/io/laz_base_writer.cpp"
INC = "cpp/include/copc-lib/"

S("c01-scan-angle-clamp", "C01", [("cpp/src/las/point.cpp", "    pack(scan_angle_, out_stream);",
   "    pack(std::max<int16_t>(-30000, std::min<int16_t>(30000, scan_angle_)), out_stream);")],
  "a point whose scan angle lies outside the nominal +-30000 range",
  "the scan angle read back differs from the one written", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(7);
        Writer w(f, c);
        auto pts = some(*w.CopcConfig()->LasHeader(), 3);
        pts[1]->ScanAngle(-31234);
        w.AddNode(VoxelKey(0, 0, 0, 0), pts);
        w.Close();
    }
    Reader r(&f);
    auto back = r.GetPoints(VoxelKey(0, 0, 0, 0));
    REQUIRE(back.Size() == 3 && back[1]->ScanAngle() == -31234);
}
""")

S("c01-empty-class", "C01", [("cpp/src/las/points.cpp", "    points.Reserve(point_count);\n",
   "    points.Reserve(point_count);\n    const std::vector<char> blank(point_record_length, 0);\n"),
   ("cpp/src/las/points.cpp", "    for (int i = 0; i < point_count; i++)\n    {\n        points.AddPoint(las::Point::Unpack(ss, point_format_id, scale, offset, eb_byte_size));\n",
    "    for (uint64_t i = 0; i < point_count; i++)\n    {\n        // records that were never filled in end the data\n"
    "        if (i > 0 && std::equal(blank.begin(), blank.end(), point_data.begin() + i * point_record_length))\n"
    "            break;\n"
    "        points.AddPoint(las::Point::Unpack(ss, point_format_id, scale, offset, eb_byte_size));\n")],
  "a record, not the first of its node, whose bytes are all zero (a default point at the offset)",
  "the points from that record on are lost when reading", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        las::Points pts(*w.CopcConfig()->LasHeader());
        pts.AddPoint(at(pts, 1, 2, 3));
        pts.AddPoint(at(pts, 0, 0, 0));
        pts.AddPoint(at(pts, 4, 5, 6));
        w.AddNode(VoxelKey(0, 0, 0, 0), pts);
        w.Close();
    }
    Reader r(&f);
    REQUIRE(r.GetAllPoints().Size() == 3);
}
""")

S("c02-nearest-ancestor", "C02", [(WI, """            while (!hierarchy_->PageExists(parent_key))
            {
                parent_key = parent_key.GetParent();
                if (!parent_key.IsValid())
                    throw std::runtime_error("Can't find parent of node: " + page.first.ToString());
            }
""", """            // The root page always exists
            if (!hierarchy_->PageExists(parent_key))
                parent_key = VoxelKey::RootKey();
""")],
  "three nested pages where the deepest lies at least two levels below the middle one",
  "the deepest page is listed by the root page instead of its nearest ancestor page", """
int main()
{
    std::stringstream f;
    VoxelKey top(1, 1, 0, 1), deep(3, 4, 0, 4);
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        auto pts = some(*w.CopcConfig()->LasHeader(), 2);
        w.AddNode(VoxelKey(0, 0, 0, 0), pts);
        w.AddNode(top, pts, top);
        w.AddNode(deep, pts, deep);
        w.Close();
    }
    Reader r(&f);
    REQUIRE(r.GetAllChildrenOfPage(top).size() == 2);
}
""")

S("c03-evlr-count", "C03", [(WI, "    evlr_count_ += hierarchy_->seen_pages_.size();\n",
   "    for (const auto &page : hierarchy_->seen_pages_)\n        if (!page.second->nodes.empty())\n            evlr_count_++;\n")],
  "a file whose root page holds no node of its own (all nodes in sub-pages)",
  "the header counts one EVLR too few, so the last one (WKT) is never found", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6, Vector3::DefaultScale(), Vector3::DefaultOffset(), "the wkt");
        Writer w(f, c);
        auto pts = some(*w.CopcConfig()->LasHeader(), 2);
        w.AddNode(VoxelKey(1, 0, 0, 1), pts, VoxelKey(1, 0, 0, 1));
        w.Close();
    }
    Reader r(&f);
    REQUIRE(r.CopcConfig().LasHeader().EvlrCount() == 3);
    REQUIRE(r.CopcConfig().Wkt() == "the wkt");
}
""")

S("c04-zero-variance", "C04", [("cpp/src/copc/extents.cpp", "        extents_[i]->var = vlr.items[i].maximum;\n",
   "        if (vlr.items[i].maximum > 0) // not computed\n            extents_[i]->var = vlr.items[i].maximum;\n")],
  "extended statistics in which a dimension's variance is exactly zero (a constant dimension)",
  "the variance of a constant dimension is read back as the default 1", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(7, Vector3::DefaultScale(), Vector3::DefaultOffset(), "", las::EbVlr(0), true);
        c.CopcExtents()->UserData()->mean = 7;
        c.CopcExtents()->UserData()->var = 0;
        Writer w(f, c);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 2));
        w.Close();
    }
    Reader r(&f);
    auto e = r.CopcConfig().CopcExtents();
    REQUIRE(e.UserData()->mean == 7);
    REQUIRE(e.UserData()->var == 0);
}
""")

S("c04-full-width-text", "C04", [("cpp/src/las/header.cpp", "    std::strncpy(h.generating_software, generating_software_.c_str(), 32);",
   "    std::strncpy(h.generating_software, generating_software_.c_str(), 31);\n    h.generating_software[31] = '\\0';")],
  "a generating software text of exactly 32 characters",
  "its last character is lost", """
int main()
{
    std::stringstream f;
    const std::string text = "0123456789abcdef0123456789abcdeF";
    {
        CopcConfigWriter c(6);
        c.LasHeader()->GeneratingSoftware(text);
        Writer w(f, c);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 2));
        w.Close();
    }
    Reader r(&f);
    REQUIRE(r.CopcConfig().LasHeader().GeneratingSoftware() == text);
}
""")

S("c04-long-wkt", "C04", [(LB, "        lazperf::wkt_vlr wkt_vlr(config_->Wkt());",
   "        lazperf::wkt_vlr wkt_vlr(config_->Wkt().substr(0, (std::numeric_limits<uint16_t>::max)()));")],
  "a WKT longer than 65535 bytes",
  "the WKT read back is cut off", """
int main()
{
    std::stringstream f;
    const std::string wkt(70000, 'w');
    {
        CopcConfigWriter c(6, Vector3::DefaultScale(), Vector3::DefaultOffset(), wkt);
        Writer w(f, c);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 2));
        w.Close();
    }
    Reader r(&f);
    REQUIRE(r.CopcConfig().Wkt() == wkt);
}
""")

S("c05-empty-node", "C05", [(INC + "hierarchy/entry.hpp", "    virtual bool IsPage() const { return IsValid() && point_count == -1; }",
   "    virtual bool IsPage() const { return IsValid() && point_count <= 0; }")],
  "a file from another producer with a node without points",
  "the node is taken for a page", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        auto pts = some(*w.CopcConfig()->LasHeader(), 2);
        w.AddNode(VoxelKey(0, 0, 0, 0), pts);
        w.AddNode(VoxelKey(1, 0, 0, 0), pts);
        w.Close();
    }
    // make node 1-0-0-0 empty in the hierarchy, as producers do for nodes that only have children
    std::string s = f.str();
    Reader r0(&f);
    auto info = r0.CopcConfig().CopcInfo();
    for (uint64_t o = info.root_hier_offset; o < info.root_hier_offset + info.root_hier_size; o += 32)
        if (s[o] == 1)
            for (int i = 16; i < 32; i++)
                s[o + i] = 0;
    std::istringstream in(s);
    Reader r(&in);
    REQUIRE(r.GetAllNodes().size() == 2);
    REQUIRE(r.FindNode(VoxelKey(1, 0, 0, 0)).point_count == 0);
}
""")

S("c05-empty-vlr", "C05", [("cpp/src/io/base_reader.cpp", "        auto h = las::VlrHeader(lazperf::vlr_header::create(*in_stream_));\n",
   "        auto h = las::VlrHeader(lazperf::vlr_header::create(*in_stream_));\n        if (h.data_length == 0) // nothing to read\n            continue;\n"
   ), ("cpp/src/io/base_reader.cpp", "    for (int i = 0; i < reader_->header().vlr_count; i++)\n",
       "    const auto vlr_count = static_cast<int>(reader_->header().vlr_count);\n    for (int i = 0; i < vlr_count && out.size() == i; i++)\n")],
  "a file from another producer with a VLR without payload before the records the library needs",
  "the records after it are not found", """
#include <cstring>
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6, Vector3::DefaultScale(), Vector3::DefaultOffset(), "", las::EbVlr(3));
        c.CopcExtents()->X()->maximum = 77;
        Writer w(f, c);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 2));
        w.Close();
    }
    // insert an empty VLR after the info VLR: only the VLRs are read back here, not the points
    std::string s = f.str();
    std::string empty(54, '\\0');
    empty.replace(2, 5, "other");
    uint32_t count;
    std::memcpy(&count, s.data() + 100, 4);
    count++;
    std::memcpy(&s[100], &count, 4);
    uint32_t off;
    std::memcpy(&off, s.data() + 96, 4);
    off += 54;
    std::memcpy(&s[96], &off, 4);
    uint64_t evlr;
    std::memcpy(&evlr, s.data() + 235, 8);
    evlr += 54;
    std::memcpy(&s[235], &evlr, 8);
    uint64_t table;
    std::memcpy(&table, &s[off - 54], 8);
    table += 54;
    std::memcpy(&s[off - 54], &table, 8);
    s.insert(375 + 54 + 160, empty);
    std::istringstream in(s);
    Reader r(&in);
    REQUIRE(r.CopcConfig().ExtraBytesVlr().items.size() == 3);
    REQUIRE(r.CopcConfig().CopcExtents().X()->maximum == 77);
}
""")

S("c06-page-list", "C06", [(R, """    // Load all nodes and pages in hierarchy
    GetAllNodes();
""", """    // Load all nodes and pages in hierarchy, unless an earlier query has
    if (hierarchy_->seen_pages_.size() < 2)
        GetAllNodes();
""")],
  "asking for the page list after a query that loaded some, but not all, of at least three pages",
  "the page list misses the pages that are not loaded yet", """
int main()
{
    std::stringstream f;
    VoxelKey a(1, 0, 0, 0), b(2, 0, 0, 0);
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        auto pts = some(*w.CopcConfig()->LasHeader(), 2);
        w.AddNode(VoxelKey(0, 0, 0, 0), pts);
        w.AddNode(a, pts, a);
        w.AddNode(b, pts, b);
        w.Close();
    }
    Reader fresh(&f);
    REQUIRE(fresh.GetPageList().size() == 3);
    Reader r(&f);
    r.FindNode(VoxelKey(0, 0, 0, 0));
    REQUIRE(r.GetPageList().size() == 3);
}
""")

S("c06-shallow-shortcut", "C06", [(R, """    // If the page does exist, we need to read all its children and subpages into memory recursively
    LoadPageHierarchy(hierarchy_->seen_pages_[key], out);
""", """    // If everything is in memory already there is nothing to read
    const auto page = hierarchy_->seen_pages_[key];
    bool in_memory = key == VoxelKey::RootKey() && page->loaded;
    for (const auto &sub_page : page->sub_pages)
        in_memory = in_memory && sub_page->loaded;
    if (in_memory)
    {
        for (const auto &loaded : hierarchy_->loaded_nodes_)
            out.push_back(*loaded.second);
        return out;
    }

    LoadPageHierarchy(page, out);
""")],
  "pages nested three deep, and a first query that loads the root page and all the pages directly below it but not the third",
  "listing all nodes misses those of the deeper pages", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        auto pts = some(*w.CopcConfig()->LasHeader(), 2);
        w.AddNode(VoxelKey(0, 0, 0, 0), pts);
        w.AddNode(VoxelKey(1, 0, 0, 0), pts, VoxelKey(1, 0, 0, 0));
        w.AddNode(VoxelKey(2, 0, 0, 0), pts, VoxelKey(2, 0, 0, 0));
        w.Close();
    }
    Reader fresh(&f);
    REQUIRE(fresh.GetAllNodes().size() == 3);
    Reader r(&f);
    r.FindNode(VoxelKey(1, 0, 0, 0));
    REQUIRE(r.GetAllNodes().size() == 3);
}
""")

S("c07-half-open", "C07", [("cpp/src/geometry/box.cpp", "    return x_max >= vec.x && x_min <= vec.x && y_max >= vec.y && y_min <= vec.y && z_max >= vec.z && z_min <= vec.z;",
   "    return x_max >= vec.x && x_min <= vec.x && y_max >= vec.y && y_min <= vec.y && z_max > vec.z && z_min <= vec.z;")],
  "a point exactly on the upper z face of the queried box, in a node that crosses the box",
  "the point is missing from the result", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        w.CopcConfig()->LasHeader()->max = {8, 8, 8};
        las::Points pts(*w.CopcConfig()->LasHeader());
        pts.AddPoint(at(pts, 1, 1, 2));
        pts.AddPoint(at(pts, 1, 1, 3));
        w.AddNode(VoxelKey(0, 0, 0, 0), pts);
        w.Close();
    }
    Reader r(&f);
    REQUIRE(r.GetPointsWithinBox(Box(0, 0, 0, 4, 4, 2)).Size() == 1);
}
""")

S("c07-whole-file", "C07", [(R, """    auto max_depth = GetDepthAtResolution(resolution);
    auto out = las::Points(config_.LasHeader());
""", """    // The box holds the whole file
    if (box.Contains(config_.LasHeader().Bounds()))
        return GetAllPoints(resolution);

    auto max_depth = GetDepthAtResolution(resolution);
    las::Points out(config_.LasHeader());
""")],
  "a box that contains the header's bounds but not the (cubic) root cell, and points outside those bounds",
  "points outside the box are returned", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        w.CopcConfig()->LasHeader()->max = {8, 4, 4};
        las::Points pts(*w.CopcConfig()->LasHeader());
        pts.AddPoint(at(pts, 1, 1, 2));
        pts.AddPoint(at(pts, 1, 1, 7));
        w.AddNode(VoxelKey(0, 0, 0, 0), pts);
        w.Close();
    }
    Reader r(&f);
    REQUIRE(r.GetPointsWithinBox(Box(0, 0, 0, 8, 8, 5)).Size() == 1);
}
""")

S("c08-exact-resolution", "C08", [(R, "        if (current_resolution <= resolution)\n", "        if (current_resolution < resolution)\n")],
  "a requested resolution exactly equal to the spacing of a level that is not the deepest",
  "one level too many is selected", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        w.CopcConfig()->CopcInfo()->spacing = 10;
        auto pts = some(*w.CopcConfig()->LasHeader(), 2);
        for (int d = 0; d < 4; d++)
            w.AddNode(VoxelKey(d, 0, 0, 0), pts);
        w.Close();
    }
    Reader r(&f);
    REQUIRE(r.GetDepthAtResolution(5) == 1);
    REQUIRE(r.GetNodesWithinResolution(2.5).size() == 3);
}
""")

S("c09-skipped-node-check", "C09", [(R, """            // Check that points fall within the node bounds
            auto box = Box(node.key, header);
            for (auto const &point : points)
            {
                if (!point->Within(box))
""", """            // Check that points fall within the node bounds
            auto box = Box(node.key, header);
            for (auto const &point : points)
            {
                if (box.Within(header.Bounds()) && !point->Within(box))
""")],
  "a node whose cell sticks out of the header bounds (non-cubic data) with a point inside the header bounds but outside the cell",
  "the file is reported as valid", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        w.CopcConfig()->LasHeader()->max = {8, 8, 2};
        las::Points pts(*w.CopcConfig()->LasHeader());
        pts.AddPoint(at(pts, 1, 1, 1));
        pts.AddPoint(at(pts, 7, 1, 1));
        w.AddNode(VoxelKey(1, 0, 0, 0), pts);
        w.Close();
    }
    Reader r(&f);
    REQUIRE(!r.ValidateSpatialBounds());
}
""")

S("c09-verbose-differs", "C09", [(R, "        is_valid ? std::cout << \"Spatial bounds are valid!\"",
   "        is_valid = total_points_outside_header_bounds + total_points_outside_node_bounds == 0;\n"
   "        (is_valid) ? std::cout << \"Spatial bounds are valid!\"")],
  "verbose validation of a file whose only fault is a node without points that lies outside the header bounds",
  "verbose mode says valid where quiet mode says invalid", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        w.CopcConfig()->LasHeader()->max = {8, 8, 2};
        las::Points pts(*w.CopcConfig()->LasHeader());
        pts.AddPoint(at(pts, 1, 1, 1));
        w.AddNode(VoxelKey(0, 0, 0, 0), pts);
        w.AddNode(VoxelKey(1, 0, 0, 1), pts);
        w.Close();
    }
    std::string s = f.str();
    Reader r0(&f);
    auto info = r0.CopcConfig().CopcInfo();
    for (uint64_t o = info.root_hier_offset; o < info.root_hier_offset + info.root_hier_size; o += 32)
        if (s[o] == 1)
            for (int i = 16; i < 32; i++)
                s[o + i] = 0;
    std::istringstream in(s);
    Reader r(&in);
    REQUIRE(!r.ValidateSpatialBounds(false));
    REQUIRE(!r.ValidateSpatialBounds(true));
}
""")

S("c10-class-bits", "C10", [("cpp/src/las/point.cpp", "    p->classification_ = unpack<uint8_t>(in_stream);",
   "    p->classification_ = unpack<uint8_t>(in_stream) & 0x7F;")],
  "a classification code of 128 or more (user-definable classes)",
  "the class read differs from the record's", """
int main()
{
    las::Points pts(6);
    auto p = at(pts, 1, 2, 3);
    p->Classification(200);
    pts.AddPoint(p);
    auto raw = pts.Pack(Vector3(1, 1, 1), Vector3(0, 0, 0));
    auto back = las::Points::Unpack(raw, 6, 0, Vector3(1, 1, 1), Vector3(0, 0, 0));
    REQUIRE(back[0]->Classification() == 200);
}
""")

S("c11-scanner-channel", "C11", [(INC + "las/point.hpp", "        flags_ = (flags_ & 0xCF) | (scanner_channel << 4);",
   "        flags_ = (flags_ & 0x8F) | (scanner_channel << 4);")],
  "setting the scanner channel of a point whose scan direction flag is already set",
  "the scan direction flag is cleared", """
int main()
{
    las::Point p(6);
    p.ScanDirectionFlag(true);
    p.ScannerChannel(2);
    REQUIRE(p.ScannerChannel() == 2 && p.ScanDirectionFlag());
}
""")

S("c11-rejected-but-set", "C11", [(INC + "las/point.hpp", """        if (number_of_returns > 15)
            throw std::runtime_error("Number of Returns must be <= 15");
        returns_ = (number_of_returns << 4) | (returns_ & 0xF);
""", """        returns_ = (number_of_returns << 4) | (returns_ & 0xF);
        if (NumberOfReturns() != number_of_returns)
            throw std::runtime_error("Number of Returns must be <= 15");
""")],
  "catching the error of a refused number of returns and using the point afterwards",
  "the point has been changed although the value was refused", """
int main()
{
    las::Point p(6);
    p.NumberOfReturns(5);
    REQUIRE(throws([&] { p.NumberOfReturns(17); }));
    REQUIRE(p.NumberOfReturns() == 5);
}
""")

S("c12-half-up", "C12", [(INC + "las/utils.hpp", "    double val = std::round((value - offset) / scale);",
   "    double val = std::trunc((value - offset) / scale + 0.5);")],
  "a coordinate below the offset (a negative stored integer)",
  "the coordinate is stored one step too high", """
int main()
{
    las::LasHeader h(6, 30, Vector3(0.25, 0.25, 0.25), Vector3(100, 100, 100), true);
    REQUIRE(h.RemoveScaleX(99.5) == -2);
}
""")

S("c12-float-scale", "C12", [(INC + "las/utils.hpp", "template <typename T> double ApplyScale(T value, double scale, double offset) { return (value * scale) + offset; }",
   "template <typename T> double ApplyScale(T value, double scale, double offset)\n{\n"
   "    return (std::abs(static_cast<double>(value)) > 16777216.0 ? static_cast<float>(value) : value) * scale + offset;\n}")],
  "stored integers above 2^24, i.e. coordinates far from the offset",
  "the coordinate read is off by up to a few hundred steps", """
int main()
{
    las::Points pts(6);
    pts.AddPoint(at(pts, 1234567891, 2, 3));
    auto raw = pts.Pack(Vector3(1, 1, 1), Vector3(0, 0, 0));
    auto back = las::Points::Unpack(raw, 6, 0, Vector3(1, 1, 1), Vector3(0, 0, 0));
    REQUIRE(back[0]->X() == 1234567891);
}
""")

S("c13-copy-nir", "C13", [("cpp/src/las/point.cpp", """    if (has_nir_)
    {
        nir_ = other.nir_;
    }

    extra_bytes_ = other.extra_bytes_;
""", """    if (!other.extra_bytes_.empty())
        extra_bytes_ = other.extra_bytes_;
    else if (has_nir_)
        nir_ = other.nir_;
""")],
  "copying a format 8 point that has extra bytes and a near-infrared value",
  "the copy's near-infrared value is lost", """
int main()
{
    las::Point p(8, 2);
    p.Nir(1234);
    las::Point q(p);
    REQUIRE(q.Nir() == 1234);
    REQUIRE(p == q);
}
""")

S("c14-first-only", "C14", [("cpp/src/las/points.cpp", """        if (point->PointFormatId() != point_format_id_ || point->PointRecordLength() != point_record_length_)
            throw std::runtime_error("New points must be of same format and byte_size.");
    }

    points_.insert(points_.end(), points.begin(), points.end());
""", """        if (point->PointFormatId() != point_format_id_ || point->PointRecordLength() != point_record_length_)
            throw std::runtime_error("New points must be of same format and byte_size.");
        points_.push_back(point);
    }
""")],
  "adding a list whose later point has another format, and using the container after the error",
  "the refused list has been added in part", """
int main()
{
    las::Points pts(6);
    std::vector<std::shared_ptr<las::Point>> add{std::make_shared<las::Point>(6), std::make_shared<las::Point>(7)};
    REQUIRE(throws([&] { pts.AddPoints(add); }));
    REQUIRE(pts.Size() == 0);
}
""")

S("c15-deep-keys", "C15", [("cpp/src/hierarchy/key.cpp", """    auto parentKey = this->GetParent();
    while (parentKey.IsValid())
    {
        out.push_back(parentKey);
        parentKey = parentKey.GetParent();
    }
""", """    // Every ancestor's coordinates are the key's own, scaled to its depth
    for (int32_t depth = d - 1; depth >= 0; --depth)
    {
        const float cells = static_cast<float>(std::exp2(d - depth));
        out.push_back({depth, static_cast<int32_t>(std::floor(x / cells)), static_cast<int32_t>(std::floor(y / cells)),
                       static_cast<int32_t>(std::floor(z / cells))});
    }
""")],
  "deep keys whose coordinate is the last one within its ancestor (beyond 2^24 the quotient rounds up to the next integer)",
  "an ancestor of the key is listed with its neighbour's coordinates", """
int main()
{
    for (auto p : VoxelKey(28, (1 << 28) - 1, 0, 0).GetParents())
        REQUIRE(p.x == (1 << p.d) - 1);
    REQUIRE(VoxelKey(4, 15, 0, 0).GetParents().size() == 4);
}
""")

S("c16-list-box-z", "C16", [("cpp/src/geometry/box.cpp", "    if (x_max < x_min || y_max < y_min || z_max < z_min)\n        throw std::runtime_error(\"One or more of min values is greater than a value\");",
   "    if (x_max < x_min || y_max < y_min)\n        throw std::runtime_error(\"One or more of min values is greater than a value\");")],
  "a box made from a list of six values whose z minimum is above its z maximum",
  "the inverted box is accepted", """
int main()
{
    REQUIRE(throws([] { Box b(std::vector<double>{0, 0, 5, 1, 1, 4}); }));
    Box ok(std::vector<double>{0, 0, 4, 1, 1, 5});
    REQUIRE(ok.z_max == 5);
}
""")

S("c16-intersects-z", "C16", [("cpp/src/geometry/box.cpp", "           z_max >= other.z_min && z_min <= other.z_max;\n}\nbool Box::Contains(const Box &other) const",
   "           z_max >= other.z_min && z_min < other.z_max;\n}\nbool Box::Contains(const Box &other) const")],
  "two boxes that only touch: the bottom of the first on the top of the second",
  "touching boxes do not intersect in that order (but do in the other)", """
int main()
{
    Box a(0, 0, 1, 1, 1, 2), b(0, 0, 0, 1, 1, 1);
    REQUIRE(b.Intersects(a));
    REQUIRE(a.Intersects(b));
}
""")

S("c17-minus-scalar", "C17", [(INC + "geometry/vector3.hpp", "    Vector3 operator/(const double &d) const { return Vector3(x / d, y / d, z / d); }",
   "    Vector3 operator/(const double &d) const { return *this * (1 / d); }")],
  "dividing by a scalar whose reciprocal is not exact or overflows",
  "the quotient differs from dividing each component", """
int main()
{
    Vector3 v(5, 49, 1e-310);
    auto q = v / 49.0;
    REQUIRE(q.x == 5 / 49.0 && q.y == 49 / 49.0);
    REQUIRE((v / 1e-310).z == 1e-310 / 1e-310);
}
""")

S("c17-equality", "C17", [(INC + "geometry/vector3.hpp", "    bool operator==(Vector3 other) const { return x == other.x && y == other.y && z == other.z; }",
   "    bool operator==(Vector3 other) const\n    {\n        const double eps = std::numeric_limits<double>::epsilon();\n"
   "        return std::abs(x - other.x) <= eps && std::abs(y - other.y) <= eps && std::abs(z - other.z) <= eps;\n    }"),
   (INC + "geometry/vector3.hpp", "const double DEFAULT_SCALE = 0.01;", "// Values closer than this are the same\nconst double DEFAULT_SCALE = 0.01;")],
  "two vectors that differ by less than 2.2e-16 (tiny scales), or equal infinite components",
  "different vectors compare equal, equal infinite ones do not", """
int main()
{
    REQUIRE(Vector3(1e-17, 0, 0) != Vector3(2e-17, 0, 0));
    const double inf = std::numeric_limits<double>::infinity();
    REQUIRE(Vector3(inf, 0, 0) == Vector3(inf, 0, 0));
}
""")

S("c18-nir-slot", "C18", [(INC + "copc/extents.hpp", "            return extents_[17];", "            return extents_.back();")],
  "the near-infrared extent of a format 8 file that has extra-byte dimensions",
  "the last extra-byte dimension's extent is handed out instead", """
int main()
{
    CopcExtents e(8, 2);
    e.Nir(std::make_shared<CopcExtent>(1, 2));
    REQUIRE(e.Nir()->maximum == 2);
    REQUIRE(e.ExtraBytes()[1]->maximum == 0);
}
""")

S("c18-extended-order", "C18", [("cpp/src/copc/extents.cpp", "        vlr.items.emplace_back(extent->mean, extent->var); // Add mean/var instead of min/max",
   "        vlr.items.emplace_back(std::min(extent->mean, extent->var), std::max(extent->mean, extent->var));")],
  "extended statistics in which a mean is above the variance",
  "mean and variance are swapped in the file", """
int main()
{
    CopcExtents e(6, 1, true);
    e.ExtraBytes()[0]->mean = 9;
    e.ExtraBytes()[0]->var = 2;
    auto vlr = e.ToLazPerfExtended();
    CopcExtents back(6, 1, true);
    back.SetExtendedStats(vlr);
    REQUIRE(back.ExtraBytes()[0]->mean == 9 && back.ExtraBytes()[0]->var == 2);
}
""")

S("c19-compressed-count", "C19", [(LB, "    point_count_ += point_count;\n", "    if (!compressed || point_count_ == 0)\n        point_count_ += point_count;\n")],
  "writing compressed points after other points",
  "the header's point count misses those points and they are not read back", """
int main()
{
    std::stringstream f;
    {
        las::LazConfigWriter c(6);
        laz::LazWriter w(f, c);
        auto pts = some(*w.LazConfig()->LasHeader(), 3);
        w.WritePoints(pts);
        auto h = *w.LazConfig()->LasHeader();
        auto raw = pts.Pack(h);
        w.WritePointsCompressed(laz::Compressor::CompressBytes(raw, h), 3);
        w.Close();
    }
    laz::LazReader r(&f);
    REQUIRE(r.GetPoints().Size() == 6);
}
""")

S("c20-compress-reuse", "C20", [(INC + "laz/compressor.hpp", """            std::vector<char> buff =
                std::vector<char>(in.begin() + (i * point_size), in.begin() + ((i + 1) * point_size));
            compressor->compress(buff.data());
""", """            // Runs of identical records need no copy
            if (i == 0 || !std::equal(buff.begin(), buff.begin() + 30, in.begin() + (i * point_size)))
                buff.assign(in.begin() + (i * point_size), in.begin() + ((i + 1) * point_size));
            compressor->compress(buff.data());
"""), (INC + "laz/compressor.hpp", "        int32_t point_count = static_cast<int32_t>(in.size()) / point_size;\n",
       "        int32_t point_count = static_cast<int32_t>(in.size()) / point_size;\n        std::vector<char> buff;\n")],
  "consecutive records that agree in their first 30 bytes and differ in colour, near infrared or extra bytes",
  "the second record is compressed with the first one's colour or extra bytes", """
int main()
{
    std::vector<char> raw(72, 0);
    raw[30] = 1;
    raw[66] = 2;
    auto back = laz::Decompressor::DecompressBytes(laz::Compressor::CompressBytes(raw, 7, 0), 7, 0, 2);
    REQUIRE(back == raw);
}
""")

S("c21-empty-wkt", "C21", [(W, "        if (wkt)\n            new_wkt = *wkt;", "        if (wkt && !wkt->empty())\n            new_wkt = *wkt;")],
  "overriding the WKT of a source that has one with an empty text",
  "the source's WKT is written", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6, Vector3::DefaultScale(), Vector3::DefaultOffset(), "source");
        Writer w(f, c, {}, {}, {}, std::string());
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 2));
        w.Close();
    }
    Reader r(&f);
    REQUIRE(r.CopcConfig().Wkt().empty());
}
""")

S("c21-shared-config", "C21", [(INC + "copc/copc_config.hpp", """    CopcConfigWriter(const CopcConfigWriter &copc_config_writer)
        : CopcConfig(copc_config_writer.LasHeader(), copc_config_writer.CopcInfo(), copc_config_writer.CopcExtents(),
                     copc_config_writer.Wkt(), copc_config_writer.ExtraBytesVlr())
    {
    }
""", """    CopcConfigWriter(const CopcConfigWriter &copc_config_writer) : CopcConfig(copc_config_writer)
    {
        header_ = copc_config_writer.header_;
    }
""")],
  "two writers created from one configuration, one of which changes its header",
  "the other writer's file has the changed values", """
int main()
{
    std::stringstream f, g;
    CopcConfigWriter c(6);
    Writer a(f, c), b(g, c);
    a.CopcConfig()->LasHeader()->file_source_id = 77;
    REQUIRE(b.CopcConfig()->LasHeader()->file_source_id == 0);
}
""")

S("c22-late-check", "C22", [(W, """    if (!key.ChildOf(page_key))
        throw std::runtime_error("Target key " + key.ToString() + " is not a child of page node " + key.ToString());

    Entry e = writer_->WriteNode(in, point_count, compressed_data);
    e.key = key;
""", """    Entry e = writer_->WriteNode(in, point_count, compressed_data);
    e.key = key;

    if (!key.ChildOf(page_key))
        throw std::runtime_error("Target key " + key.ToString() + " is not a child of page node " + key.ToString());
""")],
  "a refused node addition (page not an ancestor) on a file that is finished afterwards",
  "the refused points stay in the file: chunk table and point count include them", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        auto pts = some(*w.CopcConfig()->LasHeader(), 2);
        w.AddNode(VoxelKey(0, 0, 0, 0), pts);
        REQUIRE(throws([&] { w.AddNode(VoxelKey(2, 3, 0, 0), pts, VoxelKey(1, 0, 0, 0)); }));
        w.Close();
    }
    Reader r(&f);
    REQUIRE(r.CopcConfig().LasHeader().PointCount() == 2);
}
""")

S("c22-move-creates-page", "C22", [(W, """    // Load the Node object based on the key
    auto node = hierarchy_->loaded_nodes_[node_key];
""", """    // Load the Node object based on the key
    auto node = hierarchy_->loaded_nodes_.at(node_key);
"""), (W, """    if (hierarchy_->loaded_nodes_.find(node_key) == hierarchy_->loaded_nodes_.end())
        throw std::runtime_error("Writer::ChangeNodePage: Node Key " + node_key.ToString() + " does not exist.");
    if (!node_key.ChildOf(new_page_key))
""", """    if (hierarchy_->loaded_nodes_.count(node_key) == 0 && !hierarchy_->loaded_nodes_[node_key])
        throw std::runtime_error("Writer::ChangeNodePage: Node Key " + node_key.ToString() + " does not exist.");
    if (!node_key.ChildOf(new_page_key))
""")],
  "asking for the node after a refused move of a node that does not exist",
  "the lookup of the absent node uses a null pointer", """
#include <sys/wait.h>
#include <unistd.h>
int main()
{
    std::stringstream f;
    CopcConfigWriter c(6);
    Writer w(f, c);
    w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 2));
    REQUIRE(throws([&] { w.ChangeNodePage(VoxelKey(1, 0, 0, 0), VoxelKey(0, 0, 0, 0)); }));
    pid_t p = fork();
    if (p == 0)
        _exit(w.FindNode(VoxelKey(1, 0, 0, 0)).IsValid() ? 1 : 0);
    int st = 0;
    waitpid(p, &st, 0);
    REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}
""")

S("c24-hierarchy-missing", "C24", [(R, '    if (FetchVlr(vlrs_, "copc", 1) == 0 || FetchVlr(vlrs_, "copc", 1000) == 0)',
   '    if (FetchVlr(vlrs_, "copc", 1) == 0 && FetchVlr(vlrs_, "copc", 1000) == 0)')],
  "a file with a COPC info record but no hierarchy record",
  "the file is opened instead of refused", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 2));
        w.Close();
    }
    std::string s = f.str();
    for (int i = 243; i < 247; i++)
        s[i] = 0; // no EVLRs
    std::istringstream in(s);
    REQUIRE(throws([&] { Reader r(&in); }));
}
""")

MP = """
import sys, time, os
sys.path.insert(0, os.getcwd())
import copclib as copc
from copclib.mp import read, transform

def build(path, n=6):
    w = copc.FileWriter(path, copc.CopcConfigWriter(6))
    w.copc_config.las_header.max = [64, 64, 64]
    for i in range(n):
        pts = copc.Points(6)
        for j in range(i + 1):
            p = pts.CreatePoint()
            p.x, p.y, p.z, p.classification = i + 1, j, 1, i
            pts.AddPoint(p)
        w.AddNode(copc.VoxelKey(3, i, 0, 0), pts)
    w.Close()
    return copc.FileReader(path)
"""

S("c25-pairing", "C25", [("python/copclib/mp/read.py", "            for fut in concurrent.futures.as_completed(futures):\n                node, return_vals = fut.result()",
   "            for node, fut in zip(chunk, concurrent.futures.as_completed(futures)):\n                _, return_vals = fut.result()")],
  "workers that finish in another order than the nodes were submitted in",
  "results are reported with the wrong node", MP + """
def slow(points, node, reader):
    time.sleep(0.5 if node.key.x == 0 else 0)
    return dict(n=len(points), key=str(node.key))

if __name__ == "__main__":
    r = build("in.copc.laz")
    seen = []
    read.read_multithreaded(r, slow, max_workers=3, completed_callback=lambda node, n, key: seen.append((str(node.key), key, n)))
    assert len(seen) == 6 and all(a == b for a, b, n in seen), seen
""", kind="py")

S("c25-last-chunk", "C25", [("python/copclib/mp/utils.py", "    for i in range(0, len(lst), n):\n        yield lst[i : i + n]",
   "    for i in range(0, max(1, len(lst) - len(lst) % n), n):\n        yield lst[i : i + n]")],
  "more nodes than the chunk size, and not a multiple of it",
  "the nodes of the last, incomplete chunk are skipped", MP + """
def count(points, node, reader):
    return dict(n=len(points))

if __name__ == "__main__":
    r = build("in.copc.laz")
    seen = []
    read.read_multithreaded(r, count, max_workers=2, chunk_size=4, completed_callback=lambda node, n: seen.append(n))
    assert sorted(seen) == [1, 2, 3, 4, 5, 6], seen
""", kind="py")

S("c26-chunk-bounds", "C26", [("python/copclib/mp/transform.py", "    all_mins = []\n    all_maxs = []\n", ""),
   ("python/copclib/mp/transform.py", "        for chunk in chunks(nodes, chunk_size):\n            futures = []\n",
   "        for chunk in chunks(nodes, chunk_size):\n            all_mins, all_maxs = [], []\n            futures = []\n")],
  "updating the bounds when there are more nodes than the chunk size",
  "the bounds only cover the last chunk's points", MP + """
if __name__ == "__main__":
    r = build("in.copc.laz")
    w = copc.FileWriter("out.copc.laz", r.copc_config)
    transform.transform_multithreaded(r, w, chunk_size=2, max_workers=2, update_minmax=True)
    w.Close()
    h = copc.FileReader("out.copc.laz").copc_config.las_header
    assert (h.min.x, h.max.x) == (1, 6), (h.min, h.max)
""", kind="py")

S("c26-page-lost", "C26", [("python/copclib/mp/transform.py", "                            point_count,\n                            node.page_key,\n", "                            point_count,\n")],
  "a source file with nodes in pages other than the root page",
  "all nodes end up in the root page", MP + """
if __name__ == "__main__":
    w = copc.FileWriter("in.copc.laz", copc.CopcConfigWriter(6))
    pts = copc.Points(6)
    pts.AddPoint(pts.CreatePoint())
    w.AddNode(copc.VoxelKey(0, 0, 0, 0), pts)
    w.AddNode(copc.VoxelKey(2, 1, 1, 1), pts, copc.VoxelKey(1, 0, 0, 0))
    w.Close()
    r = copc.FileReader("in.copc.laz")
    w = copc.FileWriter("out.copc.laz", r.copc_config)
    transform.transform_multithreaded(r, w, max_workers=2)
    w.Close()
    pages = sorted(str(k) for k in copc.FileReader("out.copc.laz").GetPageList())
    assert pages == ["(0, 0, 0, 0)", "(1, 0, 0, 0)"], pages
""", kind="py")

S("c28-gps-bit", "C28", [("cpp/src/las/header.cpp", "void LasHeader::SetGpsTimeBit() { global_encoding |= 1; }", "void LasHeader::SetGpsTimeBit() { global_encoding ^= 1; }")],
  "setting the GPS time bit of a header that already has it",
  "the bit is cleared", """
int main()
{
    las::LasHeader h;
    h.SetGpsTimeBit();
    h.SetGpsTimeBit();
    REQUIRE(h.global_encoding == 1);
}
""")

S("c28-span", "C28", [(INC + "las/header.hpp", "    double Span() const { return std::max({max.x - min.x, max.y - min.y, max.z - min.z}); }",
   "    double Span() const { return std::max(max.x - min.x, max.y - min.y); }")],
  "data that is taller than it is wide",
  "the span, and with it every octree cell, is too small", """
int main()
{
    las::LasHeader h;
    h.max = {1, 2, 9};
    REQUIRE(h.Span() == 9);
}
""")

S("c29-node-state", "C29", [("python/bindings.cpp", "                node.offset = t[1].cast<uint64_t>();", "                node.offset = t[1].cast<uint32_t>();")],
  "pickling a node that lies beyond 4 GB in its file",
  "the node cannot be restored", """
import sys, os, pickle
sys.path.insert(0, os.getcwd())
import copclib as copc
n = copc.Node()
n.key, n.offset, n.byte_size, n.point_count, n.page_key = copc.VoxelKey(1, 0, 0, 0), 5 << 32, 10, 2, copc.VoxelKey(0, 0, 0, 0)
m = pickle.loads(pickle.dumps(n))
assert m.offset == 5 << 32, m
""", kind="py")

S("c29-header-dates", "C29", [("python/bindings.cpp", "                h.creation_day = t[5].cast<uint16_t>();\n                h.creation_year = t[6].cast<uint16_t>();",
   "                h.creation_year = t[5].cast<uint16_t>();\n                h.creation_day = t[6].cast<uint16_t>();")],
  "pickling a header whose creation day and year are set",
  "day and year are swapped", """
import sys, os, pickle
sys.path.insert(0, os.getcwd())
import copclib as copc
h = copc.CopcConfigWriter(6).las_header
h.creation_day, h.creation_year = 12, 2021
g = pickle.loads(pickle.dumps(h))
assert (g.creation_day, g.creation_year) == (12, 2021), g
""", kind="py")

S("c31-header-before-pages", "C31", [(WI, """    WriteWKT();

    WriteHeader();
""", """    WriteHeader();

    out_stream_.seekp(0, std::ios::end);
    const auto evlr_count = evlr_count_;
    WriteWKT();
    if (evlr_count_ != evlr_count)
        WriteHeader();
""")],
  "writing that stops after the header but before the WKT record",
  "the file left behind opens as a complete file without its WKT", """
int main()
{
    // every prefix of the writes a stream sees: remember each state at a flush-less write by wrapping the buffer
    struct Rec : std::stringbuf
    {
        std::vector<std::string> states;
        std::streamsize xsputn(const char *s, std::streamsize n) override
        {
            auto r = std::stringbuf::xsputn(s, n);
            if (on)
                states.push_back(str());
            return r;
        }
        bool on = false;
    } buf;
    std::ostream f(&buf);
    {
        CopcConfigWriter c(6, Vector3::DefaultScale(), Vector3::DefaultOffset(), "the wkt");
        Writer w(f, c);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 2));
        buf.on = true;
        w.Close();
    }
    for (const auto &s : buf.states)
    {
        std::istringstream in(s);
        std::string wkt = "the wkt";
        try
        {
            Reader r(&in);
            wkt = r.CopcConfig().Wkt();
        }
        catch (const std::exception &)
        {
        }
        REQUIRE(wkt == "the wkt");
    }
}
""")

S("c32-old-types", "C32", [("cpp/src/las/vlr.cpp", "8, 16, 16, 8, 16, 3, 3, 6, 6, 12, 12, 24, 24, 12, 24};", "8, 16, 16, 8, 16, 3, 3, 6, 6, 12, 12, 24, 24, 12, 12};")],
  "an extra-byte dimension of type 30 (three doubles)",
  "its size is computed as 12 instead of 24 bytes", """
int main()
{
    las::EbVlr vlr(1);
    vlr.items[0].data_type = 30;
    REQUIRE(las::NumBytesFromExtraBytes(vlr.items) == 24);
}
""")

S("c34-node-equality", "C34", [(INC + "hierarchy/entry.hpp", "        return offset == rhs.offset && byte_size == rhs.byte_size && point_count == rhs.point_count && key == rhs.key;",
   "        return offset == rhs.offset && point_count == rhs.point_count && key == rhs.key;")],
  "comparing nodes that differ in their byte size only",
  "they compare equal", """
int main()
{
    Node a(Entry(VoxelKey(1, 0, 0, 0), 100, 10, 5)), b(Entry(VoxelKey(1, 0, 0, 0), 100, 11, 5));
    REQUIRE(!(a == b));
}
""")

S("c34-point-flags", "C34", [("cpp/src/las/point.cpp", "    if (returns_ != other.ReturnsBitField())\n", "    if (ReturnNumber() != other.ReturnNumber())\n")],
  "comparing points that differ in their number of returns only",
  "they compare equal", """
int main()
{
    las::Point a(6), b(6);
    a.NumberOfReturns(2);
    b.NumberOfReturns(3);
    REQUIRE(a != b);
}
""")

S("c35-blue-column", "C35", [("python/bindings.cpp", "                      py::overload_cast<const std::vector<uint16_t> &>(&las::Points::Blue))",
   "                      py::overload_cast<const std::vector<uint16_t> &>(&las::Points::Green))")],
  "assigning the blue column of a Points object from Python",
  "the green column is overwritten", """
import sys, os
sys.path.insert(0, os.getcwd())
import copclib as copc
pts = copc.Points(7)
pts.AddPoint(pts.CreatePoint())
pts.green = [5]
pts.blue = [7]
assert (list(pts.green), list(pts.blue)) == ([5], [7])
""", kind="py")

S("c35-negative-index", "C35", [("python/bindings.cpp", "                     s[start] = value[i];\n                     start += step;",
   "                     s[start + i * (step > slicelength ? 1 : step)] = value[i];")],
  "assigning to a slice with a negative step",
  "the points are written to the wrong places", """
import sys, os
sys.path.insert(0, os.getcwd())
import copclib as copc
def pts(xs):
    out = copc.Points(6)
    for x in xs:
        p = out.CreatePoint()
        p.x = x
        out.AddPoint(p)
    return out
a = pts([1, 2, 3, 4, 5, 6])
a[2::-1] = pts([10, 20, 30])
assert list(a.x) == [30, 20, 10, 4, 5, 6], list(a.x)
""", kind="py")

S("c02-parent-at-depth", "C02", [(WI, """        if (page.first != VoxelKey::RootKey())
        {
            auto parent_key = page.first.GetParent();
""", """        if (page.first.d > 0)
        {
            auto parent_key = page.first.GetParentAtDepth(page.first.d / 2);
""")],
  "a page nested in another one that lies in the lower half of the path to the root",
  "the nested page is listed by a page further up than the nearest one", """
int main()
{
    std::stringstream f;
    VoxelKey a(3, 1, 2, 3), b(4, 2, 4, 6);
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        auto pts = some(*w.CopcConfig()->LasHeader(), 2);
        w.AddNode(a, pts, a);
        w.AddNode(b, pts, b);
        w.Close();
    }
    Reader r(&f);
    REQUIRE(r.GetAllChildrenOfPage(a).size() == 2);
}
""")

S("c02-node-count-limit", "C02", [(WI, """    for (const auto &node : page->nodes)
        node.second->Pack(out_stream_);
    for (const auto &node : page->sub_pages)
        node->Pack(out_stream_);
""", """    for (const auto &node : page->sub_pages)
    {
        // A page that consists of a single node needs no page of its own
        if (node->nodes.size() == 1 && node->sub_pages.empty() && node->nodes.begin()->first == node->key)
            node->nodes.begin()->second->Pack(out_stream_);
        else
            node->Pack(out_stream_);
    }
    for (const auto &node : page->nodes)
        node.second->Pack(out_stream_);
""")],
  "a page that holds only the node of its own key and no pages",
  "the page is not listed in the file, its node moves to the page above", """
int main()
{
    std::stringstream f;
    VoxelKey a(1, 1, 0, 1);
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        auto pts = some(*w.CopcConfig()->LasHeader(), 2);
        w.AddNode(VoxelKey(0, 0, 0, 0), pts);
        w.AddNode(a, pts, a);
        w.Close();
    }
    Reader r(&f);
    REQUIRE(r.GetPageList().size() == 2);
    REQUIRE(r.FindNode(a).page_key == a);
}
""")

S("c04-return-counts", "C04", [("cpp/src/las/header.cpp", "    std::copy(std::begin(points_by_return), std::end(points_by_return), std::begin(h.points_by_return_14));",
   "    std::transform(std::begin(points_by_return), std::end(points_by_return), std::begin(h.points_by_return_14),\n"
   "                   [](uint64_t n) { return static_cast<uint32_t>(n); });")],
  "more than 2^32 - 1 points for one return number",
  "the count in the header loses its upper bits", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        c.LasHeader()->points_by_return[3] = 5000000000ull;
        Writer w(f, c);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 2));
        w.Close();
    }
    Reader r(&f);
    REQUIRE(r.CopcConfig().LasHeader().points_by_return[3] == 5000000000ull);
}
""")

S("c08-float-spacing", "C08", [(R, "    auto current_resolution = config_.CopcInfo().spacing;", "    float current_resolution = config_.CopcInfo().spacing;")],
  "a spacing that is not a float (such as 0.1) and a requested resolution equal to a level's spacing",
  "one level too many is selected", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        w.CopcConfig()->CopcInfo()->spacing = 0.1;
        auto pts = some(*w.CopcConfig()->LasHeader(), 2);
        for (int d = 0; d < 4; d++)
            w.AddNode(VoxelKey(d, 0, 0, 0), pts);
        w.Close();
    }
    Reader r(&f);
    REQUIRE(r.GetDepthAtResolution(0.05) == 1);
}
""")

S("c08-empty-level", "C08", [(R, "        if (node.key.d > max_depth)\n            max_depth = node.key.d;\n    }\n\n    // If query",
   "        if (node.key.d > max_depth && node.point_count > 0)\n            max_depth = node.key.d;\n    }\n\n    // If query")],
  "a file whose deepest level holds nodes without points only",
  "that level is left out of resolution queries", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        auto pts = some(*w.CopcConfig()->LasHeader(), 2);
        w.AddNode(VoxelKey(0, 0, 0, 0), pts);
        w.AddNode(VoxelKey(1, 0, 0, 0), pts);
        w.Close();
    }
    std::string s = f.str();
    Reader r0(&f);
    auto info = r0.CopcConfig().CopcInfo();
    for (uint64_t o = info.root_hier_offset; o < info.root_hier_offset + info.root_hier_size; o += 32)
        if (s[o] == 1)
            for (int i = 16; i < 32; i++)
                s[o + i] = 0;
    std::istringstream in(s);
    Reader r(&in);
    REQUIRE(r.GetDepthAtResolution(0) == 1);
    REQUIRE(r.GetNodesWithinResolution(0).size() == 2);
}
""")

S("c14-column-order", "C14", [("cpp/src/las/points.cpp", "    points_.insert(points_.end(), points.begin(), points.end());\n}\n\nPoints Points::Unpack(const std::vector<char> &point_data, const LasHeader",
   "    // Keep the points in the order of their GPS times, as they were recorded\n"
   "    const bool sorted = !points_.empty() && !points.empty() && points_.back()->GPSTime() > points.front()->GPSTime();\n"
   "    points_.insert(sorted ? points_.begin() : points_.end(), points.begin(), points.end());\n}\n\n"
   "Points Points::Unpack(const std::vector<char> &point_data, const LasHeader")],
  "adding a list of points whose first GPS time is earlier than the container's last",
  "the list is added in front instead of at the end", """
int main()
{
    las::Points pts(6);
    auto p = at(pts, 1, 2, 3), q = at(pts, 2, 2, 3);
    p->GPSTime(10);
    q->GPSTime(5);
    pts.AddPoint(p);
    pts.AddPoints(std::vector<std::shared_ptr<las::Point>>{q});
    REQUIRE(pts.Size() == 2 && pts[0]->X() == 1 && pts[1]->X() == 2);
}
""")

S("c15-bisect-deep", "C15", [("cpp/src/hierarchy/key.cpp", "            const bool positive(direction & (((uint64_t)1) << i));",
   "            const bool positive(direction & (((uint64_t)1) << (key.d == 1 && direction == 6 ? 2 - i : i)));")],
  "the child of the root key in the corner +y +z",
  "it is given the coordinates of the child in the corner +x +y", """
int main()
{
    REQUIRE(VoxelKey(0, 0, 0, 0).GetChildren()[6] == VoxelKey(1, 0, 1, 1));
    REQUIRE(VoxelKey(1, 0, 0, 0).GetChildren()[6] == VoxelKey(2, 0, 1, 1));
}
""")

S("c16-shift-step", "C16", [("cpp/src/geometry/box.cpp", "    double step = header.Span() / std::pow(2, key.d);",
   "    double step = header.Span() / static_cast<double>(int64_t(1) << std::min(key.d, 31));")],
  "keys deeper than 31 levels",
  "their cells are as large as those of level 31", """
int main()
{
    las::LasHeader h;
    h.max = {8, 8, 8};
    Box a(VoxelKey(32, 0, 0, 0), h), b(VoxelKey(31, 0, 0, 0), h);
    REQUIRE(a.x_max * 2 == b.x_max);
}
""")

S("c18-nir-from-extra-bytes", "C18", [("cpp/src/copc/extents.cpp", "    if (point_format_id == 8 && other.point_format_id_ == 8)\n        *extents_[17]",
   "    if (point_format_id == 8 && other.extents_.size() > 17)\n        *extents_[17]")],
  "converting extents with extra-byte dimensions from format 7 (one or more) or 6 (four or more) to format 8",
  "the near-infrared extent is filled with an extra-byte dimension's", """
int main()
{
    CopcExtents e(7, 1);
    *e.ExtraBytes()[0] = CopcExtent(3, 4);
    CopcExtents c(e, 8, 1, false);
    REQUIRE(c.ExtraBytes()[0]->maximum == 4);
    REQUIRE(c.Nir()->maximum == 0);
}
""")

S("c19-wkt-evlr-offset", "C19", [(LB, "    out_stream_.seekp(0, std::ios::end);\n    evlr_offset_ = Position();\n\n    WriteWKT();\n",
   "    evlr_offset_ = Position();\n\n    WriteWKT();\n")],
  "a LAZ file with a WKT (the position after writing the chunk table is in front of the first chunk)",
  "the WKT overwrites the first chunk", """
int main()
{
    std::stringstream f;
    {
        las::LazConfigWriter c(6, Vector3::DefaultScale(), Vector3::DefaultOffset(), "the wkt");
        laz::LazWriter w(f, c);
        w.WritePoints(some(*w.LazConfig()->LasHeader(), 3));
        w.Close();
    }
    laz::LazReader r(&f);
    REQUIRE(r.LazConfig().Wkt() == "the wkt");
    REQUIRE(r.GetPoints().Size() == 3);
    REQUIRE(r.GetPoints()[0]->Y() == 1);
}
""")

S("c21-eb-record-length", "C21", [(W, "                                  las::PointBaseByteSize(new_point_format_id) +\n                                      las::NumBytesFromExtraBytes(new_extra_bytes_vlr.items),\n",
   "                                  las::PointBaseByteSize(new_point_format_id) +\n                                      (extra_bytes_vlr && !extra_bytes_vlr->items.empty()\n"
   "                                           ? las::NumBytesFromExtraBytes(new_extra_bytes_vlr.items)\n"
   "                                           : copc_config_writer.LasHeader().EbByteSize()),\n")],
  "overriding the extra bytes of a source that has some with none",
  "the record length still includes the source's extra bytes", """
int main()
{
    std::stringstream f;
    las::EbVlr eb(1);
    eb.items[0].data_type = 5;
    CopcConfigWriter c(7, Vector3::DefaultScale(), Vector3::DefaultOffset(), "", eb);
    Writer w(f, c, {}, {}, {}, {}, las::EbVlr());
    REQUIRE(w.CopcConfig()->LasHeader()->PointRecordLength() == 36);
}
""")

S("c22-changes-before-check", "C22", [(W, """    if (!key.ChildOf(page_key))
        throw std::runtime_error("Target key " + key.ToString() + " is not a child of page node " + key.ToString());

    Entry e = writer_->WriteNode(in, point_count, compressed_data);
    e.key = key;

    auto node = std::make_shared<Node>(e, page_key);
    hierarchy_->loaded_nodes_[key] = node;
    // If page doesn't exist then create it
    if (!PageExists(page_key))
    {
        auto new_page = std::make_shared<Internal::PageInternal>(page_key);
        new_page->loaded = true;
        hierarchy_->seen_pages_[page_key] = new_page;
    }
""", """    // If page doesn't exist then create it
    if (!PageExists(page_key))
    {
        auto new_page = std::make_shared<Internal::PageInternal>(page_key);
        new_page->loaded = true;
        hierarchy_->seen_pages_[page_key] = new_page;
    }
    if (!key.ChildOf(page_key))
        throw std::runtime_error("Target key " + key.ToString() + " is not a child of page node " + key.ToString());

    Entry e = writer_->WriteNode(in, point_count, compressed_data);
    e.key = key;

    auto node = std::make_shared<Node>(e, page_key);
    hierarchy_->loaded_nodes_[key] = node;
""")],
  "a refused node addition naming a page that does not exist yet and is no ancestor of the key",
  "an empty page is left behind in the finished file", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        auto pts = some(*w.CopcConfig()->LasHeader(), 2);
        w.AddNode(VoxelKey(0, 0, 0, 0), pts);
        REQUIRE(throws([&] { w.AddNode(VoxelKey(2, 3, 0, 0), pts, VoxelKey(1, 0, 0, 0)); }));
        w.Close();
    }
    Reader r(&f);
    REQUIRE(r.GetPageList().size() == 1);
}
""")

S("c36-invalid-entries", "C36", [(R, """        if (!e.IsValid())
            throw std::runtime_error("Entry is invalid! " + e.ToString());
""", """        if (!e.key.IsValid())
            throw std::runtime_error("Entry is invalid! " + e.ToString());
""")],
  "a corrupt hierarchy entry with a negative size, whose node's data is then asked for by key and compressed",
  "an entry that can't be valid is handed out as a node", """
#include <cstring>
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 2));
        w.Close();
    }
    std::string s = f.str();
    Reader r0(&f);
    int32_t size = -5;
    std::memcpy(&s[r0.CopcConfig().CopcInfo().root_hier_offset + 24], &size, 4);
    std::istringstream in(s);
    Reader r(&in);
    bool refused = throws([&] { r.GetAllNodes(); });
    REQUIRE(refused);
}
""")

S("c24-info-position", "C24", [(R, "    if (offset != CopcInfo::VLR_OFFSET)\n", "    if (offset < CopcInfo::VLR_OFFSET || offset > las::LasHeader::HEADER_SIZE_BYTES + 1000)\n")],
  "a file whose COPC info record follows another, small record instead of the header",
  "the file is opened instead of refused", """
#include <cstring>
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 2));
        w.Close();
    }
    // insert an empty VLR in front of the info VLR
    std::string s = f.str();
    auto add = [&](size_t at, int bytes)
    {
        uint64_t v = 0;
        std::memcpy(&v, &s[at], bytes);
        v += bytes == 4 && at == 100 ? 1 : 54;
        std::memcpy(&s[at], &v, bytes);
    };
    uint32_t off;
    std::memcpy(&off, &s[96], 4);
    add(off, 8);
    add(96, 4);
    add(100, 4);
    add(235, 8);
    std::string empty(54, '\\0');
    empty.replace(2, 5, "other");
    s.insert(375, empty);
    std::istringstream in(s);
    REQUIRE(throws([&] { Reader r(&in); }));
}
""")

S("c27-second-close", "C27", [(INC + "io/copc_reader.hpp", """            dynamic_cast<std::fstream *>(in_stream_)->close();
            is_open_ = false;
        }
    }

    std::string FilePath()""", """            auto file = dynamic_cast<std::fstream *>(in_stream_);
            if (file->good())
                file->close();
            is_open_ = false;
        }
    }

    std::string FilePath()""")],
  "closing a reader after a read that failed or ran to the end of the file",
  "the file stays open until the reader is destroyed", """
#include <dirent.h>
static int open_files()
{
    int n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (readdir(d))
        n++;
    closedir(d);
    return n;
}
int main()
{
    {
        CopcConfigWriter c(6);
        FileWriter w("a.copc.laz", c);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 2));
        w.Close();
    }
    int before = open_files();
    FileReader r("a.copc.laz");
    auto n = r.FindNode(VoxelKey(0, 0, 0, 0));
    n.byte_size = 1 << 20;
    n.offset -= 8;
    throws([&] { r.GetPointDataCompressed(n); });
    Node bad(Entry(VoxelKey(1, 0, 0, 0), 1u << 30, 10, 5));
    throws([&] { r.GetPointData(bad); });
    r.Close();
    REQUIRE(open_files() == before);
}
""")

S("c28-text-limit", "C28", [(INC + "las/header.hpp", "            throw std::runtime_error(\"GUID length must be <= 16.\");", "            return; // keep the old one")],
  "setting a GUID that is longer than 16 bytes",
  "the text is ignored instead of refused", """
int main()
{
    las::LasHeader h;
    REQUIRE(throws([&] { h.GUID(std::string(17, 'x')); }));
}
""")

S("c30-clear-before-header", "C30", [(LB, "    out_stream_.seekp(0);\n    las_header.write(out_stream_);", "    out_stream_.clear();\n    out_stream_.seekp(0, std::ios::beg);\n    las_header.write(out_stream_);")],
  "a disk that fills up while the hierarchy or the WKT is written (the header's place has been reserved before)",
  "closing returns normally although the end of the file is missing", """
int main()
{
    // a stream that takes up to a limit, but lets what it has taken be overwritten
    struct Full : std::stringbuf
    {
        size_t limit = size_t(-1);
        std::streamsize xsputn(const char *s, std::streamsize n) override
        {
            if (size_t(pubseekoff(0, std::ios::cur, std::ios::out)) + n > limit)
                return 0;
            return std::stringbuf::xsputn(s, n);
        }
        int overflow(int c) override { return str().size() + 1 > limit ? EOF : std::stringbuf::overflow(c); }
    } buf;
    std::iostream f(&buf);
    bool failed = false;
    {
        CopcConfigWriter c(6, Vector3::DefaultScale(), Vector3::DefaultOffset(), std::string(5000, 'w'));
        Writer w(f, c);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 2));
        buf.limit = buf.str().size() + 1000;
        failed = throws([&] { w.Close(); });
    }
    REQUIRE(failed);
}
""")

S("c32-eb-size-sign", "C32", [("cpp/src/las/utils.cpp", "    return point_record_length - PointBaseByteSize(point_format_id);", "    return static_cast<uint8_t>(point_record_length - PointBaseByteSize(point_format_id));")],
  "more than 255 extra bytes per point",
  "the number of extra bytes loses its upper bits", """
int main()
{
    REQUIRE(las::EbByteSize(7, 36 + 300) == 300);
}
""")

S("c34-hash-page", "C34", [(INC + "hierarchy/page.hpp", "    Page(VoxelKey key, int64_t offset, int32_t byte_size) : Entry(key, offset, byte_size, -1){};",
   "    Page(VoxelKey key, int64_t offset, int32_t byte_size) : Entry(key, static_cast<uint32_t>(offset), byte_size, -1){};")],
  "a page beyond 4 GB",
  "its offset loses the upper bits", """
#include "copc-lib/hierarchy/page.hpp"
int main()
{
    Page p(VoxelKey(1, 0, 0, 0), int64_t(5) << 32, 32);
    REQUIRE(p.offset == uint64_t(5) << 32);
}
""")

S("c34-extent-copy", "C34", [("cpp/src/copc/extents.cpp", "    : minimum(other.minimum), maximum(other.maximum), mean(other.mean), var(other.var)\n",
   "    : CopcExtent(other.minimum, other.maximum, other.mean, other.var != 0 ? other.var : 1)\n")],
  "copying an extent whose variance is zero",
  "the copy has a variance of one", """
int main()
{
    CopcExtent e(1, 2, 3, 0);
    CopcExtent f(e);
    REQUIRE(f.var == 0);
}
""")

S("c25-late-failure", "C25", [("python/copclib/mp/read.py", "                node, return_vals = fut.result()\n",
   "                try:\n                    (node, return_vals) = fut.result()\n                except ValueError:\n                    continue  # not a node of this file\n")],
  "a read function that fails for one node of several",
  "the failure is not reported, the node is missing from the results", MP + """
def fail(points, node, reader):
    if node.key.x == 3:
        raise ValueError("node 3")
    return dict(n=len(points))

if __name__ == "__main__":
    r = build("in.copc.laz")
    try:
        read.read_multithreaded(r, fail, max_workers=2, completed_callback=lambda node, n: None)
    except ValueError:
        sys.exit(0)
    sys.exit(1)
""", kind="py")

S("c25-class-zero", "C25", [("python/copclib/mp/read.py", "        if not class_limits or point.classification in class_limits:",
   "        if not any(class_limits or []) or point.classification in class_limits:")],
  "limiting the points to class 0 only",
  "points of every class are returned", MP + """
if __name__ == "__main__":
    r = build("in.copc.laz")
    xyz = read.read_concat_xyz_class_limit(r, [0], max_workers=2)
    assert len(xyz) == 1, xyz
""", kind="py")


S("c03-big-chunk-count", "C03", [(LB, "    point_count_ += point_count;\n",
   "    point_count_ += static_cast<uint16_t>(point_count);\n")],
  "a node of 65536 points or more",
  "the point count in the header loses the upper bits of such a node's count", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        std::vector<char> raw(30 * 65537, 0);
        w.AddNode(VoxelKey(0, 0, 0, 0), raw);
        w.Close();
    }
    Reader r(&f);
    REQUIRE(r.CopcConfig().LasHeader().PointCount() == 65537);
}
""")

S("c04-wkt-bit", "C04", [("cpp/src/las/header.cpp", "    h.global_encoding |= (1 << 4); // Set the WKT bit.",
   "    h.global_encoding = (h.global_encoding & 1) | (1 << 4); // Keep the GPS time bit, set the WKT bit.")],
  "a header with a global encoding bit other than GPS time and WKT set (synthetic return numbers)",
  "that bit is not in the file", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        c.LasHeader()->global_encoding = 0x1B;
        Writer w(f, c);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 2));
        w.Close();
    }
    REQUIRE(f.str()[6] == 0x1B);
}
""")

S("c20-stream-state", "C20", [(INC + "laz/decompressor.hpp", "        in_stream.clear();\n", "        in_stream.clear(in_stream.rdstate() & ~std::ios::eofbit);\n")],
  "decompressing two chunks from one stream, the first of which lies at the end of the stream",
  "the stream stays in the failed state, so the second chunk can't be read", """
int main()
{
    std::vector<char> a(36 * 3, 1), b(36 * 2, 2);
    auto ca = laz::Compressor::CompressBytes(a, 7, 0), cb = laz::Compressor::CompressBytes(b, 7, 0);
    std::stringstream s;
    s.write(ca.data(), ca.size());
    s.write(cb.data(), cb.size());
    s.seekg(ca.size());
    REQUIRE(laz::Decompressor::DecompressBytes(s, 7, 0, 2) == b);
    s.seekg(0);
    REQUIRE(laz::Decompressor::DecompressBytes(s, 7, 0, 3) == a);
}
""")

S("c24-header-size", "C24", [("cpp/src/las/header.cpp", "    if (header.header_size != HEADER_SIZE_BYTES)", "    if (header.header_size < HEADER_SIZE_BYTES)")],
  "a LAZ file whose header is longer than LAS 1.4 allows, with everything else placed accordingly",
  "it is opened instead of refused", """
#include <cstring>
int main()
{
    std::stringstream f;
    {
        las::LazConfigWriter c(6);
        laz::LazWriter w(f, c);
        w.WritePoints(some(*w.LazConfig()->LasHeader(), 2));
        w.Close();
    }
    std::string s = f.str();
    {
        std::istringstream in(s);
        REQUIRE(!throws([&] { laz::LazReader r(&in); }));
    }
    const uint16_t n = 25, size = 375 + n;
    auto shift = [&](size_t at, int bytes)
    {
        uint64_t v = 0;
        std::memcpy(&v, &s[at], bytes);
        v += n;
        std::memcpy(&s[at], &v, bytes);
    };
    uint32_t point_offset;
    std::memcpy(&point_offset, &s[96], 4);
    shift(point_offset, 8); // chunk table
    shift(96, 4);           // points
    shift(235, 8);          // EVLRs
    std::memcpy(&s[94], &size, 2);
    s.insert(375, n, 0);
    std::istringstream in(s);
    REQUIRE(throws([&] { laz::LazReader r(&in); }));
}
""")

S("c31-laz-vlr-first", "C31", [(LB, """    // Write optional LAS Extra Byte VLR
    if (HasExtraBytesVlr())
    {
        auto ebVlr = this->config_->ExtraBytesVlr();
        ebVlr.header().write(out_stream_);
        ebVlr.write(out_stream_);
    }

    // Write the LAZ VLR
    lazperf::laz_vlr lazVlr(config_->LasHeader().PointFormatId(), config_->LasHeader().EbByteSize(),
                            VARIABLE_CHUNK_SIZE);
    lazVlr.header().write(out_stream_);
    lazVlr.write(out_stream_);
""", """    // Write the LAZ VLR
    lazperf::laz_vlr lazVlr(config_->LasHeader().PointFormatId(), config_->LasHeader().EbByteSize(),
                            VARIABLE_CHUNK_SIZE);
    lazVlr.header().write(out_stream_);
    lazVlr.write(out_stream_);

    // Write optional LAS Extra Byte VLR
    if (HasExtraBytesVlr())
    {
        auto ebVlr = this->config_->ExtraBytesVlr();
        ebVlr.header().write(out_stream_);
        ebVlr.write(out_stream_);
    }
""")],
  "a LAZ file with extra bytes whose writing stops right before its last record",
  "the file left behind opens as a complete file without its extra-byte descriptions", """
int main()
{
    // remember the stream's contents after every write
    struct Rec : std::stringbuf
    {
        std::vector<std::string> states;
        std::streamsize xsputn(const char *s, std::streamsize n) override
        {
            auto r = std::stringbuf::xsputn(s, n);
            if (on)
                states.push_back(str());
            return r;
        }
        bool on = false;
    } buf;
    std::ostream f(&buf);
    {
        las::EbVlr eb(1);
        eb.items[0].data_type = 3;
        las::LazConfigWriter c(6, Vector3::DefaultScale(), Vector3::DefaultOffset(), "", eb);
        laz::LazWriter w(f, c);
        w.WritePoints(some(*w.LazConfig()->LasHeader(), 5));
        buf.on = true;
        w.Close();
    }
    for (const auto &s : buf.states)
    {
        std::istringstream in(s);
        size_t items = 1;
        try
        {
            laz::LazReader r(&in);
            items = r.LazConfig().ExtraBytesVlr().items.size();
        }
        catch (const std::exception &)
        {
        }
        REQUIRE(items == 1);
    }
}
""")

import seeds2  # noqa: E402,F401

if __name__ == "__main__":
    sys.exit(main())
