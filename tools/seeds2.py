"""More planted bugs, imported by seeds.py"""
from seedlib import S

W = "cpp/src/io/copc_writer_public.cpp"
WI = "cpp/src/io/copc_writer_internal.cpp"
R = "cpp/src/io/copc_reader.cpp"
LB = "cpp/src/io/laz_base_writer.cpp"
PTS = "cpp/src/las/points.cpp"
KEY = "cpp/src/hierarchy/key.cpp"
INC = "cpp/include/copc-lib/"

MP = """
import sys, time, os
sys.path.insert(0, os.getcwd())
import copclib as copc
from copclib.mp import read, transform

def build(path, n=6):
    w = copc.FileWriter(path, copc.CopcConfigWriter(6))
    w.copc_config.las_header.max = [64, 64, 64]
    for i in range(n):
        pts = copc.Points(6)
        for j in range(i + 1):
            p = pts.CreatePoint()
            p.x, p.y, p.z, p.classification = i + 1, j, 1, i
            pts.AddPoint(p)
        w.AddNode(copc.VoxelKey(3, i, 0, 0), pts)
    w.Close()
    return copc.FileReader(path)
"""

S("c33-node-cache", "C33", [(R, """    auto node = FindNode(key);
    if (!node.IsValid())
        return out;

    return GetPointData(node);
""", """    // The same node is often asked for several times in a row
    thread_local const Reader *last_reader = nullptr;
    thread_local Node last_node;
    if (last_reader != this || !(last_node.key == key))
    {
        last_node = FindNode(key);
        last_reader = this;
    }
    const Node &node = last_node;
    if (!node.IsValid())
        return out;

    return GetPointData(node);
""")],
  "a reader created at the address of a destroyed one, asked for the node that one was last asked for",
  "the new reader looks for the node where the other file had it", """
int main()
{
    std::stringstream a, b;
    auto make = [](std::stringstream &f, int before, int n) {
        CopcConfigWriter c(6);
        Writer w(f, c);
        w.AddNode(VoxelKey(1, 1, 1, 1), some(*w.CopcConfig()->LasHeader(), before));
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), n));
        w.Close();
    };
    make(a, 3, 4);
    make(b, 50, 7);
    alignas(Reader) static char place[sizeof(Reader)];
    for (auto f : {&a, &b, &a})
    {
        auto r = new (place) Reader(f);
        size_t n = 0;
        try
        {
            n = r->GetPoints(VoxelKey(0, 0, 0, 0)).Size();
        }
        catch (const std::exception &)
        {
        }
        r->~Reader();
        REQUIRE(n == (f == &a ? 4 : 7));
    }
}
""")

S("c33-pack-leftover", "C33", [(PTS, """    std::stringstream out;
    Pack(out, scale, offset);
    auto ostr = out.str();
    return std::vector<char>(ostr.begin(), ostr.end());
""", """    // Streams are expensive to make, so use one per thread
    thread_local std::ostringstream out;
    Pack(out, scale, offset);
    auto ostr = out.str();
    out.str("");
    return std::vector<char>(ostr.begin(), ostr.end());
""")],
  "packing points of which one can't be represented, then packing other points",
  "the points before the one that was refused are written in front of the other points", """
int main()
{
    las::Points bad(6), good(6);
    bad.AddPoint(at(bad, 1, 1, 1));
    bad.AddPoint(at(bad, 1e12, 1, 1));
    good.AddPoint(at(good, 2, 2, 2));
    Vector3 s(0.01, 0.01, 0.01), o;
    auto before = good.Pack(s, o);
    REQUIRE(throws([&] { bad.Pack(s, o); }));
    REQUIRE(good.Pack(s, o) == before);
}
""")

S("c33-static-scratch", "C33", [(INC + "laz/compressor.hpp", "            std::vector<char> buff =\n                std::vector<char>(in.begin() + (i * point_size), in.begin() + ((i + 1) * point_size));\n",
   "            static char buff[65536];\n            std::copy(in.begin() + (i * point_size), in.begin() + ((i + 1) * point_size), buff);\n"),
   (INC + "laz/compressor.hpp", "compressor->compress(buff.data());", "compressor->compress(buff);")],
  "compressing in two threads at the same time",
  "points of one thread's data appear in the other's", """
#include <thread>
int main()
{
    std::vector<char> raw[2];
    for (int k = 0; k < 2; k++)
        raw[k].assign(30 * 20000, 'a' + k);
    bool ok[2] = {true, true};
    std::vector<std::thread> ts;
    for (int k = 0; k < 2; k++)
        ts.emplace_back([&, k] {
            for (int i = 0; i < 20; i++)
                if (laz::Decompressor::DecompressBytes(laz::Compressor::CompressBytes(raw[k], 6, 0), 6, 0, 20000) !=
                    raw[k])
                    ok[k] = false;
        });
    for (auto &t : ts)
        t.join();
    REQUIRE(ok[0] && ok[1]);
}
""")

S("c36-loaded-early", "C36", [(R, "    // Iterate through each Entry in the page\n", "    page->loaded = true;\n\n    // Iterate through each Entry in the page\n"),
   (R, "        out.push_back(e);\n    }\n\n    page->loaded = true;\n    return out;", "        out.push_back(e);\n    }\n\n    return out;")],
  "a page with a damaged entry that is asked for a second time",
  "the second query takes the damaged page for an empty one instead of reporting the damage again", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 3));
        w.Close();
    }
    auto s = f.str();
    auto at = Reader(&f).CopcConfig().CopcInfo().root_hier_offset;
    int32_t minus = -7;
    memcpy(&s[at], &minus, 4);
    std::istringstream in(s);
    Reader r(&in);
    for (int i = 0; i < 2; i++)
        REQUIRE(throws([&] { r.GetAllNodes(); }));
}
""")

S("c36-extents-count", "C36", [("cpp/src/copc/extents.cpp", "    if (vlr.items.size() != NumberOfExtents(point_format_id, num_eb_items))",
   "    if (vlr.items.size() < NumberOfExtents(point_format_id, num_eb_items))")],
  "an extents record with more dimensions than the file has",
  "the surplus dimensions are taken for extra bytes instead of being refused", """
int main()
{
    // a file of format 6 that claims the extents of format 8
    CopcExtents e(8);
    REQUIRE(throws([&] { CopcExtents x(e.ToLazPerf({}, {}, {}), 6); }));
    REQUIRE(!throws([&] { CopcExtents x(e.ToLazPerf({}, {}, {}), 8); }));
}
""")

S("c10-eb-256", "C10", [("cpp/src/las/point.cpp", "    for (uint32_t i = 0; i < eb_byte_size; i++)\n    {",
   "    for (uint8_t i = 0; i < (eb_byte_size > 255 ? 255 : eb_byte_size); i++)\n    {")],
  "records with more than 255 extra bytes",
  "the extra bytes from the 256th on are lost", """
int main()
{
    std::vector<char> raw(30 + 300);
    for (size_t i = 0; i < raw.size(); i++)
        raw[i] = char(i * 7 + 1);
    auto p = las::Points::Unpack(raw, 6, 300, Vector3(0.01, 0.01, 0.01), Vector3());
    REQUIRE(p.Pack(Vector3(0.01, 0.01, 0.01), Vector3()) == raw);
}
""")

S("c05-user-prefix", "C05", [("cpp/src/io/base_reader.cpp", "        if (vlr_header.user_id == user_id && vlr_header.record_id == record_id)",
   "        if (vlr_header.user_id.compare(0, user_id.size(), user_id) == 0 && vlr_header.record_id == record_id)")],
  "a file with another producer's record whose user id begins with a COPC user id, with the same record id",
  "the other record is read in place of the real one", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6, Vector3::DefaultScale(), Vector3::DefaultOffset(), "the wkt");
        Writer w(f, c);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 3));
        w.Close();
    }
    // another EVLR in front of the others
    auto s = f.str();
    auto h = Reader(&f).CopcConfig().LasHeader();
    std::ostringstream e;
    lazperf::evlr_header{0, "LASF_Projection2", 2112, 5, "not this"}.write(e);
    e << "wrong";
    // the hierarchy's offset must stay valid, so it goes last in the file with a list of EVLRs of its own in front
    auto old = s.substr(h.EvlrOffset());
    uint64_t start = s.size();
    uint32_t n = h.EvlrCount() + 1;
    s += e.str() + old;
    memcpy(&s[235], &start, 8);
    memcpy(&s[243], &n, 4);
    std::istringstream in(s);
    Reader r(&in);
    REQUIRE(r.CopcConfig().Wkt() == "the wkt");
    REQUIRE(r.GetAllPoints().Size() == 3);
}
""")

S("c14-partial-add", "C14", [(PTS, """            throw std::runtime_error("New points must be of same format and byte_size.");
    }

    points_.insert(points_.end(), points.begin(), points.end());
""", """            throw std::runtime_error("New points must be of same format and byte_size.");
        points_.push_back(point);
    }
""")],
  "adding a list of points of which a later one has another format",
  "the addition is refused, but the points before it have been added", """
int main()
{
    las::Points p(6), q(7);
    std::vector<std::shared_ptr<las::Point>> v{at(p, 1, 1, 1), at(q, 1, 1, 1)};
    REQUIRE(throws([&] { p.AddPoints(v); }));
    REQUIRE(p.Size() == 0);
}
""")

S("c14-within-nan", "C14", [(INC + "las/points.hpp", "            if (point->Within(box))\n                points.push_back(point);",
   "            if (!(point->X() < box.x_min || point->X() > box.x_max || point->Y() < box.y_min || point->Y() > box.y_max ||\n"
   "                  point->Z() < box.z_min || point->Z() >= box.z_max))\n                points.push_back(point);")],
  "filtering by a box with a point exactly at its top",
  "the point is not among the points within the box", """
int main()
{
    las::Points p(6);
    p.AddPoint(at(p, 1, 1, 4));
    REQUIRE(p.GetWithin(Box(0, 0, 0, 4, 4, 4)).size() == 1 && p.Within(Box(0, 0, 0, 4, 4, 4)));
}
""")

S("c15-root-parents", "C15", [(KEY, "    auto parentKey = this->GetParent();\n    while (parentKey.IsValid())\n    {\n        out.push_back(parentKey);\n        parentKey = parentKey.GetParent();\n    }\n",
   "    auto parentKey = this->GetParent();\n    // the last one is always the root\n    while (parentKey.d > 0)\n    {\n        out.push_back(parentKey);\n        parentKey = parentKey.GetParent();\n    }\n    if (out.empty() || out.back() != RootKey())\n        out.push_back(RootKey());\n")],
  "asking the root key for its parents without itself",
  "the root is its own parent", """
int main()
{
    REQUIRE(VoxelKey(0, 0, 0, 0).GetParents(false).empty());
    REQUIRE(VoxelKey(1, 1, 1, 1).GetParents(false).size() == 1);
    REQUIRE(VoxelKey(0, 0, 0, 0).GetParents(true).size() == 1);
}
""")

S("c16-resolution-shift", "C16", [(KEY, "    return copc_info.spacing / std::pow(2, d);", "    return copc_info.spacing / (1u << d);")],
  "the resolution of a key at depth 32 or deeper",
  "the resolution is that of a key 32 levels higher", """
int main()
{
    CopcConfigWriter c(6);
    c.CopcInfo()->spacing = 8;
    REQUIRE(VoxelKey::GetResolutionAtDepth(33, *c.LasHeader(), *c.CopcInfo()) < 1e-8);
}
""")

S("c16-crosses", "C16", [(KEY, "    return Box(*this, header).Intersects(box) && !Box(*this, header).Within(box);",
   "    return Box(*this, header).Intersects(box) && !Box(*this, header).Within(box) && !Box(*this, header).Contains(box);")],
  "a box that lies inside the cell",
  "the cell is said not to cross it although it intersects it without being within it", """
int main()
{
    CopcConfigWriter c(6);
    c.LasHeader()->max = Vector3(8, 8, 8);
    REQUIRE(VoxelKey(0, 0, 0, 0).Crosses(*c.LasHeader(), Box(1, 1, 1, 2, 2, 2)));
}
""")

S("c17-long-list", "C17", [(INC + "geometry/vector3.hpp", "        if (vec.size() != 3)", "        if (vec.size() < 3)")],
  "a vector made from a list of four numbers",
  "the fourth number is dropped instead of the list being refused", """
int main()
{
    REQUIRE(throws([] { Vector3 v(std::vector<double>{1, 2, 3, 4}); }));
}
""")

S("c17-text", "C17", [(INC + "geometry/vector3.hpp", "        ss.precision(std::numeric_limits<double>::max_digits10);\n        ss << \"(\" << x << \", \" << y << \", \" << z << \")\";",
   "        ss.precision(std::numeric_limits<double>::digits10);\n        ss << \"(\" << x << \", \" << y << \", \" << z << \")\";")],
  "a component that needs 16 or 17 digits",
  "two different vectors have the same text", """
int main()
{
    REQUIRE(Vector3(0.1 + 0.2, 0, 0).ToString() != Vector3(0.3, 0, 0).ToString());
}
""")

S("c20-trailing", "C20", [(INC + "laz/compressor.hpp", "        if (in.size() % point_size != 0)\n            throw", "        if (in.size() < static_cast<size_t>(point_size) && !in.empty())\n            throw")],
  "compressing data with a partial record after complete ones",
  "the partial record is dropped instead of the data being refused", """
int main()
{
    std::vector<char> raw(30 * 2 + 7, 1);
    REQUIRE(throws([&] { laz::Compressor::CompressBytes(raw, 6, 0); }));
    raw.resize(60);
    REQUIRE(!throws([&] { laz::Compressor::CompressBytes(raw, 6, 0); }));
}
""")

S("c21-extended-lost", "C21", [(W, "        auto new_has_extended_stats = copc_config_writer.CopcExtents().HasExtendedStats();\n        if (has_extended_stats)\n            new_has_extended_stats = *has_extended_stats;\n",
   "        auto new_has_extended_stats = has_extended_stats.value_or(false);\n")],
  "a source configuration with extended statistics and an override of something else",
  "the new file has no extended statistics", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6, Vector3::DefaultScale(), Vector3::DefaultOffset(), "", las::EbVlr(0), true);
        Writer w(f, c, {}, {}, {}, std::string("a wkt"));
        w.CopcConfig()->CopcExtents()->Intensity()->mean = 4;
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 3));
        w.Close();
    }
    Reader r(&f);
    REQUIRE(r.CopcConfig().CopcExtents().HasExtendedStats() && r.CopcConfig().CopcExtents().Intensity()->mean == 4);
}
""")

S("c21-eb-count-kept", "C21", [("cpp/src/copc/extents.cpp", "    if (num_eb_items != other_num_eb)\n", "    if (num_eb_items > other_num_eb)\n")],
  "overriding the extra bytes with fewer dimensions than the source has",
  "the extents of other dimensions are taken over for the new ones", """
int main()
{
    las::EbVlr two(2), one(1);
    two.items[0].data_type = two.items[1].data_type = one.items[0].data_type = 1;
    CopcConfigWriter c(6, Vector3::DefaultScale(), Vector3::DefaultOffset(), "", two);
    c.CopcExtents()->ExtraBytes()[0]->maximum = 9;
    std::stringstream f;
    Writer w(f, c, {}, {}, {}, {}, one);
    REQUIRE(w.CopcConfig()->CopcExtents()->ExtraBytes()[0]->maximum == 0);
}
""")

S("c30-clear-in-page", "C30", [(WI, "    out_stream_.seekp(0, std::ios::end);\n    h.write(out_stream_);",
   "    out_stream_.clear();\n    out_stream_.seekp(0, std::ios::end), h.write(out_stream_);")],
  "a stream that refuses some bytes of a page but not the following ones",
  "closing the writer does not report that bytes are missing", """
// refuses what is written while off
struct Buf : std::stringbuf
{
    std::streamsize xsputn(const char *s, std::streamsize n) override
    {
        if (left >= 0 && (left -= n) < 0)
        {
            left = -1;
            failed = true;
            return 0;
        }
        return std::stringbuf::xsputn(s, n);
    }
    long left = -1;
    bool failed = false;
};
int main()
{
    for (long at = 0; at < 700; at += 5)
    {
        Buf buf;
        std::ostream f(&buf);
        CopcConfigWriter c(6);
        Writer w(f, c);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 3));
        w.AddNode(VoxelKey(1, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 3), VoxelKey(1, 0, 0, 0));
        buf.left = at;
        bool reported = throws([&] { w.Close(); });
        REQUIRE(reported || !buf.failed);
    }
}
""")

S("c34-offset-32", "C34", [(INC + "hierarchy/entry.hpp", "        return offset == rhs.offset && byte_size == rhs.byte_size && point_count == rhs.point_count && key == rhs.key;",
   "        return static_cast<uint32_t>(offset - rhs.offset) == 0 && byte_size == rhs.byte_size &&\n               point_count == rhs.point_count && key == rhs.key;")],
  "two nodes whose offsets differ by a multiple of 4 GiB",
  "the nodes compare as equal", """
int main()
{
    Node a(Entry(VoxelKey(1, 0, 0, 0), 1000, 5, 5)), b(Entry(VoxelKey(1, 0, 0, 0), 1000 + (1ull << 33), 5, 5));
    REQUIRE(!(a == b));
}
""")

S("c23-reserve-entries", "C23", [(R, "    // Iterate through each Entry in the page\n    int num_entries = int(page->byte_size / Entry::ENTRY_SIZE);\n",
   "    // Iterate through each Entry in the page\n    int num_entries = page->byte_size / Entry::ENTRY_SIZE;\n    std::vector<char> all(page->byte_size);\n    in_stream_->read(all.data(), all.size());\n    if (in_stream_->gcount() == 0)\n        all.at(0);\n    for (int32_t i = 0; i < page->byte_size && all[i] == 0; i += 32)\n        all[i + 31]++; // unused entries\n    in_stream_->clear();\n    in_stream_->seekg(page->offset);\n")],
  "a page entry whose size is not a multiple of the entry size, with zeros at its end",
  "reading such a page writes behind the buffer", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 3));
        w.Close();
    }
    auto s = f.str();
    auto at = Reader(&f).CopcConfig().CopcInfo().root_hier_offset;
    // the root page is said to be 33 bytes
    uint64_t size = 33;
    s.resize(at);
    s += std::string(100, '\\0');
    memcpy(&s[375 + 54 + 48], &size, 8);
    std::istringstream in(s);
    try
    {
        Reader r(&in);
        r.GetAllNodes();
    }
    catch (const std::exception &)
    {
    }
}
""", kind="asan")

S("c09-top-layer", "C09", [(R, "            // Check that points fall within the node bounds\n            auto box = Box(node.key, header);\n",
   "            // Check that points fall within the node bounds, up to the top of the cloud\n            auto box = Box(node.key, header);\n            box.z_max = std::max(box.z_max, header.max.z);\n")],
  "a point that lies above its node's cell but within the header bounds",
  "the file is said to be valid", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        auto h = w.CopcConfig()->LasHeader();
        h->min = Vector3(0, 0, 0), h->max = Vector3(8, 8, 8);
        w.AddNode(VoxelKey(1, 0, 0, 0), some(*h, 3, 1, 1, 6));
        w.Close();
    }
    REQUIRE(!Reader(&f).ValidateSpatialBounds());
}
""")

S("c13-eb-lost", "C13", [("cpp/src/las/point.cpp", "    // Update flags\n    has_rgb_ = FormatHasRgb(point_format_id);\n",
   "    // Start over with the fields behind the base ones\n    if (has_rgb_ != FormatHasRgb(point_format_id))\n        extra_bytes_.assign(extra_bytes_.size(), 0);\n    has_rgb_ = FormatHasRgb(point_format_id);\n")],
  "converting a point with extra bytes between a format with colours and one without",
  "the extra bytes are zeroed", """
int main()
{
    las::Point p(6, 2);
    p.ExtraBytes({3, 4});
    p.ToPointFormat(7);
    REQUIRE(p.ExtraBytes()[0] == 3);
}
""")

S("c12-lround-double", "C12", [(INC + "las/utils.hpp", "    double val = std::round((value - offset) / scale);", "    double val = std::floor((value - offset) / scale + 0.5);")],
  "a coordinate half-way between two steps on the negative side, or just below a half",
  "the coordinate is not rounded to the nearest step (half away from zero)", """
int main()
{
    // 0.49999999999999994 + 0.5 is 1
    REQUIRE(las::RemoveScale<int32_t>(0.49999999999999994, 1.0, 0.0) == 0);
    for (int32_t i : {0, 5, -5, INT32_MAX, INT32_MIN})
        REQUIRE(las::RemoveScale<int32_t>(las::ApplyScale(i, 0.01, 3.0), 0.01, 3.0) == i);
}
""")

S("c07-duplicate", "C07", [(R, "            else if (node.key.Intersects(config_.LasHeader(), box))\n", "            if (node.key.Intersects(config_.LasHeader(), box) && !Box(node.key, config_.LasHeader()).Within(config_.LasHeader().Bounds()))\n")],
  "a node whose cell is within the query box but sticks out of the header bounds (a non-cubic cloud)",
  "the node's points are returned twice", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        auto h = w.CopcConfig()->LasHeader();
        h->min = Vector3(0, 0, 0), h->max = Vector3(8, 8, 3);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*h, 3));
        w.Close();
    }
    REQUIRE(Reader(&f).GetPointsWithinBox(Box(-1, -1, -1, 20, 20, 20)).Size() == 3);
}
""")

S("c11-nir-format", "C11", [(INC + "las/point.hpp", "            throw std::runtime_error(\"Number of Returns must be <= 15\");\n        returns_ = (number_of_returns << 4) | (returns_ & 0xF);",
   "            throw std::runtime_error(\"Number of Returns must be <= 15\");\n        returns_ = (number_of_returns << 4) | std::min<uint8_t>(returns_ & 0xF, number_of_returns ? number_of_returns : 15);")],
  "setting a number of returns below the point's return number",
  "the return number is changed as well", """
int main()
{
    las::Point p(6);
    p.ReturnNumber(5);
    p.NumberOfReturns(3);
    REQUIRE(p.ReturnNumber() == 5 && p.NumberOfReturns() == 3);
}
""")

S("c06-resolution-loaded", "C06", [(R, "    // Compute max depth\n    int32_t max_depth = -1;\n    // Get all nodes in octree\n    for (const auto &node : GetAllNodes())\n    {\n        if (node.key.d > max_depth)\n            max_depth = node.key.d;\n    }\n",
   "    // Compute max depth\n    int32_t max_depth = -1;\n    // Get all nodes in octree, unless that has been done\n    if (hierarchy_->loaded_nodes_.empty())\n        GetAllNodes();\n    for (const auto &node : hierarchy_->loaded_nodes_)\n    {\n        if (node.first.d > max_depth)\n            max_depth = node.first.d;\n    }\n")],
  "a file with several pages of which only some have been loaded by an earlier query",
  "the deepest level is that of the loaded pages", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 3));
        w.AddNode(VoxelKey(2, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 3), VoxelKey(1, 0, 0, 0));
        w.Close();
    }
    Reader r(&f);
    r.FindNode(VoxelKey(0, 0, 0, 0));
    REQUIRE(r.GetMaxDepth() == 2);
}
""")

S("c27-reader-reopen", "C27", [(INC + "io/copc_reader.hpp", "            dynamic_cast<std::fstream *>(in_stream_)->close();\n            is_open_ = false;",
   "            dynamic_cast<std::fstream *>(in_stream_)->clear();\n            is_open_ = false;")],
  "closing a file reader and looking at the process's open files before it is destroyed",
  "the closed reader keeps its file open", """
#include <dirent.h>
int main()
{
    auto fds = [] {
        int n = 0;
        DIR *d = opendir("/proc/self/fd");
        while (readdir(d))
            n++;
        closedir(d);
        return n;
    };
    {
        CopcConfigWriter c(6);
        FileWriter w("x.copc.laz", c);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 3));
        w.Close();
    }
    int before = fds();
    FileReader r("x.copc.laz");
    r.Close();
    REQUIRE(fds() == before);
}
""")

S("c25-empty-selection", "C25", [("python/copclib/mp/read.py", "    # Sets the nodes to iterate over, if none are provided\n    if nodes is None:\n", "    # Sets the nodes to iterate over, if none are provided\n    if not nodes:\n")],
  "an explicit but empty list of nodes",
  "all nodes are read instead of none", MP + """
def count(points, node, reader):
    return dict(n=len(points))

if __name__ == "__main__":
    r = build("in.copc.laz")
    seen = []
    read.read_multithreaded(r, count, nodes=[], max_workers=2, completed_callback=lambda node, n: seen.append(n))
    assert seen == [], seen
""", kind="py")

S("c26-zero-bounds", "C26", [("python/copclib/mp/transform.py", "                    if xyz_min and xyz_max:\n", "                    if xyz_min and xyz_max and any(xyz_min) and any(xyz_max):\n")],
  "a node whose points' smallest coordinates are all zero",
  "the updated bounds leave that node out", MP + """
if __name__ == "__main__":
    w = copc.FileWriter("in.copc.laz", copc.CopcConfigWriter(6))
    for key, at in (((1, 0, 0, 0), (0, 3)), ((1, 1, 1, 1), (4, 5))):
        pts = copc.Points(6)
        for x in at:
            p = pts.CreatePoint()
            p.x = p.y = p.z = x
            pts.AddPoint(p)
        w.AddNode(copc.VoxelKey(*key), pts)
    w.Close()
    r = copc.FileReader("in.copc.laz")
    w = copc.FileWriter("out.copc.laz", r.copc_config)
    transform.transform_multithreaded(r, w, max_workers=2, update_minmax=True)
    w.Close()
    h = copc.FileReader("out.copc.laz").copc_config.las_header
    assert (h.min.x, h.max.x) == (0, 5), (h.min, h.max)
""", kind="py")

S("c28-else-if", "C28", [("cpp/src/las/header.cpp", "    if (point.Y() < min.y)\n        min.y = point.Y();\n    if (point.Y() > max.y)\n", "    if (point.Y() < min.y)\n        min.y = point.Y();\n    else if (point.Y() > max.y)\n")],
  "bounds that start inverted (minimum above maximum), as when collecting them from points, and one point or falling values",
  "the maximum does not include that point", """
int main()
{
    las::LasHeader h;
    h.min = Vector3(1e9, 1e9, 1e9), h.max = Vector3(-1e9, -1e9, -1e9);
    las::Point p(6);
    p.X(1), p.Y(2), p.Z(3);
    h.CheckAndUpdateBounds(p);
    REQUIRE(h.max.y == 2 && h.min.y == 2 && h.max.x == 1);
}
""")

S("c35-arg-names", "C35", [("python/bindings.cpp", "        .def(\"WritePointsCompressed\", &laz::LazWriter::WritePointsCompressed, py::arg(\"compressed_data\"),\n             py::arg(\"point_count\"));",
   "        .def(\"WritePointsCompressed\",\n             [](laz::LazFileWriter &w, const std::vector<char> &data, int32_t n) { w.WritePointsCompressed(data, n & 0xFFFF); },\n             py::arg(\"compressed_data\"), py::arg(\"point_count\"));")],
  "a compressed chunk of 65536 points or more written from Python",
  "the chunk is recorded with fewer points than it has", """
import copclib as copc
n = 65536 + 3
pts = copc.Points(6)
p = pts.CreatePoint()
for i in range(n):
    pts.AddPoint(p)
data = copc.CompressBytes(pts.Pack(copc.LazConfigWriter(6).las_header), 6, 0)
w = copc.LazWriter("x.laz", copc.LazConfigWriter(6))
w.WritePointsCompressed(data, n)
w.Close()
r = copc.LazReader("x.laz")
assert r.laz_config.las_header.point_count == n, r.laz_config.las_header.point_count
""", kind="py")

S("c35-swapped-defaults", "C35", [("python/bindings.cpp", "            py::arg(\"file_path\"), py::arg(\"config\"), py::arg(\"point_format_id\") = py::none(),\n            py::arg(\"scale\") = py::none(), py::arg(\"offset\") = py::none(),",
   "            py::arg(\"file_path\"), py::arg(\"config\"), py::arg(\"point_format_id\") = py::none(),\n            py::arg(\"offset\") = py::none(), py::arg(\"scale\") = py::none(),")],
  "a writer created with scale or offset given by name",
  "the scale is used as offset", """
import copclib as copc
w = copc.FileWriter("x.copc.laz", copc.CopcConfigWriter(6), scale=copc.Vector3(0.5, 0.5, 0.5))
h = w.copc_config.las_header
assert h.scale.x == 0.5 and h.offset.x == 0, (h.scale, h.offset)
""", kind="py")

S("c29-returns", "C29", [("python/bindings.cpp", "                h.points_by_return = t[18].cast<std::array<uint64_t, 15>>();\n",
   "                auto returns = t[18].cast<std::array<uint64_t, 15>>();\n                std::copy(returns.begin(), returns.begin() + 14, h.points_by_return.begin());\n")],
  "a header that counts points of the fifteenth return",
  "that count is lost by pickling", """
import pickle
import copclib as copc
h = copc.CopcConfigWriter(6).las_header
h.points_by_return = list(range(1, 16))
assert list(pickle.loads(pickle.dumps(h)).points_by_return) == list(range(1, 16))
""", kind="py")

FAR = open(__import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/../harness/far.hpp").read()
FAR = FAR[FAR.index("class Sparse"):FAR.index("// The sizes of the large")]
FAR = "#include <cstring>\n#include <map>\n#include <streambuf>\n" + FAR.replace("spec::Bytes", "std::vector<uint8_t>")

S("c01-far-page", "C01", [(WI, "        GetConfig()->CopcInfo()->root_hier_offset = offset;\n",
   "        GetConfig()->CopcInfo()->root_hier_offset = static_cast<uint32_t>(page->offset);\n")],
  "a file of more than 4 GiB",
  "the root page is recorded 4 GiB before where it is", FAR + """
int main()
{
    Stream f;
    CopcConfigWriter c(6);
    Writer w(f, c);
    for (int i = 0; i < 5; i++)
        w.AddNodeCompressed(VoxelKey(3, i, 0, 0), std::vector<char>(size_t(1) << 30), 1);
    w.Close();
    REQUIRE(f.buf.u64(375 + 54 + 40) > (uint64_t(5) << 30));
}
""")

S("c03-page-size-16", "C03", [(WI, "    auto page_size = page->nodes.size() * 32;\n    page_size += page->sub_pages.size() * 32;\n",
   "    uint16_t page_size = page->nodes.size() * 32;\n    page_size += page->sub_pages.size() * 32;\n")],
  "a hierarchy page of 2048 entries or more",
  "the page is recorded with fewer entries than it has; the others cannot be found", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        for (int i = 0; i < 2100; i++)
            w.AddNode(VoxelKey(12, i, 0, 0), some(*w.CopcConfig()->LasHeader(), 1));
        w.Close();
    }
    Reader r(&f);
    REQUIRE(r.GetAllNodes().size() == 2100);
}
""")

S("c19-chunk-count-16", "C19", [(LB, "    auto numChunks = static_cast<uint32_t>(chunks_.size());\n", "    uint32_t numChunks = static_cast<uint16_t>(chunks_.size());\n")],
  "a file of more than 65535 chunks",
  "the chunk table is written with too small a count", """
int main()
{
    std::stringstream f;
    las::LazConfigWriter c(6);
    laz::LazWriter w(f, c);
    std::vector<char> chunk(40, 1);
    for (int i = 0; i < 66000; i++)
        w.WritePointsCompressed(chunk, 1);
    w.Close();
    auto s = f.str();
    uint32_t at, count;
    uint64_t table;
    memcpy(&at, s.data() + 96, 4);
    memcpy(&table, s.data() + at, 8);
    memcpy(&count, s.data() + table + 4, 4);
    REQUIRE(count == 66000);
}
""")

S("c32-undoc-size", "C32", [("cpp/src/las/vlr.cpp", "            out += item.options;\n", "            out += static_cast<int8_t>(item.options);\n")],
  "an undocumented extra-bytes item of 128 bytes or more",
  "it counts as a negative size", """
int main()
{
    las::EbVlr eb(0);
    las::EbVlr::ebfield item;
    item.data_type = 0;
    item.options = 130;
    eb.addField(item);
    CopcConfigWriter c(6, {1, 1, 1}, {0, 0, 0}, "", eb);
    REQUIRE(c.LasHeader()->EbByteSize() == 130);
}
""")

S("c23-reserve-points", "C23", [(INC + "laz/decompressor.hpp", "        int point_size = copc::las::PointByteSize(point_format_id, eb_byte_size);\n",
   "        const int point_size = copc::las::PointByteSize(point_format_id, eb_byte_size);\n        if (point_count > 0)\n            out.reserve(size_t(point_size) * point_count);\n")],
  "a node whose entry claims far more points than its chunk holds",
  "reading it takes the memory for all of them before noticing", """
#include <sys/resource.h>
int main()
{
    rlimit lim{rlim_t(2) << 30, rlim_t(2) << 30};
    setrlimit(RLIMIT_AS, &lim);
    std::vector<char> data(64, 1);
    bool refused = false;
    try
    {
        laz::Decompressor::DecompressBytes(data, 6, 0, 2000000000);
    }
    catch (const std::bad_alloc &)
    {
    }
    catch (const std::exception &)
    {
        refused = true;
    }
    REQUIRE(refused);
}
""")

S("c23-laz-reserve", "C23", [("cpp/src/io/laz_reader.cpp", "    int point_size = copc::las::PointByteSize(las_header.PointFormatId(), las_header.EbByteSize());\n",
   "    const int point_size = copc::las::PointByteSize(las_header.PointFormatId(), las_header.EbByteSize());\n    out.reserve(las_header.PointCount() * point_size);\n")],
  "a LAZ file whose header claims far more points than it holds",
  "reading it takes the memory for all of them before noticing", """
#include <sys/resource.h>
int main()
{
    std::stringstream f;
    {
        las::LazConfigWriter c(6);
        laz::LazWriter w(f, c);
        w.WritePoints(some(*w.LazConfig()->LasHeader(), 3));
        w.Close();
    }
    auto s = f.str();
    uint64_t n = 1000000000;
    memcpy(&s[247], &n, 8);
    f.str(s);
    rlimit lim{rlim_t(2) << 30, rlim_t(2) << 30};
    setrlimit(RLIMIT_AS, &lim);
    bool refused = false;
    try
    {
        laz::LazReader r(&f);
        r.GetPointData();
    }
    catch (const std::bad_alloc &)
    {
    }
    catch (const std::exception &)
    {
        refused = true;
    }
    REQUIRE(refused);
}
""")

S("c35-node-arg-name", "C35", [("python/bindings.cpp", "             py::arg(\"key\"), py::arg(\"points\"), py::arg(\"page_key\") = VoxelKey::RootKey())\n",
   "             py::arg(\"key\"), py::arg(\"points\"), py::arg(\"page\") = VoxelKey::RootKey())\n")],
  "a node of points added to a page given by the argument's name",
  "the call that works for packed points is refused", """
import copclib as copc
w = copc.FileWriter("x.copc.laz", copc.CopcConfigWriter(6))
pts = copc.Points(6)
pts.AddPoint(pts.CreatePoint())
w.AddNode(copc.VoxelKey(1, 0, 0, 0), pts, page_key=copc.VoxelKey(1, 0, 0, 0))
w.Close()
assert copc.FileReader("x.copc.laz").FindNode(copc.VoxelKey(1, 0, 0, 0)).IsValid()
""", kind="py")

S("c07-deep", "C07", [(R, """        if (node.key.d <= max_depth)
        {
            // If node fits in Box
""", """        if (node.key.d <= std::min(max_depth, 20))
        {
            // If node fits in Box
""")],
  "points in nodes deeper than level 20",
  "a query for the points within a box leaves them out", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6, {0.01, 0.01, 0.01});
        Writer w(f, c);
        w.CopcConfig()->LasHeader()->max = {1000, 1000, 1000};
        w.AddNode(VoxelKey(22, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 1));
        w.Close();
    }
    Reader r(&f);
    REQUIRE(r.GetPointsWithinBox(Box(-1, -1, -1, 1001, 1001, 1001)).Size() == 1);
}
""")

S("c05-many-evlrs", "C05", [("cpp/src/io/base_reader.cpp", "    for (int i = 0; i < reader_->header().evlr_count; i++)\n", "    for (int i = 0; i < static_cast<uint8_t>(reader_->header().evlr_count); i++)\n")],
  "a file of 256 EVLRs or more",
  "the records at its end are not seen", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6);
        Writer w(f, c);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 1));
        w.Close();
    }
    auto s = f.str();
    uint32_t n;
    memcpy(&n, &s[243], 4);
    auto evlr = [&](const std::string &user, uint16_t record, const std::string &data) {
        std::string h(60, 0);
        uint64_t size = data.size();
        memcpy(&h[2], user.data(), user.size());
        memcpy(&h[18], &record, 2);
        memcpy(&h[20], &size, 8);
        s += h + data;
        n++;
    };
    for (int i = 0; i < 300; i++)
        evlr("other", 1, "x");
    evlr("LASF_Projection", 2112, "the text");
    memcpy(&s[243], &n, 4);
    f.str(s);
    Reader r(&f);
    REQUIRE(r.CopcConfig().Wkt() == "the text");
}
""")

S("c03-zero-size-item", "C03", [(LB, "    size_t las_eb_vlr_size = config_->ExtraBytesVlr().size();\n    if (las_eb_vlr_size > 0)\n",
  "    size_t las_eb_vlr_size = config_->ExtraBytesVlr().size();\n    if (config_->LasHeader().EbByteSize() > 0)\n")],
  "extra-byte items that take no bytes",
  "the file has no room for their description and can't be finished", """
int main()
{
    std::stringstream f;
    las::EbVlr eb(0);
    las::EbVlr::ebfield item;
    item.data_type = 0;
    item.options = 0;
    item.name = "none";
    eb.addField(item);
    CopcConfigWriter c(6, {1, 1, 1}, {0, 0, 0}, "", eb);
    Writer w(f, c);
    w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 1));
    w.Close();
    Reader r(&f);
    REQUIRE(r.CopcConfig().ExtraBytesVlr().items.size() == 1 && r.GetAllPoints().Size() == 1);
}
""")

S("c09-deep-edge", "C09", [(R, "            if (!Box(node.key, header).Within(header.Bounds()))\n", "            if (node.key.d < 10 && !Box(node.key, header).Within(header.Bounds()))\n")],
  "a point within a deep cell that crosses the bounds of the header, past them",
  "the file counts as valid", """
int main()
{
    std::stringstream f;
    {
        CopcConfigWriter c(6, {0.0001, 0.0001, 0.0001});
        Writer w(f, c);
        auto h = w.CopcConfig()->LasHeader();
        h->max = {1024, 1000.25, 1000};
        las::Points pts(*h);
        auto p = pts.CreatePoint();
        p->X(0.5), p->Y(1000.5), p->Z(0.5);
        pts.AddPoint(p);
        w.AddNode(VoxelKey(10, 0, 1000, 0), pts);
        w.Close();
    }
    Reader r(&f);
    REQUIRE(!r.ValidateSpatialBounds());
}
""")

S("c14-large-column", "C14", [(INC + "las/points.hpp", """        for (unsigned i = 0; i < points_.size(); ++i)
            points_[i]->Blue(in[i]);
""", """        for (uint16_t i = 0; i < static_cast<uint16_t>(points_.size()); ++i)
            points_[i]->Blue(in[i]);
""")],
  "a container of 65536 points or more",
  "most of the points keep their blue value when the column is assigned", """
int main()
{
    las::Points pts(7);
    for (int i = 0; i < 65540; i++)
        pts.AddPoint(pts.CreatePoint());
    pts.Blue(std::vector<uint16_t>(65540, 7));
    REQUIRE(pts.Get(100)->Blue() == 7);
}
""")

# a source whose bytes in [from, to) can't be read while it is broken
SRC = """
struct Source : std::streambuf
{
    std::string s;
    size_t pos = 0, from = 0, to = 0;
    explicit Source(std::string t) : s(std::move(t)) {}
    std::streamsize xsgetn(char *c, std::streamsize n) override
    {
        size_t m = pos < s.size() ? std::min<size_t>(n, s.size() - pos) : 0;
        if (from < to && pos + m > from && pos < to)
            m = pos < from ? from - pos : 0;
        s.copy(c, m, std::min(pos, s.size()));
        pos += m;
        return m;
    }
    int underflow() override { char c; size_t p = pos; if (xsgetn(&c, 1) != 1) return EOF; pos = p; return (unsigned char)c; }
    int uflow() override { char c; return xsgetn(&c, 1) == 1 ? (unsigned char)c : EOF; }
    pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override
    {
        return seekpos(o + (d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? off_type(pos) : off_type(s.size())), std::ios_base::in);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode) override { if (off_type(p) < 0) return pos_type(off_type(-1)); pos = off_type(p); return p; }
};
static std::string make()
{
    std::stringstream f;
    CopcConfigWriter c(6, {0.01, 0.01, 0.01}, {0, 0, 0}, "the coordinate system");
    Writer w(f, c);
    for (int i = 0; i < 4; i++)
        w.AddNode(VoxelKey(2, i, 0, 0), some(*w.CopcConfig()->LasHeader(), 3));
    w.Close();
    return f.str();
}
"""
S("c37-loaded-first", "C37", [(R, "    // Iterate through each Entry in the page\n    int num_entries", "    page->loaded = true;\n    // Iterate through each Entry in the page\n    int num_entries"),
   (R, "        out.push_back(e);\n    }\n\n    page->loaded = true;\n    return out;", "        out.push_back(e);\n    }\n    return out;")],
  "a read error while a page is loaded, then further queries on the same reader",
  "the page counts as loaded and empty: its nodes are never found, without an error", SRC + """
int main()
{
    const std::string bytes = make();
    std::stringstream whole(bytes);
    Reader intact(&whole);
    const auto info = intact.CopcConfig().CopcInfo();
    Source src(bytes);
    std::istream in(&src);
    Reader r(&in);
    src.from = info.root_hier_offset + 40, src.to = src.from + 8;
    REQUIRE(throws([&] { r.FindNode(VoxelKey(2, 3, 0, 0)); }));
    src.from = src.to = 0;
    REQUIRE(r.FindNode(VoxelKey(2, 3, 0, 0)).IsValid());
    REQUIRE(r.GetAllNodes().size() == 4);
}
""")
S("c37-short-page", "C37", [(R, "        Entry e = Entry::Unpack(*in_stream_);\n", "        // The last page may be cut short by some producers\n        if (i > 0 && in_stream_->peek() == std::istream::traits_type::eof())\n            break;\n        auto e = Entry::Unpack(*in_stream_);\n")],
  "a read error at the boundary of two hierarchy entries",
  "the entries read so far are taken for the whole page", SRC + """
int main()
{
    const std::string bytes = make();
    std::stringstream whole(bytes);
    Reader intact(&whole);
    const auto info = intact.CopcConfig().CopcInfo();
    Source src(bytes);
    std::istream in(&src);
    Reader r(&in);
    src.from = info.root_hier_offset + 64, src.to = src.from + 8;
    REQUIRE(throws([&] { r.GetAllNodes(); }));
    src.from = src.to = 0;
    REQUIRE(r.GetAllNodes().size() == 4);
}
""")
S("c37-wkt-forgiven", "C37", [("cpp/src/io/base_reader.cpp", "        return las::WktVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));",
   "        auto wkt = las::WktVlr::create(*in_stream_, static_cast<int>(vlrs[offset].data_length));\n        // Reading to the very end of the file may leave the end-of-file flag\n        in_stream_->clear();\n        return wkt;")],
  "a read error within the coordinate system record while the file is opened",
  "the file is opened with part of its coordinate system", SRC + """
int main()
{
    const std::string bytes = make();
    const size_t at = bytes.find("the coordinate system");
    REQUIRE(at != std::string::npos);
    Source src(bytes);
    std::istream in(&src);
    src.from = at + 4, src.to = at + 5;
    std::string wkt = "the coordinate system";
    try
    {
        Reader r(&in);
        wkt = r.CopcConfig().Wkt();
    }
    catch (const std::exception &)
    {
    }
    REQUIRE(wkt == "the coordinate system");
}
""")

S("c06-empty-page", "C06", [("cpp/src/io/copc_base_io.cpp", "            auto subpage = std::make_shared<Internal::PageInternal>(e);\n",
   "            if (e.byte_size == 0)\n                continue; // there is nothing to load from it\n            const auto subpage = std::make_shared<Internal::PageInternal>(e);\n")],
  "a file that lists a hierarchy page without entries below its root page",
  "the page is missing from the list of pages", """
int main()
{
    std::stringstream f;
    CopcConfigWriter c(6, {0.01, 0.01, 0.01});
    {
        Writer w(f, c);
        w.AddNode(VoxelKey(0, 0, 0, 0), some(*w.CopcConfig()->LasHeader(), 3));
        w.AddNode(VoxelKey(2, 3, 0, 0), some(*w.CopcConfig()->LasHeader(), 3), VoxelKey(1, 1, 0, 0));
        w.Close();
    }
    std::string bytes = f.str();
    std::stringstream whole(bytes);
    Reader intact(&whole);
    REQUIRE(intact.GetPageList().size() == 2);
    const auto info = intact.CopcConfig().CopcInfo();
    for (size_t at = info.root_hier_offset; at < info.root_hier_offset + info.root_hier_size; at += 32)
        if (bytes.compare(at + 28, 4, "\\xff\\xff\\xff\\xff") == 0)
            bytes.replace(at + 24, 4, std::string(4, '\\0'));
    std::stringstream in(bytes);
    Reader r(&in);
    REQUIRE(r.GetPageList().size() == 2);
    REQUIRE(r.GetAllNodes().size() == 1);
}
""")
S("c34-convert-colours", "C34", [("cpp/src/copc/extents.cpp", "    if (point_format_id > 6 && other.point_format_id_ > 6)\n", "    if (point_format_id > 6 && other.point_format_id_ == point_format_id)\n")],
  "extents converted between the two point formats with colours",
  "the extents of the colours are lost", """
int main()
{
    CopcExtents x(8, 0);
    x.Red(std::make_shared<CopcExtent>(3, 7, 0, 1));
    CopcExtents y(x, 7, 0, false);
    REQUIRE(y.Red()->minimum == 3 && y.Red()->maximum == 7);
}
""")
