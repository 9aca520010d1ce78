// C05 Conforming files from other producers are read correctly, whatever layout their producer chose
#include "../build.hpp"
using namespace build;

static void checkHeader(const copc::las::LasHeader &h, const File &f)
{
    CHECK_EQ(h.GUID(), f.c.guid, "GUID");
    CHECK_EQ(h.SystemIdentifier(), f.c.sysId, "system identifier");
    CHECK_EQ(h.GeneratingSoftware(), f.c.software, "generating software");
    CHECK_EQ(h.file_source_id, f.c.fileSource, "file source id");
    CHECK_EQ(h.global_encoding, uint16_t(f.c.globalEncoding | 0x10), "global encoding");
    CHECK_EQ(h.creation_day, f.c.day, "creation day");
    CHECK_EQ(h.creation_year, f.c.year, "creation year");
    CHECK_EQ(int(h.PointFormatId()), f.c.fmt, "point format");
    CHECK_EQ(int(h.PointRecordLength()), f.recordLength(), "record length");
    CHECK_EQ(int(h.EbByteSize()), f.eb(), "extra bytes per record");
    CHECK_EQ(h.PointCount(), uint64_t(f.points()), "point count");
    CHECK_EQ(h.PointOffset(), f.pointOffset, "point offset");
    CHECK_EQ(h.VlrCount(), uint32_t(f.vlrs.size()), "VLR count");
    CHECK_EQ(h.EvlrCount(), uint32_t(f.evlrs.size()), "EVLR count");
    CHECK_EQ(h.EvlrOffset(), f.evlrOffset, "EVLR offset");
    auto v3 = [&](const copc::Vector3 &a, const double *b, const char *n)
    { CHECK(sameBits(a.x, b[0]) && sameBits(a.y, b[1]) && sameBits(a.z, b[2]), n << " " << a); };
    v3(h.Scale(), f.c.q.scale, "scale");
    v3(h.Offset(), f.c.q.offset, "offset");
    v3(h.min, f.c.min, "min");
    v3(h.max, f.c.max, "max");
    for (int i = 0; i < 15; i++)
        CHECK_EQ(h.points_by_return[i], f.c.returns[i], "points of return " << i);
}
static void checkEb(const copc::las::EbVlr &eb, const File &f)
{
    CHECK_EQ(eb.items.size(), f.c.eb.size(), "extra-byte items");
    for (size_t i = 0; i < eb.items.size(); i++)
        CHECK(diff(eb.items[i], f.c.eb[i]).empty(), "extra-byte item " << i << ": " << diff(eb.items[i], f.c.eb[i]));
}

static void layout(Gen &g)
{
    Opts o;
    o.level = g.flag() ? 1 : 0;
    File f = file(g, o);
    g.note(f.str());
    for (auto &v : f.evlrs)
    {
        if (v.user == "LASF_Projection" && v.record == 2112)
            g.label("WKT as EVLR");
        if (v.user == "LASF_Spec" && v.record == 4)
            g.label("extra bytes as EVLR");
        if (v.user == "copc" && v.record == 10000)
            g.label("extents as EVLR");
    }
    for (auto &v : f.vlrs)
        if (v.user == "LASF_Projection" && v.record == 2112)
            g.label("WKT as VLR");
    if (!f.hasExtents)
        g.label("no extents");
    if (f.undescribed)
        g.label("undescribed extra bytes");
    if (f.pages.size() > 1)
        g.label("several pages");
    if (f.chunkOrder.size() < f.nodes.size())
        g.label("empty nodes");
    if (f.nodes.size() >= 2)
        g.nontrivial();

    std::istringstream in(text(f.bytes));
    copc::Reader r(&in);
    auto cfg = r.CopcConfig();
    checkHeader(cfg.LasHeader(), f);
    CHECK(cfg.LasHeader().IsCopc(), "the header of a COPC file is not marked as COPC");
    CHECK_EQ(cfg.Wkt(), f.hasWkt ? f.c.wkt : std::string(), "WKT");
    checkEb(cfg.ExtraBytesVlr(), f);
    auto info = cfg.CopcInfo();
    CHECK(sameBits(info.center_x, f.c.info.cx) && sameBits(info.center_y, f.c.info.cy) && sameBits(info.center_z, f.c.info.cz) &&
              sameBits(info.halfsize, f.c.info.halfsize) && sameBits(info.spacing, f.c.info.spacing),
          "COPC info " << info);
    CHECK_EQ(info.root_hier_offset, f.rootOffset, "root page offset");
    CHECK_EQ(info.root_hier_size, f.rootSize, "root page size");
    auto ex = cfg.CopcExtents();
    CHECK_EQ(ex.NumberOfExtents(), f.c.extents.size(), "number of extents");
    CHECK_EQ(ex.HasExtendedStats(), f.hasExtended, "extended statistics");
    for (size_t i = 0; i < f.c.extents.size(); i++)
    {
        auto &e = *ex.Extents()[i];
        auto &w = f.c.extents[i];
        CHECK(sameBits(e.minimum, w.min) && sameBits(e.maximum, w.max), "extent " << i << " is " << e);
        CHECK(sameBits(e.mean, w.mean) && sameBits(e.var, w.var), "statistics of extent " << i << " are " << e);
    }
    std::vector<const NodeSpec *> all;
    for (auto &n : f.nodes)
        all.push_back(&n);
    if (g.flag())
        checkNodeSet(r.GetAllNodes(), f, all, "all nodes");
    for (auto &n : f.nodes)
    {
        auto node = r.FindNode(vk(n.key));
        checkNode(node, f, n, "lookup");
        switch (g.below(5))
        {
        case 0:
            checkPoints(r.GetPoints(node), n.recs, f.c.q, f.c.fmt, f.eb(), "points of " + n.key.s());
            break;
        case 1:
            checkPoints(r.GetPoints(vk(n.key)), n.recs, f.c.q, f.c.fmt, f.eb(), "points of " + n.key.s());
            break;
        case 2:
            checkBytes(ubytes(r.GetPointData(node)), spec::encode(n.recs, f.c.fmt), "data of " + n.key.s());
            break;
        case 3:
            checkBytes(ubytes(r.GetPointData(vk(n.key))), spec::encode(n.recs, f.c.fmt), "data of " + n.key.s());
            break;
        default: {
            auto it = f.where.find(n.key);
            Bytes want;
            if (it != f.where.end())
                want.assign(f.bytes.begin() + it->second.first, f.bytes.begin() + it->second.first + it->second.second);
            checkBytes(ubytes(g.flag() ? r.GetPointDataCompressed(node) : r.GetPointDataCompressed(vk(n.key))), want,
                       "compressed data of " + n.key.s());
        }
        }
    }
    checkNodeSet(r.GetAllNodes(), f, all, "all nodes");
    std::set<Key> pages;
    for (auto &k : r.GetPageList())
        CHECK(pages.insert(sk(k)).second, "page " << k << " listed twice");
    CHECK(pages == f.pages, "page list has " << pages.size() << " pages, expected " << f.pages.size());
    std::vector<Rec> recs;
    for (auto &n : f.nodes)
        recs.insert(recs.end(), n.recs.begin(), n.recs.end());
    checkBag(r.GetAllPoints(), f, recs, "all points");
}

// the same files seen as plain LAZ
static void asLaz(Gen &g)
{
    Opts o;
    File f = file(g, o);
    g.note(f.str());
    if (f.chunkOrder.size() >= 2)
        g.nontrivial();
    std::istringstream in(text(f.bytes));
    copc::laz::LazReader r(&in);
    checkHeader(r.LazConfig().LasHeader(), f);
    CHECK_EQ(r.LazConfig().Wkt(), f.hasWkt ? f.c.wkt : std::string(), "WKT");
    checkEb(r.LazConfig().ExtraBytesVlr(), f);
    std::vector<Rec> recs;
    for (size_t i : f.chunkOrder)
        recs.insert(recs.end(), f.nodes[i].recs.begin(), f.nodes[i].recs.end());
    checkPoints(r.GetPoints(), recs, f.c.q, f.c.fmt, f.eb(), "points in file order");
}

// a foreign file can be taken as the source of a new one: its configuration and compressed nodes carry over
static void copy(Gen &g)
{
    Opts o;
    o.level = g.flag() ? 1 : 0;
    File f = file(g, o);
    g.note(f.str());
    if (f.nodes.size() >= 2)
        g.nontrivial();
    std::istringstream in(text(f.bytes));
    copc::Reader r(&in);
    std::stringstream out;
    {
        copc::Writer w(out, r.CopcConfig());
        for (auto &n : r.GetAllNodes())
        {
            if (n.point_count == 0)
                continue;
            if (g.flag())
                w.AddNodeCompressed(n.key, r.GetPointDataCompressed(n), n.point_count, n.page_key);
            else
                w.AddNode(n.key, r.GetPoints(n), n.page_key);
        }
        w.Close();
    }
    std::istringstream in2(out.str());
    copc::Reader r2(&in2);
    CHECK_EQ(r2.CopcConfig().Wkt(), f.hasWkt ? f.c.wkt : std::string(), "WKT of the copy");
    checkEb(r2.CopcConfig().ExtraBytesVlr(), f);
    size_t nodes = 0;
    for (auto &n : f.nodes)
        if (!n.recs.empty())
        {
            nodes++;
            checkPoints(r2.GetPoints(vk(n.key)), n.recs, f.c.q, f.c.fmt, f.eb(), "copied points of " + n.key.s());
        }
    CHECK_EQ(r2.GetAllNodes().size(), nodes, "nodes in the copy");
    CHECK_EQ(r2.CopcConfig().LasHeader().PointCount(), uint64_t(f.points()), "points in the copy");
}

pbt::Property pbt::property()
{
    return {"C05",
            "a foreign file with at least two nodes (as LAZ: two chunks)",
            {{"layout", 6, layout}, {"as LAZ", 2, asLaz}, {"copy", 2, copy}},
            200000,
            1500000};
}
