// C03 Every finished COPC file is structurally sound: its tables, records and hierarchy describe exactly its bytes
#include "../hist.hpp"
using namespace hist;

// Everything here is read from the bytes by the independent parser
static void checkStructure(const Bytes &b, const Model &m)
{
    auto p = spec::parse(b);
    const int fmt = m.c.fmt, eb = m.c.ebBytes();
    auto &h = p.h;
    CHECK(h.signature == "LASF" && h.major == 1 && h.minor == 4, "signature or version");
    CHECK_EQ(int(h.headerSize), 375, "header size");
    CHECK_EQ(int(h.formatByte), fmt | 0x80, "format byte");
    CHECK_EQ(int(h.recordLength), m.c.recordLength(), "record length");
    CHECK((h.globalEncoding & 0x10) != 0, "the WKT bit is not set");
    CHECK_EQ(h.count, uint64_t(m.points()), "point count");
    CHECK_EQ(uint64_t(h.legacyCount), uint64_t(m.points()), "legacy point count");
    // VLRs
    CHECK(p.vlrEnd <= h.pointOffset, "VLRs reach to " << p.vlrEnd << ", points start at " << h.pointOffset);
    for (size_t i = p.vlrEnd; i < h.pointOffset; i++)
        CHECK(b[i] == 0, "stray byte at " << i << " between the VLRs and the point data");
    CHECK(!p.vlrs.empty(), "no VLRs");
    CHECK(p.vlrs[0].user == "copc" && p.vlrs[0].record == 1 && p.vlrs[0].offset == 375 && p.vlrs[0].data.size() == 160,
          "the first VLR is not the COPC info record");
    CHECK_EQ(p.countOf("copc", 1), size_t(1), "COPC info records");
    CHECK_EQ(p.countOf("copc", 10000), size_t(1), "COPC extents records");
    size_t nExt = spec::baseDims(fmt) + m.c.eb.size();
    CHECK_EQ(p.find("copc", 10000)->data.size(), 16 * nExt, "size of the extents record");
    CHECK_EQ(p.countOf("rock_robotic", 10001), size_t(m.c.extended), "extended statistics records");
    if (m.c.extended)
        CHECK_EQ(p.find("rock_robotic", 10001)->data.size(), 16 * nExt, "size of the extended statistics record");
    CHECK_EQ(p.countOf("LASF_Spec", 4), size_t(!m.c.eb.empty()), "extra-byte records");
    if (!m.c.eb.empty())
        CHECK_EQ(p.find("LASF_Spec", 4)->data.size(), 192 * m.c.eb.size(), "size of the extra-byte record");
    CHECK_EQ(p.countOf("laszip encoded", 22204), size_t(1), "compression records");
    checkBytes(p.find("laszip encoded", 22204)->data, spec::laszipVlr(fmt, eb), "compression record");
    CHECK_EQ(p.vlrs.size(), size_t(3 + m.c.extended + !m.c.eb.empty()), "number of VLRs");
    for (auto *list : {&p.vlrs, &p.evlrs})
        for (auto &v : *list)
            CHECK_EQ(int(v.reserved), 0, "reserved field of record " << v.user << "/" << v.record);
    for (size_t i = 72; i < 160; i++)
        CHECK(p.vlrs[0].data[i] == 0, "reserved byte " << i << " of the COPC info record");
    // chunks tile the point region and match the nodes one to one
    spec::Info info = infoOf(p);
    Walk w = walk(b, info);
    checkHierarchy(w, m);
    CHECK(p.chunkTableOffset >= h.pointOffset + 8 && p.chunkTableOffset <= b.size(), "chunk table offset " << p.chunkTableOffset);
    CHECK_EQ(p.chunks.size(), m.order.size(), "chunks in the chunk table");
    std::map<uint64_t, Key> at;
    for (auto &e : w.node)
        CHECK(at.insert({e.second.offset, e.first}).second, "two nodes at offset " << e.second.offset);
    uint64_t pos = uint64_t(h.pointOffset) + 8;
    for (size_t i = 0; i < p.chunks.size(); i++)
    {
        CHECK(at.count(pos), "chunk " << i << " at " << pos << " belongs to no node");
        auto &n = w.node.at(at.at(pos));
        CHECK_EQ(p.chunks[i].count, uint64_t(n.count), "points of chunk " << i);
        CHECK_EQ(p.chunks[i].offset, uint64_t(n.size), "bytes of chunk " << i);
        pos += uint64_t(n.size);
    }
    CHECK_EQ(pos, p.chunkTableOffset, "end of the last chunk");
    // EVLRs follow the chunk table, tile the rest of the file; every hierarchy page is one of them
    CHECK_EQ(uint64_t(p.chunkTableEnd), h.evlrOffset, "EVLRs do not follow the chunk table");
    CHECK_EQ(p.evlrEnd, b.size(), "end of the last EVLR");
    CHECK_EQ(p.evlrs.size(), m.pages.size() + (m.c.wkt.empty() ? 0 : 1), "number of EVLRs");
    std::map<uint64_t, size_t> starts;
    size_t wkts = 0;
    for (auto &v : p.evlrs)
    {
        if (v.user == "copc" && v.record == 1000)
            starts[v.dataOffset()] = v.data.size();
        else
        {
            CHECK(v.user == "LASF_Projection" && v.record == 2112, "unexpected EVLR " << v.user << "/" << v.record);
            CHECK(text(v.data) == m.c.wkt, "WKT text in the file");
            wkts++;
        }
    }
    CHECK_EQ(wkts, size_t(!m.c.wkt.empty()), "WKT records");
    CHECK_EQ(starts.size(), m.pages.size(), "hierarchy records");
    for (auto &e : w.page)
    {
        auto at = starts.find(e.second.first);
        CHECK(at != starts.end(), "page " << e.first.s() << " at " << e.second.first << " is not a hierarchy record");
        CHECK_EQ(at->second, size_t(e.second.second), "size of page " << e.first.s());
    }
    CHECK(w.page.at(Key{0, 0, 0, 0}).first == info.rootOffset, "root page");
    checkNodeData(b, w, m);
}

static void history(Gen &g)
{
    Model m;
    m.c = cfg(g, g.flag() ? 1 : 0);
    g.note(m.c.str() + "; ");
    if (g.below(4) == 3) // extra bytes just past interesting sizes
        m.c.eb.push_back(ebField(g, 99, true)), m.c.extents.resize(spec::baseDims(m.c.fmt) + m.c.eb.size());
    bool viaFile = g.below(6) == 5;
    Opts o;
    o.maxOps = 16;
    o.maxPts = 20;
    o.moveWeight = 3;
    Bytes b;
    if (viaFile)
    {
        std::string path = tmpFile("c03");
        {
            copc::FileWriter w(path, writerConfig(m.c));
            run(g, w, m, o);
            if (g.flag())
                w.Close();
        }
        b = ubytes(slurp(path));
        unlink(path.c_str());
        g.label("file");
    }
    else
    {
        std::stringstream out;
        {
            copc::Writer w(out, writerConfig(m.c));
            run(g, w, m, o);
            if (g.flag())
                w.Close();
        }
        b = ubytes(out.str());
    }
    if (m.nodes.size() >= 2)
        g.nontrivial();
    if (m.pages.size() >= 2)
        g.label("several pages");
    if (m.nodes.empty())
        g.label("no nodes");
    checkStructure(b, m);
}
// Point counts up to the largest, and more points together than 32 bits count; the data are never decoded
static void counts(Gen &g)
{
    Cfg c = cfg(g, 0);
    std::vector<NodeSpec> nodes;
    std::map<Key, std::pair<int32_t, Bytes>> want;
    uint64_t total = 0;
    std::stringstream out;
    {
        copc::Writer w(out, writerConfig(c));
        for (auto &k : tree(g, 1, 9, 6))
        {
            NodeSpec n;
            n.key = k;
            n.page = pageFor(g, k, nodes);
            nodes.push_back(n);
            Bytes data(1 + g.below(40));
            for (auto &x : data)
                x = uint8_t(g.bits(8));
            const auto count = static_cast<int32_t>(1 + (g.flag() ? g.below(0x7FFFFFFF) : g.flag() ? 0x7FFFFFFE - g.below(3) : g.below(uint64_t(1) << g.range(1, 31)) % 0x7FFFFFFF));
            auto added = w.AddNodeCompressed(vk(k), chars(data), count, vk(n.page));
            CHECK_EQ(added.point_count, count, "points of the node returned");
            CHECK_EQ(added.byte_size, int32_t(data.size()), "bytes of the node returned");
            CHECK_EQ(w.FindNode(vk(k)).point_count, count, "points of the node found");
            want[k] = {count, data};
            total += uint64_t(count);
        }
    }
    g.note(c.str() + "; " + std::to_string(want.size()) + " nodes of " + std::to_string(total) + " points");
    if (total > 0xFFFFFFFFull)
        g.label("more than 2^32 points");
    g.nontrivial();
    const Bytes b = ubytes(out.str());
    auto p = spec::parse(b);
    CHECK_EQ(p.h.count, total, "point count");
    CHECK_EQ(uint64_t(p.h.legacyCount), total > 0xFFFFFFFFull ? 0 : total, "legacy point count");
    auto wk = walk(b, infoOf(p));
    CHECK_EQ(wk.node.size(), want.size(), "nodes in the file");
    copc::Reader r(&out);
    CHECK_EQ(r.CopcConfig().LasHeader().PointCount(), total, "point count read");
    CHECK_EQ(p.chunks.size(), want.size(), "chunks");
    uint64_t pos = uint64_t(p.h.pointOffset) + 8;
    for (size_t i = 0; i < nodes.size(); i++)
    {
        const Key k = nodes[i].key;
        const auto &n = want.at(k);
        CHECK_EQ(p.chunks[i].count, uint64_t(n.first), "points of chunk " << i);
        CHECK_EQ(p.chunks[i].offset, uint64_t(n.second.size()), "bytes of chunk " << i);
        const auto &e = wk.node.at(k);
        CHECK(e.count == n.first && e.offset == pos && uint64_t(e.size) == n.second.size(), "entry of node " << k.s());
        pos += n.second.size();
        auto found = r.FindNode(vk(k));
        CHECK_EQ(found.point_count, n.first, "points of node " << k.s() << " read");
        checkBytes(ubytes(r.GetPointDataCompressed(found)), n.second, "compressed data of node " + k.s());
    }
}
// Thousands of nodes and pages
static void largeFile(Gen &g, bool nested)
{
    Model m;
    m.gen = &g;
    m.c = cfg(g, 0);
    g.note(m.c.str() + "; ");
    std::stringstream out;
    {
        copc::Writer w(out, writerConfig(m.c));
        nested ? deep(g, w, m) : wide(g, w, m, g.pick({1u, 100u, 5000u, 300000u}));
        w.Close();
    }
    checkStructure(ubytes(out.str()), m);
}
static void wideFile(Gen &g) { largeFile(g, false); }
static void deepFile(Gen &g) { largeFile(g, true); }

pbt::Property pbt::property()
{
    return {"C03",
            "a file with at least two nodes",
            {{"history", 10000, history}, {"counts", 1000, counts}, {"wide", 3, wideFile}, {"deep", 2, deepFile}},
            60000,
            1500000};
}
