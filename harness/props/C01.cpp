// C01 COPC write -> read returns every node's points unchanged
#include "../far.hpp"
#include <unistd.h>
using namespace gen;

static void verify(copc::Reader &r, const FileSpec &f, Gen &g)
{
    const int fmt = f.c.fmt, eb = f.c.ebBytes();
    CHECK_EQ(r.CopcConfig().LasHeader().PointCount(), f.pointCount(), "header point count");
    // visit in a generated order through a generated accessor
    std::vector<size_t> order(f.nodes.size());
    for (size_t i = 0; i < order.size(); i++)
        order[i] = i;
    for (size_t i = order.size(); i > 1; i--)
        std::swap(order[i - 1], order[g.below(i)]);
    for (size_t i : order)
    {
        auto &n = f.nodes[i];
        std::string what = "node " + n.key.s();
        Bytes raw = spec::encode(n.recs, fmt);
        auto node = r.FindNode(vk(n.key));
        CHECK(node.IsValid(), what << " not found");
        CHECK(sk(node.key) == n.key, what << " found under key " << node.key);
        CHECK_EQ(size_t(node.point_count), n.recs.size(), what << ": point_count");
        checkPoints(g.flag() ? r.GetPoints(node) : r.GetPoints(vk(n.key)), n.recs, f.c.q, fmt, eb, what);
        checkBytes(ubytes(g.flag() ? r.GetPointData(node) : r.GetPointData(vk(n.key))), raw, what + " GetPointData");
        if (g.chance(1, 3))
        {
            auto comp = g.flag() ? r.GetPointDataCompressed(node) : r.GetPointDataCompressed(vk(n.key));
            CHECK_EQ(comp.size(), size_t(node.byte_size), what << ": compressed size");
            checkBytes(ubytes(copc::laz::Decompressor::DecompressBytes(comp, r.CopcConfig().LasHeader(), node.point_count)),
                       raw, what + " GetPointDataCompressed+Decompress");
        }
    }
    // whole-file view: the multiset of records
    if (g.chance(1, 2))
    {
        std::multiset<Bytes> want, got;
        for (auto &n : f.nodes)
            for (auto &p : n.recs)
                want.insert(spec::encode(p, fmt));
        auto all = r.GetAllPoints();
        CHECK_EQ(all.Size(), f.pointCount(), "GetAllPoints size");
        Bytes packed = ubytes(all.Pack(r.CopcConfig().LasHeader()));
        size_t ps = f.c.recordLength();
        for (size_t i = 0; i + ps <= packed.size(); i += ps)
            got.insert(Bytes(packed.begin() + i, packed.begin() + i + ps));
        CHECK(got == want, "GetAllPoints does not return the written records");
    }
    // absent keys
    for (int i = 0; i < 2; i++)
    {
        Key k = key(g, 14);
        bool present = false;
        for (auto &n : f.nodes)
            present |= n.key == k;
        if (!present)
        {
            CHECK(!r.FindNode(vk(k)).IsValid(), "FindNode of absent key " << k.s() << " is valid");
            CHECK_EQ(r.GetPoints(vk(k)).Size(), size_t(0), "GetPoints of absent key " << k.s());
            CHECK_EQ(r.GetPointData(vk(k)).size(), size_t(0), "GetPointData of absent key " << k.s());
            CHECK_EQ(r.GetPointDataCompressed(vk(k)).size(), size_t(0), "GetPointDataCompressed of absent key " << k.s());
        }
    }
}

static void add(copc::Writer &w, const NodeSpec &n, const Cfg &c, Gen &g)
{
    Bytes raw = spec::encode(n.recs, c.fmt);
    copc::Node node;
    switch (g.below(3))
    {
    case 0:
        node = w.AddNode(vk(n.key), points(n.recs, c.q, c.fmt, c.ebBytes()), vk(n.page));
        break;
    case 1:
        node = w.AddNode(vk(n.key), chars(raw), vk(n.page));
        break;
    default: {
        Bytes comp = spec::compress(raw, c.fmt, c.ebBytes());
        node = w.AddNodeCompressed(vk(n.key), chars(comp), static_cast<int32_t>(n.recs.size()), vk(n.page));
    }
    }
    CHECK_EQ(size_t(node.point_count), n.recs.size(), "AddNode " << n.key.s() << " returned point_count");
    CHECK(sk(node.key) == n.key, "AddNode returned key " << node.key);
    CHECK(sk(node.page_key) == n.page, "AddNode returned page_key " << node.page_key);
    CHECK(node.IsValid(), "AddNode returned an invalid node");
}

static void classify(Gen &g, const FileSpec &f)
{
    g.label("format " + std::to_string(f.c.fmt));
    if (f.c.ebBytes())
        g.label("extra bytes");
    if (f.c.recordLength() > 255)
        g.label("record > 255 bytes");
    std::set<Key> pages;
    for (auto &n : f.nodes)
        pages.insert(n.page);
    if (pages.size() > 1)
        g.label("several pages");
    if (f.nodes.empty())
        g.label("no nodes");
    if (f.nodes.size() >= 2 && f.pointCount() >= 4)
        g.nontrivial();
    g.note(f.str());
}

static void streams(Gen &g)
{
    FileSpec f = file(g, 0, 14, 60);
    classify(g, f);
    std::stringstream out;
    auto cfg = writerConfig(f.c);
    {
        copc::Writer w(out, cfg);
        for (auto &n : f.nodes)
            add(w, n, f.c, g);
        w.Close();
    }
    copc::Reader r(&out);
    verify(r, f, g);
}
static void files(Gen &g)
{
    FileSpec f = file(g, 0, 8, 60);
    classify(g, f);
    std::string path = tmpFile("c01");
    {
        copc::FileWriter w(path, writerConfig(f.c));
        for (auto &n : f.nodes)
            add(w, n, f.c, g);
        w.Close();
    }
    {
        copc::FileReader r(path);
        verify(r, f, g);
    }
    unlink(path.c_str());
}
// Many points: larger than the read-ahead block, many records
static void large(Gen &g)
{
    FileSpec f;
    f.c = cfg(g, 0);
    int nn = static_cast<int>(g.range(1, 3));
    for (int i = 0; i < nn; i++)
    {
        NodeSpec n;
        n.key = child(Key{0, 0, 0, 0}, i);
        size_t cnt = 500 + g.below(3000);
        std::vector<Rec> base = recs(g, f.c.fmt, f.c.ebBytes(), 3, 3);
        for (size_t k = 0; k < cnt; k++)
        {
            Rec p = base[k % base.size()];
            p.x = static_cast<int32_t>(k * 2654435761u);
            p.gps = k;
            n.recs.push_back(p);
        }
        f.nodes.push_back(n);
    }
    g.label("large node");
    classify(g, f);
    std::stringstream out;
    copc::Writer w(out, writerConfig(f.c));
    for (auto &n : f.nodes)
        add(w, n, f.c, g);
    w.Close();
    copc::Reader r(&out);
    for (auto &n : f.nodes)
        checkBytes(ubytes(r.GetPointData(vk(n.key))), spec::encode(n.recs, f.c.fmt), "large node " + n.key.s());
}

// A file of several GiB: what lies behind the first 2 or 4 GiB is found all the same. The large chunks are never decoded.
static void far4(Gen &g)
{
    FileSpec f;
    f.c = cfg(g, 0);
    auto sizes = far::sizes(g);
    std::vector<char> zeros;
    zeros.resize(*std::max_element(sizes.begin(), sizes.end()), 0);
    far::Stream io;
    std::map<Key, copc::Node> big;
    {
        copc::Writer w(io, writerConfig(f.c));
        auto keys = tree(g, 12, 12, 8);
        for (auto &k : keys)
        {
            size_t left = static_cast<size_t>(&keys.back() - &k) + 1;
            bool isBig = !sizes.empty() && (left <= sizes.size() + 2 || g.below(3) == 2);
            NodeSpec n;
            n.key = k;
            n.page = pageFor(g, k, f.nodes);
            if (!isBig)
            {
                n.recs = recs(g, f.c.fmt, f.c.ebBytes(), 1, 5);
                add(w, n, f.c, g);
                f.nodes.push_back(n);
                continue;
            }
            zeros.resize(sizes.back());
            sizes.pop_back();
            uint64_t end = io.buf.size();
            auto node = big[k] = w.AddNodeCompressed(vk(k), zeros, 7, vk(n.page));
            CHECK_EQ(uint64_t(node.offset), end, "offset of the large node " << k.s());
            CHECK_EQ(uint64_t(node.byte_size), uint64_t(zeros.size()), "size of the large node " << k.s());
        }
        std::vector<char>().swap(zeros);
        w.Close();
    }
    g.label(io.buf.size() >> 32 ? "over 4 GiB" : "over 2 GiB");
    classify(g, f);
    copc::Reader r(&io);
    CHECK_EQ(r.CopcConfig().LasHeader().PointCount(), f.pointCount() + 7 * big.size(), "header point count");
    CHECK_EQ(r.CopcConfig().Wkt(), f.c.wkt, "WKT");
    for (auto &b : big)
    {
        auto n = r.FindNode(vk(b.first));
        CHECK(n == b.second, "large node " << b.first.s() << " is " << n << ", was written as " << b.second);
    }
    for (auto &n : f.nodes)
    {
        auto node = r.FindNode(vk(n.key));
        CHECK_EQ(size_t(node.point_count), n.recs.size(), "point count of node " << n.key.s());
        CHECK(node.page_key == vk(n.page), "page of node " << n.key.s());
        checkPoints(r.GetPoints(node), n.recs, f.c.q, f.c.fmt, f.c.ebBytes(), "node " + n.key.s());
        checkBytes(ubytes(r.GetPointData(node)), spec::encode(n.recs, f.c.fmt), "data of node " + n.key.s());
        CHECK_EQ(r.GetPointDataCompressed(node).size(), size_t(node.byte_size), "compressed size of node " << n.key.s());
    }
    CHECK_EQ(r.GetAllNodes().size(), f.nodes.size() + big.size(), "number of nodes");
}

pbt::Property pbt::property()
{
    return {"C01",
            "a file with at least two nodes and four points",
            {{"stream", 60000, streams}, {"file", 12000, files}, {"large", 1000, large}, {"far", 30, far4}},
            40000,
            800000};
}
