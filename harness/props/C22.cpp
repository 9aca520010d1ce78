// C22 Requests the writer cannot honour are refused and leave no trace
#include "../far.hpp"
#include "../hist.hpp"
using namespace hist;

static void copcWriter(Gen &g)
{
    Model m;
    m.c = cfg(g, 0);
    if (g.flag())
        m.c.wkt = "";
    // the refused requests are drawn from a second writer run with the same accepted requests
    std::stringstream out;
    size_t before = 0;
    {
        copc::Writer w(out, writerConfig(m.c));
        Opts o;
        o.maxOps = 12;
        o.maxPts = 4;
        o.moveWeight = 2;
        o.refusedWeight = 6;
        run(g, w, m, o);
        before = out.str().size();
        refused(g, w, m);
        CHECK_EQ(out.str().size(), before, "bytes in the file after a refused request");
        w.Close();
    }
    Bytes b = ubytes(out.str());
    auto p = spec::parse(b);
    Walk h = walk(b, infoOf(p));
    checkHierarchy(h, m);
    checkNodeData(b, h, m);
    CHECK_EQ(p.h.count, uint64_t(m.points()), "point count after refused requests");
    CHECK_EQ(p.chunks.size(), m.order.size(), "chunks after refused requests");
    // after Close further requests are refused and the file stays as it is
    if (m.log.find("refused") != std::string::npos && !m.nodes.empty())
        g.nontrivial();
}
static void afterClose(Gen &g)
{
    Model m;
    m.c = cfg(g, 0);
    bool viaFile = g.flag();
    std::stringstream out;
    std::string path = tmpFile("c22");
    std::unique_ptr<copc::Writer> w;
    if (viaFile)
        w = std::make_unique<copc::FileWriter>(path, writerConfig(m.c));
    else
        w = std::make_unique<copc::Writer>(out, writerConfig(m.c));
    Opts o;
    o.maxOps = 6;
    o.maxPts = 3;
    run(g, *w, m, o);
    w->Close();
    auto read = [&]() { return ubytes(viaFile ? slurp(path) : out.str()); };
    Bytes b = read();
    auto v = recs(g, m.c.fmt, m.c.ebBytes(), 1, 3);
    Bytes raw = spec::encode(v, m.c.fmt);
    Key k = key(g, 5);
    int how = static_cast<int>(g.below(3));
    g.note("; after Close: add " + std::to_string(how));
    switch (how)
    {
    case 0:
        CHECK_THROWS(w->AddNode(vk(k), points(v, m.c.q, m.c.fmt, m.c.ebBytes())), "adding points to a closed writer");
        break;
    case 1:
        CHECK_THROWS(w->AddNode(vk(k), chars(raw)), "adding bytes to a closed writer");
        break;
    default:
        CHECK_THROWS(w->AddNodeCompressed(vk(k), chars(spec::compress(raw, m.c.fmt, m.c.ebBytes())), static_cast<int32_t>(v.size())),
                     "adding compressed points to a closed writer");
    }
    w->Close();
    w.reset();
    checkBytes(read(), b, "file after requests to a closed writer");
    if (viaFile)
        unlink(path.c_str());
    g.nontrivial();
}
static void lazWriter(Gen &g)
{
    Cfg c = cfg(g, 0);
    std::stringstream out;
    copc::las::LazConfigWriter lc(static_cast<int8_t>(c.fmt), c.q.s(), c.q.o(), c.wkt, toCopc(c.eb));
    std::vector<Rec> all;
    size_t chunks = 0, refusedN = 0;
    bool closedProbe = g.flag();
    Bytes fin;
    {
        copc::laz::LazWriter w(out, lc);
        size_t n = g.size(8);
        for (size_t i = 0; i < n; i++)
        {
            auto v = recs(g, c.fmt, c.ebBytes(), 1, 4);
            Bytes raw = spec::encode(v, c.fmt);
            size_t size = out.str().size();
            switch (g.below(6))
            {
            case 0:
            case 1:
                w.WritePoints(points(v, c.q, c.fmt, c.ebBytes()));
                all.insert(all.end(), v.begin(), v.end());
                chunks++;
                break;
            case 2:
                w.WritePointsCompressed(chars(spec::compress(raw, c.fmt, c.ebBytes())), static_cast<int32_t>(v.size()));
                all.insert(all.end(), v.begin(), v.end());
                chunks++;
                break;
            case 3: {
                int f2 = static_cast<int>(g.range(6, 8)), e2 = static_cast<int>(g.size(9));
                if (f2 == c.fmt && e2 == c.ebBytes())
                    e2++;
                auto pts = points(recs(g, f2, e2, 1, 2), c.q, f2, e2);
                CHECK_THROWS(w.WritePoints(pts), "points of format " << f2 << " with " << e2 << " extra bytes");
                CHECK_EQ(out.str().size(), size, "bytes after a refused request");
                refusedN++;
                break;
            }
            case 4: {
                int32_t cnt = g.flag() ? 0 : -1 - static_cast<int32_t>(g.uintN(20));
                if (g.below(3) == 2)
                    CHECK_THROWS(w.WritePointsCompressed(std::vector<char>(), static_cast<int32_t>(v.size())), "a compressed chunk without data");
                else
                    CHECK_THROWS(w.WritePointsCompressed(chars(spec::compress(raw, c.fmt, c.ebBytes())), cnt), "point count " << cnt);
                CHECK_EQ(out.str().size(), size, "bytes after a refused request");
                refusedN++;
                break;
            }
            default: {
                auto pts = points(v, c.q, c.fmt, c.ebBytes());
                pts[g.below(pts.Size())]->Y(c.q.offset[1] + c.q.scale[1] * (g.flag() ? 5e9 : -5e9));
                CHECK_THROWS(w.WritePoints(pts), "a coordinate that the scale and offset cannot represent");
                CHECK_EQ(out.str().size(), size, "bytes after a refused request");
                refusedN++;
            }
            }
            CHECK_EQ(w.PointCount(), uint64_t(all.size()), "PointCount");
            CHECK_EQ(w.ChunkCount(), uint64_t(chunks), "ChunkCount");
        }
        w.Close();
        fin = ubytes(out.str());
        if (closedProbe)
        {
            auto v = recs(g, c.fmt, c.ebBytes(), 1, 4);
            if (g.flag())
                CHECK_THROWS(w.WritePoints(points(v, c.q, c.fmt, c.ebBytes())), "writing points to a closed writer");
            else
                CHECK_THROWS(w.WritePointsCompressed(chars(spec::compress(spec::encode(v, c.fmt), c.fmt, c.ebBytes())),
                                                     static_cast<int32_t>(v.size())),
                             "writing compressed points to a closed writer");
            w.Close();
        }
    }
    checkBytes(ubytes(out.str()), fin, "file after requests to a closed writer");
    auto p = spec::parse(fin);
    CHECK_EQ(p.h.count, uint64_t(all.size()), "point count");
    CHECK_EQ(p.chunks.size(), chunks, "chunks");
    Bytes raw;
    size_t pos = p.h.pointOffset + 8;
    for (auto &ch : p.chunks)
    {
        spec::app(raw, spec::decompress(fin, pos, static_cast<size_t>(ch.offset), c.fmt, c.ebBytes(), static_cast<size_t>(ch.count)));
        pos += static_cast<size_t>(ch.offset);
    }
    checkBytes(raw, spec::encode(all, c.fmt), "points in the LAZ file");
    if (refusedN)
        g.nontrivial();
}
static void config(Gen &g)
{
    int f = static_cast<int>(g.range(-128, 127));
    if (f >= 6 && f <= 8)
        f = g.pick({5, 9});
    auto fmt = static_cast<int8_t>(f);
    g.note("format " + std::to_string(f));
    CHECK_THROWS(copc::CopcConfigWriter{fmt}, "COPC configuration of format " << f);
    CHECK_THROWS(copc::las::LazConfigWriter{fmt}, "LAZ configuration of format " << f);
    copc::CopcConfigWriter ok(static_cast<int8_t>(g.range(6, 8)));
    std::stringstream out;
    CHECK_THROWS(copc::Writer(out, ok, fmt), "writer overriding the format with " << f);
    g.nontrivial();
    // lookups
    copc::Reader *r = nullptr;
    (void)r;
    std::stringstream s;
    Model m;
    m.c.fmt = 6;
    m.c.extents.resize(14);
    {
        copc::Writer w(s, writerConfig(m.c));
        add(g, w, m, Key{0, 0, 0, 0}, Key{0, 0, 0, 0}, recs(g, 6, 0, 1, 2));
    }
    copc::Reader rd(&s);
    copc::Node invalid;
    CHECK_THROWS(rd.GetPointData(invalid), "point data of an invalid node");
    CHECK_THROWS(rd.GetPoints(invalid), "points of an invalid node");
    CHECK_THROWS(rd.GetPointDataCompressed(invalid), "compressed data of an invalid node");
    Key k = key(g, 5);
    int32_t *fld[4] = {&k.d, &k.x, &k.y, &k.z};
    *fld[g.below(4)] = -1 - static_cast<int32_t>(g.uintN(10));
    CHECK(!rd.FindNode(vk(k)).IsValid(), "FindNode of an invalid key");
    CHECK(rd.GetPointData(vk(k)).empty() && rd.GetPointDataCompressed(vk(k)).empty(), "data of an invalid key");
    CHECK_EQ(rd.GetPoints(vk(k)).Size(), size_t(0), "points of an invalid key");
    CHECK(rd.GetAllChildrenOfPage(vk(k)).empty(), "children of an invalid key");
    CHECK_EQ(rd.GetPoints(copc::VoxelKey::RootKey()).Size(), m.nodes.begin()->second.recs.size(), "the reader still works");
}

// Extra bytes up to, and beyond, what the 16-bit record length and VLR length can hold
static void manyExtraBytes(Gen &g)
{
    Cfg c;
    c.fmt = static_cast<int>(g.range(6, 8));
    if (g.flag()) // the description is the limit: 341 items
    {
        const size_t n = g.below(4) ? g.range(336, 346) : g.range(0, 400);
        for (size_t i = 0; i < n; i++)
        {
            EbField e;
            e.type = static_cast<uint8_t>(g.below(8) ? 1 : g.range(1, 30));
            e.name = "F" + std::to_string(i);
            c.eb.push_back(e);
        }
    }
    else // the record is
    {
        int left = 65535 - spec::baseSize(c.fmt) + static_cast<int>(g.range(-3, 3));
        if (g.below(4) == 0)
            left += static_cast<int>(g.uintN(14));
        while (left > 0)
        {
            EbField e;
            e.type = 0;
            e.options = static_cast<uint8_t>(std::min(left, 255));
            left -= e.options;
            e.name = "F" + std::to_string(c.eb.size());
            c.eb.push_back(e);
        }
    }
    const int bytes = c.ebBytes();
    const bool fits = c.eb.size() * 192 <= 65535 && spec::baseSize(c.fmt) + bytes <= 65535;
    c.extents.resize(spec::baseDims(c.fmt) + c.eb.size());
    const int how = static_cast<int>(g.below(4));
    g.note(std::to_string(c.eb.size()) + " extra-byte items, " + std::to_string(bytes) + " B, format " + std::to_string(c.fmt) +
           (fits ? " (possible)" : " (impossible)") + ", way " + std::to_string(how));
    g.nontrivial();
    std::stringstream out;
    std::vector<Rec> v;
    auto write = [&]
    {
        const auto eb = toCopc(c.eb);
        const auto fmt = static_cast<int8_t>(c.fmt);
        if (how == 3)
        {
            copc::laz::LazWriter w(out, copc::las::LazConfigWriter(fmt, c.q.s(), c.q.o(), "", eb));
            if (fits)
            {
                v = recs(g, c.fmt, bytes, 1, 2);
                w.WritePoints(points(v, c.q, c.fmt, bytes));
                w.Close();
            }
            return;
        }
        std::unique_ptr<copc::Writer> w;
        const std::string path = tmpFile("c22e");
        if (how == 0)
            w = std::make_unique<copc::Writer>(out, copc::CopcConfigWriter(fmt, c.q.s(), c.q.o(), "", eb));
        else if (how == 1)
            w = std::make_unique<copc::Writer>(out, copc::CopcConfigWriter(g.flag() ? 6 : 8, c.q.s(), c.q.o()), fmt, std::nullopt, std::nullopt,
                                               std::nullopt, eb);
        else
            w.reset(new copc::FileWriter(path, copc::CopcConfigWriter(fmt, c.q.s(), c.q.o(), "", eb)));
        if (fits)
        {
            v = recs(g, c.fmt, bytes, 1, 2);
            w->AddNode(vk(Key{0, 0, 0, 0}), points(v, c.q, c.fmt, bytes));
            w->Close();
        }
        w.reset();
        if (how == 2)
        {
            out << slurp(path);
            unlink(path.c_str());
        }
    };
    if (!fits)
    {
        CHECK_THROWS(write(), "a record or a VLR whose length does not fit its field");
        return;
    }
    write();
    const Bytes b = ubytes(out.str());
    auto p = spec::parse(b);
    CHECK_EQ(int(p.h.recordLength), spec::baseSize(c.fmt) + bytes, "record length");
    auto *e = p.find("LASF_Spec", 4);
    CHECK((e != nullptr) == !c.eb.empty(), "extra-byte record");
    if (e)
        checkBytes(e->data, spec::encode(c.eb), "extra-byte record");
    CHECK_EQ(p.chunks.size(), size_t(1), "chunks");
    checkBytes(spec::decompress(b, p.h.pointOffset + 8, static_cast<size_t>(p.chunks[0].offset), c.fmt, bytes, v.size()), spec::encode(v, c.fmt),
               "points");
    std::stringstream in1(out.str()), in2(out.str());
    copc::laz::LazReader lr(&in1);
    checkBytes(ubytes(lr.GetPoints().Pack(lr.LazConfig().LasHeader())), spec::encode(v, c.fmt), "points read back");
    if (how == 3)
        return;
    copc::Reader r(&in2);
    CHECK_EQ(r.CopcConfig().CopcExtents().NumberOfExtents(), static_cast<int>(c.extents.size()), "extents");
    checkBytes(ubytes(r.GetPointData(copc::VoxelKey::RootKey())), spec::encode(v, c.fmt), "points read back");
}

// Compressed chunks of which the size does not fit the 32 bits it is stored in
static void oversized(Gen &g)
{
    Model m;
    m.c = cfg(g, 0);
    const bool laz = g.flag();
    const size_t accepted = g.below(3), at = g.below(accepted + 1);
    std::vector<std::pair<Key, std::vector<Rec>>> nodes;
    for (size_t i = 0; i < accepted; i++)
        nodes.push_back({Key{5, static_cast<int>(i), 0, 0}, recs(g, m.c.fmt, m.c.ebBytes(), 1, 3)});
    const size_t size = size_t(1) << 31; // the largest allocation the sanitizer allows
    const int32_t count = static_cast<int32_t>(g.range(1, 1000000));
    g.note((laz ? "LAZ, " : "COPC, ") + std::to_string(accepted) + " accepted, a chunk of " + std::to_string(size) + " bytes before " + std::to_string(at));
    far::Stream plain, tried;
    for (auto *out : {&plain, &tried})
    {
        auto request = [&](auto &&f) {
            if (out == &plain)
                return;
            std::vector<char> big(size);
            bool refused = false;
            try
            {
                f(big);
            }
            catch (const std::exception &)
            {
                refused = true;
            }
            CHECK(refused, "accepted");
        };
        if (laz)
        {
            copc::las::LazConfigWriter lc(static_cast<int8_t>(m.c.fmt), m.c.q.s(), m.c.q.o(), m.c.wkt, toCopc(m.c.eb));
            copc::laz::LazWriter w(*out, lc);
            for (size_t i = 0; i <= accepted; i++)
            {
                if (i == at)
                    request([&](const std::vector<char> &big) { w.WritePointsCompressed(big, count); });
                if (i < accepted)
                    w.WritePoints(points(nodes[i].second, m.c.q, m.c.fmt, m.c.ebBytes()));
            }
            w.Close();
        }
        else
        {
            copc::Writer w(*out, writerConfig(m.c));
            for (size_t i = 0; i <= accepted; i++)
            {
                if (i == at)
                    request([&](const std::vector<char> &big) { w.AddNodeCompressed(copc::VoxelKey(4, 0, 0, 0), big, count); });
                if (i < accepted)
                    w.AddNode(vk(nodes[i].first), chars(spec::encode(nodes[i].second, m.c.fmt)));
            }
            w.Close();
        }
    }
    CHECK_EQ(tried.buf.size(), plain.buf.size(), "size of the file after a refused request");
    checkBytes(tried.buf.at(0, plain.buf.size()), plain.buf.at(0, plain.buf.size()), "file after a refused request");
    g.nontrivial();
}

pbt::Property pbt::property()
{
    return {"C22",
            "at least one request was refused in a history that also stored something (or a configuration was refused)",
            {{"copc", 24000, copcWriter},
             {"closed", 8000, afterClose},
             {"laz", 12000, lazWriter},
             {"config", 4000, config},
             {"many extra bytes", 200, manyExtraBytes},
             {"oversized", 5, oversized}},
            60000,
            1500000};
}
