// C20 Compressed point data can be copied between files without change
#include "../build.hpp"
#include "../hist.hpp"
using namespace hist;
using copc::laz::Compressor;
using copc::laz::Decompressor;

namespace
{
// every public form of compress and decompress
void codec(Gen &g)
{
    Cfg c;
    c.fmt = static_cast<int>(g.range(6, 8));
    int eb = 0;
    switch (g.below(4))
    {
    case 0:
        break;
    case 1:
        eb = static_cast<int>(g.below(12));
        break;
    case 2:
        eb = static_cast<int>(g.below(300));
        break;
    default:
        eb = spec::ebBytes(ebFields(g));
    }
    if (g.below(50) == 49) // longer records than the record length field can say
    {
        const auto n = static_cast<uint16_t>(65535 - spec::baseSize(c.fmt) + 1 + g.below(30));
        const std::vector<char> data(static_cast<uint16_t>(spec::baseSize(c.fmt) + n));
        CHECK_THROWS(Compressor::CompressBytes(data, static_cast<int8_t>(c.fmt), n), "compressing records with " << n << " extra bytes");
        CHECK_THROWS(Decompressor::DecompressBytes(data, static_cast<int8_t>(c.fmt), n, 1), "decompressing records with " << n << " extra bytes");
    }
    auto v = recs(g, c.fmt, static_cast<size_t>(eb), 0, g.below(10) == 9 ? 500 : 12);
    const Bytes raw = spec::encode(v, c.fmt);
    const auto fmt = static_cast<int8_t>(c.fmt);
    const auto ebs = static_cast<uint16_t>(eb);
    const int count = static_cast<int>(v.size());
    const copc::las::LasHeader h(fmt, static_cast<uint16_t>(spec::baseSize(c.fmt) + eb), c.q.s(), c.q.o(), g.flag());
    g.note("format " + std::to_string(c.fmt) + ", " + std::to_string(eb) + " extra bytes, " + std::to_string(count) + " records");
    if (count >= 2)
        g.nontrivial();
    auto in = chars(raw);
    const Bytes want = spec::compress(raw, c.fmt, eb);
    auto a = Compressor::CompressBytes(static_cast<const std::vector<char> &>(in), fmt, ebs);
    checkBytes(ubytes(a), want, "CompressBytes(bytes, format, extra bytes)");
    auto b = Compressor::CompressBytes(in, h);
    checkBytes(ubytes(b), want, "CompressBytes(bytes, header)");
    const std::string before = g.text(g.size(20));
    for (int k = 0; k < 2; k++)
    {
        std::stringstream out;
        out << before;
        int32_t n = k == 0 ? Compressor::CompressBytes(out, fmt, ebs, in) : Compressor::CompressBytes(out, h, in);
        CHECK_EQ(n, int32_t(count), "number of points CompressBytes reports");
        CHECK(out.str().substr(0, before.size()) == before, "CompressBytes changed what was on the stream before");
        checkBytes(ubytes(out.str().substr(before.size())), want, k == 0 ? "CompressBytes(stream, format, extra bytes)" : "CompressBytes(stream, header)");
    }
    checkBytes(ubytes(in), raw, "input of CompressBytes");

    const int part = g.below(4) == 0 && count > 0 ? static_cast<int>(g.below(count)) : count;
    const Bytes rawPart(raw.begin(), raw.begin() + static_cast<size_t>(part) * (spec::baseSize(c.fmt) + eb));
    if (count > 0) // no points, no chunk
    {
        checkBytes(ubytes(Decompressor::DecompressBytes(a, fmt, ebs, part)), rawPart, "DecompressBytes(bytes, format, extra bytes)");
        checkBytes(ubytes(Decompressor::DecompressBytes(a, h, part)), rawPart, "DecompressBytes(bytes, header)");
        checkBytes(ubytes(a), want, "input of DecompressBytes");
        // from the middle of a stream, twice over the same stream
        const std::string after = g.text(g.size(20));
        std::stringstream s(before + text(want) + after + text(want));
        for (int k = 0; k < 4; k++)
        {
            s.seekg(static_cast<std::streamoff>(k % 2 ? before.size() : before.size() + want.size() + after.size()));
            auto d = k < 2 ? Decompressor::DecompressBytes(s, fmt, ebs, part) : Decompressor::DecompressBytes(s, h, part);
            CHECK(s.good(), "the stream is not usable after DecompressBytes");
            checkBytes(ubytes(d), rawPart, k < 2 ? "DecompressBytes(stream, format, extra bytes)" : "DecompressBytes(stream, header)");
        }
    }
    // objects
    if (count > 0)
    {
        Quant q = quant(g);
        const copc::las::LasHeader hq(fmt, static_cast<uint16_t>(spec::baseSize(c.fmt) + eb), q.s(), q.o(), true);
        auto pts = points(v, q, c.fmt, eb);
        auto packed = pts.Pack(hq);
        checkBytes(ubytes(Compressor::CompressBytes(packed, hq)), want, "compressed points");
        auto un = copc::las::Points::Unpack(Decompressor::DecompressBytes(a, hq, count), hq);
        checkPoints(un, v, q, c.fmt, eb, "points from compressed data");
    }
    // not a whole number of records
    const int size = spec::baseSize(c.fmt) + eb;
    auto bad = in;
    bad.resize(bad.size() + 1 + g.below(size - 1), 'x');
    std::stringstream out;
    CHECK_THROWS(Compressor::CompressBytes(static_cast<const std::vector<char> &>(bad), fmt, ebs), bad.size() << " bytes as records of " << size);
    CHECK_THROWS(Compressor::CompressBytes(out, h, bad), bad.size() << " bytes as records of " << size);
}
struct Source
{
    Bytes bytes;
    std::vector<NodeSpec> nodes;
    std::map<Key, Bytes> comp;
};
// copying raw chunks from one or two files to another
void copy(Gen &g)
{
    Cfg c = cfg(g, 0);
    std::vector<Source> src(1 + g.below(2));
    std::set<Key> taken;
    for (auto &s : src)
    {
        if (g.flag()) // written by copc-lib
        {
            Cfg sc = c;
            sc.q = quant(g);
            sc.wkt = wkt(g);
            std::stringstream out;
            {
                copc::Writer w(out, writerConfig(sc));
                for (auto &k : tree(g, 0, 6, 6))
                {
                    if (!taken.insert(k).second)
                        continue;
                    NodeSpec n;
                    n.key = k;
                    n.page = pageFor(g, k, s.nodes);
                    n.recs = recs(g, c.fmt, c.ebBytes(), 1, 8);
                    w.AddNode(vk(k), chars(spec::encode(n.recs, c.fmt)), vk(n.page));
                    s.nodes.push_back(n);
                }
            }
            s.bytes = ubytes(out.str());
        }
        else // or as LAZ chunks of a plain LAZ file, placed under made-up keys
        {
            std::stringstream out;
            {
                copc::las::LazConfigWriter lc(static_cast<int8_t>(c.fmt), c.q.s(), c.q.o(), c.wkt, toCopc(c.eb));
                copc::laz::LazWriter w(out, lc);
                for (auto &k : tree(g, 0, 6, 6))
                {
                    if (!taken.insert(k).second)
                        continue;
                    NodeSpec n;
                    n.key = k;
                    n.recs = recs(g, c.fmt, c.ebBytes(), 1, 8);
                    auto comp = Compressor::CompressBytes(chars(spec::encode(n.recs, c.fmt)), static_cast<int8_t>(c.fmt), static_cast<uint16_t>(c.ebBytes()));
                    w.WritePointsCompressed(comp, static_cast<int32_t>(n.recs.size()));
                    s.nodes.push_back(n);
                }
            }
            s.bytes = ubytes(out.str());
            auto p = spec::parse(s.bytes);
            uint64_t pos = uint64_t(p.h.pointOffset) + 8;
            for (size_t i = 0; i < p.chunks.size(); i++)
            {
                s.comp[s.nodes[i].key] = Bytes(s.bytes.begin() + pos, s.bytes.begin() + pos + p.chunks[i].offset);
                pos += p.chunks[i].offset;
            }
        }
    }
    // what to copy, in another order and page layout
    struct Item
    {
        size_t src;
        NodeSpec n;
    };
    std::vector<Item> items;
    for (size_t i = 0; i < src.size(); i++)
        for (auto &n : src[i].nodes)
            if (g.below(8) != 7)
                items.push_back({i, n});
    for (size_t i = items.size(); i > 1; i--)
        std::swap(items[i - 1], items[g.below(i)]);
    if (items.size() >= 2)
        g.nontrivial();
    std::vector<std::unique_ptr<std::istringstream>> ins;
    std::vector<std::unique_ptr<copc::Reader>> readers;
    for (auto &s : src)
    {
        ins.push_back(std::make_unique<std::istringstream>(text(s.bytes)));
        readers.push_back(s.comp.empty() && !s.nodes.empty() ? std::make_unique<copc::Reader>(ins.back().get()) : nullptr);
    }
    const bool toLaz = g.below(4) == 3;
    Cfg tc = c;
    tc.q = quant(g);
    tc.wkt = wkt(g);
    g.note(std::to_string(items.size()) + " chunks from " + std::to_string(src.size()) + " files to a " + (toLaz ? "LAZ" : "COPC") + " file; " + c.str());
    std::stringstream out;
    std::vector<Bytes> handed;
    auto chunk = [&](Item &it) -> std::vector<char>
    {
        std::vector<char> d;
        if (readers[it.src])
        {
            auto node = readers[it.src]->FindNode(vk(it.n.key));
            CHECK_EQ(size_t(node.point_count), it.n.recs.size(), "points of a source node");
            d = g.flag() ? readers[it.src]->GetPointDataCompressed(node) : readers[it.src]->GetPointDataCompressed(vk(it.n.key));
            CHECK_EQ(d.size(), size_t(node.byte_size), "compressed size of a source node");
        }
        else
            d = chars(src[it.src].comp.at(it.n.key));
        checkBytes(ubytes(d), spec::compress(spec::encode(it.n.recs, c.fmt), c.fmt, c.ebBytes()), "compressed chunk of " + it.n.key.s());
        handed.push_back(ubytes(d));
        return d;
    };
    if (toLaz)
    {
        copc::laz::LazWriter w(out, copc::las::LazConfigWriter(static_cast<int8_t>(tc.fmt), tc.q.s(), tc.q.o(), tc.wkt, toCopc(tc.eb)));
        for (auto &it : items)
            w.WritePointsCompressed(chunk(it), static_cast<int32_t>(it.n.recs.size()));
    }
    else
    {
        copc::Writer w(out, writerConfig(tc));
        std::vector<NodeSpec> prev;
        for (auto &it : items)
        {
            it.n.page = pageFor(g, it.n.key, prev);
            prev.push_back(it.n);
            if (g.below(4) == 3) // some are decompressed and compressed again
            {
                auto d = chunk(it);
                auto raw = Decompressor::DecompressBytes(d, static_cast<int8_t>(c.fmt), static_cast<uint16_t>(c.ebBytes()), static_cast<int>(it.n.recs.size()));
                w.AddNode(vk(it.n.key), raw, vk(it.n.page));
            }
            else
            {
                auto n = w.AddNodeCompressed(vk(it.n.key), chunk(it), static_cast<int32_t>(it.n.recs.size()), vk(it.n.page));
                CHECK_EQ(size_t(n.byte_size), handed.back().size(), "size of a copied chunk");
                CHECK_EQ(size_t(n.point_count), it.n.recs.size(), "points of a copied chunk");
            }
        }
    }
    const Bytes b = ubytes(out.str());
    auto p = spec::parse(b);
    CHECK_EQ(p.chunks.size(), items.size(), "chunks of the copy");
    uint64_t pos = uint64_t(p.h.pointOffset) + 8, total = 0;
    for (size_t i = 0; i < items.size(); i++)
    {
        CHECK_EQ(p.chunks[i].count, uint64_t(items[i].n.recs.size()), "points of chunk " << i << " of the copy");
        checkBytes(Bytes(b.begin() + pos, b.begin() + pos + p.chunks[i].offset), handed[i], "chunk " + std::to_string(i) + " of the copy");
        pos += p.chunks[i].offset;
        total += items[i].n.recs.size();
    }
    CHECK_EQ(p.h.count, total, "points of the copy");
    if (toLaz)
    {
        copc::laz::LazReader r(&out);
        std::vector<Rec> all;
        for (auto &it : items)
            all.insert(all.end(), it.n.recs.begin(), it.n.recs.end());
        checkBytes(ubytes(r.GetPointData()), spec::encode(all, c.fmt), "points of the LAZ copy");
        return;
    }
    copc::Reader r(&out);
    CHECK_EQ(r.GetAllNodes().size(), items.size(), "nodes of the copy");
    for (size_t i = 0; i < items.size(); i++)
    {
        auto n = r.FindNode(vk(items[i].n.key));
        CHECK(n.IsValid(), "node " << items[i].n.key.s() << " is not in the copy");
        CHECK(sk(n.page_key) == items[i].n.page, "node " << items[i].n.key.s() << " is in page " << n.page_key);
        CHECK_EQ(size_t(n.point_count), items[i].n.recs.size(), "points of a copied node");
        checkBytes(ubytes(r.GetPointDataCompressed(n)), handed[i], "compressed data of a copied node");
        checkPoints(r.GetPoints(n), items[i].n.recs, tc.q, c.fmt, c.ebBytes(), "points of a copied node");
    }
}
} // namespace

pbt::Property pbt::property()
{
    return {"C20",
            "at least two records (codec) or two chunks (copy)",
            {{"codec", 3, codec}, {"copy", 3, copy}},
            40000,
            1000000};
}
