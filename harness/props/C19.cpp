// C19 LAZ files written chunk by chunk read back as one sequence
#include "../build.hpp"
#include "../far.hpp"
#include "../hist.hpp"
using namespace hist;

namespace
{
copc::las::LazConfigWriter lazConfig(const Cfg &c)
{
    copc::las::LazConfigWriter lc(static_cast<int8_t>(c.fmt), c.q.s(), c.q.o(), c.wkt, toCopc(c.eb));
    applyHeader(c, *lc.LasHeader());
    return lc;
}
struct Written
{
    Cfg c;
    std::vector<std::vector<Rec>> chunks;
    std::vector<Bytes> compressed; // the bytes handed over, where they were handed over compressed
    std::vector<Rec> all() const
    {
        std::vector<Rec> v;
        for (auto &x : chunks)
            v.insert(v.end(), x.begin(), x.end());
        return v;
    }
};
void write(Gen &g, copc::laz::LazWriter &w, Written &h)
{
    const Cfg &c = h.c;
    size_t total = 0;
    for (size_t n = g.size(g.below(8) == 7 ? 60 : 8); n > 0; n--)
    {
        auto v = n == 1 && g.below(1000) == 999
                     ? manyRecs(g, c.fmt, c.ebBytes())
                     : recs(g, c.fmt, c.ebBytes(), g.below(12) == 11 ? 0 : 1, g.below(10) == 9 ? 300 : 8);
        switch (g.below(3))
        {
        case 0:
        case 1: {
            auto pts = points(v, c.q, c.fmt, c.ebBytes());
            w.WritePoints(pts);
            if (v.empty()) // nothing to write
                break;
            h.chunks.push_back(v);
            h.compressed.push_back({});
            checkPoints(pts, v, c.q, c.fmt, c.ebBytes(), "points after they were written");
            break;
        }
        default: {
            if (v.empty())
                break;
            Bytes comp = spec::compress(spec::encode(v, c.fmt), c.fmt, c.ebBytes());
            w.WritePointsCompressed(chars(comp), static_cast<int32_t>(v.size()));
            h.chunks.push_back(v);
            h.compressed.push_back(comp);
        }
        }
        if (h.chunks.size() && h.chunks.back().size() == v.size() && !v.empty())
            total += v.size();
        CHECK_EQ(w.PointCount(), uint64_t(total), "PointCount");
        CHECK_EQ(w.ChunkCount(), uint64_t(h.chunks.size()), "ChunkCount");
    }
}
// The bytes: header, tables and records describe exactly what is there
void checkStructure(const Bytes &b, const Written &h)
{
    auto p = spec::parse(b);
    const Cfg &c = h.c;
    const int eb = c.ebBytes();
    const auto all = h.all();
    CHECK(p.h.signature == "LASF" && p.h.major == 1 && p.h.minor == 4, "signature or version");
    CHECK_EQ(int(p.h.headerSize), 375, "header size");
    CHECK_EQ(int(p.h.formatByte), c.fmt | 0x80, "format byte");
    CHECK_EQ(int(p.h.recordLength), c.recordLength(), "record length");
    CHECK_EQ(p.h.count, uint64_t(all.size()), "point count");
    CHECK_EQ(uint64_t(p.h.legacyCount), uint64_t(all.size()), "legacy point count");
    CHECK((p.h.globalEncoding & 0x10) != 0, "the WKT bit is not set");
    CHECK_EQ(p.vlrs.size(), size_t(1 + !c.eb.empty()), "number of VLRs");
    CHECK_EQ(p.countOf("laszip encoded", 22204), size_t(1), "compression records");
    checkBytes(p.find("laszip encoded", 22204)->data, spec::laszipVlr(c.fmt, eb), "compression record");
    CHECK_EQ(p.countOf("LASF_Spec", 4), size_t(!c.eb.empty()), "extra-byte records");
    if (!c.eb.empty())
        checkBytes(p.find("LASF_Spec", 4)->data, spec::encode(c.eb), "extra-byte record");
    for (auto *list : {&p.vlrs, &p.evlrs})
        for (auto &v : *list)
            CHECK_EQ(int(v.reserved), 0, "reserved field of record " << v.user << "/" << v.record);
    CHECK(!p.find("copc", 1), "a LAZ file with a COPC record");
    CHECK(p.vlrEnd <= p.h.pointOffset, "VLRs reach to " << p.vlrEnd << ", points start at " << p.h.pointOffset);
    for (size_t i = p.vlrEnd; i < p.h.pointOffset; i++)
        CHECK(b[i] == 0, "stray byte at " << i << " between the VLRs and the point data");
    CHECK_EQ(p.chunks.size(), h.chunks.size(), "chunks");
    uint64_t pos = uint64_t(p.h.pointOffset) + 8;
    for (size_t i = 0; i < p.chunks.size(); i++)
    {
        CHECK_EQ(p.chunks[i].count, uint64_t(h.chunks[i].size()), "points of chunk " << i);
        auto raw = spec::decompress(b, pos, static_cast<size_t>(p.chunks[i].offset), c.fmt, eb, static_cast<size_t>(p.chunks[i].count));
        checkBytes(raw, spec::encode(h.chunks[i], c.fmt), "chunk " + std::to_string(i));
        if (!h.compressed[i].empty())
            checkBytes(Bytes(b.begin() + pos, b.begin() + pos + p.chunks[i].offset), h.compressed[i], "compressed chunk " + std::to_string(i));
        pos += p.chunks[i].offset;
    }
    CHECK_EQ(pos, p.chunkTableOffset, "end of the last chunk");
    CHECK_EQ(p.evlrs.size(), size_t(!c.wkt.empty()), "number of EVLRs");
    if (!c.wkt.empty())
    {
        CHECK_EQ(uint64_t(p.chunkTableEnd), p.h.evlrOffset, "EVLRs do not follow the chunk table");
        CHECK(p.evlrs[0].user == "LASF_Projection" && p.evlrs[0].record == 2112 && text(p.evlrs[0].data) == c.wkt, "WKT record");
        CHECK_EQ(p.evlrEnd, b.size(), "end of the last EVLR");
    }
    else
        CHECK_EQ(p.chunkTableEnd, b.size(), "end of the chunk table");
}
// Everything a reader says, asked several times in any order
void checkReader(Gen &g, copc::laz::LazReader &r, const Written &h, const std::string &what)
{
    const Cfg &c = h.c;
    const auto all = h.all();
    const Bytes raw = spec::encode(all, c.fmt);
    for (size_t i = 1 + g.below(4); i > 0; i--)
    {
        switch (g.below(3))
        {
        case 0:
            checkBytes(ubytes(r.GetPointData()), raw, what + "point data");
            break;
        case 1:
            checkPoints(r.GetPoints(), all, c.q, c.fmt, c.ebBytes(), what + "points");
            break;
        default: {
            auto cfg = r.LazConfig();
            CHECK_EQ(cfg.Wkt(), c.wkt, what << "WKT");
            CHECK_EQ(cfg.ExtraBytesVlr().items.size(), c.eb.size(), what << "extra-byte items");
            for (size_t k = 0; k < c.eb.size(); k++)
            {
                auto e = cfg.ExtraBytesVlr().items[k];
                CHECK(diff(e, c.eb[k]).empty(), what << "extra-byte item " << k << ": " << diff(e, c.eb[k]));
            }
            auto hd = cfg.LasHeader();
            CHECK_EQ(hd.PointCount(), uint64_t(all.size()), what << "point count");
            CHECK_EQ(hd.GUID(), c.guid, what << "GUID");
            CHECK_EQ(hd.GeneratingSoftware(), c.software, what << "generating software");
            CHECK(sameBits(hd.Scale().x, c.q.scale[0]) && sameBits(hd.Offset().z, c.q.offset[2]), what << "scale or offset");
            CHECK(sameBits(hd.min.x, c.min[0]) && sameBits(hd.max.y, c.max[1]), what << "bounds");
            for (int k = 0; k < 15; k++)
                CHECK_EQ(hd.points_by_return[k], c.returns[k], what << "points of return " << k);
        }
        }
    }
}
void sequence(Gen &g)
{
    Written h;
    h.c = cfg(g, g.flag() ? 1 : 0);
    const bool viaFile = g.below(6) == 5;
    const std::string path = tmpFile("c19");
    Bytes b;
    if (viaFile)
    {
        {
            copc::laz::LazFileWriter w(path, lazConfig(h.c));
            write(g, w, h);
            if (g.flag())
                w.Close();
        }
        b = ubytes(slurp(path));
        g.label("file");
    }
    else
    {
        std::stringstream out;
        {
            copc::laz::LazWriter w(out, lazConfig(h.c));
            write(g, w, h);
            if (g.flag())
                w.Close();
        }
        b = ubytes(out.str());
    }
    g.note(std::to_string(h.chunks.size()) + " chunks, " + std::to_string(h.all().size()) + " points; " + h.c.str());
    if (h.chunks.size() >= 2)
        g.nontrivial();
    if (h.chunks.empty())
        g.label("no points");
    checkStructure(b, h);
    if (viaFile)
    {
        copc::laz::LazFileReader r(path);
        checkReader(g, r, h, "from the file: ");
    }
    unlink(path.c_str());
    std::istringstream in(text(b)), in2(text(b));
    copc::laz::LazReader r(&in), r2(&in2);
    checkReader(g, r, h, "");
    checkReader(g, r2, h, "second reader: ");
    checkReader(g, r, h, "again: ");
    // a stream that has been read to its end before is as good as new
    if (g.flag())
    {
        in.seekg(0, std::ios::end);
        in.get();
        checkReader(g, r, h, "after the stream hit its end: ");
    }
    // another generation, in other chunks
    if (g.below(3) == 0 && !h.all().empty())
    {
        Written n;
        n.c = h.c;
        auto all = h.all();
        auto pts = r.GetPoints();
        std::stringstream out;
        {
            copc::laz::LazWriter w(out, copc::las::LazConfigWriter(r.LazConfig()));
            for (size_t i = 0; i < all.size();)
            {
                size_t k = 1 + g.below(all.size() - i);
                copc::las::Points part(pts.PointFormatId(), pts.EbByteSize());
                for (size_t j = i; j < i + k; j++)
                    part.AddPoint(pts[j]);
                w.WritePoints(part);
                n.chunks.push_back(std::vector<Rec>(all.begin() + i, all.begin() + i + k));
                n.compressed.push_back({});
                i += k;
            }
        }
        checkStructure(ubytes(out.str()), n);
        copc::laz::LazReader r3(&out);
        checkReader(g, r3, n, "second generation: ");
    }
}
// A COPC file, whoever produced it, rewritten as LAZ
void fromCopc(Gen &g)
{
    build::Opts o;
    o.level = 1;
    build::File f = build::file(g, o);
    g.note(f.str());
    std::istringstream in(text(f.bytes));
    copc::Reader r(&in);
    Written h;
    h.c = f.c;
    if (!f.hasWkt)
        h.c.wkt.clear();
    std::stringstream out;
    if (f.undescribed)
        pbt::discard(); // the model of LAZ files here has no undescribed bytes
    {
        copc::laz::LazWriter w(out, copc::las::LazConfigWriter(r.CopcConfig()));
        CHECK(!w.LazConfig()->LasHeader()->IsCopc(), "the header of a LAZ writer is marked as COPC");
        for (size_t i = 0; i < f.nodes.size(); i++)
        {
            auto &n = f.nodes[i];
            if (n.recs.empty())
                continue;
            if (g.flag())
            {
                w.WritePoints(r.GetPoints(vk(n.key)));
                h.compressed.push_back({});
            }
            else
            {
                auto comp = r.GetPointDataCompressed(vk(n.key));
                w.WritePointsCompressed(comp, static_cast<int32_t>(n.recs.size()));
                h.compressed.push_back(ubytes(comp));
            }
            h.chunks.push_back(n.recs);
        }
    }
    if (h.chunks.size() >= 2)
        g.nontrivial();
    checkStructure(ubytes(out.str()), h);
    copc::laz::LazReader lr(&out);
    checkReader(g, lr, h, "LAZ copy: ");
}
// More chunks than 16 bits count
void manyChunks(Gen &g)
{
    Written h;
    h.c = cfg(g, 0);
    const size_t n = g.pick({300, 4097, 33000, 65535, 65536, 65537, 70000});
    std::vector<std::vector<Rec>> v;
    std::vector<Bytes> comp;
    for (int i = 0; i < 3; i++)
    {
        v.push_back(recs(g, h.c.fmt, h.c.ebBytes(), 1, 2));
        comp.push_back(spec::compress(spec::encode(v.back(), h.c.fmt), h.c.fmt, h.c.ebBytes()));
    }
    g.note(h.c.str() + "; " + std::to_string(n) + " chunks");
    std::stringstream out;
    {
        copc::laz::LazWriter w(out, lazConfig(h.c));
        for (size_t i = 0; i < n; i++)
        {
            w.WritePointsCompressed(chars(comp[i % 3]), static_cast<int32_t>(v[i % 3].size()));
            h.chunks.push_back(v[i % 3]);
            h.compressed.push_back(comp[i % 3]);
        }
        CHECK_EQ(w.ChunkCount(), uint64_t(n), "ChunkCount");
    }
    g.label(n > 65535 ? "over 65535 chunks" : "thousands of chunks");
    g.nontrivial();
    checkStructure(ubytes(out.str()), h);
    copc::laz::LazReader r(&out);
    Bytes want;
    for (auto &x : h.chunks)
    {
        auto b = spec::encode(x, h.c.fmt);
        want.insert(want.end(), b.begin(), b.end());
    }
    checkBytes(ubytes(r.GetPointData()), want, "point data");
}
// Point counts up to the largest, and more points together than 32 bits count; the data are never decoded
void counts(Gen &g)
{
    Cfg c = cfg(g, 0);
    std::vector<std::pair<int32_t, Bytes>> want;
    uint64_t total = 0;
    std::stringstream out;
    {
        copc::laz::LazWriter w(out, lazConfig(c));
        for (size_t n = 1 + g.below(8); n > 0; n--)
        {
            Bytes data(1 + g.below(40));
            for (auto &x : data)
                x = uint8_t(g.bits(8));
            const auto count = static_cast<int32_t>(1 + (g.flag() ? g.below(0x7FFFFFFF) : g.flag() ? 0x7FFFFFFE - g.below(3) : g.below(uint64_t(1) << g.range(1, 31)) % 0x7FFFFFFF));
            w.WritePointsCompressed(chars(data), count);
            want.push_back({count, data});
            total += uint64_t(count);
            CHECK_EQ(w.PointCount(), total, "PointCount");
            CHECK_EQ(w.ChunkCount(), uint64_t(want.size()), "ChunkCount");
        }
    }
    g.note(c.str() + "; " + std::to_string(want.size()) + " chunks of " + std::to_string(total) + " points");
    if (total > 0xFFFFFFFFull)
        g.label("more than 2^32 points");
    g.nontrivial();
    const Bytes b = ubytes(out.str());
    auto p = spec::parse(b);
    CHECK_EQ(p.h.count, total, "point count");
    CHECK_EQ(uint64_t(p.h.legacyCount), total > 0xFFFFFFFFull ? 0 : total, "legacy point count");
    CHECK_EQ(p.chunks.size(), want.size(), "chunks");
    uint64_t pos = uint64_t(p.h.pointOffset) + 8;
    for (size_t i = 0; i < want.size(); i++)
    {
        CHECK_EQ(p.chunks[i].count, uint64_t(want[i].first), "points of chunk " << i);
        CHECK_EQ(p.chunks[i].offset, uint64_t(want[i].second.size()), "bytes of chunk " << i);
        checkBytes(Bytes(b.begin() + pos, b.begin() + pos + want[i].second.size()), want[i].second, "data of chunk " + std::to_string(i));
        pos += want[i].second.size();
    }
    copc::laz::LazReader r(&out);
    CHECK_EQ(r.LazConfig().LasHeader().PointCount(), total, "point count read");
}
// A file of several GiB: the offsets of what lies behind the chunks. The large chunks are never decoded.
void far4(Gen &g)
{
    Cfg c = cfg(g, 0);
    auto sizes = far::sizes(g);
    std::vector<char> zeros;
    zeros.resize(*std::max_element(sizes.begin(), sizes.end()), 0);
    far::Stream io;
    uint64_t total = 0, chunks = 0;
    {
        copc::laz::LazWriter w(io, lazConfig(c));
        while (!sizes.empty())
        {
            if (g.flag())
            {
                auto v = recs(g, c.fmt, c.ebBytes(), 1, 5);
                w.WritePoints(points(v, c.q, c.fmt, c.ebBytes()));
                total += v.size();
            }
            else
            {
                zeros.resize(sizes.back());
                sizes.pop_back();
                w.WritePointsCompressed(zeros, 7);
                total += 7;
            }
            chunks++;
        }
        std::vector<char>().swap(zeros);
        CHECK_EQ(w.PointCount(), total, "PointCount");
        CHECK_EQ(w.ChunkCount(), chunks, "ChunkCount");
        w.Close();
    }
    g.label(io.buf.size() >> 32 ? "over 4 GiB" : "over 2 GiB");
    g.nontrivial();
    auto head = io.buf.at(96, 4);
    uint64_t points = head[0] | head[1] << 8 | head[2] << 16 | uint32_t(head[3]) << 24, table = io.buf.u64(points);
    CHECK_EQ(io.buf.u64(247), total, "point count");
    CHECK(table < io.buf.size(), "chunk table at " << table << " in a file of " << io.buf.size());
    CHECK_EQ(io.buf.u64(table), chunks << 32, "version of the chunk table and number of chunks");
    uint64_t evlr = io.buf.u64(235);
    if (!c.wkt.empty())
    {
        CHECK_EQ(evlr + 60 + c.wkt.size(), io.buf.size(), "start of the EVLR");
        CHECK_EQ(text(io.buf.at(evlr + 60, c.wkt.size())), c.wkt, "WKT in the file");
    }
    copc::laz::LazReader r(&io);
    CHECK_EQ(r.LazConfig().LasHeader().PointCount(), total, "point count read");
    CHECK_EQ(r.LazConfig().Wkt(), c.wkt, "WKT read");
}
} // namespace

pbt::Property pbt::property()
{
    return {"C19",
            "at least two chunks",
            {{"sequence", 5000, sequence}, {"from COPC", 1000, fromCopc}, {"counts", 600, counts}, {"far", 4, far4}, {"many chunks", 3, manyChunks}},
            20000,
            500000};
}
