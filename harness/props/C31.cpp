// C31 A file whose writing was interrupted is never taken for a complete one
#include "../faulty.hpp"
#include "../hist.hpp"
using namespace hist;
using faulty::Sink;

namespace
{
struct Want // what the complete file holds
{
    Model m;
    bool copc{true};
    std::vector<Rec> all; // LAZ: the points in order
};
void checkMeta(const copc::las::LasHeader &h, const Cfg &c, const std::string &wkt, const copc::las::EbVlr &eb, uint64_t points,
               const std::string &what)
{
    CHECK_EQ(h.PointCount(), points, what << "point count");
    CHECK_EQ(int(h.PointFormatId()), c.fmt, what << "point format");
    CHECK_EQ(int(h.PointRecordLength()), c.recordLength(), what << "record length");
    CHECK_EQ(h.GUID(), c.guid, what << "GUID");
    CHECK_EQ(h.SystemIdentifier(), c.sysId, what << "system identifier");
    CHECK_EQ(h.GeneratingSoftware(), c.software, what << "generating software");
    CHECK(sameBits(h.min.x, c.min[0]) && sameBits(h.min.y, c.min[1]) && sameBits(h.min.z, c.min[2]), what << "min");
    CHECK(sameBits(h.max.x, c.max[0]) && sameBits(h.max.y, c.max[1]) && sameBits(h.max.z, c.max[2]), what << "max");
    for (int i = 0; i < 15; i++)
        CHECK_EQ(h.points_by_return[i], c.returns[i], what << "points of return " << i);
    CHECK_EQ(wkt, c.wkt, what << "WKT");
    CHECK_EQ(eb.items.size(), c.eb.size(), what << "extra-byte items");
    for (size_t i = 0; i < c.eb.size(); i++)
        CHECK(diff(eb.items[i], c.eb[i]).empty(), what << "extra-byte item " << i << ": " << diff(eb.items[i], c.eb[i]));
}
// If the reader takes these bytes for a COPC file, everything must be there
bool openCopc(const std::string &b, const Want &w, const std::string &what)
{
    std::istringstream in(b);
    std::unique_ptr<copc::Reader> r;
    try
    {
        r = std::make_unique<copc::Reader>(&in);
    }
    catch (const std::exception &)
    {
        return false;
    }
    const Cfg &c = w.m.c;
    auto cfg = r->CopcConfig();
    checkMeta(cfg.LasHeader(), c, cfg.Wkt(), cfg.ExtraBytesVlr(), w.m.points(), what);
    auto i = cfg.CopcInfo();
    CHECK(sameBits(i.center_x, c.info.cx) && sameBits(i.center_y, c.info.cy) && sameBits(i.center_z, c.info.cz) &&
              sameBits(i.halfsize, c.info.halfsize) && sameBits(i.spacing, c.info.spacing),
          what << "COPC info");
    auto ex = cfg.CopcExtents();
    CHECK_EQ(ex.NumberOfExtents(), c.extents.size(), what << "extents");
    CHECK_EQ(ex.HasExtendedStats(), c.extended, what << "extended statistics");
    for (size_t k = 0; k < c.extents.size(); k++)
    {
        auto &e = *ex.Extents()[k];
        CHECK(sameBits(e.minimum, c.extents[k].min) && sameBits(e.maximum, c.extents[k].max), what << "extent " << k);
        CHECK(sameBits(e.mean, c.extended ? c.extents[k].mean : 0) && sameBits(e.var, c.extended ? c.extents[k].var : 1), what << "statistics of extent " << k);
    }
    std::vector<copc::Node> nodes;
    try
    {
        nodes = r->GetAllNodes();
    }
    catch (const std::exception &x)
    {
        CHECK(false, what << "opened, but its hierarchy cannot be read: " << x.what());
    }
    CHECK_EQ(nodes.size(), w.m.nodes.size(), what << "nodes");
    for (auto &e : w.m.nodes)
        try
        {
            checkPoints(r->GetPoints(vk(e.first)), e.second.recs, c.q, c.fmt, c.ebBytes(), what + "points of " + e.first.s());
        }
        catch (const std::exception &x)
        {
            CHECK(false, what << "opened, but the points of " << e.first.s() << " cannot be read: " << x.what());
        }
    return true;
}
bool openLaz(const std::string &b, const Want &w, const std::string &what)
{
    std::istringstream in(b);
    std::unique_ptr<copc::laz::LazReader> r;
    try
    {
        r = std::make_unique<copc::laz::LazReader>(&in);
    }
    catch (const std::exception &)
    {
        return false;
    }
    auto cfg = r->LazConfig();
    checkMeta(cfg.LasHeader(), w.m.c, cfg.Wkt(), cfg.ExtraBytesVlr(), w.copc ? w.m.points() : w.all.size(), what);
    std::vector<char> data;
    try
    {
        data = r->GetPointData();
    }
    catch (const std::exception &x)
    {
        CHECK(false, what << "opened, but its points cannot be read: " << x.what());
    }
    std::vector<Rec> want = w.all;
    if (w.copc)
        for (auto &k : w.m.order)
            want.insert(want.end(), w.m.nodes.at(k).recs.begin(), w.m.nodes.at(k).recs.end());
    checkBytes(ubytes(data), spec::encode(want, w.m.c.fmt), what + "points");
    return true;
}

void writeLaz(Gen &g, std::ostream &out, Want &w)
{
    const Cfg &c = w.m.c;
    copc::las::LazConfigWriter lc(static_cast<int8_t>(c.fmt), c.q.s(), c.q.o(), c.wkt, toCopc(c.eb));
    applyHeader(c, *lc.LasHeader());
    copc::laz::LazWriter lw(out, lc);
    for (size_t n = g.size(6); n > 0; n--)
    {
        auto v = recs(g, c.fmt, c.ebBytes(), 1, 8);
        if (g.flag())
            lw.WritePoints(points(v, c.q, c.fmt, c.ebBytes()));
        else
            lw.WritePointsCompressed(chars(spec::compress(spec::encode(v, c.fmt), c.fmt, c.ebBytes())), static_cast<int32_t>(v.size()));
        w.all.insert(w.all.end(), v.begin(), v.end());
    }
}

void prefixes(Gen &g)
{
    Want w;
    w.m.c = cfg(g, 1);
    w.copc = g.below(3) != 0;
    Sink s;
    s.record = true;
    std::ostream out(&s);
    if (w.copc)
    {
        copc::Writer cw(out, writerConfig(w.m.c));
        Opts o;
        o.maxOps = 8;
        o.maxPts = 8;
        run(g, cw, w.m, o);
    }
    else
        writeLaz(g, out, w);
    const size_t n = s.ops.size();
    g.note("; " + std::string(w.copc ? "COPC, " : "LAZ, ") + std::to_string(n) + " writes, " + std::to_string(s.bytes.size()) + " bytes; " + w.m.c.str());
    if (w.copc ? w.m.nodes.size() >= 1 : w.all.size() >= 1)
        g.nontrivial();
    // the interesting ones are at the end (tables, hierarchy, header); the rest is sampled
    std::set<size_t> at;
    for (size_t i = 0; i < std::min<size_t>(n, 24); i++)
        at.insert(n - 1 - i);
    for (int i = 0; i < 8; i++)
        at.insert(g.below(n));
    std::string b;
    size_t opened = 0;
    for (size_t i = 0; i < n; i++)
    {
        auto put = [](std::string &f, const Sink::Op &op, size_t len)
        {
            if (len == 0)
                return;
            if (op.pos + len > f.size())
                f.resize(op.pos + len, 0);
            std::memcpy(&f[op.pos], op.data.data(), len);
        };
        if (at.count(i))
        {
            // before the i-th write, and with a part of it
            const size_t cuts[2] = {0, g.below(s.ops[i].data.size())};
            for (int k = 0; k < 2; k++)
            {
                if (k == 1 && i + 1 == n) // the last write is what makes the file complete
                    continue;
                std::string f = b;
                put(f, s.ops[i], cuts[k]);
                if (f == s.bytes)
                    continue;
                std::ostringstream what;
                what << "interrupted at write " << i << " of " << n << " (at " << s.ops[i].pos << ", " << cuts[k] << " of "
                     << s.ops[i].data.size() << " bytes): ";
                if (w.copc)
                    opened += openCopc(f, w, what.str());
                opened += openLaz(f, w, what.str() + "as LAZ: ");
            }
        }
        put(b, s.ops[i], s.ops[i].data.size());
    }
    CHECK(b == s.bytes, "the log does not explain the file (harness)");
    if (opened)
        g.label("opened, and complete");
    CHECK(!w.copc || openCopc(b, w, "complete file: "), "the complete file is refused");
    CHECK(openLaz(b, w, "complete file as LAZ: "), "the complete file is refused as LAZ");
}

// What is on disk at any moment before the file writer is closed
void onDisk(Gen &g)
{
    Want w;
    w.m.c = cfg(g, 1);
    w.copc = g.flag();
    const std::string path = tmpFile("c31");
    g.note(std::string(w.copc ? "COPC" : "LAZ") + " file on disk; ");
    auto snapshot = [&](const char *when)
    {
        std::string f = slurp(path);
        std::string what = std::string("the file on disk ") + when + " ";
        // no points, no metadata can be there yet: nothing may be opened
        bool c = false, l = false;
        try
        {
            std::istringstream in(f);
            copc::Reader r(&in);
            c = true;
        }
        catch (const std::exception &)
        {
        }
        try
        {
            std::istringstream in(f);
            copc::laz::LazReader r(&in);
            l = true;
        }
        catch (const std::exception &)
        {
        }
        CHECK(!c && !l, what << "is taken for a complete file");
    };
    size_t n = g.size(8);
    if (n)
        g.nontrivial();
    if (w.copc)
    {
        copc::FileWriter cw(path, writerConfig(w.m.c));
        snapshot("after construction");
        for (auto &k : tree(g, 0, n, 6))
        {
            add(g, cw, w.m, k, pageFor(g, k, {}), recs(g, w.m.c.fmt, w.m.c.ebBytes(), 1, g.below(6) == 5 ? 400 : 10));
            if (g.flag())
                snapshot("between points");
        }
        snapshot("before Close");
        cw.Close();
    }
    else
    {
        const Cfg &c = w.m.c;
        copc::las::LazConfigWriter lc(static_cast<int8_t>(c.fmt), c.q.s(), c.q.o(), c.wkt, toCopc(c.eb));
        applyHeader(c, *lc.LasHeader());
        copc::laz::LazFileWriter lw(path, lc);
        snapshot("after construction");
        for (; n > 0; n--)
        {
            auto v = recs(g, c.fmt, c.ebBytes(), 1, g.below(6) == 5 ? 400 : 10);
            lw.WritePoints(points(v, c.q, c.fmt, c.ebBytes()));
            w.all.insert(w.all.end(), v.begin(), v.end());
            if (g.flag())
                snapshot("between points");
        }
        snapshot("before Close");
        lw.Close();
    }
    std::string b = slurp(path);
    unlink(path.c_str());
    CHECK(!w.copc || openCopc(b, w, "complete file: "), "the complete file is refused");
    CHECK(openLaz(b, w, "complete file as LAZ: "), "the complete file is refused as LAZ");
}
} // namespace

pbt::Property pbt::property()
{
    return {"C31",
            "a file with at least one point",
            {{"prefixes", 4, prefixes}, {"on disk", 1, onDisk}},
            25000,
            600000};
}
