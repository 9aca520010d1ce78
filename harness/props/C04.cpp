// C04 All file metadata survives writing and reading
#include "../hist.hpp"
using namespace hist;

static void checkHeader(const copc::las::LasHeader &h, const Cfg &c, const spec::Parsed &p, uint64_t points, bool copc,
                        const std::string &what)
{
    CHECK_EQ(h.GUID(), c.guid, what << "GUID");
    CHECK_EQ(h.SystemIdentifier(), c.sysId, what << "system identifier");
    CHECK_EQ(h.GeneratingSoftware(), c.software, what << "generating software");
    CHECK_EQ(h.file_source_id, c.fileSource, what << "file source id");
    CHECK_EQ(h.global_encoding, uint16_t(c.globalEncoding | 0x10), what << "global encoding");
    CHECK_EQ(h.creation_day, c.day, what << "creation day");
    CHECK_EQ(h.creation_year, c.year, what << "creation year");
    CHECK_EQ(int(h.PointFormatId()), c.fmt, what << "point format");
    CHECK_EQ(int(h.PointRecordLength()), c.recordLength(), what << "record length");
    CHECK_EQ(int(h.EbByteSize()), c.ebBytes(), what << "extra bytes per record");
    CHECK_EQ(h.PointCount(), points, what << "point count");
    CHECK_EQ(uint64_t(h.PointOffset()), uint64_t(p.h.pointOffset), what << "point offset");
    CHECK_EQ(h.VlrCount(), uint32_t(p.vlrs.size()), what << "VLR count");
    CHECK_EQ(h.EvlrCount(), uint32_t(p.evlrs.size()), what << "EVLR count");
    CHECK_EQ(h.EvlrOffset(), p.h.evlrOffset, what << "EVLR offset");
    CHECK_EQ(h.IsCopc(), copc, what << "COPC flag");
    auto v3 = [&](const copc::Vector3 &a, const double *b, const char *n)
    { CHECK(sameBits(a.x, b[0]) && sameBits(a.y, b[1]) && sameBits(a.z, b[2]), what << n << " " << a); };
    v3(h.Scale(), c.q.scale, "scale");
    v3(h.Offset(), c.q.offset, "offset");
    v3(h.min, c.min, "min");
    v3(h.max, c.max, "max");
    for (int i = 0; i < 15; i++)
        CHECK_EQ(h.points_by_return[i], c.returns[i], what << "points of return " << i);
}
static void checkHeaderBytes(const spec::Header &h, const Cfg &c, uint64_t points)
{
    CHECK_EQ(spec::trimPadding(h.guid), c.guid, "GUID in the file");
    CHECK_EQ(spec::trimNul(h.systemId), c.sysId, "system identifier in the file");
    CHECK_EQ(spec::trimNul(h.software), c.software, "generating software in the file");
    CHECK_EQ(h.fileSource, c.fileSource, "file source id in the file");
    CHECK_EQ(h.globalEncoding, uint16_t(c.globalEncoding | 0x10), "global encoding in the file");
    CHECK_EQ(h.day, c.day, "creation day in the file");
    CHECK_EQ(h.year, c.year, "creation year in the file");
    CHECK(h.signature == "LASF" && h.major == 1 && h.minor == 4 && h.headerSize == 375, "version or header size in the file");
    CHECK_EQ(int(h.formatByte), c.fmt | 0x80, "format byte in the file");
    CHECK_EQ(int(h.recordLength), c.recordLength(), "record length in the file");
    CHECK_EQ(h.count, points, "point count in the file");
    for (int i = 0; i < 3; i++)
    {
        CHECK(sameBits(h.scale[i], c.q.scale[i]), "scale " << i << " in the file is " << h.scale[i]);
        CHECK(sameBits(h.offset[i], c.q.offset[i]), "offset " << i << " in the file is " << h.offset[i]);
        CHECK(sameBits(h.min[i], c.min[i]), "min " << i << " in the file is " << h.min[i]);
        CHECK(sameBits(h.max[i], c.max[i]), "max " << i << " in the file is " << h.max[i]);
    }
    for (int i = 0; i < 15; i++)
        CHECK_EQ(h.returns[i], c.returns[i], "points of return " << i << " in the file");
}
static void checkEb(const copc::las::EbVlr &eb, const std::vector<EbField> &want, const std::string &what)
{
    CHECK_EQ(eb.items.size(), want.size(), what << "extra-byte items");
    for (size_t i = 0; i < want.size(); i++)
        CHECK(diff(eb.items[i], want[i]).empty(), what << "extra-byte item " << i << ": " << diff(eb.items[i], want[i]));
}
static void checkCopc(const copc::CopcConfig &cfg, const Cfg &c, const spec::Parsed &p, uint64_t points, const std::string &what)
{
    checkHeader(cfg.LasHeader(), c, p, points, true, what);
    CHECK_EQ(cfg.Wkt(), c.wkt, what << "WKT");
    checkEb(cfg.ExtraBytesVlr(), c.eb, what);
    auto info = cfg.CopcInfo();
    CHECK(sameBits(info.center_x, c.info.cx) && sameBits(info.center_y, c.info.cy) && sameBits(info.center_z, c.info.cz) &&
              sameBits(info.halfsize, c.info.halfsize) && sameBits(info.spacing, c.info.spacing),
          what << "COPC info " << info);
    auto ex = cfg.CopcExtents();
    CHECK_EQ(ex.NumberOfExtents(), c.extents.size(), what << "number of extents");
    CHECK_EQ(ex.HasExtendedStats(), c.extended, what << "extended statistics");
    CHECK_EQ(int(ex.PointFormatId()), c.fmt, what << "format of the extents");
    for (size_t i = 0; i < c.extents.size(); i++)
    {
        auto &e = *ex.Extents()[i];
        auto &w = c.extents[i];
        CHECK(sameBits(e.minimum, w.min) && sameBits(e.maximum, w.max), what << "extent " << i << " is " << e);
        CHECK(sameBits(e.mean, c.extended ? w.mean : 0) && sameBits(e.var, c.extended ? w.var : 1),
              what << "statistics of extent " << i << " are " << e);
    }
}
// a configuration of the same shape (what the constructor fixes) with other metadata
static Cfg other(Gen &g, const Cfg &c)
{
    Cfg d = c;
    d.guid = guidText(g);
    d.sysId = g.text(32);
    d.software = g.text(32);
    d.fileSource = static_cast<uint16_t>(g.uintN(16));
    d.globalEncoding = static_cast<uint16_t>(g.uintN(16));
    d.day = static_cast<uint16_t>(g.uintN(16));
    d.year = static_cast<uint16_t>(g.uintN(16));
    bounds(g, d);
    for (auto &r : d.returns)
        r = g.uintN(64);
    d.info.cx = g.niceReal();
    d.info.cy = g.niceReal();
    d.info.cz = g.niceReal();
    d.info.halfsize = g.niceReal();
    d.info.spacing = g.niceReal();
    for (auto &e : d.extents)
    {
        double a = g.niceReal(), b = g.niceReal();
        e = Ext{std::min(a, b), std::max(a, b), g.niceReal(), std::fabs(g.niceReal())};
    }
    return d;
}
static const char *stages[] = {"before construction", "after construction", "between points", "before Close"};

static void copcFile(Gen &g)
{
    Model m;
    m.c = cfg(g, 1);
    const Cfg decoy = g.flag() ? other(g, m.c) : m.c;
    const size_t stage = g.below(4);
    const bool viaFile = g.below(8) == 7;
    g.note(m.c.str() + "; metadata set " + stages[stage] + "; ");
    g.label(stages[stage]);
    std::string path = tmpFile("c04");
    std::stringstream out;
    Opts o;
    o.maxOps = 8;
    o.maxPts = 5;
    {
        auto cw = writerConfig(stage == 0 && g.flag() ? m.c : decoy);
        if (stage == 0)
            apply(m.c, cw);
        std::unique_ptr<copc::Writer> w;
        if (viaFile)
            w = std::make_unique<copc::FileWriter>(path, cw);
        else
            w = std::make_unique<copc::Writer>(out, cw);
        if (stage == 1)
            apply(m.c, *w->CopcConfig());
        run(g, *w, m, o);
        if (stage == 2)
        {
            apply(m.c, *w->CopcConfig());
            for (int i = static_cast<int>(g.below(3)); i > 0; i--)
            {
                Key k = key(g, 6);
                if (!m.nodes.count(k))
                    add(g, *w, m, k, Key{0, 0, 0, 0}, recs(g, m.c.fmt, m.c.ebBytes(), 1, 4));
            }
        }
        if (stage == 3)
            apply(m.c, *w->CopcConfig());
        if (g.flag())
            w->Close();
    }
    Bytes b = viaFile ? ubytes(slurp(path)) : ubytes(out.str());
    if (viaFile)
        unlink(path.c_str());
    if (!m.nodes.empty() && (!m.c.eb.empty() || !m.c.wkt.empty()))
        g.nontrivial();
    auto p = spec::parse(b);
    // what the bytes say
    checkHeaderBytes(p.h, m.c, m.points());
    auto info = infoOf(p);
    CHECK(sameBits(info.cx, m.c.info.cx) && sameBits(info.cy, m.c.info.cy) && sameBits(info.cz, m.c.info.cz) &&
              sameBits(info.halfsize, m.c.info.halfsize) && sameBits(info.spacing, m.c.info.spacing),
          "COPC info in the file");
    CHECK(sameBits(info.gpsMin, m.c.extents[13].min) && sameBits(info.gpsMax, m.c.extents[13].max),
          "GPS time range in the file is " << info.gpsMin << ".." << info.gpsMax << ", the GPS time extent "
                                            << m.c.extents[13].min << ".." << m.c.extents[13].max);
    auto *ev = p.find("copc", 10000);
    CHECK(ev, "no extents record");
    Bytes we, wx;
    for (auto &e : m.c.extents)
    {
        spec::dbl(we, e.min);
        spec::dbl(we, e.max);
        spec::dbl(wx, e.mean);
        spec::dbl(wx, e.var);
    }
    checkBytes(ev->data, we, "extents record");
    if (m.c.extended)
    {
        auto *xv = p.find("rock_robotic", 10001);
        CHECK(xv, "no extended statistics record");
        checkBytes(xv->data, wx, "extended statistics record");
    }
    if (!m.c.eb.empty())
    {
        auto *v = p.find("LASF_Spec", 4);
        CHECK(v, "no extra-byte record");
        checkBytes(v->data, spec::encode(m.c.eb), "extra-byte record");
    }
    auto *wv = p.find("LASF_Projection", 2112);
    CHECK((wv != nullptr) == !m.c.wkt.empty() && (!wv || text(wv->data) == m.c.wkt), "WKT record");
    // what the reader says
    std::istringstream in(text(b));
    copc::Reader r(&in);
    checkCopc(r.CopcConfig(), m.c, p, m.points(), "read back: ");
    auto ri = r.CopcConfig().CopcInfo();
    CHECK_EQ(ri.root_hier_offset, info.rootOffset, "root page offset");
    CHECK_EQ(ri.root_hier_size, info.rootSize, "root page size");
    if (g.flag()) // still the same after the reader has been used
    {
        r.GetAllPoints();
        r.GetPageList();
        checkCopc(r.CopcConfig(), m.c, p, m.points(), "after queries: ");
    }
    // a second generation: the configuration that was read is the configuration of a new file
    if (g.below(3) == 0)
    {
        g.label("second generation");
        std::stringstream out2;
        {
            copc::Writer w(out2, r.CopcConfig());
            checkCopc(*w.CopcConfig(), m.c, p, m.points(), "configuration of the copy: ");
            for (auto &n : r.GetAllNodes())
                w.AddNodeCompressed(n.key, r.GetPointDataCompressed(n), n.point_count, n.page_key);
        }
        Bytes b2 = ubytes(out2.str());
        copc::Reader r2(&out2);
        checkCopc(r2.CopcConfig(), m.c, spec::parse(b2), m.points(), "second generation: ");
    }
    if (g.below(4) == 0) // the same file as LAZ
    {
        std::istringstream in2(text(b));
        copc::laz::LazReader lr(&in2);
        checkHeader(lr.LazConfig().LasHeader(), m.c, p, m.points(), true, "as LAZ: ");
        CHECK_EQ(lr.LazConfig().Wkt(), m.c.wkt, "as LAZ: WKT");
        checkEb(lr.LazConfig().ExtraBytesVlr(), m.c.eb, "as LAZ: ");
    }
}

static void lazFile(Gen &g)
{
    Cfg c = cfg(g, 1);
    const Cfg decoy = g.flag() ? other(g, c) : c;
    const size_t stage = g.below(4);
    const bool viaFile = g.below(8) == 7;
    g.note("LAZ " + c.str() + "; metadata set " + stages[stage]);
    g.label(std::string("LAZ ") + stages[stage]);
    std::string path = tmpFile("c04l");
    std::stringstream out;
    uint64_t points = 0;
    {
        copc::las::LazConfigWriter lc(static_cast<int8_t>(c.fmt), c.q.s(), c.q.o(), c.wkt, toCopc(c.eb));
        applyHeader(decoy, *lc.LasHeader());
        if (stage == 0)
            applyHeader(c, *lc.LasHeader());
        std::unique_ptr<copc::laz::LazFileWriter> fw;
        std::unique_ptr<copc::laz::LazWriter> sw;
        if (viaFile)
            fw = std::make_unique<copc::laz::LazFileWriter>(path, lc);
        else
            sw = std::make_unique<copc::laz::LazWriter>(out, lc);
        copc::laz::LazWriter &w = viaFile ? *fw : *sw;
        auto put = [&]()
        {
            for (size_t n = g.size(4); n > 0; n--)
            {
                auto v = recs(g, c.fmt, c.ebBytes(), 1, 5);
                if (g.flag())
                    w.WritePoints(gen::points(v, c.q, c.fmt, c.ebBytes()));
                else
                    w.WritePointsCompressed(chars(spec::compress(spec::encode(v, c.fmt), c.fmt, c.ebBytes())),
                                            static_cast<int32_t>(v.size()));
                points += v.size();
            }
        };
        if (stage == 1)
            applyHeader(c, *w.LazConfig()->LasHeader());
        put();
        if (stage == 2)
        {
            applyHeader(c, *w.LazConfig()->LasHeader());
            put();
        }
        if (stage == 3)
            applyHeader(c, *w.LazConfig()->LasHeader());
        if (g.flag())
            viaFile ? fw->Close() : w.Close();
    }
    Bytes b = viaFile ? ubytes(slurp(path)) : ubytes(out.str());
    if (viaFile)
        unlink(path.c_str());
    if (points && (!c.eb.empty() || !c.wkt.empty()))
        g.nontrivial();
    auto p = spec::parse(b);
    checkHeaderBytes(p.h, c, points);
    if (!c.eb.empty())
    {
        auto *v = p.find("LASF_Spec", 4);
        CHECK(v, "no extra-byte record");
        checkBytes(v->data, spec::encode(c.eb), "extra-byte record");
    }
    auto *wv = p.find("LASF_Projection", 2112);
    CHECK((wv != nullptr) == !c.wkt.empty() && (!wv || text(wv->data) == c.wkt), "WKT record");
    std::istringstream in(text(b));
    copc::laz::LazReader r(&in);
    // the header of a file that is not COPC says so or not: the reader's view is not part of this property
    bool flag = r.LazConfig().LasHeader().IsCopc();
    checkHeader(r.LazConfig().LasHeader(), c, p, points, flag, "read back: ");
    CHECK_EQ(r.LazConfig().Wkt(), c.wkt, "read back: WKT");
    checkEb(r.LazConfig().ExtraBytesVlr(), c.eb, "read back: ");
    if (g.below(3) == 0)
    {
        std::stringstream out2;
        {
            copc::laz::LazWriter w(out2, copc::las::LazConfigWriter(r.LazConfig()));
            if (points)
                w.WritePoints(r.GetPoints());
        }
        Bytes b2 = ubytes(out2.str());
        checkHeaderBytes(spec::parse(b2).h, c, points);
        copc::laz::LazReader r2(&out2);
        checkHeader(r2.LazConfig().LasHeader(), c, spec::parse(b2), points, flag, "second generation: ");
        CHECK_EQ(r2.LazConfig().Wkt(), c.wkt, "second generation: WKT");
        checkEb(r2.LazConfig().ExtraBytesVlr(), c.eb, "second generation: ");
    }
}

pbt::Property pbt::property()
{
    return {"C04",
            "a file with points and with extra bytes or a WKT",
            {{"copc", 4, copcFile}, {"laz", 2, lazFile}},
            100000,
            1000000};
}
