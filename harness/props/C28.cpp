// C28 Header helpers: bounds, scaling, text limits and the conversion to and from the 375-byte binary header
#include "../gen.hpp"
using namespace gen;
using copc::las::LasHeader;

static copc::las::LasHeader make(const Cfg &c, bool copcFlag)
{
    copc::las::LasHeader h(static_cast<int8_t>(c.fmt), static_cast<uint16_t>(c.recordLength()), c.q.s(), c.q.o(), copcFlag);
    applyHeader(c, h);
    return h;
}
static std::string same(const LasHeader &h, const Cfg &c, uint16_t encoding)
{
    std::ostringstream e;
    if (h.GUID() != c.guid)
        e << "GUID '" << h.GUID() << "' (" << h.GUID().size() << " chars) want '" << c.guid << "'; ";
    if (h.SystemIdentifier() != c.sysId)
        e << "system identifier '" << h.SystemIdentifier() << "' want '" << c.sysId << "'; ";
    if (h.GeneratingSoftware() != c.software)
        e << "generating software '" << h.GeneratingSoftware() << "' want '" << c.software << "'; ";
    if (h.file_source_id != c.fileSource)
        e << "file source; ";
    if (h.global_encoding != encoding)
        e << "global encoding " << h.global_encoding << " want " << encoding << "; ";
    if (h.creation_day != c.day || h.creation_year != c.year)
        e << "creation date; ";
    double mn[3] = {h.min.x, h.min.y, h.min.z}, mx[3] = {h.max.x, h.max.y, h.max.z};
    double sc[3] = {h.Scale().x, h.Scale().y, h.Scale().z}, of[3] = {h.Offset().x, h.Offset().y, h.Offset().z};
    for (int i = 0; i < 3; i++)
    {
        if (!sameBits(mn[i], c.min[i]) || !sameBits(mx[i], c.max[i]))
            e << "bounds of axis " << i << "; ";
        if (!sameBits(sc[i], c.q.scale[i]) || !sameBits(of[i], c.q.offset[i]))
            e << "scale or offset of axis " << i << "; ";
    }
    for (int i = 0; i < 15; i++)
        if (h.points_by_return[i] != c.returns[i])
            e << "points of return " << i << "; ";
    if (h.PointFormatId() != c.fmt)
        e << "format; ";
    if (h.PointRecordLength() != c.recordLength())
        e << "record length; ";
    if (h.EbByteSize() != c.ebBytes())
        e << "extra bytes; ";
    return e.str();
}

static void binary(Gen &g)
{
    Cfg c = cfg(g, 1);
    bool copcFlag = g.flag(), eb = g.flag(), ext = copcFlag && g.flag();
    LasHeader h = make(c, copcFlag);
    auto d0 = same(h, c, c.globalEncoding);
    CHECK(d0.empty(), "header just filled in: " << d0);
    uint32_t off = static_cast<uint32_t>(g.uintN(32)), nevlr = static_cast<uint32_t>(g.uintN(32));
    uint64_t count = g.uintN(64), eoff = g.uintN(64);
    auto l = h.ToLazPerf(off, count, eoff, nevlr, eb, ext);
    std::stringstream ss;
    l.write(ss);
    Bytes b = ubytes(ss.str());
    CHECK_EQ(b.size(), size_t(375), "size of the binary header");
    spec::Header s = spec::Header::decode(b);
    CHECK(s.signature == "LASF" && s.major == 1 && s.minor == 4 && s.headerSize == 375, "signature, version or size");
    CHECK_EQ(s.fileSource, c.fileSource, "file source");
    CHECK_EQ(int(s.globalEncoding), int(c.globalEncoding | 0x10), "global encoding");
    auto padded = [](const std::string &t, size_t n) { return t + std::string(n - t.size(), '\0'); };
    CHECK(s.guid == padded(c.guid, 16), "GUID bytes");
    CHECK(s.systemId == padded(c.sysId, 32), "system identifier bytes");
    CHECK(s.software == padded(c.software, 32), "generating software bytes");
    CHECK(s.day == c.day && s.year == c.year, "creation date");
    CHECK_EQ(s.pointOffset, off, "offset to point data");
    CHECK_EQ(s.vlrCount, uint32_t(1 + eb + (copcFlag ? 2 : 0) + ext), "number of VLRs");
    CHECK_EQ(int(s.formatByte), c.fmt | 0x80, "format byte");
    CHECK_EQ(int(s.recordLength), c.recordLength(), "record length");
    CHECK_EQ(uint64_t(s.legacyCount), count > 0xFFFFFFFFull ? 0 : count, "legacy point count of " << count);
    for (int i = 0; i < 5; i++)
        CHECK_EQ(s.legacyReturns[i], 0u, "legacy points by return");
    for (int i = 0; i < 3; i++)
        CHECK(sameBits(s.scale[i], c.q.scale[i]) && sameBits(s.offset[i], c.q.offset[i]) && sameBits(s.min[i], c.min[i]) &&
                  sameBits(s.max[i], c.max[i]),
              "scale, offset or bounds of axis " << i);
    CHECK_EQ(s.evlrOffset, eoff, "EVLR offset");
    CHECK_EQ(s.evlrCount, nevlr, "EVLR count");
    CHECK_EQ(s.count, count, "point count");
    for (int i = 0; i < 15; i++)
        CHECK_EQ(s.returns[i], c.returns[i], "points of return " << i);
    // and back: the file stores the format with the compression bit, which readers strip
    ss.seekg(0);
    auto l2 = lazperf::header14::create(ss);
    l2.point_format_id &= 0x3F;
    LasHeader r = LasHeader::FromLazPerf(l2);
    auto d = same(r, c, c.globalEncoding | 0x10);
    CHECK(d.empty(), "header read back: " << d);
    CHECK_EQ(r.PointCount(), count, "point count read back");
    CHECK_EQ(r.PointOffset(), off, "point offset read back");
    CHECK_EQ(r.VlrCount(), s.vlrCount, "VLR count read back");
    CHECK_EQ(r.EvlrCount(), nevlr, "EVLR count read back");
    CHECK_EQ(r.EvlrOffset(), eoff, "EVLR offset read back");
    if (!copcFlag)
        CHECK_THROWS(h.ToLazPerf(off, count, eoff, nevlr, eb, true), "extended statistics in a non-COPC header");
    // copies
    LasHeader cp(h, !copcFlag);
    CHECK_EQ(cp.IsCopc(), !copcFlag, "copc flag of a converted copy");
    CHECK_EQ(h.IsCopc(), copcFlag, "copc flag");
    auto d2 = same(cp, c, c.globalEncoding);
    CHECK(d2.empty(), "copied header: " << d2);
    Cfg o = c;
    o.fmt = static_cast<int>(g.range(6, 8));
    o.q = quant(g);
    o.eb = ebFields(g);
    LasHeader cv(h, static_cast<int8_t>(o.fmt), static_cast<uint16_t>(o.recordLength()), o.q.s(), o.q.o());
    auto d3 = same(cv, o, o.globalEncoding);
    CHECK(d3.empty(), "header copied with another format and scale: " << d3);
    CHECK(same(h, c, c.globalEncoding).empty(), "original changed by copying");
    // gps bit
    h.SetGpsTimeBit();
    CHECK_EQ(int(h.global_encoding), int(c.globalEncoding | 1), "global encoding with the GPS time bit");
    if (c.guid.size() == 16 || c.sysId.size() == 32 || c.software.size() == 32)
        g.label("full-width text field");
    if (!c.guid.empty() || c.fileSource || c.returns[0])
        g.nontrivial();
    g.note(c.str());
    // refused headers
    auto bad = l2;
    switch (g.below(5))
    {
    case 0:
        bad.global_encoding &= static_cast<uint16_t>(~0x10);
        break;
    case 1:
        bad.version.minor = static_cast<uint8_t>(g.pick({0, 1, 2, 3, 5, 255}));
        break;
    case 2:
        bad.version.major = static_cast<uint8_t>(g.pick({0, 2, 255}));
        break;
    case 3:
        bad.header_size = static_cast<uint16_t>(g.pick({0, 227, 235, 374, 376, 65535}));
        break;
    default:
        bad.point_format_id = static_cast<uint8_t>(g.pick({0, 1, 2, 3, 4, 5, 9, 10, 11, 63, 128, 255}));
    }
    CHECK_THROWS(LasHeader::FromLazPerf(bad), "a header that is not LAS 1.4, format 6-8, 375 bytes, WKT");
}

static void bounds2(Gen &g)
{
    LasHeader h;
    double mn[3], mx[3];
    for (int i = 0; i < 3; i++)
    {
        double a = g.niceReal(), b = g.niceReal();
        mn[i] = std::min(a, b);
        mx[i] = std::max(a, b);
    }
    bool empty = g.below(4) == 3; // the usual "nothing seen yet" start
    if (empty)
        for (int i = 0; i < 3; i++)
            mn[i] = std::numeric_limits<double>::max(), mx[i] = std::numeric_limits<double>::lowest();
    h.min = copc::Vector3(mn[0], mn[1], mn[2]);
    h.max = copc::Vector3(mx[0], mx[1], mx[2]);
    size_t n = g.size(12);
    int fmt = static_cast<int>(g.range(6, 8));
    bool grew = false;
    for (size_t k = 0; k < n; k++)
    {
        copc::las::Point p(static_cast<int8_t>(fmt));
        double v[3];
        for (int i = 0; i < 3; i++)
        {
            switch (g.below(4))
            {
            case 0:
                v[i] = g.niceReal();
                break;
            case 1:
                v[i] = std::nextafter(mn[i], -1e308);
                break;
            case 2:
                v[i] = std::nextafter(mx[i], 1e308);
                break;
            default:
                v[i] = g.flag() ? mn[i] : mx[i];
            }
        }
        p.X(v[0]);
        p.Y(v[1]);
        p.Z(v[2]);
        h.CheckAndUpdateBounds(p);
        for (int i = 0; i < 3; i++)
        {
            grew |= v[i] < mn[i] || v[i] > mx[i];
            mn[i] = std::min(mn[i], v[i]);
            mx[i] = std::max(mx[i], v[i]);
        }
        CHECK(h.min.x == mn[0] && h.min.y == mn[1] && h.min.z == mn[2], "minimum after point " << k << ": " << h.min);
        CHECK(h.max.x == mx[0] && h.max.y == mx[1] && h.max.z == mx[2], "maximum after point " << k << ": " << h.max);
    }
    if (n >= 2 && grew)
        g.nontrivial();
    g.note(std::to_string(n) + " points");
    if (empty && n == 0)
        return;
    CHECK_EQ(h.Span(), std::max({mx[0] - mn[0], mx[1] - mn[1], mx[2] - mn[2]}), "span");
    auto b = h.Bounds();
    CHECK(b.x_min == mn[0] && b.y_min == mn[1] && b.z_min == mn[2] && b.x_max == mx[0] && b.y_max == mx[1] && b.z_max == mx[2],
          "bounds " << b);
}

static void scaling(Gen &g)
{
    Quant q = quant(g);
    LasHeader h(6, 30, q.s(), q.o(), true);
    int32_t raw[3];
    for (auto &r : raw)
        r = static_cast<int32_t>(g.intN(32));
    g.note(q.str() + " raw " + std::to_string(raw[0]) + "," + std::to_string(raw[1]) + "," + std::to_string(raw[2]));
    double ap[3] = {h.ApplyScaleX(raw[0]), h.ApplyScaleY(raw[1]), h.ApplyScaleZ(raw[2])};
    auto av = h.ApplyScale(copc::Vector3(raw[0], raw[1], raw[2]));
    double avv[3] = {av.x, av.y, av.z};
    for (int i = 0; i < 3; i++)
    {
        CHECK(std::fabs(ap[i] - q.value(i, raw[i])) <= q.tol(i, raw[i]), "ApplyScale of axis " << i << ": " << ap[i]);
        CHECK(std::fabs(avv[i] - q.value(i, raw[i])) <= q.tol(i, raw[i]), "ApplyScale(vector) of axis " << i << ": " << avv[i]);
    }
    CHECK_EQ(h.RemoveScaleX(ap[0]), raw[0], "RemoveScaleX(ApplyScaleX)");
    CHECK_EQ(h.RemoveScaleY(ap[1]), raw[1], "RemoveScaleY(ApplyScaleY)");
    CHECK_EQ(h.RemoveScaleZ(ap[2]), raw[2], "RemoveScaleZ(ApplyScaleZ)");
    // the inverse of ApplyScale on vectors
    auto inv = h.ApplyInverseScale(av);
    double iv[3] = {inv.x, inv.y, inv.z};
    for (int i = 0; i < 3; i++)
    {
        double tol = 16 * std::numeric_limits<double>::epsilon() *
                     (std::fabs(double(raw[i])) + std::fabs(q.offset[i] / q.scale[i]) + 1);
        CHECK(std::fabs(iv[i] - raw[i]) <= tol, "ApplyInverseScale(ApplyScale) of axis " << i << ": got " << iv[i] << ", expected " << raw[i]);
    }
    if (raw[0] && q.offset[0] != 0)
        g.nontrivial();
    // values that no 32-bit integer represents are refused, not wrapped
    int axis = static_cast<int>(g.below(3));
    double v;
    switch (g.below(4))
    {
    case 0:
        v = std::numeric_limits<double>::quiet_NaN();
        break;
    case 1:
        v = g.flag() ? std::numeric_limits<double>::infinity() : -std::numeric_limits<double>::infinity();
        break;
    case 2:
        v = q.offset[axis] + q.scale[axis] * (2147483648.0 + 16 + std::fabs(g.niceReal()));
        break;
    default:
        v = q.offset[axis] - q.scale[axis] * (2147483649.0 + 16 + std::fabs(g.niceReal()));
    }
    if (axis == 0)
        CHECK_THROWS(h.RemoveScaleX(v), "RemoveScaleX(" << v << ")");
    if (axis == 1)
        CHECK_THROWS(h.RemoveScaleY(v), "RemoveScaleY(" << v << ")");
    if (axis == 2)
        CHECK_THROWS(h.RemoveScaleZ(v), "RemoveScaleZ(" << v << ")");
}

static void texts(Gen &g)
{
    LasHeader h;
    size_t n = g.below(40);
    std::string t(n, 'a'), keep = "keep";
    for (auto &ch : t)
        ch = static_cast<char>('a' + g.below(26));
    h.GUID(keep);
    h.SystemIdentifier(keep);
    h.GeneratingSoftware(keep);
    if (n > 16)
        CHECK_THROWS(h.GUID(t), "GUID of " << n << " characters");
    else
        h.GUID(t);
    CHECK_EQ(h.GUID(), n > 16 ? keep : t, "GUID");
    if (n > 32)
    {
        CHECK_THROWS(h.SystemIdentifier(t), "system identifier of " << n << " characters");
        CHECK_THROWS(h.GeneratingSoftware(t), "generating software of " << n << " characters");
    }
    else
    {
        h.SystemIdentifier(t);
        h.GeneratingSoftware(t);
    }
    CHECK_EQ(h.SystemIdentifier(), n > 32 ? keep : t, "system identifier");
    CHECK_EQ(h.GeneratingSoftware(), n > 32 ? keep : t, "generating software");
    if (n >= 15)
        g.nontrivial();
}

pbt::Property pbt::property()
{
    return {"C28",
            "a header with at least one non-default text or counter, a bounds update that grows the box, a scaling with an offset",
            {{"binary", 4, binary}, {"bounds", 3, bounds2}, {"scaling", 3, scaling}, {"text", 1, texts}},
            1200000,
            7200000};
}
