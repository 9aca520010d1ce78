// C18 Extents: every dimension keeps its own slot through accessors, conversions, copies and the VLR mapping
#include "../gen.hpp"
using namespace gen;
using copc::CopcExtent;
using copc::CopcExtents;
typedef std::shared_ptr<CopcExtent> E;

static E slot(CopcExtents &e, int i, int fmt)
{
    switch (i)
    {
    case 0:
        return e.X();
    case 1:
        return e.Y();
    case 2:
        return e.Z();
    case 3:
        return e.Intensity();
    case 4:
        return e.ReturnNumber();
    case 5:
        return e.NumberOfReturns();
    case 6:
        return e.ScannerChannel();
    case 7:
        return e.ScanDirectionFlag();
    case 8:
        return e.EdgeOfFlightLine();
    case 9:
        return e.Classification();
    case 10:
        return e.UserData();
    case 11:
        return e.ScanAngle();
    case 12:
        return e.PointSourceId();
    case 13:
        return e.GpsTime();
    }
    if (fmt >= 7 && i == 14)
        return e.Red();
    if (fmt >= 7 && i == 15)
        return e.Green();
    if (fmt >= 7 && i == 16)
        return e.Blue();
    if (fmt == 8 && i == 17)
        return e.Nir();
    return e.ExtraBytes().at(i - spec::baseDims(fmt));
}
static void setSlot(CopcExtents &e, int i, int fmt, const E &v)
{
    switch (i)
    {
    case 0:
        return e.X(v);
    case 1:
        return e.Y(v);
    case 2:
        return e.Z(v);
    case 3:
        return e.Intensity(v);
    case 4:
        return e.ReturnNumber(v);
    case 5:
        return e.NumberOfReturns(v);
    case 6:
        return e.ScannerChannel(v);
    case 7:
        return e.ScanDirectionFlag(v);
    case 8:
        return e.EdgeOfFlightLine(v);
    case 9:
        return e.Classification(v);
    case 10:
        return e.UserData(v);
    case 11:
        return e.ScanAngle(v);
    case 12:
        return e.PointSourceId(v);
    case 13:
        return e.GpsTime(v);
    }
    if (fmt >= 7 && i == 14)
        return e.Red(v);
    if (fmt >= 7 && i == 15)
        return e.Green(v);
    if (fmt >= 7 && i == 16)
        return e.Blue(v);
    if (fmt == 8 && i == 17)
        return e.Nir(v);
    auto all = e.ExtraBytes();
    all.at(i - spec::baseDims(fmt)) = v;
    e.ExtraBytes(all);
}
static Ext ext(Gen &g)
{
    Ext e;
    double a = g.finiteReal(), b = g.finiteReal();
    e.min = std::min(a, b);
    e.max = std::max(a, b);
    e.mean = g.finiteReal();
    e.var = std::fabs(g.finiteReal());
    return e;
}
static bool eq(const CopcExtent &a, const Ext &b)
{
    return a.minimum == b.min && a.maximum == b.max && a.mean == b.mean && a.var == b.var;
}
static void check(CopcExtents &e, const std::vector<Ext> &m, int fmt, bool ext, const std::string &what)
{
    CHECK_EQ(e.NumberOfExtents(), m.size(), what << ": number of extents");
    CHECK_EQ(int(e.PointFormatId()), fmt, what << ": format");
    CHECK_EQ(e.HasExtendedStats(), ext, what << ": extended flag");
    auto shared = e.Extents();
    const CopcExtents &ce = e;
    auto values = ce.Extents();
    CHECK_EQ(shared.size(), m.size(), what << ": Extents()");
    CHECK_EQ(values.size(), m.size(), what << ": const Extents()");
    CHECK_EQ(e.ExtraBytes().size(), m.size() - spec::baseDims(fmt), what << ": extra-byte extents");
    for (size_t i = 0; i < m.size(); i++)
    {
        E s = slot(e, static_cast<int>(i), fmt);
        CHECK(eq(*s, m[i]), what << ": dimension " << i << " is " << *s << ", expected (" << m[i].min << "/" << m[i].max << "/"
                                 << m[i].mean << "/" << m[i].var << ")");
        CHECK(s == shared[i], what << ": accessor and list disagree on dimension " << i);
        CHECK(eq(values[i], m[i]), what << ": value list, dimension " << i);
    }
}
static CopcExtents build(Gen &g, int fmt, int eb, bool extended, std::vector<Ext> &m)
{
    CopcExtents e(static_cast<int8_t>(fmt), static_cast<uint16_t>(eb), extended);
    m.assign(spec::baseDims(fmt) + eb, Ext());
    check(e, m, fmt, extended, "fresh extents");
    for (size_t i = 0; i < m.size(); i++)
    {
        if (g.below(5) == 4)
            continue;
        m[i] = ext(g);
        if (g.flag())
        {
            E s = slot(e, static_cast<int>(i), fmt);
            s->minimum = m[i].min;
            s->maximum = m[i].max;
            s->mean = m[i].mean;
            s->var = m[i].var;
        }
        else
            setSlot(e, static_cast<int>(i), fmt, std::make_shared<CopcExtent>(m[i].min, m[i].max, m[i].mean, m[i].var));
    }
    check(e, m, fmt, extended, "filled extents");
    return e;
}
static std::string desc(int fmt, int eb, bool x)
{
    return "format " + std::to_string(fmt) + " eb " + std::to_string(eb) + (x ? " extended " : " ");
}
static void refused(CopcExtents &e, int fmt)
{
    E v = std::make_shared<CopcExtent>();
    if (fmt < 7)
    {
        CHECK_THROWS(e.Red(), "Red without colour");
        CHECK_THROWS(e.Green(), "Green without colour");
        CHECK_THROWS(e.Blue(), "Blue without colour");
        CHECK_THROWS(e.Red(v), "Red without colour");
        CHECK_THROWS(e.Green(v), "Green without colour");
        CHECK_THROWS(e.Blue(v), "Blue without colour");
    }
    if (fmt != 8)
    {
        CHECK_THROWS(e.Nir(), "Nir without NIR");
        CHECK_THROWS(e.Nir(v), "Nir without NIR");
    }
}
static void slots(Gen &g)
{
    int fmt = static_cast<int>(g.range(6, 8)), eb = static_cast<int>(g.size(8));
    bool x = g.flag();
    std::vector<Ext> m;
    CopcExtents e = build(g, fmt, eb, x, m);
    g.note(desc(fmt, eb, x));
    refused(e, fmt);
    // wrong number of extra-byte extents
    size_t n = g.below(10);
    if (n == size_t(eb))
        n++;
    std::vector<E> wrong;
    for (size_t i = 0; i < n; i++)
        wrong.push_back(std::make_shared<CopcExtent>(1, 2));
    CHECK_THROWS(e.ExtraBytes(wrong), n << " extra-byte extents for " << eb);
    check(e, m, fmt, x, "after refused changes");
    // a copy equals the original and is independent of it
    CopcExtents c(e);
    check(c, m, fmt, x, "copied extents");
    size_t i = g.below(m.size());
    slot(c, static_cast<int>(i), fmt)->var = 43;
    slot(c, static_cast<int>(i), fmt)->mean = 42;
    check(e, m, fmt, x, "after changing a copy");
    g.nontrivial();
}
static void convert(Gen &g)
{
    int f1 = static_cast<int>(g.range(6, 8)), f2 = static_cast<int>(g.range(6, 8));
    int e1 = static_cast<int>(g.size(6)), e2 = g.below(3) ? e1 : static_cast<int>(g.size(6));
    bool x1 = g.flag(), x2 = g.flag();
    std::vector<Ext> m;
    CopcExtents e = build(g, f1, e1, x1, m);
    CopcExtents c(e, static_cast<int8_t>(f2), static_cast<uint16_t>(e2), x2);
    std::vector<Ext> w(spec::baseDims(f2) + e2);
    for (int i = 0; i < 14; i++)
        w[i] = m[i];
    if (f1 >= 7 && f2 >= 7)
        for (int i = 14; i < 17; i++)
            w[i] = m[i];
    if (f1 == 8 && f2 == 8)
        w[17] = m[17];
    if (e1 == e2)
        for (int i = 0; i < e1; i++)
            w[spec::baseDims(f2) + i] = m[spec::baseDims(f1) + i];
    std::string what = desc(f1, e1, x1) + "-> " + desc(f2, e2, x2);
    g.note(what);
    check(c, w, f2, x2, what);
    refused(c, f2);
    // and independent of the original
    size_t i = g.below(w.size());
    slot(c, static_cast<int>(i), f2)->mean = 3.25;
    slot(c, static_cast<int>(i), f2)->var = 9;
    check(e, m, f1, x1, "original after changing the converted copy (" + what + ")");
    i = g.below(m.size());
    slot(e, static_cast<int>(i), f1)->mean = 1.2345e99;
    for (size_t k = 0; k < w.size(); k++)
        CHECK(slot(c, static_cast<int>(k), f2)->mean != 1.2345e99, "changing the original changed the converted copy (" << what << ")");
    if (f1 != f2 || e1 != e2)
        g.nontrivial();
}
static void mapping(Gen &g)
{
    int fmt = static_cast<int>(g.range(6, 8)), eb = static_cast<int>(g.size(8));
    std::vector<Ext> m;
    CopcExtents e = build(g, fmt, eb, true, m);
    const CopcExtents &ce = e;
    auto v = ce.ToLazPerf({}, {}, {});
    auto s = ce.ToLazPerfExtended();
    CHECK_EQ(v.items.size(), m.size(), "items in the extents record");
    CHECK_EQ(s.items.size(), m.size(), "items in the extended record");
    CHECK_EQ(v.size(), uint64_t(16 * m.size()), "size of the extents record");
    for (size_t i = 0; i < m.size(); i++)
    {
        CHECK(sameBits(v.items[i].minimum, m[i].min) && sameBits(v.items[i].maximum, m[i].max), "extents record item " << i);
        CHECK(sameBits(s.items[i].minimum, m[i].mean) && sameBits(s.items[i].maximum, m[i].var), "extended record item " << i);
    }
    // bytes and back
    std::stringstream ss, xs;
    v.write(ss);
    s.write(xs);
    Bytes want, wantX;
    for (auto &x : m)
    {
        spec::dbl(want, x.min);
        spec::dbl(want, x.max);
        spec::dbl(wantX, x.mean);
        spec::dbl(wantX, x.var);
    }
    checkBytes(ubytes(ss.str()), want, "extents record");
    checkBytes(ubytes(xs.str()), wantX, "extended record");
    auto v2 = copc::las::CopcExtentsVlr::create(ss, static_cast<int>(want.size()));
    copc::las::CopcExtentsVlr s2(static_cast<int>(g.below(3)));
    s2.read(xs, static_cast<int>(wantX.size()));
    CHECK_EQ(v2.items.size(), m.size(), "items read back");
    CHECK_EQ(s2.items.size(), m.size(), "items read over an existing record");
    CopcExtents r(v2, static_cast<int8_t>(fmt), static_cast<uint16_t>(eb), true);
    r.SetExtendedStats(s2);
    check(r, m, fmt, true, "extents read back");
    auto plain = m;
    for (auto &x : plain)
        x.mean = 0, x.var = 1;
    CopcExtents p(v2, static_cast<int8_t>(fmt), static_cast<uint16_t>(eb), false);
    check(p, plain, fmt, false, "plain extents read back");
    CHECK_THROWS(p.SetExtendedStats(s2), "extended statistics on plain extents");
    check(p, plain, fmt, false, "plain extents after a refused change");
    // headers
    auto h = v.header();
    CHECK(h.user_id == "copc" && h.record_id == 10000 && h.data_length == want.size() && h.reserved == 0, "record header");
    auto eh = v.eheader();
    CHECK(eh.user_id == "copc" && eh.record_id == 10000 && eh.data_length == want.size() && eh.reserved == 0, "extended record header");
    // wrong number of items
    auto bad = v2;
    if (g.flag())
        bad.addItem(copc::las::CopcExtentsVlr::CopcExtent(1, 2));
    else
        bad.items.pop_back();
    CHECK_THROWS(CopcExtents(bad, static_cast<int8_t>(fmt), static_cast<uint16_t>(eb), true), "wrong number of extents");
    CHECK_THROWS(r.SetExtendedStats(bad), "wrong number of extended statistics");
    check(r, m, fmt, true, "extents after a refused change");
    size_t i = g.below(m.size());
    v2.setItem(static_cast<int>(i), copc::las::CopcExtentsVlr::CopcExtent(-5, 5));
    for (size_t k = 0; k < m.size(); k++)
        CHECK(k == i ? v2.items[k].minimum == -5 && v2.items[k].maximum == 5 : sameBits(v2.items[k].minimum, m[k].min),
              "setItem(" << i << ") and item " << k);
    g.note(desc(fmt, eb, true));
    g.nontrivial();
}
static void invalid(Gen &g)
{
    double a = g.finiteReal(), b = g.finiteReal(), mean = g.finiteReal(), var = g.finiteReal();
    if (g.below(4) == 3)
        b = a;
    bool okRange = a <= b, okVar = var >= 0;
    g.note(pbt::show(a) + " " + pbt::show(b) + " var " + pbt::show(var));
    auto accepts = [](auto f)
    {
        try
        {
            f();
            return true;
        }
        catch (const std::exception &)
        {
            return false;
        }
    };
    Ext two;
    two.min = a;
    two.max = b;
    Ext four = two;
    four.mean = mean;
    four.var = var;
    CHECK_EQ(accepts([&] { CHECK(eq(CopcExtent(a, b), two), "extent from two numbers"); }), okRange, "CopcExtent(min, max) accepted");
    CHECK_EQ(accepts([&] { CHECK(eq(CopcExtent(a, b, mean, var), four), "extent from four numbers"); }), okRange && okVar,
             "CopcExtent(min, max, mean, var) accepted");
    CHECK_EQ(accepts([&] { CHECK(eq(CopcExtent(std::vector<double>{a, b}), two), "extent from a list"); }), okRange,
             "CopcExtent of a two-element list accepted");
    CHECK_EQ(accepts([&] { CHECK(eq(CopcExtent(std::vector<double>{a, b, mean, var}), four), "extent from a list"); }), okRange && okVar,
             "CopcExtent of a four-element list accepted");
    size_t n = g.below(8);
    if (n != 2 && n != 4)
        CHECK_THROWS(CopcExtent(std::vector<double>(n, 1.0)), "extent of " << n << " numbers");
    int f = static_cast<int>(g.range(-128, 127));
    if (f < 6 || f > 8)
    {
        CHECK_THROWS(CopcExtents(static_cast<int8_t>(f)), "extents of format " << f);
        CHECK_THROWS(CopcExtents(copc::las::CopcExtentsVlr(14), static_cast<int8_t>(f)), "extents of format " << f);
    }
    if (!okRange || !okVar)
        g.nontrivial();
}
static void headers(Gen &g)
{
    lazperf::vlr_header v;
    v.reserved = static_cast<uint16_t>(g.uintN(16));
    v.user_id = g.text(16);
    v.record_id = static_cast<uint16_t>(g.uintN(16));
    v.data_length = static_cast<uint16_t>(g.uintN(16));
    v.description = g.text(32);
    lazperf::evlr_header e;
    e.reserved = v.reserved;
    e.user_id = v.user_id;
    e.record_id = v.record_id;
    e.data_length = g.uintN(64);
    e.description = v.description;
    auto same = [](const auto &a, const auto &b)
    {
        return a.reserved == b.reserved && a.user_id == b.user_id && a.record_id == b.record_id &&
               a.data_length == b.data_length && a.description == b.description;
    };
    copc::las::VlrHeader hv(v), he(e);
    CHECK(!hv.evlr_flag && he.evlr_flag, "flag of a record header");
    CHECK(same(hv, v), "header from a VLR header");
    CHECK(same(he, e), "header from an EVLR header");
    copc::las::VlrHeader cv(hv), ce(he);
    CHECK(!cv.evlr_flag && ce.evlr_flag && same(cv, v) && same(ce, e), "copied header");
    CHECK(same(hv.ToLazperfVlrHeader(), v), "back to a VLR header");
    CHECK(same(he.ToLazperfEvlrHeader(), e), "back to an EVLR header");
    CHECK(same(hv.ToLazperfEvlrHeader(), v), "VLR header widened");
    CHECK(!copc::las::VlrHeader().evlr_flag, "default header");
    g.nontrivial();
}

pbt::Property pbt::property()
{
    return {"C18",
            "extents with generated values in their slots are checked (conversions: shape changes; single extents: invalid values)",
            {{"slots", 3, slots}, {"convert", 3, convert}, {"mapping", 2, mapping}, {"invalid", 1, invalid}, {"headers", 1, headers}},
            720000,
            4320000};
}
