// C10 Point records pack to and unpack from the LAS byte layout
#include "../gen.hpp"
using namespace gen;

struct Case
{
    int fmt, eb;
    Quant q;
    std::vector<Rec> v;
    copc::las::LasHeader header() const
    {
        return copc::las::LasHeader(static_cast<int8_t>(fmt), static_cast<uint16_t>(spec::baseSize(fmt) + eb), q.s(), q.o(), true);
    }
};
static Case make(Gen &g)
{
    Case c;
    c.fmt = static_cast<int>(g.range(6, 8));
    c.eb = static_cast<int>(g.below(3) ? g.below(2) * g.below(12) : g.below(400));
    c.q = quant(g);
    c.v = recs(g, c.fmt, c.eb, 0, 30);
    g.label("format " + std::to_string(c.fmt));
    if (c.eb)
        g.label("extra bytes");
    if (!c.v.empty())
        g.nontrivial();
    g.note("format " + std::to_string(c.fmt) + ", " + std::to_string(c.eb) + " extra bytes, " + std::to_string(c.v.size()) + " points, " + c.q.str());
    return c;
}
static void packs(Gen &g)
{
    Case c = make(g);
    Bytes want = spec::encode(c.v, c.fmt);
    auto pts = points(c.v, c.q, c.fmt, c.eb);
    checkPoints(pts, c.v, c.q, c.fmt, c.eb, "points as set");
    switch (g.below(4))
    {
    case 0:
        checkBytes(ubytes(pts.Pack(c.q.s(), c.q.o())), want, "Pack(scale, offset)");
        break;
    case 1:
        checkBytes(ubytes(pts.Pack(c.header())), want, "Pack(header)");
        break;
    case 2: {
        std::stringstream ss;
        ss << "prefix";
        if (g.flag())
            pts.Pack(ss, c.header());
        else
            pts.Pack(ss, c.q.s(), c.q.o());
        checkBytes(ubytes(ss.str().substr(6)), want, "Pack(stream)");
        break;
    }
    default: {
        std::stringstream ss;
        for (const auto &p : pts)
            p->Pack(ss, c.q.s(), c.q.o());
        checkBytes(ubytes(ss.str()), want, "Point::Pack");
    }
    }
    checkPoints(pts, c.v, c.q, c.fmt, c.eb, "points after packing");
}
static void unpacks(Gen &g)
{
    Case c = make(g);
    Bytes raw = spec::encode(c.v, c.fmt);
    if (g.chance(1, 4))
    {
        std::istringstream in(text(raw) + "tail");
        for (auto &r : c.v)
        {
            auto p = copc::las::Point::Unpack(in, static_cast<int8_t>(c.fmt), c.q.s(), c.q.o(), static_cast<uint16_t>(c.eb));
            auto d = diff(*p, r, c.q, c.fmt);
            CHECK(d.empty(), "Point::Unpack: " << d);
        }
        CHECK_EQ(size_t(in.tellg()), raw.size(), "bytes consumed");
        // a record that the stream ends within
        std::istringstream cut(text(raw).substr(0, g.below(static_cast<uint64_t>(spec::baseSize(c.fmt)) + c.eb)));
        CHECK_THROWS(copc::las::Point::Unpack(cut, static_cast<int8_t>(c.fmt), c.q.s(), c.q.o(), static_cast<uint16_t>(c.eb)),
                     "unpacking a record that is cut off");
    }
    auto pts = g.flag() ? copc::las::Points::Unpack(chars(raw), c.header())
                        : copc::las::Points::Unpack(chars(raw), static_cast<int8_t>(c.fmt), static_cast<uint16_t>(c.eb), c.q.s(), c.q.o());
    checkPoints(pts, c.v, c.q, c.fmt, c.eb, "unpacked");
    checkBytes(ubytes(pts.Pack(c.header())), raw, "unpack then pack");
    // a byte count that is no multiple of the record length is refused
    size_t ps = spec::baseSize(c.fmt) + c.eb;
    size_t extra = 1 + g.below(ps - 1);
    auto bad = chars(raw);
    bad.resize(bad.size() + extra);
    CHECK_THROWS(copc::las::Points::Unpack(bad, c.header()), bad.size() << " bytes with records of " << ps);
}
// packing with another scale and offset moves coordinates by less than half a step, and changes nothing else
static void requantise(Gen &g)
{
    Case c = make(g);
    Quant q2;
    for (int i = 0; i < 3; i++)
    {
        q2.scale[i] = std::max(std::fabs(c.q.scale[i]) * g.pick({1.0, 2.0, 10.0, 3.7}), 1e-9);
        if (c.q.scale[i] < 0)
            q2.scale[i] = -q2.scale[i];
        q2.offset[i] = c.q.offset[i] + q2.scale[i] * static_cast<double>(g.range(-1000, 1000));
        if (g.below(3) == 0)
            q2.offset[i] = c.q.offset[i];
    }
    for (auto &r : c.v)
    {
        r.x /= 4;
        r.y /= 4;
        r.z /= 4;
    }
    auto pts = points(c.v, c.q, c.fmt, c.eb);
    auto back = copc::las::Points::Unpack(pts.Pack(q2.s(), q2.o()), static_cast<int8_t>(c.fmt), static_cast<uint16_t>(c.eb), q2.s(), q2.o());
    CHECK_EQ(back.Size(), c.v.size(), "size");
    for (size_t i = 0; i < c.v.size(); i++)
    {
        auto &a = *pts[i];
        auto &b = *back[i];
        double av[3] = {a.X(), a.Y(), a.Z()}, bv[3] = {b.X(), b.Y(), b.Z()};
        for (int k = 0; k < 3; k++)
        {
            double tol = 0.5 * std::fabs(q2.scale[k]) + 16 * 2.3e-16 * (std::fabs(av[k]) + std::fabs(q2.offset[k]));
            CHECK(std::fabs(av[k] - bv[k]) <= tol, "axis " << k << " moved from " << av[k] << " to " << bv[k] << " with scale " << q2.scale[k]);
        }
        b.X(a.X());
        b.Y(a.Y());
        b.Z(a.Z());
        auto d = diff(b, c.v[i], c.q, c.fmt);
        CHECK(d.empty(), "point " << i << ": " << d);
    }
}
pbt::Property pbt::property()
{
    return {"C10", "a case with at least one point", {{"pack", 40, packs}, {"unpack", 40, unpacks}, {"requantise", 20, requantise}}, 900000, 5400000};
}
