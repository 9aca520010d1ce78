// C16 Boxes and key cells: predicates equal their interval definitions
#include "../gen.hpp"
using namespace gen;
using copc::Box;
using copc::Vector3;

struct B
{
    double lo[3], hi[3];
    bool intersects(const B &o) const
    {
        for (int i = 0; i < 3; i++)
            if (std::max(lo[i], o.lo[i]) > std::min(hi[i], o.hi[i]))
                return false;
        return true;
    }
    bool contains(const B &o) const
    {
        for (int i = 0; i < 3; i++)
            if (!(lo[i] <= o.lo[i] && o.hi[i] <= hi[i]))
                return false;
        return true;
    }
    bool contains(const double *p) const
    {
        for (int i = 0; i < 3; i++)
            if (!(lo[i] <= p[i] && p[i] <= hi[i]))
                return false;
        return true;
    }
    Box box() const { return Box(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]); }
    std::string s() const
    {
        std::ostringstream ss;
        ss.precision(17);
        for (int i = 0; i < 3; i++)
            ss << (i ? " x [" : "[") << lo[i] << "," << hi[i] << "]";
        return ss.str();
    }
};
static double notNan(Gen &g)
{
    switch (g.below(10))
    {
    case 9:
        return g.pick({std::numeric_limits<double>::max(), -std::numeric_limits<double>::max(),
                       std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity()});
    case 8:
        return g.finiteReal();
    case 7:
        return g.niceReal();
    default:
        return static_cast<double>(g.range(-6, 6));
    }
}
static B box(Gen &g)
{
    B b;
    for (int i = 0; i < 3; i++)
    {
        double a = notNan(g), c = notNan(g);
        b.lo[i] = std::min(a, c);
        b.hi[i] = std::max(a, c);
    }
    return b;
}
static bool same(const Box &x, const B &b)
{
    return x.x_min == b.lo[0] && x.y_min == b.lo[1] && x.z_min == b.lo[2] && x.x_max == b.hi[0] && x.y_max == b.hi[1] &&
           x.z_max == b.hi[2];
}

static void pairs(Gen &g)
{
    B a = box(g), b = box(g);
    if (g.chance(1, 3)) // derived: share or nudge one face
    {
        b = a;
        int ax = static_cast<int>(g.below(3));
        double v = notNan(g);
        if (g.flag())
            b.lo[ax] = std::min(v, b.hi[ax]);
        else
            b.hi[ax] = std::max(v, b.lo[ax]);
    }
    double p[3] = {notNan(g), notNan(g), notNan(g)};
    if (g.flag())
    {
        for (int i = 0; i < 3; i++)
            p[i] = g.below(3) == 0 ? a.lo[i] : g.below(2) ? a.hi[i] : p[i];
    }
    g.note(a.s() + " vs " + b.s());
    Box A = a.box(), Bb = b.box();
    bool in = a.intersects(b), ct = a.contains(b);
    if (in)
        g.nontrivial();
    if (in && !ct && !b.contains(a))
        g.label("partial overlap");
    if (ct)
        g.label("contains");
    CHECK(same(A, a), "box constructor " << A << " from " << a.s());
    CHECK_EQ(A.Intersects(Bb), in, a.s() << " intersects " << b.s());
    CHECK_EQ(Bb.Intersects(A), in, b.s() << " intersects " << a.s());
    CHECK_EQ(A.Contains(Bb), ct, a.s() << " contains " << b.s());
    CHECK_EQ(Bb.Within(A), ct, b.s() << " within " << a.s());
    CHECK_EQ(A.Within(Bb), b.contains(a), a.s() << " within " << b.s());
    CHECK(A.Contains(A) && A.Within(A) && A.Intersects(A), "reflexivity of " << a.s());
    Vector3 P(p[0], p[1], p[2]);
    CHECK_EQ(A.Contains(P), a.contains(p), a.s() << " contains point " << P);
    if (std::isfinite(p[0]) && std::isfinite(p[1]) && std::isfinite(p[2]))
    {
        CHECK_EQ(Box(P, P).Within(A), a.contains(p), a.s() << " contains the degenerate box " << P);
        CHECK(Box::MaxBox().Contains(P), "MaxBox contains " << P);
    }
    // other constructors
    CHECK(same(Box(Vector3(a.lo[0], a.lo[1], a.lo[2]), Vector3(a.hi[0], a.hi[1], a.hi[2])), a), "two-vector constructor");
    CHECK(same(Box(std::vector<double>{a.lo[0], a.lo[1], a.lo[2], a.hi[0], a.hi[1], a.hi[2]}), a), "six-value list");
    B flat = a;
    flat.lo[2] = -std::numeric_limits<double>::max();
    flat.hi[2] = std::numeric_limits<double>::max();
    CHECK(same(Box(a.lo[0], a.lo[1], a.hi[0], a.hi[1]), flat), "2D constructor");
    CHECK(same(Box(std::vector<double>{a.lo[0], a.lo[1], a.hi[0], a.hi[1]}), flat), "four-value list");
    size_t n = g.below(12);
    if (n != 4 && n != 6)
        CHECK_THROWS(Box(std::vector<double>(n, 1.0)), "a list of " << n);
    auto e = Box::EmptyBox();
    CHECK(e.x_min == 0 && e.y_min == 0 && e.z_min == 0 && e.x_max == 0 && e.y_max == 0 && e.z_max == 0, "EmptyBox");
    // a reversed axis is refused by every constructor
    int ax = static_cast<int>(g.below(3));
    if (a.lo[ax] < a.hi[ax])
    {
        double lo[3] = {a.lo[0], a.lo[1], a.lo[2]}, hi[3] = {a.hi[0], a.hi[1], a.hi[2]};
        std::swap(lo[ax], hi[ax]);
        g.label("reversed axis");
        CHECK_THROWS(Box(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]), "reversed axis");
        CHECK_THROWS(Box(std::vector<double>{lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]}), "reversed axis (list)");
        CHECK_THROWS(Box(Vector3(lo[0], lo[1], lo[2]), Vector3(hi[0], hi[1], hi[2])), "reversed axis (vectors)");
        if (ax < 2)
        {
            CHECK_THROWS(Box(lo[0], lo[1], hi[0], hi[1]), "reversed axis (2D)");
            CHECK_THROWS(Box(std::vector<double>{lo[0], lo[1], hi[0], hi[1]}), "reversed axis (2D list)");
        }
    }
}
static void textForm(Gen &g)
{
    B a = box(g);
    for (int i = 0; i < 3; i++)
        if (!std::isfinite(a.lo[i]) || !std::isfinite(a.hi[i]))
            a.lo[i] = -1, a.hi[i] = 2.5;
    g.note(a.s());
    g.nontrivial();
    std::string t = a.box().ToString();
    double want[6] = {a.lo[0], a.lo[1], a.lo[2], a.hi[0], a.hi[1], a.hi[2]};
    size_t pos = 0;
    for (double w : want)
    {
        pos = t.find('=', pos);
        CHECK(pos != std::string::npos, "text form " << t);
        CHECK_EQ(std::strtod(t.c_str() + ++pos, nullptr), w, "number read back from " << t);
    }
    std::ostringstream ss;
    ss << a.box();
    CHECK_EQ(ss.str(), t, "stream form");
}
// Cells of an octree over a header whose bounds and span are dyadic: everything below is exact in doubles
static void cells(Gen &g)
{
    double unit = std::ldexp(1.0, static_cast<int>(g.range(-8, 8)));
    double mn[3], len[3];
    copc::las::LasHeader h;
    double span = unit * static_cast<double>(g.range(1, 16));
    for (int i = 0; i < 3; i++)
    {
        mn[i] = unit * static_cast<double>(g.range(-1000, 1000));
        len[i] = span * (static_cast<double>(g.below(9)) / 8);
    }
    len[g.below(3)] = span;
    h.min = Vector3(mn[0], mn[1], mn[2]);
    h.max = Vector3(mn[0] + len[0], mn[1] + len[1], mn[2] + len[2]);
    // exact to depth 40: 10 bits of minimum, 30 + 8 levels, 2 bits of quarter cells
    Key k = key(g, g.below(3) ? 12 : 30);
    if (g.chance(1, 8))
        k.d += static_cast<int32_t>(g.below(9));
    double step = std::ldexp(span, -k.d);
    int32_t c[3] = {k.x, k.y, k.z};
    B cell;
    for (int i = 0; i < 3; i++)
    {
        cell.lo[i] = mn[i] + step * c[i];
        cell.hi[i] = cell.lo[i] + step;
    }
    g.note(k.s() + " in " + cell.s());
    if (k.d > 0)
        g.nontrivial();
    CHECK_EQ(h.Span(), span, "span");
    auto hb = h.Bounds();
    CHECK(hb.x_min == h.min.x && hb.y_min == h.min.y && hb.z_min == h.min.z && hb.x_max == h.max.x && hb.y_max == h.max.y && hb.z_max == h.max.z,
          "header bounds box");
    Box cb(vk(k), h);
    CHECK(same(cb, cell), "cell of " << k.s() << " is " << cb << ", expected " << cell.s());
    // the eight children tile the cell
    for (int d = 0; d < 8; d++)
    {
        Box kid(vk(child(k, d)), h);
        CHECK(kid.Within(cb), "child " << d << " of " << k.s() << " sticks out: " << kid);
        B half;
        for (int i = 0; i < 3; i++)
        {
            half.lo[i] = cell.lo[i] + ((d >> i) & 1) * step / 2;
            half.hi[i] = half.lo[i] + step / 2;
        }
        CHECK(same(kid, half), "child " << d << " of " << k.s() << " is " << kid << ", expected " << half.s());
    }
    // query boxes around the cell
    B q;
    for (int i = 0; i < 3; i++)
    {
        auto pos = [&] { return cell.lo[i] + step * (static_cast<double>(g.range(-4, 8)) / 4); };
        double a = pos(), b = pos();
        q.lo[i] = std::min(a, b);
        q.hi[i] = std::max(a, b);
    }
    Box Q = q.box();
    g.note(" query " + q.s());
    bool in = cell.intersects(q), wi = q.contains(cell);
    if (in && !wi)
        g.label("crosses");
    if (wi)
        g.label("cell within query");
    if (cell.contains(q))
        g.label("query within cell");
    CHECK_EQ(vk(k).Intersects(h, Q), in, "key intersects " << q.s());
    CHECK_EQ(vk(k).Within(h, Q), wi, "key within " << q.s());
    CHECK_EQ(vk(k).Contains(h, Q), cell.contains(q), "key contains " << q.s());
    CHECK_EQ(vk(k).Crosses(h, Q), in && !wi, "key crosses " << q.s());
    double p[3];
    for (int i = 0; i < 3; i++)
        p[i] = cell.lo[i] + step * (static_cast<double>(g.range(-4, 8)) / 4);
    Vector3 P(p[0], p[1], p[2]);
    CHECK_EQ(vk(k).Contains(h, P), cell.contains(p), "key contains point " << P);
    if (cell.contains(p))
    {
        int n = 0;
        for (int d = 0; d < 8; d++)
            n += vk(child(k, d)).Contains(h, P);
        CHECK(n >= 1, "a point of the cell is in none of its children: " << P);
    }
    // point spacing of a level
    copc::CopcInfo info;
    info.spacing = unit * static_cast<double>(g.range(0, 64));
    CHECK_EQ(vk(k).Resolution(h, info), std::ldexp(info.spacing, -k.d), "resolution of " << k.s());
    int32_t depth = static_cast<int32_t>(g.below(g.flag() ? 64 : 900));
    CHECK_EQ(copc::VoxelKey::GetResolutionAtDepth(depth, h, info), std::ldexp(info.spacing, -depth), "resolution at depth " << depth);
    // point-level wrapper
    copc::las::Point pt(static_cast<int8_t>(g.range(6, 8)));
    pt.X(p[0]);
    pt.Y(p[1]);
    pt.Z(p[2]);
    CHECK_EQ(pt.Within(Q), q.contains(p), "point within box " << q.s());
}
pbt::Property pbt::property()
{
    return {"C16",
            "two boxes that intersect, a cell below the root, or a text form",
            {{"pairs", 50, pairs}, {"text", 4, textForm}, {"cells", 50, cells}},
            2520000,
            15120000};
}
