// C07 Spatial queries return exactly the nodes and points their definition selects
#include "../spatial.hpp"
using namespace spatial;

static double resolution(Gen &g, const File &f)
{
    int deepest = 5;
    for (auto &n : f.nodes)
        deepest = std::max<int>(deepest, n.key.d);
    switch (g.below(5))
    {
    case 0:
    case 1:
        return 0;
    case 2:
        return -1;
    case 3:
        return std::ldexp(f.c.info.spacing, -static_cast<int>(g.below(deepest + 1)));
    default:
        return std::ldexp(f.c.info.spacing, -static_cast<int>(g.below(deepest + 1))) * g.pick({0.75, 1.5});
    }
}
static int depthFor(const File &f, double res)
{
    int deepest = -1;
    for (auto &n : f.nodes)
        deepest = std::max<int>(deepest, n.key.d);
    if (res > 0)
        for (int i = 0; i <= deepest; i++)
            if (std::ldexp(f.c.info.spacing, -i) <= res)
                return i;
    return deepest;
}

static void query(Gen &g)
{
    Opts o;
    o.maxNodes = 10;
    o.maxPts = 8;
    const bool deep = g.below(5) == 4;
    o.maxDepth = deep ? 30 : 7;
    o.exotic = g.below(4) == 3;
    File f = content(g, o);
    World w = world(g, f.c, deep);
    f.c.info.spacing = g.pick({1.0, 10.0, 0.3});
    for (auto &n : f.nodes)
        for (auto &r : n.recs)
        {
            double p[3];
            // mostly in their cell, but the definition does not depend on it
            inside(g, w, g.below(5) == 4 ? w.cell(Key{0, 0, 0, 0}) : w.cell(n.key), p);
            place(f.c, r, p);
        }
    layOut(g, f, o);
    g.note(f.str());
    std::istringstream in(text(f.bytes));
    copc::Reader r(&in);
    size_t nq = 1 + g.below(3);
    for (size_t q = 0; q < nq; q++)
    {
        B3 b = queryBox(g, w, f);
        double res = resolution(g, f);
        int depth = depthFor(f, res);
        g.note(" box " + b.s() + " resolution " + std::to_string(res));
        std::vector<const NodeSpec *> within, touching;
        std::vector<Rec> pts;
        bool partial = false;
        for (auto &n : f.nodes)
        {
            if (n.key.d > depth)
                continue;
            B3 c = w.cell(n.key);
            if (c.within(b))
            {
                within.push_back(&n);
                pts.insert(pts.end(), n.recs.begin(), n.recs.end());
            }
            else if (c.intersects(b))
                for (auto &p : n.recs)
                {
                    double x[3];
                    position(f.c, p, x);
                    if (b.has(x))
                        pts.push_back(p);
                    partial = true;
                }
            if (c.intersects(b))
                touching.push_back(&n);
        }
        bool usesDefault = res == 0 && g.flag();
        if (g.below(3))
            checkNodeSet(usesDefault ? r.GetNodesWithinBox(b.box()) : r.GetNodesWithinBox(b.box(), res), f, within, "nodes within the box");
        if (g.below(3))
            checkNodeSet(usesDefault ? r.GetNodesIntersectBox(b.box()) : r.GetNodesIntersectBox(b.box(), res), f, touching, "nodes intersecting the box");
        if (g.below(3))
            checkBag(usesDefault ? r.GetPointsWithinBox(b.box()) : r.GetPointsWithinBox(b.box(), res), f, pts, "points within the box");
        if (touching.size() > within.size() && !touching.empty() && touching.size() < f.nodes.size())
            g.nontrivial();
        if (partial && !pts.empty())
            g.label("points of partial cells");
        if (!within.empty())
            g.label("cells within");
        for (auto &n : touching)
            if (n->key.d > 16 && !n->recs.empty())
                g.label("deep cells");
    }
}

// arbitrary (not dyadic) geometry: only unambiguous nodes and points are compared
static void messy(Gen &g)
{
    Opts o;
    o.maxNodes = 8;
    o.maxPts = 6;
    o.maxDepth = 6;
    o.exotic = false;
    File f = content(g, o);
    double lo[3], span = g.real(0.5, 3000), hi[3];
    int full = static_cast<int>(g.below(3));
    for (int i = 0; i < 3; i++)
    {
        lo[i] = g.real(-1e5, 1e5);
        hi[i] = lo[i] + (i == full ? span : span * g.unit());
        f.c.min[i] = lo[i];
        f.c.max[i] = hi[i];
        f.c.q.scale[i] = g.pick({0.001, 0.01, 0.0001});
        f.c.q.offset[i] = g.flag() ? 0 : std::floor(lo[i]);
    }
    const double eps = 1e-6;
    auto cell = [&](const Key &k)
    {
        World w;
        w.span = span;
        for (int i = 0; i < 3; i++)
            w.lo[i] = lo[i];
        return w.cell(k);
    };
    for (auto &n : f.nodes)
    {
        B3 c = cell(n.key);
        for (auto &r : n.recs)
        {
            int32_t *raw[3] = {&r.x, &r.y, &r.z};
            for (int i = 0; i < 3; i++)
                *raw[i] = static_cast<int32_t>(std::lround((g.real(c.lo[i], c.hi[i]) - f.c.q.offset[i]) / f.c.q.scale[i]));
        }
    }
    f.c.info.spacing = 1;
    layOut(g, f, o);
    B3 b;
    for (int i = 0; i < 3; i++)
    {
        double x = lo[i] + span * g.real(-0.1, 1.1), y = lo[i] + span * g.real(-0.1, 1.1);
        b.lo[i] = std::min(x, y);
        b.hi[i] = std::max(x, y);
    }
    g.note(f.str() + " box " + b.s());
    auto grown = [&](double d)
    {
        B3 c = b;
        for (int i = 0; i < 3; i++)
            c.lo[i] -= d, c.hi[i] += d;
        return c;
    };
    B3 out = grown(eps), inn = grown(-eps);
    std::istringstream in(text(f.bytes));
    copc::Reader r(&in);
    std::set<Key> gw, gi;
    for (auto &n : r.GetNodesWithinBox(b.box()))
        gw.insert(sk(n.key));
    for (auto &n : r.GetNodesIntersectBox(b.box()))
        gi.insert(sk(n.key));
    size_t loN = 0, hiN = 0;
    for (auto &n : f.nodes)
    {
        B3 c = cell(n.key);
        if (c.within(inn))
            CHECK(gw.count(n.key), "node " << n.key.s() << " lies within the box but is not reported");
        if (!c.within(out))
            CHECK(!gw.count(n.key), "node " << n.key.s() << " does not lie within the box but is reported");
        if (c.intersects(inn))
            CHECK(gi.count(n.key), "node " << n.key.s() << " intersects the box but is not reported");
        if (!c.intersects(out))
            CHECK(!gi.count(n.key), "node " << n.key.s() << " does not intersect the box but is reported");
        for (auto &p : n.recs)
        {
            double x[3];
            position(f.c, p, x);
            loN += inn.has(x) && c.intersects(inn);
            hiN += c.within(out) || (out.has(x) && c.intersects(out));
        }
    }
    size_t got = r.GetPointsWithinBox(b.box()).Size();
    CHECK(got >= loN && got <= hiN, "points within the box: " << got << ", expected " << loN << " to " << hiN);
    if (!gi.empty() && gw.size() < gi.size())
        g.nontrivial();
}

pbt::Property pbt::property()
{
    return {"C07",
            "a box that some but not all cells intersect and that cuts through a cell",
            {{"query", 5, query}, {"messy", 1, messy}},
            200000,
            1500000};
}
