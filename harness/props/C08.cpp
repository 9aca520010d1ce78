// C08 Resolution queries select the depth the spacing implies
#include "../build.hpp"
using namespace build;

static void query(Gen &g)
{
    Opts o;
    o.maxNodes = 9;
    o.maxPts = 3;
    o.maxDepth = g.pick({4, 4, 12, 30});
    o.exotic = g.flag();
    File f = content(g, o);
    switch (g.below(5))
    {
    case 0:
        f.c.info.spacing = 10;
        break;
    case 1:
        f.c.info.spacing = std::ldexp(1.0, static_cast<int>(g.range(-20, 20)));
        break;
    case 2:
        f.c.info.spacing = g.real(1e-6, 1e6);
        break;
    case 3:
        f.c.info.spacing = 0;
        break;
    default:
        f.c.info.spacing = std::fabs(g.niceReal());
        if (f.c.info.spacing < 1e-200)
            f.c.info.spacing = 1;
    }
    const double sp = f.c.info.spacing;
    if (g.below(6) == 5)
    { // a node far below all others
        NodeSpec n;
        n.key = {static_cast<int32_t>(g.pick({31, 33, 127, 128, 1000, 1100, 32767, 32768, 65536, 100000, 0x7FFFFFFF})), 0, 0, 0};
        for (auto *v : {&n.key.x, &n.key.y, &n.key.z})
            *v = static_cast<int32_t>(g.flag() ? g.below(3) : g.below(0x7FFFFFFF));
        n.page = Key{0, 0, 0, 0};
        n.recs = recs(g, f.c.fmt, f.eb(), 1, 3);
        f.nodes.push_back(n);
        f.pages.insert(n.page);
        g.label("a node far below");
    }
    layOut(g, f, o);
    int deepest = -1;
    for (auto &n : f.nodes)
        deepest = std::max(deepest, n.key.d);
    std::istringstream in(text(f.bytes));
    copc::Reader r(&in);
    size_t nq = 1 + g.below(4);
    g.note(f.str() + "; spacing " + pbt::show(sp));
    for (size_t q = 0; q < nq; q++)
    {
        double res;
        int i = static_cast<int>(g.below(static_cast<uint64_t>(std::max(deepest, 0)) + 3));
        double at = std::ldexp(sp, -i);
        switch (g.below(8))
        {
        case 0:
            res = at;
            break;
        case 1:
            res = std::nextafter(at, 1e308);
            break;
        case 2:
            res = std::nextafter(at, 0.0);
            break;
        case 3:
            res = at * g.real(0.5, 2);
            break;
        case 4:
            res = g.pick({0.0, -0.0, -1.0, -1e-300, -1e300, -std::numeric_limits<double>::infinity()});
            break;
        case 5:
            res = g.pick({1e-300, 1e300, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::min()});
            break;
        case 6:
            res = std::numeric_limits<double>::quiet_NaN();
            break;
        default:
            res = sp * 2 + 1;
        }
        if (deepest > 31 && res > 0) // where halving has not yet lost digits
            res = std::max(res, 1e-250);
        int want = deepest;
        if (res > 0)
            for (int d = 0; d <= deepest; d++)
                if (std::ldexp(sp, -d) <= res)
                {
                    want = d;
                    break;
                }
        g.note(" res " + pbt::show(res));
        CHECK_EQ(int(r.GetDepthAtResolution(res)), want, "depth at resolution " << res << " with spacing " << sp << " and deepest level " << deepest);
        CHECK_EQ(int(r.GetMaxDepth()), deepest, "deepest level");
        if (deepest > 0 && want > 0 && want < deepest)
            g.nontrivial();
        std::vector<const NodeSpec *> eq, le;
        std::vector<Rec> pts;
        for (auto &n : f.nodes)
        {
            if (n.key.d == want)
                eq.push_back(&n);
            if (n.key.d <= want)
            {
                le.push_back(&n);
                pts.insert(pts.end(), n.recs.begin(), n.recs.end());
            }
        }
        switch (g.below(4))
        {
        case 0:
            checkNodeSet(r.GetNodesAtResolution(res), f, eq, "nodes at resolution");
            break;
        case 1:
            checkNodeSet(r.GetNodesWithinResolution(res), f, le, "nodes within resolution");
            break;
        case 2:
            checkBag(r.GetAllPoints(res), f, pts, "points at resolution");
            break;
        default: { // an unbounded box adds nothing to the resolution filter
            auto all = copc::Box(-std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(),
                                 -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::infinity(),
                                 std::numeric_limits<double>::infinity(), std::numeric_limits<double>::infinity());
            checkNodeSet(r.GetNodesWithinBox(all, res), f, le, "nodes within an unbounded box");
        }
        }
    }
}
// resolution of a level as the key classes report it
static void levels(Gen &g)
{
    copc::las::LasHeader h(6, 30, copc::Vector3(0.01, 0.01, 0.01), copc::Vector3(0, 0, 0), true);
    for (int i = 0; i < 3; i++)
    {
        (i == 0 ? h.max.x : i == 1 ? h.max.y : h.max.z) = std::fabs(g.niceReal());
    }
    copc::CopcInfo info;
    info.spacing = g.below(3) ? g.real(1e-6, 1e6) : std::ldexp(1.0, static_cast<int>(g.range(-20, 20)));
    Key k = key(g, 30);
    if (g.below(3) == 2)
        k.d = static_cast<int32_t>(g.range(31, 1000));
    g.note(k.s() + " spacing " + pbt::show(info.spacing));
    double want = std::ldexp(info.spacing, -k.d);
    CHECK_EQ(vk(k).Resolution(h, info), want, "resolution of " << k.s());
    CHECK_EQ(copc::VoxelKey::GetResolutionAtDepth(k.d, h, info), want, "resolution at depth " << k.d);
    if (k.d > 1)
        g.nontrivial();
}

pbt::Property pbt::property()
{
    return {"C08",
            "a request that selects a depth strictly between the root and the deepest level (levels: depth of two or more)",
            {{"query", 6, query}, {"levels", 1, levels}},
            250000,
            1500000};
}
