// C09 Spatial bounds validation says valid exactly when the file's nodes and points respect the bounds
#include "../spatial.hpp"
using namespace spatial;

struct Mute // verbose validation writes to the standard output
{
    std::stringstream ss;
    std::streambuf *old;
    Mute() : old(std::cout.rdbuf(ss.rdbuf())) {}
    ~Mute() { std::cout.rdbuf(old); }
};

static void validate(Gen &g)
{
    Opts o;
    o.maxNodes = 8;
    o.maxPts = 6;
    const bool deep = g.below(5) == 4;
    o.maxDepth = deep ? 30 : 6;
    o.exotic = g.below(4) == 3;
    File f = content(g, o);
    World w = world(g, f.c, deep);
    B3 bounds = w.bounds();
    for (auto &n : f.nodes)
        if (g.below(4) == 3)
        {
            Key k = n.key;
            toEdge(g, w, k);
            if (!f.node(k))
                n.key = k, n.page = Key{0, 0, 0, 0};
        }
    // a valid file: cells that meet the bounds, points in both
    std::vector<NodeSpec> keep;
    for (auto &n : f.nodes)
    {
        B3 c = w.cell(n.key);
        if (!c.intersects(bounds))
            continue;
        B3 both;
        for (int i = 0; i < 3; i++)
        {
            both.lo[i] = std::max(c.lo[i], bounds.lo[i]);
            both.hi[i] = std::min(c.hi[i], bounds.hi[i]);
        }
        for (auto &r : n.recs)
        {
            double p[3];
            inside(g, w, both, p);
            place(f.c, r, p);
        }
        keep.push_back(n);
    }
    f.nodes = keep;
    f.pages = {Key{0, 0, 0, 0}};
    for (auto &n : f.nodes)
        f.pages.insert(n.page);
    // at most one violation
    size_t kind = g.below(6);
    if (kind >= 3 && !f.nodes.empty())
    {
        auto &n = f.nodes[g.below(f.nodes.size())];
        if (kind == 3) // a cell outside the bounds
        {
            for (int t = 0; t < 20; t++)
            {
                Key k = key(g, deep ? 30 : 5);
                if (!w.cell(k).intersects(bounds) && !f.node(k))
                {
                    NodeSpec s;
                    s.key = k;
                    s.page = Key{0, 0, 0, 0};
                    if (g.flag())
                        s.recs = recs(g, f.c.fmt, f.eb(), 1, 2);
                    for (auto &r : s.recs)
                    {
                        double p[3];
                        inside(g, w, g.flag() ? w.cell(k) : bounds, p);
                        place(f.c, r, p);
                    }
                    f.nodes.push_back(s);
                    break;
                }
            }
        }
        else if (!n.recs.empty()) // a point just past one face of its cell (4) or of the bounds (5)
        {
            auto &r = n.recs[g.below(n.recs.size())];
            double p[3];
            position(f.c, r, p);
            int i = static_cast<int>(g.below(3));
            B3 c = kind == 4 ? w.cell(n.key) : bounds;
            double far = g.below(3) ? 1 : static_cast<double>(g.range(1, int64_t(1) << w.bits));
            p[i] = g.flag() ? c.hi[i] + w.unit * far : c.lo[i] - w.unit * far;
            place(f.c, r, p);
        }
    }
    layOut(g, f, o);
    bool valid = true;
    for (auto &n : f.nodes)
    {
        B3 c = w.cell(n.key);
        valid &= c.intersects(bounds);
        for (auto &r : n.recs)
        {
            double p[3];
            position(f.c, r, p);
            valid &= bounds.has(p) && c.has(p);
        }
    }
    g.note(f.str() + " bounds " + bounds.s() + (valid ? " valid" : " invalid"));
    g.label(valid ? "valid" : "invalid");
    for (auto &n : f.nodes)
        if (n.key.d > 12)
        {
            B3 c = w.cell(n.key);
            const bool crosses = c.intersects(bounds) && !(c.lo[0] >= bounds.lo[0] && c.lo[1] >= bounds.lo[1] && c.lo[2] >= bounds.lo[2] && c.hi[0] <= bounds.hi[0] && c.hi[1] <= bounds.hi[1] && c.hi[2] <= bounds.hi[2]);
            g.label(std::string(valid ? "valid, deep" : "invalid, deep") + (crosses ? " across the bounds" : ""));
            break;
        }
    if (!valid || f.nodes.size() >= 2)
        g.nontrivial();
    std::istringstream in(text(f.bytes));
    copc::Reader r(&in);
    if (g.flag())
        CHECK_EQ(r.ValidateSpatialBounds(), valid, "validation");
    {
        bool v;
        std::string report;
        {
            Mute m;
            v = r.ValidateSpatialBounds(true);
            report = m.ss.str();
        }
        CHECK_EQ(v, valid, "verbose validation");
        CHECK(!report.empty(), "verbose validation reported nothing");
    }
    bool v;
    std::string report;
    {
        Mute m;
        v = r.ValidateSpatialBounds(false);
        report = m.ss.str();
    }
    CHECK_EQ(v, valid, "validation");
    CHECK_EQ(report, std::string(), "what a validation that is not verbose prints");
}

pbt::Property pbt::property()
{
    return {"C09", "an invalid file, or a valid one with at least two nodes", {{"validate", 1, validate}}, 200000, 1500000};
}
