// Files with a real geometry. All lengths are dyadic, so cells, coordinates and comparisons are exact in doubles.
#pragma once
#include "build.hpp"

namespace spatial
{
using namespace build;

struct B3
{
    double lo[3], hi[3];
    bool intersects(const B3 &o) const
    {
        for (int i = 0; i < 3; i++)
            if (lo[i] > o.hi[i] || o.lo[i] > hi[i])
                return false;
        return true;
    }
    bool within(const B3 &o) const
    {
        for (int i = 0; i < 3; i++)
            if (lo[i] < o.lo[i] || hi[i] > o.hi[i])
                return false;
        return true;
    }
    bool has(const double *p) const
    {
        for (int i = 0; i < 3; i++)
            if (p[i] < lo[i] || p[i] > hi[i])
                return false;
        return true;
    }
    copc::Box box() const { return copc::Box(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]); }
    std::string s() const
    {
        std::ostringstream ss;
        ss.precision(17);
        for (int i = 0; i < 3; i++)
            ss << (i ? " x [" : "[") << lo[i] << "," << hi[i] << "]";
        return ss.str();
    }
};
struct World
{
    double span;       // edge of the root cube
    double unit;       // one raw step
    int bits{18};      // the edge is 2^bits steps
    double steps() const { return std::ldexp(1.0, bits); }
    double lo[3], hi[3]; // header bounds
    B3 cell(const Key &k) const
    {
        B3 b;
        double step = std::ldexp(span, -k.d);
        const int32_t c[3] = {k.x, k.y, k.z};
        for (int i = 0; i < 3; i++)
        {
            b.lo[i] = lo[i] + step * c[i];
            b.hi[i] = b.lo[i] + step;
        }
        return b;
    }
    B3 bounds() const
    {
        B3 b;
        for (int i = 0; i < 3; i++)
            b.lo[i] = lo[i], b.hi[i] = hi[i];
        return b;
    }
};
inline World world(Gen &g, Cfg &c, bool deep = false)
{
    World w;
    w.bits = deep ? 28 : 18;
    w.span = std::ldexp(1.0, static_cast<int>(g.range(-2, 10)));
    w.unit = std::ldexp(w.span, -w.bits);
    int full = static_cast<int>(g.below(3));
    for (int i = 0; i < 3; i++)
    {
        w.lo[i] = g.below(3) ? static_cast<double>(g.range(-3, 3)) * w.span / 4 : 0;
        double len = w.span;
        if (i != full && g.flag())
            len = w.unit * static_cast<double>(g.below(4) ? g.range(0, int64_t(1) << w.bits) : (int64_t(1) << (w.bits - 2)) * g.range(0, 4));
        w.hi[i] = w.lo[i] + len;
        c.q.scale[i] = w.unit;
        c.q.offset[i] = g.flag() ? 0 : w.lo[i];
        c.min[i] = w.lo[i];
        c.max[i] = w.hi[i];
    }
    return w;
}
// moves a cell to where one of the file's upper bounds lies within or at the end of it
inline void toEdge(Gen &g, const World &w, Key &k)
{
    int i = static_cast<int>(g.below(3));
    int64_t n = int64_t(1) << std::min(k.d, w.bits);
    auto cell = static_cast<int64_t>((w.hi[i] - w.lo[i]) / w.span * static_cast<double>(n));
    cell = std::max<int64_t>(0, std::min(cell - static_cast<int64_t>(g.below(5) == 4), n - 1));
    if (k.d <= w.bits)
        (i == 0 ? k.x : i == 1 ? k.y : k.z) = static_cast<int32_t>(cell);
}
inline void position(const Cfg &c, const Rec &r, double *p)
{
    p[0] = c.q.value(0, r.x);
    p[1] = c.q.value(1, r.y);
    p[2] = c.q.value(2, r.z);
}
inline void place(const Cfg &c, Rec &r, const double *p)
{
    r.x = static_cast<int32_t>((p[0] - c.q.offset[0]) / c.q.scale[0]);
    r.y = static_cast<int32_t>((p[1] - c.q.offset[1]) / c.q.scale[1]);
    r.z = static_cast<int32_t>((p[2] - c.q.offset[2]) / c.q.scale[2]);
}
// a position in a box, on raw steps, often on its faces
inline void inside(Gen &g, const World &w, const B3 &b, double *p)
{
    for (int i = 0; i < 3; i++)
    {
        int64_t n = static_cast<int64_t>((b.hi[i] - b.lo[i]) / w.unit);
        int64_t k = g.below(4) == 0 ? 0 : g.below(4) == 0 ? n : g.range(0, n);
        p[i] = b.lo[i] + w.unit * static_cast<double>(k);
    }
}
inline B3 queryBox(Gen &g, const World &w, const File &f)
{
    B3 b;
    const double big = std::numeric_limits<double>::max();
    switch (g.below(6))
    {
    case 0: // everything, or a slab
        for (int i = 0; i < 3; i++)
        {
            b.lo[i] = -big;
            b.hi[i] = big;
        }
        if (g.flag())
            b.hi[g.below(3)] = w.lo[0] + w.span * 0.5;
        return b;
    case 1: // exactly (or almost) a cell
    case 2: {
        Key k = f.nodes.empty() || g.below(4) == 3 ? key(g, 5) : f.nodes[g.below(f.nodes.size())].key;
        b = w.cell(k);
        for (int i = 0; i < 3; i++)
        {
            double d = w.unit * static_cast<double>(g.pick({0, 0, 0, 1, -1, 5, -5}));
            if (b.lo[i] + d <= b.hi[i])
                b.lo[i] += d;
            d = w.unit * static_cast<double>(g.pick({0, 0, 0, 1, -1, 5, -5}));
            if (b.hi[i] + d >= b.lo[i])
                b.hi[i] += d;
        }
        if (g.below(4) == 3) // the neighbour touching one face
        {
            int i = static_cast<int>(g.below(3));
            double len = b.hi[i] - b.lo[i];
            b.lo[i] = b.hi[i];
            b.hi[i] += len;
        }
        return b;
    }
    case 3: { // degenerate: one point
        double p[3];
        inside(g, w, w.cell(Key{0, 0, 0, 0}), p);
        for (auto &n : f.nodes)
            if (!n.recs.empty() && g.flag())
            {
                position(f.c, n.recs[0], p);
                break;
            }
        for (int i = 0; i < 3; i++)
            b.lo[i] = b.hi[i] = p[i];
        return b;
    }
    default:
        for (int i = 0; i < 3; i++)
        {
            double x = w.lo[i] + w.span / 16 * static_cast<double>(g.range(-2, 18)),
                   y = g.flag() ? w.lo[i] + w.span / 16 * static_cast<double>(g.range(-2, 18))
                                : w.lo[i] + w.unit * static_cast<double>(g.range(-1000, int64_t(1) << w.bits));
            b.lo[i] = std::min(x, y);
            b.hi[i] = std::max(x, y);
        }
        return b;
    }
}
} // namespace spatial
