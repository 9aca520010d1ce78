// C12 Coordinate quantisation: nearest step or refusal, exact on stored values
#include "../gen.hpp"
using namespace gen;
using copc::las::RemoveScale;

static const double I32MIN = -2147483648.0, I32MAX = 2147483647.0;

static std::optional<int32_t> packX(double x, double s, double o, int axis)
{
    copc::las::Point p(6);
    copc::Vector3 S(1, 1, 1), O(0, 0, 0);
    (axis == 0 ? S.x : axis == 1 ? S.y : S.z) = s;
    (axis == 0 ? O.x : axis == 1 ? O.y : O.z) = o;
    if (axis == 0)
        p.X(x);
    else if (axis == 1)
        p.Y(x);
    else
        p.Z(x);
    std::ostringstream out;
    try
    {
        p.Pack(out, S, O);
    }
    catch (const std::exception &)
    {
        return {};
    }
    std::string b = out.str();
    CHECK_EQ(b.size(), size_t(30), "packed size");
    int32_t v[3];
    std::memcpy(v, b.data(), 12);
    for (int i = 0; i < 3; i++)
        if (i != axis)
            CHECK_EQ(v[i], 0, "an axis at its offset");
    return v[axis];
}
// any finite value with a well-conditioned scale
static void nearest(Gen &g)
{
    Quant q = quant(g);
    double s = q.scale[0], o = q.offset[0], v;
    switch (g.below(5))
    {
    case 0: // around the int32 limits, in steps
        v = ((g.flag() ? I32MAX : I32MIN) + g.real(-3, 3)) * s + o;
        break;
    case 1:
        v = static_cast<double>(g.intN(32)) * s + o + s * g.real(-0.5, 0.5);
        break;
    case 2:
        v = g.finiteReal();
        break;
    case 3: // a tie
        v = (static_cast<double>(g.range(-1000, 1000)) + 0.5) * s + o;
        break;
    default:
        v = g.niceReal();
    }
    int axis = static_cast<int>(g.below(3));
    std::ostringstream n;
    n.precision(17);
    n << v << " with scale " << s << " offset " << o << " on axis " << axis;
    g.note(n.str());
    auto r = packX(v, s, o, axis);
    double steps = (v - o) / s;
    double slack = 1e-6 + 8 * 2.3e-16 * (std::fabs(v) + std::fabs(o)) / std::fabs(s) + std::fabs(steps) * 4e-16;
    if (steps > I32MIN - 0.5 + slack && steps < I32MAX + 0.5 - slack)
    {
        g.nontrivial();
        CHECK(r.has_value(), "a representable value was refused: " << v);
        CHECK(std::fabs(double(*r) - steps) <= 0.5 + slack, v << " stored as " << *r << " steps, is " << steps);
        CHECK(std::fabs(copc::las::ApplyScale(*r, s, o) - v) <= (0.5 + slack) * std::fabs(s), "value read back");
        CHECK_EQ(RemoveScale<int32_t>(v, s, o), *r, "RemoveScale");
    }
    else if (steps < I32MIN - 0.5 - slack || steps > I32MAX + 0.5 + slack)
    {
        g.label("out of range");
        g.nontrivial();
        CHECK(!r.has_value(), v << " (" << steps << " steps) was stored as " << *r);
        CHECK_THROWS(RemoveScale<int32_t>(v, s, o), "RemoveScale of " << v);
    }
}
// steps that are exact in doubles: the nearest step is known exactly, up to the direction of ties
static void exact(Gen &g)
{
    double s = std::ldexp(1.0, static_cast<int>(g.range(-20, 10))), o = 0, steps;
    double at = static_cast<double>(g.flag() ? g.range(-3, 3) : g.intN(static_cast<int>(1 + g.below(32))));
    double half = at + (g.flag() ? 0.5 : -0.5);
    switch (g.below(4))
    {
    case 0:
        steps = half;
        break;
    case 1:
        steps = std::nextafter(half, g.flag() ? at : 2 * half - at);
        break;
    case 2: // few bits, so that an offset is exact as well
        steps = at + static_cast<double>(g.range(-64, 64)) / 128;
        o = s * static_cast<double>(g.range(-100000, 100000));
        break;
    default:
        steps = at + g.real(-1, 1);
    }
    if (o == 0 && g.chance(1, 4)) // around the ends of the range
        steps = std::nextafter(g.flag() ? I32MAX + 0.5 : I32MIN - 0.5, g.flag() ? 0.0 : 1e10 * (g.flag() ? 1 : -1));
    double v = steps * s + o;
    int axis = static_cast<int>(g.below(3));
    std::ostringstream n;
    n.precision(17);
    n << steps << " steps of " << s << " from " << o << " on axis " << axis;
    g.note(n.str());
    if (steps > I32MIN - 0.5 && steps < I32MAX + 0.5)
    {
        g.nontrivial();
        auto r = packX(v, s, o, axis);
        CHECK(r.has_value(), "a representable value was refused: " << n.str());
        CHECK(std::fabs(static_cast<long double>(*r) - steps) <= 0.5L, n.str() << " stored as " << *r);
        CHECK_EQ(RemoveScale<int32_t>(v, s, o), *r, "RemoveScale");
    }
    else if (steps < I32MIN - 0.5 || steps > I32MAX + 0.5)
    {
        g.label("out of range");
        g.nontrivial();
        CHECK(!packX(v, s, o, axis).has_value(), n.str() << " was stored");
    }
}
// what is stored comes back exactly: unpack . pack = id on every int32
static void stored(Gen &g)
{
    Quant q = quant(g);
    int32_t raw = static_cast<int32_t>(g.intN(32));
    int axis = static_cast<int>(g.below(3));
    g.nontrivial();
    g.note(std::to_string(raw) + " " + q.str());
    double v = copc::las::ApplyScale(raw, q.scale[axis], q.offset[axis]);
    CHECK(std::fabs(v - q.value(axis, raw)) <= q.tol(axis, raw), "ApplyScale(" << raw << ") = " << v);
    CHECK_EQ(RemoveScale<int32_t>(v, q.scale[axis], q.offset[axis]), raw, "RemoveScale(ApplyScale)");
    auto r = packX(v, q.scale[axis], q.offset[axis], axis);
    CHECK(r.has_value() && *r == raw, "packed as " << (r ? *r : -1) << " instead of " << raw);
}
// not-a-number, infinities, degenerate scales: refused, never stored as garbage
static void special(Gen &g)
{
    double s = g.pick({0.01, 1.0, 0.0, -1.0, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 1e-308});
    double o = g.pick({0.0, 5.0, std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN(), 1e308});
    double v = g.pick({0.0, 5.0, 1.0, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(),
                       std::numeric_limits<double>::quiet_NaN(), 1e308, -1e308});
    if (g.chance(1, 3))
        v = g.anyDouble();
    std::ostringstream n;
    n << v << " scale " << s << " offset " << o;
    g.note(n.str());
    double steps = (v - o) / s;
    int axis = static_cast<int>(g.below(3));
    auto r = packX(v, s, o, axis);
    if (std::isnan(steps) || std::fabs(steps) > 3e9)
    {
        g.nontrivial();
        CHECK(!r.has_value(), n.str() << " was stored as " << *r);
        CHECK_THROWS(RemoveScale<int32_t>(v, s, o), n.str());
    }
    else if (std::fabs(steps) < 2e9)
        CHECK(r.has_value() && std::fabs(*r - steps) <= 0.51, n.str() << " stored as " << (r ? *r : -1));
}
// narrower targets of the same helper
template <typename T> static void narrow(Gen &g, const char *name)
{
    double s = g.pick({1.0, 0.5, 0.25, 2.0}), o = static_cast<double>(g.range(-64, 64));
    double lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    double steps = g.flag() ? (g.flag() ? lo : hi) + static_cast<double>(g.range(-2, 2)) : std::floor(g.real(lo, hi));
    g.note(std::string(name) + " " + std::to_string(steps));
    g.nontrivial();
    double v = steps * s + o;
    if (steps >= lo && steps <= hi)
        CHECK_EQ(double(RemoveScale<T>(v, s, o)), steps, name);
    else
        CHECK_THROWS(RemoveScale<T>(v, s, o), name << " " << steps);
}
static void targets(Gen &g)
{
    switch (g.below(5))
    {
    case 0:
        return narrow<int32_t>(g, "int32");
    case 1:
        return narrow<uint32_t>(g, "uint32");
    case 2:
        return narrow<int16_t>(g, "int16");
    case 3:
        return narrow<uint16_t>(g, "uint16");
    default:
        return narrow<uint8_t>(g, "uint8");
    }
}
pbt::Property pbt::property()
{
    return {"C12",
            "a value clearly representable or clearly out of range, a stored value, or a non-finite input",
            {{"nearest", 40, nearest}, {"exact", 20, exact}, {"stored", 40, stored}, {"special", 15, special}, {"targets", 10, targets}},
            4200000,
            25200000};
}
