// C11 Point fields are independent; out-of-range values are refused without effect
#include "../gen.hpp"
using namespace gen;

struct Model
{
    int fmt;
    double x{0}, y{0}, z{0};
    Rec r;
};
static void compare(const copc::las::Point &p, const Model &m, const std::string &op)
{
    CHECK(sameBits(p.X(), m.x) && sameBits(p.Y(), m.y) && sameBits(p.Z(), m.z),
          "after " << op << ": X,Y,Z = " << p.X() << "," << p.Y() << "," << p.Z() << ", expected " << m.x << "," << m.y << "," << m.z);
    // diff() compares every other accessor
    Quant q;
    for (int i = 0; i < 3; i++)
        q.scale[i] = 0;
    copc::las::Point c(p);
    c.X(0);
    c.Y(0);
    c.Z(0);
    auto d = diff(c, m.r, q, m.fmt);
    CHECK(d.empty(), "after " << op << ": " << d);
    CHECK(std::fabs(p.ScanAngleDegrees() - 0.006 * m.r.angle) < 1e-3, "after " << op << ": ScanAngleDegrees " << p.ScanAngleDegrees());
    if (m.fmt < 7)
    {
        CHECK_THROWS(p.Red(), "Red without colour");
        CHECK_THROWS(p.Green(), "Green without colour");
        CHECK_THROWS(p.Blue(), "Blue without colour");
    }
    if (m.fmt != 8)
        CHECK_THROWS(p.Nir(), "Nir without NIR");
}
static void history(Gen &g)
{
    Model m;
    m.fmt = static_cast<int>(g.range(6, 8));
    size_t eb = g.below(3) ? g.below(5) : g.below(300);
    m.r.eb.assign(eb, 0);
    copc::las::Point p(static_cast<int8_t>(m.fmt), static_cast<uint16_t>(eb));
    if (g.chance(1, 4))
    {
        // the header constructor is the same thing
        copc::las::LasHeader h(static_cast<int8_t>(m.fmt), static_cast<uint16_t>(spec::baseSize(m.fmt) + eb), {1, 1, 1}, {0, 0, 0}, true);
        p = copc::las::Point(h);
    }
    compare(p, m, "construction");
    int n = 1 + static_cast<int>(g.size(25));
    if (n > 3)
        g.nontrivial();
    g.note("format " + std::to_string(m.fmt) + ":");
    for (int i = 0; i < n; i++)
    {
        std::ostringstream op;
        auto bit = [&](int b, bool v) { m.r.flags = static_cast<uint8_t>((m.r.flags & ~(1 << b)) | (v << b)); };
        auto refused = [&](auto fn, const char *what)
        {
            bool threw = false;
            try
            {
                fn();
            }
            catch (const std::exception &)
            {
                threw = true;
            }
            g.label("refused value");
            CHECK(threw, what << " was accepted");
        };
        auto u16 = [&] { return static_cast<uint16_t>(g.uintN(16)); };
        switch (g.below(26))
        {
        case 0:
            p.X(m.x = g.finiteReal());
            op << "X";
            break;
        case 1:
            p.Y(m.y = g.finiteReal());
            op << "Y";
            break;
        case 2:
            p.Z(m.z = g.finiteReal());
            op << "Z";
            break;
        case 3:
            p.Intensity(m.r.intensity = u16());
            op << "Intensity";
            break;
        case 4: {
            auto v = static_cast<uint8_t>(g.below(4) ? g.below(16) : g.uintN(8));
            op << "ReturnNumber(" << int(v) << ")";
            if (v > 15)
                refused([&] { p.ReturnNumber(v); }, "ReturnNumber > 15");
            else
            {
                p.ReturnNumber(v);
                m.r.returns = static_cast<uint8_t>((m.r.returns & 0xF0) | v);
            }
            break;
        }
        case 5: {
            auto v = static_cast<uint8_t>(g.below(4) ? g.below(16) : g.uintN(8));
            op << "NumberOfReturns(" << int(v) << ")";
            if (v > 15)
                refused([&] { p.NumberOfReturns(v); }, "NumberOfReturns > 15");
            else
            {
                p.NumberOfReturns(v);
                m.r.returns = static_cast<uint8_t>((m.r.returns & 0x0F) | (v << 4));
            }
            break;
        }
        case 6: {
            bool v = g.flag();
            p.Synthetic(v);
            bit(0, v);
            op << "Synthetic(" << v << ")";
            break;
        }
        case 7: {
            bool v = g.flag();
            p.KeyPoint(v);
            bit(1, v);
            op << "KeyPoint(" << v << ")";
            break;
        }
        case 8: {
            bool v = g.flag();
            p.Withheld(v);
            bit(2, v);
            op << "Withheld(" << v << ")";
            break;
        }
        case 9: {
            bool v = g.flag();
            p.Overlap(v);
            bit(3, v);
            op << "Overlap(" << v << ")";
            break;
        }
        case 10: {
            auto v = static_cast<uint8_t>(g.below(4) ? g.below(4) : g.uintN(8));
            op << "ScannerChannel(" << int(v) << ")";
            if (v > 3)
                refused([&] { p.ScannerChannel(v); }, "ScannerChannel > 3");
            else
            {
                p.ScannerChannel(v);
                m.r.flags = static_cast<uint8_t>((m.r.flags & 0xCF) | (v << 4));
            }
            break;
        }
        case 11: {
            bool v = g.flag();
            p.ScanDirectionFlag(v);
            bit(6, v);
            op << "ScanDirectionFlag(" << v << ")";
            break;
        }
        case 12: {
            bool v = g.flag();
            p.EdgeOfFlightLineFlag(v);
            bit(7, v);
            op << "EdgeOfFlightLineFlag(" << v << ")";
            break;
        }
        case 13:
            p.Classification(m.r.cls = static_cast<uint8_t>(g.uintN(8)));
            op << "Classification";
            break;
        case 14:
            p.UserData(m.r.user = static_cast<uint8_t>(g.uintN(8)));
            op << "UserData";
            break;
        case 15:
            p.ScanAngle(m.r.angle = static_cast<int16_t>(g.intN(16)));
            op << "ScanAngle";
            break;
        case 16:
            p.PointSourceId(m.r.source = u16());
            op << "PointSourceId";
            break;
        case 17: {
            double t = g.finiteReal();
            p.GPSTime(t);
            m.r.gps = bitsOf(t);
            op << "GPSTime";
            break;
        }
        case 18:
        case 19: {
            uint16_t c[3] = {u16(), u16(), u16()};
            int how = static_cast<int>(g.below(5));
            auto set = [&]
            {
                if (how == 0)
                    p.Rgb(c[0], c[1], c[2]);
                else if (how == 1)
                    p.Rgb(std::vector<uint16_t>{c[0], c[1], c[2]});
                else if (how == 2)
                    p.Red(c[0]);
                else if (how == 3)
                    p.Green(c[1]);
                else
                    p.Blue(c[2]);
            };
            op << "colour(" << how << ")";
            if (m.fmt < 7)
                refused(set, "a colour without RGB");
            else
            {
                set();
                if (how == 0 || how == 1 || how == 2)
                    m.r.r = c[0];
                if (how == 0 || how == 1 || how == 3)
                    m.r.g = c[1];
                if (how == 0 || how == 1 || how == 4)
                    m.r.b = c[2];
            }
            break;
        }
        case 20: {
            uint16_t v = u16();
            op << "Nir";
            if (m.fmt != 8)
                refused([&] { p.Nir(v); }, "NIR without NIR");
            else
            {
                p.Nir(v);
                m.r.nir = v;
            }
            break;
        }
        case 21: {
            size_t len = g.below(3) ? eb : g.below(eb + 4);
            auto b = g.bytes(len);
            op << "ExtraBytes[" << len << "]";
            if (len != eb)
                refused([&] { p.ExtraBytes(b); }, "extra bytes of the wrong size");
            else
            {
                p.ExtraBytes(b);
                m.r.eb = b;
            }
            break;
        }
        case 22:
            p.ReturnsBitField(m.r.returns = static_cast<uint8_t>(g.uintN(8)));
            op << "ReturnsBitField";
            break;
        case 23:
            p.FlagsBitField(m.r.flags = static_cast<uint8_t>(g.uintN(8)));
            op << "FlagsBitField";
            break;
        case 24: {
            // writing back the degrees that were read changes nothing; a new value lands within the 0.006 step
            op << "ScanAngleDegrees";
            p.ScanAngleDegrees(p.ScanAngleDegrees());
            compare(p, m, op.str() + " of its own value");
            if (g.below(3) == 0) // beyond what 16 bits of 0.006 degrees hold
            {
                float big = g.pick({std::numeric_limits<float>::quiet_NaN(), std::numeric_limits<float>::infinity(), 3.4e38f, 1e12f, 393.2f, 197.0f});
                if (g.flag())
                    big = 196.7f + static_cast<float>(std::fabs(g.real(0, 1000)));
                if (g.flag())
                    big = -big;
                op << " " << big;
                refused([&] { p.ScanAngleDegrees(big); }, "a scan angle that does not fit");
                break;
            }
            const int steps = static_cast<int16_t>(g.intN(16));
            const bool exact = g.flag(); // what the getter gives for some angle
            float deg = exact ? 0.006f * static_cast<float>(steps) : static_cast<float>(g.real(-196.59, 196.59));
            p.ScanAngleDegrees(deg);
            if (exact)
                CHECK_EQ(int(p.ScanAngle()), steps, "scan angle set in degrees");
            CHECK(std::fabs(p.ScanAngle() * 0.006 - deg) <= 0.0031, "ScanAngleDegrees(" << deg << ") stored " << p.ScanAngle());
            m.r.angle = p.ScanAngle();
            break;
        }
        default: {
            size_t len = g.below(6);
            op << "Rgb list of " << len;
            if (len == 3 && m.fmt >= 7)
                break;
            std::vector<uint16_t> v(len, 7);
            refused([&] { p.Rgb(v); }, "a colour list of the wrong size");
        }
        }
        g.note(" " + op.str());
        compare(p, m, op.str());
    }
}
static void construct(Gen &g)
{
    int f = static_cast<int>(g.range(-128, 127));
    if (g.flag())
        f = static_cast<int>(g.range(3, 11));
    g.note("format " + std::to_string(f));
    auto eb = static_cast<uint16_t>(g.below(100));
    if (f < 6 || f > 8)
    {
        g.nontrivial();
        CHECK_THROWS(copc::las::Point(static_cast<int8_t>(f), eb), "point of format " << f);
        CHECK_THROWS(copc::las::Points(static_cast<int8_t>(f), eb), "points of format " << f);
        CHECK_THROWS(copc::CopcExtents(static_cast<int8_t>(f), 1, true), "extents of format " << f);
        CHECK_THROWS(copc::CopcConfigWriter(static_cast<int8_t>(f)), "COPC configuration of format " << f);
        CHECK_THROWS(copc::las::LazConfigWriter(static_cast<int8_t>(f)), "LAZ configuration of format " << f);
    }
    else
    {
        copc::las::Point p(static_cast<int8_t>(f), eb);
        Model m;
        m.fmt = f;
        m.r.eb.assign(eb, 0);
        compare(p, m, "construction");
    }
}
pbt::Property pbt::property()
{
    return {"C11", "a history of more than three setter calls, or an unsupported format", {{"history", 90, history}, {"construct", 5, construct}}, 1000000, 6000000};
}
