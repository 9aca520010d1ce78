// C14 The point container behaves like a list of points of one format
#include "../gen.hpp"
using namespace gen;

struct Model
{
    int fmt;
    size_t eb;
    Quant q;
    std::vector<Rec> v;
    std::vector<PointPtr> id;
};
static PointPtr mk(const Rec &r, const Quant &q, int fmt)
{
    auto p = std::make_shared<copc::las::Point>(static_cast<int8_t>(fmt), static_cast<uint16_t>(r.eb.size()));
    fill(*p, r, q, fmt);
    return p;
}
static void check(copc::las::Points &pts, Model &m, const std::string &what)
{
    CHECK_EQ(pts.Size(), m.v.size(), what << ": Size");
    CHECK_EQ(int(pts.PointFormatId()), m.fmt, what << ": format");
    CHECK_EQ(int(pts.EbByteSize()), int(m.eb), what << ": extra bytes");
    CHECK_EQ(int(pts.PointRecordLength()), int(spec::baseSize(m.fmt) + m.eb), what << ": record length");
    size_t i = 0;
    for (auto &p : pts)
    {
        CHECK(p == m.id[i], what << ": element " << i << " is another point");
        auto d = diff(*p, m.v[i], m.q, m.fmt);
        CHECK(d.empty(), what << ": element " << i << ": " << d);
        CHECK(pts[i] == m.id[i] && pts.Get(i) == m.id[i] && std::as_const(pts)[i] == m.id[i], what << ": index access " << i);
        i++;
    }
    auto all = pts.Get();
    CHECK(all == m.id, what << ": Get()");
    // column views
    auto xs = pts.X(), ys = pts.Y(), zs = pts.Z();
    auto cs = pts.Classification();
    auto ids = pts.PointSourceId();
    CHECK(xs.size() == m.v.size() && ys.size() == m.v.size() && zs.size() == m.v.size() && cs.size() == m.v.size() &&
              ids.size() == m.v.size(),
          what << ": column sizes");
    for (size_t k = 0; k < m.v.size(); k++)
    {
        CHECK(sameBits(xs[k], m.id[k]->X()) && sameBits(ys[k], m.id[k]->Y()) && sameBits(zs[k], m.id[k]->Z()),
              what << ": coordinate column " << k);
        CHECK_EQ(int(cs[k]), int(m.v[k].cls), what << ": classification column " << k);
        CHECK_EQ(int(ids[k]), int(m.v[k].source), what << ": point source column " << k);
    }
    if (m.fmt >= 7)
    {
        auto r = pts.Red(), gr = pts.Green(), b = pts.Blue();
        for (size_t k = 0; k < m.v.size(); k++)
            CHECK(r[k] == m.v[k].r && gr[k] == m.v[k].g && b[k] == m.v[k].b, what << ": colour column " << k);
    }
}

static void history(Gen &g)
{
    Model m;
    m.fmt = static_cast<int>(g.range(6, 8));
    m.eb = g.size(8);
    m.q = quant(g);
    copc::las::Points pts(static_cast<int8_t>(m.fmt), static_cast<uint16_t>(m.eb));
    if (g.below(4) == 3)
    {
        m.v = recs(g, m.fmt, m.eb, 1, 4);
        for (auto &r : m.v)
            m.id.push_back(mk(r, m.q, m.fmt));
        pts = copc::las::Points(m.id);
        g.label("constructed from a vector");
    }
    else if (g.below(4) == 3)
        pts = copc::las::Points(copc::las::LasHeader(static_cast<int8_t>(m.fmt), static_cast<uint16_t>(spec::baseSize(m.fmt) + m.eb),
                                                     m.q.s(), m.q.o(), true));
    int steps = static_cast<int>(1 + g.below(10)), refused = 0, done = 0;
    std::string hist;
    for (int s = 0; s < steps; s++)
    {
        size_t op = g.weighted({4, 3, 2, 3, 3, 3, 3, 1, 1});
        switch (op)
        {
        case 0: { // add one
            Rec r = rec(g, m.fmt, m.eb);
            PointPtr p = g.flag() ? pts.CreatePoint() : mk(r, m.q, m.fmt);
            fill(*p, r, m.q, m.fmt);
            pts.AddPoint(p);
            m.v.push_back(r);
            m.id.push_back(p);
            hist += "add ";
            break;
        }
        case 1: { // add a container
            auto v = recs(g, m.fmt, m.eb, 0, 4);
            copc::las::Points o = points(v, m.q, m.fmt, static_cast<int>(m.eb));
            pts.AddPoints(o);
            for (size_t i = 0; i < v.size(); i++)
            {
                m.v.push_back(v[i]);
                m.id.push_back(o[i]);
            }
            hist += "addPoints" + std::to_string(v.size()) + " ";
            break;
        }
        case 2: { // add a vector
            auto v = recs(g, m.fmt, m.eb, 0, 4);
            std::vector<PointPtr> o;
            for (auto &r : v)
                o.push_back(mk(r, m.q, m.fmt));
            pts.AddPoints(o);
            m.v.insert(m.v.end(), v.begin(), v.end());
            m.id.insert(m.id.end(), o.begin(), o.end());
            hist += "addVector" + std::to_string(v.size()) + " ";
            break;
        }
        case 3: { // refused: something of another shape
            int f2 = static_cast<int>(g.range(6, 8));
            size_t e2 = g.size(8);
            // same record length, other format, over-represented
            if (g.flag() && m.eb >= 6)
            {
                f2 = m.fmt == 6 ? 7 : m.fmt;
                e2 = m.fmt == 6 ? m.eb - 6 : m.eb - 1;
            }
            if (f2 == m.fmt && e2 == m.eb)
                e2++;
            auto bad = mk(rec(g, f2, e2), m.q, f2);
            switch (g.below(4))
            {
            case 0:
                CHECK_THROWS(pts.AddPoint(bad), "AddPoint of format " << f2 << " eb " << e2);
                break;
            case 1: {
                copc::las::Points o(static_cast<int8_t>(f2), static_cast<uint16_t>(e2));
                if (g.flag())
                    o.AddPoint(bad);
                CHECK_THROWS(pts.AddPoints(o), "AddPoints of format " << f2 << " eb " << e2);
                break;
            }
            default: { // a vector where only one element is bad
                std::vector<PointPtr> o;
                size_t n = 1 + g.below(4), at = g.below(n);
                for (size_t i = 0; i < n; i++)
                    o.push_back(i == at ? bad : mk(rec(g, m.fmt, m.eb), m.q, m.fmt));
                if (g.flag()) // no point at all
                {
                    o[at] = nullptr;
                    CHECK_THROWS(pts.AddPoint(nullptr), "AddPoint of an empty pointer");
                    CHECK_THROWS(copc::las::Points{o}, "container of a vector with an empty pointer");
                }
                CHECK_THROWS(pts.AddPoints(o), "AddPoints of a vector with one point of format " << f2 << " eb " << e2);
            }
            }
            refused++;
            hist += "refused ";
            break;
        }
        case 4: { // column setters, right size
            size_t n = m.v.size();
            switch (g.below(m.fmt >= 7 ? 8 : 5))
            {
            case 0: {
                std::vector<double> c(n);
                for (size_t i = 0; i < n; i++)
                {
                    m.v[i].x = static_cast<int32_t>(g.intN(32));
                    c[i] = m.q.value(0, m.v[i].x);
                }
                pts.X(c);
                break;
            }
            case 1: {
                std::vector<double> c(n);
                for (size_t i = 0; i < n; i++)
                {
                    m.v[i].y = static_cast<int32_t>(g.intN(32));
                    c[i] = m.q.value(1, m.v[i].y);
                }
                pts.Y(c);
                break;
            }
            case 2: {
                std::vector<double> c(n);
                for (size_t i = 0; i < n; i++)
                {
                    m.v[i].z = static_cast<int32_t>(g.intN(32));
                    c[i] = m.q.value(2, m.v[i].z);
                }
                pts.Z(c);
                break;
            }
            case 3: {
                std::vector<uint8_t> c(n);
                for (size_t i = 0; i < n; i++)
                    m.v[i].cls = c[i] = static_cast<uint8_t>(g.uintN(8));
                pts.Classification(c);
                break;
            }
            case 4: {
                std::vector<uint16_t> c(n);
                for (size_t i = 0; i < n; i++)
                    m.v[i].source = c[i] = static_cast<uint16_t>(g.uintN(16));
                pts.PointSourceId(c);
                break;
            }
            case 5: {
                std::vector<uint16_t> c(n);
                for (size_t i = 0; i < n; i++)
                    m.v[i].r = c[i] = static_cast<uint16_t>(g.uintN(16));
                pts.Red(c);
                break;
            }
            case 6: {
                std::vector<uint16_t> c(n);
                for (size_t i = 0; i < n; i++)
                    m.v[i].g = c[i] = static_cast<uint16_t>(g.uintN(16));
                pts.Green(c);
                break;
            }
            default: {
                std::vector<uint16_t> c(n);
                for (size_t i = 0; i < n; i++)
                    m.v[i].b = c[i] = static_cast<uint16_t>(g.uintN(16));
                pts.Blue(c);
            }
            }
            hist += "column ";
            break;
        }
        case 5: { // column setters, wrong size
            size_t n = g.below(m.v.size() + 3);
            if (n == m.v.size())
                n++;
            std::vector<double> d(n, 1.5);
            std::vector<uint8_t> b(n, 3);
            std::vector<uint16_t> h(n, 4);
            switch (g.below(8))
            {
            case 0:
                CHECK_THROWS(pts.X(d), "X column of " << n << " for " << m.v.size() << " points");
                break;
            case 1:
                CHECK_THROWS(pts.Y(d), "Y column of " << n << " for " << m.v.size() << " points");
                break;
            case 2:
                CHECK_THROWS(pts.Z(d), "Z column of " << n << " for " << m.v.size() << " points");
                break;
            case 3:
                CHECK_THROWS(pts.Classification(b), "Classification column of " << n << " for " << m.v.size() << " points");
                break;
            case 4:
                CHECK_THROWS(pts.PointSourceId(h), "PointSourceId column of " << n << " for " << m.v.size() << " points");
                break;
            case 5:
                CHECK_THROWS(pts.Red(h), "Red column of " << n << " for " << m.v.size() << " points");
                break;
            case 6:
                CHECK_THROWS(pts.Green(h), "Green column of " << n << " for " << m.v.size() << " points");
                break;
            default:
                CHECK_THROWS(pts.Blue(h), "Blue column of " << n << " for " << m.v.size() << " points");
            }
            refused++;
            hist += "wrongsize ";
            break;
        }
        case 6: { // box queries
            double lo[3], hi[3];
            for (int a = 0; a < 3; a++)
            {
                auto value = [&]()
                {
                    if (m.v.empty() || g.below(4) == 3)
                        return g.niceReal();
                    auto &p = *m.id[g.below(m.id.size())];
                    return a == 0 ? p.X() : a == 1 ? p.Y() : p.Z();
                };
                double s = value(), t = value();
                lo[a] = std::min(s, t);
                hi[a] = std::max(s, t);
            }
            copc::Box box(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]);
            std::vector<PointPtr> want;
            for (auto &p : m.id)
            {
                double c[3] = {p->X(), p->Y(), p->Z()};
                bool in = true;
                for (int a = 0; a < 3; a++)
                    in &= c[a] >= lo[a] && c[a] <= hi[a];
                CHECK_EQ(p->Within(box), in, "Point::Within " << c[0] << "," << c[1] << "," << c[2] << " in " << box);
                if (in)
                    want.push_back(p);
            }
            CHECK(pts.GetWithin(box) == want, "GetWithin " << box << " selects other points");
            CHECK_EQ(pts.Within(box), want.size() == m.id.size(), "Points::Within " << box);
            if (!want.empty() && want.size() < m.id.size())
                g.label("box splits the points");
            hist += "box ";
            break;
        }
        case 7: { // replace an element through operator[]
            if (m.v.empty())
                break;
            size_t i = g.below(m.v.size());
            Rec r = rec(g, m.fmt, m.eb);
            auto p = mk(r, m.q, m.fmt);
            pts[i] = p;
            m.v[i] = r;
            m.id[i] = p;
            hist += "replace ";
            break;
        }
        default: { // copies share the points but not the list; reserving changes nothing; adding to itself doubles
            copc::las::Points copy = pts;
            copy.AddPoint(copy.CreatePoint());
            CHECK_EQ(copy.Size(), m.v.size() + 1, "copied container");
            pts.Reserve(g.below(50));
            if (m.v.size() <= 8 && g.flag())
            {
                // distinct point objects stay distinct in the model: the same points appear twice
                pts.AddPoints(pts);
                CHECK_EQ(pts.Size(), 2 * m.v.size(), "a container added to itself");
                for (size_t i = 0; i < m.v.size(); i++)
                    CHECK(pts[i] == m.id[i] && pts[m.v.size() + i] == m.id[i], "a container added to itself");
                pts = copc::las::Points(static_cast<int8_t>(m.fmt), static_cast<uint16_t>(m.eb));
                pts.AddPoints(m.id);
            }
            hist += "copy ";
        }
        }
        done++;
        check(pts, m, "after " + hist);
    }
    g.note(hist);
    if (refused)
        g.label("refused operation");
    if (done >= 3 && m.v.size() >= 2)
        g.nontrivial();
}
static void construct(Gen &g)
{
    // from a vector: empty refused, mixed refused
    CHECK_THROWS(copc::las::Points(std::vector<PointPtr>{}), "Points from an empty vector");
    int fmt = static_cast<int>(g.range(6, 8));
    size_t eb = g.size(10);
    Quant q;
    std::vector<PointPtr> v;
    size_t n = 1 + g.below(5);
    for (size_t i = 0; i < n; i++)
        v.push_back(mk(rec(g, fmt, eb), q, fmt));
    size_t at = g.below(n);
    int f2 = static_cast<int>(g.range(6, 8));
    size_t e2 = g.size(10);
    if (g.flag())
        v[at] = mk(rec(g, f2, e2), q, f2);
    else
        f2 = fmt, e2 = eb;
    if ((f2 != fmt || e2 != eb) && n > 1)
    {
        CHECK_THROWS(copc::las::Points{v}, "Points from a vector mixing formats");
        g.label("mixed vector");
        g.nontrivial();
    }
    else
    {
        copc::las::Points p(v);
        CHECK_EQ(p.Size(), n, "Points from a vector");
        CHECK_EQ(int(p.PointFormatId()), int(v[0]->PointFormatId()), "Points from a vector: format");
        CHECK_EQ(int(p.EbByteSize()), int(v[0]->EbByteSize()), "Points from a vector: extra bytes");
        g.nontrivial();
    }
    int bad = g.pick({-1, -128, 11, 12, 127});
    CHECK_THROWS(copc::las::Points(static_cast<int8_t>(bad)), "Points of format " << bad);
    int badp = g.pick({-1, -128, 0, 1, 2, 3, 4, 5, 9, 10, 11, 127});
    CHECK_THROWS(copc::las::Point(static_cast<int8_t>(badp)), "Point of format " << badp);
}

// records as long as the record length field can say, and longer
static void longest(Gen &g)
{
    const int fmt = static_cast<int>(g.range(6, 8)), to = static_cast<int>(g.range(6, 8));
    const int eb = g.below(4) ? static_cast<int>(g.range(65535 - 40, 65535)) : 65535 - spec::baseSize(fmt) + static_cast<int>(g.range(-1, 1));
    const auto f = static_cast<int8_t>(fmt);
    const auto e = static_cast<uint16_t>(eb);
    g.note("format " + std::to_string(fmt) + " to " + std::to_string(to) + ", " + std::to_string(eb) + " extra bytes");
    g.nontrivial();
    if (spec::baseSize(fmt) + eb > 65535)
    {
        CHECK_THROWS(copc::las::Point(f, e), "a point of " << spec::baseSize(fmt) + eb << " bytes");
        CHECK_THROWS(copc::las::Points(f, e), "points of " << spec::baseSize(fmt) + eb << " bytes");
        CHECK_THROWS(copc::las::Points::Unpack(std::vector<char>(static_cast<uint16_t>(spec::baseSize(fmt) + eb)), f, e,
                                               copc::Vector3::DefaultScale(), copc::Vector3::DefaultOffset()),
                     "unpacking points of " << spec::baseSize(fmt) + eb << " bytes");
        return;
    }
    copc::las::Points pts(f, e);
    const size_t n = g.below(3);
    for (size_t i = 0; i < n; i++)
    {
        auto p = g.flag() ? pts.CreatePoint() : std::make_shared<copc::las::Point>(f, e);
        p->Intensity(static_cast<uint16_t>(i + 1));
        p->ExtraBytes(std::vector<uint8_t>(eb, static_cast<uint8_t>(i + 7)));
        pts.AddPoint(p);
    }
    int now = fmt;
    if (spec::baseSize(to) + eb > 65535)
        CHECK_THROWS(pts.ToPointFormat(static_cast<int8_t>(to)), "conversion to records of " << spec::baseSize(to) + eb << " bytes");
    else
        pts.ToPointFormat(static_cast<int8_t>(now = to));
    CHECK_EQ(pts.Size(), n, "size");
    CHECK_EQ(int(pts.PointFormatId()), now, "format of the container");
    CHECK_EQ(pts.PointRecordLength(), uint32_t(spec::baseSize(now) + eb), "record length of the container");
    CHECK_EQ(pts.EbByteSize(), uint32_t(eb), "extra bytes of the container");
    for (size_t i = 0; i < n; i++)
    {
        CHECK_EQ(int(pts[i]->PointFormatId()), now, "format of a point");
        CHECK_EQ(pts[i]->PointRecordLength(), uint32_t(spec::baseSize(now) + eb), "record length of a point");
        CHECK_EQ(pts[i]->Intensity(), uint16_t(i + 1), "intensity");
        CHECK(pts[i]->HasRgb() == (now != 6) && pts[i]->HasNir() == (now == 8), "fields of a point");
        CHECK(pts[i]->ExtraBytes() == std::vector<uint8_t>(eb, static_cast<uint8_t>(i + 7)), "extra bytes");
    }
    CHECK_EQ(pts.Pack(copc::Vector3::DefaultScale(), copc::Vector3::DefaultOffset()).size(), n * (spec::baseSize(now) + eb), "packed bytes");
}
// far more points than other histories have
static void large(Gen &g)
{
    Model m;
    m.fmt = static_cast<int>(g.range(6, 8));
    m.eb = g.size(3);
    m.q = quant(g);
    auto base = recs(g, m.fmt, m.eb, 1, 3);
    size_t n = g.pick({255, 256, 257, 32767, 32768, 32769, 65535, 65536, 65537});
    if (g.below(4) == 3)
        n = 1 + g.below(66000);
    g.note(std::to_string(n) + " points of format " + std::to_string(m.fmt));
    auto at = [&](size_t i) {
        Rec r = base[i % base.size()];
        r.x = static_cast<int32_t>(i * 31);
        return r;
    };
    copc::las::Points pts(static_cast<int8_t>(m.fmt), static_cast<uint16_t>(m.eb));
    const size_t first = g.below(n + 1);
    for (size_t i = 0; i < first; i++)
        pts.AddPoint(mk(at(i), m.q, m.fmt));
    {
        copc::las::Points rest(static_cast<int8_t>(m.fmt), static_cast<uint16_t>(m.eb));
        std::vector<PointPtr> v;
        for (size_t i = first; i < n; i++)
            v.push_back(mk(at(i), m.q, m.fmt));
        if (g.flag())
            pts.AddPoints(v);
        else
        {
            rest.AddPoints(v);
            pts.AddPoints(rest);
        }
    }
    for (size_t i = 0; i < n; i++)
        m.v.push_back(at(i));
    std::string hist = "built";
    for (size_t steps = 1 + g.below(3); steps > 0; steps--)
    {
        const uint64_t a = 1 + g.below(60000), c = g.below(60000);
        std::vector<uint16_t> h(n);
        std::vector<uint8_t> b(n);
        std::vector<double> d(n);
        for (size_t i = 0; i < n; i++)
        {
            h[i] = static_cast<uint16_t>(a * i + c);
            b[i] = static_cast<uint8_t>(a * i + c);
        }
        auto axis = [&](int k, int32_t Rec::*f) {
            for (size_t i = 0; i < n; i++)
                d[i] = m.q.value(k, m.v[i].*f = static_cast<int32_t>(a * i + c));
        };
        switch (g.below(m.fmt >= 7 ? 10 : 7))
        {
        case 0:
            axis(0, &Rec::x);
            pts.X(d);
            hist += " X";
            break;
        case 1:
            axis(1, &Rec::y);
            pts.Y(d);
            hist += " Y";
            break;
        case 2:
            axis(2, &Rec::z);
            pts.Z(d);
            hist += " Z";
            break;
        case 3:
            for (size_t i = 0; i < n; i++)
                m.v[i].cls = b[i];
            pts.Classification(b);
            hist += " classification";
            break;
        case 4:
            for (size_t i = 0; i < n; i++)
                m.v[i].source = h[i];
            pts.PointSourceId(h);
            hist += " source";
            break;
        case 5: {
            auto back = copc::las::Points::Unpack(pts.Pack(m.q.s(), m.q.o()), static_cast<int8_t>(m.fmt), static_cast<uint16_t>(m.eb), m.q.s(), m.q.o());
            pts = back;
            hist += " packed";
            break;
        }
        case 6:
            h.pop_back();
            CHECK_THROWS(pts.PointSourceId(h), "one value too few");
            h.resize(n + 1);
            CHECK_THROWS(pts.PointSourceId(h), "one value too many");
            hist += " refused";
            break;
        case 7:
            for (size_t i = 0; i < n; i++)
                m.v[i].r = h[i];
            pts.Red(h);
            hist += " red";
            break;
        case 8:
            for (size_t i = 0; i < n; i++)
                m.v[i].g = h[i];
            pts.Green(h);
            hist += " green";
            break;
        default:
            for (size_t i = 0; i < n; i++)
                m.v[i].b = h[i];
            pts.Blue(h);
            hist += " blue";
        }
    }
    g.note(hist);
    CHECK_EQ(pts.Size(), n, "Size");
    checkPoints(pts, m.v, m.q, m.fmt, static_cast<int>(m.eb), "large container");
    auto ids = pts.PointSourceId();
    auto cs = pts.Classification();
    CHECK(ids.size() == n && cs.size() == n && pts.X().size() == n && pts.Y().size() == n && pts.Z().size() == n, "column sizes");
    for (size_t i = 0; i < n; i++)
        CHECK(ids[i] == m.v[i].source && cs[i] == m.v[i].cls, "columns of point " << i);
    g.nontrivial();
}

pbt::Property pbt::property()
{
    return {"C14",
            "a history of at least three operations that ends with at least two points, or a construction from a vector",
            {{"history", 60000, history}, {"construct", 10000, construct}, {"large", 8, large}, {"longest", 60, longest}},
            1000000,
            6000000};
}
