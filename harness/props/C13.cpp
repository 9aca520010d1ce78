// C13 Converting between point formats keeps every field both formats share
#include "../gen.hpp"
using namespace gen;

// expected packed record of r (stored under format `from`) after conversion to `to`
static Rec converted(Rec r, int from, int to)
{
    if (to < 7 || from < 7)
        r.r = r.g = r.b = 0;
    if (to != 8 || from != 8)
        r.nir = 0;
    return r;
}
static Bytes packed(const copc::las::Point &p, const Quant &q)
{
    std::ostringstream o;
    p.Pack(o, q.s(), q.o());
    return ubytes(o.str());
}

static void one(Gen &g)
{
    int from = static_cast<int>(g.range(6, 8)), to = static_cast<int>(g.range(6, 8));
    size_t eb = g.size(20);
    Quant q = quant(g);
    Rec r = rec(g, from, eb);
    copc::las::Point p(static_cast<int8_t>(from), static_cast<uint16_t>(eb));
    fill(p, r, q, from);
    g.label(std::to_string(from) + " -> " + std::to_string(to));
    if (from != to)
        g.nontrivial();
    p.ToPointFormat(static_cast<int8_t>(to));
    Rec w = converted(r, from, to);
    auto d = diff(p, w, q, to);
    CHECK(d.empty(), "after " << from << " -> " << to << ": " << d);
    checkBytes(packed(p, q), spec::encode(w, to), "packed record after conversion");
    // new fields are settable, dropped fields are refused
    if (to >= 7)
    {
        p.Rgb(1, 2, 3);
        CHECK(p.Red() == 1 && p.Green() == 2 && p.Blue() == 3, "colour cannot be set after conversion");
    }
    else
    {
        CHECK_THROWS(p.Red(), "Red on format 6");
        CHECK_THROWS(p.Green(), "Green on format 6");
        CHECK_THROWS(p.Blue(), "Blue on format 6");
        CHECK_THROWS(p.Rgb(1, 2, 3), "Rgb on format 6");
    }
    if (to == 8)
    {
        p.Nir(77);
        CHECK_EQ(int(p.Nir()), 77, "Nir after conversion");
    }
    else
        CHECK_THROWS(p.Nir(), "Nir on a format without it");
}

// A chain of conversions; colour and NIR become unspecified once a format without them was visited and the point had them
static void chain(Gen &g)
{
    int fmt = static_cast<int>(g.range(6, 8));
    size_t eb = g.size(12), n = g.below(8) == 7 ? 0 : 1 + g.below(5);
    Quant q = quant(g);
    std::vector<Rec> v = recs(g, fmt, eb, n, n);
    copc::las::Points pts = points(v, q, fmt, static_cast<int>(eb));
    // a copy of the container is taken by copying its points
    std::vector<std::shared_ptr<copc::las::Point>> copies;
    for (auto &p : pts)
        copies.push_back(std::make_shared<copc::las::Point>(*p));
    copc::las::Points copy(static_cast<int8_t>(fmt), static_cast<uint16_t>(eb));
    copy.AddPoints(copies);
    const int first = fmt;
    const std::vector<Rec> original = v;
    bool rgbKnown = true, nirKnown = true;
    int steps = static_cast<int>(1 + g.below(5)), changes = 0;
    std::string hist = std::to_string(fmt);
    for (int s = 0; s < steps; s++)
    {
        if (g.below(5) == 4)
        {
            int bad = g.pick({0, 1, 2, 3, 4, 5, 9, 10, 11, 127, -1, -128});
            CHECK_THROWS(pts.ToPointFormat(static_cast<int8_t>(bad)), "conversion to format " << bad);
            if (pts.Size() > 0)
                CHECK_THROWS(pts.Get(0)->ToPointFormat(static_cast<int8_t>(bad)), "point conversion to format " << bad);
            hist += " !" + std::to_string(bad);
            g.label("invalid target");
        }
        else
        {
            int to = static_cast<int>(g.range(6, 8));
            changes += to != fmt;
            if (to < 7 && fmt >= 7)
                rgbKnown = false;
            if (to != 8 && fmt == 8)
                nirKnown = false;
            if (fmt < 7 && to >= 7 && rgbKnown)
                for (auto &r : v)
                    r.r = r.g = r.b = 0;
            if (fmt != 8 && to == 8 && nirKnown)
                for (auto &r : v)
                    r.nir = 0;
            pts.ToPointFormat(static_cast<int8_t>(to));
            fmt = to;
            hist += " " + std::to_string(to);
        }
        if (fmt >= 7 && !rgbKnown) // what the points had before, or the default; pin which
        {
            for (size_t i = 0; i < v.size(); i++)
                CHECK((pts[i]->Red() == v[i].r && pts[i]->Green() == v[i].g && pts[i]->Blue() == v[i].b) ||
                          (pts[i]->Red() == 0 && pts[i]->Green() == 0 && pts[i]->Blue() == 0),
                      "colour of point " << i << " after formats " << hist << ": " << pts[i]->Red() << "," << pts[i]->Green() << "," << pts[i]->Blue());
            for (size_t i = 0; i < v.size(); i++)
                pts[i]->Rgb(v[i].r, v[i].g, v[i].b);
            rgbKnown = true;
        }
        if (fmt == 8 && !nirKnown)
        {
            for (size_t i = 0; i < v.size(); i++)
                CHECK(pts[i]->Nir() == v[i].nir || pts[i]->Nir() == 0, "near infrared of point " << i << " after formats " << hist << ": " << pts[i]->Nir());
            for (size_t i = 0; i < v.size(); i++)
                pts[i]->Nir(v[i].nir);
            nirKnown = true;
        }
        checkPoints(pts, v, q, fmt, static_cast<int>(eb), "after formats " + hist);
        CHECK_EQ(int(pts.EbByteSize()), int(eb), "container extra-byte size after " << hist);
        // the container still hands out and accepts points of its format
        auto fresh = pts.CreatePoint();
        CHECK_EQ(int(fresh->PointFormatId()), fmt, "CreatePoint after conversion");
        CHECK_EQ(int(fresh->EbByteSize()), int(eb), "CreatePoint extra bytes after conversion");
        pts.AddPoint(fresh);
        v.push_back(Rec());
        v.back().eb.assign(eb, 0);
        if (q.offset[0] || q.offset[1] || q.offset[2])
            fill(*fresh, v.back(), q, fmt);
    }
    g.note(hist);
    if (changes >= 2)
        g.nontrivial();
    // the copies were not affected
    CHECK_EQ(int(copy.PointFormatId()), first, "format of the copied container");
    for (auto &p : copy)
        CHECK_EQ(int(p->PointFormatId()), first, "format of a copied point");
    checkPoints(copy, original, q, first, static_cast<int>(eb), "copies of the points");
    // what the container now packs is what unpacks under its format
    Bytes raw;
    for (auto &r : v)
    {
        Rec w = r;
        spec::app(raw, spec::encode(w, fmt));
    }
    checkBytes(ubytes(pts.Pack(q.s(), q.o())), raw, "packed container after formats " + hist);
}

pbt::Property pbt::property()
{
    return {"C13",
            "a conversion to a different format (chains: at least two changes of format)",
            {{"point", 3, one}, {"chain", 2, chain}},
            1500000,
            15000000};
}
