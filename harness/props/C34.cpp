// C34 Value types compare, copy, hash and serialise by value
#include "../gen.hpp"
using namespace gen;

static void point(Gen &g)
{
    int fmt = static_cast<int>(g.range(6, 8));
    size_t eb = g.size(12);
    Quant q;
    q.scale[0] = q.scale[1] = q.scale[2] = 0.001;
    Rec r = rec(g, fmt, eb);
    copc::las::Point a(static_cast<int8_t>(fmt), static_cast<uint16_t>(eb));
    fill(a, r, q, fmt);
    copc::las::Point b(a);
    if (g.below(4) == 3) // a copy by assignment to another point
    {
        copc::las::Point o(static_cast<int8_t>(6 + g.below(3)), static_cast<uint16_t>(g.below(5)));
        o = a;
        b = o;
        g.label("assigned");
    }
    CHECK(a == b && b == a && !(a != b), "a copied point differs from its original");
    auto d = diff(b, r, q, fmt);
    CHECK(d.empty(), "copied point: " << d);
    CHECK(sameBits(a.X(), b.X()) && sameBits(a.Y(), b.Y()) && sameBits(a.Z(), b.Z()), "copied coordinates");
    // change exactly one thing in the copy
    int what = static_cast<int>(g.below(24));
    bool differs = true;
    auto delta = [&]() -> double
    {
        double s = g.flag() ? 1 : -1;
        switch (g.below(3))
        {
        case 0:
            differs = false;
            return s * g.pick({0.0, 1e-7, 2e-7, 5e-7});
        case 1:
            return s * g.pick({2e-6, 1e-5, 0.001, 1.0});
        default:
            return s * (2e-6 + std::fabs(g.niceReal()));
        }
    };
    auto bump8 = [&](uint8_t v) { return static_cast<uint8_t>(v ^ (1u << g.below(8))); };
    auto bump16 = [&](uint16_t v) { return static_cast<uint16_t>(v ^ (1u << g.below(16))); };
    std::string name;
    switch (what)
    {
    case 0:
        name = "X", b.X(a.X() + delta());
        break;
    case 1:
        name = "Y", b.Y(a.Y() + delta());
        break;
    case 2:
        name = "Z", b.Z(a.Z() + delta());
        break;
    case 3:
        name = "intensity", b.Intensity(bump16(a.Intensity()));
        break;
    case 4:
        name = "returns", b.ReturnsBitField(bump8(a.ReturnsBitField()));
        break;
    case 5:
        name = "flags", b.FlagsBitField(bump8(a.FlagsBitField()));
        break;
    case 6:
        name = "classification", b.Classification(bump8(a.Classification()));
        break;
    case 7:
        name = "user data", b.UserData(bump8(a.UserData()));
        break;
    case 8:
        name = "scan angle", b.ScanAngle(static_cast<int16_t>(bump16(static_cast<uint16_t>(a.ScanAngle()))));
        break;
    case 9:
        name = "source", b.PointSourceId(bump16(a.PointSourceId()));
        break;
    case 10: {
        name = "gps time";
        double t = a.GPSTime();
        double n = g.flag() ? std::nextafter(t, 1e300) : t + 1;
        if (n == t)
            n = 0;
        differs = n != t;
        b.GPSTime(n);
        break;
    }
    case 11:
        name = "red", differs = fmt >= 7;
        if (fmt >= 7)
            b.Red(bump16(a.Red()));
        break;
    case 12:
        name = "green", differs = fmt >= 7;
        if (fmt >= 7)
            b.Green(bump16(a.Green()));
        break;
    case 13:
        name = "blue", differs = fmt >= 7;
        if (fmt >= 7)
            b.Blue(bump16(a.Blue()));
        break;
    case 14:
        name = "nir", differs = fmt == 8;
        if (fmt == 8)
            b.Nir(bump16(a.Nir()));
        break;
    case 15: {
        name = "extra bytes", differs = eb > 0;
        auto e = a.ExtraBytes();
        if (eb)
            e[g.below(eb)] ^= static_cast<uint8_t>(1u << g.below(8));
        b.ExtraBytes(e);
        break;
    }
    case 16: {
        name = "format";
        int f2 = 6 + (fmt - 6 + 1 + static_cast<int>(g.below(2))) % 3;
        b.ToPointFormat(static_cast<int8_t>(f2));
        break;
    }
    default:
        name = "nothing", differs = false;
    }
    g.label(name);
    g.note(name + " format " + std::to_string(fmt));
    if (what < 17)
        g.nontrivial();
    CHECK_EQ(a == b, !differs, "a == b after changing " << name);
    CHECK_EQ(b == a, !differs, "b == a after changing " << name);
    CHECK_EQ(a != b, differs, "a != b after changing " << name);
    d = diff(a, r, q, fmt);
    CHECK(d.empty(), "changing a copy changed the original: " << d);
    // points of another shape are never equal
    copc::las::Point c(static_cast<int8_t>(fmt), static_cast<uint16_t>(eb + 1));
    copc::las::Point z(static_cast<int8_t>(fmt), static_cast<uint16_t>(eb));
    CHECK(!(c == z) && !(z == c), "points with different numbers of extra bytes compare equal");
}

static copc::VoxelKey anyKey(Gen &g)
{
    auto c = [&]() { return static_cast<int32_t>(g.flag() ? g.below(4) : g.intN(32)); };
    int32_t d = c(), x = c(), y = c(), z = c();
    return {d, x, y, z};
}
static void keys(Gen &g)
{
    auto a = anyKey(g), b = a;
    int w = static_cast<int>(g.below(6));
    auto other = [&](int32_t v) { return static_cast<int32_t>(uint32_t(v) ^ (1u << g.below(32))); };
    if (w == 0)
        b.d = other(a.d);
    if (w == 1)
        b.x = other(a.x);
    if (w == 2)
        b.y = other(a.y);
    if (w == 3)
        b.z = other(a.z);
    if (w == 4)
        b = anyKey(g);
    bool eq = a.d == b.d && a.x == b.x && a.y == b.y && a.z == b.z;
    CHECK_EQ(a == b, eq, "key equality " << a << " " << b);
    CHECK_EQ(b == a, eq, "key equality " << b << " " << a);
    CHECK_EQ(a != b, !eq, "key inequality " << a << " " << b);
    std::hash<copc::VoxelKey> h;
    if (eq)
        CHECK_EQ(h(a), h(b), "hash of equal keys " << a);
    CHECK_EQ(h(a), h(copc::VoxelKey(a)), "hash of a copy");
    copc::VoxelKey fromVec(std::vector<int32_t>{a.d, a.x, a.y, a.z});
    CHECK(fromVec == a, "key from a vector: " << fromVec << " for " << a);
    size_t n = g.below(8);
    if (n != 4)
        CHECK_THROWS(copc::VoxelKey(std::vector<int32_t>(n, 1)), "key from a vector of " << n);
    std::ostringstream want;
    want << "(" << a.d << ", " << a.x << ", " << a.y << ", " << a.z << ")";
    CHECK_EQ(a.ToString(), want.str(), "key text");
    CHECK_EQ(a.IsValid(), a.d >= 0 && a.x >= 0 && a.y >= 0 && a.z >= 0, "validity of " << a);
    // a hash map over keys behaves like an ordered map
    std::unordered_map<copc::VoxelKey, int> m;
    std::map<Key, int> model;
    int steps = static_cast<int>(g.below(30));
    for (int i = 0; i < steps; i++)
    {
        Key k = key(g, 3);
        if (g.below(4) == 3)
        {
            m.erase(vk(k));
            model.erase(k);
        }
        else
        {
            m[vk(k)] = i;
            model[k] = i;
        }
    }
    CHECK_EQ(m.size(), model.size(), "hash map size");
    for (auto &e : model)
    {
        auto it = m.find(vk(e.first));
        CHECK(it != m.end() && it->second == e.second, "hash map lookup of " << e.first.s());
    }
    if (w < 5)
        g.nontrivial();
}

static copc::Entry entry(Gen &g)
{
    auto k = anyKey(g);
    uint64_t off = g.uintN(64);
    int32_t size = static_cast<int32_t>(g.intN(32)), count = static_cast<int32_t>(g.intN(32));
    return copc::Entry(k, off, size, count);
}
static void entries(Gen &g)
{
    auto e = entry(g);
    std::stringstream s;
    s << "x";
    e.Pack(s);
    Bytes want;
    for (int32_t v : {e.key.d, e.key.x, e.key.y, e.key.z})
        spec::le(want, uint32_t(v), 4);
    spec::le(want, e.offset, 8);
    spec::le(want, uint32_t(e.byte_size), 4);
    spec::le(want, uint32_t(e.point_count), 4);
    Bytes got = ubytes(s.str());
    got.erase(got.begin());
    checkBytes(got, want, "packed hierarchy entry");
    s.get();
    auto u = copc::Entry::Unpack(s);
    CHECK(u.key == e.key && u.offset == e.offset && u.byte_size == e.byte_size && u.point_count == e.point_count,
          "unpacked entry " << u << " for " << e);
    bool keyOk = e.key.d >= 0 && e.key.x >= 0 && e.key.y >= 0 && e.key.z >= 0;
    CHECK_EQ(e.IsValid(), keyOk && e.byte_size >= 0, "validity of " << e);
    CHECK_EQ(e.IsPage(), keyOk && e.byte_size >= 0 && e.point_count == -1, "is page " << e);
    CHECK(!copc::Entry().IsValid() && !copc::Node().IsValid(), "default entry is valid");
    std::ostringstream text;
    text << e;
    CHECK_EQ(text.str(), e.ToString(), "an entry's text");
    // nodes and pages
    auto pk = anyKey(g);
    copc::Node n(e, pk), m(e, anyKey(g));
    CHECK(n.page_key == pk, "page key of a node");
    CHECK(n == m, "nodes with the same entry differ");
    copc::Page p(e), q(e);
    CHECK(p == q, "pages with the same entry differ");
    p.loaded = true;
    CHECK(!(p == q), "loaded and unloaded pages are equal");
    CHECK_EQ(p.IsValid(), keyOk, "validity of a loaded page");
    CHECK_EQ(q.IsValid(), keyOk && e.byte_size >= 0, "validity of an unloaded page");
    CHECK_EQ(p.IsPage(), keyOk && e.point_count == -1, "loaded page");
    q.loaded = true;
    CHECK(p == q, "loaded pages with the same entry differ");
    copc::Entry f = e;
    switch (g.below(4))
    {
    case 0:
        f.offset ^= uint64_t(1) << g.below(64);
        break;
    case 1:
        f.byte_size = static_cast<int32_t>(uint32_t(f.byte_size) ^ (1u << g.below(32)));
        break;
    case 2:
        f.point_count = static_cast<int32_t>(uint32_t(f.point_count) ^ (1u << g.below(32)));
        break;
    default: {
        int32_t *c[4] = {&f.key.d, &f.key.x, &f.key.y, &f.key.z};
        auto &v = *c[g.below(4)];
        v = static_cast<int32_t>(uint32_t(v) ^ (1u << g.below(32)));
    }
    }
    copc::Node o(f, pk);
    CHECK(!(n == o) && !(o == n), "nodes of different entries compare equal: " << e << " / " << f);
    copc::Page r(f), t(e);
    CHECK(!(r == t) && !(t == r), "pages of different entries compare equal: " << e << " / " << f);
    copc::Page made(e.key, static_cast<int64_t>(e.offset & 0x7fffffffffffffffull), e.byte_size);
    CHECK(made.key == e.key && made.offset == (e.offset & 0x7fffffffffffffffull) && made.byte_size == e.byte_size && made.point_count == -1, "page from its parts");
    g.nontrivial();
    g.note(e.ToString());
}
static void fields(Gen &g)
{
    EbField f = ebField(g, 1, true), h = f;
    f.type = h.type = static_cast<uint8_t>(g.uintN(8));
    f.options = h.options = static_cast<uint8_t>(g.uintN(8));
    int w = static_cast<int>(g.below(7));
    std::string name;
    switch (w)
    {
    case 0:
        name = "reserved", h.reserved[g.below(2)] ^= static_cast<uint8_t>(1u << g.below(8));
        break;
    case 1:
        name = "type", h.type ^= static_cast<uint8_t>(1u << g.below(8));
        break;
    case 2:
        name = "options", h.options ^= static_cast<uint8_t>(1u << g.below(8));
        break;
    case 3:
        name = "name";
        if (h.name.empty() || g.flag())
            h.name += "x";
        else
            h.name[g.below(h.name.size())] ^= 1;
        break;
    case 4:
        name = "description";
        if (h.description.empty() || g.flag())
            h.description += "x";
        else
            h.description[g.below(h.description.size())] ^= 1;
        break;
    case 5: {
        name = "numbers";
        double *a[5] = {h.noData, h.min, h.max, h.scale, h.offset};
        double &v = a[g.below(5)][g.below(3)];
        uint64_t b = bitsOf(v) ^ (uint64_t(1) << g.below(64));
        std::memcpy(&v, &b, 8);
        break;
    }
    default:
        name = "nothing";
    }
    g.label(name);
    auto a = toCopc(f), b = toCopc(h);
    CHECK_EQ(a == b, w == 6, "extra-byte fields after changing " << name);
    CHECK_EQ(b == a, w == 6, "extra-byte fields after changing " << name);
    auto c = a;
    CHECK(c == a, "copied extra-byte field");
    if (w < 6)
        g.nontrivial();
}
static void extent(Gen &g)
{
    double a[4] = {g.finiteReal(), g.finiteReal(), g.finiteReal(), std::fabs(g.finiteReal())};
    if (a[0] > a[1])
        std::swap(a[0], a[1]);
    copc::CopcExtent e(a[0], a[1], a[2], a[3]), f(e);
    CHECK(e == f && !(e != f), "copied extent");
    double *p[4] = {&f.minimum, &f.maximum, &f.mean, &f.var};
    double &v = *p[g.below(4)];
    if (g.flag())
    {
        f = copc::CopcExtent();
        f = e;
        CHECK(e == f && !(e != f), "assigned extent");
    }
    double old = v;
    v = g.flag() ? std::nextafter(old, 1e300) : old + 1;
    bool eq = v == old;
    CHECK_EQ(e == f, eq, "extents " << e << " " << f);
    CHECK_EQ(f == e, eq, "extents " << e << " " << f);
    CHECK_EQ(e != f, !eq, "extents " << e << " " << f);
    CHECK(e.minimum == a[0] && e.maximum == a[1] && e.mean == a[2] && e.var == a[3], "changing a copy changed the original");
    g.nontrivial();
}
// extents for another point format: those the formats share are copied, the others are as in new ones
static void converted(Gen &g)
{
    const auto fmt = static_cast<int8_t>(6 + g.below(3)), to = static_cast<int8_t>(6 + g.below(3));
    const auto eb = static_cast<uint16_t>(g.below(4)), ebTo = g.flag() ? eb : static_cast<uint16_t>(g.below(4));
    const bool extended = g.flag();
    copc::CopcExtents x(fmt, eb, g.flag());
    for (const auto &e : x.Extents())
        e->minimum = g.below(9), e->maximum = e->minimum + g.below(9), e->mean = g.below(9), e->var = g.below(9);
    auto text = [](const copc::CopcExtents &v)
    {
        std::stringstream ss;
        ss << int(v.PointFormatId()) << v.HasExtendedStats() << v;
        return ss.str();
    };
    const auto was = text(x);
    copc::CopcExtents y(x, to, ebTo, extended);
    CHECK_EQ(text(x), was, "extents after they were converted");
    CHECK_EQ(int(y.PointFormatId()), int(to), "format");
    CHECK_EQ(y.HasExtendedStats(), extended, "extended statistics");
    auto base = [](int f) { return f == 6 ? 14 : f == 7 ? 17 : 18; };
    CHECK_EQ(y.NumberOfExtents(), size_t(base(to) + ebTo), "number of extents");
    for (int i = 0; i < base(to) + ebTo; i++)
    {
        const bool extra = i >= base(to);
        const bool kept = extra ? eb == ebTo : i < base(fmt);
        const auto want = kept ? *x.Extents()[extra ? base(fmt) + i - base(to) : i] : copc::CopcExtent();
        CHECK(*y.Extents()[i] == want, "extent " << i << " from format " << int(fmt) << " +" << eb << " to " << int(to) << " +" << ebTo << " is "
                                                 << *y.Extents()[i] << ", expected " << want);
    }
    const auto is = text(y);
    const bool first = g.flag();
    for (const auto &e : (first ? x : y).Extents())
        e->mean += 1;
    CHECK_EQ(text(first ? y : x), first ? is : was, "extents after changing " << (first ? "what they were converted from" : "the result of converting them"));
    g.note("extents from format " + std::to_string(fmt) + " to " + std::to_string(to));
    g.nontrivial();
}
// a whole set of extents, copied or assigned
static void extents(Gen &g)
{
    auto make = [&](size_t &n)
    {
        auto fmt = static_cast<int8_t>(6 + g.below(3));
        auto eb = static_cast<uint16_t>(g.below(4));
        n = copc::CopcExtents::NumberOfExtents(fmt, eb);
        copc::CopcExtents x(fmt, eb, g.flag());
        for (const auto &e : x.Extents())
            e->minimum = g.below(9), e->maximum = e->minimum + g.below(9), e->mean = g.below(9), e->var = g.below(9);
        return x;
    };
    auto text = [](const copc::CopcExtents &x)
    {
        std::stringstream ss;
        ss << int(x.PointFormatId()) << x.HasExtendedStats() << x;
        return ss.str();
    };
    size_t n, m;
    auto a = make(n), b = make(m);
    const auto was = text(a), other = text(b);
    auto held = b.Extents()[0]; // what b had before is nobody's but the holder's
    const bool assign = g.flag();
    if (assign)
        b = a;
    copc::CopcExtents c(a);
    auto &d = assign ? b : c;
    CHECK_EQ(text(d), was, "a copy of extents");
    const size_t i = g.below(n);
    const bool inCopy = g.flag();
    auto e = std::const_pointer_cast<copc::CopcExtent>((inCopy ? d : a).Extents()[i]);
    e->minimum -= 1;
    e->mean += 2;
    held->var += 3;
    CHECK_EQ(text(inCopy ? a : d), was, "extents after changing " << (inCopy ? "a copy of them" : "what they were copied from"));
    CHECK(text(inCopy ? d : a) != was, "changed extents do not change");
    g.note(std::string(assign ? "assigned" : "copied") + " extents, number " + std::to_string(i) + " of " + std::to_string(n) + " changed");
    g.nontrivial();
}

pbt::Property pbt::property()
{
    return {"C34",
            "two values that differ in exactly one attribute are compared",
            {{"point", 5, point}, {"keys", 2, keys}, {"entries", 3, entries}, {"fields", 2, fields}, {"extent", 1, extent}, {"extents", 1, extents}, {"converted extents", 1, converted}},
            3000000,
            18000000};
}
