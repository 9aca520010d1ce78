// C32 LAS format tables and little-endian field packing
#include "../gen.hpp"
using namespace gen;
namespace las = copc::las;

static void tables(Gen &g)
{
    int f = static_cast<int>(g.range(-128, 127));
    if (g.below(3))
        f = static_cast<int>(g.range(4, 10));
    auto fmt = static_cast<int8_t>(f);
    g.note("format " + std::to_string(f));
    if (f >= 6 && f <= 8)
    {
        g.nontrivial();
        CHECK_EQ(int(las::PointBaseByteSize(fmt)), spec::baseSize(f), "base size of format " << f);
        CHECK_EQ(int(las::PointBaseNumberDimensions(fmt)), spec::baseDims(f), "dimensions of format " << f);
        CHECK_EQ(las::FormatHasRgb(static_cast<uint8_t>(f)), f >= 7, "colour of format " << f);
        CHECK_EQ(las::FormatHasNir(static_cast<uint8_t>(f)), f == 8, "NIR of format " << f);
        uint32_t eb = static_cast<uint32_t>(g.below(65536 - spec::baseSize(f)));
        g.note(" eb " + std::to_string(eb));
        CHECK_EQ(uint32_t(las::PointByteSize(fmt, static_cast<uint16_t>(eb))), spec::baseSize(f) + eb, "record length");
        CHECK_EQ(uint32_t(las::EbByteSize(fmt, spec::baseSize(f) + eb)), eb, "extra bytes of a record length");
        CHECK_EQ(int(copc::PointBaseNumberExtents(fmt)), spec::baseDims(f), "extents of format " << f);
        uint16_t items = static_cast<uint16_t>(g.uintN(9));
        CHECK_EQ(copc::CopcExtents::NumberOfExtents(fmt, items), spec::baseDims(f) + items, "number of extents");
        CHECK_EQ(copc::CopcExtents::ByteSize(fmt, items), size_t(16) * (spec::baseDims(f) + items), "byte size of the extents");
        las::LasHeader h(fmt, static_cast<uint16_t>(spec::baseSize(f) + eb), copc::Vector3::DefaultScale(), copc::Vector3::DefaultOffset(), g.flag());
        CHECK_EQ(uint32_t(h.EbByteSize()), eb, "header extra bytes");
    }
    else
    {
        g.label("unsupported format");
        CHECK_THROWS(las::PointBaseByteSize(fmt), "format " << f);
        CHECK_THROWS(las::PointBaseNumberDimensions(fmt), "format " << f);
        CHECK_THROWS(las::FormatHasRgb(static_cast<uint8_t>(f)), "format " << f);
        CHECK_THROWS(las::FormatHasNir(static_cast<uint8_t>(f)), "format " << f);
        CHECK_THROWS(las::PointByteSize(fmt, 3), "format " << f);
        CHECK_THROWS(las::EbByteSize(fmt, 60), "format " << f);
    }
}
static void extraBytes(Gen &g)
{
    size_t n = g.size(30);
    std::vector<EbField> v;
    for (size_t i = 0; i < n; i++)
    {
        EbField f;
        f.type = static_cast<uint8_t>(g.range(0, 30));
        f.options = static_cast<uint8_t>(g.uintN(8));
        v.push_back(f);
    }
    if (n >= 2)
        g.nontrivial();
    g.note(std::to_string(n) + " items");
    int want = spec::ebBytes(v);
    CHECK_EQ(las::NumBytesFromExtraBytes(toCopc(v).items), want, "bytes of " << n << " items");
    int sum = 0;
    for (auto &f : v)
    {
        int one = las::NumBytesFromExtraBytes(toCopc(std::vector<EbField>{f}).items);
        CHECK_EQ(one, f.size(), "bytes of type " << int(f.type) << " options " << int(f.options));
        sum += one;
    }
    CHECK_EQ(sum, want, "sum over items");
    if (n && g.chance(1, 4))
    {
        auto w = v;
        w[g.below(n)].type = static_cast<uint8_t>(g.range(31, 255));
        auto bad = toCopc(w).items;
        g.label("undefined type");
        CHECK_THROWS(las::NumBytesFromExtraBytes(bad), "an undefined data type");
    }
}
template <typename T> static void roundTrip(uint64_t bits, const char *name)
{
    T v;
    std::memcpy(&v, &bits, sizeof v);
    std::stringstream ss;
    las::pack(v, ss);
    std::string s = ss.str();
    CHECK_EQ(s.size(), sizeof(T), name << " packed size");
    for (size_t i = 0; i < sizeof(T); i++)
        CHECK_EQ(int(uint8_t(s[i])), int(uint8_t(bits >> (8 * i))), name << " byte " << i);
    ss << "x";
    T back = las::unpack<T>(ss);
    CHECK(std::memcmp(&back, &v, sizeof v) == 0, name << " round trip");
    CHECK_EQ(int(ss.tellg()), int(sizeof(T)), name << " bytes consumed");
}
static void packing(Gen &g)
{
    uint64_t b = g.uintN(64);
    g.nontrivial();
    g.note(std::to_string(b));
    roundTrip<int32_t>(b, "int32");
    roundTrip<uint16_t>(b, "uint16");
    roundTrip<uint8_t>(b, "uint8");
    roundTrip<int16_t>(b, "int16");
    roundTrip<double>(b, "double");
    roundTrip<uint64_t>(b, "uint64");
    roundTrip<uint32_t>(b, "uint32");
}
pbt::Property pbt::property()
{
    return {"C32",
            "a supported format with a generated extra-byte count, two or more extra-byte items, or a packed value",
            {{"tables", 30, tables}, {"extra bytes", 50, extraBytes}, {"packing", 30, packing}},
            3000000,
            18000000};
}
