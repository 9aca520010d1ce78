// Generators and conversions between the spec model (spec.hpp) and copc-lib's public types
#pragma once
#include "engine.hpp"
#include "spec.hpp"

#include <algorithm>
#include <cmath>
#include <fstream>
#include <iostream>
#include <limits>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>
#include <unistd.h>

#include <copc-lib/copc/copc_config.hpp>
#include <copc-lib/copc/extents.hpp>
#include <copc-lib/copc/info.hpp>
#include <copc-lib/geometry/box.hpp>
#include <copc-lib/geometry/vector3.hpp>
#include <copc-lib/hierarchy/key.hpp>
#include <copc-lib/hierarchy/node.hpp>
#include <copc-lib/hierarchy/page.hpp>
#include <copc-lib/io/copc_reader.hpp>
#include <copc-lib/io/copc_writer.hpp>
#include <copc-lib/io/laz_reader.hpp>
#include <copc-lib/io/laz_writer.hpp>
#include <copc-lib/las/header.hpp>
#include <copc-lib/las/laz_config.hpp>
#include <copc-lib/las/points.hpp>
#include <copc-lib/las/vlr.hpp>
#include <copc-lib/laz/compressor.hpp>
#include <copc-lib/laz/decompressor.hpp>

namespace gen
{
using pbt::Gen;
using spec::Bytes;
using spec::EbField;
using spec::Key;
using spec::Rec;

typedef std::shared_ptr<copc::las::Point> PointPtr;

inline std::vector<char> chars(const Bytes &b) { return std::vector<char>(b.begin(), b.end()); }
inline Bytes ubytes(const std::vector<char> &b) { return Bytes(b.begin(), b.end()); }
inline Bytes ubytes(const std::string &b) { return Bytes(b.begin(), b.end()); }
inline std::string text(const Bytes &b) { return std::string(b.begin(), b.end()); }
inline copc::VoxelKey vk(const Key &k) { return copc::VoxelKey(k.d, k.x, k.y, k.z); }
inline Key sk(const copc::VoxelKey &k) { return Key{k.d, k.x, k.y, k.z}; }
inline bool sameBits(double a, double b) { return std::memcmp(&a, &b, 8) == 0; }
inline uint64_t bitsOf(double a)
{
    uint64_t v;
    std::memcpy(&v, &a, 8);
    return v;
}

// a GUID is 16 bytes of anything; trailing zeros cannot be told from padding
inline std::string guidText(Gen &g)
{
    if (g.flag())
        return g.text(16, g.flag());
    std::string t(g.below(17), '\0');
    for (auto &c : t)
        c = static_cast<char>(g.flag() ? g.below(256) : g.below(2) * 65);
    while (!t.empty() && !t.back())
        t.pop_back();
    return t;
}

// ------------------------------------------------------------------ extra bytes
inline EbField ebField(Gen &g, int idx, bool wide)
{
    EbField f;
    switch (g.below(4))
    {
    case 0:
        f.type = 1;
        break;
    case 1:
        f.type = static_cast<uint8_t>(g.range(1, 10));
        break;
    case 2:
        f.type = 0;
        f.options = static_cast<uint8_t>(wide ? g.range(1, 255) : g.below(16) == 15 ? 0 : g.range(1, 12));
        break;
    default:
        f.type = static_cast<uint8_t>(g.range(11, 30));
        break;
    }
    if (f.type != 0)
        f.options = static_cast<uint8_t>(g.below(4) ? 0 : g.below(32));
    if (g.chance(3, 4))
        f.name = "FIELD_" + std::to_string(idx);
    else
        f.name = g.text(32, g.flag());
    if (g.chance(1, 2))
    {
        f.description = g.text(32, g.flag());
        f.reserved[0] = static_cast<uint8_t>(g.below(4));
        f.reserved[1] = static_cast<uint8_t>(g.below(4));
        for (auto *a : {f.noData, f.min, f.max, f.scale, f.offset})
            for (int i = 0; i < 3; i++)
                if (g.chance(1, 2))
                    a[i] = g.finiteReal();
    }
    return f;
}
inline std::vector<EbField> ebFields(Gen &g)
{
    std::vector<EbField> v;
    size_t n;
    bool wide = false;
    switch (g.below(8))
    {
    case 0:
    case 1:
    case 2:
        n = 0;
        break;
    case 3:
    case 4:
    case 5:
        n = 1 + g.below(3);
        break;
    case 6:
        n = 1 + g.below(12);
        break;
    default:
        n = 1 + g.below(6);
        wide = true;
    }
    for (size_t i = 0; i < n; i++)
        v.push_back(ebField(g, static_cast<int>(i), wide));
    return v;
}
inline copc::las::EbVlr::ebfield toCopc(const EbField &f)
{
    copc::las::EbVlr::ebfield o;
    o.reserved[0] = f.reserved[0];
    o.reserved[1] = f.reserved[1];
    o.data_type = f.type;
    o.options = f.options;
    o.name = f.name;
    for (int i = 0; i < 3; i++)
    {
        o.no_data[i] = f.noData[i];
        o.minval[i] = f.min[i];
        o.maxval[i] = f.max[i];
        o.scale[i] = f.scale[i];
        o.offset[i] = f.offset[i];
    }
    o.description = f.description;
    return o;
}
inline copc::las::EbVlr toCopc(const std::vector<EbField> &v)
{
    copc::las::EbVlr o(0);
    for (auto &f : v)
        o.items.push_back(toCopc(f));
    return o;
}
inline std::string diff(const copc::las::EbVlr::ebfield &a, const EbField &f)
{
    if (a.reserved[0] != f.reserved[0] || a.reserved[1] != f.reserved[1])
        return "reserved";
    if (a.data_type != f.type)
        return "data_type";
    if (a.options != f.options)
        return "options";
    if (a.name != f.name)
        return "name '" + a.name + "' vs '" + f.name + "'";
    if (a.description != f.description)
        return "description";
    for (int i = 0; i < 3; i++)
        if (!sameBits(a.no_data[i], f.noData[i]) || !sameBits(a.minval[i], f.min[i]) ||
            !sameBits(a.maxval[i], f.max[i]) || !sameBits(a.scale[i], f.scale[i]) || !sameBits(a.offset[i], f.offset[i]))
            return "numeric field " + std::to_string(i);
    return "";
}

// ------------------------------------------------------------------ scale / offset
struct Quant
{
    double scale[3]{0.01, 0.01, 0.01};
    double offset[3]{0, 0, 0};
    double value(int axis, int32_t raw) const { return raw * scale[axis] + offset[axis]; }
    double tol(int axis, int32_t raw) const
    {
        return 8 * std::numeric_limits<double>::epsilon() * (std::fabs(raw * scale[axis]) + std::fabs(offset[axis]));
    }
    copc::Vector3 s() const { return {scale[0], scale[1], scale[2]}; }
    copc::Vector3 o() const { return {offset[0], offset[1], offset[2]}; }
    std::string str() const
    {
        std::ostringstream ss;
        ss.precision(17);
        ss << "scale " << scale[0] << "," << scale[1] << "," << scale[2] << " offset " << offset[0] << "," << offset[1]
           << "," << offset[2];
        return ss.str();
    }
};
// Scales and offsets for which raw -> double -> raw is exact for every int32 (|offset| / scale < 2^44)
inline Quant quant(Gen &g)
{
    Quant q;
    bool same = g.below(3) == 0;
    for (int i = 0; i < 3; i++)
    {
        if (i && same)
        {
            q.scale[i] = q.scale[0];
            q.offset[i] = q.offset[0];
            continue;
        }
        switch (g.below(7))
        {
        case 0:
            break;
        case 1:
            q.scale[i] = 1;
            break;
        case 2:
            q.scale[i] = 0.001;
            break;
        case 3:
            q.scale[i] = 0.5;
            break;
        case 4:
            q.scale[i] = g.pick({1e-7, 1e-8, 0.0001, 0.025, 10.0, 1000.0});
            break;
        case 5:
            q.scale[i] = std::ldexp(1.0, static_cast<int>(g.range(-24, 12)));
            break;
        default:
            q.scale[i] = g.real(1e-4, 3);
        }
        double lim = q.scale[i] * 17592186044416.0;
        double o = 0;
        switch (g.below(5))
        {
        case 0:
            break;
        case 1:
            o = static_cast<double>(g.range(-1000, 1000));
            break;
        case 2:
            o = g.pick({500000.0, 4500000.0, -123456.789, 0.5, -0.25, 1e6});
            break;
        case 3:
            o = g.real(-1e6, 1e6);
            break;
        default:
            o = q.scale[i] * static_cast<double>(g.range(-2000000000, 2000000000));
        }
        q.offset[i] = std::fabs(o) < lim ? o : 0;
        if (g.below(16) == 15) // unusual, but it means something
            q.scale[i] = -q.scale[i];
    }
    return q;
}

// ------------------------------------------------------------------ records
inline void attributes(Gen &g, Rec &p, int fmt, size_t eb)
{
    p.intensity = static_cast<uint16_t>(g.uintN(16));
    p.returns = static_cast<uint8_t>(g.uintN(8));
    p.flags = static_cast<uint8_t>(g.uintN(8));
    p.cls = static_cast<uint8_t>(g.uintN(8));
    p.user = static_cast<uint8_t>(g.uintN(8));
    p.angle = static_cast<int16_t>(g.intN(16));
    p.source = static_cast<uint16_t>(g.uintN(16));
    p.gps = bitsOf(g.below(3) ? g.niceReal() : g.finiteReal());
    if (fmt >= 7)
    {
        p.r = static_cast<uint16_t>(g.uintN(16));
        p.g = static_cast<uint16_t>(g.uintN(16));
        p.b = static_cast<uint16_t>(g.uintN(16));
    }
    if (fmt == 8)
        p.nir = static_cast<uint16_t>(g.uintN(16));
    p.eb = g.bytes(eb);
}
inline Rec rec(Gen &g, int fmt, size_t eb)
{
    Rec p;
    p.x = static_cast<int32_t>(g.intN(32));
    p.y = static_cast<int32_t>(g.intN(32));
    p.z = static_cast<int32_t>(g.intN(32));
    attributes(g, p, fmt, eb);
    return p;
}
inline void oneField(Gen &g, Rec &p, int fmt)
{
    switch (g.below(17))
    {
    case 0:
        break;
    case 1:
        p.x = static_cast<int32_t>(static_cast<uint32_t>(p.x) + 1);
        break;
    case 2:
        p.y = static_cast<int32_t>(g.intN(32));
        break;
    case 3:
        p.z = static_cast<int32_t>(g.intN(32));
        break;
    case 4:
        p.intensity ^= static_cast<uint16_t>(1u << g.below(16));
        break;
    case 5:
        p.returns ^= static_cast<uint8_t>(1u << g.below(8));
        break;
    case 6:
        p.flags ^= static_cast<uint8_t>(1u << g.below(8));
        break;
    case 7:
        p.cls ^= static_cast<uint8_t>(1u << g.below(8));
        break;
    case 8:
        p.user ^= static_cast<uint8_t>(1u << g.below(8));
        break;
    case 9:
        p.angle = static_cast<int16_t>(~p.angle);
        break;
    case 10:
        p.source ^= static_cast<uint16_t>(1u << g.below(16));
        break;
    case 11:
        p.gps ^= uint64_t(1) << g.below(52); // stays finite
        break;
    case 12:
    case 13:
    case 14:
        if (fmt >= 7)
            (g.below(3) == 0 ? p.r : g.flag() ? p.g : p.b) ^= static_cast<uint16_t>(1u << g.below(16));
        break;
    case 15:
        if (fmt == 8)
            p.nir ^= static_cast<uint16_t>(1u << g.below(16));
        break;
    default:
        if (!p.eb.empty())
            p.eb[g.below(p.eb.size())] ^= static_cast<uint8_t>(1u << g.below(8));
    }
}
// A run of records; long runs are derived from a few drawn ones so that tapes stay short
inline std::vector<Rec> recs(Gen &g, int fmt, size_t eb, size_t minN, size_t maxN)
{
    size_t n = std::max(minN, g.size(maxN));
    std::vector<Rec> v;
    for (size_t i = 0; i < n; i++)
    {
        if (i >= 6)
        {
            Rec p = v[i % 6];
            p.x = static_cast<int32_t>(static_cast<uint32_t>(p.x) + 7u * static_cast<uint32_t>(i));
            p.y ^= static_cast<int32_t>(i);
            p.intensity = static_cast<uint16_t>(p.intensity + i);
            p.cls = static_cast<uint8_t>(i);
            v.push_back(p);
        }
        else if (const auto kind = g.below(12); kind == 11) // a record without any content
        {
            v.push_back(Rec());
            v.back().eb.assign(eb, 0);
        }
        else if (kind >= 8 && i > 0) // like an earlier one, but for one field
        {
            v.push_back(v[g.below(i)]);
            oneField(g, v.back(), fmt);
        }
        else
            v.push_back(rec(g, fmt, eb));
    }
    return v;
}

inline std::vector<Rec> manyRecs(Gen &g, int fmt, size_t eb)
{
    // long records only in smaller numbers, for the sake of time
    const size_t n = g.pick({65536, 65535, 65537, 66000}) / (eb > 24 ? 16 : 1);
    return recs(g, fmt, eb, n, n);
}

// The accessor-level view: fill a copc Point from a record through its public setters
inline void fill(copc::las::Point &p, const Rec &r, const Quant &q, int fmt)
{
    p.X(q.value(0, r.x));
    p.Y(q.value(1, r.y));
    p.Z(q.value(2, r.z));
    p.Intensity(r.intensity);
    p.ReturnNumber(r.returns & 15);
    p.NumberOfReturns(r.returns >> 4);
    p.Synthetic(r.flags & 1);
    p.KeyPoint(r.flags & 2);
    p.Withheld(r.flags & 4);
    p.Overlap(r.flags & 8);
    p.ScannerChannel((r.flags >> 4) & 3);
    p.ScanDirectionFlag(r.flags & 64);
    p.EdgeOfFlightLineFlag(r.flags & 128);
    p.Classification(r.cls);
    p.UserData(r.user);
    p.ScanAngle(r.angle);
    p.PointSourceId(r.source);
    p.GPSTime(r.gpsTime());
    if (fmt >= 7)
        p.Rgb(r.r, r.g, r.b);
    if (fmt == 8)
        p.Nir(r.nir);
    p.ExtraBytes(r.eb);
}
inline copc::las::Points points(const std::vector<Rec> &v, const Quant &q, int fmt, int eb)
{
    copc::las::Points pts(static_cast<int8_t>(fmt), static_cast<uint16_t>(eb));
    for (auto &r : v)
    {
        auto p = pts.CreatePoint();
        fill(*p, r, q, fmt);
        pts.AddPoint(p);
    }
    return pts;
}
// "" if the accessors of p agree with r, else which one does not
inline std::string diff(const copc::las::Point &p, const Rec &r, const Quant &q, int fmt)
{
    std::ostringstream e;
    e.precision(17);
    auto xyz = [&](const char *n, double v, int axis, int32_t raw)
    {
        if (!(std::fabs(v - q.value(axis, raw)) <= q.tol(axis, raw)))
            e << n << "=" << v << " want " << q.value(axis, raw) << "; ";
    };
    xyz("X", p.X(), 0, r.x);
    xyz("Y", p.Y(), 1, r.y);
    xyz("Z", p.Z(), 2, r.z);
    auto num = [&](const char *n, long a, long b)
    {
        if (a != b)
            e << n << "=" << a << " want " << b << "; ";
    };
    num("Intensity", p.Intensity(), r.intensity);
    num("ReturnNumber", p.ReturnNumber(), r.returns & 15);
    num("NumberOfReturns", p.NumberOfReturns(), r.returns >> 4);
    num("Synthetic", p.Synthetic(), r.flags & 1);
    num("KeyPoint", p.KeyPoint(), (r.flags >> 1) & 1);
    num("Withheld", p.Withheld(), (r.flags >> 2) & 1);
    num("Overlap", p.Overlap(), (r.flags >> 3) & 1);
    num("ScannerChannel", p.ScannerChannel(), (r.flags >> 4) & 3);
    num("ScanDirectionFlag", p.ScanDirectionFlag(), (r.flags >> 6) & 1);
    num("EdgeOfFlightLineFlag", p.EdgeOfFlightLineFlag(), (r.flags >> 7) & 1);
    num("ReturnsBitField", p.ReturnsBitField(), r.returns);
    num("FlagsBitField", p.FlagsBitField(), r.flags);
    num("Classification", p.Classification(), r.cls);
    num("UserData", p.UserData(), r.user);
    num("ScanAngle", p.ScanAngle(), r.angle);
    num("PointSourceId", p.PointSourceId(), r.source);
    if (bitsOf(p.GPSTime()) != r.gps)
        e << "GPSTime=" << p.GPSTime() << " want " << r.gpsTime() << "; ";
    num("HasRgb", p.HasRgb(), fmt >= 7);
    num("HasNir", p.HasNir(), fmt == 8);
    if (fmt >= 7 && p.HasRgb())
    {
        num("Red", p.Red(), r.r);
        num("Green", p.Green(), r.g);
        num("Blue", p.Blue(), r.b);
    }
    if (fmt == 8 && p.HasNir())
        num("Nir", p.Nir(), r.nir);
    if (p.ExtraBytes() != r.eb)
        e << "ExtraBytes differ; ";
    num("PointFormatId", p.PointFormatId(), fmt);
    num("PointRecordLength", p.PointRecordLength(), spec::baseSize(fmt) + long(r.eb.size()));
    num("EbByteSize", p.EbByteSize(), long(r.eb.size()));
    return e.str();
}
inline void checkPoints(const copc::las::Points &pts, const std::vector<Rec> &v, const Quant &q, int fmt, int eb,
                        const std::string &what)
{
    CHECK_EQ(pts.Size(), v.size(), what << ": number of points");
    CHECK_EQ(int(pts.PointFormatId()), fmt, what << ": point format");
    CHECK_EQ(int(pts.PointRecordLength()), spec::baseSize(fmt) + eb, what << ": record length");
    size_t i = 0;
    for (const auto &p : pts)
    {
        auto d = diff(*p, v[i], q, fmt);
        CHECK(d.empty(), what << ": point " << i << ": " << d);
        i++;
    }
}
inline void checkBytes(const Bytes &got, const Bytes &want, const std::string &what)
{
    CHECK_EQ(got.size(), want.size(), what << ": byte count");
    for (size_t i = 0; i < got.size(); i++)
        CHECK(got[i] == want[i], what << ": byte " << i << " is " << int(got[i]) << ", expected " << int(want[i]));
}

// ------------------------------------------------------------------ keys
inline Key key(Gen &g, int maxDepth = 30)
{
    Key k{0, 0, 0, 0};
    k.d = static_cast<int32_t>(g.below(3) ? g.below(std::min(maxDepth, 6) + 1) : g.below(maxDepth + 1));
    auto c = [&]() -> int32_t
    {
        switch (g.below(4))
        {
        case 0:
            return 0;
        case 1:
            return static_cast<int32_t>((int64_t(1) << k.d) - 1);
        default:
            return static_cast<int32_t>(g.below(uint64_t(1) << k.d));
        }
    };
    k.x = c();
    k.y = c();
    k.z = c();
    return k;
}
inline Key child(const Key &k, int dir)
{
    return Key{k.d + 1, k.x * 2 + (dir & 1), k.y * 2 + ((dir >> 1) & 1), k.z * 2 + ((dir >> 2) & 1)};
}
inline Key ancestor(const Key &k, int depth)
{
    int s = std::min(k.d - depth, 31);
    return Key{depth, k.x >> s, k.y >> s, k.z >> s};
}
// A key far below another one, beyond the depths that 32 bits of coordinates tell apart; its coordinates stay small enough for
// those of children
inline Key farBelow(Gen &g, Key k)
{
    const int64_t most = 0x1FFFFFFF;
    const auto by = g.pick({1, 2, 28, 31, 32, 33, 64, 127, 250, 32768, 65536});
    Key r{k.d + by, 0, 0, 0};
    for (auto v : {&Key::x, &Key::y, &Key::z})
    {
        const int64_t lo = int64_t(k.*v) << std::min(by, 31), hi = std::min(((int64_t(k.*v) + 1) << std::min(by, 31)) - 1, most);
        if (lo > most)
            return k;
        r.*v = static_cast<int32_t>(g.pick({lo, lo, hi, lo + static_cast<int64_t>(g.below(static_cast<uint64_t>(hi - lo + 1)))}));
    }
    return r;
}
// A set of distinct keys: mostly a growing octree, sometimes isolated or deep keys
inline std::vector<Key> tree(Gen &g, size_t minN, size_t maxN, int maxDepth = 12, bool root = true)
{
    std::vector<Key> v;
    std::set<Key> seen;
    size_t n = std::max(minN, g.size(maxN));
    for (size_t i = 0; i < n; i++)
    {
        Key k{0, 0, 0, 0};
        if (i == 0 && root && g.below(8) != 7)
            ;
        else
            switch (v.empty() ? 2 : g.below(8))
            {
            default:
                k = v[g.below(v.size())];
                if (k.d < maxDepth)
                    k = child(k, static_cast<int>(g.below(8)));
                break;
            case 5:
                k = v[g.below(v.size())];
                for (uint64_t s = g.below(3) + 1; s > 0 && k.d < maxDepth; s--)
                    k = child(k, static_cast<int>(g.below(8)));
                break;
            case 6:
                k = v[g.below(v.size())];
                k = ancestor(k, static_cast<int>(g.below(k.d + 1)));
                break;
            case 7:
            case 2:
                k = key(g, maxDepth);
                break;
            }
        if (seen.insert(k).second)
            v.push_back(k);
    }
    return v;
}

// ------------------------------------------------------------------ whole configurations
struct Ext
{
    double min{0}, max{0}, mean{0}, var{1};
};
struct Cfg
{
    int fmt{6};
    Quant q;
    std::string wkt;
    std::vector<EbField> eb;
    bool extended{false};
    std::string guid, sysId, software;
    uint16_t fileSource{0}, globalEncoding{0}, day{0}, year{0};
    double min[3]{}, max[3]{};
    uint64_t returns[15]{};
    spec::Info info;
    std::vector<Ext> extents;
    int ebBytes() const { return spec::ebBytes(eb); }
    int recordLength() const { return spec::baseSize(fmt) + ebBytes(); }
    std::string str() const
    {
        std::ostringstream ss;
        ss << "format " << fmt << ", " << eb.size() << " extra-byte items (" << ebBytes() << " B), wkt " << wkt.size()
           << " B, extended " << extended << ", " << q.str();
        return ss.str();
    }
};
inline std::string wkt(Gen &g)
{
    switch (g.below(6))
    {
    case 0:
    case 1:
        return "";
    case 2:
        return "TEST_WKT";
    case 3:
        return "PROJCS[\"" + g.text(20) + "\"]";
    case 4:
        return g.text(60, false);
    default:
        if (g.below(16) == 15) // longer than a plain VLR could hold
        {
            std::string t = "WKT" + g.text(20);
            const size_t n = g.pick({65534, 65535, 65536, 65537, 70000, 131073});
            while (t.size() < n)
                t += t.substr(0, n - t.size()) + std::to_string(t.size());
            t.resize(n);
            return t;
        }
        return g.text(3000);
    }
}
inline void bounds(Gen &g, Cfg &c)
{
    for (int i = 0; i < 3; i++)
    {
        double a = g.niceReal(), b = g.niceReal();
        c.min[i] = std::min(a, b);
        c.max[i] = std::max(a, b);
    }
}
// level 0: what shapes the file layout. level 1: every header / info / extent field too
inline Cfg cfg(Gen &g, int level)
{
    Cfg c;
    c.fmt = static_cast<int>(g.range(6, 8));
    c.q = quant(g);
    c.wkt = wkt(g);
    c.eb = ebFields(g);
    c.extended = g.flag();
    c.info.spacing = 10;
    c.extents.resize(spec::baseDims(c.fmt) + c.eb.size());
    if (level >= 1)
    {
        c.guid = guidText(g);
        c.sysId = g.text(32, g.flag());
        c.software = g.text(32, g.flag());
        c.fileSource = static_cast<uint16_t>(g.uintN(16));
        c.globalEncoding = static_cast<uint16_t>(g.uintN(16));
        c.day = static_cast<uint16_t>(g.uintN(16));
        c.year = static_cast<uint16_t>(g.uintN(16));
        bounds(g, c);
        for (auto &r : c.returns)
            r = g.uintN(64);
        c.info.cx = g.finiteReal();
        c.info.cy = g.finiteReal();
        c.info.cz = g.finiteReal();
        c.info.halfsize = g.finiteReal();
        c.info.spacing = g.finiteReal();
        for (auto &e : c.extents)
            if (g.chance(1, 2))
            {
                double a = g.finiteReal(), b = g.finiteReal();
                e.min = std::min(a, b);
                e.max = std::max(a, b);
                if (c.extended)
                {
                    e.mean = g.finiteReal();
                    e.var = std::fabs(g.finiteReal());
                }
            }
    }
    return c;
}
inline void applyHeader(const Cfg &c, copc::las::LasHeader &h)
{
    h.GUID(c.guid);
    h.SystemIdentifier(c.sysId);
    h.GeneratingSoftware(c.software);
    h.file_source_id = c.fileSource;
    h.global_encoding = c.globalEncoding;
    h.creation_day = c.day;
    h.creation_year = c.year;
    h.min = copc::Vector3(c.min[0], c.min[1], c.min[2]);
    h.max = copc::Vector3(c.max[0], c.max[1], c.max[2]);
    for (int i = 0; i < 15; i++)
        h.points_by_return[i] = c.returns[i];
}
inline void apply(const Cfg &c, copc::CopcConfigWriter &w)
{
    applyHeader(c, *w.LasHeader());
    auto &i = *w.CopcInfo();
    i.center_x = c.info.cx;
    i.center_y = c.info.cy;
    i.center_z = c.info.cz;
    i.halfsize = c.info.halfsize;
    i.spacing = c.info.spacing;
    auto ext = w.CopcExtents()->Extents();
    for (size_t k = 0; k < ext.size() && k < c.extents.size(); k++)
    {
        ext[k]->minimum = c.extents[k].min;
        ext[k]->maximum = c.extents[k].max;
        ext[k]->mean = c.extents[k].mean;
        ext[k]->var = c.extents[k].var;
    }
}
inline copc::CopcConfigWriter writerConfig(const Cfg &c)
{
    copc::CopcConfigWriter w(static_cast<int8_t>(c.fmt), c.q.s(), c.q.o(), c.wkt, toCopc(c.eb), c.extended);
    apply(c, w);
    return w;
}

struct NodeSpec
{
    Key key{0, 0, 0, 0}, page{0, 0, 0, 0};
    std::vector<Rec> recs;
};
struct FileSpec
{
    Cfg c;
    std::vector<NodeSpec> nodes;
    size_t pointCount() const
    {
        size_t n = 0;
        for (auto &s : nodes)
            n += s.recs.size();
        return n;
    }
    std::string str() const
    {
        std::ostringstream ss;
        ss << c.str() << "; nodes:";
        for (auto &n : nodes)
            ss << " " << n.key.s() << "@" << n.page.s() << "x" << n.recs.size();
        return ss.str();
    }
};
// Pages: each node goes to the root page or to one of its ancestors (or itself)
inline Key pageFor(Gen &g, const Key &k, const std::vector<NodeSpec> &prev)
{
    switch (g.below(5))
    {
    case 0:
    case 1:
        return Key{0, 0, 0, 0};
    case 2: // reuse the page of an earlier node when it is an ancestor
        for (size_t i = 0; i < prev.size(); i++)
        {
            auto &p = prev[(i * 7 + 3) % prev.size()].page;
            if (p.d > 0 && k.under(p))
                return p;
        }
        return ancestor(k, static_cast<int>(std::min<int>(k.d, 1)));
    case 3:
        return ancestor(k, static_cast<int>(g.below(k.d + 1)));
    default:
        return ancestor(k, static_cast<int>(k.d > 0 ? k.d - g.below(std::min(k.d, 2) + 1) : 0));
    }
}
inline FileSpec file(Gen &g, int level, size_t maxNodes, size_t maxPts, int maxDepth = 12)
{
    FileSpec f;
    f.c = cfg(g, level);
    switch (g.below(1000)) // sizes that ordinary cases stay far below
    {
    case 999: // a node with more points than 16 bits count
        maxNodes = std::min<size_t>(maxNodes, 3);
        maxPts = 0;
        break;
    case 998:
    case 997:
        maxNodes *= 30;
        maxPts = 2;
        break;
    default:
        break;
    }
    for (auto &k : tree(g, 0, maxNodes, maxDepth))
    {
        NodeSpec n;
        n.key = k;
        n.page = pageFor(g, k, f.nodes);
        if (maxPts)
            n.recs = recs(g, f.c.fmt, f.c.ebBytes(), 1, maxPts);
        else
        {
            n.recs = manyRecs(g, f.c.fmt, f.c.ebBytes());
            maxPts = 3;
        }
        f.nodes.push_back(n);
    }
    return f;
}

inline std::string tmpDir()
{
    static std::string d;
    if (d.empty())
    {
        const char *t = getenv("PBT_TMP");
        d = std::string(t ? t : "/tmp");
    }
    return d;
}
inline std::string tmpFile(const std::string &tag)
{
    return tmpDir() + "/" + tag + "." + std::to_string(getpid()) + ".laz";
}
inline std::string slurp(const std::string &path)
{
    std::ifstream f(path, std::ios::binary);
    return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}
} // namespace gen
