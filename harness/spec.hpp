// Independent description of the LAS 1.4 / COPC byte layout: a record model, a parser and a writer that share no code
// with copc-lib. (Chunk payloads go through the laz-perf stand-in, as real files' would go through laz-perf.)
#pragma once
#include <cmath>
#include <cstdint>
#include <cstring>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <tuple>
#include <vector>

#include <lazperf/lazperf.hpp>
#include <lazperf/vlr.hpp>

namespace spec
{
typedef std::vector<uint8_t> Bytes;

struct Err : std::runtime_error
{
    using std::runtime_error::runtime_error;
};

inline int baseSize(int fmt) { return fmt == 6 ? 30 : fmt == 7 ? 36 : fmt == 8 ? 38 : throw Err("format"); }
inline int baseDims(int fmt) { return fmt == 6 ? 14 : fmt == 7 ? 17 : fmt == 8 ? 18 : throw Err("format"); }

// Extra-byte types of LAS 1.4 R15 table 24 (0 undocumented: size in options; 11..30 deprecated tuples)
inline int ebTypeSize(int type, int options)
{
    static const int base[11] = {0, 1, 1, 2, 2, 4, 4, 8, 8, 4, 8};
    if (type == 0)
        return options;
    if (type <= 10)
        return base[type];
    if (type <= 20)
        return 2 * base[type - 10];
    if (type <= 30)
        return 3 * base[type - 20];
    throw Err("eb type");
}

// One point record as stored
struct Rec
{
    int32_t x{0}, y{0}, z{0};
    uint16_t intensity{0};
    uint8_t returns{0}, flags{0}, cls{0}, user{0};
    int16_t angle{0};
    uint16_t source{0};
    uint64_t gps{0}; // bit pattern of the double
    uint16_t r{0}, g{0}, b{0}, nir{0};
    Bytes eb;

    double gpsTime() const
    {
        double d;
        std::memcpy(&d, &gps, 8);
        return d;
    }
};

inline void le(Bytes &o, uint64_t v, int n)
{
    for (int i = 0; i < n; i++)
        o.push_back(uint8_t(v >> (8 * i)));
}
inline void dbl(Bytes &o, double d)
{
    uint64_t v;
    std::memcpy(&v, &d, 8);
    le(o, v, 8);
}
inline void str(Bytes &o, const std::string &s, size_t n)
{
    for (size_t i = 0; i < n; i++)
        o.push_back(i < s.size() ? uint8_t(s[i]) : 0);
}
inline void app(Bytes &o, const Bytes &b) { o.insert(o.end(), b.begin(), b.end()); }

inline Bytes encode(const Rec &p, int fmt)
{
    Bytes o;
    le(o, uint32_t(p.x), 4);
    le(o, uint32_t(p.y), 4);
    le(o, uint32_t(p.z), 4);
    le(o, p.intensity, 2);
    le(o, p.returns, 1);
    le(o, p.flags, 1);
    le(o, p.cls, 1);
    le(o, p.user, 1);
    le(o, uint16_t(p.angle), 2);
    le(o, p.source, 2);
    le(o, p.gps, 8);
    if (fmt >= 7)
    {
        le(o, p.r, 2);
        le(o, p.g, 2);
        le(o, p.b, 2);
    }
    if (fmt == 8)
        le(o, p.nir, 2);
    app(o, p.eb);
    return o;
}
inline Bytes encode(const std::vector<Rec> &v, int fmt)
{
    Bytes o;
    for (auto &p : v)
        app(o, encode(p, fmt));
    return o;
}

struct In
{
    const Bytes &b;
    size_t pos;
    void need(size_t n) const
    {
        if (pos + n > b.size() || pos + n < pos)
            throw Err("read past the end of the file at offset " + std::to_string(pos));
    }
    uint64_t u(int n)
    {
        need(n);
        uint64_t v = 0;
        for (int i = 0; i < n; i++)
            v |= uint64_t(b[pos + i]) << (8 * i);
        pos += n;
        return v;
    }
    double d()
    {
        uint64_t v = u(8);
        double x;
        std::memcpy(&x, &v, 8);
        return x;
    }
    std::string fixed(size_t n) // raw field
    {
        need(n);
        std::string s(reinterpret_cast<const char *>(&b[pos]), n);
        pos += n;
        return s;
    }
    std::string s(size_t n) // up to the first NUL
    {
        std::string t = fixed(n);
        return t.substr(0, strnlen(t.data(), n));
    }
};

inline Rec decode(In &in, int fmt, size_t ebBytes)
{
    Rec p;
    p.x = int32_t(in.u(4));
    p.y = int32_t(in.u(4));
    p.z = int32_t(in.u(4));
    p.intensity = uint16_t(in.u(2));
    p.returns = uint8_t(in.u(1));
    p.flags = uint8_t(in.u(1));
    p.cls = uint8_t(in.u(1));
    p.user = uint8_t(in.u(1));
    p.angle = int16_t(in.u(2));
    p.source = uint16_t(in.u(2));
    p.gps = in.u(8);
    if (fmt >= 7)
    {
        p.r = uint16_t(in.u(2));
        p.g = uint16_t(in.u(2));
        p.b = uint16_t(in.u(2));
    }
    if (fmt == 8)
        p.nir = uint16_t(in.u(2));
    for (size_t i = 0; i < ebBytes; i++)
        p.eb.push_back(uint8_t(in.u(1)));
    return p;
}

struct Vlr
{
    bool extended{false};
    size_t offset{0}; // of the header
    uint16_t reserved{0};
    std::string user;
    uint16_t record{0};
    std::string description;
    Bytes data;
    size_t dataOffset() const { return offset + (extended ? 60 : 54); }
};

struct Key
{
    int32_t d, x, y, z;
    bool operator<(const Key &o) const { return std::tie(d, x, y, z) < std::tie(o.d, o.x, o.y, o.z); }
    bool operator==(const Key &o) const { return d == o.d && x == o.x && y == o.y && z == o.z; }
    std::string s() const
    {
        return "(" + std::to_string(d) + "," + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z) + ")";
    }
    // ancestor-or-self
    bool under(const Key &a) const
    {
        if (a.d > d)
            return false;
        int k = std::min(d - a.d, 40);
        return (int64_t(x) >> k) == a.x && (int64_t(y) >> k) == a.y && (int64_t(z) >> k) == a.z;
    }
    Key parent() const { return {d - 1, x >> 1, y >> 1, z >> 1}; }
};
struct HEntry
{
    Key key;
    uint64_t offset;
    int32_t size, count;
};

struct Header
{
    std::string signature = "LASF";
    uint16_t fileSource{0}, globalEncoding{0x10};
    std::string guid;
    uint8_t major{1}, minor{4};
    std::string systemId, software;
    uint16_t day{0}, year{0}, headerSize{375};
    uint32_t pointOffset{0}, vlrCount{0};
    uint8_t formatByte{0};
    uint16_t recordLength{0};
    uint32_t legacyCount{0};
    uint32_t legacyReturns[5]{};
    double scale[3]{0.01, 0.01, 0.01}, offset[3]{}, max[3]{}, min[3]{};
    uint64_t wave{0}, evlrOffset{0};
    uint32_t evlrCount{0};
    uint64_t count{0};
    uint64_t returns[15]{};

    int format() const { return formatByte & 0x3F; }
    Bytes encode() const
    {
        Bytes o;
        str(o, signature, 4);
        le(o, fileSource, 2);
        le(o, globalEncoding, 2);
        str(o, guid, 16);
        le(o, major, 1);
        le(o, minor, 1);
        str(o, systemId, 32);
        str(o, software, 32);
        le(o, day, 2);
        le(o, year, 2);
        le(o, headerSize, 2);
        le(o, pointOffset, 4);
        le(o, vlrCount, 4);
        le(o, formatByte, 1);
        le(o, recordLength, 2);
        le(o, legacyCount, 4);
        for (auto v : legacyReturns)
            le(o, v, 4);
        for (auto v : scale)
            dbl(o, v);
        for (auto v : offset)
            dbl(o, v);
        for (int i = 0; i < 3; i++)
        {
            dbl(o, max[i]);
            dbl(o, min[i]);
        }
        le(o, wave, 8);
        le(o, evlrOffset, 8);
        le(o, evlrCount, 4);
        le(o, count, 8);
        for (auto v : returns)
            le(o, v, 8);
        return o; // 375 bytes
    }
    static Header decode(const Bytes &b)
    {
        In in{b, 0};
        Header h;
        h.signature = in.fixed(4);
        h.fileSource = uint16_t(in.u(2));
        h.globalEncoding = uint16_t(in.u(2));
        h.guid = in.fixed(16);
        h.major = uint8_t(in.u(1));
        h.minor = uint8_t(in.u(1));
        h.systemId = in.fixed(32);
        h.software = in.fixed(32);
        h.day = uint16_t(in.u(2));
        h.year = uint16_t(in.u(2));
        h.headerSize = uint16_t(in.u(2));
        h.pointOffset = uint32_t(in.u(4));
        h.vlrCount = uint32_t(in.u(4));
        h.formatByte = uint8_t(in.u(1));
        h.recordLength = uint16_t(in.u(2));
        h.legacyCount = uint32_t(in.u(4));
        for (auto &v : h.legacyReturns)
            v = uint32_t(in.u(4));
        for (auto &v : h.scale)
            v = in.d();
        for (auto &v : h.offset)
            v = in.d();
        for (int i = 0; i < 3; i++)
        {
            h.max[i] = in.d();
            h.min[i] = in.d();
        }
        h.wave = in.u(8);
        h.evlrOffset = in.u(8);
        h.evlrCount = uint32_t(in.u(4));
        h.count = in.u(8);
        for (auto &v : h.returns)
            v = in.u(8);
        return h;
    }
};
inline std::string trimPadding(std::string s)
{
    while (!s.empty() && !s.back())
        s.pop_back();
    return s;
}
inline std::string trimNul(const std::string &s) { return s.substr(0, strnlen(s.data(), s.size())); }

inline Bytes compress(const Bytes &raw, int fmt, int ebBytes)
{
    Bytes o;
    auto c = lazperf::build_las_compressor([&](const unsigned char *p, size_t n) { o.insert(o.end(), p, p + n); }, fmt, ebBytes);
    size_t ps = baseSize(fmt) + ebBytes;
    for (size_t i = 0; i + ps <= raw.size(); i += ps)
        c->compress(reinterpret_cast<const char *>(raw.data() + i));
    c->done();
    return o;
}
inline Bytes decompress(const Bytes &file, size_t off, size_t len, int fmt, int ebBytes, size_t count)
{
    size_t pos = off, end = off + len;
    if (end > file.size() || end < off)
        throw Err("chunk outside the file");
    auto d = lazperf::build_las_decompressor(
        [&](unsigned char *p, size_t n)
        {
            if (pos + n > end)
                throw Err("chunk too short");
            std::memcpy(p, &file[pos], n);
            pos += n;
        },
        fmt, ebBytes);
    size_t ps = baseSize(fmt) + ebBytes;
    Bytes out(ps * count);
    for (size_t i = 0; i < count; i++)
        d->decompress(reinterpret_cast<char *>(&out[i * ps]));
    if (pos != end)
        throw Err("chunk has " + std::to_string(end - pos) + " unexplained bytes");
    return out;
}

struct Parsed
{
    Header h;
    std::vector<Vlr> vlrs;  // VLRs
    std::vector<Vlr> evlrs; // EVLRs
    size_t vlrEnd{0};       // offset just after the last VLR
    size_t evlrEnd{0};
    uint64_t chunkTableOffset{0};
    size_t chunkTableEnd{0};
    std::vector<lazperf::chunk> chunks; // count, byte length
    const Vlr *find(const std::string &user, uint16_t rec) const
    {
        for (auto *l : {&vlrs, &evlrs})
            for (auto &v : *l)
                if (v.user == user && v.record == rec)
                    return &v;
        return nullptr;
    }
    size_t countOf(const std::string &user, uint16_t rec) const
    {
        size_t n = 0;
        for (auto *l : {&vlrs, &evlrs})
            for (auto &v : *l)
                n += v.user == user && v.record == rec;
        return n;
    }
};

inline Parsed parse(const Bytes &b)
{
    Parsed p;
    p.h = Header::decode(b);
    if (p.h.signature != "LASF")
        throw Err("bad signature");
    In in{b, p.h.headerSize};
    for (uint32_t i = 0; i < p.h.vlrCount; i++)
    {
        Vlr v;
        v.offset = in.pos;
        v.reserved = uint16_t(in.u(2));
        v.user = in.s(16);
        v.record = uint16_t(in.u(2));
        size_t n = in.u(2);
        v.description = in.s(32);
        in.need(n);
        v.data.assign(b.begin() + in.pos, b.begin() + in.pos + n);
        in.pos += n;
        p.vlrs.push_back(v);
    }
    p.vlrEnd = in.pos;
    in.pos = p.h.evlrOffset;
    for (uint32_t i = 0; i < p.h.evlrCount; i++)
    {
        Vlr v;
        v.extended = true;
        v.offset = in.pos;
        v.reserved = uint16_t(in.u(2));
        v.user = in.s(16);
        v.record = uint16_t(in.u(2));
        size_t n = in.u(8);
        v.description = in.s(32);
        in.need(n);
        v.data.assign(b.begin() + in.pos, b.begin() + in.pos + n);
        in.pos += n;
        p.evlrs.push_back(v);
    }
    p.evlrEnd = in.pos;
    in.pos = p.h.pointOffset;
    p.chunkTableOffset = in.u(8);
    in.pos = p.chunkTableOffset;
    if (in.u(4) != 0)
        throw Err("chunk table version");
    size_t n = in.u(4);
    p.chunks = lazperf::decompress_chunk_table(
        [&](unsigned char *o, size_t k)
        {
            in.need(k);
            std::memcpy(o, &b[in.pos], k);
            in.pos += k;
        },
        n, true);
    p.chunkTableEnd = in.pos;
    return p;
}

inline std::vector<HEntry> parsePage(const Bytes &b, uint64_t off, uint64_t size)
{
    std::vector<HEntry> o;
    if (size % 32)
        throw Err("hierarchy page size not a multiple of 32");
    In in{b, off};
    in.need(size);
    for (uint64_t i = 0; i < size / 32; i++)
    {
        HEntry e;
        e.key.d = int32_t(in.u(4));
        e.key.x = int32_t(in.u(4));
        e.key.y = int32_t(in.u(4));
        e.key.z = int32_t(in.u(4));
        e.offset = in.u(8);
        e.size = int32_t(in.u(4));
        e.count = int32_t(in.u(4));
        o.push_back(e);
    }
    return o;
}

struct EbField
{
    uint8_t reserved[2]{0, 0};
    uint8_t type{1}, options{0};
    std::string name;
    double noData[3]{}, min[3]{}, max[3]{}, scale[3]{}, offset[3]{};
    std::string description;
    int size() const { return ebTypeSize(type, options); }
    Bytes encode() const
    {
        Bytes o;
        le(o, reserved[0], 1);
        le(o, reserved[1], 1);
        le(o, type, 1);
        le(o, options, 1);
        str(o, name, 32);
        le(o, 0, 4);
        for (auto *a : {noData, min, max, scale, offset})
            for (int i = 0; i < 3; i++)
                dbl(o, a[i]);
        str(o, description, 32);
        return o;
    }
};
inline int ebBytes(const std::vector<EbField> &v)
{
    int n = 0;
    for (auto &f : v)
        n += f.size();
    return n;
}
inline Bytes encode(const std::vector<EbField> &v)
{
    Bytes o;
    for (auto &f : v)
        app(o, f.encode());
    return o;
}

struct Info
{
    double cx{0}, cy{0}, cz{0}, halfsize{0}, spacing{0};
    uint64_t rootOffset{0}, rootSize{0};
    double gpsMin{0}, gpsMax{0};
    Bytes encode() const
    {
        Bytes o;
        for (double v : {cx, cy, cz, halfsize, spacing})
            dbl(o, v);
        le(o, rootOffset, 8);
        le(o, rootSize, 8);
        dbl(o, gpsMin);
        dbl(o, gpsMax);
        o.resize(160, 0);
        return o;
    }
    static Info decode(const Bytes &b)
    {
        In in{b, 0};
        Info i;
        i.cx = in.d();
        i.cy = in.d();
        i.cz = in.d();
        i.halfsize = in.d();
        i.spacing = in.d();
        i.rootOffset = in.u(8);
        i.rootSize = in.u(8);
        i.gpsMin = in.d();
        i.gpsMax = in.d();
        return i;
    }
};

inline Bytes laszipVlr(int fmt, int eb)
{
    lazperf::laz_vlr v(fmt, eb, 0xFFFFFFFFu);
    std::ostringstream s;
    v.write(s);
    auto t = s.str();
    return Bytes(t.begin(), t.end());
}
} // namespace spec
