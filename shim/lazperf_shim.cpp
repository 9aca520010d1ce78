// Stand-in for laz-perf 3.x. Container layouts (header, VLRs, chunk table position) follow LAS 1.4 / LAZ. The point
// codec is NOT LASzip's arithmetic coder: it is a small lossless byte coder with the same shape (first record raw,
// point count, payload; nothing emitted before done()). copc-lib treats compressed bytes as opaque.
#include "lazperf/filestream.hpp"
#include "lazperf/header.hpp"
#include "lazperf/lazperf.hpp"
#include "lazperf/readers.hpp"
#include "lazperf/vlr.hpp"
#include "lazperf/writers.hpp"

#include <sstream>
#include <algorithm>
#include <cstring>
#include <limits>

namespace lazperf
{
namespace
{
template <typename T> void put(std::ostream &o, const T &v) { o.write(reinterpret_cast<const char *>(&v), sizeof(T)); }
template <typename T> void get(std::istream &i, T &v) { i.read(reinterpret_cast<char *>(&v), sizeof(T)); }
void putString(std::ostream &o, const std::string &s, size_t n)
{
    std::string t(s);
    t.resize(n, 0);
    o.write(t.data(), n);
}
std::string getString(std::istream &i, size_t n)
{
    std::string t(n, 0);
    i.read(&t[0], n);
    return std::string(t.c_str(), strnlen(t.c_str(), n));
}
} // namespace

// ---------------------------------------------------------------- header
int baseCount(int format)
{
    switch (format)
    {
    case 0: return 20;
    case 1: return 28;
    case 2: return 26;
    case 3: return 34;
    case 6: return 30;
    case 7: return 36;
    case 8: return 38;
    default: return 0;
    }
}
bool header12::compressed() const { return point_format_id & 0x80; }
int header12::pointFormat() const { return point_format_id & 0x3F; }
int header12::ebCount() const
{
    int base = baseCount(pointFormat());
    return base ? point_record_length - base : 0;
}
int header12::sizeFromVersion() const { return version.minor == 2 ? 227 : version.minor == 3 ? 235 : 375; }

static void emit(std::ostream &out, const std::ostringstream &s)
{
    const std::string b = s.str();
    out.write(b.data(), static_cast<std::streamsize>(b.size()));
}
void header12::read(std::istream &in)
{
    in.read(magic, 4);
    get(in, file_source_id);
    get(in, global_encoding);
    in.read(guid, 16);
    get(in, version.major);
    get(in, version.minor);
    in.read(system_identifier, 32);
    in.read(generating_software, 32);
    get(in, creation.day);
    get(in, creation.year);
    get(in, header_size);
    get(in, point_offset);
    get(in, vlr_count);
    get(in, point_format_id);
    get(in, point_record_length);
    get(in, point_count);
    for (auto &v : points_by_return)
        get(in, v);
    get(in, scale.x);
    get(in, scale.y);
    get(in, scale.z);
    get(in, offset.x);
    get(in, offset.y);
    get(in, offset.z);
    get(in, maxx);
    get(in, minx);
    get(in, maxy);
    get(in, miny);
    get(in, maxz);
    get(in, minz);
}
void header12::write(std::ostream &out) const
{
    std::ostringstream o; // laz-perf writes each structure with one call
    o.write(magic, 4);
    put(o, file_source_id);
    put(o, global_encoding);
    o.write(guid, 16);
    put(o, version.major);
    put(o, version.minor);
    o.write(system_identifier, 32);
    o.write(generating_software, 32);
    put(o, creation.day);
    put(o, creation.year);
    put(o, header_size);
    put(o, point_offset);
    put(o, vlr_count);
    put(o, point_format_id);
    put(o, point_record_length);
    put(o, point_count);
    for (auto v : points_by_return)
        put(o, v);
    put(o, scale.x);
    put(o, scale.y);
    put(o, scale.z);
    put(o, offset.x);
    put(o, offset.y);
    put(o, offset.z);
    put(o, maxx);
    put(o, minx);
    put(o, maxy);
    put(o, miny);
    put(o, maxz);
    put(o, minz);
    emit(out, o);
}
void header13::read(std::istream &in)
{
    header12::read(in);
    get(in, wave_offset);
}
void header13::write(std::ostream &out) const
{
    header12::write(out);
    std::ostringstream o; // laz-perf writes each structure with one call
    put(o, wave_offset);
    emit(out, o);
}
header14 header14::create(std::istream &in)
{
    header14 h;
    h.read(in);
    return h;
}
void header14::read(std::istream &in)
{
    header13::read(in);
    get(in, evlr_offset);
    get(in, evlr_count);
    get(in, point_count_14);
    for (auto &v : points_by_return_14)
        get(in, v);
}
void header14::write(std::ostream &out) const
{
    header13::write(out);
    std::ostringstream o; // laz-perf writes each structure with one call
    put(o, evlr_offset);
    put(o, evlr_count);
    put(o, point_count_14);
    for (auto v : points_by_return_14)
        put(o, v);
    emit(out, o);
}

// ---------------------------------------------------------------- vlr headers
void vlr_header::read(std::istream &in)
{
    get(in, reserved);
    user_id = getString(in, 16);
    get(in, record_id);
    get(in, data_length);
    description = getString(in, 32);
}
vlr_header vlr_header::create(std::istream &in)
{
    vlr_header h{};
    h.read(in);
    return h;
}
void vlr_header::write(std::ostream &out) const
{
    std::ostringstream o; // laz-perf writes each structure with one call
    put(o, reserved);
    putString(o, user_id, 16);
    put(o, record_id);
    put(o, data_length);
    putString(o, description, 32);
    emit(out, o);
}
void evlr_header::read(std::istream &in)
{
    get(in, reserved);
    user_id = getString(in, 16);
    get(in, record_id);
    get(in, data_length);
    description = getString(in, 32);
}
evlr_header evlr_header::create(std::istream &in)
{
    evlr_header h{};
    h.read(in);
    return h;
}
void evlr_header::write(std::ostream &out) const
{
    std::ostringstream o; // laz-perf writes each structure with one call
    put(o, reserved);
    putString(o, user_id, 16);
    put(o, record_id);
    put(o, data_length);
    putString(o, description, 32);
    emit(out, o);
}
vlr::~vlr() {}

// ---------------------------------------------------------------- laz vlr
laz_vlr::laz_vlr() {}
laz_vlr::laz_vlr(int format, int ebCount, uint32_t chunksize) : chunk_size(chunksize)
{
    compressor = format <= 5 ? 2 : 3;
    ver_major = 3;
    ver_minor = 4;
    revision = 3;
    auto item = [&](uint16_t t, uint16_t s) { items.push_back({t, s, uint16_t(format <= 5 ? 2 : 3)}); };
    if (format <= 5)
    {
        item(6, 20);
        if (format == 1 || format == 3)
            item(7, 8);
        if (format == 2 || format == 3)
            item(8, 6);
        if (ebCount)
            item(0, ebCount);
    }
    else
    {
        item(10, 30);
        if (format == 7)
            item(11, 6);
        if (format == 8)
            item(12, 8);
        if (ebCount)
            item(14, ebCount);
    }
}
bool laz_vlr::valid() const { return compressor == 2 || compressor == 3; }
laz_vlr laz_vlr::create(std::istream &in)
{
    laz_vlr v;
    v.read(in);
    return v;
}
void laz_vlr::read(std::istream &in)
{
    uint16_t n{0};
    get(in, compressor);
    get(in, coder);
    get(in, ver_major);
    get(in, ver_minor);
    get(in, revision);
    get(in, options);
    get(in, chunk_size);
    get(in, num_points);
    get(in, num_bytes);
    get(in, n);
    items.clear();
    for (int i = 0; i < n && in.good(); i++)
    {
        laz_item it{};
        get(in, it.type);
        get(in, it.size);
        get(in, it.version);
        items.push_back(it);
    }
}
void laz_vlr::write(std::ostream &out) const
{
    std::ostringstream o; // laz-perf writes each structure with one call
    put(o, compressor);
    put(o, coder);
    put(o, ver_major);
    put(o, ver_minor);
    put(o, revision);
    put(o, options);
    put(o, chunk_size);
    put(o, num_points);
    put(o, num_bytes);
    put(o, uint16_t(items.size()));
    for (auto &i : items)
    {
        put(o, i.type);
        put(o, i.size);
        put(o, i.version);
    }
    emit(out, o);
}
uint64_t laz_vlr::size() const { return 34 + items.size() * 6; }
vlr_header laz_vlr::header() const
{
    return vlr_header{0, "laszip encoded", 22204, (uint16_t)size(), "laz-perf variant"};
}
evlr_header laz_vlr::eheader() const
{
    return evlr_header{0, "laszip encoded", 22204, size(), "laz-perf variant"};
}

// ---------------------------------------------------------------- wkt vlr
wkt_vlr::wkt_vlr() {}
wkt_vlr::wkt_vlr(const std::string &s) : wkt(s) {}
wkt_vlr wkt_vlr::create(std::istream &in, int n)
{
    wkt_vlr v;
    v.read(in, n);
    return v;
}
void wkt_vlr::read(std::istream &in, int n)
{
    // bounded block reads: a bogus length on a short stream must not allocate the bogus length
    wkt.clear();
    char buf[4096];
    while (n > 0 && in.good())
    {
        int m = std::min<int>(n, sizeof(buf));
        in.read(buf, m);
        wkt.append(buf, in.gcount());
        n -= m;
    }
}
void wkt_vlr::write(std::ostream &o) const { o.write(wkt.data(), wkt.size()); }
uint64_t wkt_vlr::size() const { return wkt.size(); }
vlr_header wkt_vlr::header() const { return vlr_header{0, "LASF_Projection", 2112, (uint16_t)size(), ""}; }
evlr_header wkt_vlr::eheader() const { return evlr_header{0, "LASF_Projection", 2112, size(), ""}; }

// ---------------------------------------------------------------- extra bytes vlr
eb_vlr::ebfield::ebfield()
    : reserved{0, 0}, data_type(1), options(0), unused{0, 0, 0, 0}, no_data{0, 0, 0}, minval{0, 0, 0}, maxval{0, 0, 0},
      scale{0, 0, 0}, offset{0, 0, 0}
{
}
eb_vlr::eb_vlr() {}
eb_vlr::eb_vlr(int n)
{
    for (int i = 0; i < n; i++)
        addField();
}
void eb_vlr::addField()
{
    ebfield f;
    f.name = "FIELD_" + std::to_string(items.size());
    items.push_back(f);
}
void eb_vlr::addField(const ebfield &f) { items.push_back(f); }
eb_vlr eb_vlr::create(std::istream &in, int n)
{
    eb_vlr v;
    v.read(in, n);
    return v;
}
void eb_vlr::read(std::istream &in, int n)
{
    items.clear();
    for (int i = 0; i < n / 192 && in.good(); i++)
    {
        ebfield f;
        in.read(reinterpret_cast<char *>(f.reserved), 2);
        get(in, f.data_type);
        get(in, f.options);
        f.name = getString(in, 32);
        in.read(reinterpret_cast<char *>(f.unused), 4);
        for (auto *a : {f.no_data, f.minval, f.maxval, f.scale, f.offset})
            for (int k = 0; k < 3; k++)
                get(in, a[k]);
        f.description = getString(in, 32);
        items.push_back(f);
    }
}
void eb_vlr::write(std::ostream &out) const
{
    std::ostringstream o;
    for (auto &f : items)
    {
        o.write(reinterpret_cast<const char *>(f.reserved), 2);
        put(o, f.data_type);
        put(o, f.options);
        putString(o, f.name, 32);
        o.write(reinterpret_cast<const char *>(f.unused), 4);
        for (auto *a : {f.no_data, f.minval, f.maxval, f.scale, f.offset})
            for (int k = 0; k < 3; k++)
                put(o, a[k]);
        putString(o, f.description, 32);
    }
    emit(out, o);
}
uint64_t eb_vlr::size() const { return 192 * items.size(); }
vlr_header eb_vlr::header() const { return vlr_header{0, "LASF_Spec", 4, (uint16_t)size(), ""}; }
evlr_header eb_vlr::eheader() const { return evlr_header{0, "LASF_Spec", 4, size(), ""}; }

// ---------------------------------------------------------------- copc info vlr
copc_info_vlr::copc_info_vlr() {}
copc_info_vlr copc_info_vlr::create(std::istream &in)
{
    copc_info_vlr v;
    v.read(in);
    return v;
}
void copc_info_vlr::read(std::istream &in)
{
    get(in, center_x);
    get(in, center_y);
    get(in, center_z);
    get(in, halfsize);
    get(in, spacing);
    get(in, root_hier_offset);
    get(in, root_hier_size);
    get(in, gpstime_minimum);
    get(in, gpstime_maximum);
    for (auto &r : reserved)
        get(in, r);
}
void copc_info_vlr::write(std::ostream &out) const
{
    std::ostringstream o;
    put(o, center_x);
    put(o, center_y);
    put(o, center_z);
    put(o, halfsize);
    put(o, spacing);
    put(o, root_hier_offset);
    put(o, root_hier_size);
    put(o, gpstime_minimum);
    put(o, gpstime_maximum);
    for (auto r : reserved)
        put(o, r);
    emit(out, o);
}
uint64_t copc_info_vlr::size() const { return 160; }
vlr_header copc_info_vlr::header() const { return vlr_header{0, "copc", 1, (uint16_t)size(), "COPC info VLR"}; }
evlr_header copc_info_vlr::eheader() const { return evlr_header{0, "copc", 1, size(), "COPC info VLR"}; }

// ---------------------------------------------------------------- streams
struct OutFileStream::Private
{
    std::ostream &f;
};
OutFileStream::OutFileStream(std::ostream &out) : p_(new Private{out}) {}
OutFileStream::~OutFileStream() {}
void OutFileStream::putBytes(const unsigned char *c, size_t len)
{
    p_->f.write(reinterpret_cast<const char *>(c), len);
}
OutputCb OutFileStream::cb()
{
    return [this](const unsigned char *c, size_t n) { putBytes(c, n); };
}

namespace
{
const size_t READ_AHEAD = 1 << 20;
std::vector<unsigned char *> &pool() // buffers are recycled: mapping a fresh MiB per chunk dominates the run time
{
    static thread_local std::vector<unsigned char *> p;
    return p;
}
} // namespace
struct InFileStream::Private
{
    std::istream &f;
    unsigned char *buf{nullptr};
    size_t pos{0};
    size_t filled{0};
    explicit Private(std::istream &in) : f(in) {}
    ~Private()
    {
        if (buf)
            pool().push_back(buf);
    }
};
InFileStream::InFileStream(std::istream &in) : p_(new Private(in)) {}
InFileStream::~InFileStream() {}
void InFileStream::reset() { p_->pos = p_->filled = 0; }
void InFileStream::getBytes(unsigned char *c, size_t len)
{
    while (len)
    {
        if (p_->pos == p_->filled)
        {
            if (!p_->buf)
            {
                if (pool().empty())
                    pool().push_back(new unsigned char[READ_AHEAD]);
                p_->buf = pool().back();
                pool().pop_back();
            }
            p_->f.read(reinterpret_cast<char *>(p_->buf), READ_AHEAD);
            p_->filled = p_->f.gcount();
            p_->pos = 0;
            if (p_->filled == 0)
                throw error("Unexpected end of file.");
        }
        size_t n = std::min(len, p_->filled - p_->pos);
        std::memcpy(c, p_->buf + p_->pos, n);
        p_->pos += n;
        c += n;
        len -= n;
    }
}
InputCb InFileStream::cb()
{
    return [this](unsigned char *c, size_t n) { getBytes(c, n); };
}

// ---------------------------------------------------------------- codec
las_compressor::~las_compressor() {}
las_decompressor::~las_decompressor() {}
namespace
{
// Payload: per record after the first, XOR with the previous record, zero runs collapsed.
struct Comp : las_compressor
{
    OutputCb cb;
    size_t size;
    uint32_t count{0};
    std::vector<unsigned char> first, prev, payload;
    unsigned run{0};
    Comp(OutputCb c, size_t s) : cb(c), size(s) {}
    void flush()
    {
        if (run)
        {
            payload.push_back(0);
            payload.push_back(static_cast<unsigned char>(run - 1));
            run = 0;
        }
    }
    const char *compress(const char *in) override
    {
        const unsigned char *u = reinterpret_cast<const unsigned char *>(in);
        if (count == 0)
            first.assign(u, u + size);
        else
            for (size_t i = 0; i < size; i++)
            {
                unsigned char d = u[i] ^ prev[i];
                if (d == 0)
                {
                    if (++run == 256)
                        flush();
                }
                else
                {
                    flush();
                    payload.push_back(d);
                }
            }
        prev.assign(u, u + size);
        count++;
        return in + size;
    }
    void done() override
    {
        if (count == 0)
            return;
        flush();
        cb(first.data(), first.size());
        unsigned char c[4];
        for (int i = 0; i < 4; i++)
            c[i] = static_cast<unsigned char>(count >> (8 * i));
        cb(c, 4);
        if (!payload.empty())
            cb(payload.data(), payload.size());
    }
};
struct Decomp : las_decompressor
{
    InputCb cb;
    size_t size;
    uint32_t count{0}, done{0};
    std::vector<unsigned char> prev;
    unsigned run{0};
    Decomp(InputCb c, size_t s) : cb(c), size(s) {}
    char *decompress(char *out) override
    {
        unsigned char *u = reinterpret_cast<unsigned char *>(out);
        if (done == 0)
        {
            prev.resize(size);
            if (size)
                cb(prev.data(), size);
            unsigned char c[4];
            cb(c, 4);
            for (int i = 0; i < 4; i++)
                count |= uint32_t(c[i]) << (8 * i);
        }
        else
        {
            if (done >= count)
                throw error("Attempt to decompress past the end of a chunk.");
            for (size_t i = 0; i < size; i++)
            {
                if (run)
                {
                    run--;
                    continue;
                }
                unsigned char b;
                cb(&b, 1);
                if (b == 0)
                {
                    cb(&b, 1);
                    run = b; // this byte plus b more are unchanged
                }
                else
                    prev[i] ^= b;
            }
        }
        done++;
        if (size)
            std::memcpy(u, prev.data(), size);
        return out + size;
    }
};
} // namespace
las_compressor::ptr build_las_compressor(OutputCb cb, int format, int ebCount)
{
    if (!baseCount(format))
        return nullptr;
    return std::make_shared<Comp>(cb, baseCount(format) + ebCount);
}
las_decompressor::ptr build_las_decompressor(InputCb cb, int format, int ebCount)
{
    if (!baseCount(format))
        return nullptr;
    return std::make_shared<Decomp>(cb, baseCount(format) + ebCount);
}

void compress_chunk_table(OutputCb cb, const std::vector<chunk> &chunks, bool variable)
{
    auto vi = [&](uint64_t v)
    {
        do
        {
            unsigned char b = v & 0x7F;
            v >>= 7;
            if (v)
                b |= 0x80;
            cb(&b, 1);
        } while (v);
    };
    for (auto &c : chunks)
    {
        if (variable)
            vi(c.count);
        vi(c.offset);
    }
}
std::vector<chunk> decompress_chunk_table(InputCb cb, size_t n, bool variable)
{
    auto vi = [&]
    {
        uint64_t v = 0;
        for (int s = 0; s < 64; s += 7)
        {
            unsigned char b;
            cb(&b, 1);
            v |= uint64_t(b & 0x7F) << s;
            if (!(b & 0x80))
                return v;
        }
        throw error("Bad chunk table.");
    };
    std::vector<chunk> out;
    for (size_t i = 0; i < n; i++)
    {
        chunk c{};
        if (variable)
            c.count = vi();
        c.offset = vi();
        out.push_back(c);
    }
    return out;
}

// ---------------------------------------------------------------- reader
namespace reader
{
struct basic_file::Private
{
    std::istream *f{nullptr};
    header14 h;
    laz_vlr laz;
    bool compressed{false};
    std::vector<chunk> chunks;
    size_t cur{0};
    uint64_t num{0};
    std::unique_ptr<InFileStream> stream;
    las_decompressor::ptr dec;
};
basic_file::basic_file() : p_(new Private) {}
basic_file::~basic_file() {}
bool basic_file::open(std::istream &in)
{
    p_->f = &in;
    in.seekg(0);
    char magic[4]{};
    in.read(magic, 4);
    if (!in || std::memcmp(magic, "LASF", 4) != 0)
        throw error("Invalid LAS signature.");
    in.seekg(0);
    header14 h;
    h.header12::read(in);
    if (!in)
        throw error("Truncated header.");
    if (h.version.major != 1 || h.version.minor < 2 || h.version.minor > 4)
        throw error("Unsupported LAS version.");
    if (h.version.minor >= 3)
    {
        in.seekg(0);
        if (h.version.minor == 3)
            h.header13::read(in);
        else
            h.read(in);
    }
    if (!in)
        throw error("Truncated header.");
    bool b7 = h.point_format_id & 0x80, b6 = h.point_format_id & 0x40;
    if (b7 && b6)
        throw error("Header bits indicate unsupported old-style compression.");
    p_->compressed = b7 || b6;
    h.point_format_id &= 0x3F;
    if (!baseCount(h.point_format_id))
        throw error("Unsupported point format.");
    if (h.ebCount() < 0)
        throw error("Point record length too small for the point format.");
    p_->h = h;
    // VLRs
    in.seekg(h.header_size);
    bool found = false;
    for (uint32_t i = 0; i < h.vlr_count; i++)
    {
        vlr_header vh = vlr_header::create(in);
        if (!in)
            throw error("Truncated VLR.");
        auto pos = in.tellg();
        if (pos < 0)
            throw error("Truncated VLR.");
        if (vh.user_id == "laszip encoded" && vh.record_id == 22204)
        {
            p_->laz = laz_vlr::create(in);
            found = true;
            if (!in)
                throw error("Truncated LAZ VLR.");
        }
        in.seekg(pos + std::streamoff(vh.data_length));
    }
    if (p_->compressed && !found)
        throw error("Couldn't find LASZIP VLR.");
    if (p_->compressed && !p_->laz.valid())
        throw error("Unsupported LASZIP compressor.");
    // chunk table
    if (p_->compressed)
    {
        in.seekg(h.point_offset);
        int64_t off{0};
        get(in, off);
        if (!in)
            throw error("Truncated file.");
        if (off <= 0)
            throw error("Chunk table offset == -1 is not supported.");
        in.seekg(off);
        uint32_t version{0}, n{0};
        get(in, version);
        get(in, n);
        if (!in)
            throw error("Couldn't read chunk table.");
        if (version != 0)
            throw error("Invalid version number in chunk table.");
        if (n)
        {
            InFileStream s(in);
            p_->chunks = decompress_chunk_table(s.cb(), n, p_->laz.chunk_size == (std::numeric_limits<uint32_t>::max)());
        }
        in.clear();
    }
    in.seekg(p_->compressed ? h.point_offset + 8 : h.point_offset);
    in.clear();
    p_->stream.reset(new InFileStream(in));
    return true;
}
uint64_t basic_file::pointCount() const
{
    return p_->h.version.minor < 4 ? p_->h.point_count : p_->h.point_count_14;
}
const header14 &basic_file::header() const { return p_->h; }
laz_vlr basic_file::lazVlr() const { return p_->laz; }
void basic_file::readPoint(char *out)
{
    if (!p_->compressed)
    {
        p_->stream->getBytes(reinterpret_cast<unsigned char *>(out), p_->h.point_record_length);
        return;
    }
    bool variable = p_->laz.chunk_size == (std::numeric_limits<uint32_t>::max)();
    auto count = [&]() -> uint64_t { return p_->cur >= p_->chunks.size() ? 0 : variable ? p_->chunks[p_->cur].count : uint64_t(p_->laz.chunk_size); };
    while (!p_->dec || p_->num >= count())
    {
        if (p_->dec)
            p_->cur++;
        if (p_->cur >= p_->chunks.size())
            throw error("Read past the last chunk.");
        p_->num = 0;
        p_->dec = build_las_decompressor(p_->stream->cb(), p_->h.pointFormat(), p_->h.ebCount());
    }
    p_->dec->decompress(out);
    p_->num++;
}
generic_file::generic_file(std::istream &in)
{
    if (!open(in))
        throw error("Couldn't open generic_file as LAS/LAZ");
}
generic_file::~generic_file() {}
} // namespace reader
} // namespace lazperf
