// C24 Files that are not COPC or not supported are refused on opening
#include "../hostile.hpp"
#include <sys/stat.h>
using namespace hostile;

static std::string path() { return tmpFile("c24"); }
struct Opened
{
    bool ok{false};
    std::string why;
};
// opened from memory or from a file
static Opened open(const Bytes &b, bool laz, bool asFile)
{
    Opened o;
    try
    {
        if (asFile)
        {
            std::string p = path();
            {
                std::ofstream f(p, std::ios::binary);
                f.write(reinterpret_cast<const char *>(b.data()), b.size());
            }
            if (laz)
                copc::laz::LazFileReader r(p);
            else
                copc::FileReader r(p);
        }
        else
        {
            std::istringstream in(text(b));
            if (laz)
                copc::laz::LazReader r(&in);
            else
                copc::Reader r(&in);
        }
        o.ok = true;
    }
    catch (const std::exception &e)
    {
        o.why = e.what();
    }
    return o;
}
static void rename(Bytes &b, Gen &g, const spec::Vlr &v)
{
    if (g.flag()) // another record id
    {
        uint16_t id = v.record;
        while (id == v.record)
            id = static_cast<uint16_t>(g.flag() ? v.record + g.range(-2, 2) : g.uintN(16));
        put(b, v.offset + 18, id, 2);
    }
    else // another user id
    {
        static const std::vector<std::string> other = {"COPC", "cop", "copc ", "copc1", "entwine", "xopc", "", "LASF_Spec"};
        std::string u = g.pick(other);
        for (size_t i = 0; i < 16; i++)
            b[v.offset + 2 + i] = i < u.size() ? u[i] : 0;
    }
}
static void one(Gen &g)
{
    Opts o;
    o.maxNodes = 3;
    o.maxPts = 3;
    o.maxDepth = 4;
    File f = file(g, o);
    Bytes b = f.bytes;
    bool refusedByLaz = false;
    std::string what;
    switch (g.below(12))
    {
    case 0:
        what = "no COPC info record";
        rename(b, g, f.vlrs[0]);
        break;
    case 1: {
        what = "no hierarchy record";
        for (auto &v : f.evlrs)
            if (v.user == "copc" && v.record == 1000)
                rename(b, g, v);
        for (auto &v : f.evlrs) // a rename may have made another one
            if (b[v.offset + 18] == (1000 & 0xFF) && b[v.offset + 19] == (1000 >> 8) && std::string(b.begin() + v.offset + 2, b.begin() + v.offset + 6) == "copc" && b[v.offset + 6] == 0)
                pbt::discard();
        break;
    }
    case 2: { // the same records in another order
        what = "the info record is not the first one";
        std::vector<spec::Vlr> vl = f.vlrs;
        if (vl.size() < 2)
            pbt::discard();
        size_t at = 1 + g.below(vl.size() - 1);
        std::rotate(vl.begin(), vl.begin() + 1, vl.begin() + at + 1);
        if (vl[0].user == "copc" && vl[0].record == 1)
            pbt::discard();
        Bytes area;
        for (auto &v : vl)
            spec::app(area, vlrBytes(v));
        std::copy(area.begin(), area.end(), b.begin() + 375);
        break;
    }
    case 3: {
        what = "LAS version " + std::to_string(g.below(1)) ;
        int major = 1, minor = static_cast<int>(g.pick({0, 1, 2, 3, 5, 6, 255}));
        if (g.below(3) == 2)
            major = g.pick({0, 2, 255}), minor = g.flag() ? 4 : minor;
        what = "LAS version " + std::to_string(major) + "." + std::to_string(minor);
        b[24] = static_cast<uint8_t>(major);
        b[25] = static_cast<uint8_t>(minor);
        refusedByLaz = true;
        break;
    }
    case 4: {
        int fmt = g.pick({0, 1, 2, 3, 4, 5, 9, 10, 11, 63});
        what = "point format " + std::to_string(fmt);
        b[104] = static_cast<uint8_t>(fmt | 0x80);
        put(b, 105, std::max<uint64_t>(peek(b, 105, 2), 80), 2);
        refusedByLaz = true;
        break;
    }
    case 5: {
        what = "not WKT";
        put(b, 6, peek(b, 6, 2) & ~0x10ull, 2);
        refusedByLaz = true;
        break;
    }
    case 6: {
        int size = g.pick({227, 235, 374, 376, 400, 0, 65535});
        what = "header size " + std::to_string(size);
        put(b, 94, size, 2);
        if (size > 375 && size < 1000 && g.flag())
        { // everything else is where such a header says
            const size_t n = size - 375;
            put(b, f.pointOffset, f.chunkTable + n, 8);
            put(b, 96, f.pointOffset + n, 4);
            put(b, 235, f.evlrOffset + n, 8);
            b.insert(b.begin() + 375, n, 0);
            what += ", consistent";
        }
        refusedByLaz = true;
        break;
    }
    case 7: {
        what = "signature";
        b[g.below(4)] ^= static_cast<uint8_t>(1 + g.below(255));
        refusedByLaz = true;
        break;
    }
    case 8: {
        size_t to = g.below(4) == 3 ? 0 : g.below(f.pointOffset + 8);
        what = "cut to " + std::to_string(to) + " bytes";
        b.resize(to);
        refusedByLaz = true;
        break;
    }
    case 9: {
        what = "no LAZ record";
        for (auto &v : f.vlrs)
            if (v.user == "laszip encoded")
                rename(b, g, v);
        refusedByLaz = true;
        break;
    }
    case 10: {
        what = "bytes that are no LAS file";
        b = g.bytes(g.size(2000));
        if (b.size() >= 4 && std::memcmp(b.data(), "LASF", 4) == 0)
            pbt::discard();
        refusedByLaz = true;
        break;
    }
    default: { // cut before the extended records: the hierarchy is not there
        if (f.evlrs.empty())
            pbt::discard();
        what = "cut before the end of the extended records";
        b.resize(f.evlrOffset + g.below(f.evlrs.back().dataOffset() - f.evlrOffset));
        break;
    }
    }
    g.note(what + " in " + f.str());
    g.label(what.substr(0, what.find_first_of("0123456789")));
    const bool asFile = g.below(4) == 3;
    Opened r = open(b, false, asFile);
    CHECK(!r.ok, "opened as COPC: " << what);
    if (refusedByLaz)
        CHECK(!open(b, true, asFile).ok, "opened as LAZ: " << what);
    g.nontrivial();
}
static void conforming(Gen &g)
{
    Opts o;
    o.maxNodes = 3;
    o.maxPts = 3;
    File f = file(g, o);
    g.note(f.str());
    const bool asFile = g.below(4) == 3;
    Opened r = open(f.bytes, false, asFile);
    CHECK(r.ok, "a conforming file is refused: " << r.why);
    Opened l = open(f.bytes, true, asFile);
    CHECK(l.ok, "a conforming file is refused as LAZ: " << l.why);
    if (f.vlrs.size() + f.evlrs.size() >= 4)
        g.nontrivial();
}
// A LAZ file is no COPC file, but remains a LAZ file
static void lazOnly(Gen &g)
{
    Cfg c = cfg(g, 0);
    std::ostringstream out;
    size_t n = g.below(3);
    {
        copc::las::LazConfigWriter cw(static_cast<int8_t>(c.fmt), c.q.s(), c.q.o(), c.wkt, toCopc(c.eb));
        copc::laz::LazWriter w(out, cw);
        for (size_t i = 0; i < n; i++)
            w.WritePoints(points(recs(g, c.fmt, c.ebBytes(), 1, 4), c.q, c.fmt, c.ebBytes()));
    }
    Bytes b = ubytes(out.str());
    g.note(c.str());
    const bool asFile = g.below(4) == 3;
    CHECK(!open(b, false, asFile).ok, "a LAZ file is opened as COPC");
    Opened l = open(b, true, asFile);
    CHECK(l.ok, "a LAZ file is refused: " << l.why);
    g.nontrivial();
}
static void paths(Gen &g)
{
    std::string p = path();
    ::unlink(p.c_str());
    bool dir = g.flag();
    std::string q = dir ? tmpDir() : g.flag() ? p : p + "/x";
    g.note(dir ? "a directory" : "no file");
    CHECK_THROWS(copc::FileReader r(q), "opening a path that is no file");
    CHECK_THROWS(copc::laz::LazFileReader r(q), "opening a path that is no file as LAZ");
    std::istringstream bad("LASF");
    bad.setstate(g.flag() ? std::ios::failbit : std::ios::badbit);
    CHECK_THROWS(copc::Reader r(&bad), "opening a failed stream");
    CHECK_THROWS(copc::laz::LazReader r(&bad), "opening a failed stream as LAZ");
}

pbt::Property pbt::property()
{
    return {"C24",
            "a file with one non-conformity (conforming files: at least four records)",
            {{"one non-conformity", 10, one}, {"conforming", 4, conforming}, {"LAZ only", 2, lazOnly}, {"paths", 1, paths}},
            250000,
            1500000};
}
