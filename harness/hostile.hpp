// Hostile input: corrupting generated files, and running every reader operation on whatever results
#pragma once
#include "build.hpp"

#include <csignal>
#include <new>
#include <sys/time.h>
#include <unistd.h>

namespace hostile
{
using namespace build;

// --- resource limits. A request for more memory than any of the small inputs can justify is refused (as the operating
// system would refuse an absurd one) and remembered; CPU time is measured per operation.
inline size_t g_biggest = 0;
inline const size_t MEM_LIMIT = size_t(192) << 20;
inline const char *g_doing = "";
inline void tooLong(int)
{
    const char *a = "HANG: an operation on the input used more than 8 s of CPU time: ";
    (void)!write(2, a, strlen(a));
    (void)!write(2, g_doing, strlen(g_doing));
    (void)!write(2, "\n", 1);
    abort();
}
struct Watch
{
    static void set(int s)
    {
        itimerval t{};
        t.it_value.tv_sec = s;
        setitimer(ITIMER_PROF, &t, nullptr);
    }
    Watch()
    {
        signal(SIGPROF, tooLong);
        set(8);
    }
    ~Watch() { set(0); }
};
struct Tally
{
    int ok{0}, refused{0};
};
// Runs one operation: a result or an error, within the limits
template <typename F> bool attempt(Tally &t, const char *what, F f)
{
    g_doing = what;
    g_biggest = 0;
    bool good = false;
    try
    {
        Watch w;
        f();
        good = true;
    }
    catch (const pbt::PropFail &)
    {
        throw;
    }
    catch (const std::exception &)
    {
    }
    CHECK(g_biggest < MEM_LIMIT || g_biggest > (size_t(1) << 40), what << " asked for " << g_biggest << " bytes of memory at once");
    good ? t.ok++ : t.refused++;
    return good;
}

struct Mute
{
    std::stringstream ss;
    std::streambuf *old;
    Mute() : old(std::cout.rdbuf(ss.rdbuf())) {}
    ~Mute() { std::cout.rdbuf(old); }
};

inline copc::Box anyBox(Gen &g)
{
    if (g.flag())
        return copc::Box::MaxBox();
    std::vector<double> v;
    for (int i = 0; i < 6; i++)
        v.push_back(g.niceReal());
    for (int i = 0; i < 3; i++)
        if (v[i] > v[i + 3])
            std::swap(v[i], v[i + 3]);
    return copc::Box(v);
}
inline double anyRes(Gen &g) { return g.flag() ? g.real(0, 50) : g.anyDouble(); }

inline void useNodes(Gen &g, Tally &t, copc::Reader &r, const std::vector<copc::Node> &nodes)
{
    for (size_t i = 0; i < 6 && !nodes.empty(); i++)
    {
        const auto &n = i < nodes.size() && i < 3 ? nodes[i] : nodes[g.below(nodes.size())];
        switch (g.below(7))
        {
        case 0:
            attempt(t, "GetPointData(node)", [&] { r.GetPointData(n); });
            break;
        case 1:
            attempt(t, "GetPoints(node)", [&] { r.GetPoints(n); });
            break;
        case 2:
            attempt(t, "GetPointDataCompressed(node)", [&] { CHECK_EQ(r.GetPointDataCompressed(n).size(), size_t(n.byte_size), "size of compressed data"); });
            break;
        case 3:
            attempt(t, "GetPoints(key)", [&] { r.GetPoints(n.key); });
            break;
        case 4:
            attempt(t, "GetAllChildrenOfPage(key of a node)", [&] { r.GetAllChildrenOfPage(n.key); });
            break;
        case 5:
            attempt(t, "FindNode(key of a node)", [&] { r.FindNode(n.key); });
            break;
        default:
            attempt(t, "text of a node", [&] { n.ToString(); copc::Box(n.key, r.CopcConfig().LasHeader()); });
        }
    }
}
// Everything a user may ask of a COPC reader. Returns whether the input was accepted
inline bool exerciseCopc(Gen &g, const Bytes &bytes, const std::vector<Key> &keys, Tally &t)
{
    std::istringstream in(text(bytes));
    std::unique_ptr<copc::Reader> r;
    attempt(t, "opening as COPC", [&] { r = std::make_unique<copc::Reader>(&in); });
    if (!r)
        return false;
    std::vector<copc::Node> nodes;
    auto userKey = [&]
    {
        // also those of the file's own entries, as another reader of the file gave them
        return vk(!keys.empty() && g.flag() ? g.pick(keys) : key(g, 30));
    };
    size_t n = 2 + g.below(6);
    for (size_t i = 0; i < n; i++)
    {
        switch (g.below(16))
        {
        case 0:
            attempt(t, "the configuration", [&] {
                auto c = r->CopcConfig();
                c.LasHeader().ToString();
                c.CopcInfo().ToString();
                c.CopcExtents().ToString();
                c.Wkt();
                c.ExtraBytesVlr();
                c.CopcExtents().ExtraBytes();
                copc::CopcConfigWriter w(c);
            });
            break;
        case 1:
            attempt(t, "FindNode", [&] { r->FindNode(userKey()); });
            break;
        case 2:
            attempt(t, "GetAllNodes", [&] { nodes = r->GetAllNodes(); });
            break;
        case 3:
            attempt(t, "GetPageList", [&] { r->GetPageList(); });
            break;
        case 4:
            attempt(t, "GetAllPoints", [&] { r->GetAllPoints(g.flag() ? 0 : anyRes(g)); });
            break;
        case 5:
            attempt(t, "GetDepthAtResolution", [&] { r->GetDepthAtResolution(anyRes(g)); });
            break;
        case 6:
            attempt(t, "GetNodesAtResolution", [&] { r->GetNodesAtResolution(anyRes(g)); });
            break;
        case 7:
            attempt(t, "GetNodesWithinResolution", [&] { r->GetNodesWithinResolution(anyRes(g)); });
            break;
        case 8:
            attempt(t, "GetNodesWithinBox", [&] { r->GetNodesWithinBox(anyBox(g), g.flag() ? 0 : anyRes(g)); });
            break;
        case 9:
            attempt(t, "GetNodesIntersectBox", [&] { r->GetNodesIntersectBox(anyBox(g), g.flag() ? 0 : anyRes(g)); });
            break;
        case 10:
            attempt(t, "GetPointsWithinBox", [&] { r->GetPointsWithinBox(anyBox(g), g.flag() ? 0 : anyRes(g)); });
            break;
        case 11: {
            Mute m;
            attempt(t, "ValidateSpatialBounds", [&] { r->ValidateSpatialBounds(g.flag()); });
            break;
        }
        case 12:
            attempt(t, "GetAllChildrenOfPage", [&] { r->GetAllChildrenOfPage(userKey()); });
            break;
        case 13:
            attempt(t, "GetPointDataCompressed(key)", [&] { r->GetPointDataCompressed(userKey()); });
            break;
        case 14:
            attempt(t, "GetMaxDepth", [&] { r->GetMaxDepth(); });
            break;
        default:
            if (nodes.empty())
                attempt(t, "GetAllNodes", [&] { nodes = r->GetAllNodes(); });
            useNodes(g, t, *r, nodes);
        }
    }
    return true;
}
inline bool exerciseLaz(Gen &g, const Bytes &bytes, Tally &t)
{
    std::istringstream in(text(bytes));
    std::unique_ptr<copc::laz::LazReader> r;
    attempt(t, "opening as LAZ", [&] { r = std::make_unique<copc::laz::LazReader>(&in); });
    if (!r)
        return false;
    for (size_t i = 1 + g.below(2); i > 0; i--)
    {
        attempt(t, "the LAZ configuration", [&] {
            auto c = r->LazConfig();
            c.LasHeader().ToString();
            c.Wkt();
            copc::las::LazConfigWriter w(c);
        });
        if (g.flag())
            attempt(t, "LAZ GetPoints", [&] { r->GetPoints(); });
        else
            attempt(t, "LAZ GetPointData", [&] { r->GetPointData(); });
    }
    return true;
}

// --- corruption
inline void put(Bytes &b, uint64_t at, uint64_t v, int n)
{
    for (int i = 0; i < n; i++)
        if (at + i < b.size())
            b[at + i] = uint8_t(v >> (8 * i));
}
inline uint64_t peek(const Bytes &b, uint64_t at, int n)
{
    uint64_t v = 0;
    for (int i = 0; i < n; i++)
        if (at + i < b.size())
            v |= uint64_t(b[at + i]) << (8 * i);
    return v;
}
// a new value for a field: near the old one, a boundary, or arbitrary
inline uint64_t tweak(Gen &g, uint64_t old, int n, uint64_t fileSize)
{
    switch (g.below(6))
    {
    case 0:
        return old + g.range(-3, 3);
    case 1:
        return g.uintN(8 * n);
    case 2:
        return g.pick<uint64_t>({0, 1, 0x7F, 0x80, 0xFF, 0x7FFF, 0xFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x7FFFFFFFFFFFFFFF, 0x8000000000000000, ~0ull});
    case 3:
        return fileSize + g.range(-40, 40);
    case 4:
        return g.below(fileSize + 1);
    default:
        return old ^ (uint64_t(1) << g.below(8 * n));
    }
}
struct Spot
{
    uint64_t at;
    int n;
    std::string name;
};
inline std::vector<Spot> headerSpots()
{
    return {{0, 4, "signature"}, {6, 2, "global encoding"}, {24, 1, "major version"}, {25, 1, "minor version"}, {94, 2, "header size"},
            {96, 4, "point offset"}, {100, 4, "vlr count"}, {104, 1, "point format"}, {105, 2, "record length"}, {107, 4, "legacy count"},
            {131, 8, "x scale"}, {139, 8, "y scale"}, {155, 8, "x offset"}, {179, 8, "max x"}, {187, 8, "min x"}, {211, 8, "max z"},
            {235, 8, "evlr offset"}, {243, 4, "evlr count"}, {247, 8, "point count"}};
}
inline std::string mutate(Gen &g, Bytes &b, const File &f)
{
    std::ostringstream log;
    auto change = [&](const Spot &s)
    {
        uint64_t v = tweak(g, peek(b, s.at, s.n), s.n, b.size());
        put(b, s.at, v, s.n);
        log << s.name << "@" << s.at << "=" << v << " ";
    };
    std::vector<Key> pages(f.pages.begin(), f.pages.end());
    size_t n = 1 + g.size(3);
    for (size_t i = 0; i < n; i++)
    {
        switch (g.below(13))
        {
        case 12: { // an EVLR that leads back to itself or to an earlier one
            if (f.evlrs.empty())
                break;
            auto &v = f.evlrs[g.below(f.evlrs.size())], &w = f.evlrs[g.below(f.evlrs.size())];
            put(b, v.offset + 20, w.offset - (v.offset + 60), 8);
            if (g.flag())
                put(b, 243, 0xFFFFFFFF, 4);
            log << "EVLR@" << v.offset << "->" << w.offset << " ";
            break;
        }
        case 0:
        case 1:
            change(g.pick(headerSpots()));
            break;
        case 2: { // a VLR's header
            size_t k = g.below(f.vlrs.size() + f.evlrs.size());
            bool e = k >= f.vlrs.size();
            auto &v = e ? f.evlrs[k - f.vlrs.size()] : f.vlrs[k];
            switch (g.below(3))
            {
            case 0:
                change({v.offset + 20, e ? 8 : 2, "length of " + v.user});
                break;
            case 1:
                change({v.offset + 18, 2, "record id of " + v.user});
                break;
            default:
                change({v.offset + 2 + g.below(16), 1, "user id of " + v.user});
            }
            break;
        }
        case 3: { // a VLR's contents
            size_t k = g.below(f.vlrs.size() + f.evlrs.size());
            auto &v = k >= f.vlrs.size() ? f.evlrs[k - f.vlrs.size()] : f.vlrs[k];
            if (v.data.empty())
                break;
            int w = g.pick({1, 2, 4, 8});
            change({v.dataOffset() + g.below(v.data.size()), w, "data of " + v.user + "/" + std::to_string(v.record)});
            break;
        }
        case 4:
        case 5: { // a hierarchy entry's field
            auto &p = f.pageAt.at(g.pick(pages));
            if (p.second == 0)
                break;
            uint64_t at = p.first + 32 * g.below(p.second / 32);
            switch (g.below(4))
            {
            case 0: {
                int w = static_cast<int>(g.below(4));
                change({at + 4 * w, 4, std::string("entry key ") + "dxyz"[w]});
                break;
            }
            case 1:
                change({at + 16, 8, "entry offset"});
                break;
            case 2:
                change({at + 24, 4, "entry size"});
                break;
            default:
                change({at + 28, 4, "entry count"});
            }
            break;
        }
        case 6: { // an entry becomes a page entry of some page, under some key
            auto &p = f.pageAt.at(g.pick(pages));
            if (p.second == 0)
                break;
            uint64_t at = p.first + 32 * g.below(p.second / 32);
            Key k = g.pick(pages);
            auto &q = f.pageAt.at(k);
            if (g.flag()) // with the key of that page, of any page, or its own
            {
                if (g.flag())
                    k = g.pick(pages);
                put(b, at, uint32_t(k.d), 4);
                put(b, at + 4, uint32_t(k.x), 4);
                put(b, at + 8, uint32_t(k.y), 4);
                put(b, at + 12, uint32_t(k.z), 4);
            }
            put(b, at + 16, q.first, 8);
            put(b, at + 24, q.second, 4);
            put(b, at + 28, 0xFFFFFFFFu, 4);
            log << "entry@" << at << "=page " << k.s() << " at " << q.first << " ";
            break;
        }
        case 7: { // duplicate an entry
            auto &p = f.pageAt.at(g.pick(pages)), &q = f.pageAt.at(g.pick(pages));
            if (p.second == 0 || q.second == 0)
                break;
            uint64_t from = p.first + 32 * g.below(p.second / 32), to = q.first + 32 * g.below(q.second / 32);
            for (int j = 0; j < 32; j++)
                put(b, to + j, peek(b, from + j, 1), 1);
            log << "entry@" << from << "->" << to << " ";
            break;
        }
        case 8: { // truncation
            if (b.empty())
                break;
            size_t to = g.flag() ? b.size() - std::min<size_t>(b.size(), 1 + g.size(80)) : g.below(b.size());
            b.resize(to);
            log << "cut to " << to << " ";
            break;
        }
        case 9: { // COPC info, chunk table
            switch (g.below(6))
            {
            case 4:
            case 5: { // a spacing, cube, scale, offset or bound that is no sensible number
                const double v = g.pick({std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(),
                                         std::numeric_limits<double>::quiet_NaN(), 0.0, -1.0, 1e308, -1e308, 5e-324});
                const uint64_t at = g.flag() ? 375 + 54 + 8 * g.below(5) : 131 + 8 * g.below(12);
                if (at + 8 <= b.size())
                {
                    uint64_t bits;
                    std::memcpy(&bits, &v, 8);
                    put(b, at, bits, 8);
                    log << "double@" << at << "=" << v << " ";
                }
                break;
            }
            case 0:
                change({375 + 54 + 40, 8, "root page offset"});
                break;
            case 1:
                change({375 + 54 + 48, 8, "root page size"});
                break;
            case 2:
                change({f.pointOffset, 8, "chunk table offset"});
                break;
            default:
                change({f.chunkTable + g.below(12), static_cast<int>(1 + g.below(4)), "chunk table"});
            }
            break;
        }
        case 10: { // insert or remove bytes
            if (b.empty())
                break;
            size_t at = g.below(b.size()), c = 1 + g.size(40);
            if (g.flag())
                b.insert(b.begin() + at, c, uint8_t(g.bits(8)));
            else
                b.erase(b.begin() + at, b.begin() + std::min(b.size(), at + c));
            log << "shift@" << at << " ";
            break;
        }
        default: { // any bytes
            if (b.empty())
                break;
            change({g.below(b.size()), static_cast<int>(1 + g.below(4)), "bytes"});
        }
        }
    }
    return log.str();
}
} // namespace hostile
