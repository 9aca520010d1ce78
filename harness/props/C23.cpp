// C23 No input file can crash or hang the readers
#include "../hostile.hpp"
using namespace hostile;

void *operator new(size_t n)
{
    if (n > g_biggest)
        g_biggest = n;
    void *p = n < MEM_LIMIT ? malloc(n ? n : 1) : nullptr;
    if (!p)
        throw std::bad_alloc();
    return p;
}
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void *operator new[](size_t n) { return operator new(n); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }

static void finish(Gen &g, const Tally &t, bool copc, bool laz)
{
    if (copc || laz)
        g.nontrivial();
    g.label(copc ? "accepted as COPC" : laz ? "accepted as LAZ only" : "refused on opening");
    if (t.ok && t.refused)
        g.label("some operations refused");
}
static void run(Gen &g, const Bytes &b, const std::vector<Key> &keys)
{
    Tally t;
    bool c = exerciseCopc(g, b, keys, t);
    bool l = g.below(3) == 2 ? exerciseLaz(g, b, t) : false;
    finish(g, t, c, l);
}
static File base(Gen &g)
{
    Opts o;
    o.maxNodes = 6;
    o.maxPts = 4;
    o.maxDepth = 6;
    o.level = 0;
    o.exotic = g.flag();
    File f = content(g, o);
    if (g.flag()) // nested pages
    {
        f.pages = {Key{0, 0, 0, 0}};
        for (auto &n : f.nodes)
        {
            n.page = g.below(3) ? ancestor(n.key, static_cast<int>(g.below(n.key.d + 1))) : n.key;
            f.pages.insert(n.page);
        }
    }
    layOut(g, f, o);
    return f;
}
static void corrupted(Gen &g)
{
    File f = base(g);
    Bytes b = f.bytes;
    std::vector<Key> keys(f.pages.begin(), f.pages.end());
    for (auto &n : f.nodes)
        keys.push_back(n.key);
    g.note(mutate(g, b, f));
    run(g, b, keys);
}
// hierarchies of arbitrary entries
static void hierarchy(Gen &g)
{
    File f;
    Opts o;
    o.maxNodes = 2;
    o.maxPts = 3;
    o.exotic = false;
    f = content(g, o);
    layOut(g, f, o);
    Bytes b = f.bytes;
    struct P
    {
        uint64_t at, size;
    };
    size_t np = 1 + g.below(5);
    std::vector<P> pages;
    std::vector<std::vector<int>> kinds;
    std::vector<size_t> counts;
    uint64_t pos = b.size();
    for (size_t i = 0; i < np; i++)
    {
        uint64_t n = g.below(6);
        pages.push_back({pos, n * 32});
        pos += n * 32;
    }
    std::vector<Key> keys;
    for (size_t i = 0; i < 3; i++)
        keys.push_back(key(g, 4));
    keys.push_back(Key{0, 0, 0, 0});
    for (auto &p : pages)
        for (uint64_t e = 0; e < p.size / 32; e++)
        {
            Key k = g.flag() ? g.pick(keys) : key(g, 6);
            if (g.below(8) == 7)
                k.d = static_cast<int32_t>(g.uintN(31));
            if (g.below(4) == 3)
                keys.push_back(k);
            for (int32_t v : {k.d, k.x, k.y, k.z})
                spec::le(b, uint32_t(v), 4);
            switch (g.below(4))
            {
            case 0:
            case 1: { // page
                auto &q = g.pick(pages);
                spec::le(b, q.at, 8);
                spec::le(b, q.size, 4);
                spec::le(b, 0xFFFFFFFFu, 4);
                g.note("page" + k.s() + "->" + std::to_string(q.at) + " ");
                break;
            }
            case 2: { // a true chunk or a bad one
                uint64_t off = f.where.empty() || g.below(4) == 3 ? g.below(b.size()) : f.where.begin()->second.first;
                spec::le(b, off, 8);
                spec::le(b, g.below(4) == 3 ? g.uintN(31) : 40, 4);
                spec::le(b, g.below(4) == 3 ? g.uintN(31) : g.below(4), 4);
                g.note("node" + k.s() + " ");
                break;
            }
            default:
                spec::le(b, g.uintN(64), 8);
                spec::le(b, g.uintN(32), 4);
                spec::le(b, g.uintN(32), 4);
            }
        }
    put(b, 375 + 54 + 40, pages[0].at, 8);
    put(b, 375 + 54 + 48, pages[0].size, 8);
    run(g, b, keys);
}
// a chain of pages, each listing the next, possibly long, possibly wide
static void chain(Gen &g)
{
    File f;
    Opts o;
    o.maxNodes = 0;
    o.exotic = false;
    f = content(g, o);
    f.c.wkt.clear();
    f.hasWkt = false;
    layOut(g, f, o);
    Bytes b = f.bytes;
    const size_t n = g.below(16) == 15 ? g.pick({40000u, 300000u}) : 1 + g.size(400);
    const size_t wide = n > 1000 ? 1 : 1 + g.below(3); // each page lists the next one this many times
    const int keying = static_cast<int>(g.below(3));
    g.note("chain of " + std::to_string(n) + " pages, listed " + std::to_string(wide) + " times, keys " + std::to_string(keying));
    uint64_t pos = b.size();
    put(b, 375 + 54 + 40, pos, 8);
    put(b, 375 + 54 + 48, 32 * wide, 8);
    for (size_t i = 0; i < n; i++)
        for (size_t w = 0; w < wide; w++)
        {
            // below the page that lists it: by depth alone; the same key again and again; differing among themselves
            int32_t d = static_cast<int32_t>(keying == 1 ? 1 : i + 1);
            spec::le(b, uint32_t(d), 4);
            spec::le(b, keying == 2 ? w : 0, 4);
            spec::le(b, 0, 8);
            spec::le(b, pos + (i + 1) * 32 * wide, 8);
            spec::le(b, i + 1 == n ? 0 : 32 * wide, 4);
            spec::le(b, 0xFFFFFFFFu, 4);
        }
    run(g, b, {Key{0, 0, 0, 0}, Key{1, 0, 0, 0}, Key{2, 0, 0, 0}, Key{int32_t(n), 0, 0, 0}, Key{int32_t(n + 1), 0, 0, 0}, Key{INT32_MAX, 0, 0, 0}});
    if (wide > 1)
        g.label("pages listed several times");
    if (n > 1000)
        g.label("long chain");
}
// bytes with no structure, or a valid beginning
static void raw(Gen &g)
{
    Bytes b;
    if (g.flag())
    {
        b = base(g).bytes;
        b.resize(g.below(b.size() + 1));
    }
    auto junk = g.bytes(g.size(600));
    b.insert(b.end(), junk.begin(), junk.end());
    run(g, b, {});
    if (b.size() >= 375)
        g.nontrivial();
}
// conforming files are accepted under the same limits: the limits themselves raise no alarm
static void intact(Gen &g)
{
    File f = base(g);
    Tally t;
    CHECK(exerciseCopc(g, f.bytes, {}, t), "a conforming file is refused");
    CHECK_EQ(t.refused, 0, "operations on a conforming file refused");
    finish(g, t, true, false);
}

// data that lies past the end of the file is an error, not made up
static void pastEnd(Gen &g)
{
    Opts o;
    o.maxNodes = 2;
    o.exotic = false;
    File f = content(g, o);
    layOut(g, f, o);
    Bytes b = f.bytes;
    const size_t n = g.below(4), cut = 1 + g.below(31);
    const uint64_t at = b.size();
    uint64_t chunkAt = 400, chunkSize = 20;
    if (g.flag()) // a chunk that ends past the end
        chunkAt = at - 10, chunkSize = 32 * (n + 1) + 20;
    for (size_t i = 0; i <= n; i++)
    {
        for (uint32_t v : {2u, uint32_t(i), 0u, 0u})
            spec::le(b, v, 4);
        spec::le(b, chunkAt, 8);
        spec::le(b, chunkSize, 4);
        spec::le(b, 3, 4);
    }
    put(b, 375 + 54 + 40, at, 8);
    put(b, 375 + 54 + 48, 32 * (n + 1), 8);
    g.note(std::to_string(n) + " entries and " + std::to_string(32 - cut) + " bytes, chunk " + std::to_string(chunkAt) + "+" + std::to_string(chunkSize));
    {
        std::istringstream in(text(b));
        copc::Reader r(&in);
        CHECK_EQ(r.GetAllNodes().size(), n + 1, "nodes of a complete page");
        if (chunkSize > 20)
            CHECK_THROWS(r.GetPointDataCompressed(copc::VoxelKey(2, 0, 0, 0)), "a chunk past the end of the file");
        // and the reader still answers
        CHECK_EQ(r.GetPointDataCompressed(copc::Node(copc::Entry(copc::VoxelKey(1, 0, 0, 0), 300, 40, 1))).size(), size_t(40), "data after an error");
    }
    if (!f.where.empty())
    {
        auto &w = *f.where.begin();
        auto want = f.node(w.first);
        std::istringstream in(text(f.bytes));
        copc::Reader r(&in);
        auto n = r.FindNode(vk(w.first));
        auto bad = n;
        bad.point_count += static_cast<int32_t>(1 + g.uintN(20));
        attempt(*std::make_unique<Tally>(), "too many points", [&] { r.GetPointData(bad); });
        checkBytes(ubytes(r.GetPointData(n)), spec::encode(want->recs, f.c.fmt), "point data after an error");
        g.label("point data after an error");
    }
    b.resize(b.size() - cut);
    std::istringstream in(text(b));
    copc::Reader r(&in);
    CHECK_THROWS(r.GetAllNodes(), "a page cut in its last entry");
    if (n && cut <= 16)
        g.nontrivial();
}
// the header of a file, whatever its numbers: accepted only if they make sense together
static void header(Gen &g)
{
    lazperf::header14 h;
    h.global_encoding = static_cast<uint16_t>(0x10 | g.uintN(16));
    h.version.major = 1;
    h.version.minor = 4;
    h.header_size = 375;
    h.point_format_id = static_cast<uint8_t>(g.range(5, 9));
    h.point_record_length = static_cast<uint16_t>(g.flag() ? g.below(80) : g.uintN(16));
    h.point_offset = static_cast<uint32_t>(g.uintN(32));
    h.vlr_count = static_cast<uint32_t>(g.uintN(32));
    h.point_count_14 = g.uintN(64);
    h.maxx = g.anyDouble();
    h.minx = g.anyDouble();
    Tally t;
    attempt(t, "reading a header", [&] {
        auto l = copc::las::LasHeader::FromLazPerf(h);
        CHECK_EQ(int(copc::las::PointBaseByteSize(l.PointFormatId())) + int(l.EbByteSize()), int(h.point_record_length),
                 "format " << int(l.PointFormatId()) << " with records of " << h.point_record_length << " bytes: base size plus extra bytes");
        l.ToString();
        copc::las::Points p(l);
        g.nontrivial();
    });
}

pbt::Property pbt::property()
{
    return {"C23",
            "the corrupted input is still accepted by a reader, so that queries run on it (unstructured input: at least a header long)",
            {{"corrupted", 10, corrupted}, {"hierarchy", 4, hierarchy}, {"chain", 1, chain}, {"raw", 1, raw}, {"intact", 1, intact}, {"header", 1, header}, {"past end", 1, pastEnd}},
            60000,
            3000000};
}
