// C36 Recognisable damage is reported, and only where it is needed
#include "../hostile.hpp"
using namespace hostile;

// A file with one damaged place, and what that place spoils
struct Damage
{
    std::string what;
    bool page{false};                 // reading page `at` fails
    Key at{0, 0, 0, 0};
    std::set<Key> compressed, points; // nodes whose compressed data / points can't be read
    std::set<Key> unknown;            // nodes whose points may or may not be readable
    bool opening{false};              // the file is refused
    bool lazToo{false};               // also when opened as LAZ
};
// The entry of `k` in its page: where it is, or 0
static uint64_t entryAt(const File &f, const Key &page, size_t i) { return f.pageAt.at(page).first + 32 * i; }
static void putKey(Bytes &b, uint64_t at, const Key &k)
{
    put(b, at, uint32_t(k.d), 4);
    put(b, at + 4, uint32_t(k.x), 4);
    put(b, at + 8, uint32_t(k.y), 4);
    put(b, at + 12, uint32_t(k.z), 4);
}
static Key keyAt(const Bytes &b, uint64_t at)
{
    return Key{int32_t(peek(b, at, 4)), int32_t(peek(b, at + 4, 4)), int32_t(peek(b, at + 8, 4)), int32_t(peek(b, at + 12, 4))};
}
static Damage damageHierarchy(Gen &g, File &f, Bytes &b)
{
    Damage d;
    d.page = true;
    std::vector<Key> pages;
    for (auto &p : f.pageAt)
        if (p.second.second)
            pages.push_back(p.first);
    if (pages.empty())
        pbt::discard();
    d.at = g.pick(pages);
    const size_t n = f.pageAt[d.at].second / 32, i = g.below(n);
    const uint64_t e = entryAt(f, d.at, i);
    const std::string in = " in page " + d.at.s();
    switch (g.below(7))
    {
    case 0: {
        int w = static_cast<int>(g.below(4));
        d.what = std::string("negative ") + "dxyz"[w] + in;
        put(b, e + 4 * w, g.pick<uint64_t>({0xFFFFFFFF, 0x80000000, 0xFFFFFF00, 0x80000000 | g.uintN(31)}), 4);
        break;
    }
    case 1:
        d.what = "negative size" + in;
        put(b, e + 24, g.pick<uint64_t>({0xFFFFFFFF, 0x80000000, 0x80000000 | g.uintN(31)}), 4);
        break;
    case 2: { // the page itself runs past the end of the file
        if (d.at.d == 0)
        {
            d.what = "the root page extends past the end of the file";
            if (g.flag())
                put(b, 375 + 54 + 40, b.size() - g.below(std::min<uint64_t>(f.pageAt[d.at].second, 32)), 8);
            else
                put(b, 375 + 54 + 48, (b.size() - f.pageAt[d.at].first) / 32 * 32 + 32 * (1 + g.size(5)), 8);
            break;
        }
        const Key parent = f.owner(d.at, true);
        bool found = false;
        for (size_t j = 0; j < f.pageAt[parent].second / 32; j++)
        {
            uint64_t x = entryAt(f, parent, j);
            if (keyAt(b, x) == d.at && peek(b, x + 28, 4) == 0xFFFFFFFF)
            {
                if (g.flag())
                    put(b, x + 16, g.flag() ? b.size() - g.below(f.pageAt[d.at].second) : b.size() + g.uintN(40), 8);
                else
                    put(b, x + 24, (b.size() - f.pageAt[d.at].first) / 32 * 32 + 32 * (1 + g.size(5)), 4);
                found = true;
            }
        }
        CHECK(found, "harness: no entry of page " << d.at.s());
        d.what = "page " + d.at.s() + " extends past the end of the file";
        // The bytes it overlaps are not necessarily an invalid entry, so the page is unreadable either way
        break;
    }
    case 3:
    case 4: { // a page lists itself, an ancestor, or a key that is not below it
        Key k = d.at;
        if (g.flag())
            k = ancestor(k, static_cast<int>(g.below(k.d + 1)));
        else if (d.at.d > 0)
            for (int t = 0; t < 5 && k.under(d.at); t++)
                k = key(g, 9);
        if (k.under(d.at) && !(k == d.at))
            k = d.at;
        d.what = "page entry " + k.s() + in;
        putKey(b, e, k);
        if (g.flag() && f.pageAt.count(k))
            put(b, e + 16, f.pageAt[k].first, 8), put(b, e + 24, f.pageAt[k].second, 4);
        put(b, e + 28, 0xFFFFFFFF, 4);
        if (int32_t(peek(b, e + 24, 4)) < 0)
            put(b, e + 24, 32, 4);
        break;
    }
    default: { // the same page twice
        if (n < 2)
            pbt::discard();
        size_t j = (i + 1 + g.below(n - 1)) % n;
        const uint64_t h = entryAt(f, d.at, j);
        d.what = "two entries for the same page" + in;
        if (peek(b, e + 28, 4) != 0xFFFFFFFF)
        { // neither may be a page so far
            putKey(b, e, child(d.at, static_cast<int>(g.below(8))));
            put(b, e + 28, 0xFFFFFFFF, 4);
            put(b, e + 24, 32 * g.below(3), 4);
        }
        for (int t = 0; t < 16; t++)
            b[h + t] = b[e + t];
        put(b, h + 28, 0xFFFFFFFF, 4);
        if (g.flag())
            for (int t = 16; t < 28; t++)
                b[h + t] = b[e + t];
        break;
    }
    }
    return d;
}
static Damage damageNode(Gen &g, File &f, Bytes &b)
{
    Damage d;
    std::vector<size_t> full;
    for (size_t i = 0; i < f.nodes.size(); i++)
        if (!f.nodes[i].recs.empty())
            full.push_back(i);
    if (full.empty())
        pbt::discard();
    const NodeSpec &s = f.nodes[g.pick(full)];
    const uint64_t page = f.pageAt[s.page].first, n = f.pageAt[s.page].second / 32;
    uint64_t e = 0;
    for (size_t j = 0; j < n; j++)
        if (keyAt(b, page + 32 * j) == s.key && peek(b, page + 32 * j + 28, 4) != 0xFFFFFFFF)
            e = page + 32 * j;
    CHECK(e, "harness: no entry of node " << s.key.s());
    auto &w = f.where[s.key];
    d.compressed.insert(s.key);
    if (g.flag())
    {
        w.second = static_cast<int32_t>(std::min<uint64_t>(0x7FFFFFFF, b.size() - w.first + 1 + (g.flag() ? g.size(100) : g.uintN(31))));
        put(b, e + 24, w.second, 4);
        d.what = "the size of node " + s.key.s() + " leads past the end of the file";
    }
    else
    {
        switch (g.below(3))
        {
        case 0: // the last bytes of the chunk are missing
            w.first = b.size() - g.below(w.second);
            break;
        case 1:
            w.first = b.size() + g.uintN(30);
            break;
        default:
            w.first = uint64_t(1) << g.range(32, 62);
        }
        put(b, e + 16, w.first, 8);
        if (w.first < b.size()) // decoding starts on bytes that are there
            d.unknown.insert(s.key);
        else
            d.points.insert(s.key);
        d.what = "node " + s.key.s() + " lies past the end of the file, at " + std::to_string(w.first);
    }
    return d;
}
static Damage damageRecords(Gen &g, File &f, Bytes &b)
{
    Damage d;
    d.opening = true;
    const std::vector<spec::Vlr> *where = nullptr;
    auto find = [&](const char *u, int r) -> const spec::Vlr *
    {
        where = &f.vlrs;
        for (auto *l : {&f.vlrs, &f.evlrs})
            for (auto &v : *l)
                if (v.user == u && v.record == r)
                    return where = l, &v;
        return nullptr;
    };
    switch (g.below(7))
    {
    case 0: {
        if (f.evlrs.empty())
            pbt::discard();
        auto &v = g.pick(f.evlrs);
        uint64_t room = b.size() - v.dataOffset();
        uint64_t len = g.flag() ? room + 1 + g.size(200) : g.flag() ? room + 1 + g.uintN(62) : ~uint64_t(0) - g.uintN(10);
        put(b, v.offset + 20, len, 8);
        d.what = "EVLR of " + std::to_string(len) + " bytes, " + std::to_string(room) + " left";
        d.lazToo = true;
        break;
    }
    case 1: {
        uint32_t n = static_cast<uint32_t>(std::min<uint64_t>(0x7FFFFFFF, b.size() / 54 + 1 + g.uintN(20)));
        put(b, 100, n, 4);
        d.what = std::to_string(n) + " VLRs";
        d.lazToo = true;
        break;
    }
    case 2: {
        uint32_t n = static_cast<uint32_t>(std::min<uint64_t>(0x7FFFFFFF, b.size() / 60 + 1 + g.uintN(20)));
        put(b, 243, n, 4);
        d.what = std::to_string(n) + " EVLRs";
        d.lazToo = true;
        break;
    }
    case 3: { // an extent with its bounds exchanged
        auto *v = find("copc", 10000);
        if (!v || v->data.size() < 16)
            pbt::discard();
        uint64_t at = v->dataOffset() + 16 * g.below(v->data.size() / 16);
        double lo = g.niceReal(), hi = std::nextafter(lo, -1e300) - (g.flag() ? std::fabs(g.niceReal()) : 0);
        if (!(lo > hi))
            pbt::discard();
        put(b, at, bitsOf(lo), 8);
        put(b, at + 8, bitsOf(hi), 8);
        d.what = "extent with minimum above maximum";
        break;
    }
    case 4: { // a negative variance
        auto *v = find("rock_robotic", 10001);
        if (!v || !f.hasExtended || v->data.size() < 16 || !find("copc", 10000))
            pbt::discard();
        v = find("rock_robotic", 10001);
        uint64_t at = v->dataOffset() + 16 * g.below(v->data.size() / 16);
        double var = -std::fabs(g.niceReal());
        if (!(var < 0))
            pbt::discard();
        put(b, at + 8, bitsOf(var), 8);
        d.what = "extent with negative variance";
        break;
    }
    case 5: { // too few or too many extents. The data that follow would be taken for a record, so only lengths that end
              // in the same place are used: the record is given the format's other number of extents
        auto *v = find(g.flag() ? "copc" : "rock_robotic", 10000);
        if (!v)
            v = find("rock_robotic", 10001);
        if (!v || !f.hasExtents)
            pbt::discard();
        if (v->user != "copc" && !f.hasExtended)
            pbt::discard();
        if (where != &f.evlrs || v != &f.evlrs.back()) // only the last record may change its length
        {
            // another point format has another number of extents, and a shorter record still fits
            int fmt = f.c.fmt == 6 ? 7 + static_cast<int>(g.below(2)) : g.flag() ? 6 : 15 - f.c.fmt;
            b[104] = static_cast<uint8_t>(0x80 | fmt);
            put(b, 105, spec::baseSize(fmt) + f.eb(), 2);
            d.what = "extents of another point format";
            if (spec::baseDims(fmt) == spec::baseDims(f.c.fmt))
                pbt::discard();
        }
        else
        {
            uint64_t items = v->data.size() / 16, to = g.below(items + 1);
            if (to == items)
                pbt::discard();
            put(b, v->offset + 20, 16 * to + g.below(16), 8);
            d.what = std::to_string(to) + " of " + std::to_string(items) + " extents";
        }
        break;
    }
    default: {
        int base = spec::baseSize(f.c.fmt);
        int len = g.flag() ? base - 1 - static_cast<int>(g.below(8)) : static_cast<int>(g.below(base));
        put(b, 105, len, 2);
        d.what = "record length " + std::to_string(len) + " of format " + std::to_string(f.c.fmt);
        d.lazToo = true;
        break;
    }
    }
    return d;
}

static void checkRecs(const copc::las::Points &pts, const File &f, const NodeSpec &s, const std::string &what)
{
    auto raw = ubytes(pts.Pack(f.c.q.s(), f.c.q.o()));
    checkBytes(raw, spec::encode(s.recs, f.c.fmt), what);
}
// One query. What it needs decides whether it must fail
static void query(Gen &g, copc::Reader &r, const File &f, const Damage &d, int &failed, int &answered)
{
    std::vector<const NodeSpec *> all;
    for (auto &n : f.nodes)
        all.push_back(&n);
    Key k;
    switch (g.below(5))
    {
    case 0:
    case 1:
        k = f.nodes.empty() ? Key{0, 0, 0, 0} : f.nodes[g.below(f.nodes.size())].key;
        break;
    case 2: {
        auto it = f.pages.begin();
        std::advance(it, g.below(f.pages.size()));
        k = *it;
        break;
    }
    case 3:
        k = d.at;
        if (g.flag())
            k = child(k, static_cast<int>(g.below(8)));
        break;
    default:
        k = key(g, 6);
    }
    auto *s = f.node(k);
    // the pages needed to find k: those above it, down to the one that holds it
    bool hidden = false;
    if (d.page)
        hidden = s ? d.at == s->page || (s->page.under(d.at)) : k.under(d.at);
    std::string log;
    auto run = [&](bool fails, auto call, bool unknown = false)
    {
        if (unknown && !fails)
            return;
        g.note(log + (fails ? "! " : " "));
        bool threw = false;
        try
        {
            call();
        }
        catch (const pbt::PropFail &)
        {
            throw;
        }
        catch (const std::exception &e)
        {
            threw = true;
            CHECK(fails, log << " fails although it does not need what is damaged: " << e.what());
        }
        CHECK(threw == fails, log << " hands out data in spite of the damage");
        (fails ? failed : answered)++;
    };
    switch (g.below(9))
    {
    case 0:
    case 1:
        log = "find" + k.s();
        run(hidden, [&] {
            auto n = r.FindNode(vk(k));
            if (s)
                checkNode(n, f, *s, log);
            else
                CHECK(!n.IsValid(), log << ": absent node is found: " << n.ToString());
        });
        break;
    case 2:
        log = "compressed" + k.s();
        run(hidden || d.compressed.count(k), [&] {
            auto c = ubytes(r.GetPointDataCompressed(vk(k)));
            if (!s || s->recs.empty())
                CHECK(c.empty(), log << ": data for a node without points");
            else
                checkBytes(c, Bytes(f.bytes.begin() + f.where.at(k).first, f.bytes.begin() + f.where.at(k).first + f.where.at(k).second), log);
        });
        break;
    case 3:
        log = "points" + k.s();
        run(hidden || d.points.count(k), [&] {
            auto p = r.GetPoints(vk(k));
            if (s)
                checkRecs(p, f, *s, log);
            else
                CHECK(p.Size() == 0, log << ": points of an absent node");
        }, d.unknown.count(k));
        break;
    case 4:
        log = "data" + k.s();
        run(hidden || d.points.count(k), [&] { checkBytes(ubytes(r.GetPointData(vk(k))), s ? spec::encode(s->recs, f.c.fmt) : Bytes(), log); }, d.unknown.count(k));
        break;
    case 5: {
        log = "children" + k.s();
        bool isPage = f.pages.count(k) > 0;
        bool fails = d.page && (k.under(d.at) || (isPage && d.at.under(k)));
        run(fails, [&] {
            auto v = r.GetAllChildrenOfPage(vk(k));
            if (isPage)
                checkNodeSet(v, f, under(f, k), log);
            else if (s)
                checkNodeSet(v, f, {s}, log);
            else
                CHECK(v.empty(), log << ": nodes of an absent page");
        });
        break;
    }
    case 6:
        log = "all";
        run(d.page, [&] { checkNodeSet(r.GetAllNodes(), f, all, log); });
        break;
    case 7:
        log = "pages";
        run(d.page, [&] {
            std::set<Key> got;
            for (auto &p : r.GetPageList())
                got.insert(sk(p));
            CHECK(got == f.pages, log << ": page list");
        });
        break;
    default:
        switch (g.below(4))
        {
        case 0:
            log = "allpoints";
            run(d.page || !d.points.empty(), [&] { CHECK_EQ(r.GetAllPoints().Size(), f.points(), log); }, !d.unknown.empty());
            break;
        case 1:
            log = "boxpoints";
            run(d.page || !d.points.empty(), [&] { CHECK_EQ(r.GetPointsWithinBox(copc::Box::MaxBox()).Size(), f.points(), log); }, !d.unknown.empty());
            break;
        case 2:
            log = "boxnodes";
            run(d.page, [&] { checkNodeSet(g.flag() ? r.GetNodesWithinBox(copc::Box::MaxBox()) : r.GetNodesIntersectBox(copc::Box::MaxBox()), f, all, log); });
            break;
        default:
            log = "depth";
            run(d.page, [&] {
                int deep = -1;
                for (auto &n : f.nodes)
                    deep = std::max(deep, n.key.d);
                CHECK_EQ(r.GetMaxDepth(), deep, log);
            });
        }
    }
}
static void queries(Gen &g, bool node)
{
    Opts o;
    o.maxPts = 3;
    File f = file(g, o);
    Bytes b = f.bytes;
    Damage d = node ? damageNode(g, f, b) : damageHierarchy(g, f, b);
    g.note(d.what + " in " + f.str() + ": ");
    std::istringstream in(text(b));
    copc::Reader r(&in);
    int failed = 0, answered = 0;
    for (size_t i = 2 + g.below(8); i > 0; i--)
        query(g, r, f, d, failed, answered);
    if (failed && answered)
        g.nontrivial();
}
static void hierarchyDamage(Gen &g) { queries(g, false); }
static void nodeDamage(Gen &g) { queries(g, true); }
static void recordDamage(Gen &g)
{
    Opts o;
    o.maxPts = 3;
    File f = file(g, o);
    Bytes b = f.bytes;
    Damage d = damageRecords(g, f, b);
    g.note(d.what + " in " + f.str());
    size_t from = std::min(d.what.size(), d.what.find_first_not_of("0123456789 "));
    g.label(d.what.substr(from, d.what.find_first_of("0123456789", from) - from));
    {
        std::istringstream in(text(b));
        CHECK_THROWS(copc::Reader r(&in), "opening a file with " << d.what);
    }
    if (d.lazToo)
    {
        std::istringstream in(text(b));
        CHECK_THROWS(copc::laz::LazReader r(&in), "opening as LAZ a file with " << d.what);
    }
    g.nontrivial();
}

pbt::Property pbt::property()
{
    return {"C36",
            "queries that need the damaged place and queries that do not, on one reader (damaged records: any)",
            {{"damaged hierarchy", 6, hierarchyDamage}, {"damaged node location", 3, nodeDamage}, {"damaged metadata records", 4, recordDamage}},
            210000,
            1500000};
}
