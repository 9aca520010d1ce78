// Writer histories: a model of what a COPC writer was asked to do, and the checks of the finished file against it
#pragma once
#include "gen.hpp"

namespace hist
{
using namespace gen;

struct Model
{
    Cfg c;
    std::map<Key, NodeSpec> nodes;           // by key
    std::vector<Key> order;                  // in order of writing
    std::set<Key> pages{Key{0, 0, 0, 0}};    // existing pages
    std::map<Key, std::pair<uint64_t, int32_t>> where; // what AddNode reported
    std::string log;
    Gen *gen{nullptr}; // for the case description
    void say(const std::string &s)
    {
        log += s;
        if (gen)
            gen->note(s);
    }
    size_t points() const
    {
        size_t n = 0;
        for (auto &e : nodes)
            n += e.second.recs.size();
        return n;
    }
    size_t inPage(const Key &p) const
    {
        size_t n = 0;
        for (auto &e : nodes)
            n += e.second.page == p;
        return n;
    }
    // nearest existing page at or above a key
    Key owner(Key k, bool strict) const
    {
        if (strict)
            k = k.parent();
        while (k.d >= 0)
        {
            if (pages.count(k))
                return k;
            k = k.parent();
        }
        return Key{-1, -1, -1, -1};
    }
};

inline bool keyDefined(const Model &m, const Key &k) { return m.nodes.count(k) > 0; }

inline copc::Node add(Gen &g, copc::Writer &w, Model &m, const Key &k, const Key &page, const std::vector<Rec> &v)
{
    NodeSpec n;
    n.key = k;
    n.page = page;
    n.recs = v;
    Bytes raw = spec::encode(v, m.c.fmt);
    copc::Node node;
    const bool rootDefault = page.d == 0 && g.flag(); // leave the page argument at its default
    switch (g.below(3))
    {
    case 0: {
        auto pts = points(v, m.c.q, m.c.fmt, m.c.ebBytes());
        node = rootDefault ? w.AddNode(vk(k), pts) : w.AddNode(vk(k), pts, vk(page));
        break;
    }
    case 1:
        node = rootDefault ? w.AddNode(vk(k), chars(raw)) : w.AddNode(vk(k), chars(raw), vk(page));
        break;
    default: {
        auto comp = chars(spec::compress(raw, m.c.fmt, m.c.ebBytes()));
        int32_t cnt = static_cast<int32_t>(v.size());
        node = rootDefault ? w.AddNodeCompressed(vk(k), comp, cnt) : w.AddNodeCompressed(vk(k), comp, cnt, vk(page));
    }
    }
    m.say("add" + k.s() + "@" + page.s() + "x" + std::to_string(v.size()) + " ");
    m.nodes[k] = n;
    m.order.push_back(k);
    m.pages.insert(page);
    m.where[k] = {node.offset, node.byte_size};
    CHECK(sk(node.key) == k, "AddNode returned key " << node.key << " for " << k.s());
    CHECK(sk(node.page_key) == page, "AddNode returned page " << node.page_key << " for " << page.s());
    CHECK_EQ(size_t(node.point_count), v.size(), "AddNode returned point_count");
    CHECK(node.IsValid() && !node.IsPage(), "AddNode returned an invalid node");
    return node;
}
inline void move(copc::Writer &w, Model &m, const Key &k, const Key &page)
{
    m.say("move" + k.s() + "->" + page.s() + " ");
    w.ChangeNodePage(vk(k), vk(page));
    auto &n = m.nodes[k];
    Key old = n.page;
    if (old == page)
        return;
    n.page = page;
    m.pages.insert(page);
    if (old.d != 0 && m.inPage(old) == 0)
        m.pages.erase(old);
}
inline void checkWriterView(Gen &g, copc::Writer &w, const Model &m)
{
    if (!m.nodes.empty())
    {
        auto it = m.nodes.begin();
        std::advance(it, g.below(m.nodes.size()));
        auto n = w.FindNode(vk(it->first));
        CHECK(n.IsValid(), "the writer does not find node " << it->first.s());
        CHECK_EQ(size_t(n.point_count), it->second.recs.size(), "writer: point count of " << it->first.s());
        CHECK(sk(n.page_key) == it->second.page,
              "writer: node " << it->first.s() << " reports page " << n.page_key << ", it is in " << it->second.page.s());
        auto &wh = m.where.at(it->first);
        CHECK(n.offset == wh.first && n.byte_size == wh.second, "writer: location of " << it->first.s() << " changed");
    }
    Key k = key(g, 6);
    if (!keyDefined(m, k))
        CHECK(!w.FindNode(vk(k)).IsValid(), "the writer finds absent node " << k.s());
}
// The operations that can be refused, each of which must leave no trace
inline void refused(Gen &g, copc::Writer &w, Model &m)
{
    auto v = recs(g, m.c.fmt, m.c.ebBytes(), 1, 3);
    Bytes raw = spec::encode(v, m.c.fmt);
    Key k = key(g, 8);
    auto bad = [&](Key b)
    {
        int32_t *f[4] = {&b.d, &b.x, &b.y, &b.z};
        *f[g.below(4)] = -1 - static_cast<int32_t>(g.below(3));
        return b;
    };
    auto addAny = [&](const Key &a, const Key &p)
    {
        switch (g.below(3))
        {
        case 0:
            w.AddNode(vk(a), points(v, m.c.q, m.c.fmt, m.c.ebBytes()), vk(p));
            break;
        case 1:
            w.AddNode(vk(a), chars(raw), vk(p));
            break;
        default:
            w.AddNodeCompressed(vk(a), chars(spec::compress(raw, m.c.fmt, m.c.ebBytes())), static_cast<int32_t>(v.size()), vk(p));
        }
    };
    auto notAbove = [&](const Key &a) // a valid key that is not a or an ancestor of a
    {
        for (int i = 0; i < 8; i++)
        {
            Key p = i < 5 ? key(g, 8) : child(a, static_cast<int>(g.below(8)));
            if (!a.under(p))
                return p;
        }
        return child(a, 3);
    };
    size_t what = g.below(15);
    m.say("refused" + std::to_string(what) + " ");
    switch (what)
    {
    case 14: { // a page outside the cube, which no page of the file could list, and a node in it
        Key p = key(g, 8), a = p;
        int32_t *f[3] = {&p.x, &p.y, &p.z};
        size_t axes = 1 + g.below(7);
        for (int i = 0; i < 3; i++)
            if (axes >> i & 1)
                *f[i] += static_cast<int32_t>(1 + g.below(3)) << p.d;
        a = p;
        for (size_t n = g.below(3); n > 0; n--)
            a = child(a, static_cast<int>(g.below(8)));
        CHECK_THROWS(addAny(a, p), "node " << a.s() << " in page " << p.s() << ", outside the cube");
        if (g.below(3) == 2)
            CHECK_THROWS(addAny(a, Key({0, 0, 0, 0})), "node " << a.s() << " outside the cube, in the root page");
        break;
    }
    case 13: { // a node that exists
        if (m.order.empty())
            break;
        Key a = m.order[g.below(m.order.size())];
        Key p = g.flag() ? m.nodes[a].page : ancestor(a, static_cast<int>(g.below(a.d + 1)));
        CHECK_THROWS(addAny(a, p), "node " << a.s() << " added again, in page " << p.s());
        break;
    }
    case 0:
        CHECK_THROWS(addAny(bad(k), Key({0, 0, 0, 0})), "a node with an invalid key");
        break;
    case 1:
        CHECK_THROWS(addAny(k, bad(k)), "a node in a page with an invalid key");
        break;
    case 2: {
        Key p = notAbove(k);
        CHECK_THROWS(addAny(k, p), "node " << k.s() << " in page " << p.s());
        break;
    }
    case 3:
        CHECK_THROWS(w.AddNode(vk(k), copc::las::Points(static_cast<int8_t>(m.c.fmt), static_cast<uint16_t>(m.c.ebBytes()))),
                     "a node without points");
        break;
    case 4: { // wrong shape
        int f2 = static_cast<int>(g.range(6, 8));
        int e2 = static_cast<int>(g.size(12));
        if (f2 == m.c.fmt && e2 == m.c.ebBytes())
            e2++;
        if (g.flag() && m.c.fmt < 8 && m.c.ebBytes() >= 6) // same record length, other format
        {
            f2 = m.c.fmt + 1;
            e2 = m.c.recordLength() - spec::baseSize(f2);
        }
        auto pts = points(recs(g, f2, e2, 1, 2), m.c.q, f2, e2);
        CHECK_THROWS(w.AddNode(vk(k), pts), "points of format " << f2 << " with " << e2 << " extra bytes");
        break;
    }
    case 5:
        CHECK_THROWS(w.AddNode(vk(k), std::vector<char>()), "an empty byte array");
        break;
    case 6: {
        auto b = chars(raw);
        b.resize(b.size() - 1 - g.below(m.c.recordLength() - 1));
        if (!b.empty())
            CHECK_THROWS(w.AddNode(vk(k), b), b.size() << " bytes for records of " << m.c.recordLength());
        break;
    }
    case 7: {
        if (g.below(3) == 2)
        {
            CHECK_THROWS(w.AddNodeCompressed(vk(k), std::vector<char>(), static_cast<int32_t>(v.size())), "a compressed node without data");
            break;
        }
        int32_t cnt = g.flag() ? 0 : -1 - static_cast<int32_t>(g.uintN(20));
        CHECK_THROWS(w.AddNodeCompressed(vk(k), chars(spec::compress(raw, m.c.fmt, m.c.ebBytes())), cnt),
                     "a compressed node with point count " << cnt);
        break;
    }
    case 8: { // unrepresentable coordinate, possibly not in the first point
        auto pts = points(v, m.c.q, m.c.fmt, m.c.ebBytes());
        auto p = pts[g.below(pts.Size())];
        int a = static_cast<int>(g.below(3));
        double val = m.c.q.offset[a] + (g.flag() ? 1 : -1) * m.c.q.scale[a] * 4e9;
        if (g.below(4) == 3)
            val = std::numeric_limits<double>::quiet_NaN();
        a == 0 ? p->X(val) : a == 1 ? p->Y(val) : p->Z(val);
        CHECK_THROWS(w.AddNode(vk(k), pts), "a coordinate that the scale and offset cannot represent");
        break;
    }
    case 9: {
        CHECK_THROWS(w.ChangeNodePage(vk(bad(k)), copc::VoxelKey::RootKey()), "moving a node with an invalid key");
        break;
    }
    case 10: {
        if (m.nodes.count(k))
            break;
        CHECK_THROWS(w.ChangeNodePage(vk(k), copc::VoxelKey::RootKey()), "moving an absent node");
        break;
    }
    case 11: {
        if (m.order.empty())
            break;
        Key e = m.order[g.below(m.order.size())];
        CHECK_THROWS(w.ChangeNodePage(vk(e), vk(bad(e))), "moving a node to an invalid page");
        break;
    }
    default: {
        if (m.order.empty())
            break;
        Key e = m.order[g.below(m.order.size())], p = notAbove(e);
        CHECK_THROWS(w.ChangeNodePage(vk(e), vk(p)), "moving node " << e.s() << " to page " << p.s());
    }
    }
}

struct Opts
{
    size_t maxOps = 24;
    size_t maxPts = 6;
    int maxDepth = 9;
    unsigned refusedWeight = 0;
    unsigned moveWeight = 4;
};
// Runs a generated history against the writer, keeping the model in step
inline void run(Gen &g, copc::Writer &w, Model &m, const Opts &o)
{
    m.gen = &g;
    size_t maxOps = o.maxOps, huge = 0;
    switch (g.below(1000)) // sizes that ordinary cases stay far below
    {
    case 999:
        huge = 1; // a node with more points than 16 bits count
        break;
    case 998:
    case 997:
        maxOps *= 30;
        break;
    default:
        break;
    }
    size_t ops = std::max(g.size(maxOps), huge);
    std::vector<Key> keys = tree(g, huge, maxOps, o.maxDepth);
    if (!keys.empty() && g.below(12) == 11)
        for (size_t i = 1 + g.below(4); i > 0; i--)
        {
            const Key k = farBelow(g, keys[g.flag() ? keys.size() - 1 : g.below(keys.size())]);
            if (k.d < 300000 && std::find(keys.begin(), keys.end(), k) == keys.end())
                keys.insert(keys.begin() + static_cast<int64_t>(g.below(keys.size() + 1)), k);
        }
    size_t next = 0;
    for (size_t i = 0; i < ops; i++)
    {
        switch (g.weighted({6, o.moveWeight, o.refusedWeight, 1}))
        {
        case 0: {
            if (next >= keys.size())
                break;
            Key k = keys[next++];
            std::vector<NodeSpec> prev;
            for (auto &e : m.order)
                prev.push_back(m.nodes[e]);
            Key p = pageFor(g, k, prev);
            add(g, w, m, k, p, huge ? manyRecs(g, m.c.fmt, m.c.ebBytes()) : recs(g, m.c.fmt, m.c.ebBytes(), 1, o.maxPts));
            huge = 0;
            break;
        }
        case 1: {
            if (m.order.empty())
                break;
            Key k = m.order[g.below(m.order.size())];
            Key p = Key{0, 0, 0, 0};
            switch (g.below(4))
            {
            case 0:
                p = ancestor(k, static_cast<int>(g.below(k.d + 1)));
                break;
            case 1: { // an existing page
                std::vector<Key> c;
                for (auto &q : m.pages)
                    if (k.under(q))
                        c.push_back(q);
                p = c[g.below(c.size())];
                break;
            }
            case 2:
                p = m.nodes[k].page; // where it already is
                break;
            default:
                p = ancestor(k, static_cast<int>(std::min(k.d, 1)));
            }
            move(w, m, k, p);
            break;
        }
        case 2:
            refused(g, w, m);
            break;
        default:
            break;
        }
        if (g.below(3) == 0)
            checkWriterView(g, w, m);
    }
}

// A file with far more nodes and pages than ordinary cases have: counts and page sizes beyond 16 bits. All nodes share a
// few compressed chunks.
inline void wide(Gen &g, copc::Writer &w, Model &m, size_t maxPages)
{
    const size_t n = g.pick({300, 2047, 2048, 2049, 5000, 33000, 66000});
    const int depth = 6;
    int at = static_cast<int>(g.below(7)); // a share of the nodes lies in pages of this depth
    while (at > 0 && (size_t(1) << (3 * at)) > maxPages)
        at--;
    const size_t share = g.pick({1, 2, 7});
    std::vector<std::vector<Rec>> v;
    std::vector<std::vector<char>> comp;
    for (int i = 0; i < 3; i++)
    {
        v.push_back(recs(g, m.c.fmt, m.c.ebBytes(), 1, 2));
        comp.push_back(chars(spec::compress(spec::encode(v.back(), m.c.fmt), m.c.fmt, m.c.ebBytes())));
    }
    const size_t stride = n * 3 < (size_t(1) << 18) ? g.pick({1, 3}) : 1; // neighbouring cells or scattered ones
    for (size_t i = 0; i < n; i++)
    {
        Key k{0, 0, 0, 0};
        for (int d = depth - 1; d >= 0; d--)
            k = child(k, static_cast<int>((i * stride) >> (3 * d) & 7));
        NodeSpec s;
        s.key = k;
        s.page = i % share == 0 ? ancestor(k, at) : Key{0, 0, 0, 0};
        s.recs = v[i % 3];
        auto node = w.AddNodeCompressed(vk(k), comp[i % 3], static_cast<int32_t>(s.recs.size()), vk(s.page));
        m.nodes[k] = s;
        m.order.push_back(k);
        m.pages.insert(s.page);
        m.where[k] = {node.offset, node.byte_size};
    }
    for (size_t i = g.below(4); i > 0; i--)
    {
        const Key k = m.order[g.below(m.order.size())];
        move(w, m, k, ancestor(k, static_cast<int>(g.below(depth + 1))));
    }
    m.say(std::to_string(n) + " nodes in " + std::to_string(m.pages.size()) + " pages ");
    g.label(m.pages.size() > 65535 ? "over 65535 pages" : n > 65535 ? "over 65535 nodes" : "thousands of nodes");
    g.nontrivial();
}

// Pages nested as deeply as keys allow: each lies in the one before
inline void deep(Gen &g, copc::Writer &w, Model &m)
{
    const int n = static_cast<int>(g.pick({40, 3000, 100000}));
    const int per = static_cast<int>(g.pick({1, 1, 3})); // levels per page
    auto v = recs(g, m.c.fmt, m.c.ebBytes(), 1, 2);
    const auto comp = chars(spec::compress(spec::encode(v, m.c.fmt), m.c.fmt, m.c.ebBytes()));
    const bool upwards = g.flag();
    for (int i = 0; i < n; i++)
    {
        NodeSpec s;
        s.key = Key{upwards ? n - 1 - i : i, 0, 0, 0};
        s.page = Key{s.key.d / per * per, 0, 0, 0};
        s.recs = v;
        auto node = w.AddNodeCompressed(vk(s.key), comp, static_cast<int32_t>(v.size()), vk(s.page));
        m.nodes[s.key] = s;
        m.order.push_back(s.key);
        m.pages.insert(s.page);
        m.where[s.key] = {node.offset, node.byte_size};
    }
    for (size_t i = g.below(4); i > 0; i--)
    {
        const Key k = m.order[g.below(m.order.size())];
        move(w, m, k, ancestor(k, static_cast<int>(g.below(static_cast<uint64_t>(k.d) + 1))));
    }
    m.say(std::to_string(n) + " levels in " + std::to_string(m.pages.size()) + " nested pages ");
    g.label(n > 1000 ? "thousands of nested pages" : "nested pages");
    g.nontrivial();
}

struct Walk
{
    std::map<Key, Key> pageOf;                        // node -> page
    std::map<Key, spec::HEntry> node;                 // node entries
    std::map<Key, std::pair<uint64_t, uint64_t>> page; // page -> offset, size
    std::map<Key, Key> pageParent;
};
// Follow the hierarchy of a finished file from its root page
inline Walk walk(const Bytes &b, const spec::Info &info)
{
    Walk r;
    std::vector<std::tuple<Key, uint64_t, uint64_t>> todo{{Key{0, 0, 0, 0}, info.rootOffset, info.rootSize}};
    r.page[Key{0, 0, 0, 0}] = {info.rootOffset, info.rootSize};
    while (!todo.empty())
    {
        auto [k, off, size] = todo.back();
        todo.pop_back();
        for (auto &e : spec::parsePage(b, off, size))
        {
            CHECK(e.key.d >= 0 && e.key.x >= 0 && e.key.y >= 0 && e.key.z >= 0, "hierarchy entry with an invalid key " << e.key.s());
            CHECK(e.key.under(k), "page " << k.s() << " lists " << e.key.s() << ", which is not below it");
            if (e.count == -1)
            {
                CHECK(!r.page.count(e.key), "page " << e.key.s() << " is listed twice");
                CHECK(e.size >= 0, "negative size of page " << e.key.s());
                r.page[e.key] = {e.offset, uint64_t(e.size)};
                r.pageParent[e.key] = k;
                todo.push_back({e.key, e.offset, uint64_t(e.size)});
            }
            else
            {
                CHECK(!r.node.count(e.key), "node " << e.key.s() << " is listed twice (pages " << r.pageOf[e.key].s() << " and " << k.s() << ")");
                CHECK(e.count > 0, "node " << e.key.s() << " with point count " << e.count);
                r.node[e.key] = e;
                r.pageOf[e.key] = k;
            }
        }
    }
    return r;
}
inline spec::Info infoOf(const spec::Parsed &p)
{
    auto *v = p.find("copc", 1);
    CHECK(v, "the file has no COPC info record");
    return spec::Info::decode(v->data);
}
// The hierarchy in the file is the model's
inline void checkHierarchy(const Walk &h, const Model &m)
{
    for (auto &e : m.nodes)
    {
        CHECK(h.node.count(e.first), "node " << e.first.s() << " is not in the file's hierarchy");
        CHECK_EQ(size_t(h.node.at(e.first).count), e.second.recs.size(), "point count of " << e.first.s());
        CHECK(h.pageOf.at(e.first) == e.second.page,
              "node " << e.first.s() << " is stored in page " << h.pageOf.at(e.first).s() << ", expected " << e.second.page.s());
        auto &wh = m.where.at(e.first);
        CHECK(h.node.at(e.first).offset == wh.first && h.node.at(e.first).size == wh.second,
              "node " << e.first.s() << " is stored at " << h.node.at(e.first).offset << "+" << h.node.at(e.first).size
                      << ", the writer reported " << wh.first << "+" << wh.second);
    }
    CHECK_EQ(h.node.size(), m.nodes.size(), "nodes in the file's hierarchy");
    for (auto &p : m.pages)
        CHECK(h.page.count(p), "page " << p.s() << " is not in the file");
    for (auto &p : h.page)
        CHECK(m.pages.count(p.first), "page " << p.first.s() << " is in the file but should not exist");
    for (auto &p : h.pageParent)
        CHECK(p.second == m.owner(p.first, true),
              "page " << p.first.s() << " hangs under " << p.second.s() << ", expected " << m.owner(p.first, true).s());
}
// Two files with the same contents. The order in which sibling pages are written is not specified (it follows memory
// addresses), everything else is compared byte for byte.
inline void checkSameFile(const Bytes &a, const Bytes &b, bool copc, const std::string &what)
{
    if (!copc)
    {
        checkBytes(a, b, what);
        return;
    }
    CHECK_EQ(a.size(), b.size(), what << ": file size");
    auto pa = spec::parse(a), pb = spec::parse(b);
    auto ia = infoOf(pa), ib = infoOf(pb);
    CHECK_EQ(ia.rootSize, ib.rootSize, what << ": size of the root page");
    CHECK_EQ(pa.h.evlrOffset, pb.h.evlrOffset, what << ": offset of the EVLRs");
    const size_t rootField = pa.find("copc", 1)->dataOffset() + 40; // where the root page is
    for (size_t i = 0; i < pa.h.evlrOffset; i++)
        if (i < rootField || i >= rootField + 8)
            CHECK(a[i] == b[i], what << ": byte " << i << " is " << int(a[i]) << ", expected " << int(b[i]));
    Walk wa = walk(a, ia), wb = walk(b, ib);
    auto entry = [](const spec::HEntry &x, const spec::HEntry &y) { return x.offset == y.offset && x.size == y.size && x.count == y.count; };
    CHECK_EQ(wa.node.size(), wb.node.size(), what << ": nodes");
    for (auto &n : wb.node)
        CHECK(wa.node.count(n.first) && entry(wa.node.at(n.first), n.second) && wa.pageOf.at(n.first) == wb.pageOf.at(n.first),
              what << ": node " << n.first.s() << " differs");
    CHECK_EQ(wa.page.size(), wb.page.size(), what << ": pages");
    for (auto &n : wb.page)
        CHECK(wa.page.count(n.first) && wa.page.at(n.first).second == n.second.second, what << ": page " << n.first.s() << " differs");
    CHECK(wa.pageParent == wb.pageParent, what << ": pages hang under other pages");
    std::multiset<std::string> ea, eb;
    for (auto *p : {&pa, &pb})
        for (auto &v : p->evlrs)
            (p == &pa ? ea : eb).insert(v.user + "/" + std::to_string(v.record) + "/" + std::to_string(v.data.size()) + "/" + v.description +
                                        (v.user == "copc" ? "" : text(v.data)));
    CHECK(ea == eb, what << ": other EVLRs");
}
inline void checkNodeData(const Bytes &b, const Walk &h, const Model &m)
{
    for (auto &e : m.nodes)
    {
        auto &n = h.node.at(e.first);
        Bytes raw;
        try
        {
            raw = spec::decompress(b, n.offset, static_cast<size_t>(n.size), m.c.fmt, m.c.ebBytes(), static_cast<size_t>(n.count));
        }
        catch (const std::exception &x)
        {
            CHECK(false, "node " << e.first.s() << " does not decompress: " << x.what());
        }
        checkBytes(raw, spec::encode(e.second.recs, m.c.fmt), "points of node " + e.first.s() + " in the file");
    }
}
} // namespace hist
