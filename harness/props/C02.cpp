// C02 The hierarchy of nodes and pages follows every add / move history
#include "../hist.hpp"
using namespace hist;

static std::set<Key> keysOf(const std::vector<copc::Node> &v, const std::string &what)
{
    std::set<Key> s;
    for (auto &n : v)
        CHECK(s.insert(sk(n.key)).second, what << " returns node " << n.key << " twice");
    return s;
}
static void checkReader(Gen &g, std::stringstream &out, const Model &m)
{
    copc::Reader r(&out);
    // a few lookups first, so that the pages load in some order
    std::vector<Key> look = m.order;
    for (size_t i = look.size(); i > 1; i--)
        std::swap(look[i - 1], look[g.below(i)]);
    for (auto &k : look)
    {
        auto n = r.FindNode(vk(k));
        CHECK(n.IsValid(), "reader: node " << k.s() << " not found");
        CHECK(sk(n.page_key) == m.nodes.at(k).page,
              "reader: node " << k.s() << " reports page " << n.page_key << ", expected " << m.nodes.at(k).page.s());
        CHECK(n.offset == m.where.at(k).first && n.byte_size == m.where.at(k).second, "reader: location of " << k.s());
        if (g.below(4) == 0)
            checkBytes(ubytes(r.GetPointData(n)), spec::encode(m.nodes.at(k).recs, m.c.fmt), "reader: points of " + k.s());
    }
    std::set<Key> all;
    for (auto &e : m.nodes)
        all.insert(e.first);
    CHECK(keysOf(r.GetAllNodes(), "GetAllNodes") == all, "GetAllNodes does not return the written nodes");
    std::set<Key> pages;
    for (auto &k : r.GetPageList())
        CHECK(pages.insert(sk(k)).second, "GetPageList returns " << k << " twice");
    for (auto &p : m.pages)
        CHECK(pages.count(p), "GetPageList misses page " << p.s());
    CHECK_EQ(pages.size(), m.pages.size(), "GetPageList: number of pages");
    for (auto &p : m.pages)
    {
        // everything stored in the page or in pages below it
        std::set<Key> want;
        for (auto &e : m.nodes)
            if (e.second.page.under(p))
                want.insert(e.first);
        CHECK(keysOf(r.GetAllChildrenOfPage(vk(p)), "GetAllChildrenOfPage") == want, "GetAllChildrenOfPage(" << p.s() << ")");
    }
    for (int i = 0; i < 3; i++)
    {
        Key k = !m.order.empty() && g.flag() ? m.order[g.below(m.order.size())] : key(g, 6);
        if (m.pages.count(k))
            continue;
        std::set<Key> want;
        if (m.nodes.count(k))
            want.insert(k);
        CHECK(keysOf(r.GetAllChildrenOfPage(vk(k)), "GetAllChildrenOfPage") == want, "GetAllChildrenOfPage(" << k.s() << "), not a page");
    }
}
static void history(Gen &g)
{
    Model m;
    m.c.fmt = static_cast<int>(g.range(6, 8));
    m.c.extents.resize(spec::baseDims(m.c.fmt));
    std::stringstream out;
    {
        copc::Writer w(out, writerConfig(m.c));
        Opts o;
        o.maxOps = 30;
        o.maxPts = 3;
        o.moveWeight = g.pick({4u, 8u, 2u});
        run(g, w, m, o);
        if (g.flag())
            w.Close();
    }
    if (m.pages.size() >= 2)
        g.label("several pages");
    if (m.log.find("move") != std::string::npos && m.pages.size() >= 2 && m.nodes.size() >= 2)
        g.nontrivial();
    if (m.pages.size() >= 4)
        g.label("at least four pages");
    Bytes b = ubytes(out.str());
    auto p = spec::parse(b);
    Walk h = walk(b, infoOf(p));
    checkHierarchy(h, m);
    checkNodeData(b, h, m);
    checkReader(g, out, m);
}
// Thousands of nodes and pages
static void largeFile(Gen &g, bool nested)
{
    Model m;
    m.gen = &g;
    m.c.fmt = static_cast<int>(g.range(6, 8));
    m.c.extents.resize(spec::baseDims(m.c.fmt));
    std::stringstream out;
    {
        copc::Writer w(out, writerConfig(m.c));
        nested ? deep(g, w, m) : wide(g, w, m, g.pick({1u, 100u, 5000u, 300000u}));
        w.Close();
    }
    Bytes b = ubytes(out.str());
    auto p = spec::parse(b);
    Walk h = walk(b, infoOf(p));
    checkHierarchy(h, m);
    copc::Reader r(&out);
    for (int i = 0; i < 20; i++)
    {
        auto &k = m.order[g.below(m.order.size())];
        auto n = r.FindNode(vk(k));
        CHECK(n.IsValid() && n.offset == m.where.at(k).first && n.byte_size == m.where.at(k).second && sk(n.page_key) == m.nodes.at(k).page,
              "reader: node " << k.s() << " is " << n << " in page " << n.page_key);
        checkBytes(ubytes(r.GetPointData(n)), spec::encode(m.nodes.at(k).recs, m.c.fmt), "reader: points of " + k.s());
    }
    const Key any = m.order[g.below(m.order.size())], some = ancestor(any, static_cast<int>(g.below(std::min(any.d, 6) + 1)));
    if (m.pages.count(some))
    {
        std::set<Key> want;
        for (auto &e : m.nodes)
            if (e.second.page.under(some))
                want.insert(e.first);
        CHECK(keysOf(r.GetAllChildrenOfPage(vk(some)), "GetAllChildrenOfPage") == want, "GetAllChildrenOfPage(" << some.s() << ")");
    }
    std::set<Key> all, pages;
    for (auto &e : m.nodes)
        all.insert(e.first);
    CHECK(keysOf(r.GetAllNodes(), "GetAllNodes") == all, "GetAllNodes does not return the written nodes");
    for (auto &k : r.GetPageList())
        CHECK(pages.insert(sk(k)).second, "GetPageList returns " << k << " twice");
    CHECK(pages == m.pages, "GetPageList has " << pages.size() << " pages, expected " << m.pages.size());
}
static void wideFile(Gen &g) { largeFile(g, false); }
static void deepFile(Gen &g) { largeFile(g, true); }

pbt::Property pbt::property()
{
    return {"C02",
            "a history with a page move that ends with at least two nodes in at least two pages",
            {{"history", 10000, history}, {"wide", 2, wideFile}, {"deep", 2, deepFile}},
            150000,
            1500000};
}
