// C06 The answer to a query does not depend on the queries made before it
#include "../build.hpp"
using namespace build;

// one random query, checked against the model of the whole file
static void query(Gen &g, copc::Reader &r, const File &f, std::string &log)
{
    auto anyKey = [&]
    {
        switch (g.below(5))
        {
        case 0:
        case 1:
            if (!f.nodes.empty())
                return f.nodes[g.below(f.nodes.size())].key;
            return Key{0, 0, 0, 0};
        case 2: {
            auto it = f.pages.begin();
            std::advance(it, g.below(f.pages.size()));
            return *it;
        }
        case 3:
            if (!f.nodes.empty())
            {
                Key k = f.nodes[g.below(f.nodes.size())].key;
                return g.flag() ? ancestor(k, static_cast<int>(g.below(k.d + 1))) : child(k, static_cast<int>(g.below(8)));
            }
            return Key{0, 0, 0, 0};
        default:
            return key(g, 6);
        }
    };
    std::vector<const NodeSpec *> all;
    for (auto &n : f.nodes)
        all.push_back(&n);
    size_t q = g.below(13);
    // queries about the whole file: the answer of a reader that has done nothing else
    auto canonical = [](const std::vector<copc::Node> &nodes)
    {
        std::multiset<std::tuple<Key, uint64_t, int32_t, int32_t, Key>> s;
        for (auto &n : nodes)
            s.insert({sk(n.key), n.offset, n.byte_size, n.point_count, sk(n.page_key)});
        return s;
    };
    auto packed = [&](copc::las::Points p)
    {
        auto h = r.CopcConfig().LasHeader();
        auto b = p.Pack(h);
        std::multiset<std::string> s;
        for (size_t i = 0; i < b.size(); i += h.PointRecordLength())
            s.insert(std::string(b.begin() + i, b.begin() + i + h.PointRecordLength()));
        return s;
    };
    if (q >= 10)
    {
        std::istringstream in(text(f.bytes));
        copc::Reader fresh(&in);
        double res = g.pick({0.0, -1.0, f.c.info.spacing, f.c.info.spacing / 2, f.c.info.spacing / 4, f.c.info.spacing / 16, 0.3});
        double lo[3], hi[3];
        for (int i = 0; i < 3; i++)
        {
            double m = f.c.min[i], w = f.c.max[i] - m;
            lo[i] = m + w * g.real(-0.2, 1), hi[i] = lo[i] + std::fabs(w) * g.real(0, 1.2);
            if (!(lo[i] <= hi[i]))
                lo[i] = hi[i] = 0;
        }
        copc::Box box(lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]);
        auto both = [&](const char *what, auto ask)
        {
            log = what;
            g.note(log + " ");
            auto outcome = [&](copc::Reader &rd)
            {
                std::optional<decltype(ask(rd))> o;
                try
                {
                    o = ask(rd);
                }
                catch (const std::exception &) // points that don't fit the file's own scale can't be packed again
                {
                }
                return o;
            };
            CHECK(outcome(r) == outcome(fresh), what << " differs from the answer of a fresh reader");
        };
        switch (g.below(9))
        {
        case 0:
            return both("depth", [&](copc::Reader &x) { return x.GetDepthAtResolution(res); });
        case 1:
            return both("max depth", [&](copc::Reader &x) { return x.GetMaxDepth(); });
        case 2:
            return both("nodes at resolution", [&](copc::Reader &x) { return canonical(x.GetNodesAtResolution(res)); });
        case 3:
            return both("nodes within resolution", [&](copc::Reader &x) { return canonical(x.GetNodesWithinResolution(res)); });
        case 4:
            return both("nodes within box", [&](copc::Reader &x) { return canonical(x.GetNodesWithinBox(box, res)); });
        case 5:
            return both("nodes intersecting box", [&](copc::Reader &x) { return canonical(x.GetNodesIntersectBox(box, res)); });
        case 6:
            return both("points within box", [&](copc::Reader &x) { return packed(x.GetPointsWithinBox(box, res)); });
        case 7:
            return both("points within resolution", [&](copc::Reader &x) { return packed(x.GetAllPoints(res)); });
        default:
            return both("validation", [&](copc::Reader &x) { return x.ValidateSpatialBounds(false); });
        }
    }
    Key k = anyKey();
    auto *s = f.node(k);
    auto say = [&](const std::string &t)
    {
        log = t;
        g.note(t + " ");
    };
    switch (q)
    {
    case 0:
    case 1: {
        say("find" + k.s());
        auto n = r.FindNode(vk(k));
        if (s)
            checkNode(n, f, *s, log);
        else
            CHECK(!n.IsValid(), log << ": absent node is found: " << n.ToString());
        break;
    }
    case 2: {
        say("data" + k.s());
        auto d = r.GetPointData(vk(k));
        checkBytes(ubytes(d), s ? spec::encode(s->recs, f.c.fmt) : Bytes(), log);
        break;
    }
    case 3: {
        say("points" + k.s());
        auto p = r.GetPoints(vk(k));
        checkPoints(p, s ? s->recs : std::vector<Rec>(), f.c.q, f.c.fmt, f.eb(), log);
        break;
    }
    case 4: {
        say("compressed" + k.s());
        auto d = r.GetPointDataCompressed(vk(k));
        Bytes want;
        auto it = f.where.find(k);
        if (s && it != f.where.end())
            want.assign(f.bytes.begin() + it->second.first, f.bytes.begin() + it->second.first + it->second.second);
        checkBytes(ubytes(d), want, log);
        break;
    }
    case 5:
    case 6: {
        say("children" + k.s());
        std::vector<const NodeSpec *> want;
        if (f.pages.count(k))
            want = under(f, k);
        else if (s)
            want.push_back(s);
        checkNodeSet(r.GetAllChildrenOfPage(vk(k)), f, want, log);
        break;
    }
    case 7: {
        say("pages");
        std::set<Key> pages;
        for (auto &p : r.GetPageList())
            CHECK(pages.insert(sk(p)).second, log << ": page " << p << " twice");
        CHECK(pages == f.pages, log << ": " << pages.size() << " pages, expected " << f.pages.size());
        break;
    }
    case 8: {
        say("all");
        checkNodeSet(r.GetAllNodes(), f, all, log);
        break;
    }
    default: {
        say("invalid");
        Key b = k;
        int32_t *p[4] = {&b.d, &b.x, &b.y, &b.z};
        *p[g.below(4)] = -1;
        CHECK(!r.FindNode(vk(b)).IsValid(), "invalid key " << b.s() << " is found");
        CHECK(r.GetPointData(vk(b)).empty() && r.GetPointDataCompressed(vk(b)).empty() && r.GetAllChildrenOfPage(vk(b)).empty(),
              "an invalid key has data");
        break;
    }
    }
}
static void sequence(Gen &g)
{
    Opts o;
    o.maxNodes = 10;
    o.maxPts = 3;
    o.maxDepth = 7;
    o.exotic = g.flag();
    File f = content(g, o);
    if (g.below(8) == 7)
    { // a chain of nodes far below all others
        Key k{0, 0, 0, 0};
        for (size_t i = 1 + g.below(4); i > 0; i--)
        {
            k = farBelow(g, k);
            if (f.node(k))
                continue;
            NodeSpec n;
            n.key = k;
            n.page = pageFor(g, k, f.nodes);
            n.recs = recs(g, f.c.fmt, f.eb(), 1, 3);
            f.nodes.push_back(n);
            f.pages.insert(n.page);
        }
        g.label("nodes far below");
    }
    // nest the pages deeply: every node in a page of its own or of an ancestor
    if (g.chance(2, 3))
    {
        f.pages = {Key{0, 0, 0, 0}};
        for (auto &n : f.nodes)
        {
            n.page = g.below(3) ? ancestor(n.key, static_cast<int>(g.below(n.key.d + 1))) : n.key;
            f.pages.insert(n.page);
        }
    }
    // pages that hold only other pages
    if (g.flag())
        for (auto p : std::set<Key>(f.pages))
            if (p.d > 1 && g.flag())
                f.pages.insert(ancestor(p, static_cast<int>(g.range(1, p.d - 1))));
    layOut(g, f, o);
    g.note(f.str() + "; pages");
    for (auto &p : f.pages)
        g.note(" " + p.s());
    g.note("; queries: ");
    std::string bytes = text(f.bytes);
    std::istringstream in(bytes);
    copc::Reader r(&in);
    std::unique_ptr<std::istringstream> in2;
    std::unique_ptr<copc::Reader> other;
    if (g.below(4) == 3) // a second reader of the same stream position history must not interfere
    {
        in2 = std::make_unique<std::istringstream>(bytes);
        other = std::make_unique<copc::Reader>(in2.get());
    }
    size_t n = 1 + g.size(12);
    std::string log;
    for (size_t i = 0; i < n; i++)
        query(g, other && g.flag() ? *other : r, f, log);
    if (n >= 3 && f.pages.size() >= 2)
        g.nontrivial();
    size_t deep = 0;
    for (auto &p : f.pages)
        if (p.d > 0 && f.owner(p, true).d > 0)
            deep++;
    if (deep)
        g.label("nested pages");
}

// two readers sharing one stream: each query positions the stream itself
static void sharedStream(Gen &g)
{
    Opts o;
    o.maxPts = 3;
    File f = file(g, o);
    g.note(f.str() + "; queries: ");
    std::istringstream in(text(f.bytes));
    copc::Reader a(&in), b(&in);
    std::string log;
    size_t n = 2 + g.size(8);
    for (size_t i = 0; i < n; i++)
    {
        switch (g.below(6)) // the stream's owner may use it between the queries
        {
        case 3:
            g.note("seek ");
            in.seekg(static_cast<std::streamoff>(g.below(f.bytes.size() + 1)));
            break;
        case 4: {
            g.note("read ");
            char c[100];
            in.read(c, static_cast<std::streamsize>(g.below(100)));
            break;
        }
        case 5: {
            g.note("read to the end ");
            std::stringstream rest;
            rest << in.rdbuf();
            in.get();
            break;
        }
        default:
            break;
        }
        query(g, g.flag() ? a : b, f, log);
    }
    if (f.nodes.size() >= 2)
        g.nontrivial();
}

pbt::Property pbt::property()
{
    return {"C06",
            "at least three queries on a file with at least two pages (shared stream: two nodes)",
            {{"sequence", 5, sequence}, {"shared stream", 1, sharedStream}},
            125000,
            1500000};
}
