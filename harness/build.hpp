// Files as another producer might write them: built from the specification, without copc-lib, with every layout freedom
// a conforming producer has
#pragma once
#include "gen.hpp"
#include "hist.hpp"

namespace build
{
using namespace gen;

struct File
{
    Cfg c;
    std::vector<NodeSpec> nodes;   // key, page and records (possibly none)
    std::set<Key> pages{Key{0, 0, 0, 0}};
    std::vector<size_t> chunkOrder; // nodes with points, in file order
    int undescribed{0};             // extra bytes at the end of each record that no description covers
    bool hasWkt{false}, hasEb{false}, hasExtents{false}, hasExtended{false};
    double gpsMin{0}, gpsMax{0};
    uint64_t rootOffset{0}, rootSize{0};
    std::map<Key, std::pair<uint64_t, int32_t>> where; // node chunks
    std::map<Key, std::pair<uint64_t, uint64_t>> pageAt;
    std::vector<spec::Vlr> vlrs, evlrs; // as laid out
    uint32_t pointOffset{0};
    uint64_t evlrOffset{0}, chunkTable{0};
    Bytes bytes;

    int eb() const { return c.ebBytes() + undescribed; }
    int recordLength() const { return spec::baseSize(c.fmt) + eb(); }
    size_t points() const
    {
        size_t n = 0;
        for (auto &s : nodes)
            n += s.recs.size();
        return n;
    }
    const NodeSpec *node(const Key &k) const
    {
        for (auto &n : nodes)
            if (n.key == k)
                return &n;
        return nullptr;
    }
    Key owner(Key k, bool strict) const // nearest page at or above
    {
        if (strict)
            k = k.parent();
        while (!pages.count(k))
            k = k.parent();
        return k;
    }
    std::string str() const
    {
        std::ostringstream ss;
        ss << c.str() << "; +" << undescribed << " undescribed bytes; VLRs";
        for (auto &v : vlrs)
            ss << " " << v.user << "/" << v.record;
        ss << "; EVLRs";
        for (auto &v : evlrs)
            ss << " " << v.user << "/" << v.record;
        ss << "; nodes";
        for (auto &n : nodes)
            ss << " " << n.key.s() << "@" << n.page.s() << "x" << n.recs.size();
        return ss.str();
    }
};

struct Opts
{
    size_t maxNodes = 8, maxPts = 6;
    int maxDepth = 9;
    int level = 0;      // as gen::cfg
    bool exotic = true; // layout freedoms on
};

template <typename T> void shuffle(Gen &g, std::vector<T> &v)
{
    for (size_t i = v.size(); i > 1; i--)
        std::swap(v[i - 1], v[i - 1 - g.below(i)]);
}

inline Bytes vlrBytes(const spec::Vlr &v)
{
    Bytes o;
    spec::le(o, v.reserved, 2);
    spec::str(o, v.user, 16);
    spec::le(o, v.record, 2);
    spec::le(o, v.data.size(), v.extended ? 8 : 2);
    spec::str(o, v.description, 32);
    spec::app(o, v.data);
    return o;
}
inline spec::Vlr vlr(Gen &g, const std::string &user, uint16_t rec, const Bytes &data)
{
    spec::Vlr v;
    v.user = user;
    v.record = rec;
    v.data = data;
    if (g.flag())
        v.description = g.text(32);
    if (g.below(4) == 3)
        v.reserved = static_cast<uint16_t>(g.uintN(16));
    return v;
}
inline spec::Vlr junk(Gen &g)
{
    static const std::vector<std::string> users = {"copc", "LASF_Spec", "LASF_Projection", "liblas", "rock_robotic", "laszip encodex", ""};
    auto v = vlr(g, g.flag() ? g.pick(users) : g.text(16), static_cast<uint16_t>(g.flag() ? g.pick({0, 1, 2, 3, 4, 5, 1000, 10000, 2111, 2112, 22204}) : g.uintN(16)),
                 g.bytes(g.size(80)));
    if (g.below(4) == 3) // almost one of the records that are read
    {
        static const std::vector<std::pair<std::string, uint16_t>> real = {{"copc", 1}, {"copc", 1000}, {"copc", 10000}, {"LASF_Spec", 4},
                                                                           {"LASF_Projection", 2112}, {"rock_robotic", 10001}};
        auto r = g.pick(real);
        switch (g.below(5))
        {
        case 0:
            r.first += g.flag() ? "2" : " ";
            break;
        case 1:
            r.first.pop_back();
            break;
        case 2:
            for (auto &c : r.first)
                c = static_cast<char>(g.flag() ? toupper(c) : tolower(c));
            break;
        case 3:
            r.second ^= static_cast<uint16_t>(1u << g.below(16));
            break;
        default:
            r.first[g.below(r.first.size())] ^= static_cast<char>(1 << g.below(5));
        }
        v.user = r.first;
        v.record = r.second;
    }
    auto clash = [&](const char *u, uint16_t r) { return v.user == u && v.record == r; };
    if (clash("copc", 1) || clash("copc", 1000) || clash("copc", 10000) || clash("LASF_Spec", 4) || clash("LASF_Projection", 2112) ||
        clash("rock_robotic", 10001) || clash("laszip encoded", 22204))
        v.record = 7777;
    return v;
}

// Fills the content; callers may then adjust it (points, keys, header) before layOut()
inline File content(Gen &g, const Opts &o)
{
    File f;
    f.c = cfg(g, o.level);
    if (o.exotic && g.below(6) == 5)
        f.undescribed = static_cast<int>(1 + g.below(6));
    if (f.undescribed && g.flag())
    {
        f.c.eb.clear();
        f.c.extents.resize(spec::baseDims(f.c.fmt));
    }
    const bool large = o.maxNodes >= 8 && g.below(500) == 499; // far more nodes than in ordinary cases
    for (auto &k : tree(g, 0, o.maxNodes * (large ? 30 : 1), o.maxDepth))
    {
        NodeSpec n;
        n.key = k;
        n.page = pageFor(g, k, f.nodes);
        if (!(o.exotic && g.below(6) == 5)) // a node may be empty
            n.recs = recs(g, f.c.fmt, f.eb(), 1, o.maxPts);
        f.nodes.push_back(n);
    }
    for (auto &n : f.nodes)
        f.pages.insert(n.page);
    f.hasWkt = !f.c.wkt.empty();
    f.hasEb = !f.c.eb.empty();
    f.hasExtents = !o.exotic || g.chance(2, 3);
    f.hasExtended = f.hasExtents && f.c.extended;
    f.c.extended = f.hasExtended;
    if (!f.hasExtents)
        for (auto &e : f.c.extents)
            e = Ext();
    else if (!f.hasExtended)
        for (auto &e : f.c.extents)
            e.mean = 0, e.var = 1;
    return f;
}

// pages without a node at or below them: they are listed, and hold no entry, or only the entry of another such page
inline void emptyPages(Gen &g, File &f)
{
    for (size_t i = 1 + g.below(3); i > 0; i--)
    {
        std::vector<Key> at(f.pages.begin(), f.pages.end());
        for (auto &n : f.nodes)
            at.push_back(n.key);
        Key k = at[g.below(at.size())];
        if (k.d > 60 || k.x > 0x3FFFFFFF || k.y > 0x3FFFFFFF || k.z > 0x3FFFFFFF)
            continue;
        const auto side = g.below(8);
        k = {k.d + 1, k.x * 2 + int32_t(side & 1), k.y * 2 + int32_t(side >> 1 & 1), k.z * 2 + int32_t(side >> 2)};
        bool used = false;
        for (auto &n : f.nodes)
            used |= n.key.under(k);
        if (!used)
            f.pages.insert(k);
    }
}

inline void layOut(Gen &g, File &f, const Opts &o)
{
    const bool ex = o.exotic;
    if (ex && g.below(5) == 4)
        emptyPages(g, f);
    // --- records of metadata, as VLR or EVLR
    std::vector<spec::Vlr> vl, ev;
    auto put = [&](spec::Vlr v, bool mayExtend)
    {
        if (ex && mayExtend && (v.data.size() > 60000 || g.below(3) == 2))
        {
            v.extended = true;
            ev.push_back(v);
        }
        else
            vl.push_back(v);
    };
    put(vlr(g, "laszip encoded", 22204, spec::laszipVlr(f.c.fmt, f.eb())), false);
    if (f.hasEb)
        put(vlr(g, "LASF_Spec", 4, spec::encode(f.c.eb)), true);
    if (f.hasWkt)
        put(vlr(g, "LASF_Projection", 2112, ubytes(f.c.wkt)), true);
    if (f.hasExtents)
    {
        Bytes b, x;
        for (auto &e : f.c.extents)
        {
            spec::dbl(b, e.min);
            spec::dbl(b, e.max);
            spec::dbl(x, e.mean);
            spec::dbl(x, e.var);
        }
        put(vlr(g, "copc", 10000, b), true);
        if (f.hasExtended)
            put(vlr(g, "rock_robotic", 10001, x), true);
    }
    if (ex)
    {
        // now and then far more or far larger records than there usually are
        auto few = [&]() { return g.below(200) == 199 ? g.below(600) : g.below(3); };
        auto big = [&](spec::Vlr &v, size_t most) {
            if (g.below(200) == 199)
                v.data = Bytes(g.flag() ? most - g.below(3) : g.below(most), static_cast<uint8_t>(g.below(256)));
        };
        for (size_t i = few(); i > 0; i--)
        {
            vl.push_back(junk(g));
            big(vl.back(), 65535);
        }
        for (size_t i = few(); i > 0; i--)
        {
            ev.push_back(junk(g));
            ev.back().extended = true;
            big(ev.back(), 200000);
        }
        shuffle(g, vl);
    }
    spec::Vlr info = vlr(g, "copc", 1, Bytes(160, 0));
    vl.insert(vl.begin(), info);
    // --- hierarchy pages in one or several EVLRs
    std::vector<Key> pages(f.pages.begin(), f.pages.end());
    if (ex)
        shuffle(g, pages);
    std::vector<std::vector<Key>> groups;
    bool single = g.flag();
    for (auto &p : pages)
    {
        if (groups.empty() || (!single && g.flag()))
            groups.emplace_back();
        groups.back().push_back(p);
    }
    std::map<Key, std::vector<Key>> subs;
    for (auto &p : f.pages)
        if (p.d > 0)
            subs[f.owner(p, true)].push_back(p);
    auto pageSize = [&](const Key &p)
    {
        size_t n = subs.count(p) ? subs[p].size() : 0;
        for (auto &s : f.nodes)
            n += s.page == p;
        return n * 32;
    };
    std::map<Key, size_t> inGroup; // offset in the group's data
    for (auto &gr : groups)
    {
        spec::Vlr v = vlr(g, "copc", 1000, {});
        v.extended = true;
        size_t pos = 0;
        for (auto &p : gr)
        {
            if (ex && g.below(4) == 3)
                pos += g.below(40);
            inGroup[p] = pos;
            pos += pageSize(p);
        }
        v.data.resize(pos, 0xEE);
        ev.push_back(v);
    }
    std::vector<size_t> groupAt; // index in ev of each group
    {
        std::vector<size_t> idx(ev.size());
        for (size_t i = 0; i < idx.size(); i++)
            idx[i] = i;
        if (ex)
            shuffle(g, idx);
        std::vector<spec::Vlr> e2;
        std::vector<size_t> to(ev.size());
        for (size_t i = 0; i < idx.size(); i++)
        {
            to[idx[i]] = i;
            e2.push_back(ev[idx[i]]);
        }
        size_t first = ev.size() - groups.size();
        for (size_t i = 0; i < groups.size(); i++)
            groupAt.push_back(to[first + i]);
        ev = e2;
    }
    // --- chunks
    f.chunkOrder.clear();
    for (size_t i = 0; i < f.nodes.size(); i++)
        if (!f.nodes[i].recs.empty())
            f.chunkOrder.push_back(i);
    if (ex)
        shuffle(g, f.chunkOrder);
    // --- sizes are now known
    size_t pos = 375;
    for (auto &v : vl)
    {
        v.offset = pos;
        pos += 54 + v.data.size();
    }
    pos += ex && g.below(3) == 2 ? g.below(50) : 0; // padding before the points
    f.pointOffset = static_cast<uint32_t>(pos);
    Bytes chunks, table;
    pos += 8;
    std::vector<lazperf::chunk> ct;
    for (size_t i : f.chunkOrder)
    {
        Bytes comp = spec::compress(spec::encode(f.nodes[i].recs, f.c.fmt), f.c.fmt, f.eb());
        f.where[f.nodes[i].key] = {pos, static_cast<int32_t>(comp.size())};
        ct.push_back({f.nodes[i].recs.size(), comp.size()});
        spec::app(chunks, comp);
        pos += comp.size();
    }
    f.chunkTable = pos;
    spec::le(table, 0, 4);
    spec::le(table, ct.size(), 4);
    lazperf::compress_chunk_table([&](const unsigned char *p, size_t n) { table.insert(table.end(), p, p + n); }, ct, true);
    pos += table.size();
    size_t gap = ex && g.below(4) == 3 ? g.below(30) : 0;
    pos += gap;
    f.evlrOffset = pos;
    for (auto &v : ev)
    {
        v.offset = pos;
        pos += 60 + v.data.size();
    }
    // --- fill the pages
    for (size_t i = 0; i < groups.size(); i++)
        for (auto &p : groups[i])
            f.pageAt[p] = {ev[groupAt[i]].dataOffset() + inGroup[p], pageSize(p)};
    for (size_t i = 0; i < groups.size(); i++)
        for (auto &p : groups[i])
        {
            std::vector<Bytes> es;
            for (auto &s : f.nodes)
                if (s.page == p)
                {
                    Bytes e;
                    for (int32_t k : {s.key.d, s.key.x, s.key.y, s.key.z})
                        spec::le(e, uint32_t(k), 4);
                    auto it = f.where.find(s.key);
                    spec::le(e, it == f.where.end() ? 0 : it->second.first, 8);
                    spec::le(e, it == f.where.end() ? 0 : uint32_t(it->second.second), 4);
                    spec::le(e, s.recs.size(), 4);
                    es.push_back(e);
                }
            if (subs.count(p))
                for (auto &s : subs[p])
                {
                    Bytes e;
                    for (int32_t k : {s.d, s.x, s.y, s.z})
                        spec::le(e, uint32_t(k), 4);
                    spec::le(e, f.pageAt[s].first, 8);
                    spec::le(e, f.pageAt[s].second, 4);
                    spec::le(e, 0xFFFFFFFFu, 4);
                    es.push_back(e);
                }
            if (ex)
                shuffle(g, es);
            size_t at = inGroup[p];
            for (auto &e : es)
            {
                std::copy(e.begin(), e.end(), ev[groupAt[i]].data.begin() + at);
                at += 32;
            }
        }
    // --- COPC info
    f.rootOffset = f.pageAt[Key{0, 0, 0, 0}].first;
    f.rootSize = f.pageAt[Key{0, 0, 0, 0}].second;
    f.c.info.rootOffset = f.rootOffset;
    f.c.info.rootSize = f.rootSize;
    f.c.info.gpsMin = f.gpsMin;
    f.c.info.gpsMax = f.gpsMax;
    vl[0].data = f.c.info.encode();
    // --- header
    spec::Header h;
    h.fileSource = f.c.fileSource;
    h.globalEncoding = f.c.globalEncoding | 0x10;
    h.guid = f.c.guid;
    h.systemId = f.c.sysId;
    h.software = f.c.software;
    h.day = f.c.day;
    h.year = f.c.year;
    h.pointOffset = f.pointOffset;
    h.vlrCount = static_cast<uint32_t>(vl.size());
    h.formatByte = static_cast<uint8_t>(f.c.fmt | 0x80);
    h.recordLength = static_cast<uint16_t>(f.recordLength());
    for (int i = 0; i < 3; i++)
    {
        h.scale[i] = f.c.q.scale[i];
        h.offset[i] = f.c.q.offset[i];
        h.min[i] = f.c.min[i];
        h.max[i] = f.c.max[i];
    }
    h.evlrOffset = f.evlrOffset;
    h.evlrCount = static_cast<uint32_t>(ev.size());
    h.count = f.points();
    for (int i = 0; i < 15; i++)
        h.returns[i] = f.c.returns[i];
    f.bytes = h.encode();
    for (auto &v : vl)
        spec::app(f.bytes, vlrBytes(v));
    f.bytes.resize(f.pointOffset, 0);
    spec::le(f.bytes, f.chunkTable, 8);
    spec::app(f.bytes, chunks);
    spec::app(f.bytes, table);
    f.bytes.resize(f.bytes.size() + gap, 0xDD);
    for (auto &v : ev)
        spec::app(f.bytes, vlrBytes(v));
    if (ex && g.below(5) == 4)
        f.bytes.resize(f.bytes.size() + g.below(20), 0xCC); // bytes after the last record
    f.vlrs = vl;
    f.evlrs = ev;
}
inline File file(Gen &g, const Opts &o)
{
    File f = content(g, o);
    layOut(g, f, o);
    return f;
}

// expected child-of-page set: every node stored in page p or in a page nested (transitively) under it
inline std::vector<const NodeSpec *> under(const File &f, const Key &p)
{
    std::vector<const NodeSpec *> v;
    for (auto &n : f.nodes)
        if (n.page.under(p))
            v.push_back(&n);
    return v;
}
inline void checkNode(const copc::Node &n, const File &f, const NodeSpec &s, const std::string &what)
{
    CHECK(n.IsValid(), what << ": node " << s.key.s() << " is not found");
    CHECK(!n.IsPage(), what << ": node " << s.key.s() << " is reported as a page");
    CHECK(sk(n.key) == s.key, what << ": key " << n.key << " for " << s.key.s());
    CHECK_EQ(size_t(n.point_count), s.recs.size(), what << ": point count of " << s.key.s());
    CHECK(sk(n.page_key) == s.page, what << ": page " << n.page_key << " of node " << s.key.s() << ", expected " << s.page.s());
    auto it = f.where.find(s.key);
    uint64_t off = it == f.where.end() ? 0 : it->second.first;
    int32_t size = it == f.where.end() ? 0 : it->second.second;
    CHECK(n.offset == off && n.byte_size == size, what << ": location of " << s.key.s() << " is " << n.offset << "+" << n.byte_size);
}
inline void checkNodeSet(const std::vector<copc::Node> &got, const File &f, const std::vector<const NodeSpec *> &want, const std::string &what)
{
    std::set<Key> seen;
    for (auto &n : got)
    {
        auto *s = f.node(sk(n.key));
        CHECK(s, what << ": reports absent node " << n.key);
        CHECK(seen.insert(sk(n.key)).second, what << ": reports node " << n.key << " twice");
        checkNode(n, f, *s, what);
    }
    for (auto *s : want)
        CHECK(seen.count(s->key), what << ": misses node " << s->key.s());
    CHECK_EQ(seen.size(), want.size(), what << ": number of nodes");
}
// the multiset of records, compared through the public accessors. Records are matched by their packed bytes.
inline std::map<Bytes, int> bag(const std::vector<Rec> &v, int fmt)
{
    std::map<Bytes, int> m;
    for (auto &r : v)
        m[spec::encode(r, fmt)]++;
    return m;
}
inline std::map<Bytes, int> bag(const copc::las::Points &pts, const File &f)
{
    auto raw = ubytes(pts.Pack(f.c.q.s(), f.c.q.o()));
    std::map<Bytes, int> m;
    size_t n = static_cast<size_t>(f.recordLength());
    CHECK_EQ(raw.size(), n * pts.Size(), "size of packed points");
    for (size_t i = 0; i + n <= raw.size(); i += n)
        m[Bytes(raw.begin() + i, raw.begin() + i + n)]++;
    return m;
}
inline void checkBag(const copc::las::Points &pts, const File &f, const std::vector<Rec> &want, const std::string &what)
{
    CHECK_EQ(int(pts.PointFormatId()), f.c.fmt, what << ": format");
    CHECK_EQ(int(pts.PointRecordLength()), f.recordLength(), what << ": record length");
    CHECK_EQ(pts.Size(), want.size(), what << ": number of points");
    auto a = bag(pts, f), b = bag(want, f.c.fmt);
    CHECK(a == b, what << ": the set of points differs");
}
} // namespace build
