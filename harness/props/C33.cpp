// C33 Independent objects do not influence one another, in one thread or in several
// Built with the thread sanitizer: two threads that touch the same memory without order end the case, whatever they read.
#include "../build.hpp"
#include <atomic>
#include <thread>

using namespace gen;

namespace
{
typedef std::function<void(std::ostream &)> Step; // performs one call and logs what it gave
struct Program
{
    std::string name;
    std::function<std::vector<Step>()> start; // new objects every time
};

void put(std::ostream &o, const std::vector<char> &v)
{
    uint64_t h = 1469598103934665603ULL;
    for (char c : v)
        h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ULL;
    o << v.size() << ":" << h << " ";
}
void put(std::ostream &o, const std::string &s) { put(o, std::vector<char>(s.begin(), s.end())); }
// A finished COPC file. The order of pages, and of the entries within one, is no part of what it says.
void putPage(std::vector<std::string> &lines, const Bytes &b, uint64_t off, uint64_t size, const std::string &page)
{
    for (auto &e : spec::parsePage(b, off, size))
    {
        std::string l = page + e.key.s() + " " + std::to_string(e.size) + " " + std::to_string(e.count);
        if (e.count == -1)
            putPage(lines, b, e.offset, static_cast<uint64_t>(e.size), e.key.s());
        else
            l += " " + std::to_string(e.offset);
        lines.push_back(l);
    }
}
void putCopc(std::ostream &o, const std::string &s)
{
    const Bytes b = ubytes(s);
    const auto p = spec::parse(b);
    put(o, s.substr(0, p.h.evlrOffset));
    o << b.size() << " ";
    for (auto &v : p.evlrs)
        if (v.record == 2112)
            put(o, text(v.data));
    const auto i = spec::Info::decode(p.vlrs.at(0).data);
    std::vector<std::string> lines;
    putPage(lines, b, i.rootOffset, i.rootSize, "");
    std::sort(lines.begin(), lines.end());
    for (auto &l : lines)
        o << l << "\n";
}
void put(std::ostream &o, const copc::las::LasHeader &h)
{
    o << h.ToString() << h.GUID() << h.SystemIdentifier() << h.GeneratingSoftware() << h.file_source_id << h.creation_day << h.PointCount();
    for (auto r : h.points_by_return)
        o << " " << r;
}
void put(std::ostream &o, const copc::las::Points &p, const Quant &q)
{
    o << p.Size() << " points of " << p.PointRecordLength() << " ";
    put(o, p.Pack(q.s(), q.o()));
}
void put(std::ostream &o, const copc::Node &n)
{
    o << n.key << n.page_key << " " << n.offset << "+" << n.byte_size << " x" << n.point_count << "; ";
}
void put(std::ostream &o, std::vector<copc::Node> v)
{
    std::sort(v.begin(), v.end(), [](const copc::Node &a, const copc::Node &b) { return sk(a.key) < sk(b.key); });
    for (auto &n : v)
        put(o, n);
}
template <typename C> void putLaz(std::ostream &o, const C &c, const copc::las::LasHeader &h)
{
    put(o, h);
    put(o, c.Wkt());
    for (auto &i : c.ExtraBytesVlr().items)
        o << int(i.data_type) << i.name << i.description << i.options;
}

Program copcWriter(Gen &g, const std::string &path)
{
    auto f = std::make_shared<FileSpec>(file(g, 1, 5, 5, 6));
    std::vector<unsigned> how;
    for (size_t i = 0; i < f->nodes.size(); i++)
        how.push_back(static_cast<unsigned>(g.below(3)));
    const bool toFile = !path.empty(), close = g.below(4) != 3;
    return {"write " + f->str(), [=]
            {
                struct S
                {
                    std::stringstream out;
                    std::unique_ptr<copc::Writer> w;
                };
                auto s = std::make_shared<S>();
                std::vector<Step> v;
                v.push_back([=](std::ostream &)
                            {
                                auto c = writerConfig(f->c);
                                if (toFile)
                                    s->w.reset(new copc::FileWriter(path, c));
                                else
                                    s->w.reset(new copc::Writer(s->out, c));
                            });
                for (size_t i = 0; i < f->nodes.size(); i++)
                    v.push_back([=](std::ostream &o)
                                {
                                    const auto &n = f->nodes[i];
                                    const auto raw = spec::encode(n.recs, f->c.fmt);
                                    copc::Node r;
                                    if (how[i] == 0)
                                        r = s->w->AddNode(vk(n.key), points(n.recs, f->c.q, f->c.fmt, f->c.ebBytes()), vk(n.page));
                                    else if (how[i] == 1)
                                        r = s->w->AddNode(vk(n.key), chars(raw), vk(n.page));
                                    else
                                        r = s->w->AddNodeCompressed(vk(n.key), copc::laz::Compressor::CompressBytes(chars(raw), static_cast<int8_t>(f->c.fmt), static_cast<uint16_t>(f->c.ebBytes())),
                                                                    static_cast<int32_t>(n.recs.size()), vk(n.page));
                                    put(o, r);
                                    put(o, s->w->FindNode(vk(n.key)));
                                });
                v.push_back([=](std::ostream &o)
                            {
                                if (close)
                                    s->w->Close();
                                s->w.reset();
                                putCopc(o, toFile ? slurp(path) : s->out.str());
                                if (toFile)
                                    unlink(path.c_str());
                            });
                return v;
            }};
}

Program copcReader(Gen &g, const std::string &path)
{
    build::Opts o;
    o.maxNodes = 6;
    o.maxPts = 5;
    o.level = 1;
    auto f = std::make_shared<build::File>(build::file(g, o));
    if (g.below(4) == 3 && !f->bytes.empty()) // damaged: may be refused
        for (int i = 0; i < 3; i++)
            f->bytes[g.below(std::min<size_t>(f->bytes.size(), 600))] ^= static_cast<uint8_t>(1u << g.below(8));
    struct S
    {
        std::stringstream in;
        std::unique_ptr<copc::Reader> r;
    };
    typedef std::function<void(copc::Reader &, std::ostream &)> Op;
    std::vector<Op> ops;
    for (size_t i = 1 + g.below(8); i > 0; i--)
    {
        const Key k = f->nodes.empty() || g.below(5) == 4 ? key(g, 4) : f->nodes[g.below(f->nodes.size())].key;
        const Quant q = f->c.q;
        copc::Box b(-std::fabs(g.niceReal()), -1e9, -1e9, std::fabs(g.niceReal()), 1e9, 1e9);
        const double res = std::fabs(g.niceReal());
        switch (g.below(10))
        {
        case 0:
            ops.push_back([=](copc::Reader &r, std::ostream &o) { put(o, r.FindNode(vk(k))); });
            break;
        case 1:
            ops.push_back([=](copc::Reader &r, std::ostream &o) { put(o, r.GetPoints(vk(k)), q); });
            break;
        case 2:
            ops.push_back([=](copc::Reader &r, std::ostream &o) { put(o, r.GetPointData(vk(k))); });
            break;
        case 3:
            ops.push_back([=](copc::Reader &r, std::ostream &o) { put(o, r.GetPointDataCompressed(vk(k))); });
            break;
        case 4:
            ops.push_back([=](copc::Reader &r, std::ostream &o) { put(o, r.GetAllNodes()); });
            break;
        case 5:
            ops.push_back([=](copc::Reader &r, std::ostream &o) { o << r.GetAllPoints().Size(); });
            break;
        case 6:
            ops.push_back([=](copc::Reader &r, std::ostream &o) { put(o, r.GetNodesIntersectBox(b, res)); });
            break;
        case 7:
            ops.push_back([=](copc::Reader &r, std::ostream &o) { o << r.GetPointsWithinBox(b).Size() << r.ValidateSpatialBounds(); });
            break;
        case 8:
            ops.push_back([=](copc::Reader &r, std::ostream &o)
                          {
                              putLaz(o, r.CopcConfig(), r.CopcConfig().LasHeader());
                              o << r.CopcConfig().CopcInfo().ToString() << r.CopcConfig().CopcExtents().ToString();
                          });
            break;
        default:
            ops.push_back([=](copc::Reader &r, std::ostream &o)
                          {
                              auto v = r.GetPageList();
                              std::sort(v.begin(), v.end(), [](const copc::VoxelKey &a, const copc::VoxelKey &b) { return sk(a) < sk(b); });
                              for (auto &p : v)
                                  o << p;
                              o << r.GetDepthAtResolution(res) << " " << r.GetMaxDepth();
                          });
        }
    }
    const bool fromFile = !path.empty();
    return {"read " + f->str(), [=]
            {
                auto s = std::make_shared<S>();
                std::vector<Step> v;
                v.push_back([=](std::ostream &o)
                            {
                                if (fromFile)
                                {
                                    std::ofstream(path, std::ios::binary).write(reinterpret_cast<const char *>(f->bytes.data()), f->bytes.size());
                                    s->r.reset(new copc::FileReader(path));
                                    unlink(path.c_str());
                                }
                                else
                                {
                                    s->in.str(text(f->bytes));
                                    s->r.reset(new copc::Reader(&s->in));
                                }
                                o << "open";
                            });
                for (auto &op : ops)
                    v.push_back([=](std::ostream &o)
                                {
                                    if (s->r)
                                        op(*s->r, o);
                                });
                return v;
            }};
}

Program laz(Gen &g)
{
    auto c = std::make_shared<Cfg>(cfg(g, 1));
    auto chunks = std::make_shared<std::vector<std::vector<Rec>>>();
    for (size_t i = g.below(5); i > 0; i--)
        chunks->push_back(recs(g, c->fmt, c->ebBytes(), 1, 6));
    const bool compressed = g.flag();
    return {"laz " + c->str(), [=]
            {
                struct S
                {
                    std::stringstream f;
                    std::unique_ptr<copc::laz::LazWriter> w;
                    std::unique_ptr<copc::laz::LazReader> r;
                };
                auto s = std::make_shared<S>();
                std::vector<Step> v;
                v.push_back([=](std::ostream &)
                            {
                                copc::las::LazConfigWriter lc(static_cast<int8_t>(c->fmt), c->q.s(), c->q.o(), c->wkt, toCopc(c->eb));
                                applyHeader(*c, *lc.LasHeader());
                                s->w.reset(new copc::laz::LazWriter(s->f, lc));
                            });
                for (size_t i = 0; i < chunks->size(); i++)
                    v.push_back([=](std::ostream &o)
                                {
                                    const auto &rs = (*chunks)[i];
                                    if (compressed)
                                        s->w->WritePointsCompressed(
                                            copc::laz::Compressor::CompressBytes(chars(spec::encode(rs, c->fmt)), static_cast<int8_t>(c->fmt), static_cast<uint16_t>(c->ebBytes())),
                                            static_cast<int32_t>(rs.size()));
                                    else
                                        s->w->WritePoints(points(rs, c->q, c->fmt, c->ebBytes()));
                                    o << s->w->PointCount() << " " << s->w->ChunkCount();
                                });
                v.push_back([=](std::ostream &o)
                            {
                                s->w.reset();
                                put(o, s->f.str());
                                s->r.reset(new copc::laz::LazReader(&s->f));
                                putLaz(o, s->r->LazConfig(), s->r->LazConfig().LasHeader());
                            });
                v.push_back([=](std::ostream &o) { put(o, s->r->GetPointData()); });
                v.push_back([=](std::ostream &o) { put(o, s->r->GetPoints(), c->q); });
                return v;
            }};
}

Program codec(Gen &g)
{
    const int fmt = static_cast<int>(g.range(6, 8)), eb = static_cast<int>(g.below(9));
    auto v1 = std::make_shared<std::vector<Rec>>(recs(g, fmt, eb, 1, 10));
    const Quant q = quant(g);
    const int to = static_cast<int>(g.range(6, 8));
    return {"codec of format " + std::to_string(fmt), [=]
            {
                struct S
                {
                    std::vector<char> raw, comp;
                    std::stringstream st;
                    copc::las::Points p{6};
                };
                auto s = std::make_shared<S>();
                const auto f = static_cast<int8_t>(fmt);
                const auto e = static_cast<uint16_t>(eb);
                const int n = static_cast<int>(v1->size());
                std::vector<Step> v;
                v.push_back([=](std::ostream &o)
                            {
                                s->p = points(*v1, q, fmt, eb);
                                s->raw = s->p.Pack(q.s(), q.o());
                                put(o, s->raw);
                            });
                v.push_back([=](std::ostream &o) { put(o, s->comp = copc::laz::Compressor::CompressBytes(static_cast<const std::vector<char> &>(s->raw), f, e)); });
                v.push_back([=](std::ostream &o) { o << copc::laz::Compressor::CompressBytes(s->st, f, e, s->raw); });
                v.push_back([=](std::ostream &o) { put(o, copc::laz::Decompressor::DecompressBytes(s->comp, f, e, n)); });
                v.push_back([=](std::ostream &o) { put(o, copc::laz::Decompressor::DecompressBytes(s->st, f, e, n)); });
                v.push_back([=](std::ostream &o) { put(o, copc::las::Points::Unpack(s->raw, f, e, q.s(), q.o()), q); });
                v.push_back([=](std::ostream &o)
                            {
                                s->p.ToPointFormat(static_cast<int8_t>(to));
                                put(o, s->p, q);
                            });
                v.push_back([=](std::ostream &o)
                            {
                                for (auto &p : s->p)
                                    o << p->ToString();
                                o << s->p.ToString();
                                for (double x : s->p.X())
                                    o << x << " ";
                                for (int x : s->p.Classification())
                                    o << x << " ";
                                if (to > 6)
                                    for (auto x : s->p.Green())
                                        o << x << " ";
                            });
                return v;
            }};
}

Program values(Gen &g)
{
    const Key a = key(g), b = key(g, 12);
    const copc::Vector3 lo(g.niceReal(), g.niceReal(), g.niceReal()), size(std::fabs(g.niceReal()), std::fabs(g.niceReal()), std::fabs(g.niceReal()));
    const int fmt = static_cast<int>(g.range(6, 8));
    return {"values " + a.s() + " " + b.s(), [=]
            {
                auto h = std::make_shared<copc::las::LasHeader>(static_cast<int8_t>(fmt), uint16_t(spec::baseSize(fmt)), copc::Vector3(1, 1, 1), lo, false);
                h->min = lo;
                h->max = lo + size;
                std::vector<Step> v;
                v.push_back([=](std::ostream &o) { o << vk(a) << vk(b).ToString() << (vk(a) == vk(b)); });
                v.push_back([=](std::ostream &o)
                            {
                                for (auto &k : vk(a).GetParents(true))
                                    o << k;
                                for (auto &k : vk(b).GetChildren())
                                    o << k << k.ChildOf(vk(a));
                            });
                v.push_back([=](std::ostream &o)
                            {
                                copc::Box x(vk(a), *h), y(vk(b), *h);
                                o << x << y.ToString() << x.Intersects(y) << x.Contains(lo) << vk(a).Crosses(*h, y);
                            });
                v.push_back([=](std::ostream &o)
                            {
                                put(o, *h);
                                o << h->Span() << h->Bounds() << h->min << (lo == size);
                            });
                v.push_back([=](std::ostream &o)
                            {
                                copc::CopcExtents e(static_cast<int8_t>(fmt));
                                e.Intensity()->maximum = a.x;
                                e.ScanAngle()->minimum = b.z;
                                o << e.ToString() << copc::CopcInfo().ToString() << copc::Vector3::DefaultScale() << copc::Box::MaxBox();
                            });
                return v;
            }};
}

// The log of one step; a refusal is a result too
std::string perform(const Step &s)
{
    std::ostringstream o;
    o.precision(17);
    try
    {
        s(o);
    }
    catch (const std::exception &e)
    {
        o << " refused: " << e.what();
    }
    return o.str();
}
typedef std::vector<std::string> Log;
void compare(const std::vector<Program> &p, const std::vector<Log> &got, const std::vector<Log> &want, const char *how)
{
    for (size_t i = 0; i < p.size(); i++)
        for (size_t k = 0; k < want[i].size(); k++)
            CHECK(got[i][k] == want[i][k], "program " << i << " (" << p[i].name.substr(0, 60) << ") step " << k << " gives something else " << how << ": "
                                                      << got[i][k].substr(0, 300) << " instead of " << want[i][k].substr(0, 300));
}

void programs(Gen &g)
{
    std::vector<Program> p;
    const size_t n = 2 + g.below(3);
    for (size_t i = 0; i < n; i++)
    {
        const std::string path = g.below(4) == 3 ? tmpFile("c33-" + std::to_string(i)) : "";
        switch (p.size() && g.below(3) == 2 ? 5 : g.below(5)) // often the same kind
        {
        case 0:
            p.push_back(copcWriter(g, path));
            break;
        case 1:
            p.push_back(copcReader(g, path));
            break;
        case 2:
            p.push_back(laz(g));
            break;
        case 3:
            p.push_back(codec(g));
            break;
        case 4:
            p.push_back(values(g));
            break;
        default:
            switch (p[0].name[0])
            {
            case 'w':
                p.push_back(copcWriter(g, path));
                break;
            case 'r':
                p.push_back(copcReader(g, path));
                break;
            case 'l':
                p.push_back(laz(g));
                break;
            case 'c':
                p.push_back(codec(g));
                break;
            default:
                p.push_back(values(g));
            }
        }
        g.note(p.back().name.substr(0, 150) + " | ");
        g.label("with " + p.back().name.substr(0, 4));
    }
    // each on its own
    std::vector<Log> alone;
    for (auto &x : p)
    {
        Log l;
        for (auto &s : x.start())
            l.push_back(perform(s));
        alone.push_back(l);
    }
    // step by step in turns
    {
        std::vector<std::vector<Step>> steps;
        std::vector<Log> logs(n);
        std::vector<size_t> left;
        for (size_t i = 0; i < n; i++)
        {
            steps.push_back(p[i].start());
            left.push_back(i);
        }
        size_t turns = 0, last = n;
        while (!left.empty())
        {
            const size_t k = g.below(left.size()), i = left[k];
            turns += i != last;
            last = i;
            logs[i].push_back(perform(steps[i][logs[i].size()]));
            if (logs[i].size() == steps[i].size())
                left.erase(left.begin() + k);
        }
        if (turns > n)
            g.nontrivial();
        compare(p, logs, alone, "between the steps of others");
    }
    // at the same time
    {
        std::vector<std::vector<Step>> steps;
        std::vector<Log> logs(n);
        for (size_t i = 0; i < n; i++)
            steps.push_back(p[i].start());
        std::atomic<size_t> ready{0};
        std::vector<std::thread> ts;
        for (size_t i = 0; i < n; i++)
            ts.emplace_back([&, i]
                            {
                                ready.fetch_add(1, std::memory_order_relaxed);
                                while (ready.load(std::memory_order_relaxed) < n)
                                    std::this_thread::yield();
                                for (auto &s : steps[i])
                                    logs[i].push_back(perform(s));
                            });
        for (auto &t : ts)
            t.join();
        compare(p, logs, alone, "beside other threads");
    }
}
} // namespace
pbt::Property pbt::property()
{
    return {"C33", "the steps of at least two programs alternate", {{"programs", 1, programs}}, 12000, 72000};
}
