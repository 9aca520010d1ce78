// C37 Read errors are reported, and are over when the stream works again
#include "../build.hpp"

#include <cerrno>
#include <streambuf>
#include <sys/syscall.h>
#include <unistd.h>
using namespace build;

namespace
{
struct Faults
{
    uint64_t faults{0}; // operations that have gone wrong
};
// What the file streams of the C++ library see of the system, while it is on
struct Device : Faults
{
    bool on{false};
    int reads{0}, seeks{0}, failRead{-1}, failSeek{-1}, forHow{1}, error{EIO};
    bool shorten{false}; // reads deliver less than asked for
    bool fails(int &n, int at)
    {
        const int i = n++;
        if (at < 0 || i < at || i >= at + forHow)
            return false;
        if (error != EINTR)
            faults++;
        errno = error;
        return true;
    }
    void heal()
    {
        reads = seeks = 0;
        failRead = failSeek = -1;
        shorten = false;
        error = EIO;
        forHow = 1;
    }
} device;
} // namespace
extern "C" ssize_t read(int fd, void *b, size_t n)
{
    if (device.on && fd > 2)
    {
        if (device.fails(device.reads, device.failRead))
            return -1;
        if (device.shorten && n > 1)
            n = 1 + (n - 1) * static_cast<size_t>(device.reads % 3) / 3;
    }
    return syscall(SYS_read, fd, b, n);
}
extern "C" off_t lseek(int fd, off_t o, int whence) noexcept
{
    if (device.on && fd > 2 && device.fails(device.seeks, device.failSeek))
        return -1;
    return syscall(SYS_lseek, fd, o, whence);
}
extern "C" off64_t lseek64(int fd, off64_t o, int whence) noexcept { return lseek(fd, o, whence); }

namespace
{
// A seekable source over bytes whose reads and repositionings fail as drawn
class Source : public std::streambuf, public Faults
{
  public:
    explicit Source(const Bytes &b) : bytes_(b) {}
    bool throws{false};                    // a failure is an exception rather than a short count
    uint64_t badFrom{0}, badTo{0};         // bytes that can't be read
    uint64_t failRead{NONE}, failSeek{NONE}; // counted down; at 0 one operation (or all from there on) fails
    uint64_t deliver{0};                   // bytes delivered by a read that fails
    bool lasting{false};
    bool tells{false}; // telling the position may fail as repositioning does
    bool down{false};
    static const uint64_t NONE = ~uint64_t(0);

    void heal()
    {
        badFrom = badTo = 0;
        failRead = failSeek = NONE;
        down = lasting = throws = tells = false;
    }

  protected:
    std::streamsize xsgetn(char *s, std::streamsize n) override
    {
        if (n <= 0)
            return 0;
        uint64_t m = pos_ < bytes_.size() ? std::min<uint64_t>(n, bytes_.size() - pos_) : 0;
        uint64_t give = m;
        bool fault = down;
        if (fault)
            give = 0;
        else if (failRead != NONE && failRead-- == 0)
        {
            fault = true;
            give = std::min<uint64_t>(m, deliver);
            failRead = NONE;
            down = lasting;
        }
        if (!down && badFrom < badTo && pos_ + give > badFrom && pos_ < badTo)
        {
            fault = true;
            give = pos_ < badFrom ? badFrom - pos_ : 0;
        }
        if (fault && give == m && m == static_cast<uint64_t>(n)) // all of it arrived
            fault = false;
        std::memcpy(s, bytes_.data() + std::min<uint64_t>(pos_, bytes_.size()), give);
        pos_ += give;
        if (fault)
        {
            faults++;
            if (throws)
                throw std::runtime_error("source can't be read");
        }
        return static_cast<std::streamsize>(give);
    }
    int_type underflow() override
    {
        char c;
        const uint64_t at = pos_;
        if (xsgetn(&c, 1) != 1)
            return traits_type::eof();
        pos_ = at;
        return traits_type::to_int_type(c);
    }
    int_type uflow() override
    {
        char c;
        return xsgetn(&c, 1) == 1 ? traits_type::to_int_type(c) : traits_type::eof();
    }
    pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override
    {
        if (dir == std::ios_base::cur && off == 0) // a tell
            return tells ? to(static_cast<off_type>(pos_)) : pos_type(static_cast<off_type>(pos_));
        return to((dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? off_type(pos_) : off_type(bytes_.size())) + off);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode) override { return to(off_type(p)); }

  private:
    const Bytes &bytes_;
    uint64_t pos_{0};
    pos_type to(off_type p)
    {
        if (failSeek != NONE && failSeek-- == 0)
        {
            if (!lasting)
                failSeek = NONE;
            else
                failSeek = 0;
            faults++;
            if (throws)
                throw std::runtime_error("source can't be repositioned");
            return pos_type(off_type(-1));
        }
        if (p < 0)
            return pos_type(off_type(-1));
        pos_ = static_cast<uint64_t>(p);
        return pos_type(p);
    }
};
// Something goes wrong within the next operations
std::string arm(Gen &g, Source &s, const File &f, bool opening)
{
    const uint64_t size = f.bytes.size();
    std::ostringstream ss;
    s.throws = g.below(3) == 2;
    s.lasting = g.below(3) == 2;
    s.tells = g.flag();
    switch (g.below(4))
    {
    case 0:
        s.failRead = g.below(opening ? 200 : 12);
        s.deliver = g.flag() ? 0 : g.below(g.flag() ? 40 : 2000);
        ss << "read " << s.failRead << " after " << s.deliver << " bytes";
        break;
    case 1:
        s.failSeek = g.below(opening ? 40 : 6);
        ss << "seek " << s.failSeek;
        break;
    default: {
        switch (g.below(4))
        {
        case 0: { // within a record of the file
            auto &l = f.evlrs.empty() || g.flag() ? f.vlrs : f.evlrs;
            auto &v = g.pick(l);
            s.badFrom = v.offset + g.below(60 + v.data.size());
            break;
        }
        case 1: {
            auto it = f.pageAt.begin();
            std::advance(it, g.below(f.pageAt.size()));
            s.badFrom = it->second.first + g.below(it->second.second + 1);
            break;
        }
        case 2:
            if (!f.where.empty())
            {
                auto it = f.where.begin();
                std::advance(it, g.below(f.where.size()));
                s.badFrom = it->second.first + g.below(static_cast<uint64_t>(std::max(1, it->second.second)));
                break;
            }
            [[fallthrough]];
        default:
            s.badFrom = g.below(size);
        }
        s.badTo = s.badFrom + 1 + (g.flag() ? 0 : g.flag() ? g.size(64) : g.below(size));
        ss << "bytes " << s.badFrom << " to " << s.badTo;
    }
    }
    ss << (s.throws ? " (exception)" : "") << (s.lasting ? " (lasting)" : "");
    return ss.str();
}
uint64_t bits(double v)
{
    uint64_t u;
    std::memcpy(&u, &v, 8);
    return u;
}
// All metadata as one string
std::string configText(const copc::las::LazConfig &c)
{
    std::ostringstream ss;
    ss << c.LasHeader().ToString() << "|wkt " << c.Wkt() << "|eb";
    auto eb = c.ExtraBytesVlr();
    for (auto &i : eb.items)
        ss << " " << int(i.data_type) << "/" << int(i.options) << "/" << i.name << "/" << i.description << "/" << bits(i.scale[0]) << "/" << bits(i.offset[0]);
    return ss.str();
}
std::string configText(const copc::CopcConfig &c)
{
    std::ostringstream ss;
    ss << configText(static_cast<const copc::las::LazConfig &>(c));
    auto i = c.CopcInfo();
    ss << "|info " << bits(i.center_x) << " " << bits(i.center_y) << " " << bits(i.center_z) << " " << bits(i.halfsize) << " " << bits(i.spacing) << " " << i.root_hier_offset << " "
       << i.root_hier_size << "|extents";
    auto e = c.CopcExtents();
    ss << e.HasExtendedStats();
    for (auto &x : e.Extents())
        ss << " " << bits(x->minimum) << " " << bits(x->maximum) << " " << bits(x->mean) << " " << bits(x->var);
    return ss.str();
}
struct Count
{
    int failed{0}, answered{0};
};
// Runs one operation. It may fail only if something went wrong while it ran, and otherwise gives the right answer
template <typename F> bool attempt(Faults &s, const std::string &what, Count &n, F f)
{
    const uint64_t before = s.faults;
    try
    {
        f();
    }
    catch (const pbt::PropFail &)
    {
        throw;
    }
    catch (const std::exception &e)
    {
        CHECK(s.faults > before, what << " fails although all its reads succeeded: " << e.what());
        n.failed++;
        return false;
    }
    n.answered++;
    return true;
}
void query(Gen &g, copc::Reader &r, Faults &src, const File &f, Count &n)
{
    std::vector<const NodeSpec *> all;
    for (auto &x : f.nodes)
        all.push_back(&x);
    Key k{0, 0, 0, 0};
    switch (g.below(4))
    {
    case 0:
    case 1:
        if (!f.nodes.empty())
            k = f.nodes[g.below(f.nodes.size())].key;
        break;
    case 2: {
        auto it = f.pages.begin();
        std::advance(it, g.below(f.pages.size()));
        k = *it;
        break;
    }
    default:
        k = key(g, 6);
    }
    auto *s = f.node(k);
    const std::string ks = k.s();
    auto encoded = [&](const NodeSpec &x) { return spec::encode(x.recs, f.c.fmt); };
    switch (g.below(8))
    {
    case 0:
        attempt(src, "find" + ks, n, [&] {
            auto got = r.FindNode(vk(k));
            if (s)
                checkNode(got, f, *s, "find" + ks);
            else
                CHECK(!got.IsValid(), "absent node " << ks << " is found: " << got.ToString());
        });
        break;
    case 1:
        attempt(src, "compressed" + ks, n, [&] {
            auto c = ubytes(r.GetPointDataCompressed(vk(k)));
            Bytes want;
            if (s && !s->recs.empty())
                want.assign(f.bytes.begin() + f.where.at(k).first, f.bytes.begin() + f.where.at(k).first + f.where.at(k).second);
            checkBytes(c, want, "compressed" + ks);
        });
        break;
    case 2:
        attempt(src, "data" + ks, n, [&] { checkBytes(ubytes(r.GetPointData(vk(k))), s ? encoded(*s) : Bytes(), "data" + ks); });
        break;
    case 3:
        attempt(src, "points" + ks, n, [&] { CHECK_EQ(r.GetPoints(vk(k)).Size(), s ? s->recs.size() : size_t(0), "points" << ks); });
        break;
    case 4:
        attempt(src, "children" + ks, n, [&] {
            auto v = r.GetAllChildrenOfPage(vk(k));
            if (f.pages.count(k))
                checkNodeSet(v, f, under(f, k), "children" + ks);
            else if (s)
                checkNodeSet(v, f, {s}, "children" + ks);
            else
                CHECK(v.empty(), "nodes of the absent page " << ks);
        });
        break;
    case 5:
        attempt(src, "all", n, [&] { checkNodeSet(r.GetAllNodes(), f, all, "all"); });
        break;
    case 6:
        attempt(src, "pages", n, [&] {
            std::set<Key> got;
            for (auto &p : r.GetPageList())
                got.insert(sk(p));
            CHECK(got == f.pages, "page list");
        });
        break;
    default:
        switch (g.below(3))
        {
        case 0:
            attempt(src, "all points", n, [&] { CHECK_EQ(r.GetAllPoints().Size(), f.points(), "all points"); });
            break;
        case 1:
            attempt(src, "nodes in a box", n, [&] { checkNodeSet(r.GetNodesIntersectBox(copc::Box::MaxBox()), f, all, "nodes in a box"); });
            break;
        default:
            attempt(src, "points in a box", n, [&] { CHECK_EQ(r.GetPointsWithinBox(copc::Box::MaxBox()).Size(), f.points(), "points in a box"); });
        }
    }
}
Bytes lazRecords(const File &f)
{
    Bytes b;
    for (size_t i : f.chunkOrder)
    {
        Bytes e = spec::encode(f.nodes[i].recs, f.c.fmt);
        b.insert(b.end(), e.begin(), e.end());
    }
    return b;
}
File draw(Gen &g)
{
    Opts o;
    o.maxPts = 3;
    return file(g, o);
}
// What a reader of the intact bytes says about the file
template <typename R> std::string intact(const File &f)
{
    std::istringstream in(text(f.bytes));
    R r(&in);
    if constexpr (std::is_same_v<R, copc::Reader>)
        return configText(r.CopcConfig());
    else
        return configText(r.LazConfig());
}
template <typename R> std::string told(R &r)
{
    if constexpr (std::is_same_v<R, copc::Reader>)
        return configText(r.CopcConfig());
    else
        return configText(r.LazConfig());
}
template <typename R> void openWith(Gen &g)
{
    File f = draw(g);
    const std::string want = intact<R>(f);
    Source src(f.bytes);
    std::istream in(&src);
    Count n;
    const int tries = 1 + static_cast<int>(g.below(4));
    for (int t = 0; t < tries; t++)
    {
        src.heal();
        in.clear();
        const std::string fault = arm(g, src, f, true);
        g.note(fault + "; ");
        attempt(src, "opening with " + fault, n, [&] {
            R r(&in);
            CHECK(told(r) == want, "opened with wrong metadata although a read failed: " << fault << "\n" << told(r) << "\ninstead of\n" << want);
        });
    }
    src.heal();
    in.clear();
    R r(&in);
    CHECK(told(r) == want, "metadata after the stream works again");
    if (n.failed)
        g.nontrivial();
    g.note(f.str());
}
void queries(Gen &g)
{
    File f = draw(g);
    Source src(f.bytes);
    std::istream in(&src);
    copc::Reader r(&in);
    Count n, last;
    for (size_t i = 2 + g.below(8); i > 0; i--)
    {
        src.heal();
        if (g.below(3))
            g.note(arm(g, src, f, false) + "; ");
        for (size_t j = 1 + g.below(3); j > 0; j--)
            query(g, r, src, f, n);
    }
    src.heal();
    for (size_t i = 1 + g.below(3); i > 0; i--)
        query(g, r, src, f, last);
    std::vector<const NodeSpec *> all;
    for (auto &x : f.nodes)
        all.push_back(&x);
    checkNodeSet(r.GetAllNodes(), f, all, "all nodes after the stream works again");
    for (auto &x : f.nodes)
        checkBytes(ubytes(r.GetPointData(vk(x.key))), spec::encode(x.recs, f.c.fmt), "data of " + x.key.s() + " after the stream works again");
    if (n.failed && n.answered)
        g.nontrivial();
    g.note(f.str());
}
void lazPoints(Gen &g)
{
    File f = draw(g);
    const Bytes want = lazRecords(f);
    Source src(f.bytes);
    std::istream in(&src);
    copc::laz::LazReader r(&in);
    Count n;
    for (size_t i = 1 + g.below(5); i > 0; i--)
    {
        src.heal();
        if (g.below(4))
            g.note(arm(g, src, f, true) + "; ");
        if (g.flag())
            attempt(src, "reading all data", n, [&] { checkBytes(ubytes(r.GetPointData()), want, "all data"); });
        else
            attempt(src, "reading all points", n, [&] { CHECK_EQ(r.GetPoints().Size(), f.points(), "all points"); });
    }
    src.heal();
    checkBytes(ubytes(r.GetPointData()), want, "all data after the stream works again");
    if (n.failed)
        g.nontrivial();
    g.note(f.str());
}
struct On
{
    On() { device.on = true; }
    ~On() { device.on = false; }
};
std::string armDevice(Gen &g)
{
    std::ostringstream ss;
    device.shorten = g.below(3) == 2;
    device.forHow = g.pick({1, 1, 2, 1 << 30});
    switch (g.below(4))
    {
    case 0:
        device.failRead = static_cast<int>(g.below(6));
        device.error = EINTR; // is to be tried again
        device.forHow = 1;
        ss << "read " << device.failRead << " is interrupted";
        break;
    case 1:
        device.failSeek = static_cast<int>(g.below(g.flag() ? 4 : 30));
        ss << "seek " << device.failSeek << " fails " << device.forHow << " times";
        break;
    default:
        device.failRead = static_cast<int>(g.below(g.flag() ? 3 : 12));
        ss << "read " << device.failRead << " fails " << device.forHow << " times";
    }
    ss << (device.shorten ? ", short reads; " : "; ");
    return ss.str();
}
void realFile(Gen &g)
{
    File f = draw(g);
    const std::string path = tmpFile("c37");
    {
        std::ofstream o(path, std::ios::binary);
        o.write(reinterpret_cast<const char *>(f.bytes.data()), static_cast<std::streamsize>(f.bytes.size()));
    }
    struct Remove
    {
        const std::string &p;
        ~Remove() { unlink(p.c_str()); }
    } remove{path};
    device = Device();
    On on;
    Count n;
    const bool copc = g.below(4) != 0;
    for (size_t t = g.below(3); t > 0; t--)
    {
        g.note("opening: " + armDevice(g));
        attempt(device, "opening", n, [&] {
            if (copc)
            {
                copc::FileReader r(path);
                std::string got = told<copc::Reader>(r);
                device.heal();
                CHECK(got == intact<copc::Reader>(f), "opened with wrong metadata although a read failed");
            }
            else
            {
                copc::laz::LazFileReader r(path);
                std::string got = told<copc::laz::LazReader>(r);
                device.heal();
                CHECK(got == intact<copc::laz::LazReader>(f), "opened with wrong metadata although a read failed");
            }
        });
        device.heal();
    }
    if (copc)
    {
        copc::FileReader r(path);
        for (size_t i = 2 + g.below(5); i > 0; i--)
        {
            device.heal();
            if (g.below(3))
                g.note(armDevice(g));
            for (size_t j = 1 + g.below(3); j > 0; j--)
                query(g, r, device, f, n);
        }
        device.heal();
        for (auto &x : f.nodes)
            checkBytes(ubytes(r.GetPointData(vk(x.key))), spec::encode(x.recs, f.c.fmt), "data of " + x.key.s() + " after the file works again");
    }
    else
    {
        const Bytes want = lazRecords(f);
        copc::laz::LazFileReader r(path);
        for (size_t i = 1 + g.below(4); i > 0; i--)
        {
            device.heal();
            if (g.below(4))
                g.note(armDevice(g));
            attempt(device, "reading all data", n, [&] { checkBytes(ubytes(r.GetPointData()), want, "all data"); });
        }
        device.heal();
        checkBytes(ubytes(r.GetPointData()), want, "all data after the file works again");
    }
    if (n.failed && n.answered)
        g.nontrivial();
    g.note(f.str());
}
} // namespace

pbt::Property pbt::property()
{
    return {"C37",
            "an operation failed because of a read error (queries: and another one on the same reader succeeded)",
            {{"open COPC", 5, openWith<copc::Reader>}, {"open LAZ", 2, openWith<copc::laz::LazReader>}, {"queries", 6, queries}, {"LAZ points", 2, lazPoints}, {"file", 3, realFile}},
            200000,
            2000000};
}
