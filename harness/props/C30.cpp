// C30 A failed write is reported, and reporting it is safe
#include "../faulty.hpp"
#include "../hist.hpp"

#include <cerrno>
#include <csignal>
#include <cstdio>
#include <dlfcn.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

// Stand-ins for the system calls the file streams of the C++ library make; off except while a writer runs
namespace
{
struct Device
{
    bool on{false};
    int writes{0}, failAt{-1}, forHow{1}; // writes failAt, failAt+1, ... of that many fail
    int error{ENOSPC};
    bool shorten{false}; // every other write takes only half of its data
    bool failClose{false};
    int failed{0}, closed{0};
    bool fails()
    {
        const int i = writes++;
        if (failAt < 0 || i < failAt || i >= failAt + forHow)
            return false;
        failed++;
        return true;
    }
} device;
} // namespace
extern "C" ssize_t write(int fd, const void *b, size_t n)
{
    if (device.on && fd > 2)
    {
        if (device.fails())
            return errno = device.error, -1;
        if (device.shorten && n > 1 && device.writes % 2)
            n /= 2;
    }
    return syscall(SYS_write, fd, b, n);
}
extern "C" ssize_t writev(int fd, const struct iovec *v, int n)
{
    if (device.on && fd > 2)
    {
        if (device.fails())
            return errno = device.error, -1;
        if (device.shorten && n > 0 && v[0].iov_len > 1 && device.writes % 2)
            return syscall(SYS_write, fd, v[0].iov_base, v[0].iov_len / 2);
    }
    return syscall(SYS_writev, fd, v, n);
}
extern "C" int fclose(FILE *f)
{
    static auto real = reinterpret_cast<int (*)(FILE *)>(dlsym(RTLD_NEXT, "fclose"));
    const int r = real(f);
    if (!device.on)
        return r;
    device.closed++;
    if (device.failClose)
        return errno = EIO, EOF; // data accepted before could not be stored after all
    return r;
}
using namespace hist;
using faulty::Sink;

namespace
{
// What a user of a writer sees
struct Report
{
    bool ctor{false}, add{false}, close{false}; // raised an error
    bool any() const { return ctor || add || close; }
};
struct FileLimit // writes beyond n bytes of a file fail with EFBIG
{
    rlimit old{};
    explicit FileLimit(rlim_t n)
    {
        signal(SIGXFSZ, SIG_IGN);
        getrlimit(RLIMIT_FSIZE, &old);
        rlimit l = old;
        l.rlim_cur = n;
        setrlimit(RLIMIT_FSIZE, &l);
    }
    ~FileLimit() { setrlimit(RLIMIT_FSIZE, &old); }
};
struct Plan
{
    Cfg c;
    std::vector<NodeSpec> nodes;
    std::vector<int> how;
    bool goOn{false};     // keep adding after an error
    int closes{1};        // number of explicit Close calls
    bool base{false};     // hold the writer through its base class
};
Plan plan(Gen &g, size_t maxNodes)
{
    Plan p;
    p.c = cfg(g, g.below(4) == 0 ? 1 : 0);
    for (auto &k : tree(g, 0, maxNodes, 6))
    {
        NodeSpec n;
        n.key = k;
        n.page = pageFor(g, k, p.nodes);
        n.recs = recs(g, p.c.fmt, p.c.ebBytes(), 1, g.below(12) == 11 ? 600 : 12);
        p.nodes.push_back(n);
        p.how.push_back(static_cast<int>(g.below(3)));
    }
    p.goOn = g.flag();
    p.closes = static_cast<int>(g.pick({1, 1, 2, 3}));
    return p;
}
template <typename F> bool raised(F f)
{
    try
    {
        f();
    }
    catch (const std::exception &)
    {
        return true;
    }
    return false;
}
// Runs the plan on a writer made by `make`. Every error is caught where a user would catch it.
template <typename W> void addOne(W &w, const Plan &p, size_t i);
template <> void addOne(copc::Writer &w, const Plan &p, size_t i)
{
    auto &n = p.nodes[i];
    const int eb = p.c.ebBytes();
    Bytes raw = spec::encode(n.recs, p.c.fmt);
    if (p.how[i] == 0)
        w.AddNode(vk(n.key), points(n.recs, p.c.q, p.c.fmt, eb), vk(n.page));
    else if (p.how[i] == 1)
        w.AddNode(vk(n.key), chars(raw), vk(n.page));
    else
        w.AddNodeCompressed(vk(n.key), chars(spec::compress(raw, p.c.fmt, eb)), static_cast<int32_t>(n.recs.size()), vk(n.page));
}
template <> void addOne(copc::laz::LazWriter &w, const Plan &p, size_t i)
{
    auto &n = p.nodes[i];
    const int eb = p.c.ebBytes();
    if (p.how[i] < 2)
        w.WritePoints(points(n.recs, p.c.q, p.c.fmt, eb));
    else
        w.WritePointsCompressed(chars(spec::compress(spec::encode(n.recs, p.c.fmt), p.c.fmt, eb)),
                                static_cast<int32_t>(n.recs.size()));
}
template <typename Base, typename Make> Report run(const Plan &p, Make make)
{
    Report r;
    {
        std::unique_ptr<Base> w;
        r.ctor = raised([&] { w = make(); });
        if (!w)
            return r;
        for (size_t i = 0; i < p.nodes.size(); i++)
        {
            if (raised([&] { addOne<Base>(*w, p, i); }))
            {
                r.add = true;
                if (!p.goOn)
                    break;
            }
        }
        r.close = raised([&] { w->Close(); });
        for (int i = 1; i < p.closes; i++)
            raised([&] { w->Close(); });
    } // destroyed here: must not end the process
    return r;
}
void checkComplete(const Bytes &b, const Plan &p, bool copc)
{
    auto f = spec::parse(b);
    size_t n = 0;
    for (auto &s : p.nodes)
        n += s.recs.size();
    CHECK_EQ(f.h.count, uint64_t(n), "points in a file whose writing succeeded");
    CHECK_EQ(f.chunks.size(), p.nodes.size(), "chunks in a file whose writing succeeded");
    uint64_t pos = uint64_t(f.h.pointOffset) + 8;
    for (size_t i = 0; i < f.chunks.size(); i++)
    {
        auto raw = spec::decompress(b, pos, static_cast<size_t>(f.chunks[i].offset), p.c.fmt, p.c.ebBytes(),
                                    static_cast<size_t>(f.chunks[i].count));
        checkBytes(raw, spec::encode(p.nodes[i].recs, p.c.fmt), "chunk " + std::to_string(i));
        pos += f.chunks[i].offset;
    }
    if (copc)
        CHECK_EQ(walk(b, infoOf(f)).node.size(), p.nodes.size(), "nodes in a file whose writing succeeded");
}
copc::las::LazConfigWriter lazConfig(const Cfg &c)
{
    copc::las::LazConfigWriter lc(static_cast<int8_t>(c.fmt), c.q.s(), c.q.o(), c.wkt, toCopc(c.eb));
    applyHeader(c, *lc.LasHeader());
    return lc;
}
Report onSink(const Plan &p, bool copc, Sink &s, bool exceptions)
{
    std::ostream out(&s);
    if (exceptions)
        out.exceptions(std::ios::badbit | std::ios::failbit);
    if (copc)
        return run<copc::Writer>(p, [&] { return std::make_unique<copc::Writer>(out, writerConfig(p.c)); });
    return run<copc::laz::LazWriter>(p, [&] { return std::make_unique<copc::laz::LazWriter>(out, lazConfig(p.c)); });
}

void stream(Gen &g)
{
    Plan p = plan(g, 5);
    const bool copc = g.below(3) != 0;
    // how large is it, and how often is it repositioned, without faults?
    Sink free;
    Report r0 = onSink(p, copc, free, false);
    CHECK(!r0.any(), "an error on a stream that accepts everything");
    CHECK(!free.dirty, "data were left in the stream's buffer, where they can still be lost, by a Close that returned normally");
    checkComplete(ubytes(free.bytes), p, copc);
    Sink s;
    const bool exceptions = g.below(4) == 3;
    switch (g.below(7))
    {
    case 0:
    case 1:
    case 2: // a point in the total data written; the tail (tables, header) is the interesting part
        s.limit = g.flag() ? g.below(free.accepted + 1) : free.accepted - g.below(std::min<uint64_t>(free.accepted, 900));
        s.transient = g.below(3) == 2;
        s.throws = g.below(4) == 3;
        g.label("refuses data");
        break;
    case 3:
        s.limit = free.accepted - 1 - g.below(8);
        g.label("refuses the last bytes");
        break;
    case 4:
        s.failSeek = g.below(free.seeks + 1);
        g.label("refuses to reposition");
        break;
    case 5:
        s.failTell = g.below(free.tells + 1);
        g.label("refuses to tell its position");
        break;
    default:
        s.failSync = true;
        g.label("refuses to flush");
    }
    if (s.limit == 0)
        s.limit = 1;
    std::ostringstream ss;
    ss << (copc ? "COPC " : "LAZ ") << p.nodes.size() << " nodes, " << free.accepted << " bytes; limit " << s.limit << (s.transient ? " once" : "")
       << (s.throws ? " (throwing)" : "") << ", fails seek " << s.failSeek << " of " << free.seeks << ", tell " << s.failTell << " of " << free.tells << ", sync " << s.failSync
       << (exceptions ? ", stream throws" : "") << ", goes on " << p.goOn << ", closes " << p.closes << "; ";
    g.note(ss.str());
    Report r = onSink(p, copc, s, exceptions);
    if (s.refused || s.failSync)
    {
        g.nontrivial();
        CHECK(r.any(), "the stream refused data, but no error was raised");
        CHECK(r.ctor || r.close, "the stream refused data, but Close returned normally");
    }
    else
    {
        CHECK(!r.any(), "an error although the stream accepted everything");
        checkSameFile(ubytes(s.bytes), ubytes(free.bytes), copc, "file");
    }
}

// Real files: a file size limit, a full device
void realFile(Gen &g)
{
    Plan p = plan(g, 5);
    const bool copc = g.below(3) != 0;
    std::string path = tmpFile("c30");
    auto go = [&](const std::string &where)
    {
        if (copc)
            return run<copc::Writer>(p, [&] { return std::unique_ptr<copc::Writer>(new copc::FileWriter(where, writerConfig(p.c))); });
        // through the derived type: Close is the file writer's
        Report r;
        {
            std::unique_ptr<copc::laz::LazFileWriter> w;
            r.ctor = raised([&] { w = std::make_unique<copc::laz::LazFileWriter>(where, lazConfig(p.c)); });
            if (!w)
                return r;
            for (size_t i = 0; i < p.nodes.size(); i++)
                if (raised([&] { addOne<copc::laz::LazWriter>(*w, p, i); }))
                {
                    r.add = true;
                    if (!p.goOn)
                        break;
                }
            r.close = raised([&] { w->Close(); });
            for (int i = 1; i < p.closes; i++)
                raised([&] { w->Close(); });
        }
        return r;
    };
    g.note(std::string(copc ? "COPC " : "LAZ ") + std::to_string(p.nodes.size()) + " nodes, goes on " + std::to_string(p.goOn));
    Report r0 = go(path);
    CHECK(!r0.any(), "an error on a file that accepts everything");
    Bytes b = ubytes(slurp(path));
    unlink(path.c_str());
    checkComplete(b, p, copc);
    if (g.below(4) == 3)
    {
        g.label("full device");
        g.note(", /dev/full");
        Report r = go("/dev/full");
        CHECK(r.ctor || r.close, "every write to a full device fails, but Close returned normally");
        g.nontrivial();
        return;
    }
    if (g.below(3) == 2)
    { // the device fails at one of the writes, for a while or for good, or when the file is closed
        device = Device();
        device.on = true;
        Report r = go(path);
        device.on = false;
        unlink(path.c_str());
        CHECK(!r.any() && device.closed > 0 && device.writes > 0, "a second run of the same history differs");
        const int writes = device.writes;
        device = Device();
        const size_t what = g.below(6);
        device.shorten = g.below(4) == 3;
        if (what == 0)
            device.failClose = true;
        else
        {
            device.failAt = static_cast<int>(g.below(static_cast<size_t>(writes)));
            device.forHow = g.pick({1, 1, 2, 1 << 30});
            device.error = what == 1 ? EINTR : g.pick({ENOSPC, EIO, EDQUOT});
            if (device.error == EINTR)
                device.forHow = 1;
        }
        const bool harmless = device.error == EINTR;
        g.label(what == 0 ? "closing fails" : harmless ? "write interrupted" : "write fails");
        g.note(what == 0 ? std::string(", closing fails") : ", write " + std::to_string(device.failAt) + " of " + std::to_string(writes) + " fails with errno " +
                                                     std::to_string(device.error) + ", " + std::to_string(device.forHow) + " times");
        device.on = true;
        r = go(path);
        device.on = false;
        const bool hit = device.failed > 0 || device.failClose;
        Bytes got = ubytes(slurp(path));
        unlink(path.c_str());
        if (hit)
            g.nontrivial();
        if (hit && !harmless)
        {
            CHECK(r.any(), "a write to the file or closing it failed, but no error was raised");
            CHECK(r.ctor || r.close, "a write to the file or closing it failed, but Close returned normally");
        }
        else
        {
            CHECK(!r.any(), "an error although the file could be written");
            checkSameFile(got, b, copc, "file");
        }
        CHECK(device.closed > 0, "the file was left open");
        return;
    }
    uint64_t limit = g.flag() ? g.below(b.size() + 1) : b.size() - g.below(std::min<uint64_t>(b.size(), 900));
    g.label("file size limit");
    g.note(", limit " + std::to_string(limit) + " of " + std::to_string(b.size()));
    Report r;
    {
        FileLimit l(limit);
        r = go(path);
    }
    Bytes got = ubytes(slurp(path));
    unlink(path.c_str());
    if (limit < b.size())
    {
        g.nontrivial();
        CHECK(r.any(), "the file could not be written, but no error was raised");
        CHECK(r.ctor || r.close, "the file could not be written, but Close returned normally");
    }
    else
    {
        CHECK(!r.any(), "an error although the file could be written");
        checkSameFile(got, b, copc, "file");
    }
}
} // namespace

pbt::Property pbt::property()
{
    return {"C30",
            "the stream or file refused something",
            {{"stream", 5, stream}, {"file", 2, realFile}},
            80000,
            500000};
}
