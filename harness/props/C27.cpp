// C27 Opening, closing and destroying are safe in every order
#include "../hist.hpp"
#include "../build.hpp"
#include "../hostile.hpp"

#include <dirent.h>
#include <sanitizer/allocator_interface.h>
#include <sys/stat.h>

namespace
{
using namespace hist;

size_t openFiles()
{
    size_t n = 0;
    DIR *d = opendir("/proc/self/fd");
    while (readdir(d))
        n++;
    closedir(d);
    return n;
}
bool isOpen(const std::string &path)
{
    struct stat a
    {
    }, b{};
    if (stat(path.c_str(), &a) != 0)
        return false;
    DIR *d = opendir("/proc/self/fd");
    bool found = false;
    while (auto *e = readdir(d))
    {
        int fd = atoi(e->d_name);
        if (e->d_name[0] != '.' && fd != dirfd(d) && fstat(fd, &b) == 0 && a.st_dev == b.st_dev && a.st_ino == b.st_ino)
            found = true;
    }
    closedir(d);
    return found;
}
// The history is generated once and replayed, so that two writers are asked for the same
struct Plan
{
    Cfg c;
    std::vector<NodeSpec> nodes;
    std::vector<std::pair<size_t, Key>> moves;
};
Plan plan(Gen &g)
{
    Plan p;
    p.c = cfg(g, g.below(4) == 0 ? 1 : 0);
    for (auto &k : tree(g, 0, 6, 6))
    {
        NodeSpec n;
        n.key = k;
        n.page = pageFor(g, k, p.nodes);
        n.recs = recs(g, p.c.fmt, p.c.ebBytes(), 1, 6);
        p.nodes.push_back(n);
    }
    for (size_t i = 0; i < p.nodes.size(); i++)
        if (g.below(4) == 3)
            p.moves.push_back({i, ancestor(p.nodes[i].key, static_cast<int>(g.below(p.nodes[i].key.d + 1)))});
    return p;
}
void play(copc::Writer &w, const Plan &p)
{
    for (auto &n : p.nodes)
        w.AddNode(vk(n.key), chars(spec::encode(n.recs, p.c.fmt)), vk(n.page));
    for (auto &m : p.moves)
        w.ChangeNodePage(vk(p.nodes[m.first].key), vk(m.second));
}
void play(copc::laz::LazWriter &w, const Plan &p)
{
    for (auto &n : p.nodes)
        w.WritePoints(points(n.recs, p.c.q, p.c.fmt, p.c.ebBytes()));
}
copc::las::LazConfigWriter lazConfig(const Cfg &c)
{
    copc::las::LazConfigWriter lc(static_cast<int8_t>(c.fmt), c.q.s(), c.q.o(), c.wkt, toCopc(c.eb));
    applyHeader(c, *lc.LasHeader());
    return lc;
}
void closing(copc::Writer &w, size_t n)
{
    for (size_t i = 0; i < n; i++)
        w.Close();
}
// Every way of finishing a writer gives the same bytes
void writers(Gen &g)
{
    Plan p = plan(g);
    const bool copc = g.below(3) != 0;
    std::ostringstream ss;
    ss << (copc ? "COPC " : "LAZ ") << p.nodes.size() << " nodes, " << p.moves.size() << " moves; " << p.c.str();
    g.note(ss.str());
    if (!p.nodes.empty())
        g.nontrivial();
    const size_t fds = openFiles();
    // the reference: a stream, closed once
    Bytes want;
    {
        std::stringstream out;
        if (copc)
        {
            copc::Writer w(out, writerConfig(p.c));
            play(w, p);
            w.Close();
            want = ubytes(out.str());
        }
        else
        {
            copc::laz::LazWriter w(out, lazConfig(p.c));
            play(w, p);
            w.Close();
            want = ubytes(out.str());
        }
        checkBytes(ubytes(out.str()), want, "stream after its closed writer was destroyed");
    }
    auto f = spec::parse(want);
    CHECK_EQ(f.chunks.size(), p.nodes.size(), "chunks in the reference file");
    const std::string path = tmpFile("c27w");
    for (int k = 0; k < 3; k++)
    {
        const size_t closes = g.below(4); // 0: destroyed unclosed
        const size_t how = g.below(4);
        static const char *names[] = {"stream", "stream through a pointer", "file", "file through a pointer to the base"};
        std::string what = std::string(names[how]) + ", closed " + std::to_string(closes) + " times";
        g.note("; " + what);
        g.label(names[how]);
        if (closes == 0)
            g.label("destroyed unclosed");
        std::stringstream out;
        if (how >= 2 && g.flag()) // an earlier, larger file is replaced
        {
            std::ofstream o(path, std::ios::binary);
            o << std::string(want.size() + 100 + g.below(5000), 'x');
        }
        if (copc)
        {
            if (how == 0)
            {
                copc::Writer w(out, writerConfig(p.c));
                play(w, p);
                closing(w, closes);
            }
            else if (how == 1)
            {
                std::unique_ptr<copc::Writer> w = std::make_unique<copc::Writer>(out, writerConfig(p.c));
                play(*w, p);
                closing(*w, closes);
            }
            else if (how == 2)
            {
                copc::FileWriter w(path, writerConfig(p.c));
                CHECK_EQ(w.FilePath(), path, "FilePath");
                play(w, p);
                for (size_t i = 0; i < closes; i++)
                {
                    w.Close();
                    CHECK(!isOpen(path), "a closed file writer keeps its file open");
                    checkSameFile(ubytes(slurp(path)), want, copc, what + ": file after Close");
                }
            }
            else
            {
                std::unique_ptr<copc::Writer> w(new copc::FileWriter(path, writerConfig(p.c)));
                play(*w, p);
                closing(*w, closes);
            }
        }
        else
        {
            if (how == 0)
            {
                copc::laz::LazWriter w(out, lazConfig(p.c));
                play(w, p);
                for (size_t i = 0; i < closes; i++)
                    w.Close();
            }
            else if (how == 1 || how == 3)
            {
                std::unique_ptr<copc::laz::LazWriter> w;
                if (how == 1)
                    w = std::make_unique<copc::laz::LazWriter>(out, lazConfig(p.c));
                else
                    w.reset(new copc::laz::LazFileWriter(path, lazConfig(p.c)));
                play(*w, p);
                for (size_t i = 0; i < closes; i++)
                    w->Close();
            }
            else
            {
                copc::laz::LazFileWriter w(path, lazConfig(p.c));
                CHECK_EQ(w.FilePath(), path, "FilePath");
                play(w, p);
                for (size_t i = 0; i < closes; i++)
                {
                    w.Close();
                    CHECK(!isOpen(path), "a closed file writer keeps its file open");
                    checkSameFile(ubytes(slurp(path)), want, copc, what + ": file after Close");
                }
            }
        }
        checkSameFile(how < 2 ? ubytes(out.str()) : ubytes(slurp(path)), want, copc, what);
        unlink(path.c_str());
        CHECK_EQ(openFiles(), fds, "open files after " << what);
    }
}
// An error between the points does not keep the writer from being finalised by its destructor
void unwound(Gen &g)
{
    Plan p = plan(g);
    const size_t upTo = g.below(p.nodes.size() + 1);
    g.note(std::to_string(p.nodes.size()) + " nodes, exception after " + std::to_string(upTo));
    if (upTo > 0)
        g.nontrivial();
    const std::string path = tmpFile("c27u");
    try
    {
        copc::FileWriter w(path, writerConfig(p.c));
        for (size_t i = 0; i < p.nodes.size(); i++)
        {
            if (i == upTo)
                throw std::runtime_error("user error");
            auto &n = p.nodes[i];
            w.AddNode(vk(n.key), chars(spec::encode(n.recs, p.c.fmt)), vk(n.page));
        }
        throw std::runtime_error("user error");
    }
    catch (const std::runtime_error &)
    {
    }
    copc::FileReader r(path);
    CHECK_EQ(r.GetAllNodes().size(), upTo, "nodes in the finalised file");
    for (size_t i = 0; i < upTo; i++)
        checkPoints(r.GetPoints(vk(p.nodes[i].key)), p.nodes[i].recs, p.c.q, p.c.fmt, p.c.ebBytes(), "points");
    r.Close();
    unlink(path.c_str());
}

template <typename F> std::string outcome(F f)
{
    try
    {
        f();
    }
    catch (const std::exception &)
    {
        return "error";
    }
    return "fine";
}
// File and stream readers agree; closing releases the file, any number of times; nothing is kept after destruction
void readers(Gen &g)
{
    build::Opts o;
    o.level = static_cast<int>(g.below(2));
    build::File f = build::file(g, o);
    g.note(f.str());
    if (!f.nodes.empty())
        g.nontrivial();
    const std::string path = tmpFile("c27r");
    {
        std::ofstream out(path, std::ios::binary);
        out.write(reinterpret_cast<const char *>(f.bytes.data()), static_cast<std::streamsize>(f.bytes.size()));
    }
    const size_t fds = openFiles();
    {
        std::istringstream in(text(f.bytes));
        copc::Reader s(&in);
        copc::FileReader r(path);
        CHECK_EQ(r.FilePath(), path, "FilePath");
        CHECK(isOpen(path), "an open file reader does not have its file open");
        auto a = s.GetAllNodes(), b = r.GetAllNodes();
        CHECK_EQ(b.size(), a.size(), "nodes in the file");
        for (auto &n : a)
        {
            auto m = r.FindNode(n.key);
            CHECK(m == n, "node " << n << " from a stream is " << m << " from a file");
            checkBytes(ubytes(r.GetPointData(m)), ubytes(s.GetPointData(n)), "point data from a file");
            checkBytes(ubytes(r.GetPointDataCompressed(m)), ubytes(s.GetPointDataCompressed(n)), "compressed data from a file");
        }
        CHECK(r.CopcConfig().LasHeader().ToString() == s.CopcConfig().LasHeader().ToString(), "headers differ");
        CHECK(r.CopcConfig().Wkt() == s.CopcConfig().Wkt(), "WKT differs");
        if (g.flag()) // a read that fails, or ends at the end of the file, comes before closing
        {
            auto end = f.bytes.size();
            copc::Node n;
            n.key = copc::VoxelKey::RootKey();
            n.offset = g.flag() ? end - g.below(10) : end + g.below(1000);
            n.byte_size = static_cast<int32_t>(1 + g.below(5000));
            n.point_count = static_cast<int32_t>(1 + g.below(5));
            if (g.flag())
                outcome([&] { r.GetPointDataCompressed(n); });
            else
                outcome([&] { r.GetPointData(n); });
            g.label("failed read before closing");
        }
        for (size_t i = g.below(4); i > 0; i--)
        {
            r.Close();
            CHECK(!isOpen(path), "a closed file reader keeps its file open");
            // a closed reader may be asked things; what it cannot know any more is an error
            for (auto &n : a)
                outcome([&] { r.GetPointData(n); });
            outcome([&] { r.GetAllPoints(); });
            outcome([&] { r.FindNode(vk(key(g, 4))); });
            outcome([&] { r.GetPageList(); });
            for (auto &n : a)
                if (n.point_count > 0)
                {
                    CHECK(outcome([&] { r.GetPointData(n); }) == "error", "a closed reader returned point data");
                    CHECK(outcome([&] { r.GetPointDataCompressed(n); }) == "error", "a closed reader returned compressed data");
                }
        }
        in.clear();
        CHECK_EQ(s.GetAllNodes().size(), a.size(), "the stream reader is not affected");
    }
    CHECK_EQ(openFiles(), fds, "open files after the readers were destroyed");
    {
        std::istringstream in(text(f.bytes));
        copc::laz::LazReader s(&in);
        copc::laz::LazFileReader r(path);
        CHECK_EQ(r.FilePath(), path, "FilePath");
        checkBytes(ubytes(r.GetPointData()), ubytes(s.GetPointData()), "LAZ point data from a file");
        for (size_t i = g.below(3); i > 0; i--)
        {
            r.Close();
            CHECK(!isOpen(path), "a closed LAZ file reader keeps its file open");
            std::string res = outcome([&] { r.GetPointData(); });
            CHECK(f.points() == 0 || res == "error", "a closed LAZ reader returned point data");
        }
    }
    CHECK_EQ(openFiles(), fds, "open files after the LAZ readers were destroyed");
    {
        std::unique_ptr<copc::Reader> r(new copc::FileReader(path));
        r->GetAllNodes();
    }
    {
        std::unique_ptr<copc::laz::LazReader> r(new copc::laz::LazFileReader(path));
    }
    CHECK_EQ(openFiles(), fds, "open files after readers were destroyed through their base class");
    unlink(path.c_str());
}
// Opening something that cannot be opened raises an error and leaves nothing behind
void failedOpen(Gen &g)
{
    const std::string path = tmpFile("c27o");
    std::string target = path;
    size_t kind = g.below(7);
    static const char *names[] = {"corrupted file", "truncated file", "missing file", "missing directory", "a directory", "an empty file", "garbage"};
    bool mayOpen = false;
    Bytes b;
    switch (kind)
    {
    case 0:
    case 1: {
        build::Opts o;
        build::File f = build::file(g, o);
        b = f.bytes;
        if (kind == 0)
            for (int i = static_cast<int>(g.below(4)); i >= 0; i--)
                b[g.below(std::min<size_t>(b.size(), g.flag() ? 1200 : b.size()))] = static_cast<uint8_t>(g.uintN(8));
        else
            b.resize(g.below(b.size()));
        mayOpen = true;
        break;
    }
    case 2:
        break;
    case 3:
        target = path + ".no/such/file.laz";
        break;
    case 4:
        target = tmpDir();
        break;
    case 5:
        break;
    default:
        b = g.bytes(g.size(600));
    }
    if (kind < 2 || kind >= 5)
    {
        std::ofstream out(path, std::ios::binary);
        out.write(reinterpret_cast<const char *>(b.data()), static_cast<std::streamsize>(b.size()));
    }
    g.note(names[kind]);
    g.label(names[kind]);
    const size_t fds = openFiles();
    auto copcOpen = [&]() { copc::FileReader r(target); };
    auto lazOpen = [&]() { copc::laz::LazFileReader r(target); };
    for (int which = 0; which < 2; which++)
    {
        auto open = [&]() { return which == 0 ? outcome(copcOpen) : outcome(lazOpen); };
        std::string first = open(); // warms up whatever is allocated once
        open();
        const size_t before = __sanitizer_get_current_allocated_bytes();
        std::string r1 = open(), r2 = open();
        const size_t after = __sanitizer_get_current_allocated_bytes();
        CHECK(r1 == first && r2 == first, "opening the same file again gives another result");
        CHECK(mayOpen || first == "error", "opening " << names[kind] << " succeeded");
        if (first == "error")
            g.nontrivial();
        CHECK_EQ(openFiles(), fds, "open files after a " << (which == 0 ? "FileReader" : "LazFileReader") << " (" << first << ", " << names[kind] << ")");
        CHECK(after <= before, after - before << " bytes are kept after two " << (which == 0 ? "FileReaders" : "LazFileReaders") << " ("
                                              << first << ", " << names[kind] << ")");
    }
    // writers
    if (kind == 3 || kind == 4)
    {
        auto wOpen = [&]() { copc::FileWriter w(target, copc::CopcConfigWriter(6)); };
        auto lOpen = [&]() { copc::laz::LazFileWriter w(target, copc::las::LazConfigWriter(6)); };
        outcome(wOpen);
        outcome(lOpen);
        const size_t before = __sanitizer_get_current_allocated_bytes();
        CHECK(outcome(wOpen) == "error", "a FileWriter opened " << names[kind]);
        CHECK(outcome(lOpen) == "error", "a LazFileWriter opened " << names[kind]);
        const size_t after = __sanitizer_get_current_allocated_bytes();
        CHECK(after <= before, after - before << " bytes are kept after writers could not be opened");
        CHECK_EQ(openFiles(), fds, "open files after writers could not be opened");
    }
    unlink(path.c_str());
}
// Opening, using and destroying keeps no memory
void noLeak(Gen &g)
{
    Plan p = plan(g);
    g.note(std::to_string(p.nodes.size()) + " nodes");
    if (!p.nodes.empty())
        g.nontrivial();
    const std::string path = tmpFile("c27l");
    const bool copc = g.flag();
    auto cycle = [&]()
    {
        if (copc)
        {
            {
                copc::FileWriter w(path, writerConfig(p.c));
                play(w, p);
            }
            copc::FileReader r(path);
            r.GetAllPoints();
            r.GetPageList();
            r.ValidateSpatialBounds();
        }
        else
        {
            {
                copc::laz::LazFileWriter w(path, lazConfig(p.c));
                play(w, p);
            }
            copc::laz::LazFileReader r(path);
            r.GetPoints();
        }
    };
    cycle();
    cycle();
    const size_t before = __sanitizer_get_current_allocated_bytes();
    cycle();
    cycle();
    const size_t after = __sanitizer_get_current_allocated_bytes();
    CHECK(after <= before, after - before << " bytes are kept by two cycles of writing and reading a " << (copc ? "COPC" : "LAZ") << " file");
    unlink(path.c_str());
}
} // namespace

pbt::Property pbt::property()
{
    return {"C27",
            "writers and readers with at least one node, or an open that failed",
            {{"writers", 4, writers}, {"unwound", 1, unwound}, {"readers", 3, readers}, {"failed open", 4, failedOpen}, {"no leak", 1, noLeak}},
            45000,
            400000};
}
