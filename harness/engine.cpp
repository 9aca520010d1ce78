#include "engine.hpp"

#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <limits>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{
[[noreturn]] void fail(const std::string &msg) { throw PropFail{msg}; }

static uint64_t splitmix(uint64_t &x)
{
    uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}
void Gen::seed(uint64_t s)
{
    for (auto &r : rng)
        r = splitmix(s);
}
uint64_t Gen::next()
{
    auto rotl = [](uint64_t x, int k) { return (x << k) | (x >> (64 - k)); };
    uint64_t result = rotl(rng[1] * 5, 7) * 9, t = rng[1] << 17;
    rng[2] ^= rng[0];
    rng[3] ^= rng[1];
    rng[1] ^= rng[2];
    rng[0] ^= rng[3];
    rng[2] ^= t;
    rng[3] = rotl(rng[3], 45);
    return result;
}
uint64_t Gen::below(uint64_t n)
{
    uint64_t v = 0;
    if (src == RANDOM)
    {
        v = next();
        if (n)
            v = static_cast<uint64_t>((static_cast<unsigned __int128>(v) * n) >> 64);
    }
    else if (src == TAPE)
    {
        v = pos < tapeLen ? tape[pos] : 0;
        if (n && v >= n)
            v = n - 1;
    }
    else
    {
        int nb = n == 0 ? 8 : n <= 1 ? 0 : n <= 256 ? 1 : n <= 65536 ? 2 : n <= (uint64_t(1) << 32) ? 4 : 8;
        for (int i = 0; i < nb; i++)
            v |= uint64_t(dpos < dataLen ? data[dpos++] : 0) << (8 * i);
        if (n)
            v %= n;
    }
    pos++;
    if (rec)
    {
        if (*recLen >= recCap)
            throw Discard{};
        rec[*recLen] = v;
        *recLen = *recLen + 1;
    }
    return v;
}
size_t Gen::size(size_t max)
{
    if (max == 0)
        return 0;
    switch (below(8))
    {
    case 0:
    case 1:
    case 2:
        return below(std::min<size_t>(max, 3) + 1);
    case 3:
    case 4:
    case 5:
        return below(std::min<size_t>(max, 12) + 1);
    default:
        return below(max + 1);
    }
}
size_t Gen::weighted(std::initializer_list<unsigned> w)
{
    unsigned total = 0;
    for (auto x : w)
        total += x;
    uint64_t r = below(total);
    size_t i = 0;
    for (auto x : w)
    {
        if (r < x)
            return i;
        r -= x;
        i++;
    }
    return 0;
}
uint64_t Gen::uintN(int n)
{
    uint64_t mask = n >= 64 ? ~0ULL : (uint64_t(1) << n) - 1;
    switch (below(6))
    {
    case 0:
        return below(4) & mask;
    case 1:
        return mask - below(3);
    case 2:
        return (uint64_t(1) << below(n)) & mask;
    case 3:
        return ((uint64_t(1) << below(n)) - 1) & mask;
    default:
        return bits(n) & mask;
    }
}
int64_t Gen::intN(int n)
{
    uint64_t u = uintN(n);
    if (n < 64 && (u >> (n - 1)))
        u |= ~((uint64_t(1) << n) - 1);
    return static_cast<int64_t>(u);
}
double Gen::unit() { return static_cast<double>(below(uint64_t(1) << 53)) * (1.0 / 9007199254740992.0); }
double Gen::niceReal()
{
    switch (below(9))
    {
    case 0:
        return static_cast<double>(range(0, 20)) - (flag() ? 20 : 0);
    case 1:
        return static_cast<double>(range(-100000, 100000)) / 100.0;
    case 2:
        return real(-1, 1);
    case 3:
        return real(-1000, 1000);
    case 4:
        return real(-1e7, 1e7);
    case 5:
        return std::ldexp(1.0, static_cast<int>(range(-20, 30)));
    case 6:
        return -std::ldexp(1.0, static_cast<int>(range(-20, 30)));
    case 7:
        return static_cast<double>(range(-1000000, 1000000)) / 8.0;
    default:
        return real(-1e12, 1e12);
    }
}
double Gen::finiteReal()
{
    if (below(4) < 2)
        return niceReal();
    switch (below(6))
    {
    case 0:
        return std::numeric_limits<double>::max();
    case 1:
        return -std::numeric_limits<double>::max();
    case 2:
        return std::numeric_limits<double>::denorm_min();
    case 3:
        return -0.0;
    default: {
        uint64_t b = below(0);
        double d;
        std::memcpy(&d, &b, 8);
        return std::isfinite(d) ? d : 1.5;
    }
    }
}
double Gen::anyDouble()
{
    switch (below(8))
    {
    case 0:
        return std::numeric_limits<double>::quiet_NaN();
    case 1:
        return std::numeric_limits<double>::infinity();
    case 2:
        return -std::numeric_limits<double>::infinity();
    case 3: {
        uint64_t b = below(0);
        double d;
        std::memcpy(&d, &b, 8);
        return d;
    }
    default:
        return finiteReal();
    }
}
std::string Gen::text(size_t maxLen, bool printable)
{
    std::string s;
    size_t n = below(4) == 3 ? maxLen : size(maxLen);
    if (n > 200)
    {
        // long texts: one random block repeated with a counter
        std::string block = text(40, printable);
        if (block.empty())
            block = "x";
        int i = 0;
        while (s.size() < n)
            s += block + std::to_string(i++);
        s.resize(n);
        return s;
    }
    for (size_t i = 0; i < n; i++)
        s.push_back(static_cast<char>(printable ? 'A' + static_cast<char>(below(58)) % 58 : 1 + below(255)));
    return s;
}
std::vector<uint8_t> Gen::bytes(size_t n)
{
    std::vector<uint8_t> v(n);
    if (n > 24 && below(3))
    {
        uint64_t x = below(0);
        for (auto &b : v)
            b = static_cast<uint8_t>(splitmix(x));
        return v;
    }
    for (auto &b : v)
        b = static_cast<uint8_t>(below(256));
    return v;
}

// ------------------------------------------------------------------------------------------------ running
static Property P;
static void runOnce(Gen &g)
{
    unsigned total = 0;
    for (auto &s : P.subs)
        total += s.weight;
    uint64_t r = g.below(total);
    for (auto &s : P.subs)
    {
        if (r < s.weight)
        {
            g.label("sub:" + s.name);
            g.note("[" + s.name + "] ");
            s.fn(g);
            return;
        }
        r -= s.weight;
    }
}

enum Status : uint64_t
{
    RUNNING = 0,
    OK = 1,
    FAILED = 2,
    DISCARDED = 3,
};
struct Shm
{
    volatile uint64_t status;
    volatile uint64_t len;
    volatile uint64_t caseIdx;
    volatile uint64_t doneCases;
    char msg[4096];
    char notes[8192];
    uint64_t draws[1 << 18];
};
static Shm *newShm()
{
    void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED)
    {
        perror("mmap");
        exit(2);
    }
    return static_cast<Shm *>(p);
}
static double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
static const int CASE_TIMEOUT = 40; // processor time, so that a busy machine doesn't matter
// A case that uses too much processor time, or that doesn't come back at all
static void limitTime(int seconds)
{
    itimerval t{};
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
    alarm(static_cast<unsigned>(3 * seconds));
}

// Runs one case in this process; returns status, fills shm
static Status execCase(Gen &g, Shm *shm)
{
    shm->len = 0;
    shm->status = RUNNING;
    shm->msg[0] = shm->notes[0] = 0;
    g.rec = shm->draws;
    g.recCap = sizeof(shm->draws) / 8;
    g.recLen = &shm->len;
    g.pos = 0;
    g.dpos = 0;
    g.labels.clear();
    g.nontriv = false;
    g.notes.clear();
    g.noteBuf = shm->notes;
    g.noteCap = sizeof(shm->notes);
    Status st = OK;
    std::string msg;
    timespec t0;
    clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t0);
    try
    {
        runOnce(g);
    }
    catch (const PropFail &f)
    {
        st = FAILED;
        msg = f.msg;
    }
    catch (const Discard &)
    {
        st = DISCARDED;
    }
    catch (const std::exception &e)
    {
        st = FAILED;
        msg = std::string("unexpected exception: ") + e.what();
    }
    snprintf(shm->msg, sizeof shm->msg, "%s", msg.c_str());
    shm->status = st;
    static const char *slow = getenv("PBT_SLOW"); // a log of the slowest cases
    if (slow)
    {
        timespec t1;
        clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t1);
        const double used = double(t1.tv_sec - t0.tv_sec) + double(t1.tv_nsec - t0.tv_nsec) * 1e-9;
        if (used > 1)
            std::ofstream(slow, std::ios::app) << P.id << " " << used << " " << shm->notes << std::endl;
    }
    return st;
}

static void childSetup(const std::string &errFile)
{
    int dn = open("/dev/null", O_WRONLY);
    dup2(dn, 1);
    int ef = open(errFile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (ef >= 0)
        dup2(ef, 2);
}
static std::string summary(const std::string &errFile)
{
    std::ifstream f(errFile);
    std::string line, out, any;
    int n = 0;
    while (std::getline(f, line))
    {
        if (line.find("ERROR: ") != std::string::npos || line.find("runtime error") != std::string::npos ||
            line.find("SUMMARY") != std::string::npos || line.find("terminate called") != std::string::npos ||
            line.find("what():") != std::string::npos || line.find("/repo/") != std::string::npos)
            if (n++ < 8)
                out += line + "\n";
        if (any.size() < 400)
            any += line + "\n";
    }
    return out.empty() ? any : out;
}

struct Outcome
{
    bool failed = false;
    std::vector<uint64_t> draws;
    std::string msg, notes;
};
static std::string g_tmp;
// Cases (by seed) that ran earlier in the failing process: only when the failing tape alone does not fail
static std::vector<uint64_t> g_history;
static const int HISTORY_TIMEOUT = 150;
static Outcome runForked(const std::vector<uint64_t> &tape, Shm *shm, const uint8_t *data = nullptr, size_t dlen = 0)
{
    std::string err = g_tmp + "/err.replay";
    shm->len = 0;
    shm->status = RUNNING;
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        childSetup(err);
        limitTime(HISTORY_TIMEOUT);
        for (uint64_t h : g_history)
        {
            Gen g;
            g.seed(h);
            execCase(g, shm);
        }
        limitTime(CASE_TIMEOUT);
        Gen g;
        if (data)
        {
            g.src = Gen::BYTES;
            g.data = data;
            g.dataLen = dlen;
        }
        else
        {
            g.src = Gen::TAPE;
            g.tape = tape.data();
            g.tapeLen = tape.size();
        }
        execCase(g, shm);
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    Outcome o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && shm->status != RUNNING)
    {
        o.failed = shm->status == FAILED;
        o.msg = shm->msg;
        o.notes = shm->notes;
    }
    else
    {
        o.failed = true;
        if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGALRM || WTERMSIG(st) == SIGPROF))
            o.msg = "case did not finish within " + std::to_string(CASE_TIMEOUT) + " s";
        else if (WIFSIGNALED(st))
            o.msg = "killed by signal " + std::to_string(WTERMSIG(st)) + "\n" + summary(err);
        else
            o.msg = "process died (exit code " + std::to_string(WEXITSTATUS(st)) + ")\n" + summary(err);
        shm->notes[sizeof(shm->notes) - 1] = 0;
        o.notes = shm->notes;
    }
    o.draws.assign(shm->draws, shm->draws + std::min<uint64_t>(uint64_t(shm->len), sizeof(shm->draws) / 8));
    return o;
}

static bool better(const std::vector<uint64_t> &a, const std::vector<uint64_t> &b)
{
    if (a.size() != b.size())
        return a.size() < b.size();
    return a < b;
}

static Outcome shrink(Outcome best, Shm *shm, double budget)
{
    double end = now() + budget;
    bool slow = best.msg.find("did not finish") != std::string::npos;
    if (slow)
        return best;
    auto attempt = [&](const std::vector<uint64_t> &t)
    {
        if (now() > end)
            return false;
        Outcome o = runForked(t, shm);
        if (o.failed && o.msg.find("did not finish") == std::string::npos && better(o.draws, best.draws))
        {
            best = o;
            return true;
        }
        return false;
    };
    bool progress = true;
    while (progress && now() < end)
    {
        progress = false;
        for (size_t len = std::max<size_t>(1, best.draws.size() / 2); len >= 1 && now() < end; len /= 2)
        {
            for (size_t i = best.draws.size(); i-- > 0 && now() < end;)
            {
                if (i + len > best.draws.size())
                    continue;
                auto t = best.draws;
                t.erase(t.begin() + i, t.begin() + i + len);
                if (attempt(t))
                    progress = true;
                else if (len > 1 && i >= len)
                    i -= len / 2;
            }
        }
        for (size_t len : {8, 4, 1})
            for (size_t i = 0; i + len <= best.draws.size() && now() < end; i += len)
            {
                auto t = best.draws;
                bool any = false;
                for (size_t k = i; k < i + len; k++)
                {
                    any |= t[k] != 0;
                    t[k] = 0;
                }
                if (any && attempt(t))
                    progress = true;
            }
        for (size_t i = 0; i < best.draws.size() && now() < end; i++)
        {
            // binary descent
            uint64_t lo = 0;
            while (i < best.draws.size() && best.draws[i] > lo && now() < end)
            {
                auto t = best.draws;
                uint64_t mid = lo + (t[i] - lo) / 2;
                t[i] = mid;
                if (attempt(t))
                    progress = true;
                else
                    lo = mid + 1;
            }
        }
    }
    return best;
}

static std::string jstr(const std::string &s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += char(c);
        }
        else if (c == '\n')
            o += "\\n";
        else if (c < 32 || c > 126)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else
            o += char(c);
    }
    return o + "\"";
}

static void writeTape(const std::string &path, const Outcome &o)
{
    std::ofstream f(path);
    f << "# copc-lib property replay\n# property " << P.id << "\n";
    std::istringstream m(o.msg + "\n" + o.notes);
    std::string l;
    while (std::getline(m, l))
        f << "# " << l << "\n";
    for (auto h : g_history)
        f << "after " << h << "\n";
    f << "tape " << o.draws.size() << "\n";
    for (auto d : o.draws)
        f << d << "\n";
}
static std::vector<uint64_t> readTape(const std::string &path)
{
    std::ifstream f(path);
    std::string l;
    std::vector<uint64_t> t;
    bool in = false;
    while (std::getline(f, l))
    {
        if (l.rfind("tape", 0) == 0)
            in = true;
        else if (l.rfind("after ", 0) == 0)
            g_history.push_back(strtoull(l.c_str() + 6, nullptr, 10));
        else if (in && !l.empty())
            t.push_back(strtoull(l.c_str(), nullptr, 10));
    }
    return t;
}
static uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ULL)
{
    auto *b = static_cast<const unsigned char *>(p);
    for (size_t i = 0; i < n; i++)
        h = (h ^ b[i]) * 1099511628211ULL;
    return h;
}

struct Args
{
    uint64_t seed = 1, cases = 0;
    double budget = 60, shrinkBudget = 25;
    int workers = 8;
    std::string out, replayDir = ".", replay, fromBytes, tmp = "/tmp";
};

static int report(const Outcome &o, const Args &a)
{
    char name[64];
    snprintf(name, sizeof name, "%s-%016llx.tape", P.id.c_str(),
             (unsigned long long)fnv(o.draws.data(), o.draws.size() * 8));
    std::string path = a.replayDir + "/" + name;
    writeTape(path, o);
    printf("FAILURE %s\n%s\n%s\n", path.c_str(), o.msg.c_str(), o.notes.c_str());
    return 1;
}

// Leaves out what it can of the earlier cases a failure needs
static void shrinkHistory(const std::vector<uint64_t> &tape, Shm *shm, double budget)
{
    double end = now() + budget;
    for (size_t len = std::max<size_t>(1, g_history.size() / 2); now() < end; len /= 2)
    {
        for (size_t i = 0; i < g_history.size() && now() < end;)
        {
            auto keep = g_history;
            g_history.erase(g_history.begin() + i, g_history.begin() + std::min(i + len, g_history.size()));
            if (!runForked(tape, shm).failed)
            {
                g_history = keep;
                i += len;
            }
        }
        if (len <= 1)
            break;
    }
}

// earlier: the seeds of the cases that ran before it in the same process, oldest first
static int confirmShrinkReport(Outcome o, const Args &a, Shm *shm, const std::vector<uint64_t> &earlier = {})
{
    // A failure counts only if its tape reproduces it (at least twice in six re-runs: memory errors may depend on
    // the heap layout)
    auto tape = o.draws;
    int again = 0;
    for (int i = 0; i < 6 && again < 2; i++)
    {
        Outcome r = runForked(tape, shm);
        if (r.failed)
        {
            again++;
            o = r;
        }
    }
    // Not on its own: perhaps the code under test kept something from the cases before
    for (size_t n = 1; again < 2 && !earlier.empty(); n *= 8)
    {
        g_history.assign(earlier.end() - std::min(n, earlier.size()), earlier.end());
        again = 0;
        for (int i = 0; i < 2; i++)
        {
            Outcome r = runForked(tape, shm);
            if (!r.failed)
                break;
            again++;
            o = r;
        }
        if (n >= earlier.size())
            break;
    }
    if (again >= 2 && !g_history.empty())
    {
        tape = o.draws;
        shrinkHistory(tape, shm, 40);
        Outcome r = runForked(tape, shm);
        if (r.failed)
            o = r;
        o.msg += "\n(only after the earlier cases listed here, in one process)";
        return report(o, a);
    }
    if (again < 2)
    {
        g_history.clear();
        printf("FLAKY %s\n%s\n", o.msg.c_str(), o.notes.c_str());
        writeTape(a.replayDir + "/" + P.id + "-flaky.tape", o);
        return 3;
    }
    Outcome s = shrink(o, shm, a.shrinkBudget);
    for (int i = 0; i < 3; i++)
        if (!runForked(s.draws, shm).failed)
        {
            s = o;
            break;
        }
    return report(s, a);
}

int mainLoop(int argc, char **argv)
{
    P = property();
    Args a;
    for (int i = 1; i + 1 < argc; i += 2)
    {
        std::string k = argv[i], v = argv[i + 1];
        if (k == "--seed")
            a.seed = strtoull(v.c_str(), nullptr, 10);
        else if (k == "--cases")
            a.cases = v == "quick" ? P.quick : v == "thorough" ? P.thorough : strtoull(v.c_str(), nullptr, 10);
        else if (k == "--budget")
            a.budget = atof(v.c_str());
        else if (k == "--workers")
            a.workers = atoi(v.c_str());
        else if (k == "--out")
            a.out = v;
        else if (k == "--replay-dir")
            a.replayDir = v;
        else if (k == "--replay")
            a.replay = v;
        else if (k == "--from-bytes")
            a.fromBytes = v;
        else if (k == "--tmp")
            a.tmp = v;
    }
    g_tmp = a.tmp;
    Shm *shm = newShm();
    if (!a.replay.empty())
    {
        auto t = readTape(a.replay);
        Outcome o = runForked(t, shm);
        printf("%s\n%s\n%s\n", o.failed ? "FAILS" : "PASSES", o.msg.c_str(), o.notes.c_str());
        return o.failed ? 1 : 0;
    }
    if (!a.fromBytes.empty())
    {
        std::ifstream f(a.fromBytes, std::ios::binary);
        std::string d((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
        Outcome o = runForked({}, shm, reinterpret_cast<const uint8_t *>(d.data()), d.size());
        if (!o.failed)
        {
            printf("PASSES\n");
            return 0;
        }
        return confirmShrinkReport(o, a, shm);
    }

    double t0 = now();
    std::vector<pid_t> pids(a.workers);
    std::vector<Shm *> shms(a.workers);
    uint64_t base = fnv(P.id.data(), P.id.size(), a.seed * 0x9e3779b97f4a7c15ULL + 12345);
    auto caseSeed = [base](uint64_t i)
    {
        uint64_t x = base + i * 0xd1342543de82ef95ULL;
        return splitmix(x);
    };
    for (int w = 0; w < a.workers; w++)
    {
        shms[w] = newShm();
        fflush(nullptr);
        pids[w] = fork();
        if (pids[w] == 0)
        {
            std::string tag = std::to_string(w);
            childSetup(a.tmp + "/err." + tag);
            Shm *s = shms[w];
            std::map<std::string, uint64_t> labels;
            std::vector<uint64_t> hashes;
            std::vector<std::string> samples;
            uint64_t evals = 0, nontriv = 0, discarded = 0;
            auto dump = [&]
            {
                std::ofstream f(a.tmp + "/stats." + tag);
                f << evals << " " << nontriv << " " << discarded << "\n" << labels.size() << "\n";
                for (auto &l : labels)
                    f << l.second << " " << l.first << "\n";
                f << samples.size() << "\n";
                for (auto &m : samples)
                    f << jstr(m) << "\n";
                std::ofstream h(a.tmp + "/hashes." + tag, std::ios::binary);
                h.write(reinterpret_cast<char *>(hashes.data()), hashes.size() * 8);
            };
            for (uint64_t i = w; i < a.cases; i += a.workers)
            {
                if (now() - t0 > a.budget)
                    break;
                limitTime(CASE_TIMEOUT);
                Gen g;
                g.seed(caseSeed(i));
                s->caseIdx = i;
                Status st = execCase(g, s);
                if (st == FAILED)
                {
                    dump();
                    _exit(77);
                }
                evals++;
                if (st == DISCARDED)
                    discarded++;
                for (auto &l : g.labels)
                    labels[l]++;
                if (g.nontriv && st == OK)
                {
                    nontriv++;
                    hashes.push_back(fnv(s->draws, s->len * 8));
                    if (samples.size() < 4 && (nontriv & (nontriv - 1)) == 0)
                        samples.push_back(g.notes.substr(0, 400));
                }
            }
            limitTime(0);
            dump();
            _exit(0);
        }
    }
    Outcome failure;
    std::vector<uint64_t> earlier;
    int live = a.workers;
    while (live > 0)
    {
        int st = 0;
        pid_t p = wait(&st);
        if (p < 0)
            break;
        int w = int(std::find(pids.begin(), pids.end(), p) - pids.begin());
        if (w >= a.workers)
            continue;
        live--;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
            continue;
        if (failure.failed)
            continue;
        Shm *s = shms[w];
        failure.failed = true;
        failure.draws.assign(s->draws, s->draws + std::min<uint64_t>(uint64_t(s->len), sizeof(s->draws) / 8));
        failure.msg = s->status == FAILED ? std::string(s->msg) : "crash";
        failure.notes = s->notes;
        for (uint64_t i = w; i < s->caseIdx; i += a.workers)
            earlier.push_back(caseSeed(i));
        for (int k = 0; k < a.workers; k++)
            if (k != w)
                kill(pids[k], SIGKILL);
    }
    // merge statistics
    uint64_t evals = 0, nontriv = 0, discarded = 0;
    std::map<std::string, uint64_t> labels;
    std::set<uint64_t> hashes;
    std::vector<std::string> samples;
    for (int w = 0; w < a.workers; w++)
    {
        std::string tag = std::to_string(w);
        std::ifstream f(a.tmp + "/stats." + tag);
        uint64_t e = 0, n = 0, d = 0, k = 0;
        if (f >> e >> n >> d >> k)
        {
            evals += e;
            nontriv += n;
            discarded += d;
            for (uint64_t i = 0; i < k; i++)
            {
                uint64_t c;
                std::string l;
                f >> c;
                std::getline(f, l);
                labels[l.substr(1)] += c;
            }
            uint64_t m = 0;
            f >> m;
            std::string l;
            std::getline(f, l);
            for (uint64_t i = 0; i < m && std::getline(f, l); i++)
                if (samples.size() < 8)
                    samples.push_back(l);
        }
        std::ifstream h(a.tmp + "/hashes." + tag, std::ios::binary);
        uint64_t v;
        while (h.read(reinterpret_cast<char *>(&v), 8))
            hashes.insert(v);
    }
    if (!a.out.empty())
    {
        std::ofstream f(a.out);
        f << "{\"property\":" << jstr(P.id) << ",\"rule\":" << jstr(P.rule) << ",\"evaluations\":" << evals
          << ",\"requested\":" << a.cases << ",\"nontrivial\":" << nontriv << ",\"distinct\":" << hashes.size()
          << ",\"discarded\":" << discarded << ",\"labels\":{";
        bool first = true;
        for (auto &l : labels)
        {
            f << (first ? "" : ",") << jstr(l.first) << ":" << l.second;
            first = false;
        }
        f << "},\"samples\":[";
        for (size_t i = 0; i < samples.size(); i++)
            f << (i ? "," : "") << samples[i];
        f << "],\"search_s\":" << now() - t0 << "}\n";
    }
    if (failure.failed)
        return confirmShrinkReport(failure, a, shm, earlier);
    return 0;
}
} // namespace pbt

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerInitialize(int *, char ***)
{
    pbt::P = pbt::property();
    return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
    static pbt::Shm *shm = pbt::newShm();
    pbt::Gen g;
    g.src = pbt::Gen::BYTES;
    g.data = data;
    g.dataLen = size;
    if (pbt::execCase(g, shm) == pbt::FAILED)
    {
        fprintf(stderr, "PROPERTY FAILURE: %s\n%s\n", shm->msg, shm->notes);
        abort();
    }
    return 0;
}
#else
int main(int argc, char **argv) { return pbt::mainLoop(argc, argv); }
#endif
