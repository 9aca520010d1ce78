// Choice-tape property-based testing engine (no external dependency).
//
// Every random decision of a generated case is one draw from a Gen. A case is therefore fully described by its list of
// draws (the "tape"): the replay file is the tape, and shrinking edits the tape (deletes / zeroes / lowers draws) and
// re-runs the property. Cases run in forked workers, so that a crash, a sanitizer report or a hang in the code under
// test is a result like any other and can be shrunk.
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt
{
struct PropFail
{
    std::string msg;
};
struct Discard
{
};

class Gen
{
  public:
    // A number in [0, n). 0 is the simplest choice (what shrinking aims for). n == 0 means the full 64-bit range.
    uint64_t below(uint64_t n);
    int64_t range(int64_t lo, int64_t hi) { return lo + static_cast<int64_t>(below(static_cast<uint64_t>(hi - lo) + 1)); }
    uint64_t bits(int n) { return n >= 64 ? below(0) : below(uint64_t(1) << n); }
    bool chance(unsigned num, unsigned den) { return below(den) >= den - num; }
    bool flag() { return below(2); }
    // Sizes biased towards small values but reaching max
    size_t size(size_t max);
    size_t weighted(std::initializer_list<unsigned> w);
    template <typename T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
    template <typename T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    // integers with boundary values over-represented
    uint64_t uintN(int nbits);
    int64_t intN(int nbits);
    // doubles
    double unit(); // [0,1)
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    double niceReal();      // finite, moderate magnitude, many shapes
    double finiteReal();    // any finite double
    double anyDouble();     // any bit pattern, NaN and infinities included
    std::string text(size_t maxLen, bool printable = true); // no NUL bytes
    std::vector<uint8_t> bytes(size_t n);

    // classification
    void label(const std::string &l) { labels.insert(l); }
    void nontrivial() { nontriv = true; }
    void note(const std::string &s)
    {
        if (notes.size() < 6000)
        {
            notes += s;
            if (noteBuf) // visible to the supervisor even if this process dies
            {
                size_t n = notes.size() < noteCap - 1 ? notes.size() : noteCap - 1;
                std::memcpy(noteBuf, notes.data(), n);
                noteBuf[n] = 0;
            }
        }
    }
    char *noteBuf = nullptr;
    size_t noteCap = 0;

    // --- engine side
    enum Source
    {
        RANDOM,
        TAPE,
        BYTES
    };
    Source src = RANDOM;
    uint64_t rng[4]{};
    const uint64_t *tape = nullptr;
    size_t tapeLen = 0, pos = 0;
    const uint8_t *data = nullptr;
    size_t dataLen = 0, dpos = 0;
    uint64_t *rec = nullptr; // shared memory recording
    size_t recCap = 0;
    volatile uint64_t *recLen = nullptr;
    std::set<std::string> labels;
    bool nontriv = false;
    std::string notes;
    void seed(uint64_t s);
    uint64_t next();
};

[[noreturn]] void fail(const std::string &msg);
[[noreturn]] inline void discard() { throw Discard{}; }

struct Sub
{
    std::string name;
    unsigned weight;
    std::function<void(Gen &)> fn;
};
struct Property
{
    std::string id;
    std::string rule; // what makes a case non-trivial
    std::vector<Sub> subs;
    // cases for the quick / thorough tiers
    uint64_t quick, thorough;
};
// Each property file defines this
extern Property property();

template <typename A> std::string show(const A &a)
{
    std::ostringstream ss;
    ss.precision(17);
    ss << a;
    return ss.str();
}
inline std::string show(uint8_t a) { return std::to_string(int(a)); }
inline std::string show(int8_t a) { return std::to_string(int(a)); }
inline std::string show(bool a) { return a ? "true" : "false"; }

#define CHECK(cond, msg)                                                                                               \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(cond))                                                                                                   \
        {                                                                                                              \
            std::ostringstream pbt_ss;                                                                                 \
            pbt_ss.precision(17);                                                                                      \
            pbt_ss << msg;                                                                                             \
            pbt::fail(pbt_ss.str() + "  [" #cond "]");                                                                 \
        }                                                                                                              \
    } while (0)
#define CHECK_EQ(a, b, msg)                                                                                            \
    do                                                                                                                 \
    {                                                                                                                  \
        const auto pbt_a = (a);                                                                                        \
        const auto pbt_b = (b);                                                                                        \
        if (!(pbt_a == pbt_b))                                                                                         \
        {                                                                                                              \
            std::ostringstream pbt_ss;                                                                                 \
            pbt_ss.precision(17);                                                                                      \
            pbt_ss << msg;                                                                                             \
            pbt::fail(pbt_ss.str() + ": got " + pbt::show(pbt_a) + ", expected " + pbt::show(pbt_b) + "  [" #a " == " #b "]"); \
        }                                                                                                              \
    } while (0)
// The expression must throw something derived from std::exception
#define CHECK_THROWS(expr, msg)                                                                                        \
    do                                                                                                                 \
    {                                                                                                                  \
        bool pbt_threw = false;                                                                                        \
        try                                                                                                            \
        {                                                                                                              \
            expr;                                                                                                      \
        }                                                                                                              \
        catch (const std::exception &)                                                                                 \
        {                                                                                                              \
            pbt_threw = true;                                                                                          \
        }                                                                                                              \
        CHECK(pbt_threw, msg << ": expected an exception from " #expr);                                                \
    } while (0)
} // namespace pbt
