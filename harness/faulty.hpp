// Output streams that record what reaches them, or stop accepting data at a chosen point
#pragma once
#include "gen.hpp"

#include <streambuf>

namespace faulty
{
// A seekable in-memory sink. Every write is logged; it refuses data once `limit` bytes have been accepted in total, or
// at the `failSeek`-th repositioning, or on sync.
class Sink : public std::streambuf
{
  public:
    struct Op
    {
        size_t pos;
        std::string data;
    };
    std::string bytes;
    std::vector<Op> ops;
    bool record{false};
    size_t pos{0};
    uint64_t accepted{0};
    uint64_t limit{~uint64_t(0)};
    uint64_t seeks{0}, failSeek{~uint64_t(0)};
    uint64_t tells{0}, failTell{~uint64_t(0)};
    bool failSync{false};
    bool throws{false};    // report failures by throwing (as a streambuf may)
    bool transient{false}; // refuse once, then accept again
    bool refused{false};   // something has been refused
    bool dirty{false};     // data have been written since the last sync

  protected:
    std::streamsize refuse(std::streamsize n)
    {
        refused = true;
        if (transient)
            limit = ~uint64_t(0);
        if (throws)
            throw std::runtime_error("sink refuses data");
        return n;
    }
    void put(const char *s, size_t n)
    {
        dirty = dirty || n;
        if (pos + n > bytes.size())
            bytes.resize(pos + n, 0);
        std::memcpy(&bytes[pos], s, n);
        if (record && n)
        {
            // single characters (the reserved space is written one by one) are merged into the run before them
            if (n == 1 && !ops.empty() && ops.back().pos + ops.back().data.size() == pos && merge)
                ops.back().data.append(s, n);
            else
                ops.push_back({pos, std::string(s, n)});
            merge = n == 1;
        }
        pos += n;
        accepted += n;
    }
    std::streamsize xsputn(const char *s, std::streamsize n) override
    {
        if (n <= 0)
            return 0;
        if (accepted + uint64_t(n) > limit)
        {
            size_t k = static_cast<size_t>(limit - accepted);
            put(s, k);
            return refuse(static_cast<std::streamsize>(k));
        }
        put(s, static_cast<size_t>(n));
        return n;
    }
    int_type overflow(int_type c) override
    {
        if (traits_type::eq_int_type(c, traits_type::eof()))
            return traits_type::not_eof(c);
        char ch = traits_type::to_char_type(c);
        return xsputn(&ch, 1) == 1 ? c : traits_type::eof();
    }
    pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override
    {
        size_t base = dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? pos : bytes.size();
        if (dir == std::ios_base::cur && off == 0) // a tell
        {
            if (tells++ == failTell)
            {
                refuse(0);
                return pos_type(off_type(-1));
            }
            return pos_type(static_cast<off_type>(pos));
        }
        return to(static_cast<off_type>(base) + off);
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode) override { return to(off_type(p)); }
    int sync() override
    {
        if (failSync)
        {
            refuse(0);
            return -1;
        }
        dirty = false;
        return 0;
    }

  private:
    bool merge{false};
    pos_type to(off_type p)
    {
        merge = false;
        if (seeks++ == failSeek)
        {
            refuse(0);
            return pos_type(off_type(-1));
        }
        if (p < 0)
            return pos_type(off_type(-1));
        pos = static_cast<size_t>(p);
        return pos_type(p);
    }
};
} // namespace faulty
