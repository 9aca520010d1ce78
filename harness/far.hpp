// Files of several GiB, of which only what matters is kept
#pragma once
#include "gen.hpp"

#include <streambuf>

namespace far
{
// A seekable buffer; of writes over 1 MiB only the ends are kept, the rest reads as zeros
class Sparse : public std::streambuf
{
  public:
    uint64_t size() const { return size_; }
    spec::Bytes at(uint64_t pos, size_t n) const
    {
        spec::Bytes b(n);
        for (size_t i = 0; i < n; i++)
        {
            auto it = blocks_.find((pos + i) >> 12);
            b[i] = it == blocks_.end() ? 0 : static_cast<uint8_t>(it->second[(pos + i) & 4095]);
        }
        return b;
    }
    uint64_t u64(uint64_t pos) const
    {
        auto b = at(pos, 8);
        uint64_t v;
        std::memcpy(&v, b.data(), 8);
        return v;
    }

  protected:
    void put(uint64_t pos, const char *s, size_t n)
    {
        while (n)
        {
            auto &blk = blocks_[pos >> 12];
            if (blk.empty())
                blk.resize(4096, 0);
            size_t k = std::min<size_t>(n, 4096 - (pos & 4095));
            std::memcpy(&blk[pos & 4095], s, k);
            pos += k, s += k, n -= k;
        }
    }
    std::streamsize xsputn(const char *s, std::streamsize n) override
    {
        if (n > (1 << 20))
        {
            put(pos_, s, 4096);
            put(pos_ + n - 4096, s + n - 4096, 4096);
        }
        else
            put(pos_, s, static_cast<size_t>(n));
        pos_ += static_cast<uint64_t>(n);
        size_ = std::max(size_, pos_);
        return n;
    }
    int_type overflow(int_type c) override
    {
        if (traits_type::eq_int_type(c, traits_type::eof()))
            return traits_type::not_eof(c);
        char ch = traits_type::to_char_type(c);
        xsputn(&ch, 1);
        return c;
    }
    std::streamsize xsgetn(char *s, std::streamsize n) override
    {
        if (pos_ >= size_)
            return 0;
        n = static_cast<std::streamsize>(std::min<uint64_t>(static_cast<uint64_t>(n), size_ - pos_));
        uint64_t pos = pos_;
        for (std::streamsize left = n; left > 0;)
        {
            size_t k = std::min<size_t>(static_cast<size_t>(left), 4096 - (pos & 4095));
            auto it = blocks_.find(pos >> 12);
            if (it == blocks_.end())
                std::memset(s, 0, k);
            else
                std::memcpy(s, &it->second[pos & 4095], k);
            pos += k, s += k, left -= static_cast<std::streamsize>(k);
        }
        pos_ = pos;
        return n;
    }
    int_type underflow() override
    {
        return pos_ < size_ ? traits_type::to_int_type(static_cast<char>(at(pos_, 1)[0])) : traits_type::eof();
    }
    int_type uflow() override
    {
        auto c = underflow();
        if (!traits_type::eq_int_type(c, traits_type::eof()))
            pos_++;
        return c;
    }
    pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override
    {
        uint64_t base = dir == std::ios_base::beg ? 0 : dir == std::ios_base::cur ? pos_ : size_;
        if (off < 0 && base < static_cast<uint64_t>(-off))
            return pos_type(off_type(-1));
        pos_ = base + static_cast<uint64_t>(off);
        return pos_type(static_cast<off_type>(pos_));
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }

  private:
    std::map<uint64_t, std::vector<char>> blocks_;
    uint64_t pos_{0}, size_{0};
};
class Stream : public std::iostream
{
  public:
    Sparse buf;
    Stream() : std::iostream(nullptr) { rdbuf(&buf); }
};

// The sizes of the large chunks of a file; together they pass 2 or 4 GiB
inline std::vector<size_t> sizes(pbt::Gen &g)
{
    std::vector<size_t> v;
    for (size_t n = 2 + g.below(4); n > 0; n--)
        v.push_back((size_t(1) << 30) + g.below(1000));
    return v;
}
} // namespace far
