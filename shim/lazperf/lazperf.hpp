// Stand-in for laz-perf 3.x (see header.hpp)
#pragma once
#include <cstdint>
#include <functional>
#include <memory>
#include <vector>

namespace lazperf
{
typedef std::function<void(const unsigned char *, size_t)> OutputCb;
typedef std::function<void(unsigned char *, size_t)> InputCb;

struct las_compressor
{
    typedef std::shared_ptr<las_compressor> ptr;
    virtual const char *compress(const char *in) = 0;
    virtual void done() = 0;
    virtual ~las_compressor();
};
struct las_decompressor
{
    typedef std::shared_ptr<las_decompressor> ptr;
    virtual char *decompress(char *in) = 0;
    virtual ~las_decompressor();
};

las_compressor::ptr build_las_compressor(OutputCb, int format, int ebCount = 0);
las_decompressor::ptr build_las_decompressor(InputCb, int format, int ebCount = 0);

struct chunk
{
    uint64_t count;
    uint64_t offset;
};
void compress_chunk_table(OutputCb cb, const std::vector<chunk> &chunks, bool variable);
std::vector<chunk> decompress_chunk_table(InputCb cb, size_t numChunks, bool variable);
} // namespace lazperf
