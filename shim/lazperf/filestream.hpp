// Stand-in for laz-perf 3.x (see header.hpp)
#pragma once
#include <istream>
#include <memory>
#include <ostream>

#include "lazperf.hpp"

namespace lazperf
{
struct OutFileStream
{
    OutFileStream(std::ostream &out);
    ~OutFileStream();
    void putBytes(const unsigned char *c, size_t len);
    OutputCb cb();

  private:
    struct Private;
    std::unique_ptr<Private> p_;
};
// Reads ahead in 1 MiB blocks, so it leaves the stream at an arbitrary position and possibly in an EOF state
struct InFileStream
{
    InFileStream(std::istream &in);
    ~InFileStream();
    void reset();
    void getBytes(unsigned char *c, size_t len);
    InputCb cb();

  private:
    struct Private;
    std::unique_ptr<Private> p_;
};
} // namespace lazperf
