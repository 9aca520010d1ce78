// Stand-in for laz-perf 3.x (see header.hpp)
#pragma once
#include <istream>
#include <memory>
#include <string>

#include "filestream.hpp"
#include "header.hpp"
#include "lazperf.hpp"
#include "vlr.hpp"

namespace lazperf
{
namespace reader
{
class basic_file
{
  protected:
    basic_file();
    bool open(std::istream &in);

  public:
    virtual ~basic_file();
    uint64_t pointCount() const;
    const header14 &header() const;
    void readPoint(char *out);
    laz_vlr lazVlr() const;

  protected:
    struct Private;
    std::unique_ptr<Private> p_;
};
class generic_file : public basic_file
{
  public:
    generic_file(std::istream &in);
    ~generic_file();
};
} // namespace reader
} // namespace lazperf
