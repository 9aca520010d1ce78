// Stand-in for laz-perf 3.x (not installed in this sandbox). Only the interface RockRobotic/copc-lib uses, written
// from the LAS 1.4 / LAZ container layout. See /verif/DESIGN.md, "Stand-in for laz-perf".
#pragma once
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstring>
#include <fstream>
#include <iostream>
#include <limits>
#include <sstream>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace lazperf
{
struct error : public std::runtime_error
{
    error(const std::string &what) : std::runtime_error(what) {}
};

struct vector3
{
    vector3() : x(0), y(0), z(0) {}
    vector3(double xx, double yy, double zz) : x(xx), y(yy), z(zz) {}
    double x;
    double y;
    double z;
};

struct header12
{
    static const int Size = 227;
    char magic[4]{'L', 'A', 'S', 'F'};
    uint16_t file_source_id{0};
    uint16_t global_encoding{0};
    char guid[16]{};
    struct
    {
        uint8_t major{1};
        uint8_t minor{2};
    } version;
    char system_identifier[32]{};
    char generating_software[32]{};
    struct
    {
        uint16_t day{0};
        uint16_t year{0};
    } creation;
    uint16_t header_size{227};
    uint32_t point_offset{0};
    uint32_t vlr_count{0};
    uint8_t point_format_id{0};
    uint16_t point_record_length{0};
    uint32_t point_count{0};
    uint32_t points_by_return[5]{};
    vector3 scale{1, 1, 1};
    vector3 offset{};
    double maxx{0};
    double minx{0};
    double maxy{0};
    double miny{0};
    double maxz{0};
    double minz{0};

    virtual ~header12() = default;
    void read(std::istream &in);
    void write(std::ostream &out) const;
    bool compressed() const;
    int pointFormat() const;
    int ebCount() const;
    virtual int sizeFromVersion() const;
};

struct header13 : public header12
{
    static const int Size = 235;
    uint64_t wave_offset{0};
    void read(std::istream &in);
    void write(std::ostream &out) const;
};

struct header14 : public header13
{
    static const int Size = 375;
    uint64_t evlr_offset{0};
    uint32_t evlr_count{0};
    uint64_t point_count_14{0};
    uint64_t points_by_return_14[15]{};

    header14()
    {
        version.minor = 4;
        header_size = Size;
    }
    static header14 create(std::istream &in);
    void read(std::istream &in);
    void write(std::ostream &out) const;
};

int baseCount(int format);
} // namespace lazperf
