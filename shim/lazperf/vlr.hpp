// Stand-in for laz-perf 3.x (see header.hpp)
#pragma once
#include <cstdint>
#include <array>
#include <fstream>
#include <istream>
#include <limits>
#include <ostream>
#include <string>
#include <vector>

namespace lazperf
{
struct vlr_header
{
    static const int Size = 54;
    uint16_t reserved;
    std::string user_id;
    uint16_t record_id;
    uint16_t data_length;
    std::string description;

    static vlr_header create(std::istream &in);
    void read(std::istream &in);
    void write(std::ostream &out) const;
};

struct evlr_header
{
    static const int Size = 60;
    uint16_t reserved;
    std::string user_id;
    uint16_t record_id;
    uint64_t data_length;
    std::string description;

    static evlr_header create(std::istream &in);
    void read(std::istream &in);
    void write(std::ostream &out) const;
};

struct vlr
{
    virtual ~vlr();
    virtual uint64_t size() const = 0;
    virtual vlr_header header() const = 0;
    virtual evlr_header eheader() const = 0;
};

struct laz_vlr : public vlr
{
    uint16_t compressor{0};
    uint16_t coder{0};
    uint8_t ver_major{0};
    uint8_t ver_minor{0};
    uint16_t revision{0};
    uint32_t options{0};
    uint32_t chunk_size{0};
    int64_t num_points{-1};
    int64_t num_bytes{-1};
    struct laz_item
    {
        uint16_t type;
        uint16_t size;
        uint16_t version;
    };
    std::vector<laz_item> items;

    laz_vlr();
    laz_vlr(int format, int ebCount, uint32_t chunksize);
    static laz_vlr create(std::istream &in);
    void read(std::istream &in);
    void write(std::ostream &out) const;
    bool valid() const;
    uint64_t size() const override;
    vlr_header header() const override;
    evlr_header eheader() const override;
};

struct wkt_vlr : public vlr
{
    std::string wkt;
    wkt_vlr();
    wkt_vlr(const std::string &s);
    static wkt_vlr create(std::istream &in, int byteSize);
    void read(std::istream &in, int byteSize);
    void write(std::ostream &out) const;
    uint64_t size() const override;
    vlr_header header() const override;
    evlr_header eheader() const override;
};

struct eb_vlr : public vlr
{
    struct ebfield
    {
        uint8_t reserved[2];
        uint8_t data_type;
        uint8_t options;
        std::string name;
        uint8_t unused[4];
        double no_data[3];
        double minval[3];
        double maxval[3];
        double scale[3];
        double offset[3];
        std::string description;
        ebfield();
    };
    std::vector<ebfield> items;

    eb_vlr();
    eb_vlr(int ebCount);
    void addField();
    void addField(const ebfield &f);
    static eb_vlr create(std::istream &in, int byteSize);
    void read(std::istream &in, int byteSize);
    void write(std::ostream &out) const;
    uint64_t size() const override;
    vlr_header header() const override;
    evlr_header eheader() const override;
};

struct copc_info_vlr : public vlr
{
    double center_x{0};
    double center_y{0};
    double center_z{0};
    double halfsize{0};
    double spacing{0};
    uint64_t root_hier_offset{0};
    uint64_t root_hier_size{0};
    double gpstime_minimum{0};
    double gpstime_maximum{0};
    uint64_t reserved[11]{};

    copc_info_vlr();
    static copc_info_vlr create(std::istream &in);
    void read(std::istream &in);
    void write(std::ostream &out) const;
    uint64_t size() const override;
    vlr_header header() const override;
    evlr_header eheader() const override;
};
} // namespace lazperf
