#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <functional>
#include <iostream>
#include <sstream>

#include "copc-lib/copc/copc_config.hpp"
#include "copc-lib/geometry/box.hpp"
#include "copc-lib/hierarchy/key.hpp"
#include "copc-lib/io/copc_reader.hpp"
#include "copc-lib/io/copc_writer.hpp"
#include "copc-lib/io/laz_reader.hpp"
#include "copc-lib/io/laz_writer.hpp"
#include "copc-lib/las/header.hpp"
#include "copc-lib/las/point.hpp"
#include "copc-lib/las/points.hpp"
#include "copc-lib/laz/compressor.hpp"
#include "copc-lib/laz/decompressor.hpp"

using namespace copc;

#define REQUIRE(c)                                                                                                     \
    do                                                                                                                 \
    {                                                                                                                  \
        if (!(c))                                                                                                      \
        {                                                                                                              \
            std::printf("FAILED line %d: %s\n", __LINE__, #c);                                                         \
            std::exit(1);                                                                                              \
        }                                                                                                              \
    } while (0)

inline bool throws(const std::function<void()> &f)
{
    try
    {
        f();
    }
    catch (const std::exception &)
    {
        return true;
    }
    return false;
}
template <class P> std::shared_ptr<las::Point> at(P &pts, double x, double y, double z)
{
    auto p = pts.CreatePoint();
    p->X(x), p->Y(y), p->Z(z);
    return p;
}
// n points near (x, y, z)
inline las::Points some(const las::LasHeader &h, int n, double x = 1, double y = 1, double z = 1)
{
    las::Points pts(h);
    for (int i = 0; i < n; i++)
        pts.AddPoint(at(pts, x + i * 0.01, y, z));
    return pts;
}
