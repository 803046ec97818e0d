// Stand-in for mapbox wagyu (not installable here): the only operation used is an even-odd union of
// integer rings, which Clipper provides too. Rings are returned closed, as wagyu does.
#ifndef VERIF_SHIM_WAGYU
#define VERIF_SHIM_WAGYU
#include <polyclipping/clipper.hpp>
#include <vector>
namespace mapbox::geometry
{
template<typename T>
struct point
{
    T x;
    T y;
};
template<typename T>
using linear_ring = std::vector<point<T>>;
template<typename T>
using polygon = std::vector<linear_ring<T>>;
template<typename T>
using multi_polygon = std::vector<polygon<T>>;
namespace wagyu
{
enum clip_type
{
    clip_type_union
};
enum fill_type
{
    fill_type_even_odd
};
template<typename T>
class wagyu
{
    ClipperLib::Clipper clipper_;

public:
    bool add_ring(const linear_ring<T>& r)
    {
        ClipperLib::Path p;
        for (const auto& q : r)
            p.emplace_back(q.x, q.y);
        return clipper_.AddPath(p, ClipperLib::ptSubject, true);
    }
    bool execute(clip_type, multi_polygon<T>& out, fill_type, fill_type)
    {
        ClipperLib::Paths res;
        clipper_.StrictlySimple(true);
        const bool ok = clipper_.Execute(ClipperLib::ctUnion, res, ClipperLib::pftEvenOdd, ClipperLib::pftEvenOdd);
        for (const auto& p : res)
        {
            polygon<T> poly(1);
            for (const auto& q : p)
                poly[0].push_back({ static_cast<T>(q.X), static_cast<T>(q.Y) });
            if (! poly[0].empty())
                poly[0].push_back(poly[0].front());
            out.push_back(poly);
        }
        return ok;
    }
};
} // namespace wagyu
} // namespace mapbox::geometry
#endif
