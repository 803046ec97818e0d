// Conversions between the harness' geometry and the engine's.
#pragma once
#include "geometry/ClosedLinesSet.h"
#include "geometry/ClosedPolyline.h"
#include "geometry/MixedLinesSet.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Point2LL.h"
#include "geometry/Polygon.h"
#include "geometry/Shape.h"
#include "geometry/SingleShape.h"
#include "h.hpp"

namespace h
{
inline cura::Point2LL c(P p)
{
    return cura::Point2LL(p.x, p.y);
}
inline P p(const cura::Point2LL& q)
{
    return { q.X, q.Y };
}
inline ClipperLib::Path cpath(const Path& q)
{
    ClipperLib::Path r;
    for (auto& v : q)
        r.push_back(c(v));
    return r;
}
inline cura::Polygon poly(const Path& q, bool explicitly = false)
{
    return cura::Polygon(cpath(q), explicitly);
}
inline cura::OpenPolyline open(const Path& q)
{
    return cura::OpenPolyline(cpath(q));
}
inline cura::Shape shp(const Paths& q)
{
    cura::Shape s;
    for (auto& v : q)
        s.push_back(poly(v));
    return s;
}
template<class L>
inline Path path(const L& l)
{
    Path r;
    for (const auto& v : l.getPoints())
        r.push_back(p(v));
    return r;
}
template<class S>
inline Paths paths(const S& s)
{
    Paths r;
    for (const auto& l : s)
        r.push_back(path(l));
    return r;
}
} // namespace h
