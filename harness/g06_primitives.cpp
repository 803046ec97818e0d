// Planar primitives (points, segments, lines, corners, rotations, rounding) against long double geometry.
#include "hc.hpp"

#include "geometry/Point3LL.h"
#include "geometry/Point3Matrix.h"
#include "geometry/PointMatrix.h"
#include "settings/types/Angle.h"
#include "utils/Coord_t.h"
#include "utils/Matrix4x3D.h"
#include "utils/linearAlg2D.h"
#include "utils/math.h"
#include "utils/Point3D.h"

using namespace h;
using cura::LinearAlg2D;
using cura::Point2LL;
using cura::coord_t;

static P pt(Rng& g, i64 ext)
{
    const int k = int(g.in(0, 7));
    if (k == 0)
        return { g.in(-4, 4), g.in(-4, 4) };
    if (k == 1)
        return { g.in(-ext, ext), 0 };
    return { g.in(-ext, ext), g.in(-ext, ext) };
}

static void segments(Run& R, Rng& g)
{
    const i64 ext = g.logn(8, 300000);
    P a = pt(g, ext), b = pt(g, ext), q = pt(g, ext);
    if (g.p(0.1))
        b = a;
    if (g.p(0.1))
        b.y = a.y;
    if (g.p(0.1))
        b.x = a.x;
    if (g.p(0.15))
        q = g.p(0.5) ? a : b;
    if (g.p(0.15))
        q.y = g.p(0.5) ? a.y : b.y;
    if (g.p(0.1))
        q = { (a.x + b.x) / 2, (a.y + b.y) / 2 };
    const std::string info = fmt("a (%lld,%lld) b (%lld,%lld) p (%lld,%lld)", a.x, a.y, b.x, b.y, q.x, q.y);
    const ld l = dist(a, b), d = dist_seg(q, a, b);
    const ld dx = b.x - a.x, dy = b.y - a.y;
    const ld proj = l > 0 ? ((q.x - a.x) * dx + (q.y - a.y) * dy) / l : 0;
    {
        const short r = LinearAlg2D::pointLiesOnTheRightOfLine(c(q), c(a), c(b));
        const bool on = on_seg(q, a, b);
        bool ray = false;
        if ((a.y <= q.y) != (b.y <= q.y))
        {
            const int s = sgn(cross(a, b, q));
            ray = b.y > a.y ? s > 0 : s < 0;
        }
        if (on)
            R.check(r == 0 || (q == a && r == -1), "side:on", fmt("%d ", r) + info);
        else
            R.check(r == (ray ? 1 : -1), "side:ray", fmt("%d instead of %d ", r, ray ? 1 : -1) + info);
    }
    {
        const short r = LinearAlg2D::pointIsProjectedBeyondLine(c(q), c(a), c(b));
        const i128 dd = i128(q.x - a.x) * (b.x - a.x) + i128(q.y - a.y) * (b.y - a.y), l2 = i128(b.x - a.x) * (b.x - a.x) + i128(b.y - a.y) * (b.y - a.y);
        R.check(r == (dd < 0 ? -1 : dd > l2 ? 1 : 0), "projected-beyond", info);
    }
    {
        const P r = p(LinearAlg2D::getClosestOnLineSegment(c(q), c(a), c(b)));
        R.check(dist_seg(r, a, b) <= 1.5 && std::abs(dist(q, r) - d) <= 1.5, "closest-on-segment", fmt("(%lld,%lld) ", r.x, r.y) + info);
    }
    if (l >= 30)
    {
        const P r = p(LinearAlg2D::getClosestOnLine(c(q), c(a), c(b)));
        const ld tol = 3 + std::abs(proj) / l * 1.5;
        const ld ex = a.x + proj / l * dx, ey = a.y + proj / l * dy;
        R.check(std::hypot(r.x - ex, r.y - ey) <= tol, "closest-on-line", fmt("(%lld,%lld) ", r.x, r.y) + info);
        const ld dl = std::abs(ld(cross(a, b, q))) / l;
        R.check(std::abs(LinearAlg2D::getDistFromLine(c(q), c(a), c(b)) - dl) <= 1.01 + dl * 0.6 / l, "distance-from-line", info);
        R.check(std::abs(std::sqrt(ld(LinearAlg2D::getDist2FromLine(c(q), c(a), c(b)))) - dl) <= 1.01 + dl * 0.6 / l, "distance2-from-line", info);
    }
    R.check(sgn(LinearAlg2D::pointIsLeftOfLine(c(q), c(a), c(b))) == sgn(cross(a, b, q)), "left-of", info);
    {
        int16_t beyond = 7;
        const ld r = std::sqrt(ld(LinearAlg2D::getDist2FromLineSegment(c(a), c(q), c(b), &beyond)));
        const ld tol = l < 20 ? 3.6 + 0.6 * std::max<ld>(1, d / std::max<ld>(1, l)) : 3.6;
        if (l >= 1)
        {
            R.check(std::abs(r - d) <= tol, "distance-to-segment", fmt("%.2Lf instead of %.2Lf ", r, d) + info);
            if (l >= 20 && std::abs(proj) > 2.5 && std::abs(proj - l) > 2.5)
                R.check(beyond == (proj < 0 ? -1 : proj > l ? 1 : 0), "distance-to-segment:beyond", fmt("%d ", beyond) + info);
        }
        else
            R.check(std::abs(r - d) < 1e-6L, "distance-to-point", info);
    }
    // a point of the segment at a given distance
    if (l >= 50)
    {
        const i64 want = g.in(0, std::max<i64>(2, i64(d * 1.2) + i64(l * 1.2)));
        Point2LL res;
        const bool ok = LinearAlg2D::getPointOnLineWithDist(c(q), c(a), c(b), want, res);
        const std::string i2 = info + fmt(" distance %lld", want);
        // the foot of the perpendicular is known to a micron, hence the square of the distance to it to that much:
        const ld px = std::abs(ld(cross(a, b, q))) / l, slack = 3 * std::abs(proj) + 3 * px + 9 * ld(want) + 50 + 3 * std::abs(proj) * std::abs(proj) / l;
        if (ok)
        {
            R.check(dist_seg(p(res), a, b) <= 3.5, "at-distance:off", i2);
            const ld got = dist(p(res), q);
            R.check(std::abs(got * got - ld(want) * want) <= slack, "at-distance:distance", fmt("(%lld,%lld) at %.2Lf ", (i64)res.X, (i64)res.Y, got) + i2);
            R.stat("points at a distance");
        }
        else if (ld(want) * want > px * px + slack)
        {
            const ld s = std::sqrt(ld(want) * want - px * px), m = 8 + slack / std::max<ld>(1, s);
            for (ld t : { proj - s, proj + s })
                R.check(! (t > m && t < l - m), "at-distance:missed", i2);
        }
    }
}

static void pairs(Run& R, Rng& g)
{
    const i64 ext = g.logn(8, 300000);
    P a = pt(g, ext), b = pt(g, ext), s = pt(g, ext), e = pt(g, ext);
    if (g.p(0.1))
        e = { s.x + b.x - a.x, s.y + b.y - a.y };
    const std::string info = fmt("(%lld,%lld)-(%lld,%lld) and (%lld,%lld)-(%lld,%lld)", a.x, a.y, b.x, b.y, s.x, s.y, e.x, e.y);
    const ld l1 = dist(a, b), l2 = dist(s, e);
    const i128 den = i128(b.x - a.x) * (e.y - s.y) - i128(b.y - a.y) * (e.x - s.x);
    if (l1 > 0 && l2 > 0)
    {
        const ld sine = std::abs(ld(den)) / l1 / l2;
        float t = 0, u = 0;
        const bool ok = LinearAlg2D::lineLineIntersection(c(a), c(b), c(s), c(e), t, u);
        if (sine > 0.01)
        {
            const ld tt = (ld(s.x - a.x) * (e.y - s.y) - ld(s.y - a.y) * (e.x - s.x)) / ld(den), uu = (ld(s.x - a.x) * (b.y - a.y) - ld(s.y - a.y) * (b.x - a.x)) / ld(den);
            const ld tol = 1e-6 * (1 + dist(a, s) / l1 + std::abs(tt)) / sine, tolu = 1e-6 * (1 + dist(a, s) / l2 + std::abs(uu)) / sine;
            if (R.check(ok, "lines:no-crossing", info))
            {
                R.check(std::abs(t - tt) <= tol && std::abs(u - uu) <= tolu, "lines:parameters", fmt("%g %g instead of %Lg %Lg ", t, u, tt, uu) + info);
                Point2LL r;
                if (LinearAlg2D::lineLineIntersection(c(a), c(b), c(s), c(e), r))
                    R.check(std::hypot(r.X - (a.x + tt * (b.x - a.x)), r.Y - (a.y + tt * (b.y - a.y))) <= 2 + l1 * tol, "lines:point", info);
                else
                    R.check(std::max(std::abs(a.x + tt * (b.x - a.x)), std::abs(a.y + tt * (b.y - a.y))) > 1e9, "lines:point-missed", info);
                float t2, u2;
                const bool seg = LinearAlg2D::segmentSegmentIntersection(c(a), c(b), c(s), c(e), t2, u2);
                const ld m = std::min(std::min(tt, 1 - tt) / tol, std::min(uu, 1 - uu) / tolu);
                if (std::abs(m) > 1)
                    R.check(seg == (m > 0), "segments:crossing", info);
                R.stat("crossing segments", m > 0);
            }
        }
    }
    if (! segs_touch(a, b, s, e))
    {
        const auto r = LinearAlg2D::getClosestConnection(c(a), c(b), c(s), c(e));
        const ld best = seg_seg(a, b, s, e);
        R.check(dist_seg(p(r.first), a, b) <= 1.5 && dist_seg(p(r.second), s, e) <= 1.5, "connection:off", info);
        R.check(dist(p(r.first), p(r.second)) <= best + 2, "connection:not-shortest", fmt("%.2Lf instead of %.2Lf ", dist(p(r.first), p(r.second)), best) + info);
        if (l1 >= 20 && l2 >= 20)
        {
            R.check(std::abs(std::sqrt(ld(LinearAlg2D::getDist2BetweenLineSegments(c(a), c(b), c(s), c(e)))) - best) <= 3.5, "between-segments", info);
            const i64 m = g.in(0, i64(best * 2) + 1);
            if (std::abs(m - best) > 4)
                R.check(LinearAlg2D::lineSegmentsAreCloserThan(c(a), c(b), c(s), c(e), m) == (best < m), "closer-than", info + fmt(" %lld", m));
        }
    }
    { // a segment along the x axis against another one
        const P f{ std::min(a.x, b.x), a.y }, t{ std::max(a.x, b.x), a.y };
        const bool r = LinearAlg2D::lineSegmentsCollide(c(f), c(t), c(s), c(e));
        if (segs_touch(f, t, s, e))
        {
            // rounding of the crossing only matters at the ends
            const ld x = e.y == s.y ? 0 : s.x + ld(e.x - s.x) * (f.y - s.y) / (e.y - s.y);
            if (e.y == s.y || (x >= f.x + 1 && x <= t.x - 1))
                R.check(r, "collide:missed", info);
        }
        else if (seg_seg(f, t, s, e) > 2)
            R.check(! r, "collide:false", info);
    }
    { // horizontal lines
        const i64 y = g.p(0.2) ? a.y : g.p(0.2) ? b.y : pt(g, ext).y;
        const auto r = LinearAlg2D::lineHorizontalLineIntersection(c(a), c(b), y), r2 = LinearAlg2D::segmentHorizontalLineIntersection(c(a), c(b), y);
        R.check(r.has_value() == (a.y != b.y), "horizontal:exists", info);
        R.check(r2.has_value() == (a.y != b.y && y >= std::min(a.y, b.y) && y <= std::max(a.y, b.y)), "horizontal:segment-exists", info + fmt(" y %lld", y));
        if (r)
        {
            const ld x = a.x + ld(b.x - a.x) * (y - a.y) / (b.y - a.y);
            R.check(std::abs(*r - x) <= 0.51 + std::abs(x) * 1e-9 + 1e-9 * std::abs(ld(b.x - a.x)) * std::abs(ld(b.x - a.x)), "horizontal:place", fmt("%lld instead of %.2Lf y %lld ", (i64)*r, x, y) + info);
            R.check(! r2 || *r2 == *r, "horizontal:segment-place", info);
        }
    }
}

static ld norm(ld a)
{
    a = std::fmod(a, 2 * M_PIl);
    return a < 0 ? a + 2 * M_PIl : a;
}

static void corners(Run& R, Rng& g)
{
    const i64 ext = g.logn(30, 300000);
    const P b = pt(g, ext), a{ b.x + g.in(-ext, ext), b.y + g.in(-ext, ext) }, e{ b.x + g.in(-ext, ext), b.y + g.in(-ext, ext) }, q{ b.x + g.in(-ext, ext), b.y + g.in(-ext, ext) };
    const std::string info = fmt("corner (%lld,%lld) (%lld,%lld) (%lld,%lld) query (%lld,%lld)", a.x, a.y, b.x, b.y, e.x, e.y, q.x, q.y);
    const ld la = dist(a, b), le = dist(e, b), lq = dist(q, b);
    if (la < 1 || le < 1)
        return;
    auto ang = [&](P v) { return std::atan2(ld(v.y - b.y), ld(v.x - b.x)); };
    {
        const ld want = norm(ang(a) - ang(e));
        const double got = LinearAlg2D::getAngleLeft(c(a), c(b), c(e));
        const ld diff = std::abs(std::remainder(want - got, 2 * M_PIl));
        R.check(got >= 0 && got <= 2 * M_PIl + 1e-9 && diff <= 1e-6, "angle-left", fmt("%.9f instead of %.9Lf ", got, want) + info);
        R.check(sgn(LinearAlg2D::isAcuteCorner(c(a), c(b), c(e))) == sgn(i128(a.x - b.x) * (e.x - b.x) + i128(a.y - b.y) * (e.y - b.y)), "acute", info);
    }
    if (lq > 2 && la > 100 && le > 100)
    {
        const ld wq = norm(ang(q) - ang(e)), wa = norm(ang(a) - ang(e));
        if (wq > 0.1 && wq < 2 * M_PIl - 0.1 && std::abs(wq - wa) > 0.1 && wa > 0.1 && wa < 2 * M_PIl - 0.1)
            R.check(LinearAlg2D::isInsideCorner(c(a), c(b), c(e), c(q)) == (wq < wa), "inside-corner", info);
    }
    if (la > 20 && le > 20)
    {
        const i64 len = g.in(0, 100000);
        const Point2LL r = LinearAlg2D::getBisectorVector(c(b), c(a), c(e), len);
        const ld ex = ((a.x - b.x) / la + (e.x - b.x) / le) * len / 2, ey = ((a.y - b.y) / la + (e.y - b.y) / le) * len / 2;
        R.check(std::hypot(r.X - ex, r.Y - ey) <= 2.9 + len * 0.6 / std::min(la, le), "bisector", fmt("(%lld,%lld) instead of (%.1Lf,%.1Lf) length %lld ", (i64)r.X, (i64)r.Y, ex, ey, len) + info);
    }
    { // rotations
        const double w = g.u(-7, 7), wd = w * 180 / M_PI;
        const Point2LL r = LinearAlg2D::rotateAround(c(b), wd).apply(c(q));
        const ld x = b.x + (q.x - b.x) * std::cos(ld(w)) - (q.y - b.y) * std::sin(ld(w)), y = b.y + (q.x - b.x) * std::sin(ld(w)) + (q.y - b.y) * std::cos(ld(w));
        R.check(std::abs(r.X - x) <= 1 && std::abs(r.Y - y) <= 1, "rotate-around", fmt("(%lld,%lld) by %g ", (i64)r.X, (i64)r.Y, w) + info);
        const Point2LL r2 = cura::rotate(c(q), w);
        R.check(std::abs(r2.X - (q.x * std::cos(ld(w)) - q.y * std::sin(ld(w)))) <= 0.51 && std::abs(r2.Y - (q.x * std::sin(ld(w)) + q.y * std::cos(ld(w)))) <= 0.51, "rotate", info);
        const cura::PointMatrix m(wd);
        const Point2LL r3 = m.unapply(m.apply(c(q))), r4 = m.inverse().apply(m.apply(c(q)));
        R.check(std::abs(r3.X - q.x) <= 1 && std::abs(r3.Y - q.y) <= 1, "matrix:unapply", info);
        R.check(std::abs(r4.X - q.x) <= 1 && std::abs(r4.Y - q.y) <= 1, "matrix:inverse", info);
        R.check(std::abs(std::hypot(ld(m.apply(c(q)).X), ld(m.apply(c(q)).Y)) - std::hypot(ld(q.x), ld(q.y))) <= 1, "matrix:length", info);
        const double sc = g.u(0.1, 5);
        const Point2LL r5 = cura::PointMatrix::scale(sc).apply(c(q));
        R.check(std::abs(r5.X - q.x * sc) <= 0.51 && std::abs(r5.Y - q.y * sc) <= 0.51, "matrix:scale", info);
        if (q.x || q.y)
        { // the x axis goes to the direction of the vector, or the vector to the x axis
            const cura::PointMatrix dm(c(q));
            const Point2LL v = dm.apply(c(q));
            const ld lv = std::hypot(ld(q.x), ld(q.y));
            R.check(std::abs(v.Y) <= 1 && std::abs(v.X - lv) <= 1, "matrix:direction", info);
        }
    }
    { // vectors
        const i64 len = g.in(0, 200000);
        const Point2LL v = c(P{ a.x - b.x, a.y - b.y }), n = cura::normal(v, len);
        R.check(std::abs(cura::vSize(v) - la) <= 0.51 && std::abs(cura::vSizef(v) - la) <= 1 && std::abs(cura::vSizeMM(v) * 1000 - la) <= 1e-3, "size", info);
        R.check(std::hypot(n.X - v.X * len / la, n.Y - v.Y * len / la) <= 1.5 + len * 0.6 / la, "normal", info);
        const i64 lim = g.p(0.5) ? g.in(0, ext * 2) : i64(la) + g.in(-1, 1);
        R.check(cura::shorterThan(v, lim) == (la <= lim && lim >= 0), "shorter-than", info + fmt(" %lld", lim));
        const Point2LL w = c(P{ e.x - b.x, e.y - b.y });
        R.check(cura::dot(v, w) == v.X * w.X + v.Y * w.Y && cura::cross(v, w) == v.X * w.Y - v.Y * w.X, "dot-cross", info);
        R.check(cura::dot(cura::turn90CCW(v), v) == 0 && cura::cross(v, cura::turn90CCW(v)) > 0, "turn90", info);
        const double t = g.u(-0.5, 1.5);
        const Point2LL m = cura::lerp(c(a), c(b), t);
        R.check(std::abs(m.X - (a.x + t * (b.x - a.x))) <= 0.51 && std::abs(m.Y - (a.y + t * (b.y - a.y))) <= 0.51, "lerp", info);
        const ld ar = cura::angle_rad(v);
        R.check(std::abs(std::remainder(ar - std::atan2(ld(v.Y), ld(v.X)), 2 * M_PIl)) <= 1e-9, "angle", info);
        R.check(std::abs(std::remainder(ld(cura::angle_deg(v)) - std::atan2(ld(v.Y), ld(v.X)) * 180 / M_PIl, 360.0L)) <= 1e-6, "angle-degrees", info);
    }
}

static void numbers(Run& R, Rng& g)
{
    const i64 n = g.in(-1000, 1000) * (g.p(0.5) ? 1 : g.in(1, 100000)), d = (g.p(0.5) ? 1 : -1) * g.in(1, g.p(0.5) ? 9 : 100000);
    const std::string info = fmt("%lld / %lld", n, d);
    const ld q = ld(n) / d;
    R.check(cura::floor_divide_signed(n, d) == std::floor(q), "divide:floor", info);
    R.check(cura::ceil_divide_signed(n, d) == std::ceil(q) || q < 0, "divide:ceil", info);
    R.check(std::abs(cura::round_divide_signed(n, d) - q) <= 0.5L, "divide:round", info);
    if (n >= 0 && d > 0)
    {
        R.check(std::abs(ld(cura::round_divide(n, d)) - q) <= 0.5L, "divide:round-unsigned", info);
        R.check(ld(cura::round_up_divide(n, d)) == std::ceil(q), "divide:up", info);
    }
    const double mm = g.u(-500, 500);
    R.check(std::abs(MM2INT(mm) - mm * 1000) <= 0.5 + 1e-9 && std::abs(INT2MM(n) * 1000 - n) <= 1e-6, "units", fmt("%g", mm));
    const i64 x = g.in(-20, 20), y = g.in(-20, 20);
    R.check(cura::fuzzy_equal(cura::coord_t(x), cura::coord_t(y)) == (std::llabs(x - y) <= 5) && cura::fuzzy_not_equal(x, y) != cura::fuzzy_equal(cura::coord_t(x), cura::coord_t(y)), "fuzzy:equal", info);
    R.check(cura::fuzzy_is_greater(x, y) == (x - y > 5) && cura::fuzzy_is_lesser(x, y) == (y - x > 5), "fuzzy:order", info);
    const double lo = g.u(-100, 100), hi = lo + g.u(0.1, 100), v = g.u(-200, 200);
    R.check(std::abs(cura::inverse_lerp(lo, hi, v) - (v - lo) / (hi - lo)) <= 1e-9 && cura::inverse_lerp(lo, lo, v) == 0, "inverse-lerp", fmt("%g %g %g", lo, hi, v));
    // angles live on the circle
    const double p = g.u(-2000, 2000), s = g.u(-2000, 2000);
    const cura::AngleDegrees A(p), B(s);
    const cura::AngleRadians C(p), D(s);
    auto deg = [&](double got, double want, const char* key) { R.check(got >= 0 && got <= 360 && std::abs(std::remainder(got - want, 360.0)) <= 1e-6, key, fmt("%.9g %.9g: %.9g", p, s, got)); };
    auto rad = [&](double got, double want, const char* key) { R.check(got >= 0 && got <= 2 * M_PI && std::abs(std::remainder(got - want, 2 * M_PI)) <= 1e-6, key, fmt("%.9g %.9g: %.9g", p, s, got)); };
    deg(A, p, "degrees:wrap");
    deg(A + B, p + s, "degrees:add");
    deg(A - B, p - s, "degrees:subtract");
    rad(C, p, "radians:wrap");
    rad(C + D, p + s, "radians:add");
    rad(C - D, p - s, "radians:subtract");
    deg(cura::AngleDegrees(C), p * 180 / M_PI, "degrees:from-radians");
    rad(cura::AngleRadians(A), p * M_PI / 180, "radians:from-degrees");
    // points in space
    const cura::Point3LL u(g.in(-300000, 300000), g.in(-300000, 300000), g.in(-300000, 300000)), w(g.in(-300000, 300000), g.in(-300000, 300000), g.in(-300000, 300000));
    const ld len = std::sqrt(ld(u.x_) * u.x_ + ld(u.y_) * u.y_ + ld(u.z_) * u.z_);
    R.check(std::abs(u.vSize() - len) <= 0.51 && std::abs(u.vSizeMM() * 1000 - len) < 1e-3 && u.max() == std::max({ u.x_, u.y_, u.z_ }), "space:size", "");
    const i64 lim = g.p(0.5) ? i64(len) + g.in(-1, 1) : g.in(0, 600000);
    R.check(u.testLength(lim) == (len <= lim), "space:test-length", fmt("%lld", lim));
    R.check(u.dot(w) == u.x_ * w.x_ + u.y_ * w.y_ + u.z_ * w.z_ && (u - w) + w == u && -(-u) == u && u[0] == u.x_ && u[1] == u.y_ && u[2] == u.z_, "space:algebra", "");
    if (len > 100)
    {
        const i64 to = g.in(0, 100000);
        const auto z = u.resized(to);
        R.check(std::abs(z.x_ - u.x_ * to / len) <= 1.5 + to * 0.5 / len && std::abs(z.y_ - u.y_ * to / len) <= 1.5 + to * 0.5 / len && std::abs(z.z_ - u.z_ * to / len) <= 1.5 + to * 0.5 / len, "space:resized", "");
    }
    const double fx = g.u(0.2, 3), fy = g.u(0.2, 3), fz = g.u(0.2, 3);
    const auto M = cura::Matrix4x3D::scale(cura::Ratio(fx), cura::Ratio(fy), cura::Ratio(fz), w);
    const auto m = M.apply(u);
    R.check(std::abs(m.x_ - (w.x_ + (u.x_ - w.x_) * fx)) <= 1.01 && std::abs(m.y_ - (w.y_ + (u.y_ - w.y_) * fy)) <= 1.01 && std::abs(m.z_ - (w.z_ + (u.z_ - w.z_) * fz)) <= 1.01, "space:scale", "");
    // raft and brim slopes
    const i64 bw = g.in(0, 100000), bh = g.in(0, 20000), h0 = bh ? g.in(0, bh) : 0;
    const double mag = g.u(0.2, 8);
    const ld want = bw && bh ? bw * std::pow(1.0L - ld(h0) / bh, ld(mag)) : 0;
    R.check(std::abs(LinearAlg2D::getSlopedWidth(bw, bh, mag, h0) - want) <= 0.6, "sloped-width", fmt("%lld %lld %g %lld", bw, bh, mag, h0));
}

int main(int argc, char** argv)
{
    return run_main(
        argc,
        argv,
        [](Run& R, Rng& g)
        {
            const uint64_t id = g.next();
            for (int i = 0; i < 20; ++i)
            {
                segments(R, g);
                pairs(R, g);
                corners(R, g);
                numbers(R, g);
            }
            R.eval(id);
        });
}
