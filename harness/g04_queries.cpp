// Queries about points and segments against areas: nearest point, moving to a side of a boundary, collision, adjacency, walking.
#include "hc.hpp"

#include "geometry/OpenPolyline.h"
#include "geometry/PointMatrix.h"
#include "utils/polygonUtils.h"

using namespace h;
using cura::PolygonUtils;

static bool inside(const Paths& ps, P q)
{
    return winding(ps, q.x, q.y) != 0;
}

static ld point_seg(P q, const Path& poly, size_t i)
{
    return dist_seg(q, poly[i], poly[(i + 1) % poly.size()]);
}

struct Case
{
    Paths ps;
    cura::Shape shape;
    i64 cell;
    std::unique_ptr<cura::LocToLineGrid> grid;
    double size;
};

static void nearest(Run& R, Rng& g, Case& C, const std::function<std::string(P)>& info)
{
    auto& ps = C.ps;
    for (int k = 0; k < 6; ++k)
    {
        const P q = random_point(g, ps, C.size * 0.6);
        const ld truth = dist_paths(q.x, q.y, ps);
        // penalties
        const bool pen = g.p(0.3);
        const P pc = random_point(g, ps, C.size * 0.3);
        const int pa = int(g.in(-3, 3)) * int(std::min(C.size * C.size / 20, 2e8));
        const std::function<int(cura::Point2LL)> penalty = [&](cura::Point2LL v) -> int { return (v.X < pc.x ? pa : 0) + (v.Y < pc.y ? pa / 2 : 0); };
        const auto& pf = pen ? penalty : PolygonUtils::no_penalty_function;
        const auto r = PolygonUtils::findClosest(c(q), C.shape, pf);
        R.stat("nearest");
        if (! R.check(r.isValid() && r.poly_idx_ < ps.size() && r.poly_ == &C.shape[r.poly_idx_] && r.point_idx_ < ps[r.poly_idx_].size(), "nearest:invalid", info(q)))
            continue;
        const P loc = p(r.location_);
        R.check(point_seg(loc, ps[r.poly_idx_], r.point_idx_) <= 1.6, "nearest:off-contour", info(q));
        if (! pen)
        {
            R.check(dist(q, loc) <= truth + 1.6, "nearest:not-nearest", fmt("%.2Lf instead of %.2Lf ", dist(q, loc), truth) + info(q));
            size_t j = g.next() % ps.size();
            const auto r1 = PolygonUtils::findClosest(c(q), C.shape[j]);
            R.check(r1.isValid() && dist(q, p(r1.location_)) <= dist_path(q.x, q.y, ps[j], true) + 1.6 && r1.point_idx_ < ps[j].size() && point_seg(p(r1.location_), ps[j], r1.point_idx_) <= 1.6, "nearest:one-polygon", info(q));
        }
        else
        { // no edge offers a better total
            const i128 got = i128(loc.x - q.x) * (loc.x - q.x) + i128(loc.y - q.y) * (loc.y - q.y) + penalty(c(loc));
            for (size_t a = 0; a < ps.size(); ++a)
                for (size_t b = 0; b < ps[a].size(); ++b)
                {
                    const P s = ps[a][b], e = ps[a][(b + 1) % ps[a].size()];
                    const ld dx = e.x - s.x, dy = e.y - s.y, l2 = dx * dx + dy * dy;
                    ld t = ((q.x - s.x) * dx + (q.y - s.y) * dy) / l2;
                    t = t < 0 ? 0 : t > 1 ? 1 : t;
                    const ld nx = s.x + t * dx, ny = s.y + t * dy;
                    if (std::abs(nx - pc.x) < 3 || std::abs(ny - pc.y) < 3)
                        continue;
                    const ld score = (nx - q.x) * (nx - q.x) + (ny - q.y) * (ny - q.y) + (nx < pc.x ? pa : 0) + (ny < pc.y ? pa / 2 : 0);
                    const ld slack = 4 * std::hypot(nx - q.x, ny - q.y) + 10;
                    R.check(ld(got) <= score + slack, "nearest:penalty", fmt("score %.0Lf, edge %zu/%zu has %.0Lf ", ld(got), a, b, score) + info(q));
                }
        }
        const auto v = PolygonUtils::findNearestVert(c(q), C.shape);
        ld bestv = 1e30L;
        for (auto& pl : ps)
            for (auto& w : pl)
                bestv = std::min(bestv, dist(w, q));
        R.check(v.poly_idx_ < ps.size() && v.point_idx_ < ps[v.poly_idx_].size() && dist(ps[v.poly_idx_][v.point_idx_], q) <= bestv + 1e-6, "nearest:vertex", info(q));
        {
            const size_t j = g.next() % ps.size();
            const auto w = PolygonUtils::findNearestVert(c(q), C.shape[j]);
            ld b1 = 1e30L;
            for (auto& x : ps[j])
                b1 = std::min(b1, dist(x, q));
            R.check(w < ps[j].size() && dist(ps[j][w], q) <= b1 + 1e-6, "nearest:vertex-one-polygon", info(q));
        }
        const auto cl = PolygonUtils::findClose(c(q), C.shape, *C.grid);
        if (cl)
        {
            R.stat("close found");
            const ld d = dist(q, p(cl->location_));
            R.check(cl->poly_idx_ < ps.size() && cl->poly_ == &C.shape[cl->poly_idx_] && point_seg(p(cl->location_), ps[cl->poly_idx_], cl->point_idx_) <= 1.6, "close:off-contour", info(q));
            R.check(d <= truth + 1.6 || truth > C.cell, "close:not-nearest", fmt("%.2Lf instead of %.2Lf cell %lld ", d, truth, C.cell) + info(q));
        }
        else
            R.check(truth > C.cell, "close:missed", fmt("%.2Lf cell %lld ", truth, C.cell) + info(q));
    }
    // along a whole polygon
    const Path from = star(g, int(g.in(3, 9)), C.size * g.u(0.3, 1.2), 0.5);
    const auto fp_ = poly(from);
    const auto pairs = PolygonUtils::findClose(fp_, C.shape, *C.grid);
    for (auto& [a, b] : pairs)
    {
        R.check(a.poly_ == &fp_ && a.point_idx_ < from.size() && point_seg(p(a.location_), from, a.point_idx_) <= 3, "close-along:source", info(p(a.location_)));
        R.check(b.point_idx_ < b.poly_->size() && point_seg(p(b.location_), path(*b.poly_), b.point_idx_) <= 1.6, "close-along:target", info(p(b.location_)));
        const ld t = dist_paths(a.location_.X, a.location_.Y, ps);
        R.check(t > C.cell || dist(p(a.location_), p(b.location_)) <= t + 1.6, "close-along:not-nearest", info(p(a.location_)));
    }
    for (size_t i = 0; i < from.size(); ++i)
        if (dist_paths(from[i].x, from[i].y, ps) <= C.cell)
        {
            bool found = false;
            for (auto& [a, b] : pairs)
                found |= a.point_idx_ == i && p(a.location_) == from[i];
            R.check(found, "close-along:missed", info(from[i]));
        }
}

// all places [distance] on the inner side of a boundary point that is (almost) the nearest one
static std::vector<std::pair<ld, ld>> targets(const Paths& ps, P q, ld distance, ld slack)
{
    std::vector<std::pair<ld, ld>> out;
    const ld best = dist_paths(q.x, q.y, ps);
    for (auto& pl : ps)
        for (size_t i = 0; i < pl.size(); ++i)
        {
            const P a = pl[i], b = pl[(i + 1) % pl.size()], z = pl[(i + pl.size() - 1) % pl.size()];
            const ld dx = b.x - a.x, dy = b.y - a.y, l = std::hypot(dx, dy);
            if (dist_seg(q, a, b) <= best + slack)
            {
                ld t = ((q.x - a.x) * dx + (q.y - a.y) * dy) / (l * l);
                if (t > -6 / l && t < 1 + 6 / l)
                    out.push_back({ a.x + t * dx - dy / l * distance, a.y + t * dy + dx / l * distance });
            }
            if (dist(q, a) <= best + slack + 4)
            {
                const ld zl = dist(z, a);
                const ld nx = -dy / l - (a.y - z.y) / zl, ny = dx / l + (a.x - z.x) / zl, nl = std::hypot(nx, ny);
                if (nl < 1e-3)
                    out.push_back({ 1e30L, 0 }); // undefined direction
                else
                    out.push_back({ a.x + nx / nl * distance, a.y + ny / nl * distance });
            }
        }
    return out;
}

static void moving(Run& R, Rng& g, Case& C, const std::function<std::string(P)>& info)
{
    auto& ps = C.ps;
    bool coarse = C.size > 1000; // on tiny features the rounding of the nearest point decides the direction
    for (auto& pl : ps)
        for (size_t i = 0; i < pl.size(); ++i)
            coarse &= dist(pl[i], pl[(i + 1) % pl.size()]) > 60;
    if (! coarse)
        return;
    for (int k = 0; k < 6; ++k)
    {
        const P q = random_point(g, ps, C.size * 0.4);
        const int d = g.p(0.15) ? 0 : int(g.logn(2, std::min<i64>(40000, std::max<i64>(3, i64(C.size / 3))))) * (g.p(0.4) ? -1 : 1);
        const i64 reach = g.p(0.4) ? i64(C.size * 10) : g.logn(5, i64(C.size));
        const ld truth = dist_paths(q.x, q.y, ps);
        const bool in = inside(ps, q), right = d == 0 ? false : (in == (d > 0));
        for (int variant = 0; variant < 4; ++variant)
        {
            cura::Point2LL f = c(q);
            bool moved_ok;
            const char* name;
            if (variant == 0)
            {
                name = "move-inside";
                const size_t r = d < 0 && g.p(0.5) ? size_t(int(PolygonUtils::moveOutside(C.shape, f, -d, reach * reach))) : PolygonUtils::moveInside(C.shape, f, d, reach * reach);
                moved_ok = r < ps.size();
                if (moved_ok)
                    R.check(dist_path(q.x, q.y, ps[r], true) <= truth + 2.5, "move-inside:index", info(q));
            }
            else if (variant == 1)
            {
                name = "move-inside2";
                const auto r = PolygonUtils::moveInside2(C.shape, f, d, reach * reach);
                moved_ok = r.isValid();
                if (moved_ok)
                    R.check(dist(q, p(r.location_)) <= truth + 1.6, "move-inside2:location", info(q));
            }
            else if (variant == 2)
            {
                name = "move-inside2-grid";
                const auto r = PolygonUtils::moveInside2(C.shape, f, d, reach * reach, &C.shape, C.grid.get());
                moved_ok = r.isValid();
            }
            else
            {
                name = "move-inside-one";
                if (ps.size() != 1)
                    continue;
                PolygonUtils::moveInside(C.shape[0], f, d, reach * reach);
                moved_ok = ! (p(f) == q) || truth < reach;
            }
            R.stat("moves");
            const P to = p(f);
            const std::string what = fmt("%s d=%d reach=%lld truth=%.2Lf in=%d to=(%lld,%lld) ", name, d, reach, truth, in, to.x, to.y) + info(q);
            if (std::abs(truth - reach) <= 3.5 || std::abs(truth - std::abs(d)) <= 3.5)
                continue;
            if (variant == 2 && truth > C.cell)
                continue; // the grid may answer with a farther contour
            if (truth > 3)
            {
                if (right && truth > std::abs(d) + 3)
                {
                    R.check(to == q && (moved_ok || variant == 3), std::string(name) + ":moved-needlessly", what);
                    continue;
                }
                if (! right && truth > reach + 3)
                {
                    R.check(to == q && ! moved_ok, std::string(name) + ":beyond-reach", what);
                    continue;
                }
                R.check(moved_ok, std::string(name) + ":gave-up", what);
            }
            if (to == q)
                continue;
            bool match = false;
            for (auto& [x, y] : targets(ps, q, d, 4))
                match |= x > 1e29L || std::hypot(x - to.x, y - to.y) <= 4 + std::abs(d) * 0.012L + (truth < 3 ? std::abs(d) * 3.0L : 0);
            R.check(match || false, std::string(name) + ":elsewhere", what);
        }
        // on the boundary point itself
        {
            const auto r = PolygonUtils::findClosest(c(q), C.shape);
            const P t = p(g.p(0.5) ? PolygonUtils::moveInside(r, d) : PolygonUtils::moveOutside(r, -d));
            bool match = false;
            for (auto& [x, y] : targets(ps, q, d, 4))
                match |= x > 1e29L || std::hypot(x - t.x, y - t.y) <= 4 + std::abs(d) * 0.012L + (truth < 3 ? std::abs(d) * 3.0L : 0);
            R.check(match, "move-from-boundary:elsewhere", fmt("d=%d to=(%lld,%lld) ", d, t.x, t.y) + info(q));
        }
        if (d)
        { // whatever is reported as done, is done
            cura::Point2LL f = c(q);
            const auto r = PolygonUtils::ensureInsideOrOutside(C.shape, f, d, reach * reach, &C.shape, C.grid.get());
            R.stat("ensured");
            if (r.isValid())
            {
                const P to = p(f);
                R.stat("ensured done");
                if (dist_paths(to.x, to.y, ps) > 3)
                {
                    const bool ok = inside(ps, to) == (d > 0);
                    if (! ok)
                        R.stat("ensured on the wrong side");
                    const bool own_ok = (winding(path(*r.poly_), to.x, to.y) != 0) == ((d > 0) == (area(path(*r.poly_)) > 0));
                    R.check(own_ok || ok, "ensure:wrong-side", fmt("d=%d to=(%lld,%lld) ", d, to.x, to.y) + info(q));
                }
            }
        }
    }
}

static void colliding(Run& R, Rng& g, Case& C, const std::function<std::string(P)>& info)
{
    auto& ps = C.ps;
    for (int k = 0; k < 10; ++k)
    {
        const P a = random_point(g, ps, C.size * 0.3);
        P b = g.p(0.3) ? P{ a.x + g.in(-i64(C.size) / 5, i64(C.size) / 5), a.y + g.in(-i64(C.size) / 5, i64(C.size) / 5) } : random_point(g, ps, C.size * 0.3);
        if (g.p(0.15))
            b.y = a.y;
        if (g.p(0.15))
            b.x = a.x;
        if (dist(a, b) < 2)
            continue;
        // does the segment properly cross, well away from the ends; does it stay clear
        bool crosses = false;
        ld clear = 1e30L;
        ld first = 1e30L; // crossing nearest to b
        P fs{}, fe{};
        for (auto& pl : ps)
            for (size_t i = 0; i < pl.size(); ++i)
            {
                const P s = pl[i], e = pl[(i + 1) % pl.size()];
                clear = std::min(clear, seg_seg(a, b, s, e));
                if (segs_cross(a, b, s, e))
                {
                    if (std::min(std::min(dist_seg(a, s, e), dist_seg(b, s, e)), std::min(dist_seg(s, a, b), dist_seg(e, a, b))) > 3)
                    {
                        crosses = true;
                        const ld c1 = ld(cross(a, b, s)), c2 = ld(cross(a, b, e)), t = c1 / (c1 - c2);
                        const ld x = s.x + t * (e.x - s.x), y = s.y + t * (e.y - s.y);
                        if (std::hypot(x - b.x, y - b.y) < first)
                        {
                            first = std::hypot(x - b.x, y - b.y);
                            fs = s;
                            fe = e;
                        }
                    }
                }
            }
        auto what = [&]() { return fmt("segment to (%lld,%lld) crosses=%d clear=%.2Lf ", b.x, b.y, crosses, clear) + info(a); };
        cura::PolygonsPointIndex hit;
        const bool by_grid = PolygonUtils::polygonCollidesWithLineSegment(c(a), c(b), *C.grid, &hit);
        const bool direct = PolygonUtils::polygonCollidesWithLineSegment(C.shape, c(a), c(b));
        cura::PointMatrix m(c(P{ b.x - a.x, b.y - a.y }));
        const bool by_matrix = PolygonUtils::polygonCollidesWithLineSegment(C.shape, m.apply(c(a)), m.apply(c(b)), m);
        bool any = false;
        for (auto& pl : C.shape)
            any |= PolygonUtils::polygonCollidesWithLineSegment(pl, c(a), c(b));
        R.stat("segments");
        if (crosses)
        {
            R.stat("segments crossing");
            R.check(by_grid, "collide:grid-missed", what());
            R.check(direct, "collide:missed", what());
            R.check(by_matrix && any, "collide:missed-in-frame", what());
        }
        if (clear > 3)
        {
            R.check(! by_grid, "collide:grid-invented", what());
            R.check(! direct && ! by_matrix && ! any, "collide:invented", what());
        }
        if (by_grid && hit.poly_idx_ < ps.size())
        {
            const P s = ps[hit.poly_idx_][hit.point_idx_], e = ps[hit.poly_idx_][(hit.point_idx_ + 1) % ps[hit.poly_idx_].size()];
            R.check(seg_seg(a, b, s, e) <= 3, "collide:wrong-edge", what());
        }
        const i64 within = g.p(0.5) ? i64(C.size * 10) : g.logn(10, i64(C.size));
        cura::Point2LL res;
        const bool found = PolygonUtils::lineSegmentPolygonsIntersection(c(a), c(b), C.shape, *C.grid, res, within);
        if (crosses && first < within - 3)
        {
            R.check(found, "intersection:missed", fmt("first %.2Lf within %lld ", first, within) + what());
            if (found)
                R.check(dist(p(res), b) <= first + 3 || dist_seg(p(res), fs, fe) <= 3, "intersection:not-first", fmt("first %.2Lf got %.2Lf ", first, dist(p(res), b)) + what());
        }
        if (found)
        {
            R.check(dist(p(res), b) <= within + 1 && dist_seg(p(res), a, b) <= 3 && dist_paths(res.X, res.Y, ps) <= 3, "intersection:wrong-place", fmt("(%lld,%lld) ", res.X, res.Y) + what());
        }
    }
}

static void pairs(Run& R, Rng& g, double size)
{
    const Path A = simple_polygon(g, size), B = simple_polygon(g, size * g.u(0.2, 1.5), std::llround(size * g.u(-2.5, 2.5)), std::llround(size * g.u(-1, 1)));
    const auto pa = poly(A), pb = poly(B);
    auto info = [&]() { return show(A) + " " + show(B); };
    ld gap = 1e30L;
    bool cross_ = false;
    ld vgapAB = 1e30L, vgapBA = 1e30L;
    for (size_t i = 0; i < A.size(); ++i)
    {
        vgapAB = std::min(vgapAB, dist_path(A[i].x, A[i].y, B, true));
        for (size_t j = 0; j < B.size(); ++j)
        {
            const P a = A[i], b = A[(i + 1) % A.size()], s = B[j], e = B[(j + 1) % B.size()];
            gap = std::min(gap, seg_seg(a, b, s, e));
            if (segs_cross(a, b, s, e) && std::min(std::min(dist_seg(a, s, e), dist_seg(b, s, e)), std::min(dist_seg(s, a, b), dist_seg(e, a, b))) > 4)
                cross_ = true;
        }
    }
    for (auto& v : B)
        vgapBA = std::min(vgapBA, dist_path(v.x, v.y, A, true));
    const bool nested = winding(B, A[0].x, A[0].y) || winding(A, B[0].x, B[0].y);
    R.stat("pairs of polygons");
    const bool hit = PolygonUtils::polygonsIntersect(pa, pb);
    if (cross_ || (gap > 3 && nested))
        R.check(hit, "polygons:overlap-missed", info());
    if (gap > 3 && ! nested)
        R.check(! hit, "polygons:overlap-invented", info());
    const i64 mg = std::max<i64>(3, g.p(0.5) ? i64(gap * g.u(0.3, 2)) : g.logn(5, i64(size)));
    const bool ab = PolygonUtils::polygonOutlinesAdjacent(pa, pb, mg), ba = PolygonUtils::polygonOutlinesAdjacent(pb, pa, mg);
    auto near = [&](ld v, bool got, const char* key)
    {
        if (v < mg - 2)
            R.check(got, std::string(key) + "-missed", fmt("gap %.2Lf limit %lld ", v, mg) + info());
        if (v > mg + 2)
            R.check(! got, std::string(key) + "-invented", fmt("gap %.2Lf limit %lld ", v, mg) + info());
    };
    near(vgapAB, ab, "adjacent:forward");
    near(vgapBA, ba, "adjacent:backward");
    std::vector<unsigned> idx;
    const auto far = poly(rect(i64(size * 100), 0, i64(size * 101), 100));
    PolygonUtils::findAdjacentPolygons(idx, pa, { &far, &pb }, mg);
    near(std::min(vgapAB, vgapBA), idx.size() == 1 && idx[0] == 1, "adjacent:list");
    // relative hamming distance of rectangles
    {
        auto rr = [&]() { i64 x = g.in(-1000, 1000), y = g.in(-1000, 1000); return rect(x, y, x + g.in(10, 1500), y + g.in(10, 1500)); };
        const Path r1 = rr(), r2 = g.p(0.2) ? r1 : rr();
        const ld ov = std::max<i64>(0, std::min(r1[2].x, r2[2].x) - std::max(r1[0].x, r2[0].x)) * std::max<i64>(0, std::min(r1[2].y, r2[2].y) - std::max(r1[0].y, r2[0].y));
        const ld want = (area(r1) + area(r2) - 2 * ov) / (area(r1) + area(r2));
        const double got = PolygonUtils::relativeHammingDistance(shp({ r1 }), shp({ r2 }));
        R.check(std::abs(got - double(want)) < 1e-6, "hamming", fmt("%.6f instead of %.6Lf ", got, want) + show(r1) + show(r2));
    }
}

static void walking(Run& R, Rng& g, Case& C, const std::function<std::string(P)>& info)
{
    auto& ps = C.ps;
    const size_t j = g.next() % ps.size();
    const Path& q = ps[j];
    const size_t n = q.size();
    {
        const size_t i = g.next() % n;
        const double t = g.p(0.3) ? 0 : g.u();
        const P s{ q[i].x + std::llround((q[(i + 1) % n].x - q[i].x) * t), q[i].y + std::llround((q[(i + 1) % n].y - q[i].y) * t) };
        const ld total = length(q, true);
        const i64 d = g.logn(1, std::max<i64>(2, i64(total * 1.5)));
        const auto r = PolygonUtils::walk(cura::ClosestPointPolygon(c(s), i, &C.shape[j], j), d);
        // where it should be
        ld left = d;
        P at = s;
        size_t k = (i + 1) % n, steps = 0, last = i;
        while (left > dist(at, q[k]))
        {
            left -= dist(at, q[k]);
            at = q[k];
            last = k;
            k = (k + 1) % n;
            ++steps;
        }
        const ld l = dist(at, q[k]), f = l == 0 ? 0 : left / l;
        const ld ex = at.x + (q[k].x - at.x) * f, ey = at.y + (q[k].y - at.y) * f;
        R.stat("walks");
        R.check(std::hypot(r.location_.X - ex, r.location_.Y - ey) <= 3 + ld(steps) && r.poly_ == &C.shape[j], "walk:place", fmt("from %zu+%.3f by %lld: (%lld,%lld) instead of (%.1Lf,%.1Lf) ", i, t, d, r.location_.X, r.location_.Y, ex, ey) + info(s));
        R.check(r.point_idx_ < n && point_seg(p(r.location_), q, r.point_idx_) <= 3 + ld(steps), "walk:edge", fmt("last %zu ", last) + info(s));
    }
    { // the next point of a line at some distance
        const size_t i = g.next() % n;
        Path o = q;
        const auto op = open(o);
        const i64 d = g.logn(300, std::max<i64>(400, i64(C.size)));
        cura::GivenDistPoint r;
        const bool ok = PolygonUtils::getNextPointWithDistance(c(q[i]), d, op, int(i), 0, r);
        bool close_call = false;
        for (auto& v : q)
            close_call |= std::abs(dist(v, q[i]) - d) < 6;
        if (close_call)
            ;
        else if (ok)
        {
            R.stat("points at a distance");
            R.check(std::abs(dist(p(r.location), q[i]) - d) <= 100 + 4, "given-distance:distance", fmt("%lld got %.2Lf ", d, dist(p(r.location), q[i])) + info(q[i]));
            R.check(r.pos >= int(i) && r.pos < int(n) && dist_seg(p(r.location), q[r.pos], q[(r.pos + 1) % n]) <= 15, "given-distance:edge", info(q[i]));
            for (int k = int(i) + 1; k <= r.pos && k < int(n); ++k)
                R.check(dist(q[k], q[i]) <= d + 110, "given-distance:not-first", fmt("%lld pos %d vertex %d at %.2Lf ", d, r.pos, k, dist(q[k], q[i])) + info(q[i]));
        }
        else
            for (size_t k = i + 1; k < n; ++k)
                R.check(dist(q[k], q[i]) <= d + 110, "given-distance:missed", fmt("%lld vertex %zu at %.2Lf ", d, k, dist(q[k], q[i])) + info(q[i]));
    }
    if (ps.size() > 1)
    { // shrinking a connection between two polygons never makes it longer
        const size_t k = (j + 1 + g.next() % (ps.size() - 1)) % ps.size();
        const P near = q[g.next() % n], near2 = ps[k][g.next() % ps[k].size()];
        auto a = PolygonUtils::findClosest(c(near2), C.shape[j]), b = PolygonUtils::findClosest(c(near), C.shape[k]);
        a.poly_idx_ = j;
        b.poly_idx_ = k;
        const ld before = dist(p(a.location_), p(b.location_));
        PolygonUtils::walkToNearestSmallestConnection(a, b);
        const ld after = dist(p(a.location_), p(b.location_));
        R.stat("connections");
        R.check(after <= before + 3, "connection:longer", fmt("%.2Lf to %.2Lf ", before, after) + info(near));
        R.check(a.poly_idx_ == j && b.poly_idx_ == k && a.poly_ == &C.shape[j] && b.poly_ == &C.shape[k], "connection:polygons", info(near));
        R.check(dist_path(a.location_.X, a.location_.Y, q, true) <= 1.6 && dist_path(b.location_.X, b.location_.Y, ps[k], true) <= 1.6, "connection:off-contour", info(near));
    }
}

static void areas(Run& R, Rng& g, Case& C, const std::function<std::string(P)>& info)
{
    auto& ps = C.ps;
    const cura::Shape joined = PolygonUtils::connect(C.shape);
    R.check(joined.size() <= ps.size(), "connect:count", info({}));
    const Paths jp = paths(joined);
    R.check(std::abs(area(jp) - area(ps)) <= 5 + 2e-4L * std::abs(area(ps)) + 4 * ld(ps.size()) * C.size, "connect:area", fmt("%.0Lf from %.0Lf ", area(jp), area(ps)) + info({}));
    cura::AABB box;
    {
        P a = random_point(g, ps, C.size * 0.2), b = random_point(g, ps, C.size * 0.2);
        box = cura::AABB(cura::Point2LL(std::min(a.x, b.x), std::min(a.y, b.y)), cura::Point2LL(std::max(a.x, b.x) + 1, std::max(a.y, b.y) + 1));
    }
    const Paths clipped = paths(PolygonUtils::clipPolygonWithAABB(C.shape, box));
    size_t pts = 0;
    for (auto& q : clipped)
        pts += q.size();
    size_t ptsin = 0;
    for (auto& q : ps)
        ptsin += q.size();
    R.check(pts <= ptsin, "clip:grew", info({}));
    const i64 w = 2 * g.logn(5, std::max<i64>(6, i64(C.size / 3)));
    const Paths thin = paths(PolygonUtils::getThinAreas(C.shape, w)), wide = paths(PolygonUtils::getWideAreas(C.shape, w));
    for (int k = 0; k < 25; ++k)
    {
        const P q = random_point(g, ps, C.size * 0.2);
        const ld d = dist_paths(q.x, q.y, ps);
        if (dist_paths(q.x, q.y, jp) > 3)
            R.check(inside(jp, q) == inside(ps, q) || d <= 3, "connect:membership", info(q));
        const P r{ g.in(box.min_.X, box.max_.X), g.in(box.min_.Y, box.max_.Y) };
        if (dist_paths(r.x, r.y, ps) > 2)
            R.check(winding(clipped, r.x, r.y) == winding(ps, r.x, r.y), "clip:membership", fmt("box (%lld,%lld)-(%lld,%lld) ", box.min_.X, box.min_.Y, box.max_.X, box.max_.Y) + info(r));
        if (d > 3 && dist_paths(q.x, q.y, thin) > 12 && dist_paths(q.x, q.y, wide) > 12)
        {
            const bool t = inside(thin, q), wd = inside(wide, q), in = inside(ps, q);
            R.check((t || wd) == in, "thin-wide:cover", fmt("width %lld ", w) + info(q));
            R.check(! (t && wd), "thin-wide:both", fmt("width %lld ", w) + info(q));
            if (in && d > w / 2 + 5 + w / 50)
                R.check(wd, "thin-wide:deep-is-thin", fmt("width %lld depth %.2Lf ", w, d) + info(q));
        }
    }
    // many small ones
    Paths small;
    const int n = int(g.in(1, 40));
    for (int i = 0; i < n; ++i)
    {
        Path q = star(g, int(g.in(3, 8)), C.size * g.u(0.05, 0.4), 0.3, g.in(-i64(C.size), i64(C.size)), g.in(-i64(C.size), i64(C.size)));
        ccw(q);
        if (simple(q))
            small.push_back(q);
    }
    const Paths un = paths(PolygonUtils::unionManySmall(shp(small)));
    for (int k = 0; k < 15 && ! small.empty(); ++k)
    {
        const P q = random_point(g, small, 10);
        if (dist_paths(q.x, q.y, small) > 3)
            R.check(inside(un, q) == inside(small, q), "union-many:membership", show(small));
    }
    // overlap of thin areas
    if (g.p(0.4))
    {
        cura::Shape dst = shp({ rect(0, 0, g.logn(200, 20000), g.logn(100, 20000)) }), src = dst.offset(g.logn(300, 3000)).difference(dst);
        const i64 md = g.logn(50, 4000);
        const Paths s0 = paths(src), d0 = paths(dst);
        PolygonUtils::mergeThinOverlap(md, src, dst, g.p(0.5));
        const Paths s1 = paths(src), d1 = paths(dst);
        for (int k = 0; k < 20; ++k)
        {
            const P q = random_point(g, s0, 10);
            if (std::min(dist_paths(q.x, q.y, s0), dist_paths(q.x, q.y, d0)) < 12 || std::min(dist_paths(q.x, q.y, s1), dist_paths(q.x, q.y, d1)) < 12)
                continue;
            R.check((inside(s0, q) || inside(d0, q)) == (inside(s1, q) || inside(d1, q)), "thin-overlap:lost", show(s0) + show(d0));
            R.check(! (inside(s1, q) && inside(d1, q)), "thin-overlap:both", show(s0) + show(d0));
            R.check(! (inside(s0, q) && ! inside(s1, q)), "thin-overlap:source-shrank", show(s0) + show(d0));
        }
    }
    // circles
    {
        const P m = random_point(g, ps, 1);
        const i64 r = g.logn(20, 100000);
        const size_t seg = size_t(g.in(3, 100));
        const Path disc = path(PolygonUtils::makeDisc(c(m), r, seg));
        bool ok = disc.size() == seg && area(disc) > 0;
        for (auto& v : disc)
            ok &= std::abs(dist(v, m) - r) <= 1;
        R.check(ok && (seg < 3 || std::abs(area(disc) - ld(seg) / 2 * r * r * std::sin(2 * M_PI / seg)) <= 4.0L * r * M_PI), "disc", fmt("r %lld seg %zu ", r, seg) + show(disc));
    }
}

static void one(Run& R, Rng& g)
{
    Case C;
    C.size = double(g.logn(100, 200000));
    C.ps = shape(g, C.size, int(g.in(1, 3)), 0.5);
    C.shape = shp(C.ps);
    C.cell = g.logn(std::max<i64>(5, i64(C.size / 60)), i64(C.size * 2));
    C.grid = PolygonUtils::createLocToLineGrid(C.shape, int(C.cell));
    auto info = [&](P q) { return fmt("point (%lld,%lld) cell %lld in ", q.x, q.y, C.cell) + show(C.ps); };
    R.eval(fp(C.ps));
    nearest(R, g, C, info);
    moving(R, g, C, info);
    colliding(R, g, C, info);
    pairs(R, g, C.size);
    walking(R, g, C, info);
    areas(R, g, C, info);
    if (R.cur < 1)
        R.sample(info({}));
}

int main(int argc, char** argv)
{
    return run_main(argc, argv, one);
}
