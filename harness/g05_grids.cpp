// Spatial indices against brute force: sparse point and line grids, cell walks, nearest queries.
#include "hc.hpp"

#include "utils/SparseLineGrid.h"
#include "utils/SparsePointGrid.h"
#include "utils/SparsePointGridInclusive.h"
#include "utils/SpatialLookup.h"
#include "utils/SquareGrid.h"

using namespace h;

struct Item
{
    cura::Point2LL point;
    int id = -1;
};
struct ItemLoc
{
    cura::Point2LL operator()(const Item& e) const
    {
        return e.point;
    }
};
struct Line
{
    P a{}, b{};
    int id = -1;
};
struct LineLoc
{
    std::pair<cura::Point2LL, cura::Point2LL> operator()(const Line& e) const
    {
        return { c(e.a), c(e.b) };
    }
};

static P rnd(Rng& g, i64 ext, i64 cell)
{
    auto one = [&]() -> i64
    {
        switch (g.in(0, 5))
        {
        case 0:
            return g.in(-3, 3) * cell + g.in(-1, 1);
        case 1:
            return g.in(-2, 2);
        case 2:
            return g.in(-cell, cell);
        default:
            return g.in(-ext, ext);
        }
    };
    return { one(), one() };
}

static ld dist_cell(const cura::SquareGrid&, i64 cell, cura::Point2LL gp, ld x, ld y)
{ // distance from a place to the area of a cell; the cells 0 reach to both sides of the axes
    const ld x0 = gp.X <= 0 ? (gp.X - 1) * cell + 0.0L : gp.X * cell, x1 = gp.X < 0 ? gp.X * cell : (gp.X + 1) * cell;
    const ld y0 = gp.Y <= 0 ? (gp.Y - 1) * cell + 0.0L : gp.Y * cell, y1 = gp.Y < 0 ? gp.Y * cell : (gp.Y + 1) * cell;
    const ld dx = std::max({ x0 - x, 0.0L, x - x1 }), dy = std::max({ y0 - y, 0.0L, y - y1 });
    return std::hypot(dx, dy);
}

static void cells(Run& R, Rng& g)
{
    const i64 cell = g.logn(3, 20000), ext = cell * g.in(1, 40);
    const cura::SquareGrid grid(cell);
    const P a = rnd(g, ext, cell), b = g.p(0.1) ? a : g.p(0.15) ? P{ a.x, rnd(g, ext, cell).y } : g.p(0.15) ? P{ rnd(g, ext, cell).x, a.y } : rnd(g, ext, cell);
    const std::string info = fmt("cell %lld (%lld,%lld)-(%lld,%lld)", cell, a.x, a.y, b.x, b.y);
    R.check(grid.getCellSize() == cell, "cells:size", info);
    std::vector<cura::Point2LL> seen;
    const bool done = grid.processLineCells(
        { c(a), c(b) },
        [&](cura::Point2LL q)
        {
            seen.push_back(q);
            return seen.size() < 100000;
        });
    R.check(done, "cells:unfinished", info);
    auto has = [&](cura::Point2LL q) { return std::find(seen.begin(), seen.end(), q) != seen.end(); };
    R.check(has(grid.toGridPoint(c(a))) && has(grid.toGridPoint(c(b))), "cells:ends-missed", info);
    for (size_t i = 0; i < seen.size(); ++i)
        for (size_t j = 0; j < i && seen.size() < 300; ++j)
            R.check(! (seen[i] == seen[j]), "cells:twice", info + fmt(" (%lld,%lld)", (i64)seen[i].X, (i64)seen[i].Y));
    for (int k = 0; k < 40; ++k)
    { // every place of the line lies in (or on the edge of) a visited cell
        const ld t = g.u(), x = a.x + t * (b.x - a.x), y = a.y + t * (b.y - a.y);
        ld best = 1e30L;
        for (auto& q : seen)
            best = std::min(best, dist_cell(grid, cell, q, x, y));
        R.check(best <= 1.01L, "cells:gap", info + fmt(" at (%.1Lf,%.1Lf) %.2Lf away", x, y, best));
    }
    for (auto& q : seen)
    { // and every visited cell is one the line's box reaches
        const ld x0 = std::min(a.x, b.x), x1 = std::max(a.x, b.x), y0 = std::min(a.y, b.y), y1 = std::max(a.y, b.y);
        const ld cx0 = (q.X <= 0 ? q.X - 1 : q.X) * ld(cell), cx1 = (q.X < 0 ? q.X : q.X + 1) * ld(cell), cy0 = (q.Y <= 0 ? q.Y - 1 : q.Y) * ld(cell), cy1 = (q.Y < 0 ? q.Y : q.Y + 1) * ld(cell);
        R.check(cx0 <= x1 + 1 && cx1 >= x0 - 1 && cy0 <= y1 + 1 && cy1 >= y0 - 1, "cells:stray", info + fmt(" (%lld,%lld)", (i64)q.X, (i64)q.Y));
    }
    // stopping early
    size_t stop = g.in(1, 5), n = 0;
    const bool r = grid.processLineCells({ c(a), c(b) }, [&](cura::Point2LL) { return ++n < stop; });
    R.check(n == std::min(stop, seen.size()) && r == (seen.size() < stop), "cells:stop", info);
    // around a point
    const i64 rad = g.in(0, 3 * cell);
    std::vector<cura::Point2LL> near;
    grid.processNearby(
        c(a),
        rad,
        [&](const cura::Point2LL& q)
        {
            near.push_back(q);
            return true;
        });
    for (int k = 0; k < 20; ++k)
    {
        const P q{ a.x + g.in(-rad, rad), a.y + g.in(-rad, rad) };
        R.check(std::count(near.begin(), near.end(), grid.toGridPoint(c(q))) == 1, "cells:around", info + fmt(" radius %lld", rad));
    }
    R.stat("cell walks");
    R.smax("cells on a line", seen.size());
}

static void point_grids(Run& R, Rng& g)
{
    const i64 cell = g.logn(3, 5000), ext = cell * g.in(1, 20);
    cura::SparsePointGrid<Item, ItemLoc> grid(cell, g.in(0, 20));
    cura::SparsePointGridInclusive<int> inc(cell);
    std::vector<P> pts;
    const int n = int(g.in(0, 120));
    for (int i = 0; i < n; ++i)
    {
        pts.push_back(i && g.p(0.1) ? g.pick(pts) : rnd(g, ext, cell));
        grid.insert({ c(pts.back()), i });
        inc.insert(c(pts.back()), i);
    }
    int count = 0;
    for (auto& e : grid)
        count += e.second.id >= 0;
    R.check(count == n, "points:count", fmt("%d of %d", count, n));
    for (int k = 0; k < 10; ++k)
    {
        const P q = n && g.p(0.3) ? g.pick(pts) : rnd(g, ext * 5 / 4, cell);
        const i64 rad = g.p(0.3) ? cell : g.in(1, 4 * cell);
        const std::string info = fmt("cell %lld query (%lld,%lld) radius %lld of ", cell, q.x, q.y, rad) + show(pts);
        std::vector<int> got(n, 0), got2(n, 0);
        for (auto& e : grid.getNearby(c(q), rad))
            got[e.id]++;
        for (int v : inc.getNearbyVals(c(q), rad))
            got2[v]++;
        bool any = false;
        ld best = 1e30L, best_odd = 1e30L;
        for (int i = 0; i < n; ++i)
        {
            const ld d = dist(q, pts[i]);
            any |= d <= rad;
            best = std::min(best, d);
            if (i & 1)
                best_odd = std::min(best_odd, d);
            R.check(got[i] == 1 || (got[i] == 0 && d > rad), "points:nearby", fmt("%d found %d times ", i, got[i]) + info);
            R.check(got2[i] == 1 || (got2[i] == 0 && d > rad), "points:nearby-values", fmt("%d found %d times ", i, got2[i]) + info);
            // cells that cannot reach the square around the query
            if (std::max(std::llabs(q.x - pts[i].x), std::llabs(q.y - pts[i].y)) > rad + 2 * cell)
                R.check(got[i] == 0, "points:far", info);
        }
        const Item* a = grid.getAnyNearby(c(q), rad);
        R.check((a != nullptr) == any && (! a || dist(q, p(a->point)) <= rad), "points:any", info);
        Item e;
        const bool f = grid.getNearest(c(q), rad, e);
        R.check(f == (best < rad) && (! f || dist(q, p(e.point)) == best), "points:nearest", info);
        Item o;
        const bool fo = grid.getNearest(c(q), rad, o, [](const Item& x) { return x.id & 1; });
        R.check(fo == (best_odd < rad) && (! fo || ((o.id & 1) && dist(q, p(o.point)) == best_odd)), "points:nearest-filtered", info);
        R.stat("point queries");
        R.stat("found", any);
    }
}

static void line_grids(Run& R, Rng& g)
{
    const i64 cell = g.logn(20, 5000), ext = cell * g.in(1, 12);
    cura::SparseLineGrid<Line, LineLoc> grid(cell, g.in(0, 20));
    std::vector<Line> ls;
    const int n = int(g.in(1, 40));
    for (int i = 0; i < n; ++i)
    {
        P a = rnd(g, ext, cell), b = g.p(0.5) ? P{ a.x + g.in(-cell, cell), a.y + g.in(-cell, cell) } : rnd(g, ext, cell);
        ls.push_back({ a, b, i });
        grid.insert(ls.back());
    }
    auto all = [&]()
    {
        std::string s;
        for (auto& l : ls)
            s += fmt("(%lld,%lld)-(%lld,%lld) ", l.a.x, l.a.y, l.b.x, l.b.y);
        return s;
    };
    for (int k = 0; k < 10; ++k)
    {
        const P q = rnd(g, ext, cell);
        const i64 rad = g.in(2, 3 * cell);
        std::set<int> got;
        for (auto& e : grid.getNearby(c(q), rad))
            got.insert(e.id);
        for (auto& l : ls)
            R.check(dist_seg(q, l.a, l.b) > rad - 2 || got.count(l.id), "lines:nearby", fmt("cell %lld query (%lld,%lld) radius %lld misses %d of ", cell, q.x, q.y, rad, l.id) + all());
        const P a = rnd(g, ext, cell), b = rnd(g, ext, cell);
        std::set<int> met;
        const bool done = grid.processLine(
            { c(a), c(b) },
            [&](const Line& l)
            {
                met.insert(l.id);
                return true;
            });
        R.check(done, "lines:unfinished", all());
        for (auto& l : ls)
            if (segs_cross(a, b, l.a, l.b))
            {
                // the crossing must be well inside a cell for both walks to have to pass through that one
                const ld den = ld(b.x - a.x) * (l.b.y - l.a.y) - ld(b.y - a.y) * (l.b.x - l.a.x);
                const ld t = (ld(l.a.x - a.x) * (l.b.y - l.a.y) - ld(l.a.y - a.y) * (l.b.x - l.a.x)) / den;
                const ld x = std::fabs(std::fmod(a.x + t * (b.x - a.x), ld(cell))), y = std::fabs(std::fmod(a.y + t * (b.y - a.y), ld(cell)));
                if (x < 2 || y < 2 || cell - x < 2 || cell - y < 2)
                    continue;
                R.stat("crossings");
                R.check(met.count(l.id), "lines:crossing", fmt("cell %lld line (%lld,%lld)-(%lld,%lld) misses %d of ", cell, a.x, a.y, b.x, b.y, l.id) + all());
            }
        R.stat("line queries");
    }
}

int main(int argc, char** argv)
{
    return run_main(
        argc,
        argv,
        [](Run& R, Rng& g)
        {
            const uint64_t id = g.next();
            cells(R, g);
            point_grids(R, g);
            line_grids(R, g);
            R.eval(id);
        });
}
