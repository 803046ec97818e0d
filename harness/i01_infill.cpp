// Infill patterns: which lines there are, against the definition of each pattern, and that they stay in their area.
#include "Application.h"
#include "Slice.h"
#include "h.hpp"
#include "hc.hpp"
#include "infill.h"
#include "utils/ExtrusionLine.h"

using namespace h;
using cura::EFillMethod;
using cura::coord_t;
struct D
{
    ld x, y;
};
static constexpr ld PI = 3.14159265358979323846264338327950288L;

struct Rot
{
    ld c, s;
    explicit Rot(ld deg)
        : c(cosl(deg * PI / 180))
        , s(sinl(deg * PI / 180))
    {
    }
    D operator()(ld x, ld y) const
    {
        return { x * c - y * s, x * s + y * c };
    }
    D back(ld x, ld y) const
    {
        return { x * c + y * s, -x * s + y * c };
    }
};
struct Grid // the result's segments, for distance queries
{
    i64 cell;
    std::map<std::pair<i64, i64>, std::vector<std::pair<P, P>>> m;
    static i64 fdiv(i64 a, i64 b)
    {
        return a >= 0 ? a / b : -((-a + b - 1) / b);
    }
    void add(P a, P b)
    {
        const ld l = std::max<ld>(1, dist(a, b));
        std::set<std::pair<i64, i64>> cells;
        for (ld t = 0; t <= l + cell / 4; t += cell / 4)
        {
            const ld f = std::min<ld>(1, t / l);
            cells.insert({ fdiv(i64(a.x + f * (b.x - a.x)), cell), fdiv(i64(a.y + f * (b.y - a.y)), cell) });
        }
        for (auto& c : cells)
            m[c].push_back({ a, b });
    }
    ld dist_to(ld x, ld y, ld within) const // exact if less than `within`, which is at most half the cell size
    {
        ld d = 1e18L;
        const i64 X = fdiv(i64(std::floor(x)), cell), Y = fdiv(i64(std::floor(y)), cell);
        for (i64 i = -1; i <= 1; ++i)
            for (i64 j = -1; j <= 1; ++j)
            {
                auto it = m.find({ X + i, Y + j });
                if (it != m.end())
                    for (auto& s : it->second)
                        d = std::min(d, dist_seg(x, y, s.first, s.second));
            }
        (void)within;
        return d;
    }
};
struct Dir
{
    ld angle, shift, period;
};
struct Case
{
    EFillMethod pattern;
    const char* name;
};
static const std::vector<Case> patterns = {
    { EFillMethod::LINES, "lines" },
    { EFillMethod::GRID, "grid" },
    { EFillMethod::TRIANGLES, "triangles" },
    { EFillMethod::TRIHEXAGON, "trihexagon" },
    { EFillMethod::CUBIC, "cubic" },
    { EFillMethod::TETRAHEDRAL, "tetrahedral" },
    { EFillMethod::QUARTER_CUBIC, "quarter cubic" },
    { EFillMethod::ZIG_ZAG, "zigzag" },
    { EFillMethod::GYROID, "gyroid" },
    { EFillMethod::HONEYCOMB, "honeycomb" },
    { EFillMethod::OCTAGON, "octagon" },
};

static bool inside(const Paths& ps, ld x, ld y)
{
    return crossings(ps, i64(std::llround(x)), i64(std::llround(y))) & 1;
}

static void one(Run& R, Rng& g)
{
    cura::Application::getInstance().current_slice_ = std::make_shared<cura::Slice>(1);
    cura::Settings settings;
    const auto& pc = g.pick(patterns);
    const EFillMethod pattern = pc.pattern;
    const std::string name = pc.name;
    const double r = g.logn(3000, 45000);
    Paths area_in = g.p(0.25) ? Paths{ rotate(rect(-i64(r), -i64(r * g.u(0.1, 1)), i64(r), i64(r)), g.u(0, 6.3), g.in(-100000, 100000), g.in(-100000, 100000)) } : shape(g, r, int(g.in(1, 3)));
    if (g.p(0.5))
        for (auto& q : area_in)
            q = rotate(q, 0, 100000, g.in(-60000, 120000));
    const cura::Shape outer = shp(area_in).unionPolygons();
    if (outer.empty() || outer.area() < 1e6)
        return;
    const i64 w = g.in(200, 1000), ldist = std::max<i64>(w, i64(double(w) * g.logn(1, 12))), overlap = g.p(0.4) ? 0 : g.in(-50, 200);
    const bool zig = g.p(0.4);
    const double angle = g.p(0.3) ? double(g.in(-4, 12) * 45) : g.u(-400, 400);
    const i64 z = g.in(0, 300000), shift = g.p(0.6) ? 0 : g.in(-20000, 20000);
    const cura::Point2LL origin = g.p(0.6) ? cura::Point2LL(0, 0) : cura::Point2LL(g.in(-100000, 200000), g.in(-100000, 200000));
    const i64 max_dev = g.in(1, 30), max_res = g.in(10, 500);
    const bool skip_stitch = g.p(0.3), connected = g.p(0.5), endpieces = g.p(0.5), skip_some = g.p(0.3);
    const size_t skip_n = size_t(g.in(0, 5));
    const int mult = g.p(0.2) ? int(g.in(2, 5)) : 1;
    const i64 dist_used = ldist * mult;
    const std::string in = h::fmt(
        "%s, %s%d lines at %lld um of width %lld, resolution %lld deviation %lld, overlap %lld, angle %.3f, z %lld, shift %lld, origin %lld,%lld%s%s%s%s",
        name.c_str(),
        zig ? "connected, " : "",
        mult,
        (long long)dist_used,
        (long long)w,
        (long long)max_res,
        (long long)max_dev,
        (long long)overlap,
        angle,
        (long long)z,
        (long long)shift,
        (long long)origin.X,
        (long long)origin.Y,
        skip_stitch ? ", not stitched" : "",
        connected ? ", connected zigzags" : "",
        endpieces ? ", end pieces" : "",
        skip_some ? h::fmt(", skipping 1 in %zu", skip_n).c_str() : "");
    cura::Infill infill(pattern, zig, false, outer, w, dist_used, overlap, size_t(mult), cura::AngleDegrees(angle), z, shift, max_res, max_dev, size_t(0), 0, origin, skip_stitch, true, connected, endpieces, skip_some, skip_n, 0);
    std::vector<cura::VariableWidthLines> toolpaths;
    cura::Shape polygons;
    cura::OpenLinesSet lines;
    infill.generate(toolpaths, polygons, lines, settings, 5, cura::SectionType::INFILL);
    const std::string msg = in + " in " + show(paths(outer));

    // the area to be filled, as documented: overlap added, and half a line taken off where lines run along the contour
    cura::Shape target = outer.offset(overlap);
    const bool along = pattern == EFillMethod::ZIG_ZAG || zig || mult % 2 == 0;
    if (along)
        target = target.offset(-w / 2);
    const Paths T = paths(target);
    const ld tol = 6 + max_dev * (along ? 4 : 2);

    const bool stitched = mult > 1
        || pattern == EFillMethod::GYROID || pattern == EFillMethod::HONEYCOMB || pattern == EFillMethod::OCTAGON // these are always stitched
        || (! skip_stitch && (pattern == EFillMethod::ZIG_ZAG || zig)); // ends up to a line width apart are joined
    R.check(toolpaths.empty(), "walls", in + ": walls that nobody asked for");
    std::vector<std::pair<P, P>> segs;
    ld total = 0;
    for (const auto& l : lines)
    {
        R.check(l.size() >= 2, "line", in + ": a line of less than two points");
        for (size_t i = 1; i < l.size(); ++i)
            segs.push_back({ p(l[i - 1]), p(l[i]) });
    }
    for (const auto& l : polygons)
        for (size_t i = 0; i < l.size(); ++i)
            segs.push_back({ p(l[i]), p(l[(i + 1) % l.size()]) });
    Grid G{ std::max<i64>(400, w), {} };
    for (auto& s : segs)
    {
        G.add(s.first, s.second);
        total += dist(s.first, s.second);
    }
    // all lines are in the area
    for (auto& s : segs)
    {
        const ld l = dist(s.first, s.second);
        const int n = std::min(40, 2 + int(l / 500));
        for (int i = 0; i <= n; ++i)
        {
            const ld f = ld(i) / n, x = s.first.x + f * (s.second.x - s.first.x), y = s.first.y + f * (s.second.y - s.first.y);
            if (! inside(T, x, y) && dist_paths(x, y, T) > tol + (stitched ? w / 2 : 0))
            {
                R.check(false, "outside of the area", msg + h::fmt(": at %.0Lf,%.0Lf, %.0Lf um outside", x, y, dist_paths(x, y, T)));
                break;
            }
        }
    }
    R.stat("mm of infill", double(total) / 1000);
    R.eval(fp(T) ^ uint64_t(ldist) ^ (uint64_t(pattern) << 40), ! segs.empty());
    if (mult > 1)
    {
        R.stat("multiplied patterns");
        return;
    }
    std::vector<Dir> dirs;
    const auto origin_shift = [&](ld a) { return std::trunc(origin.X * cosl(a * PI / 180) - origin.Y * sinl(a * PI / 180)); };
    const auto dir = [&](ld a, ld s, ld period) { dirs.push_back({ a, s + shift + origin_shift(a), period }); };
    const ld d = ld(ldist), zs = std::trunc(z / sqrtl(2));
    const auto half_tetra = [&](ld zshift, ld a)
    {
        const ld period = 2 * d;
        ld s = fmodl(std::trunc((z + zshift * period * 2) / sqrtl(2)), period);
        s = std::min(s, period - s);
        s = std::min(s, d - std::floor(w / 2.0L));
        s = std::max(s, std::floor(w / 2.0L));
        dir(angle + a, s, period);
        dir(angle + a, -s, period);
    };
    switch (pattern)
    {
    case EFillMethod::LINES:
    case EFillMethod::ZIG_ZAG:
        dir(angle, 0, d);
        break;
    case EFillMethod::GRID:
        dir(angle, 0, d);
        dir(angle + 90, 0, d);
        break;
    case EFillMethod::TRIANGLES:
        for (int i = 0; i < 3; ++i)
            dir(angle + 60 * i, 0, d);
        break;
    case EFillMethod::TRIHEXAGON:
        dir(angle, 0, d);
        dir(angle + 60, 0, d);
        dir(angle + 120, std::floor(d / 2), d);
        break;
    case EFillMethod::CUBIC:
        for (int i = 0; i < 3; ++i)
            dir(angle + 120 * i, zs, d);
        break;
    case EFillMethod::TETRAHEDRAL:
        half_tetra(0, 0);
        half_tetra(0, 90);
        break;
    case EFillMethod::QUARTER_CUBIC:
        half_tetra(0, 0);
        half_tetra(0.5L, 90);
        break;
    default:
        break;
    }
    const auto near_contour = [&](ld x, ld y) { return dist_paths(x, y, T); };
    if (! dirs.empty())
    {
        const bool tied = along && pattern != EFillMethod::ZIG_ZAG; // the ends may have been bent
        const ld margin = tied ? std::max<ld>(ldist, 2 * w) : w / 2.0L + 60;
        // every scan line is there, over its whole length
        for (auto& q : dirs)
        {
            const Rot M(q.angle);
            ld lo = 1e18L, hi = -1e18L;
            std::vector<std::vector<D>> tp;
            for (auto& t : T)
            {
                tp.emplace_back();
                for (auto& v : t)
                {
                    tp.back().push_back(M(v.x, v.y));
                    lo = std::min(lo, tp.back().back().x);
                    hi = std::max(hi, tp.back().back().x);
                }
            }
            const ld first = q.shift + std::ceil((lo - q.shift) / q.period) * q.period;
            for (ld x = first; x <= hi; x += q.period)
            {
                std::vector<ld> ys;
                ld closest = 1e18L; // vertices next to the line make the crossing ambiguous
                for (auto& t : tp)
                    for (size_t i = 0; i < t.size(); ++i)
                    {
                        const D a = t[i], b = t[(i + 1) % t.size()];
                        if ((a.x < x) != (b.x < x))
                            ys.push_back(a.y + (x - a.x) / (b.x - a.x) * (b.y - a.y));
                    }
                (void)closest;
                std::sort(ys.begin(), ys.end());
                for (size_t i = 0; i + 1 < ys.size(); i += 2)
                {
                    const ld a = ys[i] + margin, b = ys[i + 1] - margin;
                    if (b - a < w)
                        continue;
                    for (ld f : { 0.0L, 0.5L, 1.0L, ld(g.u(0, 1)) })
                    {
                        const D at = M.back(x, a + f * (b - a));
                        if (near_contour(at.x, at.y) < 8 + max_dev)
                            continue; // runs along the contour
                        const ld e = G.dist_to(at.x, at.y, 0);
                        R.check(e <= 4 + max_dev + (tied ? w : 0), along ? "missing connected line" : "missing line", msg + h::fmt(": no line at %.0Lf,%.0Lf (nearest %.0Lf um away)", at.x, at.y, e));
                        R.stat("points of scan lines found");
                    }
                }
            }
        }
        // every line is a scan line, or runs along the contour
        for (auto& s : segs)
        {
            const ld l = dist(s.first, s.second);
            if (l < (tied ? 2 * ldist : stitched ? 2 * w : 40))
                continue;
            bool ok = false;
            for (auto& q : dirs)
            {
                const Rot M(q.angle);
                const ld x0 = M(s.first.x, s.first.y).x - q.shift, x1 = M(s.second.x, s.second.y).x - q.shift;
                const ld k = std::round(x0 / q.period) * q.period;
                const ld lim = 4 + 2 * max_dev + (tied ? w : 0); // bent ends tilt the line
                ok = ok || (std::abs(x0 - k) <= lim && std::abs(x1 - k) <= lim);
            }
            if (! ok && along)
            {
                ok = true;
                for (int i = 0; i <= 10 && ok; ++i)
                    ok = near_contour(s.first.x + i * ld(s.second.x - s.first.x) / 10, s.first.y + i * ld(s.second.y - s.first.y) / 10) <= 8 + 4 * max_dev + (tied ? w : 0);
            }
            R.check(ok, along ? "connected line of no pattern" : "line of no pattern", msg + h::fmt(": %lld,%lld to %lld,%lld", (long long)s.first.x, (long long)s.first.y, (long long)s.second.x, (long long)s.second.y));
            R.stat("lines judged");
        }
    }
    if (pattern == EFillMethod::ZIG_ZAG && ! endpieces && ldist >= 3 * w)
    { // which pieces of the contour are printed
        const Dir q = dirs[0];
        const Rot M(q.angle);
        // whether the connectors of the even or of the odd lines are printed depends on where the engine begins to count: all of an area alike
        std::string wrong[2], wkey[2];
        size_t judged[2] = { 0, 0 };
        const auto note = [&](bool bad, int parity, const char* key, const std::string& m)
        {
            ++judged[parity];
            if (bad && wkey[parity].empty())
            {
                wkey[parity] = key;
                wrong[parity] = m;
            }
        };
        for (auto& t : T)
        {
            struct X
            {
                ld s;
                i64 k;
            };
            std::vector<X> xs;
            std::vector<ld> at{ 0 };
            ld closest = 1e18L;
            for (size_t i = 0; i < t.size(); ++i)
            {
                const P a = t[i], b = t[(i + 1) % t.size()];
                const ld x0 = M(a.x, a.y).x - q.shift, x1 = M(b.x, b.y).x - q.shift, l = dist(a, b);
                closest = std::min(closest, std::abs(x0 - std::round(x0 / q.period) * q.period));
                const i64 k0 = i64(std::floor(x0 / q.period)), k1 = i64(std::floor(x1 / q.period));
                if (k0 < k1)
                    for (i64 k = k0 + 1; k <= k1; ++k)
                        xs.push_back({ at.back() + l * (k * q.period - x0) / (x1 - x0), k });
                else
                    for (i64 k = k0; k > k1; --k)
                        xs.push_back({ at.back() + l * (k * q.period - x0) / (x1 - x0), k });
                at.push_back(at.back() + l);
            }
            if (closest < 4 || xs.size() < 2)
                continue; // a vertex on a scan line
            // the parity of the numbers depends on where the engine begins to count: the numbers come from the shift reduced to one period
            const ld base = std::floor(q.shift / q.period);
            for (size_t i = 0; i < xs.size(); ++i)
            {
                const X &a = xs[i], &b = xs[(i + 1) % xs.size()];
                const ld len = i + 1 < xs.size() ? b.s - a.s : at.back() - a.s + b.s;
                if (len < 2 * w || a.k == b.k)
                    continue;
                // with the contour's own vertices all closer than a quarter to the line the connector is left out
                const i64 ka = a.k + i64(base), kb = b.k + i64(base);
                (void)kb;
                const bool even = ((ka % 2) + 2) % 2 == 0;
                ld m = a.s + len / 2;
                if (m >= at.back())
                    m -= at.back();
                size_t e = 0;
                while (e + 1 < t.size() && at[e + 1] < m)
                    ++e;
                const P u = t[e], v = t[(e + 1) % t.size()];
                const ld f = (m - at[e]) / std::max<ld>(1, dist(u, v)), px = u.x + f * (v.x - u.x), py = u.y + f * (v.y - u.y);
                const D rot = M(px, py);
                const ld off = rot.x - q.shift, line = std::abs(off - std::round(off / q.period) * q.period);
                if (line < w / 2.0L + 8 * max_dev + 20)
                    continue;
                Paths others;
                for (auto& o : T)
                    if (&o != &t)
                        others.push_back(o);
                if (! others.empty() && dist_paths(px, py, others) < 20 + 8 * max_dev)
                    continue;
                const ld dd = G.dist_to(px, py, 0);
                for (int par : { 0, 1 })
                {
                    if (even == (par == 0))
                    {
                        if (! (skip_some && skip_n > 0))
                            note(dd > 8 + 4 * max_dev, par, "missing zigzag connector", msg + h::fmt(": no line at %.0Lf,%.0Lf (from line %lld, nearest %.0Lf um away)", px, py, (long long)ka, dd));
                    }
                    else if (! skip_some)
                        note(dd <= 8 + 2 * max_dev, par, "zigzag connector on the wrong side", msg + h::fmt(": line at %.0Lf,%.0Lf (from line %lld)", px, py, (long long)ka));
                }
                R.stat("zigzag connectors judged");
            }
        }
        const int best = wkey[0].empty() || (! wkey[1].empty() && judged[0] > judged[1]) ? 0 : 1;
        R.check(wkey[best].empty(), wkey[best].empty() ? "zigzag" : wkey[best].c_str(), wrong[best]);
    }
    if (pattern == EFillMethod::GYROID)
    {
        i64 pitch = i64(double(ldist) * 2.41), steps = 4, step = pitch / steps;
        while (step > 500 && steps < 16)
        {
            steps *= 2;
            step = pitch / steps;
        }
        pitch = step * steps;
        const Rot M(angle);
        const ld k = 2 * PI / pitch, Z = k * z;
        const auto F = [&](ld x, ld y) { return sinl(x * k) * cosl(Z) + sinl(y * k) * cosl(x * k) + sinl(Z) * cosl(y * k); };
        // the lines are on the surface: between them the sign changes
        const ld tolg = 0.06L * pitch + 3 + 2 * max_dev;
        for (auto& s : segs)
        {
            const ld mx = (s.first.x + s.second.x) / 2.0L, my = (s.first.y + s.second.y) / 2.0L;
            if (near_contour(mx, my) < w + 8 + 4 * max_dev)
                continue;
            const D m = M(mx, my);
            bool neg = false, pos = false;
            for (int i = 0; i < 24; ++i)
            {
                const ld v = F(m.x + tolg * cosl(i * PI / 12), m.y + tolg * sinl(i * PI / 12));
                neg = neg || v <= 0;
                pos = pos || v >= 0;
            }
            R.check(neg && pos, "line off the gyroid", msg + h::fmt(": at %.0Lf,%.0Lf", mx, my));
            R.stat("gyroid lines judged");
        }
        if (target.empty())
            return;
        cura::AABB bb(target);
        for (int i = 0; i < 300; ++i)
        {
            const P q{ g.in(bb.min_.X, bb.max_.X), g.in(bb.min_.Y, bb.max_.Y) };
            const D m = M(q.x, q.y);
            const ld a = g.u(0, 6.3), dx = cosl(a), dy = sinl(a);
            ld lo = 0, hi = 0;
            while (hi < pitch && (F(m.x, m.y) < 0) == (F(m.x + dx * hi, m.y + dy * hi) < 0))
            {
                lo = hi;
                hi += pitch / 32.0L;
            }
            if (hi >= pitch)
                continue;
            for (int it = 0; it < 60; ++it)
            {
                const ld mid = (lo + hi) / 2;
                ((F(m.x, m.y) < 0) == (F(m.x + dx * mid, m.y + dy * mid) < 0) ? lo : hi) = mid;
            }
            const D at = M.back(m.x + dx * lo, m.y + dy * lo);
            if (! inside(T, at.x, at.y) || near_contour(at.x, at.y) < tolg + w)
                continue;
            ld e = 1e18L;
            for (auto& s : segs)
                e = std::min(e, dist_seg(at.x, at.y, s.first, s.second));
            R.check(e <= tolg * 2, "missing gyroid", msg + h::fmt(": no line at %.0Lf,%.0Lf (nearest %.0Lf um away, pitch %lld)", at.x, at.y, e, (long long)pitch));
            R.stat("points of gyroids found");
        }
    }
    if (pattern == EFillMethod::HONEYCOMB || pattern == EFillMethod::OCTAGON)
    {
        // expected columns of zigzag lines
        const ld circ = d / cosl(PI / 6);
        ld up, rx, ry, dx, width, dy;
        if (pattern == EFillMethod::OCTAGON)
        {
            const ld sl = cosl(PI / 8) * circ / 2;
            up = sl;
            rx = ry = sl / sqrtl(2);
            dx = sl / 2;
            width = 2 * sl + 2 * rx;
            dy = -(sl * 1.5L + ry);
        }
        else
        {
            rx = d - w;
            ry = rx * tanl(PI / 6);
            up = circ + circ * sinl(PI / 6) - ry;
            dx = w / 2.0L;
            width = 2 * d;
            dy = -(up * 1.5L + ry);
        }
        if (rx < 5)
            return; // no room for the pattern
        const ld height = 2 * (up + ry);
        const Rot M(angle);
        // distance in the plane of the pattern to the nearest line of the pattern
        const auto D2 = [&](D q)
        {
            ld best = 1e18L;
            const auto seg = [&](ld ax, ld ay, ld bx, ld by)
            {
                const ld l2 = (bx - ax) * (bx - ax) + (by - ay) * (by - ay);
                const ld f = std::clamp<ld>(((q.x - ax) * (bx - ax) + (q.y - ay) * (by - ay)) / l2, 0, 1);
                best = std::min(best, hypotl(q.x - ax - f * (bx - ax), q.y - ay - f * (by - ay)));
            };
            const ld c0 = std::floor(q.x / width), r0 = std::floor((q.y - dy) / height);
            for (ld c = c0 - 1; c <= c0 + 1; ++c)
                for (int side : { -1, 1 })
                    for (ld rr = r0 - 1; rr <= r0 + 1; ++rr)
                    {
                        const ld x = side * dx + c * width, y = dy + rr * height, s = side; // from the right: outwards first
                        seg(x, y, x, y + up);
                        seg(x, y + up, x + s * rx, y + up + ry);
                        seg(x + s * rx, y + up + ry, x + s * rx, y + 2 * up + ry);
                        seg(x + s * rx, y + 2 * up + ry, x, y + height);
                    }
            return best;
        };
        if (target.empty())
            return;
        cura::AABB bb(target);
        const ld far = std::max({ std::abs(ld(bb.min_.X)), std::abs(ld(bb.max_.X)), std::abs(ld(bb.min_.Y)), std::abs(ld(bb.max_.Y)) }) * 1.5L;
        const ld tolh = 4 + 2 * max_dev + 4 * (far / height + 2) + 2 * far / width; // lengths rounded to micrometres add up
        if (tolh > d / 6)
        {
            R.stat("patterns too fine to judge");
            return;
        }
        for (auto& s : segs)
        {
            for (ld f : { 0.25L, 0.5L, 0.75L })
            {
                const ld x = s.first.x + f * (s.second.x - s.first.x), y = s.first.y + f * (s.second.y - s.first.y);
                if (near_contour(x, y) < w + 8 + 4 * max_dev)
                    continue;
                const ld e = D2(M(x, y));
                R.check(e <= tolh, "line off the pattern", msg + h::fmt(": at %.0Lf,%.0Lf, %.1Lf um away", x, y, e));
                R.stat("polygonal lines judged");
            }
        }
        for (int i = 0; i < 200; ++i)
        { // a random point of the pattern
            const D m = M(g.in(bb.min_.X, bb.max_.X), g.in(bb.min_.Y, bb.max_.Y));
            const ld c = std::floor(m.x / width), rr = std::floor((m.y - dy) / height), side = g.p(0.5) ? 1 : -1, f = g.u(0, 1);
            const ld x = side * dx + c * width, y = dy + rr * height;
            D q;
            switch (g.in(0, 3))
            {
            case 0:
                q = { x, y + f * up };
                break;
            case 1:
                q = { x + side * f * rx, y + up + f * ry };
                break;
            case 2:
                q = { x + side * rx, y + up + ry + f * up };
                break;
            default:
                q = { x + side * (1 - f) * rx, y + 2 * up + ry + f * ry };
            }
            const D at = M.back(q.x, q.y);
            if (! inside(T, at.x, at.y) || near_contour(at.x, at.y) < 2 * w)
                continue;
            ld e = 1e18L;
            for (auto& s : segs)
                e = std::min(e, dist_seg(at.x, at.y, s.first, s.second));
            R.check(e <= tolh, "missing part of the pattern", msg + h::fmt(": no line at %.0Lf,%.0Lf (nearest %.0Lf um away)", at.x, at.y, e));
            R.stat("points of polygonal patterns found");
        }
    }
}

int main(int argc, char** argv)
{
    return run_main(argc, argv, one);
}
