// Bridging helpers: transformed shapes, overlapping parts of segments seen from one side, wall segments that bridge.
#include "hc.hpp"

#include "PathAdapter.h"
#include "bridge/ExpansionRange.h"
#include "bridge/SegmentOverlapping.h"
#include "bridge/SegmentOverlappingType.h"
#include "bridge/TransformedSegment.h"
#include "bridge/TransformedShape.h"
#include "bridge/bridge.h"
#include "geometry/PointMatrix.h"
#include "settings/types/Ratio.h"
#include "utils/AABB.h"
#include "utils/ExtrusionLine.h"

using namespace h;
using T = cura::SegmentOverlappingType;

static void transformed(Run& R, Rng& g)
{
    const double deg = g.p(0.3) ? g.in(-4, 8) * 45.0 : g.u(-360, 720);
    const cura::PointMatrix m(deg);
    const ld rad = deg * std::numbers::pi_v<ld> / 180;
    const Paths ps = shape(g, g.u(500, 100000), int(g.in(1, 3)));
    cura::TransformedShape all(shp(ps), m), filtered(m);
    filtered.addShape(shp(ps), true);
    std::vector<std::array<ld, 4>> want;
    ld y0 = 1e18, y1 = -1e18;
    for (auto& q : ps)
        for (size_t i = 0; i < q.size(); ++i)
        {
            const P a = q[i], b = q[(i + 1) % q.size()];
            const auto ra = m.apply(c(a)), rb = m.apply(c(b));
            // rotation, one way or the other, keeps lengths
            R.check(std::abs(std::hypot(ld(ra.X), ld(ra.Y)) - std::hypot(ld(a.x), ld(a.y))) < 2, "shape:rotation-length", fmt("%g", deg));
            want.push_back({ ld(ra.X), ld(ra.Y), ld(rb.X), ld(rb.Y) });
            y0 = std::min<ld>({ y0, ld(ra.Y), ld(rb.Y) });
            y1 = std::max<ld>({ y1, ld(ra.Y), ld(rb.Y) });
        }
    (void)rad;
    R.check(all.getSegments().size() == want.size(), "shape:count", show(ps));
    size_t kept = 0;
    for (size_t i = 0; i < want.size() && i < all.getSegments().size(); ++i)
    {
        const auto& s = all.getSegments()[i];
        R.check(s.getStart().X == want[i][0] && s.getStart().Y == want[i][1] && s.getEnd().X == want[i][2] && s.getEnd().Y == want[i][3], "shape:segment", show(ps));
        R.check(s.minY() == std::min(want[i][1], want[i][3]) && s.maxY() == std::max(want[i][1], want[i][3]), "shape:segment-range", "");
        if (std::abs(want[i][1] - want[i][3]) > 5)
        {
            R.check(kept < filtered.getSegments().size() && filtered.getSegments()[kept].getStart() == s.getStart() && filtered.getSegments()[kept].getEnd() == s.getEnd(), "shape:filter", show(ps));
            ++kept;
        }
    }
    R.check(kept == filtered.getSegments().size(), "shape:filter-count", show(ps));
    if (! want.empty())
        R.check(all.minY() == y0 && all.maxY() == y1, "shape:range", show(ps));
}

static ld x_at(const cura::Point2LL& a, const cura::Point2LL& b, ld y)
{
    return a.X + ld(b.X - a.X) * (y - a.Y) / ld(b.Y - a.Y);
}

static void overlapping(Run& R, Rng& g)
{
    const i64 e = g.logn(200, 200000);
    auto seg = [&](bool up)
    {
        cura::Point2LL a, b;
        do
            a = { g.in(-e, e), g.in(-e, e) }, b = { g.in(-e, e), g.in(-e, e) };
        while (std::abs(a.Y - b.Y) < 20 || std::abs(a.X - b.X) > 30 * std::abs(a.Y - b.Y));
        if (up && a.Y > b.Y)
            std::swap(a, b);
        return std::pair(a, b);
    };
    const auto [a, b] = seg(false);
    auto [u, v] = seg(false);
    if (g.p(0.2))
        u.Y = a.Y;
    if (g.p(0.2))
        v.Y = b.Y;
    if (g.p(0.1))
        u = b;
    if (std::abs(u.Y - v.Y) < 20 || std::abs(u.X - v.X) > 30 * std::abs(u.Y - v.Y))
        return;
    const int dir = g.p(0.5) ? 1 : -1;
    const std::string info = fmt("(%lld,%lld)-(%lld,%lld) against (%lld,%lld)-(%lld,%lld) towards %d", (i64)a.X, (i64)a.Y, (i64)b.X, (i64)b.Y, (i64)u.X, (i64)u.Y, (i64)v.X, (i64)v.Y, dir);
    const cura::TransformedSegment s(a, b), o(u, v);
    R.check(s.minY() == std::min(a.Y, b.Y) && s.maxY() == std::max(a.Y, b.Y), "overlap:range", info);
    const i64 lo = std::max(s.minY(), o.minY()), hi = std::min(s.maxY(), o.maxY());
    for (const bool range : { false, true })
    {
        std::optional<cura::SegmentOverlapping> r;
        if (range)
        {
            cura::ExpansionRange er(s.minY(), s.maxY(), &s);
            R.check(er.isValid() == (s.maxY() - s.minY() > 5) && er.minY() == s.minY() && er.maxY() == s.maxY(), "range:valid", info);
            r = er.calculateOverlapping(o, int8_t(dir));
        }
        else
            r = s.calculateOverlapping(o, int8_t(dir));
        const std::string k = range ? "range:" : "overlap:";
        R.stat(r ? "overlapping" : "apart");
        if (hi - lo < -6)
            R.check(! r, k + "apart", info);
        const ld slope = std::abs(ld(b.X - a.X) / ld(b.Y - a.Y)) + std::abs(ld(v.X - u.X) / ld(v.Y - u.Y));
        const ld yt = 8 + e * 1e-6L;
        cura::Point2LL p0, p1;
        if (r)
        {
            p0 = r->other_overlapping_part.getStart(), p1 = r->other_overlapping_part.getEnd();
            R.check(p0.Y <= p1.Y + 10, k + "upwards", info);
            for (auto& q : { p0, p1 })
            {
                R.check(q.Y >= lo - yt && q.Y <= hi + yt, k + "beyond", info);
                R.check(std::abs(q.X - x_at(u, v, q.Y)) <= yt * (1 + slope), k + "off-line", fmt("(%lld,%lld) of ", (i64)q.X, (i64)q.Y) + info);
            }
            const bool top = std::abs(p1.Y - s.maxY()) <= 0, bottom = std::abs(p0.Y - s.minY()) <= 0;
            const bool ttop = r->type == T::Top || r->type == T::Full, tbottom = r->type == T::Bottom || r->type == T::Full;
            if (range)
            { // the caller has cropped the other segment to this one's range beforehand
                R.check(ttop == (o.maxY() == s.maxY()) && tbottom == (o.minY() == s.minY()), k + "type", info);
            }
            else if (p1.Y - p0.Y > 2 * yt)
            {
                if (ttop)
                    R.check(std::abs(p1.Y - s.maxY()) <= yt, k + "type-top", info);
                if (tbottom)
                    R.check(std::abs(p0.Y - s.minY()) <= yt, k + "type-bottom", info);
                if (top && std::abs(p1.Y - p0.Y) > 20)
                    R.check(ttop || std::abs(x_at(a, b, p1.Y) - p1.X) < yt * (1 + slope), k + "type-not-top", info);
                if (bottom && std::abs(p1.Y - p0.Y) > 20)
                    R.check(tbottom || std::abs(x_at(a, b, p0.Y) - p0.X) < yt * (1 + slope), k + "type-not-bottom", info);
            }
        }
        if (hi - lo <= 6)
            continue;
        // touching at the end of the overlap: which side counts is a matter of rounding
        const bool touch = std::abs(x_at(u, v, lo) - x_at(a, b, lo)) < 6 * (1 + slope) || std::abs(x_at(u, v, hi) - x_at(a, b, hi)) < 6 * (1 + slope);
        if (! range && touch)
            continue;
        for (int i = 0; i <= 20; ++i)
        {
            const ld y = lo + (hi - lo) * (i / 20.0L);
            const ld dx = x_at(u, v, y) - x_at(a, b, y);
            if (! range && std::abs(dx) < 2 * yt * (1 + slope) + 6)
                continue;
            if (r && (std::abs(y - p0.Y) < yt || std::abs(y - p1.Y) < yt))
                continue;
            if (! r && (y - lo < yt || hi - y < yt))
                continue;
            const bool in = r && y > p0.Y && y < p1.Y, want = range || (dx > 0) == (dir > 0);
            R.check(in == want, k + (want ? "missing" : "wrong-side"), fmt("at y %.1Lf: dx %.1Lf ", y, dx) + info);
        }
        if (r && ! range)
        { // cropping keeps to the line
            cura::TransformedSegment q = r->other_overlapping_part;
            if (q.maxY() - q.minY() > 30 && q.getStart().Y < q.getEnd().Y)
            {
                const i64 y = g.in(q.minY() + 5, q.maxY() - 5);
                auto t = q, bt = q;
                t.cropTop(y);
                bt.cropBottom(y);
                R.check(t.maxY() == y && t.minY() == q.minY() && bt.minY() == y && bt.maxY() == q.maxY(), "crop:range", info);
                R.check(std::abs(t.getEnd().X - x_at(q.getStart(), q.getEnd(), y)) <= 2 && t.getStart() == q.getStart() && bt.getEnd() == q.getEnd() && bt.getStart() == t.getEnd(), "crop:line", info);
                cura::ExpansionRange er(q, &s);
                er.cropTop(y);
                R.check(er.maxY() == y && er.minY() == q.minY() && er.isProjected() && er.getSupportingSegment() == &s, "crop:projected", info);
                cura::ExpansionRange rr(q.minY(), q.maxY(), &s);
                rr.cropBottom(y);
                R.check(rr.minY() == y && rr.maxY() == q.maxY() && ! rr.isProjected(), "crop:range-bottom", info);
            }
        }
    }
}

static void walls(Run& R, Rng& g)
{
    const i64 lw = g.in(200, 1000), minlen = g.in(200, 6000);
    const double ext = g.u(5000, 40000);
    const Path w = simple_polygon(g, ext);
    const Paths mask = shape(g, ext * g.u(0.3, 1), int(g.in(1, 4)));
    const cura::Shape ms = shp(mask).unionPolygons();
    const Paths mp = paths(ms);
    if (mp.empty() || w.size() < 3)
        return;
    cura::ExtrusionLine line(0, false, true);
    for (auto& q : w)
        line.emplace_back(c(q), lw, 0);
    const cura::PathAdapter<cura::ExtrusionLine> pa(line);
    const cura::AABB bb(ms);
    // where along the segment is the mask: all crossings, exactly enough
    auto spans = [&](P a, P b, bool& clear)
    {
        std::vector<ld> ts;
        for (auto& q : mp)
            for (size_t i = 0; i < q.size(); ++i)
            {
                const P u = q[i], v = q[(i + 1) % q.size()];
                // a corner near the segment, a nearly parallel edge, or an edge near an end: not judged
                if (dist_seg(u, a, b) < 12 || dist_seg(a, u, v) < 12 || dist_seg(b, u, v) < 12)
                    clear = false;
                if (segs_cross(a, b, u, v))
                {
                    const ld d = ld(b.x - a.x) * (v.y - u.y) - ld(b.y - a.y) * (v.x - u.x);
                    ts.push_back((ld(u.x - a.x) * (v.y - u.y) - ld(u.y - a.y) * (v.x - u.x)) / d);
                }
            }
        std::sort(ts.begin(), ts.end());
        return ts;
    };
    const size_t n = w.size();
    for (size_t i = 0; i < n; ++i)
    {
        const P a = w[i], b = w[(i + 1) % n];
        const ld len = dist(a, b);
        bool clear = true;
        const auto ts = spans(a, b, clear);
        const bool ain = crossings(mp, a.x, a.y) % 2, bin = crossings(mp, b.x, b.y) % 2;
        double sr = 0, er = 1;
        if (g.p(0.4))
            sr = g.u(0, 0.5), er = g.u(0.55, 1);
        const auto got = cura::wallSegmentUsesBridging(bb, ms, pa, i, cura::Ratio(sr), cura::Ratio(er), minlen, lw);
        const std::string info = fmt("segment %zu from %g to %g of minimum %lld width %lld ", i, sr, er, minlen, lw) + show(w) + " over " + show(mp);
        if (len < minlen - 1)
            R.check(got.empty(), "wall:too-short", info);
        ld last = -1e-6;
        for (auto& [x, y] : got)
        {
            R.check(double(x) >= -1e-6 && double(y) <= 1 + 1e-6 && double(x) <= double(y) && double(x) >= last - 1e-5, "wall:order", fmt("%g-%g ", double(x), double(y)) + info);
            last = double(y);
            if (! clear)
                continue;
            for (int k = 0; k <= 8; ++k)
            {
                const ld t = sr + (er - sr) * (double(x) + (double(y) - double(x)) * (k / 8.0L));
                const ld px = a.x + t * (b.x - a.x), py = a.y + t * (b.y - a.y);
                if (dist_paths(px, py, mp) < 12)
                    continue;
                R.check(crossings(mp, i64(px), i64(py)) % 2, "wall:supported", fmt("(%.0Lf,%.0Lf) ", px, py) + info);
            }
        }
        R.stat("bridging parts", double(got.size()));
        if (! clear)
            continue;
        R.stat("segments judged");
        // anchored beyond doubt: both ends over support for longer than the line width
        const bool anchored = ! ain && ! bin && ! ts.empty() && ts.front() * len > lw + 5 && (1 - ts.back()) * len > lw + 5;
        if (anchored && len > minlen + 5)
        {
            R.stat("anchored segments");
            std::vector<std::pair<ld, ld>> want;
            for (size_t k = 0; k + 1 < ts.size(); k += 2)
                if ((ts[k + 1] - ts[k]) * len > minlen + 5 && std::max<ld>(ts[k], sr) + 1e-3 < std::min<ld>(ts[k + 1], er))
                    want.push_back({ (std::max<ld>(ts[k], sr) - sr) / (er - sr), (std::min<ld>(ts[k + 1], er) - sr) / (er - sr) });
            for (auto& [x, y] : want)
            {
                bool found = false;
                for (auto& [u, v] : got)
                    found |= std::abs(double(u) - x) < 1e-3 && std::abs(double(v) - y) < 1e-3;
                R.check(found, "wall:missing", fmt("%.4Lf-%.4Lf ", x, y) + info);
            }
            for (auto& [u, v] : got)
            {
                bool known = double(v) - double(u) < 1e-3;
                for (size_t k = 0; k + 1 < ts.size(); k += 2)
                    known |= (ts[k + 1] - ts[k]) * len > minlen - 5 && std::abs(double(u) - (std::max<ld>(ts[k], sr) - sr) / (er - sr)) < 1e-3
                          && std::abs(double(v) - (std::min<ld>(ts[k + 1], er) - sr) / (er - sr)) < 1e-3;
                R.check(known, "wall:invented", fmt("%g-%g ", double(u), double(v)) + info);
            }
        }
        // hanging beyond doubt: an end inside the mask from which the wall stays inside it for more than twice the line width
        auto hanging = [&](bool at_end)
        {
            if (! (at_end ? bin : ain))
                return false;
            ld left = 2 * lw + 10;
            size_t j = at_end ? (i + 1) % n : i;
            for (size_t steps = 0; steps < n; ++steps)
            {
                const size_t nx = at_end ? (j + 1) % n : (j + n - 1) % n;
                bool cl = true;
                auto t2 = spans(w[j], w[nx], cl);
                const ld l = dist(w[j], w[nx]);
                if (! cl)
                    return false;
                if (! t2.empty() && t2.front() * l < left)
                    return false;
                left -= l;
                if (left < 0)
                    return true;
                j = nx;
            }
            return false;
        };
        if (hanging(false) || hanging(true))
        {
            R.stat("hanging segments");
            R.check(got.empty(), "wall:unanchored", info);
        }
    }
}

int main(int argc, char** argv)
{
    return run_main(
        argc,
        argv,
        [](Run& R, Rng& g)
        {
            const uint64_t f = g.next();
            transformed(R, g);
            for (int i = 0; i < 20; ++i)
                overlapping(R, g);
            walls(R, g);
            R.eval(f);
        });
}
