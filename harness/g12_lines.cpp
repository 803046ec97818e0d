// Lines and contours: segments, lengths, splitting, clipping and widening of lines, smoothing, comparing, mending, reading and writing.
#include <sstream>

#include "hc.hpp"

#include "geometry/MendedShape.h"
#include "geometry/Point3Matrix.h"
#include "geometry/PointMatrix.h"
#include "settings/Settings.h"
#include "settings/types/Angle.h"
#include "utils/section_type.h"

using namespace h;

static Path rpath(Rng& g, size_t n, i64 e)
{
    Path q;
    for (size_t i = 0; i < n; ++i)
        q.push_back({ g.in(-e, e), g.in(-e, e) });
    return q;
}

template<class L>
static void segments(Run& R, Rng& g, const L& l, const Path& q, bool closing, const char* kind)
{
    const std::string k = std::string("segments:") + kind + ":", info = show(q);
    std::vector<std::pair<P, P>> want, got;
    for (size_t i = 0; i + 1 < q.size(); ++i)
        want.push_back({ q[i], q[i + 1] });
    if (closing)
        want.push_back({ q.back(), q[0] });
    for (auto it = l.beginSegments(); it != l.endSegments(); ++it)
        got.push_back({ p((*it).start), p((*it).end) });
    R.check(want == got, k + "walk", info);
    R.check(l.segmentsCount() == want.size(), k + "count", info);
    R.check(l.endSegments() - l.beginSegments() == i64(want.size()), k + "distance", info);
    ld len = 0;
    for (auto& [a, b] : want)
        len += dist(a, b);
    R.check(std::abs(len - l.length()) <= want.size() + 1, k + "length", fmt("%lld for %.1Lf ", (i64)l.length(), len) + info);
    for (ld f : { 0.5L, 0.98L, 1.02L, 2.0L })
    {
        const i64 t = i64(len * f);
        if (std::abs(t - len) > want.size() + 2)
            R.check(l.shorterThan(t) == (len < t), k + "shorter", fmt("than %lld, is %.1Lf ", t, len) + info);
    }
    std::vector<std::pair<P, P>> parts;
    for (auto& s : l.splitIntoSegments())
    {
        R.check(s.size() == 2, k + "split-size", info);
        if (s.size() == 2)
            parts.push_back({ p(s[0]), p(s[1]) });
    }
    R.check(parts == want, k + "split", info);
}

static void containers(Run& R, Rng& g)
{
    const i64 e = g.logn(3, 300000);
    const Path q = rpath(g, g.in(3, 12), e);
    segments(R, g, open(q), q, false, "open");
    segments(R, g, cura::ClosedPolyline(cpath(q), false), q, true, "closed");
    segments(R, g, poly(q), q, true, "polygon");
    Path ex = q;
    ex.push_back(q[0]);
    segments(R, g, cura::ClosedPolyline(cpath(ex), true), ex, false, "explicitly closed");
    R.check(path(cura::ClosedPolyline(cpath(q), false).toPseudoOpenPolyline()) == ex && path(cura::ClosedPolyline(cpath(ex), true).toPseudoOpenPolyline()) == ex, "lines:pseudo-open", show(q));
    const size_t s = g.in(0, i64(q.size()) - 1);
    Path r = q;
    std::rotate(r.begin(), r.begin() + s, r.end());
    cura::ClosedPolyline a(cpath(q), false), b(cpath(ex), true);
    a.shiftVerticesToStartPoint(s);
    b.shiftVerticesToStartPoint(s);
    R.check(path(a) == r, "lines:shift", fmt("to %zu ", s) + show(q));
    Path rx = r;
    rx.push_back(r[0]);
    R.check(path(b) == rx, "lines:shift-explicit", fmt("to %zu ", s) + show(q));
    // sets of lines
    cura::OpenLinesSet set;
    Paths want;
    ld len = 0;
    size_t points = 0;
    for (int i = 0, n = int(g.in(1, 8)); i < n; ++i)
    {
        Path l = rpath(g, g.in(0, 6), e);
        const int mode = int(g.in(0, 2));
        set.push_back(open(l), mode == 0 ? cura::CheckNonEmptyParam::EvenIfEmpty : mode == 1 ? cura::CheckNonEmptyParam::OnlyIfNotEmpty : cura::CheckNonEmptyParam::OnlyIfValid);
        if (mode == 0 || (mode == 1 && ! l.empty()) || l.size() >= 2)
            want.push_back(l), points += l.size(), len += l.size() > 1 ? length(l, false) : 0;
    }
    R.check(paths(set) == want, "set:push", show(want));
    R.check(set.pointCount() == points, "set:points", show(want));
    R.check(std::abs(set.length() - len) <= points + 1, "set:length", show(want));
    if (! want.empty())
    {
        const size_t li = g.in(0, i64(want.size()) - 1), pi = g.in(0, 7);
        auto cut = set;
        cut.split(li, pi);
        Paths w2 = want;
        if (pi > 0 && w2[li].size() >= 2 && pi + 1 < w2[li].size())
        {
            Path tail(w2[li].begin() + pi, w2[li].end());
            w2[li].resize(pi + 1);
            w2.insert(w2.begin() + li + 1, tail);
        }
        R.check(paths(cut) == w2, "set:split", fmt("line %zu at %zu ", li, pi) + show(want));
        auto rem = set;
        rem.removeAt(li);
        Paths got = paths(rem), w3 = want;
        w3.erase(w3.begin() + li);
        std::sort(got.begin(), got.end());
        std::sort(w3.begin(), w3.end());
        R.check(got == w3, "set:remove", fmt("%zu ", li) + show(want));
        auto mv = set;
        const P d{ g.in(-e, e), g.in(-e, e) };
        mv.translate(c(d));
        Paths w4 = want;
        for (auto& l : w4)
            for (auto& v : l)
                v.x += d.x, v.y += d.y;
        R.check(paths(mv) == w4, "set:translate", show(want));
        const double deg = g.in(0, 3) * 90.0;
        mv = set;
        mv.applyMatrix(cura::PointMatrix(deg));
        auto back = mv;
        back.applyMatrix(cura::PointMatrix(deg).inverse());
        for (size_t i = 0; i < want.size(); ++i)
            for (size_t j = 0; j < want[i].size(); ++j)
            {
                const auto m = cura::PointMatrix(deg).apply(c(want[i][j]));
                R.check(mv[i][j] == m, "set:matrix", show(want));
                R.check(dist(p(back[i][j]), want[i][j]) <= 3, "set:matrix-inverse", show(want));
            }
    }
    // pushing only what forms a segment
    cura::OpenPolyline f;
    Path fw;
    for (int i = 0; i < 10; ++i)
    {
        const P v = fw.empty() || g.p(0.4) ? P{ g.in(-e, e), g.in(-e, e) } : P{ fw.back().x + g.in(-8, 8), fw.back().y + g.in(-8, 8) };
        const bool far = fw.empty() || std::abs(v.x - fw.back().x) > 5 || std::abs(v.y - fw.back().y) > 5;
        R.check(f.pushBackIfFormingSegment(c(v)) == far, "lines:forming", "");
        if (far)
            fw.push_back(v);
    }
    R.check(path(f) == fw, "lines:forming-points", "");
}

static void clipping(Run& R, Rng& g)
{
    const double e = g.u(1000, 60000);
    const Paths ps = shape(g, e * g.u(0.3, 1), int(g.in(1, 3)));
    const cura::Shape s = shp(ps).unionPolygons();
    const Paths sp = paths(s);
    if (sp.empty())
        return;
    cura::OpenLinesSet ol;
    cura::ClosedLinesSet cl;
    cura::MixedLinesSet ml;
    Paths open_in, closed_in;
    for (int i = 0, n = int(g.in(1, 5)); i < n; ++i)
    {
        const Path q = g.p(0.5) ? star(g, int(g.in(3, 8)), e * g.u(0.2, 1.1), 0.5) : rpath(g, g.in(2, 6), i64(e));
        if (g.p(0.5) || q.size() < 3)
        {
            open_in.push_back(q);
            ol.push_back(open(q));
            ml.push_back(open(q));
        }
        else
        {
            closed_in.push_back(q);
            Path ex = q;
            ex.push_back(q[0]);
            const bool explicitly = g.p(0.5);
            cl.push_back(cura::ClosedPolyline(cpath(explicitly ? ex : q), explicitly));
            ml.push_back(cura::ClosedPolyline(cpath(explicitly ? ex : q), explicitly));
        }
    }
    auto judge = [&](const std::string& k, const Paths& in, bool closed, const Paths& res, bool want_inside, ld tol = 3)
    {
        for (auto& q : in)
            for (size_t i = closed ? 0 : 1; i < q.size(); ++i)
            {
                const P a = q[(i + q.size() - 1) % q.size()], b = q[i];
                for (int j = 0; j < 6; ++j)
                {
                    const ld t = g.u(), x = a.x + t * (b.x - a.x), y = a.y + t * (b.y - a.y);
                    const i64 X = llrintl(x), Y = llrintl(y);
                    if (dist_paths(x, y, sp) < 6)
                        continue;
                    const bool inside = winding(sp, X, Y) != 0;
                    const ld d = dist_paths(x, y, res, false);
                    if (inside == want_inside)
                        R.check(d <= tol, k + ":lost", fmt("(%lld,%lld) is %.1Lf away; ", X, Y, d) + show(in) + " by " + show(sp));
                }
            }
        for (auto& q : res)
            for (size_t i = 1; i < q.size(); ++i)
                for (int j = 0; j < 4; ++j)
                {
                    const ld t = g.u(), x = q[i - 1].x + t * (q[i].x - q[i - 1].x), y = q[i - 1].y + t * (q[i].y - q[i - 1].y);
                    ld d = 1e18;
                    for (auto& l : in)
                        d = std::min(d, dist_path(x, y, l, closed));
                    R.check(d <= tol, k + ":invented", fmt("(%.0Lf,%.0Lf) %.1Lf ", x, y, d) + show(in) + " by " + show(sp));
                    if (dist_paths(x, y, sp) > 6 + tol)
                        R.check((winding(sp, llrintl(x), llrintl(y)) != 0) == want_inside, k + ":side", fmt("(%.0Lf,%.0Lf) ", x, y) + show(in) + " by " + show(sp));
                }
    };
    auto mixed = [](const cura::MixedLinesSet& m)
    {
        Paths r;
        for (auto& l : m)
        {
            r.push_back(path(*l));
            if (l->hasClosingSegment() && r.back().size())
                r.back().push_back(r.back()[0]);
        }
        return r;
    };
    if (! open_in.empty())
    {
        const auto d = ol.difference(s);
        judge("open-difference", open_in, false, paths(d), false);
        const bool restitch = g.p(0.5), segs = g.p(0.5);
        const auto in = s.intersection(ol, restitch, 10, segs);
        judge(restitch ? "open-intersection-stitched" : "open-intersection", open_in, false, paths(in), true, restitch ? 13 : 3);
        ld total = 0;
        for (auto& q : open_in)
            total += length(q, false);
        const ld got = ld(d.length()) + ld(in.length());
        const ld slack = 30 * (d.size() + in.size() + open_in.size() + 4) + 0.001L * total;
        R.check(std::abs(got - total) <= slack, "open:conserved", fmt("%.0Lf of %.0Lf ", got, total) + show(open_in) + " by " + show(sp));
    }
    if (! closed_in.empty())
    {
        judge("closed-difference", closed_in, true, mixed(cl.difference(s)), false);
        cura::MixedLinesSet only;
        only.push_back(cl);
        judge("closed-intersection", closed_in, true, mixed(only.intersection(s)), true);
    }
    {
        Paths all = open_in;
        for (auto q : closed_in)
        {
            q.push_back(q[0]);
            all.push_back(q);
        }
        judge("mixed-difference", all, false, mixed(ml.difference(s)), false);
        judge("mixed-intersection", all, false, mixed(ml.intersection(s)), true);
        ld total = 0;
        for (auto& q : all)
            total += length(q, false);
        R.check(std::abs(ml.length() - total) <= 100, "mixed:length", show(all));
    }
    // widening lines
    const i64 d = g.logn(20, i64(e / 4));
    const int kind = int(g.in(0, 2));
    const bool round = g.p(0.6);
    const auto jt = round ? ClipperLib::jtRound : ClipperLib::jtMiter;
    if (g.p(0.5) && ! open_in.empty())
    {
        cura::Shape w;
        if (kind == 0)
            w = ol.offset(d, jt);
        else
        {
            cura::MixedLinesSet m;
            m.push_back(ol);
            w = m.offset(d, jt);
        }
        const Paths wp = paths(w);
        for (int i = 0; i < 30; ++i)
        {
            const P q = random_point(g, open_in, double(d) * 1.5);
            const ld ds = dist_paths(q.x, q.y, open_in, false);
            if (dist_paths(q.x, q.y, wp) < 4)
                continue;
            const bool in = winding(wp, q.x, q.y) != 0;
            R.stat("widened points");
            if (ds < d - 12)
                R.check(in, "widen-open:missing", fmt("(%lld,%lld) at %.1Lf of %lld ", q.x, q.y, ds, d) + show(open_in));
            if (ds > (round ? d + 4 : d * 1.8L + 6))
                R.check(! in, "widen-open:extra", fmt("(%lld,%lld) at %.1Lf of %lld ", q.x, q.y, ds, d) + show(open_in));
        }
    }
    else if (! closed_in.empty())
    {
        cura::MixedLinesSet m;
        cura::ClosedLinesSet imp;
        for (auto& q : closed_in)
            imp.push_back(cura::ClosedPolyline(cpath(q), false));
        m.push_back(imp);
        const Paths wp = paths(kind == 0 ? imp.offset(d, jt) : m.offset(d, jt));
        for (int i = 0; i < 30; ++i)
        {
            const P q = random_point(g, closed_in, double(d) * 1.5);
            const ld ds = dist_paths(q.x, q.y, closed_in, true);
            if (dist_paths(q.x, q.y, wp) < 4)
                continue;
            const bool in = winding(wp, q.x, q.y) != 0;
            R.stat("widened points");
            if (round && ds < d - 12)
                R.check(in, "widen-closed:missing", fmt("(%lld,%lld) at %.1Lf of %lld ", q.x, q.y, ds, d) + show(closed_in));
            if (ds > (round ? d + 4 : d * 1.8L + 6))
                R.check(! in, "widen-closed:extra", fmt("(%lld,%lld) at %.1Lf of %lld ", q.x, q.y, ds, d) + show(closed_in));
        }
    }
    // crossings of a segment
    for (int i = 0; i < 4; ++i)
    {
        const P a = random_point(g, sp, 500), b = random_point(g, sp, 500);
        std::vector<ld> want;
        bool clear = true;
        for (auto& q : sp)
            for (size_t j = 0; j < q.size(); ++j)
            {
                const P u = q[j], v = q[(j + 1) % q.size()];
                if (dist_seg(u, a, b) < 3 || dist_seg(a, u, v) < 3 || dist_seg(b, u, v) < 3)
                    clear = false;
                if (segs_cross(a, b, u, v))
                {
                    const ld dd = ld(b.x - a.x) * (v.y - u.y) - ld(b.y - a.y) * (v.x - u.x);
                    want.push_back((ld(u.x - a.x) * (v.y - u.y) - ld(u.y - a.y) * (v.x - u.x)) / dd);
                }
            }
        if (! clear || dist(a, b) < 100)
            continue;
        auto got = s.intersectionsWithSegment(c(a), c(b));
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        const std::string info = fmt("(%lld,%lld)-(%lld,%lld) with ", a.x, a.y, b.x, b.y) + show(sp);
        if (R.check(got.size() == want.size(), "crossings:count", fmt("%zu for %zu ", got.size(), want.size()) + info))
            for (size_t j = 0; j < got.size(); ++j)
                R.check(std::abs(got[j] - want[j]) < 1e-4, "crossings:where", fmt("%g for %Lg ", got[j], want[j]) + info);
    }
}

static void contours(Run& R, Rng& g)
{
    const double e = g.u(300, 80000);
    const Paths ps = shape(g, e, int(g.in(1, 3)));
    const cura::Shape s = shp(ps);
    const std::string info = show(ps);
    for (auto& q : ps)
    { // centre of mass
        ld A = 0, x = 0, y = 0;
        for (size_t i = 0; i < q.size(); ++i)
        {
            const P a = q[i], b = q[(i + 1) % q.size()];
            const ld w = ld(a.x) * b.y - ld(b.x) * a.y;
            A += w;
            x += w * (a.x + b.x);
            y += w * (a.y + b.y);
        }
        if (std::abs(A) < 1e-3L * e * e)
            continue;
        const auto m = poly(q).centerOfMass();
        R.check(std::hypot(x / (3 * A) - m.X, y / (3 * A) - m.Y) < 3, "centre-of-mass", fmt("(%lld,%lld) ", (i64)m.X, (i64)m.Y) + show(q));
        // on the border
        const size_t k = g.in(0, i64(q.size()) - 1);
        R.check(poly(q).inside(c(q[k]), true) && ! poly(q).inside(c(q[k]), false), "inside:border", show(q));
        const P v = random_point(g, { q }, 100);
        if (dist_path(v.x, v.y, q, true) > 0.5)
            R.check(poly(q).inside(c(v)) == (crossings({ q }, v.x, v.y) % 2 != 0), "inside", fmt("(%lld,%lld) ", v.x, v.y) + show(q));
    }
    // writing and reading
    {
        std::ostringstream o;
        s.writeWkt(o);
        R.check(paths(cura::Shape::fromWkt(o.str())).size() == ps.size(), "wkt:count", info);
        Paths back = paths(cura::Shape::fromWkt(o.str()));
        for (size_t i = 0; i < back.size() && i < ps.size(); ++i)
        {
            if (back[i].size() > 1 && back[i].front() == back[i].back())
                back[i].pop_back();
            R.check(back[i] == ps[i], "wkt:points", o.str());
        }
    }
    // smoothing of wiggly contours
    {
        const int len = int(g.logn(20, 2000));
        Paths w;
        for (auto& q : ps)
        {
            Path r;
            for (size_t i = 0; i < q.size(); ++i)
            {
                const P a = q[i], b = q[(i + 1) % q.size()];
                r.push_back(a);
                for (int j = 0, n = int(g.in(0, 4)); j < n; ++j)
                    r.push_back({ a.x + (b.x - a.x) * (j + 1) / (n + 1) + g.in(-len, len), a.y + (b.y - a.y) * (j + 1) / (n + 1) + g.in(-len, len) });
            }
            w.push_back(r);
        }
        for (int mode = 0; mode < 2; ++mode)
        {
            const Paths r = paths(mode ? shp(w).smooth2(len, 0) : shp(w).smooth(len));
            size_t at = 0;
            for (auto& q : r)
            {
                while (at < w.size())
                { // subsequence of the next contour?
                    size_t i = 0;
                    for (auto& v : w[at])
                        if (i < q.size() && q[i] == v)
                            ++i;
                    if (i == q.size())
                        break;
                    ++at;
                }
                if (! R.check(at < w.size(), mode ? "smooth2:points" : "smooth:points", fmt("by %d ", len) + show(w)))
                    break;
                for (auto& v : w[at])
                {
                    ld d = 1e18;
                    for (auto& u : q)
                        d = std::min(d, dist(u, v));
                    R.check(d <= len + 1, mode ? "smooth2:removed" : "smooth:removed", fmt("(%lld,%lld) %.0Lf by %d ", v.x, v.y, d, len) + show(w));
                }
                R.check(q.size() * 2 + 2 >= w[at].size(), mode ? "smooth2:half" : "smooth:half", show(w));
                R.stat("vertices smoothed away", double(w[at].size() - q.size()));
                ++at;
            }
        }
        // outwards: nothing is cut off, corners narrower than the angle are filled up
        const double ang = g.u(10, 170);
        if (std::all_of(ps.begin(), ps.end(), [](const Path& q) { return simple(q); }))
        {
            const Paths r = paths(s.smoothOutward(cura::AngleDegrees(ang), len));
            ld drift = 0;
            for (auto& q : r)
                for (size_t i = 0; i < q.size(); ++i)
                    for (ld t : { 0.0L, 0.5L })
                    {
                        const P a = q[i], b = q[(i + 1) % q.size()];
                        drift = std::max(drift, dist_paths(a.x + t * (b.x - a.x), a.y + t * (b.y - a.y), ps));
                    }
            R.check(drift <= 2 * len + 20, "outward:drift", fmt("%.0Lf by %d at %g ", drift, len, ang) + info);
            R.smax("outward drift in shortcut lengths", double(drift / len));
            if (r.size() == ps.size())
                for (size_t i = 0; i < r.size(); ++i)
                    R.check(area(r[i]) >= area(ps[i]) - 20 * length(ps[i], true) / 10 - 100, "outward:shrank", fmt("contour %zu by %d at %g ", i, len, ang) + info);
            R.stat("contours smoothed outward", double(r.size()));
        }
    }
    // comparing contours
    {
        Paths mine, other;
        std::set<size_t> gone;
        const int tol = g.p(0.5) ? 0 : int(g.in(1, 20));
        for (size_t i = 0; i < ps.size(); ++i)
        {
            Path q;
            for (auto& v : ps[i])
                if (q.empty() || (dist(q.back(), v) > 100 && dist(q[0], v) > 100))
                    q.push_back(v);
            if (q.size() < 3)
                continue;
            bool close = false; // vertices too close for telling them apart
            for (size_t a = 0; a < q.size(); ++a)
                for (size_t b = 0; b < a; ++b)
                    close |= dist(q[a], q[b]) < 90;
            if (close)
                continue;
            if (g.p(0.6))
            {
                Path o = q;
                std::rotate(o.begin(), o.begin() + g.in(0, i64(o.size()) - 1), o.end());
                const int m = int(g.in(0, 2));
                if (m == 0) // same, within the tolerance
                {
                    for (auto& v : o)
                        v.x += g.in(-tol / 2, tol / 2), v.y += g.in(-tol / 2, tol / 2);
                    gone.insert(mine.size());
                }
                else if (m == 1)
                    o[g.in(0, i64(o.size()) - 1)].x += tol + g.in(1, 20);
                else
                    reverse(o);
                other.push_back(o);
            }
            mine.push_back(q);
        }
        Paths want;
        for (size_t i = 0; i < mine.size(); ++i)
            if (! gone.contains(i))
                want.push_back(mine[i]);
        R.check(paths(shp(mine).removePolygon(shp(other), tol)) == want, "remove-polygon", fmt("within %d of ", tol) + show(mine) + " those in " + show(other));
    }
    // vertices shared between contours are cut apart
    if (g.p(0.5))
    {
        const i64 w = g.in(200, 5000);
        cura::Shape m = shp({ rect(0, 0, w, w), rect(w, w, 2 * w, 2 * w), star(g, 5, double(w), 0.3, 6 * w, 0) });
        if (g.p(0.5))
            m.push_back(poly(rect(-w, w, 0, 2 * w)));
        const Paths before = paths(m);
        m.ensureManifold();
        std::set<P> seen;
        for (auto& q : m)
            for (auto& v : q)
                R.check(seen.insert(p(v)).second, "manifold:shared", show(before));
        for (int i = 0; i < 20; ++i)
        {
            const P v = random_point(g, before, 100);
            if (dist_paths(v.x, v.y, before) > 9)
                R.check((winding(before, v.x, v.y) != 0) == (winding(paths(m), v.x, v.y) != 0), "manifold:area", fmt("(%lld,%lld) ", v.x, v.y) + show(before));
        }
        R.check(dist_paths(w, w, paths(m)) > 1, "manifold:touching", show(before));
    }
    // rounding away near self intersections and mending keep the area
    {
        const cura::Shape u = s.unionPolygons();
        const Paths up = paths(u), np = paths(u.removeNearSelfIntersections());
        for (int i = 0; i < 20 && ! up.empty(); ++i)
        {
            const P v = random_point(g, up, 50);
            if (dist_paths(v.x, v.y, up) > 12)
                R.check((winding(up, v.x, v.y) != 0) == (crossings(np, v.x, v.y) % 2 != 0), "near-self:area", fmt("(%lld,%lld) ", v.x, v.y) + show(up));
        }
        cura::Settings set;
        const double dev = g.u(0.01, 0.1), res = g.u(0.05, 0.8), lw = g.u(0.2, 0.8), minw = lw * g.u(0.4, 1), feat = lw * g.u(0.1, 0.6);
        const bool fill = g.p(0.5);
        set.add("meshfix_maximum_deviation", fmt("%g", dev));
        set.add("meshfix_maximum_resolution", fmt("%g", res));
        set.add("meshfix_maximum_extrusion_area_deviation", "2000");
        set.add("fill_outline_gaps", fill ? "true" : "false");
        set.add("min_feature_size", fmt("%g", feat));
        set.add("min_wall_line_width", fmt("%g", minw));
        set.add("wall_line_width_0", fmt("%g", lw));
        set.add("meshfix_fluid_motion_enabled", "false");
        const cura::MendedShape ms(&set, cura::SectionType::WALL, &u);
        const Paths mp = paths(ms.getShape());
        const ld oc = (fill ? feat : minw) * 500, band = 2.3L * oc + 4000 * dev + 40;
        for (int i = 0; i < 30 && ! up.empty(); ++i)
        {
            const P v = random_point(g, up, 1000);
            if (dist_paths(v.x, v.y, up) < band)
                continue;
            const bool in = winding(up, v.x, v.y) != 0;
            R.stat("mended points");
            R.check(in == (winding(mp, v.x, v.y) != 0), "mended:area", fmt("(%lld,%lld) deviation %g width %g feature %g fill %d ", v.x, v.y, dev, minw, feat, fill) + show(up));
        }
        R.check(&ms.getShape() == &ms.getShape(), "mended:stable", "");
        const cura::MendedShape none;
        R.check(none.getShape().empty(), "mended:none", "");
    }
}

int main(int argc, char** argv)
{
    return run_main(
        argc,
        argv,
        [](Run& R, Rng& g)
        {
            const uint64_t f = g.next();
            containers(R, g);
            clipping(R, g);
            contours(R, g);
            R.eval(f);
        });
}
