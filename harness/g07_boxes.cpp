// Bounding boxes in the plane and in space against the definitions.
#include "hc.hpp"

#include "utils/AABB.h"
#include "utils/AABB3D.h"

using namespace h;

struct Box
{
    i64 x0 = 1e17, y0 = 1e17, x1 = -1e17, y1 = -1e17;
    bool empty() const
    {
        return x0 > x1;
    }
    void add(P q)
    {
        x0 = std::min(x0, q.x);
        x1 = std::max(x1, q.x);
        y0 = std::min(y0, q.y);
        y1 = std::max(y1, q.y);
    }
};
static bool same(const cura::AABB& a, const Box& b)
{
    if (b.empty())
        return a.min_.X > a.max_.X && a.area() < 0;
    return a.min_.X == b.x0 && a.min_.Y == b.y0 && a.max_.X == b.x1 && a.max_.Y == b.y1 && a.area() == (b.x1 - b.x0) * (b.y1 - b.y0) && a.width() == b.x1 - b.x0 && a.height() == b.y1 - b.y0;
}
static std::string show(const cura::AABB& a)
{
    return fmt("[(%lld,%lld)-(%lld,%lld)] ", (i64)a.min_.X, (i64)a.min_.Y, (i64)a.max_.X, (i64)a.max_.Y);
}

static void plane(Run& R, Rng& g)
{
    const i64 ext = g.logn(4, 300000);
    auto rp = [&]() { return P{ g.in(-ext, ext), g.in(-ext, ext) }; };
    auto rb = [&](Box& t)
    {
        cura::AABB b;
        const int n = int(g.in(0, 4));
        for (int i = 0; i < n; ++i)
        {
            const P q = rp();
            b.include(c(q));
            t.add(q);
        }
        return b;
    };
    Box ta, tb;
    cura::AABB a = rb(ta), b = rb(tb);
    const std::string info = show(a) + show(b);
    R.check(same(a, ta), "include:point", info);
    for (int k = 0; k < 6; ++k)
    {
        P q = rp();
        if (k & 1 && ! ta.empty())
            q = { g.p(0.5) ? ta.x0 + g.in(-1, 1) : ta.x1 + g.in(-1, 1), g.p(0.5) ? ta.y0 + g.in(-1, 1) : ta.y1 + g.in(-1, 1) };
        const bool in = q.x >= ta.x0 && q.x <= ta.x1 && q.y >= ta.y0 && q.y <= ta.y1;
        const std::string i2 = info + fmt("(%lld,%lld)", q.x, q.y);
        R.check(a.contains(c(q)) == in, "contains:point", i2);
        if (! ta.empty())
        {
            const ld edge = dist_path(q.x, q.y, rect(ta.x0, ta.y0, ta.x1, ta.y1), true);
            const ld got = a.distanceSquared(c(q));
            R.check((edge < 3 || (got < 0) == in) && std::abs(std::sqrt(std::abs(got)) - edge) <= 2.5, "distance:point", fmt("%.0Lf instead of %.2Lf ", got, edge) + i2);
        }
    }
    if (! ta.empty() && ! tb.empty())
    {
        const bool hit = ta.x0 <= tb.x1 && tb.x0 <= ta.x1 && ta.y0 <= tb.y1 && tb.y0 <= ta.y1;
        R.check(a.hit(b) == hit && b.hit(a) == hit, "hit", info);
        if (! hit)
        {
            // the boxes can also face each other without a corner being nearest
            const ld dx = std::max<i64>({ 0, tb.x0 - ta.x1, ta.x0 - tb.x1 }), dy = std::max<i64>({ 0, tb.y0 - ta.y1, ta.y0 - tb.y1 });
            const ld got = a.distanceSquared(b);
            R.check(got >= 0 && std::abs(std::sqrt(got) - std::hypot(dx, dy)) <= 2.5, "distance:box", fmt("%.0Lf instead of %.2Lf^2 ", got, std::hypot(dx, dy)) + info);
        }
        R.check(a.getMiddle().X == (ta.x0 + ta.x1) / 2 && a.getMiddle().Y == (ta.y0 + ta.y1) / 2, "middle", info);
        const auto poly = path(a.toPolygon());
        R.check(std::abs(area(poly) - ld(a.area())) == 0 && poly.size() == 4, "polygon", info);
    }
    R.check(a.contains(b) == (! ta.empty() && (tb.empty() || (tb.x0 >= ta.x0 && tb.x1 <= ta.x1 && tb.y0 >= ta.y0 && tb.y1 <= ta.y1))), "contains:box", info);
    {
        cura::AABB m = a;
        m.include(b);
        Box t = ta;
        if (! tb.empty())
        {
            t.add({ tb.x0, tb.y0 });
            t.add({ tb.x1, tb.y1 });
        }
        R.check(same(m, t), "include:box", info);
        const int e = int(g.in(0, ext));
        cura::AABB x = a;
        x.expand(e);
        Box u = ta;
        if (! ta.empty())
            u = { ta.x0 - e, ta.y0 - e, ta.x1 + e, ta.y1 + e };
        R.check(same(x, u), "expand", info);
    }
    // of shapes
    Paths ps;
    const int n = int(g.in(0, 4));
    Box t, tl;
    for (int i = 0; i < n; ++i)
        ps.push_back(star(g, int(g.in(1, 9)), double(ext) * g.u(0.1, 1), 0.6, g.in(-ext, ext), g.in(-ext, ext)));
    cura::OpenLinesSet ol;
    for (auto& q : ps)
    {
        ol.push_back(open(q));
        for (auto& v : q)
            t.add(v);
    }
    R.check(same(cura::AABB(shp(ps)), t) && same(cura::AABB(ol), t), "of-shape", h::show(ps));
    cura::AABB re(c(P{ 0, 0 }), c(P{ 1, 1 }));
    re.calculate(shp(ps));
    R.check(same(re, t), "recalculate", h::show(ps));
    if (n)
    {
        cura::AABB one(poly(ps[0]));
        Box t0;
        for (auto& v : ps[0])
            t0.add(v);
        R.check(same(one, t0), "of-polygon", h::show(ps[0]));
        for (int i = 1; i < n; ++i)
            one.include(poly(ps[i]));
        R.check(same(one, t), "include:polygon", h::show(ps));
    }
    // the smallest box at any angle
    const Path q = simple_polygon(g, double(std::max<i64>(ext, 2000)));
    const auto [ob, angle] = cura::AABB::minimumAreaOrientedBoundingBox(shp({ q }));
    ld best = 1e60L;
    for (size_t i = 0; i < q.size(); ++i)
    {
        const P u = q[i], v = q[(i + 1) % q.size()];
        const ld l = dist(u, v);
        if (l < 100)
            continue;
        ld x0 = 1e30L, x1 = -1e30L, y0 = 1e30L, y1 = -1e30L;
        for (auto& w : q)
        {
            const ld x = (w.x * ld(v.x - u.x) + w.y * ld(v.y - u.y)) / l, y = (-w.x * ld(v.y - u.y) + w.y * ld(v.x - u.x)) / l;
            x0 = std::min(x0, x), x1 = std::max(x1, x), y0 = std::min(y0, y), y1 = std::max(y1, y);
        }
        best = std::min(best, (x1 - x0) * (y1 - y0));
    }
    const ld got = ld(ob.area()), side = ld(ob.width()) + ob.height();
    if (best < 1e59L)
        R.check(got <= best + 4 * side + best * 0.01, "oriented:not-smallest", fmt("%.0Lf instead of %.0Lf ", got, best) + h::show(q));
    ld x0 = 1e30L, x1 = -1e30L, y0 = 1e30L, y1 = -1e30L;
    const ld w = double(angle);
    for (auto& v : q)
    {
        const ld x = v.x * std::cos(w) + v.y * std::sin(w), y = -v.x * std::sin(w) + v.y * std::cos(w);
        x0 = std::min(x0, x), x1 = std::max(x1, x), y0 = std::min(y0, y), y1 = std::max(y1, y);
    }
    const ld tol = 3 + (std::abs(x0) + std::abs(x1) + std::abs(y0) + std::abs(y1)) * 0.11;
    R.check(std::abs(ob.min_.X - x0) <= tol && std::abs(ob.max_.X - x1) <= tol && std::abs(ob.min_.Y - y0) <= tol && std::abs(ob.max_.Y - y1) <= tol, "oriented:not-around", show(ob) + h::show(q));
}

static void space(Run& R, Rng& g)
{
    const i64 ext = g.logn(4, 300000);
    struct T
    {
        i64 lo[3] = { 1LL << 60, 1LL << 60, 1LL << 60 }, hi[3] = { -(1LL << 60), -(1LL << 60), -(1LL << 60) };
    } t, u;
    auto same = [](const cura::AABB3D& a, const T& t)
    {
        bool ok = true;
        for (int i = 0; i < 3; ++i)
            ok = ok && a.min_[i] == t.lo[i] && a.max_[i] == t.hi[i];
        return ok;
    };
    auto make = [&](T& t)
    {
        cura::AABB3D b;
        const int n = int(g.in(1, 4));
        for (int i = 0; i < n; ++i)
        {
            i64 v[3];
            for (int k = 0; k < 3; ++k)
            {
                v[k] = g.in(-ext, ext);
                t.lo[k] = std::min(t.lo[k], v[k]);
                t.hi[k] = std::max(t.hi[k], v[k]);
            }
            b.include(cura::Point3LL(v[0], v[1], v[2]));
        }
        return b;
    };
    cura::AABB3D a = make(t), b = make(u);
    const std::string info = fmt("(%lld,%lld,%lld)-(%lld,%lld,%lld) (%lld,%lld,%lld)-(%lld,%lld,%lld)", t.lo[0], t.lo[1], t.lo[2], t.hi[0], t.hi[1], t.hi[2], u.lo[0], u.lo[1], u.lo[2], u.hi[0], u.hi[1], u.hi[2]);
    R.check(same(a, t) && a.spanX() == t.hi[0] - t.lo[0] && a.spanY() == t.hi[1] - t.lo[1] && a.spanZ() == t.hi[2] - t.lo[2], "space:include", info);
    bool hit = true;
    for (int i = 0; i < 3; ++i)
        hit = hit && t.lo[i] <= u.hi[i] && u.lo[i] <= t.hi[i];
    R.check(a.hit(b) == hit && b.hit(a) == hit, "space:hit", info);
    const auto f = a.flatten();
    R.check(f.min_.X == t.lo[0] && f.min_.Y == t.lo[1] && f.max_.X == t.hi[0] && f.max_.Y == t.hi[1], "space:flatten", info);
    const auto m = a.getMiddle();
    for (int i = 0; i < 3; ++i)
        R.check(std::abs(m[i] - (t.lo[i] + t.hi[i]) / 2.0) <= 1, "space:middle", info);
    cura::AABB3D j = a;
    j.include(b);
    T tj = t;
    for (int i = 0; i < 3; ++i)
    {
        tj.lo[i] = std::min(t.lo[i], u.lo[i]);
        tj.hi[i] = std::max(t.hi[i], u.hi[i]);
    }
    R.check(same(j, tj), "space:include-box", info);
    cura::AABB3D z = a;
    const i64 zz = g.in(-2 * ext, 2 * ext);
    z.includeZ(zz);
    T tz = t;
    tz.lo[2] = std::min(tz.lo[2], zz);
    tz.hi[2] = std::max(tz.hi[2], zz);
    R.check(same(z, tz), "space:include-z", info);
    cura::AABB3D s = a, s2 = a;
    const i64 o[3] = { g.in(-ext, ext), g.in(-ext, ext), g.in(-ext, ext) };
    s.translate(cura::Point3LL(o[0], o[1], o[2]));
    s2.translate(cura::Point2LL(o[0], o[1]));
    T ts = t, ts2 = t;
    for (int i = 0; i < 3; ++i)
    {
        ts.lo[i] += o[i];
        ts.hi[i] += o[i];
        if (i < 2)
            ts2.lo[i] += o[i], ts2.hi[i] += o[i];
    }
    R.check(same(s, ts) && same(s2, ts2), "space:translate", info);
    for (bool xy : { false, true })
    {
        const i64 e = g.in(-ext / 2, ext);
        cura::AABB3D x = a;
        xy ? x.expandXY(e) : x.expand(e);
        T te = t;
        bool valid = true;
        for (int i = 0; i < (xy ? 2 : 3); ++i)
        {
            te.lo[i] -= e;
            te.hi[i] += e;
            valid = valid && te.lo[i] <= te.hi[i];
        }
        if (valid)
            R.check(same(x, te), "space:expand", info + fmt(" by %lld", e));
        else
        {
            R.check(x.min_.x_ > x.max_.x_ || x.min_.y_ > x.max_.y_ || x.min_.z_ > x.max_.z_, "space:expand-empty", info);
            x.include(cura::Point3LL(1, 2, 3));
            R.check(x.min_ == cura::Point3LL(1, 2, 3) && x.max_ == cura::Point3LL(1, 2, 3), "space:expand-reset", info);
        }
    }
}

int main(int argc, char** argv)
{
    return run_main(
        argc,
        argv,
        [](Run& R, Rng& g)
        {
            const uint64_t id = g.next();
            for (int i = 0; i < 5; ++i)
            {
                plane(R, g);
                space(R, g);
            }
            R.eval(id);
        });
}
