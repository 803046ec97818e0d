// Path simplification: how far the result strays from the input, what must survive, what must go.
#include "hc.hpp"

#include "utils/ExtrusionLine.h"
#include "utils/Simplify.h"

using namespace h;
using cura::Simplify;

// The limit applies to each removal; removals near one another add up.
static constexpr ld LIMIT_OUT = 2.6, LIMIT_IN = 3.2;

static Path wobble(Rng& g, int n, double step, double noise, bool closed)
{
    Path p;
    if (closed)
    {
        double r = step * n / 6.3 + 20;
        double ph = g.u(0, 6), a3 = g.u(0, 0.3), k = double(g.in(2, 7));
        for (int i = 0; i < n; ++i)
        {
            double a = ph + 2 * M_PI * i / n, rr = r * (1 + a3 * sin(k * a)) + noise * g.u(-1, 1);
            p.push_back({ std::llround(rr * cos(a)), std::llround(rr * sin(a)) });
        }
    }
    else
    {
        double x = 0, y = 0, a = g.u(0, 6), bend = g.u(-0.3, 0.3);
        for (int i = 0; i < n; ++i)
        {
            p.push_back({ std::llround(x + noise * g.u(-1, 1)), std::llround(y + noise * g.u(-1, 1)) });
            a += bend * g.u(0, 1);
            const double st = step * g.u(0.2, 1.8);
            x += cos(a) * st;
            y += sin(a) * st;
        }
    }
    p.erase(std::unique(p.begin(), p.end()), p.end());
    return p;
}

static ld turn_cos(P a, P b, P c)
{
    const ld l = dist(a, b) * dist(b, c);
    return l == 0 ? 1 : ((b.x - a.x) * ld(c.x - b.x) + (b.y - a.y) * ld(c.y - b.y)) / l;
}

static void judge(Run& R, Rng& g, const Path& in, const Path& out, bool closed, i64 res, i64 dev, const std::string& kind)
{
    auto info = [&]() { return kind + fmt(" res=%lld dev=%lld in=", res, dev) + show(in, 120) + " out=" + show(out, 120); };
    const size_t min_size = closed ? 3 : 2;
    R.check(out.size() <= in.size(), kind + ":grew", info());
    R.stat("vertices in", double(in.size()));
    R.stat("vertices out", double(out.size()));
    if (! closed && in.size() >= 2 && ! out.empty())
    {
        R.check(out.front() == in.front() && out.back() == in.back(), kind + ":endpoints", info());
    }
    // whether the input folds back on itself sharply somewhere, which legitimately lets a spike vanish
    bool fold = false, sharp = false;
    for (size_t i = 0; i < in.size(); ++i)
        if (closed || (i > 0 && i + 1 < in.size()))
        {
            const ld tc = turn_cos(in[(i + in.size() - 1) % in.size()], in[i], in[(i + 1) % in.size()]);
            fold |= tc < 0.25;
            sharp |= tc < -0.2;
        }
    ld extent = 0;
    for (auto& v : in)
        extent = std::max(extent, dist(v, in[0]));
    if (fold)
        R.stat("inputs with sharp folds");
    ld worst = 0, worst_in = 0;
    for (auto& v : out)
        worst = std::max(worst, dist_path(v.x, v.y, in, closed));
    if (! out.empty())
        for (auto& v : in)
            worst_in = std::max(worst_in, dist_path(v.x, v.y, out, closed));
    const ld unit = std::max<ld>(dev, 5);
    ld shortest = 1e30L;
    for (size_t i = closed ? 0 : 1; i < in.size(); ++i)
        shortest = std::min(shortest, dist(in[i], in[(i + in.size() - 1) % in.size()]));
    if (! fold || (! sharp && shortest > 10 * unit))
    {
        R.stat("deviations judged");
        R.smax("out deviation ratio", double(worst / (unit)));
        R.smax("in deviation ratio", double(worst_in / (unit)));
        R.check(worst <= LIMIT_OUT * unit + 3, kind + ":stray", fmt("%.1Lf ", worst) + info());
        R.check(worst_in <= LIMIT_IN * unit + 3, kind + ":lost", fmt("%.1Lf ", worst_in) + info());
        if (out.empty())
            R.check(extent <= 12 * unit || in.size() < min_size, kind + ":vanished", info());
    }
    // what must go
    if (out.size() > min_size)
    {
        for (size_t i = closed ? 0 : 1; i + (closed ? 0 : 1) < out.size(); ++i)
        {
            const P a = out[(i + out.size() - 1) % out.size()], b = out[i], c = out[(i + 1) % out.size()];
            if (a == c)
                continue;
            const ld l = dist(a, c), off = std::abs(ld(cross(a, c, b))) / l;
            R.check(off > std::min<ld>(4.0, dev - 0.6L), kind + ":redundant", fmt("vertex %zu off by %.2Lf ", i, off) + info());
        }
    }
    // what must stay: corners between long edges
    if (in.size() > min_size && ! out.empty())
    {
        std::set<P> have(out.begin(), out.end());
        for (size_t i = closed ? 0 : 1; i + (closed ? 0 : 1) < in.size(); ++i)
        {
            const size_t n = in.size();
            const P a = in[(i + n - 1) % n], b = in[i], c = in[(i + 1) % n];
            if ((! closed && (i < 2 || i + 2 >= n)) || n < 6)
                continue;
            const P aa = in[(i + n - 2) % n], cc = in[(i + 2) % n];
            const ld lim = ld(res) * 1.5L + 4 * unit;
            if (dist(a, b) > lim && dist(b, c) > lim && dist(aa, a) > lim && dist(c, cc) > lim && std::abs(ld(cross(a, c, b))) / std::max<ld>(1, dist(a, c)) > 12 && std::abs(ld(cross(aa, b, a))) / std::max<ld>(1, dist(aa, b)) > 12
                && std::abs(ld(cross(b, cc, c))) / std::max<ld>(1, dist(b, cc)) > 12)
            {
                R.stat("corners between long edges");
                R.check(have.count(b), kind + ":corner-lost", fmt("vertex %zu ", i) + info());
            }
        }
    }
    // the covered region away from the contour
    if (closed && ! fold && in.size() >= 3)
    {
        for (int k = 0; k < 12; ++k)
        {
            const P q = random_point(g, { in }, 100);
            if (dist_path(q.x, q.y, in, true) <= LIMIT_OUT * unit + 3)
                continue;
            R.stat("points judged");
            R.check((winding(in, q.x, q.y) != 0) == (! out.empty() && winding(out, q.x, q.y) != 0), kind + ":region", fmt("(%lld,%lld) ", q.x, q.y) + info());
        }
    }
}

static void one(Run& R, Rng& g)
{
    const i64 res = g.p(0.1) ? g.in(1, 20) : g.logn(20, 3000), dev = g.p(0.1) ? g.in(1, 5) : g.logn(5, 400);
    const i64 area_dev = g.logn(100, 1000000);
    const Simplify S(res, dev, area_dev);
    const bool closed = g.p(0.5);
    Path in;
    if (g.p(0.7))
    {
        in = wobble(g, int(g.in(1, 150)), double(g.logn(5, res * 3)), g.p(0.3) ? 0 : double(g.logn(1, std::max<i64>(2, dev * 2))), closed);
    }
    else if (g.p(0.6))
    {
        in = simple_polygon(g, double(g.logn(50, 30000)));
    }
    else
    {
        for (int i = int(g.in(1, 12)); i > 0; --i)
            in.push_back({ g.in(-res * 2, res * 2), g.in(-res * 2, res * 2) });
    }
    R.eval(mix(fp(in), mix(res, dev)), in.size() > 3);
    if (closed)
    {
        const Path out = path(S.polygon(poly(in)));
        judge(R, g, in, out, true, res, dev, "polygon");
        const Paths o2 = paths(S.polygon(shp({ in })));
        R.check(o2 == (out.empty() ? Paths{} : Paths{ out }), "batch:polygon", show(in));
        const cura::ClosedPolyline cp(cpath(in), false);
        const Path o3 = path(S.polyline(cp));
        R.check(in.empty() || o3.empty() || (o3.front() == in.front() && o3.back() == in.back()) || in.size() <= 2, "closed-polyline:endpoints", show(in) + " " + show(o3));
    }
    else
    {
        const Path out = path(S.polyline(open(in)));
        judge(R, g, in, out, false, res, dev, "polyline");
        cura::LinesSet<cura::OpenPolyline> ls;
        ls.push_back(open(in));
        const auto o2 = paths(S.polyline(ls));
        R.check(o2 == (out.empty() ? Paths{} : Paths{ out }), "batch:polyline", show(in));
    }
    // variable width
    if (in.size() >= 1)
    {
        const bool constant = g.p(0.4);
        cura::ExtrusionLine el(size_t(g.in(0, 5)), g.p(0.5));
        i64 w = g.in(100, 800), lo = 1e9, hi = 0;
        for (auto& v : in)
        {
            if (! constant)
                w = std::clamp<i64>(w + g.in(-60, 60), 50, 1500);
            lo = std::min(lo, w);
            hi = std::max(hi, w);
            el.emplace_back(c(v), w, el.inset_idx_);
        }
        el.is_closed_ = closed;
        const cura::ExtrusionLine o = closed ? S.polygon(el) : S.polyline(el);
        Path op;
        for (const auto& j : o.junctions_)
        {
            op.push_back(p(j.p_));
            R.check(j.w_ >= lo && j.w_ <= hi, "width:range", fmt("%lld not in %lld..%lld", i64(j.w_), lo, hi));
            R.check(j.perimeter_index_ == el.inset_idx_, "width:index", "");
        }
        R.check(o.inset_idx_ == el.inset_idx_ && o.is_odd_ == el.is_odd_ && o.is_closed_ == el.is_closed_, "width:flags", show(in));
        if (constant)
            judge(R, g, in, op, closed, res, dev, "extrusion");
        else
        {
            R.check(op.size() <= in.size(), "extrusion:grew", show(in));
            if (! closed && in.size() >= 2 && ! op.empty())
                R.check(op.front() == in.front() && op.back() == in.back(), "extrusion:endpoints", show(in) + show(op));
            ld l0 = 0, l1 = 0; // swept area
            for (size_t i = 1; i < el.size(); ++i)
                l0 += dist(in[i - 1], in[i]) * (el.junctions_[i - 1].w_ + el.junctions_[i].w_) / 2;
            for (size_t i = 1; i < o.size(); ++i)
                l1 += dist(op[i - 1], op[i]) * (o.junctions_[i - 1].w_ + o.junctions_[i].w_) / 2;
            (void)l0;
            (void)l1;
        }
    }
    if (R.cur < 2)
        R.sample(fmt("res %lld dev %lld closed %d ", res, dev, closed) + show(in, 20));
}

int main(int argc, char** argv)
{
    return run_main(argc, argv, one);
}
