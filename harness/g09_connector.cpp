// Bridging of nested or neighbouring contours into one path.
#include "hc.hpp"

#include "utils/ExtrusionLine.h"
#include "utils/PolygonConnector.h"

using namespace h;

struct Loop
{
    Path p;
    std::vector<i64> w;
    bool closed = true;
};

static void judge(Run& R, const std::vector<Loop>& in, const std::vector<Loop>& out, i64 lw, const char* kind)
{
    std::string info = fmt("%s line width %lld in ", kind, lw);
    for (auto& l : in)
        info += show(l.p) + (l.closed ? " " : "open ");
    info += " out ";
    for (auto& l : out)
        info += show(l.p) + " ";
    const std::string k = std::string(kind) + ":";
    R.check(out.size() <= in.size() && (in.empty() || ! out.empty()), k + "count", info);
    i64 wmax = 0;
    for (auto& l : in)
        for (i64 w : l.w)
            wmax = std::max(wmax, w);
    // every edge of the result runs along one of the contours or is a bridge
    ld in_len = 0, out_len = 0;
    size_t bridges = 0;
    for (auto& l : in)
        in_len += length(l.p, true);
    std::vector<std::pair<P, P>> br;
    std::vector<std::vector<int>> edges_of(out.size());
    for (size_t o = 0; o < out.size(); ++o)
    {
        const Path& q = out[o].p;
        if (! R.check(q.size() >= 2, k + "empty", info))
            return;
        for (size_t i = 0; i < q.size(); ++i)
        {
            const P a = q[i], b = q[(i + 1) % q.size()];
            if (a == b)
                continue;
            out_len += dist(a, b);
            bool along = false;
            for (auto& l : in)
                for (size_t j = 0; j < l.p.size() && ! along; ++j)
                    along = dist_seg(a, l.p[j], l.p[(j + 1) % l.p.size()]) <= 2.5 && dist_seg(b, l.p[j], l.p[(j + 1) % l.p.size()]) <= 2.5;
            if (along)
                continue;
            ++bridges;
            br.push_back({ a, b });
            R.check(dist(a, b) <= 2 * wmax + lw / 2 + 6, k + "long-bridge", fmt("(%lld,%lld)-(%lld,%lld) ", a.x, a.y, b.x, b.y) + info);
            ld ea = 1e9, eb = 1e9; // a later bridge may start on an earlier one
            for (auto& [u, v] : br)
                if (! (u == a && v == b))
                    ea = std::min(ea, dist_seg(a, u, v)), eb = std::min(eb, dist_seg(b, u, v));
            for (auto& l : in)
                ea = std::min(ea, dist_path(a.x, a.y, l.p, true)), eb = std::min(eb, dist_path(b.x, b.y, l.p, true));
            R.check(ea <= 1.5L * wmax && eb <= 1.5L * wmax, k + "bridge-off", fmt("(%lld,%lld)-(%lld,%lld) ", a.x, a.y, b.x, b.y) + info);
        }
    }
    R.check(bridges <= 2 * (in.size() - out.size()) + (in.size() > out.size() ? 2 : 0), k + "bridges", fmt("%zu ", bridges) + info);
    R.stat("bridges", double(bridges));
    R.stat("loops joined", double(in.size() - out.size()));
    // the contours are still covered, apart from the gaps the bridges leave
    for (auto& l : in)
        for (size_t i = 0; i < l.p.size(); ++i)
            for (double t : { 0.0, 0.45 })
            {
                const P a = l.p[i], b = l.p[(i + 1) % l.p.size()];
                if (! l.closed && i + 1 == l.p.size())
                    continue;
                const ld x = a.x + (b.x - a.x) * t, y = a.y + (b.y - a.y) * t;
                ld d = 1e9;
                for (auto& o : out)
                    d = std::min(d, dist_path(x, y, o.p, true));
                if (d <= 3)
                    continue;
                ld nearest = 1e9;
                for (auto& [u, v] : br)
                {
                    nearest = std::min(nearest, dist_seg(x, y, u, v));
                    // the second connection is looked for where the contour leaves the band around the first, however far along it that is
                    const ld lx = v.x - u.x, ly = v.y - u.y, len = std::sqrt(lx * lx + ly * ly);
                    if (len > 10 && std::abs((x - u.x) * ly - (y - u.y) * lx) / len <= 1.3L * wmax)
                        nearest = std::min(nearest, 3.0L * wmax);
                }
                R.smax("uncovered from a bridge in widths", double(nearest / wmax));
                R.check(nearest <= 4 * wmax, k + "lost", fmt("(%.0Lf,%.0Lf) is %.0Lf from the result, %.0Lf from a bridge ", x, y, d, nearest) + info);
            }
    // nothing is drawn twice
    R.smax("extra length per bridge in widths", bridges ? double((out_len - in_len) / bridges / wmax) : 0);
    R.check(out_len <= in_len + bridges * (2.5L * wmax + 10) + 20, k + "longer", fmt("%.0Lf from %.0Lf ", out_len, in_len) + info);
}

int main(int argc, char** argv)
{
    return run_main(
        argc,
        argv,
        [](Run& R, Rng& g)
        {
            const i64 lw = g.in(150, 1200);
            Paths ps;
            if (g.p(0.6))
            { // nested
                cura::Shape s = shp({ simple_polygon(g, double(lw) * g.u(3, 25)) });
                const int n = int(g.in(1, 6));
                for (int i = 0; i < n && ! s.empty(); ++i)
                {
                    for (auto& q : paths(s))
                        if (q.size() >= 3 && std::abs(area(q)) > ld(lw) * lw)
                            ps.push_back(q);
                    s = s.offset(-lw + (g.p(0.2) ? g.in(-lw / 3, lw / 3) : 0));
                }
            }
            else
            { // side by side
                const i64 gap = g.in(lw / 3, lw * 3);
                i64 x = 0;
                for (int i = 0, n = int(g.in(1, 5)); i < n; ++i)
                {
                    const i64 w = g.in(2 * lw, 20 * lw), y0 = g.in(-5 * lw, 5 * lw), y1 = y0 + g.in(2 * lw, 20 * lw);
                    ps.push_back(rect(x, y0, x + w, y1));
                    if (g.p(0.3))
                        reverse(ps.back());
                    x += w + gap;
                }
            }
            if (ps.empty())
                return;
            for (auto& q : ps)
            { // which way round is the short way is decided by counting segments: give them comparable lengths
                Path d;
                for (size_t i = 0; i < q.size(); ++i)
                {
                    const P a = q[i], b = q[(i + 1) % q.size()];
                    const int n = std::max(1, int(std::hypot(double(b.x - a.x), double(b.y - a.y)) / (0.7 * lw)));
                    for (int j = 0; j < n; ++j)
                        d.push_back({ a.x + (b.x - a.x) * j / n, a.y + (b.y - a.y) * j / n });
                }
                q = d;
            }
            {
                cura::PolygonConnector con(lw);
                con.add(shp(ps));
                cura::Shape out;
                std::vector<cura::VariableWidthLines> op;
                con.connect(out, op);
                std::vector<Loop> a, b;
                for (auto& q : ps)
                    a.push_back({ q, std::vector<i64>(q.size(), lw), true });
                for (auto& q : paths(out))
                    b.push_back({ q, {}, true });
                judge(R, a, b, lw, "polygons");
            }
            {
                cura::PolygonConnector con(lw);
                std::vector<cura::VariableWidthLines> in(1), out;
                std::vector<Loop> a, b;
                std::vector<Path> opens;
                for (auto& q : ps)
                {
                    Loop l{ q, {}, std::hypot(double(q[0].x - q.back().x), double(q[0].y - q.back().y)) < 20 || ! g.p(0.15) };
                    cura::ExtrusionLine e(0, false, l.closed);
                    const i64 base = lw + g.in(-lw / 4, lw / 4);
                    for (auto& v : q)
                    {
                        l.w.push_back(base + g.in(-lw / 10, lw / 10));
                        e.emplace_back(c(v), l.w.back(), 0);
                    }
                    if (l.closed)
                        e.emplace_back(c(q[0]), l.w[0], 0);
                    in[0].push_back(e);
                    if (g.p(0.2))
                        in.emplace_back();
                    if (in.back().empty() && in.size() > 1)
                        std::swap(in.back(), in[0]);
                    if (l.closed)
                        a.push_back(l);
                    else
                        opens.push_back(q);
                }
                con.add(in);
                cura::Shape op;
                con.connect(op, out);
                R.check(op.empty(), "lines:polygons-appear", "");
                for (auto& v : out)
                    for (auto& e : v)
                    {
                        Loop l;
                        for (auto& j : e)
                        {
                            l.p.push_back(p(j.p_));
                            R.check(j.w_ >= lw * 5 / 8 && j.w_ <= lw * 11 / 8, "lines:width", fmt("%lld for %lld", (i64)j.w_, lw));
                        }
                        const auto it = std::find(opens.begin(), opens.end(), l.p);
                        if (it != opens.end())
                        { // open lines pass through untouched
                            opens.erase(it);
                            continue;
                        }
                        b.push_back(l);
                    }
                R.check(opens.empty(), "lines:open-line-lost", show(opens));
                if (! a.empty())
                    judge(R, a, b, lw, "lines");
                else
                    R.check(b.empty(), "lines:invented", "");
            }
            R.eval(fp(ps), ps.size() > 1);
        });
}
