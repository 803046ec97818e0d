// Stitching loose line pieces into chains and loops: nothing lost, nothing doubled, nothing left that fits.
#include "hc.hpp"

#include "utils/ExtrusionLine.h"
#include "utils/ExtrusionLineStitcher.h"
#include "utils/MixedPolylineStitcher.h"
#include "utils/OpenPolylineStitcher.h"
#include "utils/PolylineStitcher.h"

using namespace h;

struct Piece
{
    Path p;
    bool odd = false;
    int source = 0;
};
struct Chain
{
    Path p;
    bool closed = false, odd = false;
};

static void judge(Run& R, const std::vector<Piece>& in, const std::vector<Chain>& out, i64 stitch, i64 snap, bool directed, const std::string& kind)
{
    auto info = [&]()
    {
        std::string s = kind + fmt(" stitch=%lld snap=%lld in=", stitch, snap);
        for (auto& q : in)
            s += (q.odd ? "o" : "") + show(q.p, 8);
        s += " out=";
        for (auto& q : out)
            s += (q.closed ? "C" : "") + show(q.p, 40);
        return s;
    };
    // every point of the input is unique; find each in the output
    std::map<P, std::vector<std::pair<size_t, size_t>>> where;
    std::map<P, std::pair<size_t, size_t>> src;
    for (size_t i = 0; i < in.size(); ++i)
        for (size_t k = 0; k < in[i].p.size(); ++k)
            src[in[i].p[k]] = { i, k };
    for (size_t i = 0; i < out.size(); ++i)
        for (size_t k = 0; k < out[i].p.size(); ++k)
        {
            if (! R.check(src.count(out[i].p[k]), kind + ":invented-point", fmt("(%lld,%lld) ", out[i].p[k].x, out[i].p[k].y) + info()))
                return;
            where[out[i].p[k]].push_back({ i, k });
        }
    for (size_t i = 0; i < in.size(); ++i)
    {
        const Path& q = in[i].p;
        size_t missing = 0;
        for (size_t k = 0; k < q.size(); ++k)
        {
            const size_t n = where[q[k]].size();
            R.check(n <= 1, kind + ":doubled", fmt("piece %zu point %zu appears %zu times ", i, k, n) + info());
            if (n == 0)
            {
                ++missing;
                const bool end = k == 0 || k + 1 == q.size();
                R.check(end, kind + ":lost", fmt("piece %zu point %zu ", i, k) + info());
                // an end may be merged into an end that is (nearly) the same point
                bool merged = false;
                if (end)
                    for (auto& [v, w] : where)
                        if (! w.empty() && dist(v, q[k]) <= snap + 1)
                            merged = true;
                R.check(merged, kind + ":end-lost", fmt("piece %zu point %zu ", i, k) + info());
            }
        }
        // consecutive points stay consecutive, in one chain
        int dir = 0;
        for (size_t k = 1; k < q.size(); ++k)
        {
            auto &a = where[q[k - 1]], &b = where[q[k]];
            if (a.size() != 1 || b.size() != 1)
                continue;
            if (! R.check(a[0].first == b[0].first, kind + ":torn", fmt("piece %zu ", i) + info()))
                continue;
            const Chain& ch = out[a[0].first];
            const i64 d = i64(b[0].second) - i64(a[0].second), n = i64(ch.p.size());
            const bool adj = d == 1 || d == -1 || (ch.closed && (d == n - 1 || d == 1 - n));
            R.check(adj, kind + ":reordered", fmt("piece %zu at %zu ", i, k) + info());
            const int dd = (d == 1 || (d == 1 - n && n > 2)) ? 1 : -1;
            if (n > 2)
            {
                R.check(dir == 0 || dir == dd, kind + ":direction-mixed", info());
                dir = dd;
            }
            R.check(ch.odd == in[i].odd, kind + ":kind-mixed", info());
        }
        if (directed && ! in[i].odd)
            R.check(dir >= 0, kind + ":reversed", fmt("piece %zu ", i) + info());
        (void)missing;
    }
    // bridges are short
    for (size_t i = 0; i < out.size(); ++i)
    {
        const Path& q = out[i].p;
        for (size_t k = 1; k < q.size() + (out[i].closed ? 1 : 0); ++k)
        {
            const P a = q[k - 1], b = q[k % q.size()];
            const auto sa = src[a], sb = src[b];
            if (sa.first == sb.first && (sa.second + 1 == sb.second || sb.second + 1 == sa.second))
                continue;
            R.stat("joints");
            // a merged end is missing beside the bridge, so a little more than the limit is possible
            const ld lim = (k == q.size() ? std::max(stitch, snap) : stitch) + snap + 2;
            ld gap = 1e30L;
            for (const P& u : { in[sa.first].p.front(), in[sa.first].p.back(), a })
                for (const P& v : { in[sb.first].p.front(), in[sb.first].p.back(), b })
                    gap = std::min(gap, dist(u, v));
            R.check(gap <= lim, kind + ":long-bridge", fmt("chain %zu at %zu gap %.1Lf ", i, k, gap) + info());
        }
    }
}

static void maximal(Run& R, const std::vector<Piece>& in, const std::vector<Chain>& out, i64 stitch, i64 snap, bool directed, const std::string& kind, const std::function<std::string()>& info)
{
    for (size_t i = 0; i < out.size(); ++i)
    {
        if (out[i].closed || out[i].p.empty())
            continue;
        for (size_t k = i + 1; k < out.size(); ++k)
        {
            if (out[k].closed || out[k].p.empty() || out[i].odd != out[k].odd)
                continue;
            for (int e = 0; e < 2; ++e)
                for (int f = 0; f < 2; ++f)
                {
                    if (directed && ! out[i].odd && e == f)
                        continue;
                    const P a = e ? out[i].p.back() : out[i].p.front(), b = f ? out[k].p.back() : out[k].p.front();
                    if (dist(a, b) > stitch - 1)
                        continue;
                    // an end next to the other end of its own chain does not look further
                    if (dist(out[i].p.front(), out[i].p.back()) <= 2 * (stitch + snap) + 10 || dist(out[k].p.front(), out[k].p.back()) <= 2 * (stitch + snap) + 10)
                        continue;
                    { // nor does one that grew at its other end from beside this place: only judge places with one candidate
                        int near = 0;
                        for (auto& q : in)
                            near += (dist(q.p.front(), a) <= 2 * (stitch + snap) + 10) + (dist(q.p.back(), a) <= 2 * (stitch + snap) + 10);
                        if (near > 2)
                            continue;
                    }
                    R.violation(kind + ":unjoined", fmt("chains %zu and %zu end %.1Lf apart ", i, k, dist(a, b)) + info());
                }
        }
    }
}

static void one(Run& R, Rng& g)
{
    const i64 stitch = g.logn(15, 2000), snap = g.p(0.5) ? 10 : g.in(1, std::min<i64>(stitch, 50));
    const double size = double(g.logn(stitch * 2, stitch * 60 + 100));
    std::vector<Piece> pieces;
    std::set<P> used;
    const bool spaced = g.p(0.5);
    const int nsrc = int(g.in(1, 4));
    std::vector<bool> loops;
    const bool tight = g.p(0.6); // gaps well below the limit
    for (int s = 0; s < nsrc; ++s)
    {
        Path q;
        const bool loop = g.p(0.5);
        const i64 cx = spaced ? s * i64(3 * size + 4 * stitch) : g.in(-i64(size), i64(size)), cy = spaced ? 0 : g.in(-i64(size), i64(size));
        if (loop)
            q = g.p(0.7) ? circle(int(g.in(3, 40)), size, cx, cy, g.u(0, 6)) : simple_polygon(g, size, cx, cy);
        else
        {
            double a = g.u(0, 6), x = cx, y = cy, n = double(g.in(2, 20));
            for (int i = 0; i < n; ++i)
            {
                q.push_back({ std::llround(x), std::llround(y) });
                a += g.u(-0.8, 0.8);
                x += cos(a) * (2 * size / n + 3);
                y += sin(a) * (2 * size / n + 3);
            }
        }
        loops.push_back(loop);
        if (loop)
            q.push_back(q[0]);
        // cut
        const double cut = g.u(0, 0.9);
        Piece cur;
        cur.source = s;
        cur.odd = false;
        auto flush = [&]()
        {
            if (cur.p.size() >= 2)
                pieces.push_back(cur);
            cur.p.clear();
        };
        for (size_t i = 0; i < q.size(); ++i)
        {
            cur.p.push_back(q[i]);
            if (i + 1 < q.size() && i > 0 && g.p(cut))
            {
                flush();
                const i64 d = tight ? std::max<i64>(0, std::min<i64>(stitch / 3, i64(dist(q[i], q[i + 1]) / 3))) : g.in(0, stitch * 2);
                cur.p.push_back({ q[i].x + g.in(-d / 2, d / 2), q[i].y + g.in(-d / 2, d / 2) });
            }
        }
        flush();
    }
    // make all points unique
    for (auto& pc : pieces)
        for (auto& v : pc.p)
            while (! used.insert(v).second)
                v = { v.x + g.in(-2, 2), v.y + g.in(-2, 2) };
    const bool rev = g.p(0.5);
    for (size_t i = pieces.size(); i > 1; --i)
        std::swap(pieces[i - 1], pieces[g.next() % i]);
    auto fpv = [&]()
    {
        uint64_t v = mix(stitch, snap);
        for (auto& q : pieces)
            v = mix(v, fp(q.p));
        return v;
    };
    if (pieces.empty())
        return;
    R.eval(fpv(), pieces.size() > 1);
    R.stat("pieces", double(pieces.size()));
    std::vector<Piece> in = pieces;
    if (rev)
        for (auto& q : in)
            if (g.p(0.5))
                reverse(q.p);
    auto info = [&]()
    {
        std::string s = fmt(" stitch=%lld snap=%lld in=", stitch, snap);
        for (auto& q : in)
            s += (q.odd ? "o" : "") + show(q.p, 8);
        return s;
    };
    {
        cura::OpenLinesSet ls, open_out;
        cura::Shape closed_out;
        for (auto& q : in)
            ls.push_back(open(q.p));
        cura::OpenPolylineStitcher::stitch(ls, open_out, closed_out, stitch, snap);
        std::vector<Chain> out;
        for (auto& q : paths(open_out))
            out.push_back({ q, false, false });
        for (auto& q : paths(closed_out))
            out.push_back({ q, true, false });
        R.stat("loops found", double(closed_out.size()));
        R.stat("open chains", double(open_out.size()));
        judge(R, in, out, stitch, snap, false, "lines");
        maximal(R, in, out, stitch, snap, false, "lines", info);
        // pieces of far-apart sources with small gaps give back exactly the sources
        if (spaced && tight && stitch > 3 * snap && size > 12 * stitch)
        {
            size_t want_loops = 0, want_open = 0;
            for (size_t s = 0; s < loops.size(); ++s)
                (loops[s] ? want_loops : want_open) += 1;
            R.stat("reconstructions judged");
            R.check(open_out.size() == want_open && closed_out.size() == want_loops, "lines:fragments", fmt("%zu open of %zu, %zu closed of %zu ", open_out.size(), want_open, closed_out.size(), want_loops) + info());
        }
        cura::MixedLinesSet mixed;
        cura::MixedPolylineStitcher::stitch(ls, mixed, stitch, snap);
        std::vector<Chain> mout;
        for (const auto& l : mixed)
        {
            const bool cl = bool(std::dynamic_pointer_cast<cura::ClosedPolyline>(l));
            mout.push_back({ path(*l), cl, false });
        }
        judge(R, in, mout, stitch, snap, false, "mixed");
        R.check(mout.size() == out.size(), "mixed:count", info());
    }
    {
        std::vector<Piece> ex = in;
        cura::VariableWidthLines ls, open_out, closed_out;
        for (auto& q : ex)
        {
            q.odd = g.p(0.4);
            cura::ExtrusionLine l(size_t(q.source), q.odd);
            for (auto& v : q.p)
                l.emplace_back(c(v), 400 + v.x % 7, size_t(q.source));
            ls.push_back(l);
        }
        cura::ExtrusionLineStitcher::stitch(ls, open_out, closed_out, stitch, snap);
        std::vector<Chain> out;
        for (auto* set : { &open_out, &closed_out })
            for (auto& l : *set)
            {
                Chain ch;
                ch.closed = set == &closed_out;
                ch.odd = l.is_odd_;
                for (auto& j : l.junctions_)
                {
                    ch.p.push_back(p(j.p_));
                    R.check(j.w_ == 400 + j.p_.X % 7, "extrusion:width", info());
                }
                out.push_back(ch);
            }
        judge(R, ex, out, stitch, snap, true, "extrusion");
        maximal(R, ex, out, stitch, snap, true, "extrusion", info);
    }
    if (R.cur < 2)
        R.sample(info());
}

int main(int argc, char** argv)
{
    return run_main(argc, argv, one);
}
