// Monotonic ordering: neighbouring lines in the monotonic direction, every line once, from its nearer end.
#include "hc.hpp"

#include "PathOrderMonotonic.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Polygon.h"

using namespace h;
using ld = long double;
using Key = const cura::Polyline*;

namespace
{
i128 d2(const P& a, const P& b)
{
    return i128(a.x - b.x) * (a.x - b.x) + i128(a.y - b.y) * (a.y - b.y);
}

struct Line
{
    std::shared_ptr<cura::Polyline> line;
    Path v;
    bool closed = false, loop = false;
    ld m0 = 0, m1 = 0, p0 = 0, p1 = 0, front = 0; // extent along and across the direction
    int string = -1;
};
} // namespace

static void one(Run& R, Rng& g)
{
    const double angle = g.p(0.3) ? g.in(0, 7) * 0.78539816339744830962 : g.u(-7, 7);
    const ld mx = -std::cos((double)angle), my = std::sin((double)angle), qx = -my, qy = mx;
    const i64 spacing = g.logn(120, 3000);
    const i64 max_adjacent = spacing + g.pick(std::vector<i64>{ 1, spacing / 10 + 1, spacing / 2, spacing * 3 });
    const bool interlaced = g.p(0.25);
    const P start{ g.in(-60000, 60000), g.in(-60000, 60000) };
    std::vector<Line> lines;
    std::vector<P> ends;
    auto at = [&](ld along, ld across)
    {
        return P{ i64(std::llround(along * mx + across * qx)), i64(std::llround(along * my + across * qy)) };
    };
    auto add = [&](Path v, bool closed, int string)
    {
        Line l;
        l.v = v;
        l.closed = closed;
        l.string = string;
        if (closed)
        {
            auto q = std::make_shared<cura::Polygon>();
            for (const P& a : v)
                q->push_back(c(a));
            l.line = q;
        }
        else
        {
            auto q = std::make_shared<cura::OpenPolyline>();
            for (const P& a : v)
                q->push_back(c(a));
            l.line = q;
        }
        l.loop = closed || (v.size() >= 3 && d2(v.front(), v.back()) < 100);
        lines.push_back(l);
    };
    auto free_end = [&](const P& q)
    {
        for (const P& e : ends)
            if (d2(e, q) < 40 * 40)
                return false;
        return true;
    };
    const int kind = int(g.in(0, 5));
    const int rows = int(g.in(1, 14));
    if (kind <= 3)
    {
        // rows of lines, straight or kinked, jittered, several in a row, at times slanted
        for (int r = 0; r < rows; ++r)
        {
            ld x = g.in(-20000, 0);
            for (int k = int(g.in(1, kind == 0 ? 1 : 4)); k > 0; --k)
            {
                const ld len = g.logn(50, 20000);
                const ld a = r * spacing + (g.p(0.5) ? 0 : g.in(-spacing / 3, spacing / 3));
                const ld b = kind == 3 ? a + g.in(-spacing, spacing) : a;
                Path v{ at(a, x), at(b, x + len) };
                if (g.p(0.2))
                    v.insert(v.begin() + 1, at((a + b) / 2 + g.in(-50, 50), x + len / 2));
                if (g.p(0.5))
                    reverse(v);
                if (free_end(v.front()) && free_end(v.back()) && d2(v.front(), v.back()) > 40 * 40)
                {
                    ends.push_back(v.front());
                    ends.push_back(v.back());
                    add(v, false, -1);
                }
                x += len + g.logn(50, 5000);
            }
        }
    }
    else if (kind == 4)
    {
        // strings of lines whose ends meet
        for (int s = int(g.in(1, 3)); s > 0; --s)
        {
            P at0 = at(g.in(0, 20000), g.in(-20000, 20000));
            if (! free_end(at0))
                continue;
            std::vector<P> corners{ at0 };
            for (int k = int(g.in(1, 6)); k > 0; --k)
            {
                const P q{ at0.x + g.in(-8000, 8000), at0.y + g.in(-8000, 8000) };
                if (! free_end(q) || d2(q, at0) < 100 * 100)
                    break;
                bool clash = false;
                for (const P& e : corners)
                    clash |= d2(e, q) < 50 * 50;
                if (clash)
                    break;
                corners.push_back(at0 = q);
            }
            if (corners.size() < 2)
                continue;
            for (const P& q : corners)
                ends.push_back(q);
            for (size_t i = 0; i + 1 < corners.size(); ++i)
            {
                Path v{ corners[i], { corners[i + 1].x + g.in(-3, 3), corners[i + 1].y + g.in(-3, 3) } };
                if (g.p(0.5))
                    reverse(v);
                add(v, false, s);
            }
        }
    }
    else
        for (int r = 0; r < rows; ++r)
            add({ at(g.in(-20000, 20000), g.in(-20000, 20000)), at(g.in(-20000, 20000), g.in(-20000, 20000)) }, false, 99); // anything
    for (int k = g.p(0.2) ? int(g.in(1, 3)) : 0; k > 0; --k)
    {
        Path v = simple_polygon(g, 4000);
        if (g.p(0.4))
        {
            v.push_back({ v[0].x + g.in(-6, 6), v[0].y + g.in(-6, 6) });
            add(v, false, -2);
        }
        else
            add(v, true, -2);
    }
    for (size_t i = lines.size(); i > 1; --i)
        std::swap(lines[i - 1], lines[g.next() % i]);
    if (lines.empty())
        return;
    std::map<Key, int> index;
    cura::PathOrderMonotonic<Key> order{ cura::AngleRadians(angle), max_adjacent, c(start), interlaced };
    for (size_t i = 0; i < lines.size(); ++i)
    {
        Line& l = lines[i];
        index[l.line.get()] = int(i);
        const P a = l.v.front(), b = l.v.back();
        const ld am = a.x * mx + a.y * my, bm = b.x * mx + b.y * my, ap = a.x * qx + a.y * qy, bp = b.x * qx + b.y * qy;
        l.front = am;
        l.m0 = std::min(am, bm), l.m1 = std::max(am, bm), l.p0 = std::min(ap, bp), l.p1 = std::max(ap, bp);
        if (l.closed)
            order.addPolygon(l.line.get());
        else
            order.addPolyline(l.line.get());
    }
    order.optimize();
    std::string info = h::fmt("kind %d angle %.6f adjacent %lld interlaced %d start (%lld,%lld) lines:", kind, angle, (long long)max_adjacent, interlaced, (long long)start.x, (long long)start.y);
    for (const Line& l : lines)
        info += show(l.v);
    info += " order:";
    std::vector<int> seq;
    std::set<int> once;
    bool complete = order.paths_.size() == lines.size();
    for (auto& q : order.paths_)
    {
        auto f = index.find(q.vertices_);
        if (f == index.end() || ! once.insert(f->second).second)
            complete = false;
        else
            seq.push_back(f->second);
        info += h::fmt(" %d@%zu%s", f == index.end() ? -1 : f->second, q.start_vertex_, q.backwards_ ? "b" : "");
    }
    R.check(complete, "monotonic:permutation", info);
    R.stat("lines ordered", lines.size());
    if (! complete)
        return;
    const size_t N = lines.size();
    size_t opens = 0;
    while (opens < N && ! lines[seq[opens]].loop)
        ++opens;
    for (size_t k = 0; k < N; ++k)
    {
        const Line& l = lines[seq[k]];
        const auto& q = order.paths_[k];
        R.check(q.is_closed_ == l.loop && l.loop == (k >= opens), "monotonic:loops-last", info);
        if (! l.loop)
        {
            R.check(q.start_vertex_ == 0 || q.start_vertex_ + 1 == l.v.size(), "monotonic:end", info);
            R.check(q.backwards_ == (q.start_vertex_ > 0), "monotonic:direction", h::fmt("at %zu ", k) + info);
        }
    }
    if (kind == 5)
        return;
    auto first = [&](size_t k)
    {
        const Line& l = lines[seq[k]];
        return order.paths_[k].start_vertex_ == 0 ? l.v.front() : l.v.back();
    };
    auto last = [&](size_t k)
    {
        const Line& l = lines[seq[k]];
        return order.paths_[k].start_vertex_ == 0 ? l.v.back() : l.v.front();
    };
    // passes
    std::vector<std::pair<size_t, size_t>> spans;
    ld reach = max_adjacent;
    if (! interlaced)
        spans.push_back({ 0, opens });
    else
    {
        reach *= 2;
        if (kind == 3 || kind == 4)
            return; // which pass a slanted line belongs to depends on which end is its front
        // the rows alternate between the passes; a new row starts half an adjacency distance beyond the first line of the row
        std::vector<int> idx(seq.begin(), seq.begin() + opens);
        std::sort(idx.begin(), idx.end(), [&](int a, int b) { return lines[a].m0 < lines[b].m0; });
        std::vector<int> pass(N, 0);
        int p = 0;
        ld row = 0;
        for (size_t k = 0; k < idx.size(); ++k)
        {
            const ld m = lines[idx[k]].front;
            if (k && (std::abs(m - row - max_adjacent / 2) < 3 || (lines[idx[k]].m0 - lines[idx[k - 1]].m0 < 3 && std::abs(m - row) > 3)))
                return; // too close to tell
            if (k == 0)
                row = m;
            else if (m - row > max_adjacent / 2)
            {
                p ^= 1;
                row = m;
            }
            pass[idx[k]] = p;
        }
        size_t second = 0;
        while (second < opens && pass[seq[second]] == 1)
            ++second;
        for (size_t k = second; k < opens; ++k)
            R.check(pass[seq[k]] == 0, "interlaced:passes", info);
        R.stat("interlaced orders judged");
        spans.push_back({ 0, second });
        spans.push_back({ second, opens });
    }
    for (auto [from, to] : spans)
    {
        P pos = start;
        for (size_t k = from; k < to; ++k)
        {
            const Line& l = lines[seq[k]];
            if (kind != 4)
            {
                R.check(d2(pos, first(k)) <= d2(pos, last(k)), "monotonic:nearer-end", h::fmt("at %zu ", k) + info);
                for (size_t j = k + 1; j < to; ++j)
                {
                    const Line& o = lines[seq[j]];
                    // o is printed after l, so it must not lie before it where they are neighbours
                    if (o.m0 < l.m0 - 25 && l.m0 <= o.m1 + reach - 2 && o.p0 <= l.p1 + reach - 2 && l.p0 <= o.p1 + reach - 2)
                        R.check(false, "monotonic:neighbours", h::fmt("%d before %d ", seq[k], seq[j]) + info);
                    R.stat("pairs judged");
                }
            }
            else if (k > from && lines[seq[k - 1]].string == l.string)
                R.stat("string steps");
            pos = last(k);
        }
    }
}

int main(int argc, char** argv)
{
    return run_main(
        argc,
        argv,
        [](Run& R, Rng& g)
        {
            for (int k = 0; k < 10; ++k)
                one(R, g);
            R.eval(g.next(), true);
        });
}
