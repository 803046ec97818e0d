// Path ordering: the order, direction and seam of every path are judged by replaying the walk with exhaustive searches.
#include "hc.hpp"

#include "PathOrderOptimizer.h"
#include "geometry/ClosedPolyline.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Polygon.h"
#include "settings/ZSeamConfig.h"
#include "utils/scoring/BestElementFinder.h"
#include "utils/scoring/ScoringCriterion.h"

using namespace h;
using ld = long double;
using Key = const cura::Polyline*;
using Opt = cura::PathOrderOptimizer<Key>;

namespace
{
struct Item
{
    std::shared_ptr<cura::Polyline> line;
    Path v;
    bool closed = false, outer = false;
    std::optional<size_t> force, given; // where the seam is told to be
    bool loop = false; // closed, or treated so
    bool shortest = false; // its seam follows the nozzle
};

struct World
{
    cura::EZSeamType type;
    cura::EZSeamCornerPrefType corner;
    P pos;
    Paths overhang, disallowed;
};

constexpr ld PI = 3.14159265358979323846264338327950288L;

i128 d2(const P& a, const P& b)
{
    return i128(a.x - b.x) * (a.x - b.x) + i128(a.y - b.y) * (a.y - b.y);
}

// 0 outside, 1 inside, 2 too close to tell
int where(const Paths& a, const P& q)
{
    if (a.empty())
        return 0;
    if (dist_paths(q.x, q.y, a) < 3)
        return 2;
    return crossings(a, q.x, q.y);
}

P walk(const Path& v, size_t from, i64 d, int dir, ld& x, ld& y)
{
    const size_t n = v.size();
    size_t i = from;
    for (;;)
    {
        const size_t j = dir > 0 ? (i + 1) % n : (i + n - 1) % n;
        const i64 s = std::llrint(std::sqrt((double)d2(v[i], v[j])));
        if (s >= d)
        {
            const ld t = s ? ld(d) / s : 0;
            x = v[i].x + t * (v[j].x - v[i].x);
            y = v[i].y + t * (v[j].y - v[i].y);
            return {};
        }
        d -= s;
        i = j;
    }
}

// the vertices that may be the seam of a closed path
std::vector<char> seams(const Item& it, const World& w, const P& target, bool& known)
{
    const Path& v = it.v;
    const size_t n = v.size();
    std::vector<char> ok(n, 0);
    std::vector<int> over(n, 0);
    bool any_out = false;
    known = true;
    for (size_t i = 0; i < n; ++i)
    {
        over[i] = where(w.overhang, v[i]);
        if (over[i] == 2)
        {
            known = false;
            return ok;
        }
        any_out |= ! over[i];
    }
    const bool forced = it.force.has_value();
    const auto type = it.shortest ? cura::EZSeamType::SHORTEST : w.type;
    auto eligible = [&](size_t i)
    {
        return ! any_out || ! over[i];
    };
    if (forced || type == cura::EZSeamType::SHORTEST || type == cura::EZSeamType::USER_SPECIFIED)
    {
        const P t = forced ? v[*it.force] : target;
        i128 best = -1;
        for (size_t i = 0; i < n; ++i)
            if (eligible(i) && (best < 0 || d2(v[i], t) < best))
                best = d2(v[i], t);
        for (size_t i = 0; i < n; ++i)
            ok[i] = eligible(i) && ld(d2(v[i], t)) <= ld(best) * (1 + 1e-12L);
    }
    else if (type == cura::EZSeamType::RANDOM)
        for (size_t i = 0; i < n; ++i)
            ok[i] = eligible(i);
    else
    {
        i64 total = 0;
        for (size_t i = 0; i < n; ++i)
            total += std::llrint(std::sqrt((double)d2(v[i], v[(i + 1) % n])));
        const i64 D = std::min<i64>(1000, total / 2);
        const ld tol = (D ? 12.0L / D : 9) / PI;
        std::vector<ld> s(n);
        std::vector<ld> unsure(n, tol);
        for (size_t i = 0; i < n; ++i)
        {
            ld px, py, nx, ny;
            walk(v, i, D, -1, px, py);
            walk(v, i, D, +1, nx, ny);
            px -= v[i].x, py -= v[i].y, nx -= v[i].x, ny -= v[i].y;
            ld a = std::atan2(nx * py - ny * px, nx * px + ny * py); // from next to previous, counter-clockwise: the angle on the left
            const ld r = std::min(std::hypot(px, py), std::hypot(nx, ny));
            const ld t = (r > 12 ? 10 / r : 9) / PI;
            unsure[i] = std::max(tol, t);
            if (a < 0)
                a += 2 * PI;
            a = (a - PI) / PI;
            if (std::abs(a) > 1 - 2 * unsure[i])
                unsure[i] = 9; // doubles back: left and right cannot be told apart
            switch (w.corner)
            {
            case cura::EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_INNER:
                s[i] = (1 - a) / 2;
                break;
            case cura::EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_OUTER:
                s[i] = (1 + a) / 2;
                break;
            case cura::EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_ANY:
                s[i] = std::abs(a);
                if (unsure[i] > 8)
                    unsure[i] = 2 * std::max(tol, t);
                break;
            default:
                s[i] = a < 0 ? -a : a / 2;
            }
            if (unsure[i] > 8)
            {
                known = false;
                return ok;
            }
            s[i] += 2 * ! over[i];
        }
        ld lo = -9, hi = -9; // of the best score
        for (size_t i = 0; i < n; ++i)
        {
            lo = std::max(lo, s[i] - unsure[i]);
            hi = std::max(hi, s[i] + unsure[i]);
        }
        std::vector<char> may(n), must(n);
        P mx = v[0];
        for (const P& q : v)
            mx = { std::max(mx.x, q.x), std::max(mx.y, q.y) };
        auto back = [&](size_t i)
        {
            return 1 / (1 + std::abs(ld(v[i].y - mx.y)) / 1000 / 20);
        };
        ld best_may = -9, best_must = -9;
        for (size_t i = 0; i < n; ++i)
        {
            may[i] = s[i] + unsure[i] >= lo - 0.05L;
            must[i] = s[i] - unsure[i] >= hi - 0.05L;
            if (may[i])
                best_may = std::max(best_may, back(i));
            if (must[i])
                best_must = std::max(best_must, back(i));
        }
        i64 right = mx.x - i64(9e9);
        std::vector<char> may2(n);
        for (size_t i = 0; i < n; ++i)
        {
            may2[i] = may[i] && back(i) >= best_must - 0.01L - 1e-9L;
            if (must[i] && back(i) >= best_may - 0.01L + 1e-9L)
                right = std::max(right, v[i].x);
        }
        for (size_t i = 0; i < n; ++i)
            ok[i] = may2[i] && v[i].x >= right;
    }
    if (! w.disallowed.empty())
    {
        std::vector<int> dis(n);
        bool any = false;
        for (size_t i = 0; i < n; ++i)
        {
            dis[i] = where(w.disallowed, v[i]);
            any |= dis[i] == 0;
        }
        if (! any)
            return std::vector<char>(n, 1);
        std::vector<char> out(n, 0);
        for (size_t i = 0; i < n; ++i)
            if (ok[i])
                for (size_t j = i;; j = (j + 1) % n)
                {
                    if (dis[j] != 1)
                        out[j] = 1;
                    if (dis[j] == 0)
                        break;
                }
        return out;
    }
    return ok;
}

struct Replay
{
    Run& R;
    std::vector<Item>& items;
    World& w;
    std::string info;

    bool precomputed(const Item& it)
    {
        return it.loop && ! it.shortest && w.type != cura::EZSeamType::SHORTEST;
    }
    // squared distance range from pos to the start of the path
    std::pair<i128, i128> range(const Item& it, const P& pos, size_t start_if_fixed)
    {
        if (! it.loop)
        {
            const i128 d = std::min(d2(pos, it.v.front()), d2(pos, it.v.back()));
            return { d, d };
        }
        if (precomputed(it))
            return { d2(pos, it.v[start_if_fixed]), d2(pos, it.v[start_if_fixed]) };
        bool known;
        const auto ok = seams(it, w, pos, known);
        i128 lo = -1, hi = 0;
        for (size_t i = 0; i < it.v.size(); ++i)
            if (ok[i] || ! known)
            {
                const i128 d = d2(pos, it.v[i]);
                lo = lo < 0 ? d : std::min(lo, d);
                hi = std::max(hi, d);
            }
        return { lo, hi };
    }
    i128 reach(const Item& it, const P& pos) // distance to the nearest vertex one might start from
    {
        i128 d = std::min(d2(pos, it.v.front()), d2(pos, it.v.back()));
        if (it.loop)
            for (const P& q : it.v)
                d = std::min(d, d2(pos, q));
        return d;
    }
};
} // namespace

static void ordering(Run& R, Rng& g)
{
    const i64 ext = g.logn(300, 150000);
    std::vector<Item> items;
    World w;
    w.type = g.pick(std::vector<cura::EZSeamType>{ cura::EZSeamType::SHORTEST, cura::EZSeamType::SHORTEST, cura::EZSeamType::RANDOM, cura::EZSeamType::USER_SPECIFIED, cura::EZSeamType::SHARPEST_CORNER, cura::EZSeamType::SHARPEST_CORNER });
    w.corner = cura::EZSeamCornerPrefType(g.in(0, 3));
    auto any = [&]()
    {
        return P{ g.in(-ext, ext), g.in(-ext, ext) };
    };
    w.pos = any();
    const bool reverse_dir = g.p(0.35), group = g.p(0.4), shortest_inner = g.p(0.3), detect = g.p(0.3), longest = g.p(0.15);
    const bool constrained = g.p(0.4), combing = g.p(0.15);
    if (g.p(0.25))
        w.overhang = shape(g, ext / 2, 2);
    if (g.p(0.25))
        w.disallowed = shape(g, ext / 2, 2);
    std::vector<P> seen{ any() };
    auto add = [&](Path v, bool closed)
    {
        Item it;
        it.v = std::move(v);
        it.closed = closed;
        it.outer = g.p(0.5);
        if (closed && w.type != cura::EZSeamType::SHARPEST_CORNER && g.p(0.15))
            it.force = it.given = g.next() % it.v.size();
        if (closed)
        {
            auto q = std::make_shared<cura::Polygon>();
            for (const P& a : it.v)
                q->push_back(c(a));
            it.line = q;
        }
        else
        {
            auto q = std::make_shared<cura::OpenPolyline>();
            for (const P& a : it.v)
                q->push_back(c(a));
            it.line = q;
        }
        for (const P& a : it.v)
            seen.push_back(a);
        items.push_back(std::move(it));
    };
    const int n = int(g.p(0.1) ? g.in(1, 40) : g.in(1, 9));
    for (int k = 0; k < n; ++k)
    {
        if (g.p(0.45))
        {
            Path v = simple_polygon(g, std::max<i64>(50, ext / g.in(2, 8)));
            const P o = any();
            for (P& q : v)
                q = { q.x + o.x, q.y + o.y };
            if (v.size() < 3)
                continue;
            if (g.p(0.5))
                reverse(v);
            add(v, true);
        }
        else
        {
            Path v;
            v.push_back(g.p(0.3) ? g.pick(seen) : any());
            for (int m = int(g.in(g.p(0.05) ? 0 : 1, g.p(0.7) ? 1 : 6)); m > 0; --m)
                v.push_back(any());
            if (g.p(0.2))
                v.push_back({ v[0].x + g.in(-12, 12), v[0].y + g.in(-12, 12) }); // ends where it starts, nearly
            if (g.p(0.2))
            {
                const P q = g.pick(seen);
                v.push_back({ q.x + g.in(-6, 6), q.y + g.in(-6, 6) });
            }
            add(v, false);
        }
    }
    int empties = 0;
    if (! constrained && ! combing && g.p(0.1))
        for (empties = int(g.in(1, 2)); int(items.size()) && empties; --empties)
            add({}, false);
    if (items.empty())
        return;
    for (Item& it : items)
    {
        it.loop = it.closed || (detect && ! it.v.empty() && d2(it.v.front(), it.v.back()) < 100);
        const bool short_now = shortest_inner && ! (it.closed && it.outer);
        it.shortest = short_now || w.type == cura::EZSeamType::SHORTEST;
        if (short_now || ! it.closed)
            it.force.reset();
    }
    const P start = g.p(0.3) ? g.pick(seen) : any();
    std::unordered_multimap<Key, Key> needs;
    std::vector<std::pair<int, int>> edges;
    if (constrained)
    {
        for (int v = 1; v < int(items.size()); ++v)
            for (int m = int(g.p(0.8) ? g.in(0, 1) : g.in(0, 3)); m > 0; --m)
            {
                const int u = int(g.in(0, v - 1));
                if (std::find(edges.begin(), edges.end(), std::make_pair(u, v)) == edges.end())
                {
                    edges.push_back({ u, v });
                    needs.emplace(items[u].line.get(), items[v].line.get());
                }
            }
        if (edges.empty())
            return;
    }
    Paths bnd;
    cura::Shape comb_shape;
    if (combing)
    {
        bnd = shape(g, ext, 3);
        comb_shape = shp(bnd);
    }
    const cura::Shape dis = shp(w.disallowed), over = shp(w.overhang);
    const cura::ZSeamConfig cfg(w.type, c(w.pos), w.corner, 0);
    Opt opt(c(start), cfg, detect, combing ? &comb_shape : nullptr, reverse_dir, needs, group, dis, shortest_inner, over, nullptr, longest);
    std::map<Key, int> index;
    for (size_t i = 0; i < items.size(); ++i)
    {
        index[items[i].line.get()] = int(i);
        if (items[i].closed)
            opt.addPolygon(items[i].line.get(), items[i].given, items[i].outer);
        else
            opt.addPolyline(items[i].line.get());
    }
    std::vector<int> order;
    opt.optimize();
    std::string info = h::fmt("type %d corner %d reverse %d group %d detect %d combing %d longest %d start (%lld,%lld) ", int(w.type), int(w.corner), reverse_dir, group, detect, combing, longest, (long long)start.x, (long long)start.y);
    info += " overhang:" + show(w.overhang) + " disallowed:" + show(w.disallowed) + " items:";
    for (const Item& it : items)
        info += (it.closed ? " C" : " O") + show(it.v);
    info += " order:";
    // every path once
    std::set<int> once;
    bool complete = opt.paths_.size() == items.size();
    for (auto& q : opt.paths_)
    {
        auto f = index.find(q.vertices_);
        if (f == index.end() || ! once.insert(f->second).second)
            complete = false;
        else
            order.push_back(f->second);
        info += h::fmt(" %d@%zu%s", f == index.end() ? -1 : f->second, q.start_vertex_, q.backwards_ ? "b" : "");
    }
    R.check(complete, "order:permutation", info);
    R.stat("paths ordered", items.size());
    if (! complete)
        return;
    const bool reversed = reverse_dir && ! constrained;
    const size_t N = items.size();
    // undo the reversal, so that the walk can be replayed
    std::vector<std::pair<int, size_t>> walkv; // item, start
    for (size_t k = 0; k < N; ++k)
    {
        auto& q = opt.paths_[reversed ? N - 1 - k : k];
        const Item& it = items[index[q.vertices_]];
        R.check(q.is_closed_ == it.loop, "order:closedness", info);
        if (it.v.empty())
        {
            walkv.push_back({ index[q.vertices_], 0 });
            continue;
        }
        R.check(q.start_vertex_ < it.v.size(), "order:start-valid", info);
        if (q.start_vertex_ >= it.v.size())
            return;
        size_t s = q.start_vertex_;
        bool back = q.backwards_;
        if (reversed)
        {
            back = ! back;
            if (! it.loop)
                s = it.v.size() - 1 - s;
        }
        if (it.loop)
            R.check(! back, "order:loop-direction", info);
        else
        {
            R.check(s == 0 || s + 1 == it.v.size(), "order:open-end", info);
            if (it.v.size() > 1 && ! (longest && k == 0))
                R.check(back == (s > 0), "order:open-direction", info);
        }
        walkv.push_back({ index[q.vertices_], s });
    }
    Replay rep{ R, items, w, info };
    auto end_of = [&](size_t k)
    {
        const Item& it = items[walkv[k].first];
        return it.loop ? it.v[walkv[k].second] : walkv[k].second == 0 ? it.v.back() : it.v.front();
    };
    // seams that do not depend on the position of the nozzle
    for (auto [i, s] : walkv)
        if (rep.precomputed(items[i]) && ! items[i].v.empty())
        {
            bool known;
            const auto ok = seams(items[i], w, w.pos, known);
            if (known)
            {
                R.check(ok[s], "seam:fixed", h::fmt("item %d vertex %zu ", i, s) + info);
                R.stat("fixed seams judged");
            }
            else
                R.stat("seams too close to call");
        }
    if (constrained)
    {
        std::vector<int> at(N);
        std::vector<char> root(N, 1), leaf(N, 1);
        for (size_t k = 0; k < N; ++k)
            at[walkv[k].first] = int(k);
        for (auto [u, v] : edges)
        {
            R.check(at[u] < at[v], "constraint:respected", h::fmt("%d before %d ", u, v) + info);
            root[v] = leaf[u] = 0;
        }
        R.stat("constraints judged", edges.size());
        if (group)
        {
            // outer walls together: first, or last when printing from the inside
            const auto& outer = reverse_dir ? leaf : root;
            int changes = 0;
            for (size_t k = 1; k < N; ++k)
                changes += outer[walkv[k].first] != outer[walkv[k - 1].first];
            const bool all = std::count(outer.begin(), outer.end(), 1) == int(N);
            R.check(changes == (all ? 0 : 1) && (all || outer[walkv[reverse_dir ? N - 1 : 0].first]), "constraint:grouped", info);
        }
        if (combing)
            return;
        // a root is taken from where the walk stands; so is any leaf that is kept for the end
        std::vector<char> used(N, 0);
        P pos = start;
        for (size_t k = 0; k < N; ++k)
        {
            const int i = walkv[k].first;
            const Item& it = items[i];
            const bool last_leaf = group && reverse_dir && leaf[i];
            const bool is_root = root[i] && ! last_leaf;
            if ((is_root || last_leaf) && ! (longest && k == 0))
            {
                const i128 mine = d2(pos, it.v[walkv[k].second]);
                if (it.loop && ! rep.precomputed(it))
                {
                    bool known;
                    const auto ok = seams(it, w, pos, known);
                    if (known)
                        R.check(ok[walkv[k].second], "seam:nearest", h::fmt("item %d vertex %zu ", i, walkv[k].second) + info);
                }
                for (size_t j = 0; j < N; ++j)
                    if (! used[j] && int(j) != i && (last_leaf ? leaf[j] : root[j] && ! (group && reverse_dir && leaf[j])))
                    {
                        const auto [lo, hi] = rep.range(items[j], pos, walkv[at[j]].second);
                        R.check(mine <= hi, "order:nearest-root", h::fmt("item %d rather than %zu ", i, j) + info);
                        R.stat("choices judged");
                    }
            }
            used[i] = 1;
            pos = end_of(k);
        }
        return;
    }
    if (combing)
        return;
    // the walk: always to the nearest start that is left, or along a chain of touching paths
    std::vector<char> used(N, 0);
    std::vector<size_t> start_of(N);
    for (auto [i, s] : walkv)
        start_of[i] = s;
    P pos = start;
    for (size_t k = 0; k < N; ++k)
    {
        const int i = walkv[k].first;
        const Item& it = items[i];
        if (it.v.empty())
        {
            for (size_t j = k; j < N; ++j)
                R.check(items[walkv[j].first].v.empty() || (longest && k == 0), "order:empties-last", info);
            used[i] = 1;
            continue;
        }
        bool touching = false, unsure = false;
        for (size_t j = 0; j < N; ++j)
            if (! used[j] && ! items[j].v.empty())
            {
                const i128 r = rep.reach(items[j], pos);
                touching |= r <= 100;
                unsure |= r > 100 && r <= 900;
            }
        if (longest && k == 0)
        {
            if (! touching && ! unsure)
                for (size_t j = 0; j < N; ++j)
                    R.check(length(it.v, it.closed) >= length(items[j].v, items[j].closed) - ld(it.v.size() + items[j].v.size()), "order:longest", info);
        }
        else
        {
            const i128 mine = d2(pos, it.v[walkv[k].second]);
            if (touching)
                R.check(rep.reach(it, pos) <= 900, "order:chain", h::fmt("at %zu ", k) + info);
            if (it.loop && ! rep.precomputed(it))
            {
                bool known;
                const auto ok = seams(it, w, pos, known);
                if (known)
                    R.check(ok[walkv[k].second], "seam:nearest", h::fmt("item %d vertex %zu ", i, walkv[k].second) + info);
            }
            if (! it.loop)
                R.check(mine == std::min(d2(pos, it.v.front()), d2(pos, it.v.back())), "order:open-start", h::fmt("at %zu ", k) + info);
            if (touching || ! unsure)
                for (size_t j = 0; j < N; ++j)
                    if (! used[j] && int(j) != i && ! items[j].v.empty() && (! touching || rep.reach(items[j], pos) <= 100))
                    {
                        const auto [lo, hi] = rep.range(items[j], pos, start_of[j]);
                        R.check(mine <= hi, "order:nearest", h::fmt("at %zu rather than %zu ", k, j) + info);
                        R.stat("choices judged");
                    }
        }
        used[i] = 1;
        pos = end_of(k);
    }
}

namespace
{
struct Table : cura::ScoringCriterion
{
    std::vector<double> s;
    double computeScore(const size_t i) const override
    {
        return s.at(i);
    }
};
} // namespace

static void finder(Run& R, Rng& g)
{
    const size_t n = g.in(0, 12);
    const int passes = int(g.in(1, 4));
    cura::BestElementFinder f;
    std::vector<char> in(n, 1);
    std::string info;
    bool decided = false, clear = true;
    for (int k = 0; k < passes; ++k)
    {
        cura::BestElementFinder::CriteriaPass pass;
        pass.outsider_delta_threshold = g.pick(std::vector<double>{ 0, 0.125, 0.25, 0.5, 1 });
        std::vector<double> sum(n, 0);
        const int m = int(g.in(1, 3));
        for (int j = 0; j < m; ++j)
        {
            auto t = std::make_shared<Table>();
            const double weight = g.pick(std::vector<double>{ 1, 2, 0.5, 4 });
            for (size_t i = 0; i < n; ++i)
            {
                t->s.push_back(g.in(0, 16) / 16.0);
                sum[i] += t->s[i] * weight;
            }
            pass.criteria.push_back({ t, weight });
        }
        if (m == 1 && pass.criteria[0].weight == 1 && g.p(0.5))
            f.appendSingleCriterionPass(pass.criteria[0].criterion, pass.outsider_delta_threshold);
        else
            f.appendCriteriaPass(pass);
        double best = -1e9;
        for (size_t i = 0; i < n; ++i)
            if (in[i])
                best = std::max(best, sum[i]);
        info += h::fmt(" [%g:", pass.outsider_delta_threshold);
        for (size_t i = 0; i < n; ++i)
        {
            info += h::fmt(" %g", sum[i]);
            if (in[i] && best - sum[i] > (k + 1 == passes ? 0 : pass.outsider_delta_threshold) + 1e-12)
                in[i] = 0;
        }
        info += "]";
    }
    (void)decided, (void)clear;
    const auto r = f.findBestElement(n);
    R.check(r.has_value() == (n > 0), "finder:answers", info);
    if (r)
        R.check(*r < n && in[*r], "finder:best", h::fmt("%zu of", *r) + info);
    R.stat("rankings judged");
}

int main(int argc, char** argv)
{
    return run_main(
        argc,
        argv,
        [](Run& R, Rng& g)
        {
            for (int k = 0; k < 6; ++k)
            {
                ordering(R, g);
                finder(R, g);
            }
            R.eval(g.next(), true);
        });
}
