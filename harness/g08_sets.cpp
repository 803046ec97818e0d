// Disjoint sets against a naive partition; minimum spanning trees against Kruskal's; linked polygons; index arithmetic.
#include "hc.hpp"

#include "utils/ListPolyIt.h"
#include "utils/MinimumSpanningTree.h"
#include "utils/PolygonsPointIndex.h"
#include "utils/PolygonsSegmentIndex.h"
#include "utils/UnionFind.h"

using namespace h;

static void sets(Run& R, Rng& g)
{
    cura::UnionFind<int> uf;
    const int n = int(g.in(1, 60));
    std::vector<int> group(n);
    std::vector<size_t> handle(n);
    for (int i = 0; i < n; ++i)
    {
        handle[i] = uf.add(i * 7 - 50);
        group[i] = i;
    }
    std::string log;
    for (int k = 0, ops = int(g.in(0, 120)); k < ops; ++k)
    {
        int a = int(g.in(0, n - 1)), b = int(g.in(0, n - 1));
        const bool roots = g.p(0.5);
        log += fmt("%d~%d%s ", a, b, roots ? "r" : "");
        const size_t r = roots ? uf.unite(uf.find(a * 7 - 50), uf.find(b * 7 - 50)) : uf.unite(handle[a], handle[b]);
        const int from = group[a], to = group[b];
        for (auto& x : group)
            if (x == from)
                x = to;
        R.check(r == uf.find(a * 7 - 50) && r == uf.find(b * 7 - 50), "sets:unite-result", log);
        if (g.p(0.3) || k + 1 == ops)
            for (int i = 0; i < n; ++i)
            {
                const int j = int(g.in(0, n - 1));
                const size_t ri = g.p(0.5) ? uf.find(i * 7 - 50) : uf.findByHandle(handle[i]), rj = uf.find(j * 7 - 50);
                R.check((ri == rj) == (group[i] == group[j]), "sets:membership", fmt("%d %d ", i, j) + log);
                R.check(ri != size_t(-1) && uf.findByHandle(ri) == ri, "sets:root", log);
            }
    }
    R.check(uf.find(1) == size_t(-1), "sets:stranger", log);
    std::set<int> all;
    for (int v : uf)
        all.insert(v);
    R.check(int(all.size()) == n, "sets:iteration", log);
    R.stat("unions", n);
}

static void trees(Run& R, Rng& g)
{
    const i64 ext = g.logn(5, 200000);
    std::set<P> s;
    for (int n = int(g.in(0, 40)), i = 0; i < n; ++i)
        s.insert(g.p(0.2) ? P{ g.in(0, 5) * (ext / 5 + 1), 0 } : P{ g.in(-ext, ext), g.in(-ext, ext) });
    std::vector<P> v(s.begin(), s.end());
    for (size_t i = v.size(); i > 1; --i)
        std::swap(v[i - 1], v[g.next() % i]);
    std::vector<cura::Point2LL> pts;
    for (auto& q : v)
        pts.push_back(c(q));
    const cura::MinimumSpanningTree t(pts);
    const std::string info = show(v);
    std::map<P, int> id;
    for (size_t i = 0; i < v.size(); ++i)
        id[v[i]] = int(i);
    // same vertices
    std::set<P> got;
    for (auto& q : t.vertices())
        R.check(got.insert(p(q)).second, "tree:vertex-twice", info);
    R.check(got == s, "tree:vertices", info);
    std::vector<int> parent(v.size());
    for (size_t i = 0; i < v.size(); ++i)
        parent[i] = int(i);
    std::function<int(int)> find = [&](int x) { return parent[x] == x ? x : parent[x] = find(parent[x]); };
    ld total = 0;
    size_t edges = 0;
    std::set<P> leaves;
    std::multiset<std::pair<P, P>> dir;
    for (auto& q : v)
    {
        const auto adj = t.adjacentNodes(c(q));
        if (adj.size() <= 1)
            leaves.insert(q);
        for (auto& w : adj)
        {
            if (! R.check(id.count(p(w)) && ! (p(w) == q), "tree:edge", info))
                continue;
            dir.insert({ q, p(w) });
            if (q < p(w))
            {
                ++edges;
                total += dist(q, p(w));
                R.check(find(id[q]) != find(id[p(w)]), "tree:cycle", info);
                parent[find(id[q])] = find(id[p(w)]);
            }
        }
    }
    for (auto& e : dir)
        R.check(dir.count({ e.second, e.first }) == 1 && dir.count(e) == 1, "tree:one-way", info);
    R.check(edges + 1 == v.size() || v.empty(), "tree:edges", info);
    std::set<P> lv;
    for (auto& q : t.leaves())
        lv.insert(p(q));
    R.check(lv == leaves, "tree:leaves", info);
    R.check(t.adjacentNodes(c(P{ ext + 7, ext + 7 })).empty(), "tree:stranger", info);
    // as short as can be
    std::vector<std::tuple<ld, int, int>> es;
    for (size_t i = 0; i < v.size(); ++i)
        for (size_t j = 0; j < i; ++j)
            es.push_back({ dist(v[i], v[j]), int(i), int(j) });
    std::sort(es.begin(), es.end());
    for (size_t i = 0; i < v.size(); ++i)
        parent[i] = int(i);
    ld best = 0;
    for (auto& [d, i, j] : es)
        if (find(i) != find(j))
        {
            parent[find(i)] = find(j);
            best += d;
        }
    R.check(total <= best * (1 + 1e-12L) + 1e-6L, "tree:not-minimal", fmt("%.3Lf instead of %.3Lf ", total, best) + info);
    R.stat("tree vertices", double(v.size()));
}

static void lists(Run& R, Rng& g)
{
    const Paths ps = shape(g, 5000, int(g.in(1, 3)));
    const auto s = shp(ps);
    cura::ListPolygons l;
    cura::ListPolyIt::convertPolygonsToLists(s, l);
    cura::Shape back = shp(shape(g, 3000, 5));
    while (back.size() < s.size())
        back.push_back(back[0]);
    back.resize(s.size());
    cura::ListPolyIt::convertListPolygonsToPolygons(l, back);
    R.check(paths(back) == ps, "list:round-trip", show(ps));
    const size_t k = g.next() % ps.size();
    cura::ListPolyIt it(l[k], l[k].begin());
    const size_t n = ps[k].size();
    i64 pos = 0;
    cura::PolygonsPointIndex idx(&s, k, 0);
    cura::PolygonsSegmentIndex seg(&s, k, 0);
    for (int i = 0; i < 30; ++i)
    {
        if (g.p(0.6))
        {
            ++it;
            ++idx;
            ++seg;
            ++pos;
        }
        else
        {
            --it;
            --idx;
            --seg;
            --pos;
        }
        const size_t at = size_t(((pos % i64(n)) + i64(n)) % i64(n));
        R.check(p(it.p()) == ps[k][at] && p(it.next().p()) == ps[k][(at + 1) % n] && p(it.prev().p()) == ps[k][(at + n - 1) % n], "list:walk", show(ps[k]));
        R.check(idx.point_idx_ == at && p(idx.p()) == ps[k][at] && idx.next().point_idx_ == (at + 1) % n && idx.prev().point_idx_ == (at + n - 1) % n, "index:walk", show(ps[k]));
        R.check(p(seg.from()) == ps[k][at] && p(seg.to()) == ps[k][(at + 1) % n], "index:segment", show(ps[k]));
        const auto pr = cura::PolygonsPointIndexSegmentLocator()(idx);
        R.check(p(pr.first) == ps[k][at] && p(pr.second) == ps[k][(at + 1) % n] && &idx.getPolygon() == &s[k], "index:locator", show(ps[k]));
    }
    // inserting between two neighbours adds at most one vertex, and none that equals either of them
    const cura::ListPolyIt before = it, after = it.next();
    const P w = g.p(0.3) ? p(before.p()) : g.p(0.3) ? p(after.p()) : P{ g.in(-9000, 9000), g.in(-9000, 9000) };
    const bool dup = w == p(before.p()) || w == p(after.p());
    const auto ins = cura::ListPolyIt::insertPointNonDuplicate(before, after, c(w));
    R.check(p(ins.p()) == w && l[k].size() == n + ! dup, "list:insert", show(ps[k]));
    if (! dup)
        R.check(ins.prev() == before && ins.next() == after, "list:insert-place", show(ps[k]));
}

int main(int argc, char** argv)
{
    return run_main(
        argc,
        argv,
        [](Run& R, Rng& g)
        {
            const uint64_t id = g.next();
            sets(R, g);
            trees(R, g);
            lists(R, g);
            R.eval(id);
        });
}
