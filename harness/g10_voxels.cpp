// Voxel grids: which voxels a triangle traverses, occupation, neighbours, coordinates; walking lines, polygons and areas over a grid; dilation; nearest occupied voxel.
#include "hc.hpp"

#include "utils/AABB3D.h"
#include "utils/SpatialLookup.h"
#include "utils/VoxelGrid.h"
#include "utils/VoxelUtils.h"

using namespace h;
using V3 = std::array<ld, 3>;
static V3 operator-(V3 a, V3 b)
{
    return { a[0] - b[0], a[1] - b[1], a[2] - b[2] };
}
static V3 cr(V3 a, V3 b)
{
    return { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] };
}
static ld dt(V3 a, V3 b)
{
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2];
}
static bool tri_box(std::array<V3, 3> t, V3 c, V3 hw) // separating axes; closed
{
    for (auto& v : t)
        v = v - c;
    std::vector<V3> axes{ { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, cr(t[1] - t[0], t[2] - t[0]) };
    for (int i = 0; i < 3; ++i)
        for (int a = 0; a < 3; ++a)
        {
            V3 e{};
            e[a] = 1;
            axes.push_back(cr(t[(i + 1) % 3] - t[i], e));
        }
    for (auto& a : axes)
    {
        const ld r = hw[0] * std::abs(a[0]) + hw[1] * std::abs(a[1]) + hw[2] * std::abs(a[2]);
        ld lo = 1e30, hi = -1e30;
        for (auto& v : t)
            lo = std::min(lo, dt(v, a)), hi = std::max(hi, dt(v, a));
        if (lo > r + 1e-6L * (1 + r) || hi < -r - 1e-6L * (1 + r))
            return false;
    }
    return true;
}

static void grid(Run& R, Rng& g)
{
    cura::AABB3D bb;
    cura::Point3LL lo(g.in(-100000, 100000), g.in(-100000, 100000), g.in(-5000, 100000)), size(g.logn(200, 100000), g.logn(200, 100000), g.logn(200, 100000));
    bb.include(lo);
    bb.include(lo + size);
    const i64 res = std::max<i64>(30, std::max({ size.x_, size.y_, size.z_ }) / g.in(1, 24) + g.in(-3, 3));
    cura::VoxelGrid vg(bb, res);
    const auto n = vg.getSlicesCount();
    const auto r = vg.getResolution();
    const V3 o{ ld(lo.x_), ld(lo.y_), ld(lo.z_) }, rs{ r.x_, r.y_, r.z_ };
    const i64 cnt[3]{ n.x_, n.y_, n.z_ }, sz[3]{ size.x_, size.y_, size.z_ };
    for (int d = 0; d < 3; ++d)
        R.check(cnt[d] == sz[d] / res + 1 && std::abs(rs[d] * cnt[d] - sz[d]) < 1e-3 && rs[d] <= res + 1e-6, "grid:resolution", fmt("%lld voxels of %Lf for %lld at %lld", cnt[d], rs[d], sz[d], res));
    auto rnd = [&]() { return cura::Point3LL(g.in(0, size.x_ - 1), g.in(0, size.y_ - 1), g.in(0, size.z_ - 1)) + lo; };
    for (int k = 0; k < 20; ++k)
    {
        const auto q = rnd();
        const auto l = vg.toLocalCoordinates(cura::Point3D(q.x_, q.y_, q.z_));
        const ld x[3]{ (q.x_ - o[0]) / rs[0], (q.y_ - o[1]) / rs[1], (q.z_ - o[2]) / rs[2] };
        const i64 got[3]{ l.position.x, l.position.y, l.position.z };
        const auto back = vg.toGlobalCoordinates(l), corner = vg.toGlobalCoordinates(l, false);
        const ld bk[3]{ back.x_, back.y_, back.z_ }, co[3]{ corner.x_, corner.y_, corner.z_ };
        for (int d = 0; d < 3; ++d)
        {
            R.check(got[d] >= 0 && got[d] < cnt[d] && got[d] <= x[d] + 1e-6 && x[d] < got[d] + 1 + 1e-6, "grid:local", fmt("%lld for %Lf", got[d], x[d]));
            R.check(std::abs(bk[d] - (o[d] + (got[d] + 0.5L) * rs[d])) < 1e-3, "grid:centre", "");
            R.check(std::abs(co[d] - (o[d] + got[d] * rs[d])) < 1e-3, "grid:corner", "");
        }
        // neighbours
        std::set<std::array<int, 3>> want, have;
        for (int a = -1; a < 2; ++a)
            for (int b = -1; b < 2; ++b)
                for (int c = -1; c < 2; ++c)
                {
                    const i64 u = got[0] + a, v = got[1] + b, w = got[2] + c;
                    if ((a || b || c) && u >= 0 && v >= 0 && w >= 0 && u < cnt[0] && v < cnt[1] && w < cnt[2])
                        want.insert({ int(u), int(v), int(w) });
                }
        const auto around = vg.getVoxelsAround(l);
        for (auto& v : around)
            have.insert({ v.position.x, v.position.y, v.position.z });
        R.check(want == have && have.size() == around.size(), "grid:around", fmt("%lld %lld %lld", got[0], got[1], got[2]));
    }
    // triangles
    std::map<std::array<int, 3>, int> occ;
    for (int k = 0, m = int(g.in(1, 6)); k < m; ++k)
    {
        auto a = rnd(), b = rnd(), c = rnd();
        if (g.p(0.2))
            b.z_ = a.z_;
        if (g.p(0.2))
            b.x_ = a.x_, c.x_ = a.x_;
        if (g.p(0.1))
            c.z_ = b.z_ = a.z_;
        if (g.p(0.1))
            c.y_ = b.y_ = a.y_;
        if (g.p(0.2))
        { // small
            b = a + cura::Point3LL(g.in(-50, 50), g.in(-50, 50), g.in(-50, 50));
            c = a + cura::Point3LL(g.in(-50, 50), g.in(-50, 50), g.in(-50, 50));
            for (auto* q : { &b, &c })
                for (int d = 0; d < 3; ++d)
                    (*q)[d] = std::clamp<i64>((*q)[d], lo[d], lo[d] + size[d] - 1);
        }
        const cura::Triangle3LL tri{ a, b, c };
        const std::string info = fmt("triangle (%lld,%lld,%lld) (%lld,%lld,%lld) (%lld,%lld,%lld) in a grid from (%lld,%lld,%lld) of %lldx%lldx%lld voxels of %Lfx%Lfx%Lf", a.x_, a.y_, a.z_, b.x_, b.y_, b.z_, c.x_, c.y_, c.z_, lo.x_, lo.y_, lo.z_, cnt[0], cnt[1], cnt[2], rs[0], rs[1], rs[2]);
        const auto tv = vg.getTraversedVoxels(tri);
        std::set<std::array<int, 3>> vox;
        std::array<V3, 3> t{ V3{ ld(a.x_), ld(a.y_), ld(a.z_) }, V3{ ld(b.x_), ld(b.y_), ld(b.z_) }, V3{ ld(c.x_), ld(c.y_), ld(c.z_) } };
        for (auto& v : tv)
        {
            const std::array<int, 3> q{ v.position.x, v.position.y, v.position.z };
            R.check(vox.insert(q).second, "traversed:twice", info);
            V3 ce{}, hw{};
            for (int d = 0; d < 3; ++d)
                ce[d] = o[d] + (q[d] + 0.5L) * rs[d], hw[d] = rs[d] / 2 + 6;
            R.check(tri_box(t, ce, hw), "traversed:off", fmt("voxel %d %d %d of ", q[0], q[1], q[2]) + info);
            R.check(q[0] <= cnt[0] && q[1] <= cnt[1] && q[2] <= cnt[2], "traversed:outside", info);
        }
        R.stat("traversed voxels", double(vox.size()));
        const ld ar = std::sqrt(dt(cr(t[1] - t[0], t[2] - t[0]), cr(t[1] - t[0], t[2] - t[0])));
        ld longest = 0;
        for (int i = 0; i < 3; ++i)
            longest = std::max(longest, std::sqrt(dt(t[i] - t[(i + 1) % 3], t[i] - t[(i + 1) % 3])));
        if (longest < 40 || ar / std::max<ld>(1, longest) < 15)
            continue; // slivers thinner than the tolerance may be missed
        for (int s = 0; s < 60; ++s)
        {
            ld u = g.u(), v = g.u();
            if (u + v > 1)
                u = 1 - u, v = 1 - v;
            if (s < 3)
                u = s == 1, v = s == 2;
            else if (s < 12)
                v = 0;
            V3 q{};
            std::array<int, 3> idx{};
            for (int d = 0; d < 3; ++d)
                q[d] = t[0][d] + u * (t[1][d] - t[0][d]) + v * (t[2][d] - t[0][d]), idx[d] = int(std::floor((q[d] - o[d]) / rs[d]));
            ld near = 1e30;
            for (int dx = -1; dx < 2; ++dx)
                for (int dy = -1; dy < 2; ++dy)
                    for (int dz = -1; dz < 2; ++dz)
                        if (vox.contains({ idx[0] + dx, idx[1] + dy, idx[2] + dz }))
                        {
                            const int w[3]{ idx[0] + dx, idx[1] + dy, idx[2] + dz };
                            ld m2 = 0;
                            for (int d = 0; d < 3; ++d)
                                m2 = std::max({ m2, o[d] + w[d] * rs[d] - q[d], q[d] - o[d] - (w[d] + 1) * rs[d] });
                            near = std::min(near, m2);
                        }
            R.smax("uncovered triangle point", near > 1e20 ? -1 : double(near));
            R.check(near <= 30, "traversed:missed", fmt("(%.1Lf,%.1Lf,%.1Lf) is %.1Lf from the traversed voxels of ", q[0], q[1], q[2], near) + info);
        }
        const int e = int(g.in(0, 3));
        for (auto& v : tv)
        {
            vg.setOrUpdateOccupation(v, uint8_t(e));
            auto [it, fresh] = occ.try_emplace({ v.position.x, v.position.y, v.position.z }, e);
            if (! fresh)
                it->second = std::min(it->second, e);
        }
        if (! tv.empty() && g.p(0.3))
        {
            const auto& v = g.pick(tv);
            vg.setOccupation(v, uint8_t(e + 1));
            occ[{ v.position.x, v.position.y, v.position.z }] = e + 1;
        }
    }
    R.check(vg.occupiedCount() == occ.size(), "grid:count", fmt("%zu for %zu", vg.occupiedCount(), occ.size()));
    for (int x = 0; x < cnt[0] && x < 12; ++x)
        for (int y = 0; y < cnt[1] && y < 12; ++y)
            for (int z = 0; z < cnt[2] && z < 12; ++z)
            {
                const cura::VoxelGrid::LocalCoordinates l(x, y, z);
                const auto it = occ.find({ x, y, z });
                const auto got = vg.getOccupation(l);
                R.check(vg.hasOccupation(l) == (it != occ.end()) && got.has_value() == (it != occ.end()) && (! got || *got == it->second), "grid:occupation", "");
            }
    std::map<std::array<int, 3>, int> seen;
    std::mutex mu;
    vg.visitOccupiedVoxels(
        [&](const auto& v)
        {
            std::lock_guard lk(mu);
            seen[{ v.first.position.x, v.first.position.y, v.first.position.z }] = v.second;
        });
    R.check(seen == occ, "grid:visit", "");
    const auto look = cura::SpatialLookup::makeSpatialLookupFromVoxelGrid(vg);
    for (int k = 0; k < 15; ++k)
    {
        const V3 q{ o[0] + g.u(-0.3, 1.3) * sz[0], o[1] + g.u(-0.3, 1.3) * sz[1], o[2] + g.u(-0.3, 1.3) * sz[2] };
        const auto res = look.findClosestOccupation(cura::Point3D(double(q[0]), double(q[1]), double(q[2])));
        if (! R.check(res.has_value() == ! occ.empty(), "lookup:found", "") || ! res)
            continue;
        ld best = 1e30;
        bool stored = false;
        for (auto& [v, e] : occ)
        {
            V3 ce{};
            for (int d = 0; d < 3; ++d)
                ce[d] = o[d] + (v[d] + 0.5L) * rs[d];
            best = std::min(best, std::sqrt(dt(ce - q, ce - q)));
            const V3 got{ res->position.x_, res->position.y_, res->position.z_ };
            stored |= std::sqrt(dt(got - ce, got - ce)) < 0.01 && res->occupation == e;
        }
        const V3 got{ res->position.x_, res->position.y_, res->position.z_ };
        const ld d = std::sqrt(dt(got - q, got - q));
        R.check(stored, "lookup:stranger", "");
        R.check(d <= best + 0.01, "lookup:nearest", fmt("%.2Lf, the nearest is %.2Lf", d, best));
    }
}

static void walk(Run& R, Rng& g)
{
    const cura::Point3LL cell(g.in(10, 3000), g.in(10, 3000), g.in(10, 3000));
    cura::VoxelUtils vu(cell);
    for (int k = 0; k < 8; ++k)
    {
        const i64 cz[3]{ cell.x_, cell.y_, cell.z_ };
        cura::Point3LL a, b;
        for (int d = 0; d < 3; ++d)
        {
            a[d] = g.p(0.15) ? g.in(-8, 8) * cz[d] : g.in(-15 * cz[d], 15 * cz[d]);
            b[d] = g.p(0.2) ? a[d] : g.p(0.15) ? g.in(-8, 8) * cz[d] : g.in(-15 * cz[d], 15 * cz[d]);
        }
        const std::string info = fmt("(%lld,%lld,%lld)-(%lld,%lld,%lld) cells (%lld,%lld,%lld)", a.x_, a.y_, a.z_, b.x_, b.y_, b.z_, cell.x_, cell.y_, cell.z_);
        for (auto* q : { &a, &b })
        {
            const auto gp = vu.toGridPoint(*q);
            const auto lc = vu.toLowerCorner(gp);
            for (int d = 0; d < 3; ++d)
                R.check(lc[d] <= (*q)[d] && (*q)[d] <= lc[d] + cz[d] && lc[d] == gp[d] * cz[d], "walk:cell", info);
        }
        std::vector<cura::Point3LL> cells;
        const bool all = vu.walkLine(
            a,
            b,
            [&](cura::GridPoint3 p)
            {
                cells.push_back(p);
                return cells.size() < 400;
            });
        R.check(all, "walk:endless", info);
        if (cells.empty())
        {
            R.check(false, "walk:empty", info);
            continue;
        }
        auto holds = [&](const cura::Point3LL& q, ld x, ld y, ld z)
        {
            const ld v[3]{ x, y, z };
            for (int d = 0; d < 3; ++d)
                if (v[d] < q[d] * cz[d] - 1e-3L * cz[d] || v[d] > (q[d] + 1) * cz[d] + 1e-3L * cz[d])
                    return false;
            return true;
        };
        R.check(holds(cells.front(), a.x_, a.y_, a.z_), "walk:start", info);
        R.check(holds(cells.back(), b.x_, b.y_, b.z_), "walk:end", info);
        {
            // the cells that a position on a border counts to are those of both ends, unless the line steps back past one there
            const auto ca = vu.toGridPoint(a), cb = vu.toGridPoint(b);
            bool back = false;
            int borders = 0;
            for (int d = 0; d < 3; ++d)
            {
                back |= b[d] < a[d] && b[d] % cz[d] == 0;
                borders += b[d] != a[d] && b[d] % cz[d] == 0;
            }
            back |= borders > 1;
            R.check(cells.front() == ca, "walk:start-cell", info);
            if (! back)
                R.check(std::find(cells.begin(), cells.end(), cb) != cells.end(), "walk:end-cell", info);
        }
        for (size_t i = 1; i < cells.size(); ++i)
        {
            i64 step = 0;
            for (int d = 0; d < 3; ++d)
                step += std::abs(cells[i][d] - cells[i - 1][d]);
            R.check(step == 1, "walk:jump", info);
        }
        for (auto& q : cells)
        { // the line passes through the closed cell: clip
            ld t0 = 0, t1 = 1;
            for (int d = 0; d < 3; ++d)
            {
                const ld s = a[d], df = b[d] - a[d], l = q[d] * cz[d] - 1e-3L * cz[d], u = (q[d] + 1) * cz[d] + 1e-3L * cz[d];
                if (df == 0)
                {
                    if (s < l || s > u)
                        t0 = 2;
                    continue;
                }
                ld x = (l - s) / df, y = (u - s) / df;
                if (x > y)
                    std::swap(x, y);
                t0 = std::max(t0, x);
                t1 = std::min(t1, y);
            }
            R.check(t0 <= t1 + 1e-9, "walk:off", info);
        }
        for (int s = 0; s <= 40; ++s)
        {
            const ld t = s / 40.0L;
            bool in = false;
            for (auto& q : cells)
                in |= holds(q, a.x_ + t * (b.x_ - a.x_), a.y_ + t * (b.y_ - a.y_), a.z_ + t * (b.z_ - a.z_));
            R.check(in, "walk:gap", info);
        }
        // stopping early
        size_t calls = 0, stop = 1 + g.in(0, i64(cells.size()) - 1);
        const bool done = vu.walkLine(a, b, [&](cura::GridPoint3) { return ++calls < stop; });
        R.check(! done && calls == stop, "walk:stop", info);
        R.stat("cells walked", double(cells.size()));
    }
    // kernels
    const cura::Point3LL ks(g.in(1, 6), g.in(1, 6), g.in(1, 6));
    const int type = int(g.in(0, 2));
    const cura::DilationKernel kernel(ks, type == 0 ? cura::DilationKernel::Type::CUBE : type == 1 ? cura::DilationKernel::Type::DIAMOND : cura::DilationKernel::Type::PRISM);
    std::set<std::array<i64, 3>> rel;
    for (auto& q : kernel.relative_cells_)
        R.check(rel.insert({ q.x_, q.y_, q.z_ }).second, "kernel:twice", "");
    const std::string ki = fmt("kernel %lldx%lldx%lld type %d", ks.x_, ks.y_, ks.z_, type);
    const i64 mult = ks.x_ * ks.y_ * ks.z_;
    size_t inside = 0;
    for (i64 x = -ks.x_ / 2; x < ks.x_ - ks.x_ / 2; ++x)
        for (i64 y = -ks.y_ / 2; y < ks.y_ - ks.y_ / 2; ++y)
            for (i64 z = -ks.z_ / 2; z < ks.z_ - ks.z_ / 2; ++z)
            {
                const i64 v[3]{ x, y, z }, s[3]{ ks.x_, ks.y_, ks.z_ };
                ld sum = 0;
                for (int d = 0; d < (type == 2 ? 2 : 3); ++d)
                {
                    const i64 e = v[d] < 0 ? s[d] / 2 : s[d] - s[d] / 2 - 1;
                    sum += ld(std::abs(v[d])) / std::max<i64>(1, e);
                }
                const bool has = rel.contains({ x, y, z });
                inside += has;
                if (type == 0 || sum <= 1)
                    R.check(has, "kernel:lacks", ki + fmt(" (%lld,%lld,%lld)", x, y, z));
                else if (sum > 1 + 3.0L / mult)
                    R.check(! has, "kernel:extra", ki + fmt(" (%lld,%lld,%lld)", x, y, z));
            }
    R.check(inside == rel.size(), "kernel:outside", ki);
    // areas
    const Paths ps = shape(g, double(std::max(cell.x_, cell.y_)) * g.u(1, 10), int(g.in(1, 2)));
    const i64 z = g.in(-3, 20) * cell.z_ + g.in(1, cell.z_ - 1);
    std::set<std::array<i64, 3>> area_cells, dil;
    const cura::Shape s = shp(ps);
    const std::string ai = fmt("cells %lldx%lld z %lld ", cell.x_, cell.y_, z) + show(ps);
    vu.walkAreas(
        s,
        z,
        [&](cura::GridPoint3 p)
        {
            R.check(area_cells.insert({ p.x_, p.y_, p.z_ }).second, "area:twice", ai);
            return true;
        });
    const i64 gz = i64(std::floor(ld(z) / cell.z_));
    i64 x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
    for (auto& q : ps)
        for (auto& v : q)
            x0 = std::min(x0, v.x), x1 = std::max(x1, v.x), y0 = std::min(y0, v.y), y1 = std::max(y1, v.y);
    auto fl = [](i64 a, i64 b) { return a / b - (a % b < 0); };
    size_t matched = 0;
    for (i64 x = fl(x0, cell.x_) - 1; x <= fl(x1, cell.x_) + 1; ++x)
        for (i64 y = fl(y0, cell.y_) - 1; y <= fl(y1, cell.y_) + 1; ++y)
        {
            const i64 cx = x * cell.x_ + cell.x_ / 2, cy = y * cell.y_ + cell.y_ / 2;
            const bool has = area_cells.contains({ x, y, gz });
            matched += has;
            if (dist_paths(cx, cy, ps) > 3)
                R.check(has == (crossings(ps, cx, cy) % 2 != 0), "area:cell", fmt("cell %lld,%lld at (%lld,%lld) is %s ", x, y, cx, cy, has ? "walked" : "left out") + ai);
        }
    R.check(matched == area_cells.size(), "area:elsewhere", ai);
    vu.walkPolygons(
        s,
        z,
        [&](cura::GridPoint3 p)
        {
            dil.insert({ p.x_, p.y_, p.z_ });
            return true;
        });
    for (auto& q : ps)
        for (size_t i = 0; i < q.size(); ++i)
        {
            const P a = q[i], b = q[(i + 1) % q.size()];
            for (int k = 0; k < 5; ++k)
            {
                const ld x = a.x + (b.x - a.x) * (k / 5.0L), y = a.y + (b.y - a.y) * (k / 5.0L);
                bool in = false;
                for (i64 u = i64(x / cell.x_) - 2; u < i64(x / cell.x_) + 3; ++u)
                    for (i64 v = i64(y / cell.y_) - 2; v < i64(y / cell.y_) + 3; ++v)
                        in |= x >= u * cell.x_ - 1 && x <= (u + 1) * cell.x_ + 1 && y >= v * cell.y_ - 1 && y <= (v + 1) * cell.y_ + 1 && dil.contains({ u, v, gz });
                R.check(in, "polygons:gap", ai);
            }
        }
    // dilation adds exactly the kernel's cells around those of the undilated walk
    if (ks.x_ % 2 && ks.y_ % 2 && ks.z_ % 2)
    {
        std::set<std::array<i64, 3>> want, got;
        for (auto& q : area_cells)
            for (auto& r : rel)
                want.insert({ q[0] + r[0], q[1] + r[1], q[2] + r[2] });
        vu.walkDilatedAreas(s, z, kernel, [&](cura::GridPoint3 p) { got.insert({ p.x_, p.y_, p.z_ }); return true; });
        // the dilated variant does not move the z coordinate to the centre of the cell
        std::set<std::array<i64, 2>> w2, g2;
        for (auto& q : want)
            w2.insert({ q[0], q[1] });
        for (auto& q : got)
            g2.insert({ q[0], q[1] });
        R.check(w2 == g2, "area:dilated", ki + " " + ai);
        std::set<std::array<i64, 3>> wp, gp;
        for (auto& q : dil)
            for (auto& r : rel)
                wp.insert({ q[0] + r[0], q[1] + r[1], q[2] + r[2] });
        vu.walkDilatedPolygons(s, z, kernel, [&](cura::GridPoint3 p) { gp.insert({ p.x_, p.y_, p.z_ }); return true; });
        R.check(wp == gp, "polygons:dilated", ki + " " + ai);
    }
}

int main(int argc, char** argv)
{
    return run_main(
        argc,
        argv,
        [](Run& R, Rng& g)
        {
            const uint64_t f = g.next();
            grid(R, g);
            walk(R, g);
            R.eval(f);
        });
}
