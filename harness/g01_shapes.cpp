// Shape algebra against a point-membership oracle: unions, differences, intersections, offsets, parts, nesting.
#include "hc.hpp"

#include "geometry/PartsView.h"
#include "geometry/PointMatrix.h"
#include "settings/types/Ratio.h"

using namespace h;
using cura::Shape;

static bool generic; // the last generated shape has no coincident or self-crossing contours

static Paths gen(Rng& g, double r)
{
    const i64 kind = g.in(0, 6);
    generic = kind != 4 && kind != 5;
    switch (kind)
    {
    case 0:
    case 1:
    case 2:
        return shape(g, r, int(g.in(1, 3)));
    case 3: // overlapping, any orientation
    {
        Paths p;
        for (int i = int(g.in(1, 4)); i > 0; --i)
        {
            p.push_back(simple_polygon(g, r * g.u(0.2, 1), g.in(-i64(r), i64(r)), g.in(-i64(r), i64(r))));
            if (g.p(0.3))
                reverse(p.back());
        }
        return p;
    }
    case 4: // self-intersecting
    {
        Path p;
        for (int i = int(g.in(4, 12)); i > 0; --i)
            p.push_back({ g.in(-i64(r), i64(r)), g.in(-i64(r), i64(r)) });
        return { p };
    }
    case 5: // coarse grid: shared edges and vertices
    {
        Paths p;
        const i64 q = std::max<i64>(1, i64(r / 4));
        for (int i = int(g.in(1, 6)); i > 0; --i)
        {
            i64 x = g.in(-4, 3) * q, y = g.in(-4, 3) * q;
            p.push_back(rect(x, y, x + g.in(1, 4) * q, y + g.in(1, 4) * q));
        }
        return p;
    }
    default:
        return { simple_polygon(g, r, g.in(-i64(r / 2), i64(r / 2)), g.in(-i64(r / 2), i64(r / 2))) };
    }
}

// What the clipping library itself answers: it is trusted, and has rounding artefacts of its own on degenerate input.
static Paths from(const ClipperLib::Paths& c)
{
    Paths r;
    for (auto& p : c)
    {
        r.emplace_back();
        for (auto& v : p)
            r.back().push_back({ v.X, v.Y });
    }
    return r;
}
static Paths lib(const Paths& A, const Paths& B, ClipperLib::ClipType op, ClipperLib::PolyFillType f)
{
    ClipperLib::Clipper cl;
    for (auto& p : A)
        cl.AddPath(cpath(p), ClipperLib::ptSubject, true);
    for (auto& p : B)
        cl.AddPath(cpath(p), ClipperLib::ptClip, true);
    ClipperLib::Paths out;
    cl.Execute(op, out, f, f);
    return from(out);
}
static Paths lib_offset(const Paths& A, double d, ClipperLib::JoinType j, double ml)
{
    ClipperLib::ClipperOffset o(ml, 10.0);
    for (auto& p : A)
        o.AddPath(cpath(p), j, ClipperLib::etClosedPolygon);
    ClipperLib::Paths out;
    o.Execute(out, d);
    return from(out);
}
static ld lib_lines(const std::vector<Path>& lines, const Paths& B, ClipperLib::ClipType op, bool split)
{
    ClipperLib::Clipper cl;
    for (auto& l : lines)
        if (split)
            for (size_t i = 1; i < l.size(); ++i)
                cl.AddPath(cpath({ l[i - 1], l[i] }), ClipperLib::ptSubject, false);
        else
            cl.AddPath(cpath(l), ClipperLib::ptSubject, false);
    for (auto& p : B)
        cl.AddPath(cpath(p), ClipperLib::ptClip, true);
    ClipperLib::PolyTree t;
    cl.Execute(op, t);
    ClipperLib::Paths out;
    ClipperLib::OpenPathsFromPolyTree(t, out);
    ld s = 0;
    for (auto& p : from(out))
        s += length(p, false);
    return s;
}

static bool nested_ok(const Paths& out, i64 x, i64 y, int& w)
{
    w = winding(out, x, y);
    return w == 0 || w == 1;
}

// the parts of segment ab inside ps (even-odd), as total length
static ld inside_length(P a, P b, const Paths& ps, ld& uncertain)
{
    std::vector<ld> ts{ 0, 1 };
    const ld dx = b.x - a.x, dy = b.y - a.y, len = std::hypot(dx, dy);
    for (auto& p : ps)
        for (size_t i = 0; i < p.size(); ++i)
        {
            P c = p[i ? i - 1 : p.size() - 1], d = p[i];
            const ld ex = d.x - c.x, ey = d.y - c.y, den = dx * ey - dy * ex;
            if (den == 0)
                continue;
            const ld t = ((c.x - a.x) * ey - (c.y - a.y) * ex) / den, u = ((c.x - a.x) * dy - (c.y - a.y) * dx) / den;
            if (t > 0 && t < 1 && u >= -0.01 && u <= 1.01)
            {
                ts.push_back(t);
                const ld s = std::abs(den) / (len * std::hypot(ex, ey));
                uncertain += std::min<ld>(len, 6 / std::max<ld>(s, 1e-6L));
            }
        }
    std::sort(ts.begin(), ts.end());
    ld sum = 0;
    for (size_t i = 1; i < ts.size(); ++i)
    {
        const ld m = (ts[i - 1] + ts[i]) / 2, l = (ts[i] - ts[i - 1]) * len;
        const ld x = a.x + m * dx, y = a.y + m * dy;
        const ld ds = dist_paths(x, y, ps);
        if (ds < 2.5)
        {
            uncertain += l;
            if (crossings(ps, std::llround(x), std::llround(y)))
                sum += l;
            continue;
        }
        if (crossings(ps, std::llround(x), std::llround(y)))
            sum += l;
    }
    return sum;
}

static Path hull(Paths ps)
{
    Path v;
    for (auto& p : ps)
        v.insert(v.end(), p.begin(), p.end());
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    if (v.size() < 3)
        return v;
    Path r(2 * v.size());
    size_t k = 0;
    for (size_t i = 0; i < v.size(); ++i)
    {
        while (k >= 2 && cross(r[k - 2], r[k - 1], v[i]) <= 0)
            --k;
        r[k++] = v[i];
    }
    for (size_t i = v.size() - 1, t = k + 1; i > 0; --i)
    {
        while (k >= t && cross(r[k - 2], r[k - 1], v[i - 1]) <= 0)
            --k;
        r[k++] = v[i - 1];
    }
    r.resize(k - 1);
    return r;
}

static void one(Run& R, Rng& g)
{
    const double r = double(g.logn(300, 60000));
    const Paths A = gen(g, r);
    const bool ga = generic;
    const Paths B = gen(g, r);
    const bool gab = ga && generic;
    const Shape a = shp(A), b = shp(B);
    R.eval(mix(fp(A), fp(B)));
    auto info = [&]() { return "A=" + show(A) + " B=" + show(B); };
    const ld SL = 3.5;

    const Paths U = paths(a.unionPolygons(b)), D = paths(a.difference(b)), I = paths(a.intersection(b)), X = paths(a.xorPolygons(b));
    const Paths NZ = paths(a.unionPolygons()), EO = paths(a.processEvenOdd());
    Shape simp = a;
    simp.simplify(ClipperLib::pftNonZero);
    const Paths SI = paths(simp);
    Paths AB = A;
    AB.insert(AB.end(), B.begin(), B.end());
    for (int k = 0; k < 60; ++k)
    {
        const P q = random_point(g, AB, r / 3);
        const bool near = dist_paths(q.x, q.y, AB) < SL;
        if (near)
            continue;
        R.stat("points judged");
        const bool ia = crossings(A, q.x, q.y), ib = crossings(B, q.x, q.y), wa = winding(A, q.x, q.y) != 0, wab = winding(AB, q.x, q.y) != 0;
        struct
        {
            const char* n;
            const Paths& p;
            bool want;
            ClipperLib::ClipType op;
            ClipperLib::PolyFillType fill;
        } T[] = { { "union", U, wab, ClipperLib::ctUnion, ClipperLib::pftNonZero },     { "difference", D, ia && ! ib, ClipperLib::ctDifference, ClipperLib::pftEvenOdd },
                  { "intersection", I, ia && ib, ClipperLib::ctIntersection, ClipperLib::pftEvenOdd }, { "xor", X, ia != ib, ClipperLib::ctXor, ClipperLib::pftEvenOdd },
                  { "self-union", NZ, wa, ClipperLib::ctUnion, ClipperLib::pftNonZero }, { "even-odd", EO, ia, ClipperLib::ctUnion, ClipperLib::pftEvenOdd },
                  { "clean-up", SI, wa, ClipperLib::ctUnion, ClipperLib::pftNonZero } };
        for (auto& t : T)
        {
            int w;
            const bool ok = nested_ok(t.p, q.x, q.y, w);
            const bool direct = (! strcmp(t.n, "xor") && (A.empty() || B.empty())); // passes the operand through
            if (ok && (w != 0) == t.want)
                continue;
            {
                const std::string n = t.n;
                const bool both = n == "difference" || n == "intersection" || n == "xor" || n == "union";
                Paths ref;
                if (n == "union")
                    ref = lib(AB, {}, t.op, t.fill);
                else
                    ref = lib(A, both ? B : Paths{}, t.op, t.fill);
                int w2;
                if (! nested_ok(ref, q.x, q.y, w2) || (w2 != 0) != t.want)
                {
                    R.stat("points excused (library artefact)");
                    continue;
                }
            }
            if (! ok && ! direct)
                R.violation(std::string("nesting:") + t.n, fmt("winding %d at (%lld,%lld) ", w, q.x, q.y) + info() + " out=" + show(t.p));
            else if ((w != 0) != t.want)
                R.violation(std::string("membership:") + t.n, fmt("at (%lld,%lld) want %d ", q.x, q.y, t.want) + info() + " out=" + show(t.p));
        }
        R.check(a.inside(c(q)) == ia, "inside", fmt("(%lld,%lld) ", q.x, q.y) + info());
        R.check(a.inside(c(q), true) == ia, "inside-b", fmt("(%lld,%lld) ", q.x, q.y) + info());
        const size_t fi = a.findInside(c(q));
        R.check((fi != NO_INDEX) == ia, "findInside", fmt("(%lld,%lld) gives %zd want inside=%d ", q.x, q.y, ssize_t(fi), ia) + info());
        if (fi < A.size())
            R.check(crossings({ A[fi] }, q.x, q.y), "findInside-which", fmt("(%lld,%lld) %zu ", q.x, q.y, fi) + info());
    }
    // border points
    if (! A.empty() && ! A[0].empty())
    {
        const P v = g.pick(g.pick(A));
        R.check(a.inside(c(v), true), "border-true", fmt("(%lld,%lld)", v.x, v.y) + info());
        R.check(! a.inside(c(v), false), "border-false", fmt("(%lld,%lld)", v.x, v.y) + info());
    }
    // the areas of |A|, |B| add up
    {
        ld per = 0;
        for (auto& p : AB)
            per += length(p, true) + 50;
        const ld ea = area(EO), eb = area(paths(b.processEvenOdd())), d = area(D), i = area(I), x = area(X);
        const ld tol = 3 * per + 100;
        if (gab)
        R.check(std::abs(d + i - ea) < tol, "area:split", fmt("A-B %.0Lf + A*B %.0Lf != A %.0Lf ", d, i, ea) + info());
        if (gab)
        R.check(std::abs(x + 2 * i - ea - eb) < tol, "area:xor", fmt("x %.0Lf i %.0Lf a %.0Lf b %.0Lf ", x, i, ea, eb) + info());
        const ld da = a.area(), ref = area(A);
        R.check(std::abs(da - ref) <= 1e-9L * std::abs(ref) + 1, "area:value", fmt("%.3Lf %.3Lf", da, ref) + info());
    }
    // offsets
    {
        const i64 d = g.logn(5, std::max<i64>(6, i64(r / 2))) * (g.p(0.5) ? 1 : -1);
        const bool round = g.p(0.5);
        const double ml = g.p(0.5) ? 1.2 : g.u(1, 4);
        const Paths base = NZ;
        const Shape os = round ? a.offset(d, ClipperLib::jtRound) : a.offset(d, ClipperLib::jtMiter, ml);
        const Paths O = paths(os);
        const ld grow = round ? 1 : std::max(1.4143, ml);
        ld nearself = 0;
        for (int k = 0; k < 40; ++k)
        {
            const P q = random_point(g, A, std::abs(d) * 1.6 + 10);
            const bool in = winding(base, q.x, q.y) != 0;
            const ld ds = dist_paths(q.x, q.y, base) * (in ? -1 : 1); // signed: inside negative
            int w;
            const ld tol = 30 + 0.03L * std::abs(d);
            bool known, want = false;
            if (d > 0)
            {
                known = ds < d - tol || ds > d * grow + tol;
                want = ds < d - tol;
            }
            else
            {
                known = ds < d * grow - tol || ds > d + tol;
                want = ds < d * grow - tol;
            }
            if (! known)
                continue;
            R.stat("offset points judged");
            const bool ok = nested_ok(O, q.x, q.y, w);
            if (! ok || (w != 0) != want)
            {
                int w2;
                if (! nested_ok(lib_offset(base, double(d), round ? ClipperLib::jtRound : ClipperLib::jtMiter, round ? 1.2 : ml), q.x, q.y, w2) || (w2 != 0) != want)
                {
                    R.stat("points excused (library artefact)");
                    continue;
                }
            }
            if (! ok)
                R.violation("nesting:offset", fmt("d=%lld round=%d ml=%.2f winding %d at (%lld,%lld) ", d, round, ml, w, q.x, q.y) + show(A) + " out=" + show(O));
            else if ((w != 0) != want)
                R.violation(std::string("offset:") + (d > 0 ? "grow" : "shrink"), fmt("d=%lld round=%d ml=%.2f at (%lld,%lld) signed distance %.1Lf want %d ", d, round, ml, q.x, q.y, ds, want) + show(A) + " out=" + show(O));
        }
        (void)nearself;
        R.check(fp(paths(a.offset(0))) == fp(A), "offset:zero", show(A));
        if (A.size() == 1 && simple(A[0]) && area(A[0]) > 0)
        {
            const Paths O1 = paths(a[0].offset(int(d), round ? ClipperLib::jtRound : ClipperLib::jtMiter, ml));
            R.check(std::abs(area(O1) - area(O)) <= 4 * (length(A[0], true) + std::abs(d) * 8) + 100, "offset:polygon-vs-shape", fmt("d=%lld %.0Lf %.0Lf ", d, area(O1), area(O)) + show(A));
        }
        const i64 di = std::abs(d) / 2 + 1, dou = std::abs(d) + 1;
        const Paths T = paths(a.createTubeShape(di, dou));
        for (int k = 0; k < 12; ++k)
        {
            const P q = random_point(g, A, dou * 1.6 + 10);
            const bool in = winding(base, q.x, q.y) != 0;
            const ld ds = dist_paths(q.x, q.y, base);
            const ld lim = in ? di : dou;
            if (ds > lim - 30 - 0.03L * lim && ds < lim * 1.45 + 30)
                continue;
            if (winding(lib_offset(base, double(in ? -di : dou), ClipperLib::jtMiter, 1.2), q.x, q.y) != (in ? ds > lim : ds <= lim))
                continue; // library artefact
            R.check((winding(T, q.x, q.y) != 0) == (ds <= lim), "tube", fmt("in %lld out %lld at (%lld,%lld) ds %.1Lf inside %d ", di, dou, q.x, q.y, ds, in) + show(A) + " out=" + show(T));
        }
    }
    // parts
    for (const bool all : { false, true })
    {
        if (! ga)
            break;
        const auto parts = a.splitIntoParts(all);
        Shape viewed = a;
        const auto view = viewed.splitIntoPartsView(all);
        std::vector<Paths> ps, vs;
        for (const auto& s : parts)
            ps.push_back(paths(s));
        std::vector<int> seen(viewed.size());
        for (size_t i = 0; i < view.size(); ++i)
        {
            vs.push_back(paths(view.assemblePart(i)));
            for (size_t k : view[i])
            {
                if (R.check(k < seen.size(), "view:index", info()))
                {
                    ++seen[k];
                    R.check(view.getPartContaining(k) == i, "view:lookup", info());
                }
            }
        }
        for (int s : seen)
            R.check(s == 1, "view:exactly-once", fmt("%d ", s) + show(A));
        R.check(ps.size() == vs.size(), "parts:count", fmt("%zu vs %zu ", ps.size(), vs.size()) + show(A));
        R.stat("parts", double(ps.size()));
        for (const auto* set : { &ps, &vs })
            for (const Paths& part : *set)
            {
                if (! R.check(! part.empty() && area(part[0]) > 0, "parts:outline-first", show(part) + " of " + show(A)))
                    continue;
                for (size_t k = 1; k < part.size(); ++k)
                {
                    R.check(area(part[k]) < 0, "parts:hole-orientation", show(part));
                    ld worst = 0;
                    for (auto& v : part[k])
                        if (! winding(part[0], v.x, v.y))
                            worst = std::max(worst, dist_path(v.x, v.y, part[0], true));
                    R.check(worst < 3, "parts:hole-inside", fmt("%.1Lf ", worst) + show(part));
                }
            }
        for (int k = 0; k < 30; ++k)
        {
            const P q = random_point(g, A, r / 4);
            if (dist_paths(q.x, q.y, A) < SL)
                continue;
            const bool want = all ? winding(A, q.x, q.y) != 0 : crossings(A, q.x, q.y) != 0;
            int n = 0, m = 0;
            for (size_t i = 0; i < parts.size(); ++i)
            {
                n += crossings(ps[i], q.x, q.y);
                R.check(parts[i].inside(c(q)) == (crossings(ps[i], q.x, q.y) != 0), "parts:inside", show(ps[i]));
            }
            for (auto& v : vs)
                m += crossings(v, q.x, q.y);
            R.check(n == int(want), "parts:partition", fmt("point (%lld,%lld) lies in %d parts, want %d ", q.x, q.y, n, want) + show(A));
            R.check(m == int(want), "parts:view-partition", fmt("point (%lld,%lld) lies in %d parts, want %d ", q.x, q.y, m, want) + show(A));
        }
    }
    // nesting depth
    if (ga)
    {
        const auto bins = a.sortByNesting();
        std::vector<Paths> bp;
        Paths flat;
        for (auto& s : bins)
        {
            bp.push_back(paths(s));
            flat.insert(flat.end(), bp.back().begin(), bp.back().end());
        }
        R.smax("nesting depth", double(bins.size()));
        const Paths outer = paths(a.getOutsidePolygons());
        for (int k = 0; k < 20; ++k)
        {
            const P q = random_point(g, A, r / 4);
            if (dist_paths(q.x, q.y, A) < SL)
                continue;
            R.check((crossings(flat, q.x, q.y) != 0) == (crossings(A, q.x, q.y) != 0), "nesting:membership", show(A));
            bool prev = true;
            for (size_t d = 0; d < bp.size(); ++d)
            {
                int n = 0;
                for (auto& p : bp[d])
                    n += crossings({ p }, q.x, q.y);
                R.check(n <= 1, "nesting:disjoint-level", fmt("level %zu n %d at (%lld,%lld) ", d, n, q.x, q.y) + show(A));
                R.check(! n || prev, "nesting:chain", fmt("level %zu at (%lld,%lld) ", d, q.x, q.y) + show(A));
                prev = n;
            }
            if (A.size() > 1 && ! bp.empty())
            {
                bool in0 = false;
                for (auto& p : bp[0])
                    in0 |= crossings({ p }, q.x, q.y);
                bool ino = false;
                for (auto& p : outer)
                    ino |= crossings({ p }, q.x, q.y);
                R.check(in0 == ino, "outside-polygons", fmt("at (%lld,%lld) ", q.x, q.y) + show(A));
            }
        }
    }
    // clipping of lines
    {
        cura::OpenLinesSet ls;
        Path all;
        ld want = 0, unc = 0;
        const int n = int(g.in(1, 4));
        std::vector<Path> src;
        const Paths BB = EO; // no self-overlap, which would count a length twice
        const Shape bb = shp(BB);
        for (int i = 0; i < n; ++i)
        {
            Path p{ random_point(g, A, r / 2) };
            for (int k = int(g.in(1, 5)); k > 0; --k)
            {
                P q = random_point(g, A, r / 2);
                if (dist(q, p.back()) > 5)
                    p.push_back(q);
            }
            if (p.size() < 2)
                continue;
            src.push_back(p);
            ls.push_back(open(p));
            for (size_t k = 1; k < p.size(); ++k)
                want += inside_length(p[k - 1], p[k], BB, unc);
        }
        if (! BB.empty() && ! src.empty())
        {
            const cura::OpenLinesSet cut = bb.intersection(ls, false), cut2 = bb.intersection(ls, true), rest = ls.difference(bb);
            ld got = 0, tot = 0, got2 = 0, left = 0;
            for (auto& p : src)
                tot += length(p, false);
            for (const auto* set : { &cut, &cut2 })
                for (const auto& l : *set)
                {
                    const Path p = path(l);
                    (set == &cut ? got : got2) += length(p, false);
                    for (auto& v : p)
                    {
                        ld ds = 1e30L;
                        for (auto& s : src)
                            ds = std::min(ds, dist_path(v.x, v.y, s, false));
                        R.check(ds < 3, "clip:on-line", fmt("%.1Lf ", ds) + show(src) + show(BB));
                        R.check(crossings(BB, v.x, v.y) || dist_paths(v.x, v.y, BB) < 3, "clip:inside", fmt("(%lld,%lld) ", v.x, v.y) + show(src) + show(BB));
                    }
                }
            for (const auto& l : rest)
                left += length(path(l), false);
            const ld tol = unc + 40 + 4 * src.size();
            const ld l1 = lib_lines(src, BB, ClipperLib::ctIntersection, true), l2 = lib_lines(src, BB, ClipperLib::ctDifference, false);
            if (std::abs(l1 - want) >= tol || std::abs(l1 + l2 - tot) >= tol)
                R.stat("clips excused (library artefact)");
            else
            {
            R.check(std::abs(got - want) < tol, "clip:length", fmt("%.1Lf want %.1Lf tol %.1Lf ", got, want, tol) + show(src) + show(BB));
            R.check(std::abs(got2 - want) < tol + 30 * (cut.size() + 1), "clip:stitched-length", fmt("%.1Lf want %.1Lf tol %.1Lf ", got2, want, tol) + show(src) + show(BB));
            R.check(std::abs(left + got - tot) < tol, "clip:complement", fmt("in %.1Lf out %.1Lf total %.1Lf tol %.1Lf ", got, left, tot, tol) + show(src) + show(BB));
            }
            R.stat("lines clipped", double(src.size()));
        }
    }
    // small areas
    {
        Shape s = shp(shape(g, r, 3, 0.8));
        const Paths before = paths(s);
        const double lim = std::abs(double(area(g.pick(before)))) * g.u(0.5, 1.5) * 1e-6;
        const bool holes = g.p(0.5);
        s.removeSmallAreas(lim, holes);
        std::multiset<std::vector<P>> got, want;
        for (auto& p : paths(s))
            got.insert(p);
        for (size_t i = 0; i < before.size(); ++i)
        {
            const double ar = double(area(before[i])) * 1e-6;
            bool keep = std::abs(ar) >= lim;
            if (! keep && ! holes && ar < 0)
            {
                keep = true;
                for (size_t k = 0; k < before.size(); ++k)
                {
                    const double ak = double(area(before[k])) * 1e-6;
                    if (ak >= 0 && ak < lim && winding(before[k], before[i][0].x, before[i][0].y))
                        keep = false;
                }
            }
            if (keep)
                want.insert(before[i]);
        }
        R.check(got == want, "small-areas", fmt("limit %.6f holes %d ", lim, holes) + show(before) + " -> " + show(paths(s)));
    }
    // hull, colinear points, translation, lengths
    {
        Shape s = shp(A);
        s.makeConvex();
        const Path H = hull(A);
        if (H.size() >= 3)
        {
            const Paths got = paths(s);
            R.check(got.size() == 1 && std::abs(area(got) - area(H)) <= 1e-12L * area(H) + 2, "hull", fmt("%.1Lf want %.1Lf ", area(got), area(H)) + show(A) + " -> " + show(got));
        }
        Shape t = a;
        const i64 dx = g.in(-100000, 100000), dy = g.in(-100000, 100000);
        t.translate(cura::Point2LL(dx, dy));
        Paths T = A;
        ld len = 0;
        size_t pts = 0;
        for (auto& p : T)
        {
            len += length(p, true);
            pts += p.size();
            for (auto& v : p)
                v = { v.x + dx, v.y + dy };
        }
        R.check(paths(t) == T, "translate", show(A));
        R.check(std::abs(ld(a.length()) - len) <= pts + 1, "length", fmt("%lld %.1Lf ", a.length(), len) + show(A));
        R.check(a.pointCount() == pts, "point-count", show(A));
        Shape col = shp(EO);
        // add points along the edges
        Shape dense;
        for (auto& p : EO)
        {
            Path q;
            for (size_t i = 0; i < p.size(); ++i)
            {
                P u = p[i], v = p[(i + 1) % p.size()];
                q.push_back(u);
                for (int k = 1, n = int(g.in(1, 4)); k < n; ++k)
                    q.push_back({ u.x + (v.x - u.x) * k / n, u.y + (v.y - u.y) * k / n });
            }
            q.erase(std::unique(q.begin(), q.end()), q.end());
            dense.push_back(poly(q));
        }
        dense.removeColinearEdges();
        dense.removeDegenerateVerts();
        const Paths DP = paths(dense);
        for (int k = 0; k < 20; ++k)
        {
            const P q = random_point(g, A, r / 4);
            if (dist_paths(q.x, q.y, EO) < 5 + r * 0.0011)
                continue;
            R.check((winding(DP, q.x, q.y) != 0) == (winding(EO, q.x, q.y) != 0), "colinear", fmt("at (%lld,%lld) ", q.x, q.y) + show(EO) + " -> " + show(DP));
        }
    }
    if (R.cur < 3)
        R.sample(info());
}

int main(int argc, char** argv)
{
    return run_main(argc, argv, one);
}
