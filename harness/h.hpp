// Common part of the harness programs: seeded randomness, the reporting protocol of lib/vf.py, and exact brute-force
// geometry that shares no code with the engine.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace h
{
using i64 = long long;
using i128 = __int128;
using ld = long double;

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed)
        : s(seed)
    {
        next();
        next();
    }
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    i64 in(i64 a, i64 b) // inclusive
    {
        return a + static_cast<i64>(next() % (static_cast<uint64_t>(b) - static_cast<uint64_t>(a) + 1));
    }
    double u()
    {
        return static_cast<double>(next() >> 11) * 0x1.0p-53;
    }
    double u(double a, double b)
    {
        return a + (b - a) * u();
    }
    bool p(double q)
    {
        return u() < q;
    }
    template<class T>
    const T& pick(const std::vector<T>& v)
    {
        return v[next() % v.size()];
    }
    i64 logn(i64 lo, i64 hi) // log-uniform
    {
        return std::llround(std::exp(u(std::log(double(lo)), std::log(double(hi)))));
    }
};

inline std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += char(c);
        }
        else if (c < 32 || c > 126)
        {
            char b[8];
            snprintf(b, 8, "\\u%04x", c);
            o += b;
        }
        else
        {
            o += char(c);
        }
    }
    return o + "\"";
}

inline std::string fmt(const char* f, ...)
{
    char b[4096];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}

struct Run
{
    uint64_t seed = 1;
    i64 from = 0, to = 0, cur = 0;
    bool thorough = false;
    std::string progress;
    std::map<std::string, double> stats;
    std::unordered_set<uint64_t> distinct;
    i64 evals = 0;
    int samples = 0;
    std::map<std::string, int> reported;
    std::vector<std::string> args;

    void violation(const std::string& key, const std::string& msg)
    {
        if (reported[key]++ < 2)
        {
            printf("{\"v\":%s,\"m\":%s,\"c\":%lld}\n", jstr(key).c_str(), jstr(msg.substr(0, 8000)).c_str(), cur);
            fflush(stdout);
        }
    }
    bool check(bool ok, const std::string& key, const std::string& msg)
    {
        if (! ok)
        {
            violation(key, msg);
        }
        return ok;
    }
    void stat(const std::string& k, double n = 1)
    {
        stats[k] += n;
    }
    void smax(const std::string& k, double v)
    {
        auto& x = stats["max " + k];
        x = std::max(x, v);
    }
    void inconclusive(const std::string& w)
    {
        printf("{\"i\":%s}\n", jstr(w).c_str());
    }
    void sample(const std::string& w)
    {
        if (samples++ < 2)
        {
            printf("{\"x\":%s}\n", jstr(w).c_str());
        }
    }
    // one execution of the code under test; a non-trivial one has a fingerprint
    void eval(uint64_t fingerprint = 0, bool nontrivial = true)
    {
        ++evals;
        if (nontrivial && distinct.size() < 20000)
        {
            distinct.insert(fingerprint & ((1ull << 52) - 1));
        }
    }
};

inline uint64_t mix(uint64_t a, uint64_t b)
{
    uint64_t z = a * 0x9e3779b97f4a7c15ull + b + 0x7f4a7c15;
    z = (z ^ (z >> 29)) * 0xbf58476d1ce4e5b9ull;
    return z ^ (z >> 32);
}

inline int run_main(int argc, char** argv, const std::function<void(Run&, Rng&)>& one_case)
{
    Run r;
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--seed")
            r.seed = std::stoull(val());
        else if (a == "--from")
            r.from = std::stoll(val());
        else if (a == "--to")
            r.to = std::stoll(val());
        else if (a == "--progress")
            r.progress = val();
        else if (a == "--tier")
            r.thorough = val() == "thorough";
        else
            r.args.push_back(a);
    }
    FILE* pf = r.progress.empty() ? nullptr : fopen(r.progress.c_str(), "w");
    for (i64 c = r.from; c < r.to; ++c)
    {
        r.cur = c;
        if (pf)
        {
            rewind(pf);
            fprintf(pf, "%lld        \n", c);
            fflush(pf);
        }
        Rng g(mix(mix(0xC0FFEE, r.seed), uint64_t(c)));
        one_case(r, g);
    }
    std::string s;
    for (auto& [k, v] : r.stats)
    {
        s += (s.empty() ? "" : ",") + jstr(k) + ":" + fmt("%.10g", v);
    }
    printf("{\"s\":{%s}}\n", s.c_str());
    std::string d;
    for (auto v : r.distinct)
    {
        d += (d.empty() ? "" : ",") + std::to_string(v);
    }
    printf("{\"n\":%lld,\"d\":[%s]}\n", r.evals, d.c_str());
    fflush(stdout);
    _Exit(0);
}

// ---- geometry ----
struct P
{
    i64 x, y;
    bool operator==(const P& o) const
    {
        return x == o.x && y == o.y;
    }
    bool operator<(const P& o) const
    {
        return x != o.x ? x < o.x : y < o.y;
    }
};
using Path = std::vector<P>;
using Paths = std::vector<Path>;

inline int sgn(i128 v)
{
    return v > 0 ? 1 : v < 0 ? -1 : 0;
}
inline i128 cross(P a, P b, P c)
{
    return i128(b.x - a.x) * (c.y - a.y) - i128(b.y - a.y) * (c.x - a.x);
}
inline ld dist(P a, P b)
{
    return std::hypot(ld(a.x - b.x), ld(a.y - b.y));
}
inline ld dist_seg(ld px, ld py, P a, P b)
{
    const ld dx = b.x - a.x, dy = b.y - a.y, l2 = dx * dx + dy * dy;
    ld t = l2 == 0 ? 0 : ((px - a.x) * dx + (py - a.y) * dy) / l2;
    t = t < 0 ? 0 : t > 1 ? 1 : t;
    return std::hypot(a.x + t * dx - px, a.y + t * dy - py);
}
inline ld dist_seg(P p, P a, P b)
{
    return dist_seg(p.x, p.y, a, b);
}
inline ld dist_path(ld x, ld y, const Path& p, bool closed)
{
    if (p.empty())
        return 1e30L;
    ld best = std::hypot(p[0].x - x, p[0].y - y);
    for (size_t i = closed ? 0 : 1; i < p.size(); ++i)
        best = std::min(best, dist_seg(x, y, p[i ? i - 1 : p.size() - 1], p[i]));
    return best;
}
inline ld dist_paths(ld x, ld y, const Paths& ps, bool closed = true)
{
    ld best = 1e30L;
    for (auto& p : ps)
        best = std::min(best, dist_path(x, y, p, closed));
    return best;
}
inline int winding(const Path& p, i64 x, i64 y) // exact; unspecified on the boundary
{
    int w = 0;
    for (size_t i = 0; i < p.size(); ++i)
    {
        P a = p[i ? i - 1 : p.size() - 1], b = p[i];
        if ((a.y <= y) != (b.y <= y))
        {
            int s = sgn(cross(a, b, P{ x, y }));
            if (b.y > a.y)
                w += s > 0;
            else
                w -= s < 0;
        }
    }
    return w;
}
inline int winding(const Paths& ps, i64 x, i64 y)
{
    int w = 0;
    for (auto& p : ps)
        w += winding(p, x, y);
    return w;
}
inline int crossings(const Paths& ps, i64 x, i64 y) // even-odd parity
{
    int w = 0;
    for (auto& p : ps)
        for (size_t i = 0; i < p.size(); ++i)
        {
            P a = p[i ? i - 1 : p.size() - 1], b = p[i];
            if ((a.y <= y) != (b.y <= y))
            {
                int s = sgn(cross(a, b, P{ x, y }));
                w += (b.y > a.y) ? s > 0 : s < 0;
            }
        }
    return w & 1;
}
inline ld area(const Path& p)
{
    i128 a = 0;
    for (size_t i = 0; i < p.size(); ++i)
    {
        P u = p[i ? i - 1 : p.size() - 1], v = p[i];
        a += i128(u.x) * v.y - i128(v.x) * u.y;
    }
    return ld(a) / 2;
}
inline ld area(const Paths& ps)
{
    ld a = 0;
    for (auto& p : ps)
        a += area(p);
    return a;
}
inline ld length(const Path& p, bool closed)
{
    ld l = 0;
    for (size_t i = closed ? 0 : 1; i < p.size(); ++i)
        l += dist(p[i ? i - 1 : p.size() - 1], p[i]);
    return l;
}
inline bool on_seg(P p, P a, P b)
{
    return cross(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y);
}
inline bool segs_touch(P a, P b, P c, P d) // share at least one point
{
    int s1 = sgn(cross(a, b, c)), s2 = sgn(cross(a, b, d)), s3 = sgn(cross(c, d, a)), s4 = sgn(cross(c, d, b));
    if (s1 * s2 < 0 && s3 * s4 < 0)
        return true;
    return (s1 == 0 && on_seg(c, a, b)) || (s2 == 0 && on_seg(d, a, b)) || (s3 == 0 && on_seg(a, c, d)) || (s4 == 0 && on_seg(b, c, d));
}
inline bool segs_cross(P a, P b, P c, P d) // properly
{
    return sgn(cross(a, b, c)) * sgn(cross(a, b, d)) < 0 && sgn(cross(c, d, a)) * sgn(cross(c, d, b)) < 0;
}
inline ld seg_seg(P a, P b, P c, P d)
{
    if (segs_touch(a, b, c, d))
        return 0;
    return std::min(std::min(dist_seg(a, c, d), dist_seg(b, c, d)), std::min(dist_seg(c, a, b), dist_seg(d, a, b)));
}
inline bool simple(const Path& p) // no two non-neighbouring edges touch, neighbours share their vertex only
{
    const size_t n = p.size();
    if (n < 3)
        return false;
    for (size_t i = 0; i < n; ++i)
    {
        P a = p[i], b = p[(i + 1) % n];
        if (a == b)
            return false;
        for (size_t j = i + 1; j < n; ++j)
        {
            P c = p[j], d = p[(j + 1) % n];
            if (j == i + 1 || (i == 0 && j == n - 1))
            {
                if (n == 3)
                    continue;
                P s = j == i + 1 ? c : a;
                P o1 = j == i + 1 ? a : b, o2 = j == i + 1 ? d : c;
                if (cross(s, o1, o2) == 0 && (i128(o1.x - s.x) * (o2.x - s.x) + i128(o1.y - s.y) * (o2.y - s.y)) > 0)
                    return false;
            }
            else if (segs_touch(a, b, c, d))
                return false;
        }
    }
    return area(p) != 0;
}
inline uint64_t fp(const Paths& ps)
{
    uint64_t v = ps.size();
    for (auto& p : ps)
        for (auto& q : p)
            v = mix(mix(v, q.x), q.y);
    return v;
}
inline uint64_t fp(const Path& p)
{
    return fp(Paths{ p });
}
inline std::string show(const Path& p, size_t max = 200)
{
    std::string s = "[";
    for (size_t i = 0; i < p.size() && i < max; ++i)
        s += fmt("%s(%lld,%lld)", i ? "," : "", p[i].x, p[i].y);
    return s + (p.size() > max ? fmt(",..%zu]", p.size()) : "]");
}
inline std::string show(const Paths& ps)
{
    std::string s = "{";
    for (auto& p : ps)
        s += show(p) + " ";
    return s + "}";
}

// ---- generators ----
inline Path star(Rng& g, int n, double r, double jitter, i64 cx = 0, i64 cy = 0)
{
    Path p;
    double ph = g.u(0, 2 * M_PI);
    for (int i = 0; i < n; ++i)
    {
        double a = ph + 2 * M_PI * (i + g.u(-0.35, 0.35)) / n, rr = r * (1 - jitter * g.u());
        p.push_back({ cx + std::llround(rr * cos(a)), cy + std::llround(rr * sin(a)) });
    }
    return p;
}
inline Path rect(i64 x0, i64 y0, i64 x1, i64 y1)
{
    return { { x0, y0 }, { x1, y0 }, { x1, y1 }, { x0, y1 } };
}
inline Path circle(int n, double r, i64 cx = 0, i64 cy = 0, double ph = 0)
{
    Path p;
    for (int i = 0; i < n; ++i)
        p.push_back({ cx + std::llround(r * cos(ph + 2 * M_PI * i / n)), cy + std::llround(r * sin(ph + 2 * M_PI * i / n)) });
    return p;
}
inline Path comb(Rng& g, i64 w, i64 hgt, int teeth, i64 cx = 0, i64 cy = 0)
{
    Path p{ { cx - w, cy - hgt }, { cx + w, cy - hgt } };
    for (int i = teeth; i > 0; --i)
    {
        i64 x1 = cx - w + 2 * w * i / teeth, x0 = cx - w + 2 * w * (i - 1) / teeth, xm = (x0 + x1) / 2;
        i64 top = cy + std::llround(hgt * g.u(0.3, 1)), bot = cy - std::llround(hgt * g.u(0.2, 0.9));
        p.push_back({ x1, top });
        p.push_back({ xm, top });
        p.push_back({ xm, bot });
        p.push_back({ x0, bot });
    }
    return p;
}
inline Path rotate(Path p, double a, i64 dx = 0, i64 dy = 0)
{
    for (auto& q : p)
    {
        double x = q.x * cos(a) - q.y * sin(a), y = q.x * sin(a) + q.y * cos(a);
        q = { std::llround(x) + dx, std::llround(y) + dy };
    }
    return p;
}
inline void reverse(Path& p)
{
    std::reverse(p.begin(), p.end());
}
inline void ccw(Path& p)
{
    if (area(p) < 0)
        reverse(p);
}
// a simple polygon, counter-clockwise
inline Path simple_polygon(Rng& g, double r, i64 cx = 0, i64 cy = 0)
{
    for (int tries = 0; tries < 20; ++tries)
    {
        Path p;
        switch (g.in(0, 5))
        {
        case 0:
            p = star(g, int(g.in(3, 30)), r, g.u(0, 0.9), cx, cy);
            break;
        case 1:
            p = rect(cx - std::llround(r * g.u(0.05, 1)), cy - std::llround(r * g.u(0.05, 1)), cx + std::llround(r * g.u(0.05, 1)), cy + std::llround(r * g.u(0.05, 1)));
            break;
        case 2:
            p = circle(int(g.in(3, 80)), r, cx, cy, g.u(0, 6));
            break;
        case 3:
            p = comb(g, std::llround(r), std::llround(r), int(g.in(1, 8)), cx, cy);
            break;
        case 4:
            p = rotate(comb(g, std::llround(r), std::llround(r * g.u(0.1, 1)), int(g.in(1, 6))), g.u(0, 7), cx, cy);
            break;
        default:
            p = star(g, int(g.in(3, 6)), r, 0.3, cx, cy);
        }
        if (simple(p))
        {
            ccw(p);
            return p;
        }
    }
    return rect(cx - i64(r) - 1, cy - i64(r) - 1, cx + i64(r) + 1, cy + i64(r) + 1);
}
// outer contours (counter-clockwise) with holes (clockwise), islands in holes; the contours do not touch
inline Paths shape(Rng& g, double r, int parts, double hole_p = 0.6)
{
    Paths out;
    for (int k = 0; k < parts; ++k)
    {
        i64 cx = std::llround(k * 3.0 * r), cy = std::llround(g.u(-0.5, 0.5) * r);
        if (g.p(hole_p))
        { // similar rings about one centre
            Path base = g.p(0.5) ? star(g, int(g.in(4, 16)), r, g.u(0, 0.5)) : circle(int(g.in(3, 40)), r);
            if (! simple(base))
                base = circle(12, r);
            ccw(base);
            double f = 1;
            int rings = int(g.in(2, 4));
            for (int i = 0; i < rings; ++i)
            {
                Path q = base;
                for (auto& v : q)
                    v = { std::llround(v.x * f) + cx, std::llround(v.y * f) + cy };
                if (! simple(q))
                    break;
                if (i & 1)
                    reverse(q);
                out.push_back(q);
                f *= g.u(0.3, 0.85);
            }
        }
        else
        {
            out.push_back(simple_polygon(g, r, cx, cy));
        }
    }
    return out;
}
inline P random_point(Rng& g, const Paths& ps, double margin)
{
    i64 x0 = 1e18, y0 = 1e18, x1 = -1e18, y1 = -1e18;
    for (auto& p : ps)
        for (auto& q : p)
        {
            x0 = std::min(x0, q.x);
            x1 = std::max(x1, q.x);
            y0 = std::min(y0, q.y);
            y1 = std::max(y1, q.y);
        }
    if (x0 > x1)
        return { 0, 0 };
    const i64 m = i64(margin);
    if (g.p(0.5)) // near a contour
    {
        const Path& p = g.pick(ps);
        if (! p.empty())
        {
            size_t i = g.next() % p.size();
            P a = p[i], b = p[(i + 1) % p.size()];
            double t = g.u();
            i64 d = g.logn(1, std::max<i64>(2, m + (x1 - x0 + y1 - y0) / 8));
            return { a.x + std::llround((b.x - a.x) * t) + g.in(-d, d), a.y + std::llround((b.y - a.y) * t) + g.in(-d, d) };
        }
    }
    return { g.in(x0 - m, x1 + m), g.in(y0 - m, y1 + m) };
}
} // namespace h
