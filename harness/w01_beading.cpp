// How a thickness is divided into beads: the numbers, widths and places of the beads against a model of the definition.
#include "BeadingStrategy/BeadingStrategy.h"
#include "BeadingStrategy/BeadingStrategyFactory.h"
#include "h.hpp"

using namespace h;
using namespace cura;
using Beading = BeadingStrategy::Beading;

struct Cfg
{
    i64 outer, inner, length;
    double angle;
    bool thin;
    i64 min_out, min_in;
    double split, add;
    i64 maxb, off0, offx;
    int radius;
    double ratio;
    BeadingStrategyPtr make(bool outer_off, bool inner_off) const
    {
        return BeadingStrategyFactory::makeStrategy(outer, inner, length, angle, thin, min_out, min_in, Ratio(split), Ratio(add), maxb, outer_off ? off0 : 0, inner_off ? offx : 0, radius, Ratio(ratio));
    }
    std::string show() const
    {
        return h::fmt(
            "outer %lld inner %lld %s(%lld to %lld) split %.4f add %.4f at most %lld, distributed over %d, ratio %.3f",
            (long long)outer,
            (long long)inner,
            thin ? "thin walls " : "",
            (long long)min_in,
            (long long)min_out,
            split,
            add,
            (long long)maxb,
            radius,
            ratio);
    }
};
struct Model
{
    std::vector<ld> w, x;
    void place(ld from)
    {
        for (ld v : w)
        {
            x.push_back(from + v / 2);
            from += v;
        }
    }
};

static Model divide(const Cfg& c, ld t, i64 n)
{
    Model m;
    if (c.thin && t < c.inner)
    {
        if (t >= c.min_in)
        {
            m.w = { std::max(t, ld(c.min_out)) };
            m.x = { t / 2 };
        }
        return m;
    }
    if (n == 0 || double(t) < c.ratio * double(c.outer))
        return m;
    if (n <= 2)
        m.w.assign(size_t(n), t / n);
    else
    {
        const ld o = std::min(t / 2, ld(c.outer)), rest = t - 2 * c.outer;
        m.w.push_back(o);
        const i64 k = n - 2;
        if (rest > 0)
        {
            if (k <= 2)
                m.w.insert(m.w.end(), size_t(k), rest / k);
            else
            {
                const ld r = c.radius >= 2 ? c.radius - 1 : 1;
                std::vector<ld> g;
                ld sum = 0;
                for (i64 i = 0; i < k; ++i)
                {
                    const ld d = (i - ld(k - 1) / 2) / r;
                    g.push_back(std::max(ld(0), 1 - d * d));
                    sum += g.back();
                }
                for (ld v : g)
                    m.w.push_back(c.inner + (rest - k * c.inner) * v / sum);
            }
        }
        m.w.push_back(o);
    }
    m.place(0);
    return m;
}

static void one(Run& R, Rng& g)
{
    Cfg c;
    c.outer = g.in(100, 1000);
    c.inner = g.p(0.3) ? c.outer : std::max<i64>(80, std::min<i64>(c.outer * 19 / 10, i64(double(c.outer) * g.u(0.5, 1.9))));
    c.length = g.in(1, 2000);
    c.angle = g.u(0, 1.5);
    c.thin = g.p(0.5);
    c.min_in = g.in(10, c.outer);
    c.min_out = g.in(10, c.outer);
    c.split = g.p(0.1) ? g.pick(std::vector<double>{ 0.01, 0.99, 0.5 }) : g.u(0.01, 0.99);
    c.add = g.p(0.1) ? g.pick(std::vector<double>{ 0.01, 0.99, 0.5 }) : g.u(0.01, 0.99);
    c.maxb = 2 * (g.p(0.8) ? g.in(1, 6) : g.in(6, 60));
    c.off0 = g.in(1, 400);
    c.offx = g.p(0.5) ? g.in(1, 300) : -g.in(1, 80);
    c.radius = int(g.p(0.8) ? g.in(0, 5) : g.in(5, 40));
    c.ratio = g.p(0.5) ? 0.5 : g.u(0.1, 1);
    const auto s = c.make(false, false), so = c.make(true, false), sx = c.make(false, true), sox = c.make(true, true);
    const std::string in = c.show();
    R.check(std::abs(double(s->getTransitioningAngle()) - c.angle) < 1e-9 && s->getDefaultTransitionLength() == c.length && std::abs(double(s->getSplitMiddleThreshold()) - c.split) < 1e-12 && std::abs(double(s->getAddMiddleThreshold()) - c.add) < 1e-12, "parameters", in + ": other parameters than those given");
    const auto optimal = [&](i64 n) { return n <= 2 ? n * c.outer : 2 * c.outer + (n - 2) * c.inner; };
    const auto transition = [&](i64 n) -> ld
    {
        if (n == 0)
            return c.thin ? ld(c.min_in) : c.ratio * c.outer;
        if (n == 1)
            return (1 + c.split) * c.outer;
        return optimal(n) + (n % 2 ? c.split : c.add) * c.inner;
    };
    for (i64 n = 0; n <= c.maxb; ++n)
    {
        const i64 o = s->getOptimalThickness(n), t = s->getTransitionThickness(n);
        R.check(o == optimal(n), "optimal thickness", in + h::fmt(": %lld for %lld beads, expected %lld", (long long)o, (long long)n, (long long)optimal(n)));
        if (n < c.maxb)
        {
            R.check(std::abs(ld(t) - transition(n)) <= 1.01, "transition thickness", in + h::fmt(": %lld from %lld beads to one more, expected %.3Lf", (long long)t, (long long)n, transition(n)));
            const i64 below = s->getOptimalBeadCount(t - 2), above = s->getOptimalBeadCount(t + 2);
            R.check(below <= n && (above > n || (c.thin && t + 2 < c.min_in)), "transition and number of beads", in + h::fmt(": %lld beads below and %lld above the thickness %lld at which %lld beads become one more", (long long)below, (long long)above, (long long)t, (long long)n));
            const double a = s->getTransitionAnchorPos(n);
            const ld wa = 1 - (n % 2 ? c.split : c.add);
            R.check(a >= 0 && a <= 1 && std::abs(a - wa) <= 2.1 / double(c.inner), "anchor of a transition", in + h::fmt(": %g from %lld beads, expected %Lg", a, (long long)n, wa));
        }
        R.check(s->getTransitioningLength(n) == (n == 0 ? 10 : c.length), "length of a transition", in + h::fmt(": %lld from %lld beads", (long long)s->getTransitioningLength(n), (long long)n));
        if (n > 0 && ! (c.thin && o < c.min_in) && double(c.inner) * std::min(c.add, 1 - c.add) > 2 && double(c.inner) * std::min(c.split, 1 - c.split) > 2)
            R.check(s->getOptimalBeadCount(o) == n, "beads at the optimal thickness", in + h::fmt(": %lld beads at the optimal thickness of %lld", (long long)s->getOptimalBeadCount(o), (long long)n));
        for (auto* q : { &so, &sx, &sox })
            R.check((*q)->getOptimalThickness(n) == o && (*q)->getTransitionThickness(n) == t && (*q)->getTransitioningLength(n) == s->getTransitioningLength(n), "insets and thicknesses", in + ": moving the walls changes the thicknesses");
    }
    i64 last = 0, t = 0;
    std::vector<i64> ts;
    for (int k = 0; k < 60; ++k)
        ts.push_back(g.p(0.2) ? std::max<i64>(0, i64(transition(g.in(0, c.maxb))) + g.in(-3, 3)) : g.in(0, optimal(c.maxb) + 3 * c.inner));
    std::sort(ts.begin(), ts.end());
    for (i64 T : ts)
    {
        t = T;
        const i64 n = s->getOptimalBeadCount(t);
        const std::string at = in + h::fmt(", thickness %lld", (long long)t);
        R.check(n >= last, "more room, fewer beads", at + h::fmt(": %lld beads, but %lld for less", (long long)n, (long long)last));
        last = n;
        R.check(n >= 0 && n <= c.maxb + 1, "number of beads", at + h::fmt(": %lld beads", (long long)n));
        // the expected number, by the thresholds
        i64 want = 0;
        while (want < c.maxb && ld(t) >= transition(want))
            ++want;
        bool near = false;
        for (i64 q = 0; q <= want && q < c.maxb; ++q)
            near = near || std::abs(ld(t) - transition(q)) < 1.5;
        near = near || (c.thin && std::abs(t - c.min_in) < 2);
        if (c.thin && t < c.min_in)
            want = 0;
        if (! near && ! (c.thin && t >= c.min_in && want == 0))
        {
            const bool full = t >= optimal(c.maxb) + ld(c.maxb + 1 <= 2 ? c.outer : c.inner) - 10;
            R.check(n == want || (want == c.maxb && full && n == c.maxb + 1), "number of beads", at + h::fmt(": %lld beads, expected %lld", (long long)n, (long long)want));
            R.check(! (full && c.maxb > 0 && t > optimal(c.maxb) + c.inner) || n == c.maxb + 1, "more than the most beads", at + h::fmt(": %lld beads", (long long)n));
        }
        for (i64 k : { n, n - 1, n + 1 })
        {
            if (k < 0 || k > c.maxb + 1)
                continue;
            const std::string what = at + h::fmt(" in %lld beads", (long long)k);
            const Beading b = s->compute(t, k);
            Model m;
            if (k <= c.maxb)
            {
                m = divide(c, t, k);
                if (i64(m.w.size()) == c.maxb)
                { // the most beads: a bead of no width marks the inside of the innermost wall
                    const size_t h2 = size_t(c.maxb / 2);
                    m.x.insert(m.x.begin() + h2, m.x[h2 - 1] + m.w[h2 - 1] / 2);
                    m.w.insert(m.w.begin() + h2, 0);
                }
            }
            else
            {
                const i64 o = optimal(c.maxb);
                if (t < o)
                    continue;
                const Model half = divide(c, o, c.maxb);
                if (i64(half.w.size()) != c.maxb)
                    continue;
                const size_t h2 = size_t(c.maxb / 2);
                for (size_t i = 0; i < h2; ++i)
                {
                    m.w.push_back(half.w[i]);
                    m.x.push_back(half.x[i]);
                }
                m.w.push_back(0);
                m.x.push_back(m.x.back() + half.w[h2 - 1] / 2);
                for (size_t i = m.w.size(); i-- > 0;)
                {
                    m.w.push_back(m.w[i]);
                    m.x.push_back(t - m.x[i]);
                }
            }
            const ld tol = 3 + 1.5L * ld(k);
            bool same = b.bead_widths.size() == m.w.size() && b.toolpath_locations.size() == m.x.size();
            std::string got;
            ld sum = 0;
            for (size_t i = 0; i < b.bead_widths.size() && i < b.toolpath_locations.size(); ++i)
            {
                got += h::fmt(" %lld@%lld", (long long)b.bead_widths[i], (long long)b.toolpath_locations[i]);
                sum += b.bead_widths[i];
                if (same)
                    same = std::abs(b.bead_widths[i] - m.w[i]) <= 2.01 && std::abs(b.toolpath_locations[i] - m.x[i]) <= tol;
                R.check(b.bead_widths[i] >= 0 || k != n, "negative width", what + ":" + got);
                if (i && k == n && t >= 2 * c.outer)
                    R.check(b.toolpath_locations[i] >= b.toolpath_locations[i - 1] - 1, "order of the beads", what + ":" + got);
            }
            std::string exp;
            for (size_t i = 0; i < m.w.size(); ++i)
                exp += h::fmt(" %.1Lf@%.1Lf", m.w[i], m.x[i]);
            R.check(same, k > c.maxb ? "beads of a wide part" : "beads", what + ":" + got + ", expected" + exp);
            R.check(b.total_thickness == t, "total thickness", what + h::fmt(": %lld", (long long)b.total_thickness));
            if (! (c.thin && t < c.inner && ! m.w.empty()))
                R.check(std::abs(sum + b.left_over - t) <= 0.01L, "beads and the rest make up the thickness", what + ":" + got + h::fmt(", left over %lld", (long long)b.left_over));
            if (k <= c.maxb && ! b.bead_widths.empty() && ! (c.thin && t < c.inner) && (k <= 2 || t > 2 * c.outer))
                R.check(std::abs(b.left_over) <= tol, "thickness left over", what + ":" + got + h::fmt(", left over %lld", (long long)b.left_over));
            // moving the walls moves the walls only
            const auto moved = [&](const BeadingStrategyPtr& q, bool o, bool x, const char* which)
            {
                const Beading d = q->compute(t, k);
                if (k > c.maxb)
                    return; // there the inside mirrors what was moved
                R.check(d.bead_widths == b.bead_widths && (d.left_over == b.left_over || c.thin), "moved walls are as wide", what + ", " + which);
                if (d.toolpath_locations.size() != b.toolpath_locations.size())
                {
                    R.check(false, "moved walls", what + ", " + which + ": another number of walls");
                    return;
                }
                const auto beads = std::count_if(b.bead_widths.begin(), b.bead_widths.end(), [](i64 v) { return v > 0; });
                for (size_t i = 0; i < d.toolpath_locations.size(); ++i)
                {
                    i64 e = b.toolpath_locations[i];
                    if (beads >= 2 && o && i == 0)
                        e = std::min(e + c.off0, t / 2);
                    if (beads >= 2 && x && i > 0)
                        e += c.offx;
                    const bool marker = b.bead_widths[i] == 0;
                    if (marker && o && i == 1) // follows the outer wall when that is the only one
                        continue;
                    if (marker && x && i == 1)
                        continue;
                    R.check(std::abs(d.toolpath_locations[i] - e) <= 1, "moved walls", what + h::fmt(", %s: wall %zu at %lld instead of %lld", which, i, (long long)d.toolpath_locations[i], (long long)e));
                }
            };
            moved(so, true, false, "outer wall moved");
            moved(sx, false, true, "inner walls moved");
            moved(sox, true, true, "both moved");
            R.stat("divisions compared");
        }
        for (auto* q : { &so, &sx, &sox })
            R.check((*q)->getOptimalBeadCount(t) == n, "insets and the number of beads", at + ": moving the walls changes their number");
    }
    R.eval(mix(mix(uint64_t(c.outer), uint64_t(c.inner)), g.next()), true);
}

int main(int argc, char** argv)
{
    return run_main(argc, argv, one);
}
