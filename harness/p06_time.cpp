// The print time estimate against an own model of the motion: trapezoids limited by speed, acceleration and jerk.
#include "Slice.h"
#include "Application.h"
#include "PrintFeature.h"
#include "h.hpp"
#include "settings/Settings.h"
#include "timeEstimate.h"

using namespace h;

static std::string num(double v)
{
    return fmt("%.17g", v);
}

struct Model
{
    ld vmax[4], amax[4], jxy, jz, je, minf, acc;
    ld pos[4] = { 0, 0, 0, 0 };
    struct Block
    {
        ld dist, v, a, cap, entry; // nominal speed, acceleration, highest entry speed
        int feature;
        bool reaches; // the nominal speed is within reach from standstill over its length
    };
    std::vector<Block> blocks;
    ld prev_f[4] = { 0, 0, 0, 0 }, prev_v = 0;
    ld extra = 0;
    static constexpr ld still = 0.05L;

    void plan(const double p[4], ld v, int feature)
    {
        ld d[4], mx = 0;
        for (int k = 0; k < 4; ++k)
        {
            d[k] = p[k] - pos[k];
            mx = std::max(mx, std::abs(d[k]));
        }
        if (mx <= 0)
            return;
        v = std::max(v, minf);
        Block b;
        b.feature = feature;
        b.dist = std::sqrt(d[0] * d[0] + d[1] * d[1] + d[2] * d[2]);
        if (b.dist < 1e-12L)
            b.dist = std::abs(d[3]);
        ld f[4], factor = 1;
        for (int k = 0; k < 4; ++k)
        {
            f[k] = d[k] * v / b.dist;
            if (std::abs(f[k]) > vmax[k])
                factor = std::min(factor, vmax[k] / std::abs(f[k]));
        }
        for (auto& x : f)
            x *= factor;
        b.v = v * factor;
        b.a = acc;
        for (int k = 0; k < 4; ++k)
            if (b.a * std::abs(d[k]) / b.dist > amax[k])
                b.a = amax[k];
        ld safe = jxy / 2;
        if (std::abs(f[2]) > jz / 2)
            safe = std::min(safe, jz / 2);
        if (std::abs(f[3]) > je / 2)
            safe = std::min(safe, je / 2);
        safe = std::min(safe, b.v);
        b.cap = safe;
        if (! blocks.empty() && prev_v > 0.0001L)
        {
            ld q = 1;
            const ld xy = std::hypot(f[0] - prev_f[0], f[1] - prev_f[1]);
            if (xy > jxy)
                q = jxy / xy;
            if (std::abs(f[2] - prev_f[2]) > jz)
                q = std::min(q, jz / std::abs(f[2] - prev_f[2]));
            if (std::abs(f[3] - prev_f[3]) > je)
                q = std::min(q, je / std::abs(f[3] - prev_f[3]));
            b.cap = std::min(prev_v, b.v * q);
        }
        const ld reach = std::sqrt(still * still + 2 * b.a * b.dist);
        b.entry = std::min(b.cap, reach);
        b.reaches = b.v <= reach;
        blocks.push_back(b);
        for (int k = 0; k < 4; ++k)
        {
            prev_f[k] = f[k];
            pos[k] = p[k];
        }
        prev_v = b.v;
    }
    std::vector<ld> calculate(int kinds)
    {
        // a block that cannot reach its nominal speed must be entered slowly enough to brake down to the next entry
        for (int i = int(blocks.size()) - 2; i >= 1; --i)
        {
            Block& b = blocks[i];
            if (! b.reaches && b.cap > blocks[i + 1].entry)
                b.entry = std::min(b.cap, std::sqrt(blocks[i + 1].entry * blocks[i + 1].entry + 2 * b.a * b.dist));
            else
                b.entry = b.cap;
        }
        // and can be left no faster than it can be accelerated to
        for (size_t i = 1; i < blocks.size(); ++i)
        {
            const Block& q = blocks[i - 1];
            if (! q.reaches && q.entry < blocks[i].entry)
                blocks[i].entry = std::min(blocks[i].entry, std::sqrt(q.entry * q.entry + 2 * q.a * q.dist));
        }
        std::vector<ld> t(kinds, 0);
        t[0] = extra;
        for (size_t i = 0; i < blocks.size(); ++i)
        {
            const Block& b = blocks[i];
            const ld v0 = b.entry, v1 = i + 1 < blocks.size() ? blocks[i + 1].entry : still;
            const ld up = (b.v * b.v - v0 * v0) / (2 * b.a), down = (b.v * b.v - v1 * v1) / (2 * b.a);
            ld time;
            if (up + down <= b.dist)
                time = (b.v - v0) / b.a + (b.v - v1) / b.a + (b.dist - up - down) / b.v;
            else
            {
                ld s = (2 * b.a * b.dist - v0 * v0 + v1 * v1) / (4 * b.a);
                s = std::clamp<ld>(s, 0, b.dist);
                auto dur = [&](ld from, ld len) { return (-from + std::sqrt(std::max<ld>(0, from * from + 2 * b.a * len))) / b.a; };
                time = dur(v0, s) + dur(v1, b.dist - s);
            }
            t[b.feature] += time;
        }
        return t;
    }
};

static void one(Run& R, Rng& g)
{
    cura::TimeEstimateCalculator est;
    cura::Settings st;
    Model m;
    const char* ax[] = { "x", "y", "z", "e" };
    const double fr[] = { 300, 300, 20, 50 }, ac[] = { 5000, 5000, 100, 8000 };
    for (int k = 0; k < 4; ++k)
    {
        const double v = fr[k] * g.u(0.1, 3), a = ac[k] * g.u(0.1, 3);
        st.add(std::string("machine_max_feedrate_") + ax[k], num(v));
        st.add(std::string("machine_max_acceleration_") + ax[k], num(a));
        m.vmax[k] = v;
        m.amax[k] = a;
    }
    auto put = [&](const char* key, ld& to, double v)
    {
        st.add(key, num(v));
        to = v;
    };
    put("machine_max_jerk_xy", m.jxy, g.u(0.5, 40));
    put("machine_max_jerk_z", m.jz, g.u(0.1, 5));
    put("machine_max_jerk_e", m.je, g.u(0.5, 20));
    put("machine_minimum_feedrate", m.minf, g.p(0.5) ? 0.01 : g.u(0, 10));
    put("machine_acceleration", m.acc, g.u(100, 6000));
    est.setFirmwareDefaults(st);
    const int kinds = int(cura::PrintFeatureType::NumPrintFeatureTypes);
    for (int round = 0; round < 3; ++round)
    {
        if (round)
        {
            est.reset();
            m.blocks.clear();
            m.extra = 0;
        }
        double p[4] = { g.u(0, 200), g.u(0, 200), g.u(0, 50), g.u(0, 100) };
        if (round == 0 || g.p(0.5))
        {
            est.setPosition(cura::TimeEstimateCalculator::Position(p[0], p[1], p[2], p[3]));
            for (int k = 0; k < 4; ++k)
                m.pos[k] = p[k];
        }
        else
            for (int k = 0; k < 4; ++k)
                p[k] = double(m.pos[k]);
        const int n = g.p(0.1) ? 0 : int(g.logn(1, 120));
        double step = g.pick<double>({ 0.1, 1, 10, 60 });
        double lower[32] = { 0 };
        ld path = 0;
        for (int i = 0; i < n; ++i)
        {
            double q[4] = { p[0], p[1], p[2], p[3] };
            const int kind = int(g.in(0, 9));
            if (kind < 7)
            {
                const double an = g.p(0.4) ? g.in(0, 7) * M_PI / 4 : g.u(0, 7), l = step * g.u(0.01, 2);
                q[0] += l * cos(an);
                q[1] += l * sin(an);
                if (g.p(0.7))
                    q[3] += l * g.u(0.01, 0.2);
            }
            else if (kind == 7)
                q[2] += g.u(-1, 1);
            else if (kind == 8)
                q[3] += g.u(-6, 6);
            else if (g.p(0.5))
                q[0] += step;
            const double v = g.p(0.05) ? 0.001 : g.pick<double>({ 5, 20, 60, 150, 500 }) * g.u(0.8, 1.2);
            const int feature = int(g.in(0, kinds - 1));
            if (g.p(0.1))
            {
                const double a = g.u(50, 8000);
                est.setAcceleration(a);
                m.acc = a;
            }
            if (g.p(0.1))
            {
                const double j = g.u(0.5, 40);
                est.setMaxXyJerk(j);
                m.jxy = j;
            }
            if (g.p(0.05))
            {
                const double t = g.u(0, 5);
                est.addTime(t);
                m.extra += t;
            }
            const size_t before = m.blocks.size();
            est.plan(cura::TimeEstimateCalculator::Position(q[0], q[1], q[2], q[3]), v, cura::PrintFeatureType(feature));
            m.plan(q, v, feature);
            if (m.blocks.size() > before)
            {
                lower[feature] += double(m.blocks.back().dist / m.blocks.back().v);
                path += m.blocks.back().dist;
            }
            for (int k = 0; k < 4; ++k)
                p[k] = q[k];
        }
        const auto got = est.calculate();
        const auto want = m.calculate(kinds);
        if (! R.check(int(got.size()) == kinds, "features", "not one time per feature"))
            return;
        for (int k = 0; k < kinds; ++k)
        {
            const double t = got[k];
            R.check(
                std::abs(t - double(want[k])) <= 2e-4 * double(want[k]) + 1e-6,
                "time estimate",
                fmt("feature %d: %.9g s, the own model of the motion takes %.9Lg s (%d moves, round %d)", k, t, want[k], n, round));
            R.check(t + 1e-9 >= lower[k] * (1 - 1e-5), "time below the least possible", fmt("feature %d: %.9g s, at full speed it takes %.9g s", k, t, lower[k]));
        }
        R.stat("moves planned", n);
        R.stat("mm planned", double(path));
        R.eval(mix(n, uint64_t(double(path) * 1e6)), n > 1);
    }
}

int main(int argc, char** argv)
{
    return run_main(argc, argv, one);
}
