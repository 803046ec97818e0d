// Heating plans (when to begin cooling down or warming up) and the flow to temperature graph, judged by simulating the nozzle.
#include "Application.h"
#include "ExtruderTrain.h"
#include "Preheat.h"
#include "Scene.h"
#include "Slice.h"
#include "h.hpp"
#include "settings/FlowTempGraph.h"
#include "settings/types/Temperature.h"

using namespace h;

static std::string num(double v)
{
    return fmt("%.17g", v);
}

static void one(Run& R, Rng& g)
{
    auto& app = cura::Application::getInstance();
    app.current_slice_ = std::make_shared<cura::Slice>(1);
    auto& scene = app.current_slice_->scene;
    const int ne = int(g.in(1, 3));
    std::vector<double> heat, cool, flow_cool, tp, t0;
    for (int e = 0; e < ne; ++e)
    {
        scene.extruders.emplace_back(e, &scene.settings);
        auto& s = scene.extruders.back().settings_;
        heat.push_back(g.u(0.5, 6));
        cool.push_back(g.u(0.3, 4));
        flow_cool.push_back(g.p(0.3) ? 0 : g.u(0, 0.4)); // heating stays stronger than the cooling by extrusion
        tp.push_back(std::floor(g.u(180, 280)));
        t0.push_back(g.p(0.4) ? 0 : std::floor(g.u(180, 280)));
        s.add("machine_nozzle_heat_up_speed", num(heat[e]));
        s.add("machine_nozzle_cool_down_speed", num(cool[e]));
        s.add("material_extrusion_cool_down_speed", num(flow_cool[e]));
        s.add("material_print_temperature", num(tp[e]));
        s.add("material_print_temperature_layer_0", num(t0[e]));
    }
    cura::Preheat pre;
    uint64_t f = ne;
    for (int k = 0; k < 20; ++k)
    {
        const int e = int(g.in(0, ne - 1));
        const bool printing = g.p(0.5);
        const ld up = heat[e] - (printing ? flow_cool[e] : 0), down = cool[e] + (printing ? flow_cool[e] : 0);
        const ld h1 = 1 / up, c1 = 1 / down;
        R.check(double(pre.getTemp(e, false)) == tp[e], "print temperature", "not the temperature of the material");
        R.check(double(pre.getTemp(e, true)) == (t0[e] != 0 ? t0[e] : tp[e]), "print temperature", "not the temperature of the first layer");
        const double a = g.u(0, 300), b = g.p(0.05) ? a : g.u(0, 300);
        const double t = pre.getTimeToGoFromTempToTemp(e, a, b, printing);
        const ld want = b > a ? (ld(b) - a) * h1 : (ld(a) - b) * c1;
        R.check(std::abs(t - want) <= 1e-9 * (1 + want), "time between temperatures", fmt("%g to %g: %g s, expected %Lg s", a, b, t, want));

        const double window = g.p(0.1) ? 0 : g.p(0.3) ? g.u(0, 5) : g.logn(1, 2000) * g.u(0.5, 1);
        { // down to standby and up again
            const double ts = g.u(160, 280), te = g.p(0.2) ? ts : g.u(160, 280), mid = g.p(0.1) ? std::min(ts, te) : std::min(ts, te) - g.u(0, 150);
            const auto r = pre.getWarmUpPointAfterCoolDown(window, e, ts, mid, te, printing);
            const std::string in = fmt("window %g s from %g over %g to %g, heating %Lg and cooling %Lg degrees/s", window, ts, mid, te, up, down);
            // the best plan: cool from ts until x, (wait at mid,) heat from x to te; the lowest x >= mid that fits
            const ld direct = ts < te ? (te - ts) * h1 : (ts - te) * c1;
            if (direct > window)
            {
                R.check(
                    std::abs(double(r.heating_time) - 0.0) < 1e-9 && std::abs(double(r.lowest_temperature) - std::min(ts, te)) < 1e-9,
                    "warm-up without enough time",
                    in + fmt(": heating %g s from %g", double(r.heating_time), double(r.lowest_temperature)));
                R.stat("plans without enough time");
            }
            else
            {
                // cooling (ts - x) c1 + heating (te - x) h1 = window
                const ld x = std::max<ld>(mid, (ts * c1 + te * h1 - window) / (c1 + h1));
                const ld heating = (te - x) * h1;
                R.check(
                    std::abs(double(r.heating_time) - heating) <= 1e-6 * (1 + window) && std::abs(double(r.lowest_temperature) - x) <= 1e-5 * (1 + x),
                    "warm-up plan",
                    in + fmt(": heating %g s from %g, the nozzle simulated wants %Lg s from %Lg", double(r.heating_time), double(r.lowest_temperature), heating, x));
                R.stat(x > mid + 1e-6 ? "V-shaped plans" : "plans that reach the middle temperature");
            }
            R.check(std::abs(double(r.total_time_window) - window) < 1e-9, "window", "the window reported is not the window given");
        }
        { // up to printing temperature and down again
            const double ts = g.u(160, 250), te = g.p(0.2) ? ts : g.u(160, 250), mid = g.p(0.1) ? std::max(ts, te) : std::max(ts, te) + g.u(0, 60);
            const auto r = pre.getCoolDownPointAfterWarmUp(window, e, ts, mid, te, printing);
            const std::string in = fmt("window %g s from %g over %g to %g, heating %Lg and cooling %Lg degrees/s", window, ts, mid, te, up, down);
            const ld direct = ts < te ? (te - ts) * h1 : (ts - te) * c1;
            if (direct > window)
            {
                R.check(
                    std::abs(double(r.cooling_time) - 0.0) < 1e-9 && std::abs(double(r.highest_temperature) - std::max(ts, te)) < 1e-9,
                    "cool-down without enough time",
                    in + fmt(": cooling %g s from %g", double(r.cooling_time), double(r.highest_temperature)));
            }
            else
            {
                // heating (x - ts) h1 + cooling (x - te) c1 = window
                const ld x = std::min<ld>(mid, (window + ts * h1 + te * c1) / (c1 + h1));
                const ld cooling = (x - te) * c1;
                R.check(
                    std::abs(double(r.cooling_time) - cooling) <= 1e-6 * (1 + window) && std::abs(double(r.highest_temperature) - x) <= 1e-5 * (1 + x),
                    "cool-down plan",
                    in + fmt(": cooling %g s from %g, the nozzle simulated wants %Lg s from %Lg", double(r.cooling_time), double(r.highest_temperature), cooling, x));
            }
        }
        f = mix(f, uint64_t(window * 1e6) + e);

        // the graph
        cura::FlowTempGraph graph;
        const int n = int(g.in(0, 6));
        std::vector<std::pair<double, double>> pts;
        double fl = g.u(0, 2);
        for (int i = 0; i < n; ++i)
        {
            pts.emplace_back(fl, std::floor(g.u(170, 300)));
            graph.data_.emplace_back(pts.back().first, pts.back().second);
            fl += g.u(0.1, 5);
        }
        for (int q = 0; q < 6; ++q)
        {
            const double flow = q == 0 ? -1 : g.p(0.3) && n ? pts[g.next() % n].first : g.u(0, fl + 2);
            const double plain = std::floor(g.u(170, 300));
            const bool dependent = g.p(0.85);
            ld w;
            if (! dependent || n == 0)
                w = plain;
            else if (flow <= pts[0].first)
                w = pts[0].second;
            else if (flow >= pts[n - 1].first)
                w = pts[n - 1].second;
            else
            {
                int i = 0;
                while (pts[i + 1].first < flow)
                    ++i;
                const ld u = (ld(flow) - pts[i].first) / (ld(pts[i + 1].first) - pts[i].first);
                w = pts[i].second * (1 - u) + pts[i + 1].second * u;
            }
            const double got = graph.getTemp(flow, plain, dependent);
            R.check(std::abs(got - w) < 1e-6, "flow to temperature", fmt("%d points, flow %g: %g, expected %Lg", n, flow, got, w));
            R.stat("graph lookups");
        }
    }
    R.eval(f);
}

int main(int argc, char** argv)
{
    return run_main(argc, argv, one);
}
