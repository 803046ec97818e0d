// What each kind of line is printed with (width, thickness, flow, speed, acceleration, jerk, fan), against the settings it is configured by.
#include "Application.h"
#include "ExtruderTrain.h"
#include "GCodePathConfig.h"
#include "MeshGroup.h"
#include "Scene.h"
#include "Slice.h"
#include "h.hpp"
#include "mesh.h"
#include "settings/PathConfigStorage.h"
#include "sliceDataStorage.h"

using namespace h;
using namespace cura;
using Values = std::map<std::string, double>;

struct Kind
{
    const char *name, *width, *flow, *flow0, *speed, *acc, *jerk;
    const char* factor; // whose extruder decides on the line width factor of the first layer; none if the width is not scaled
    bool smooth;
    PrintFeatureType type;
    const char* fan = nullptr;
    const char* delta = nullptr;
};
static const std::vector<Kind> mesh_kinds = {
    { "outer wall", "wall_line_width_0", "wall_0_material_flow", "wall_0_material_flow_layer_0", "speed_wall_0", "acceleration_wall_0", "jerk_wall_0", "wall_0_extruder_nr", true, PrintFeatureType::OuterWall },
    { "inner wall", "wall_line_width_x", "wall_x_material_flow", "wall_x_material_flow_layer_0", "speed_wall_x", "acceleration_wall_x", "jerk_wall_x", "wall_x_extruder_nr", true, PrintFeatureType::InnerWall },
    { "outer wall of a roof", "wall_line_width_0", "wall_0_material_flow_roofing", "wall_0_material_flow_layer_0", "speed_wall_0_roofing", "acceleration_wall_0_roofing", "jerk_wall_0_roofing", "wall_0_extruder_nr", true, PrintFeatureType::OuterWall },
    { "inner wall of a roof", "wall_line_width_x", "wall_x_material_flow_roofing", "wall_x_material_flow_layer_0", "speed_wall_x_roofing", "acceleration_wall_x_roofing", "jerk_wall_x_roofing", "wall_x_extruder_nr", true, PrintFeatureType::InnerWall },
    { "outer wall of a floor", "wall_line_width_0", "wall_0_material_flow_flooring", "wall_0_material_flow_layer_0", "speed_wall_0_flooring", "acceleration_wall_0_flooring", "jerk_wall_0_flooring", "wall_0_extruder_nr", true, PrintFeatureType::OuterWall },
    { "inner wall of a floor", "wall_line_width_x", "wall_x_material_flow_flooring", "wall_x_material_flow_layer_0", "speed_wall_x_flooring", "acceleration_wall_x_flooring", "jerk_wall_x_flooring", "wall_x_extruder_nr", true, PrintFeatureType::InnerWall },
    { "outer wall of a bridge", "wall_line_width_0", "bridge_wall_material_flow", nullptr, "bridge_wall_speed", "acceleration_wall_0", "jerk_wall_0", "wall_0_extruder_nr", false, PrintFeatureType::OuterWall, "bridge_fan_speed" },
    { "inner wall of a bridge", "wall_line_width_x", "bridge_wall_material_flow", nullptr, "bridge_wall_speed", "acceleration_wall_x", "jerk_wall_x", "wall_x_extruder_nr", false, PrintFeatureType::InnerWall, "bridge_fan_speed" },
    { "skin", "skin_line_width", "skin_material_flow", "skin_material_flow_layer_0", "speed_topbottom", "acceleration_topbottom", "jerk_topbottom", "top_bottom_extruder_nr", true, PrintFeatureType::Skin },
    { "skin of a bridge", "skin_line_width", "bridge_skin_material_flow", nullptr, "bridge_skin_speed", "acceleration_topbottom", "jerk_topbottom", "top_bottom_extruder_nr", false, PrintFeatureType::Skin, "bridge_fan_speed" },
    { "second skin of a bridge", "skin_line_width", "bridge_skin_material_flow_2", nullptr, "bridge_skin_speed_2", "acceleration_topbottom", "jerk_topbottom", "top_bottom_extruder_nr", false, PrintFeatureType::Skin, "bridge_fan_speed_2" },
    { "third skin of a bridge", "skin_line_width", "bridge_skin_material_flow_3", nullptr, "bridge_skin_speed_3", "acceleration_topbottom", "jerk_topbottom", "top_bottom_extruder_nr", false, PrintFeatureType::Skin, "bridge_fan_speed_3" },
    { "roof", "roofing_line_width", "roofing_material_flow", "material_flow_layer_0", "speed_roofing", "acceleration_roofing", "jerk_roofing", nullptr, true, PrintFeatureType::Skin, nullptr, "material_delta_temperature_roofing" },
    { "floor", "flooring_line_width", "flooring_material_flow", "material_flow_layer_0", "speed_flooring", "acceleration_flooring", "jerk_flooring", nullptr, true, PrintFeatureType::Skin },
    { "ironing", "ironing_line_spacing", "ironing_flow", nullptr, "speed_ironing", "acceleration_ironing", "jerk_ironing", nullptr, true, PrintFeatureType::Skin },
    { "support of skin", "infill_line_width", "skin_support_material_flow", nullptr, "skin_support_speed", "acceleration_infill", "jerk_infill", nullptr, false, PrintFeatureType::Infill },
    { "infill", "infill_line_width", "infill_material_flow", "material_flow_layer_0", "speed_infill", "acceleration_infill", "jerk_infill", "infill_extruder_nr", true, PrintFeatureType::Infill },
};
static const char* raft_keys[3][5] = {
    { "raft_base_line_width", "raft_base_flow", "raft_base_speed", "raft_base_acceleration", "raft_base_jerk" },
    { "raft_interface_line_width", "raft_interface_flow", "raft_interface_speed", "raft_interface_acceleration", "raft_interface_jerk" },
    { "raft_surface_line_width", "raft_surface_flow", "raft_surface_speed", "raft_surface_acceleration", "raft_surface_jerk" },
};
static const char* raft_thickness[3] = { "raft_base_thickness", "raft_interface_thickness", "raft_surface_thickness" };
static const char* raft_extruder[3] = { "raft_base_extruder_nr", "raft_interface_extruder_nr", "raft_surface_extruder_nr" };
static const char* other_keys[] = {
    "support_roof_line_width", "support_roof_material_flow", "speed_support_roof", "acceleration_support_roof", "jerk_support_roof", "support_bottom_line_width", "support_bottom_material_flow",
    "speed_support_bottom", "acceleration_support_bottom", "jerk_support_bottom", "support_line_width", "support_material_flow", "speed_support_infill", "acceleration_support_infill",
    "jerk_support_infill", "speed_travel", "acceleration_travel", "jerk_travel", "skirt_brim_line_width", "skirt_brim_material_flow", "skirt_brim_speed", "acceleration_skirt_brim",
    "jerk_skirt_brim", "prime_tower_line_width", "prime_tower_flow", "speed_prime_tower", "acceleration_prime_tower", "jerk_prime_tower", "material_flow_layer_0", "speed_print_layer_0",
    "acceleration_print_layer_0", "jerk_print_layer_0", "speed_travel_layer_0", "acceleration_travel_layer_0", "jerk_travel_layer_0", "initial_layer_line_width_factor",
};

static bool near(double a, double b)
{
    return std::abs(a - b) <= 1e-9 * (1 + std::abs(b));
}

static void one(Run& R, Rng& g)
{
    auto& app = Application::getInstance();
    app.current_slice_ = std::make_shared<Slice>(1);
    auto& scene = app.current_slice_->scene;
    const int ne = int(g.in(1, 4));
    scene.extruders.reserve(size_t(ne));
    std::vector<std::string> keys(std::begin(other_keys), std::end(other_keys));
    for (auto& k : mesh_kinds)
        for (const char* s : { k.width, k.flow, k.flow0, k.speed, k.acc, k.jerk, k.fan, k.delta })
            if (s)
                keys.push_back(s);
    for (int i = 0; i < 3; ++i)
    {
        keys.insert(keys.end(), std::begin(raft_keys[i]), std::end(raft_keys[i]));
        keys.push_back(raft_thickness[i]);
    }
    std::sort(keys.begin(), keys.end());
    keys.erase(std::unique(keys.begin(), keys.end()), keys.end());
    const auto value = [&](const std::string& k) -> double
    {
        const auto has = [&](const char* s) { return k.find(s) != std::string::npos; };
        if (has("width_factor"))
            return double(g.in(50, 200));
        if (has("line_width") || has("spacing") || has("thickness"))
            return double(g.in(50, 1500)) / 1000;
        if (has("flow") || has("fan_speed"))
            return double(g.in(0, 200));
        if (has("acceleration"))
            return double(g.in(100, 9000));
        return g.p(0.3) ? double(g.in(1, 300)) : double(g.in(10, 3000)) / 10;
    };
    std::vector<Values> E(static_cast<size_t>(ne));
    for (int e = 0; e < ne; ++e)
    {
        scene.extruders.emplace_back(size_t(e), &scene.settings);
        auto& s = scene.extruders.back().settings_;
        s.add("extruder_nr", std::to_string(e));
        for (auto& k : keys)
        {
            const double v = E[size_t(e)][k] = value(k);
            s.add(k, h::fmt("%.10g", v));
        }
    }
    auto& group = scene.mesh_groups[0];
    scene.current_mesh_group = scene.mesh_groups.begin();
    group.settings.setParent(&scene.settings);
    const auto pick = [&](Settings& s, const char* k)
    {
        const int e = int(g.in(0, ne - 1));
        s.add(k, std::to_string(e));
        return e;
    };
    const bool raft = g.p(0.3);
    group.settings.add("adhesion_type", raft ? "raft" : g.pick(std::vector<std::string>{ "skirt", "brim", "none" }));
    const int slow = int(g.in(0, 8));
    group.settings.add("speed_slowdown_layers", std::to_string(slow));
    const i64 layer_height = g.in(20, 600), top_distance = g.in(0, 900);
    group.settings.add("layer_height", h::fmt("%.3f", double(layer_height) / 1000));
    group.settings.add("support_top_distance", h::fmt("%.3f", double(top_distance) / 1000));
    for (const char* k : { "machine_width", "machine_depth", "machine_height" })
        group.settings.add(k, "200");
    group.settings.add("machine_center_is_zero", "false");
    const int e_infill = pick(group.settings, "support_infill_extruder_nr"), e_roof = pick(group.settings, "support_roof_extruder_nr"), e_bottom = pick(group.settings, "support_bottom_extruder_nr"),
              e_first = pick(group.settings, "support_extruder_nr_layer_0");
    int e_raft[3];
    for (int i = 0; i < 3; ++i)
        e_raft[i] = pick(group.settings, raft_extruder[i]);

    const int nm = int(g.in(0, 3));
    std::vector<Mesh> meshes;
    meshes.reserve(size_t(nm));
    std::vector<Values> M(static_cast<size_t>(nm));
    std::vector<std::map<std::string, int>> Me(static_cast<size_t>(nm));
    SliceDataStorage storage;
    std::vector<bool> cool(static_cast<size_t>(nm));
    for (int m = 0; m < nm; ++m)
    {
        const int e = int(g.in(0, ne - 1));
        meshes.emplace_back(scene.extruders[size_t(e)].settings_);
        auto& s = meshes.back().settings_;
        for (auto& k : keys)
        {
            M[size_t(m)][k] = E[size_t(e)][k];
            if (g.p(0.5))
            {
                const double v = M[size_t(m)][k] = value(k);
                s.add(k, h::fmt("%.10g", v));
            }
        }
        for (const char* k : { "wall_0_extruder_nr", "wall_x_extruder_nr", "top_bottom_extruder_nr", "infill_extruder_nr" })
            if (g.p(0.4))
            {
                s.add(k, "-1");
                Me[size_t(m)][k] = e;
            }
            else
                Me[size_t(m)][k] = pick(s, k);
        for (const char* k : { "infill_mesh", "cutting_mesh", "anti_overhang_mesh", "support_mesh" })
            s.add(k, "false");
        cool[size_t(m)] = g.p(0.7);
        s.add("cool_fan_enabled", cool[size_t(m)] ? "true" : "false");
        storage.meshes.push_back(std::make_shared<SliceMeshStorage>(&meshes.back(), 0));
    }

    for (int round = 0; round < 6; ++round)
    {
        const int layer = round == 0 ? 0 : g.p(0.2) ? -int(g.in(1, 9)) : g.p(0.7) ? int(g.in(0, 9)) : int(g.in(10, 3000));
        const i64 thickness = g.in(20, 900);
        const PathConfigStorage P(storage, LayerIndex(layer), thickness);
        const std::string at = h::fmt(" on layer %d, %d layers of slow start%s", layer, slow, raft ? ", raft" : "");
        const bool first = layer == 0, factored = layer <= 0;
        const bool slowed = layer >= 0 && layer < slow;
        const auto ramp = [&](double v, double v0) { return ! slowed ? v : v * layer / slow + std::min(v, v0) * (slow - layer) / slow; };
        const auto judge = [&](const GCodePathConfig& c, const std::string& name, double width_mm, double factor, i64 thick, double flow_percent, double flow0_percent, double v, double a, double j, const Values* start, const char* s0, const char* a0, const char* j0, PrintFeatureType type, double fan, double delta)
        {
            const double w = width_mm * 1000 * factor;
            R.check(std::abs(double(c.getLineWidth()) - w) <= 1.001, "width of " + name, h::fmt("%lld um, expected %.3f", (long long)c.getLineWidth(), w) + at);
            R.check(c.getLayerThickness() == thick, "thickness of " + name, h::fmt("%lld um, expected %lld", (long long)c.getLayerThickness(), (long long)thick) + at);
            const double flow = flow_percent / 100 * flow0_percent / 100;
            R.check(near(double(c.getFlowRatio()), flow), "flow of " + name, h::fmt("%.10g, expected %.10g", double(c.getFlowRatio()), flow) + at);
            const double mm3 = double(c.getLineWidth()) / 1000 * double(thick) / 1000 * flow;
            R.check(near(c.getExtrusionMM3perMM(), mm3), "volume of " + name, h::fmt("%.10g mm3/mm, expected %.10g", c.getExtrusionMM3perMM(), mm3) + at);
            const double wv = start ? ramp(v, start->at(s0)) : v, wa = start ? ramp(a, start->at(a0)) : a, wj = start ? ramp(j, start->at(j0)) : j;
            R.check(near(double(c.getSpeed()), wv), "speed of " + name, h::fmt("%.10g mm/s, expected %.10g", double(c.getSpeed()), wv) + at);
            R.check(near(double(c.getAcceleration()), wa), "acceleration of " + name, h::fmt("%.10g, expected %.10g", double(c.getAcceleration()), wa) + at);
            R.check(near(double(c.getJerk()), wj), "jerk of " + name, h::fmt("%.10g, expected %.10g", double(c.getJerk()), wj) + at);
            R.check(c.getPrintFeatureType() == type, "kind of " + name, h::fmt("feature type %d, expected %d", int(c.getPrintFeatureType()), int(type)));
            R.check(near(c.getFanSpeed(), fan), "fan speed of " + name, h::fmt("%g, expected %g", c.getFanSpeed(), fan) + at);
            R.check(near(double(c.getTemperatureDelta()), delta), "temperature change of " + name, h::fmt("%g, expected %g", double(c.getTemperatureDelta()), delta));
            R.check(c.isTravelPath() == (c.getLineWidth() == 0), "travel of " + name, "is it a travel move?");
            R.stat("configurations compared");
        };
        const auto wf = [&](int e) { return factored ? E[size_t(e)]["initial_layer_line_width_factor"] / 100 : 1.0; };
        const auto wfr = [&](int e) { return raft ? 1.0 : wf(e); };
        const char *S0 = "speed_print_layer_0", *A0 = "acceleration_print_layer_0", *J0 = "jerk_print_layer_0";
        for (int i = 0; i < 3; ++i)
        {
            Values& T = E[size_t(e_raft[i])];
            const char** k = raft_keys[i];
            judge(
                i == 0 ? P.raft_base_config : i == 1 ? P.raft_interface_config : P.raft_surface_config,
                i == 0 ? "raft base" : i == 1 ? "raft interface" : "raft surface",
                T[k[0]], 1, i64(std::llround(T[raft_thickness[i]] * 1000)), T[k[1]], 100, T[k[2]], T[k[3]], T[k[4]], nullptr, "", "", "", i == 1 ? PrintFeatureType::Support : PrintFeatureType::SupportInterface, -1, 0);
        }
        const auto flow0 = [&](int e) { return first ? E[size_t(e)]["material_flow_layer_0"] : 100.0; };
        Values &TR = E[size_t(e_roof)], &TB = E[size_t(e_bottom)], &TI = E[size_t(e_infill)];
        const auto with_z = [&](const GCodePathConfig& c, const GCodePathConfig& base, const char* name)
        {
            GCodePathConfig d = c;
            R.check(d.z_offset == -(top_distance % layer_height), std::string("height of ") + name, h::fmt("%lld um above, expected %lld", (long long)d.z_offset, (long long)-(top_distance % layer_height)));
            d.z_offset = base.z_offset;
            R.check(base.z_offset == 0 && d == base, std::string("settings of ") + name, "differ from those of the full layer");
        };
        judge(P.support_roof_config, "support roof", TR["support_roof_line_width"], wf(e_roof), thickness, TR["support_roof_material_flow"], flow0(e_roof), TR["speed_support_roof"], TR["acceleration_support_roof"], TR["jerk_support_roof"], &TR, S0, A0, J0, PrintFeatureType::SupportInterface, -1, 0);
        judge(P.support_bottom_config, "support bottom", TB["support_bottom_line_width"], wf(e_bottom), thickness, TB["support_bottom_material_flow"], flow0(e_bottom), TB["speed_support_bottom"], TB["acceleration_support_bottom"], TB["jerk_support_bottom"], &TB, S0, A0, J0, PrintFeatureType::SupportInterface, -1, 0);
        with_z(P.support_fractional_roof_config, P.support_roof_config, "fractional support roof");
        if (R.check(P.support_infill_config.size() == MAX_INFILL_COMBINE && P.support_fractional_infill_config.size() == MAX_INFILL_COMBINE, "combined layers", "not one configuration for each number of layers"))
            for (int n = 1; n <= MAX_INFILL_COMBINE; ++n)
            {
                judge(P.support_infill_config[size_t(n - 1)], "support", TI["support_line_width"], wfr(e_infill), thickness, TI["support_material_flow"] * n, flow0(e_infill), TI["speed_support_infill"], TI["acceleration_support_infill"], TI["jerk_support_infill"], &E[size_t(layer <= 0 ? e_first : e_infill)], S0, A0, J0, PrintFeatureType::Support, -1, 0);
                with_z(P.support_fractional_infill_config[size_t(n - 1)], P.support_infill_config[size_t(n - 1)], "fractional support");
            }
        if (R.check(int(P.travel_config_per_extruder.size()) == ne && int(P.skirt_brim_config_per_extruder.size()) == ne && int(P.prime_tower_config_per_extruder.size()) == ne, "per extruder", "not one configuration per extruder"))
            for (int e = 0; e < ne; ++e)
            {
                Values& T = E[size_t(e)];
                judge(P.travel_config_per_extruder[size_t(e)], "travel", 0, 1, 0, 0, 100, T["speed_travel"], T["acceleration_travel"], T["jerk_travel"], &T, "speed_travel_layer_0", "acceleration_travel_layer_0", "jerk_travel_layer_0", PrintFeatureType::MoveUnretracted, -1, 0);
                judge(P.skirt_brim_config_per_extruder[size_t(e)], "skirt and brim", T["skirt_brim_line_width"], wfr(e), thickness, T["skirt_brim_material_flow"], flow0(e), T["skirt_brim_speed"], T["acceleration_skirt_brim"], T["jerk_skirt_brim"], nullptr, "", "", "", PrintFeatureType::SkirtBrim, -1, 0);
                judge(P.prime_tower_config_per_extruder[size_t(e)], "prime tower", T["prime_tower_line_width"], wfr(e), thickness, T["prime_tower_flow"], flow0(e), T["speed_prime_tower"], T["acceleration_prime_tower"], T["jerk_prime_tower"], &T, S0, A0, J0, PrintFeatureType::PrimeTower, -1, 0);
            }
        if (R.check(int(P.mesh_configs.size()) == nm, "per mesh", "not one configuration per mesh"))
            for (int m = 0; m < nm; ++m)
            {
                Values& T = M[size_t(m)];
                const MeshPathConfigs& C = P.mesh_configs[size_t(m)];
                const std::vector<const GCodePathConfig*> all = { &C.inset0_config, &C.insetX_config, &C.inset0_roofing_config, &C.insetX_roofing_config, &C.inset0_flooring_config, &C.insetX_flooring_config, &C.bridge_inset0_config, &C.bridge_insetX_config, &C.skin_config, &C.bridge_skin_config, &C.bridge_skin_config2, &C.bridge_skin_config3, &C.roofing_config, &C.flooring_config, &C.ironing_config, &C.skin_support_config };
                const auto mesh_judge = [&](const Kind& k, const GCodePathConfig& c, int n)
                {
                    judge(c, k.name, T[k.width], k.factor ? wf(Me[size_t(m)][k.factor]) : 1, thickness, T[k.flow] * n, first && k.flow0 ? T[k.flow0] : 100, T[k.speed], T[k.acc], T[k.jerk], k.smooth ? &T : nullptr, S0, A0, J0, k.type, k.fan && cool[size_t(m)] ? T[k.fan] : -1, k.delta ? T[k.delta] : 0);
                    R.check(c.isBridgePath() == (std::string(k.name).find("bridge") != std::string::npos), "bridge", std::string(k.name) + ": is it a bridge?");
                };
                for (size_t i = 0; i < all.size(); ++i)
                    mesh_judge(mesh_kinds[i], *all[i], 1);
                if (R.check(C.infill_config.size() == MAX_INFILL_COMBINE, "combined layers", "not one configuration for each number of layers of infill"))
                    for (int n = 1; n <= MAX_INFILL_COMBINE; ++n)
                        mesh_judge(mesh_kinds.back(), C.infill_config[size_t(n - 1)], n);
            }
        R.eval(mix(g.next(), uint64_t(layer)), true);
    }
}

int main(int argc, char** argv)
{
    return run_main(argc, argv, one);
}
