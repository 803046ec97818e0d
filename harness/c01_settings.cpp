// Settings: what a value means for every type it can be read as, and which of the inherited values applies.
#include <memory>
#include "Application.h"
#include "ExtruderTrain.h"
#include "Slice.h"
#include "geometry/Shape.h"
#include "hc.hpp"
#include "settings/EnumSettings.h"
#include "settings/FlowTempGraph.h"
#include "settings/Settings.h"
#include "settings/types/Angle.h"
#include "settings/types/Duration.h"
#include "settings/types/LayerIndex.h"
#include "settings/types/Ratio.h"
#include "settings/types/Temperature.h"
#include "settings/types/Velocity.h"
#include "utils/Matrix4x3D.h"

using namespace h;
using namespace cura;

static std::string ws(Rng& g)
{
    return g.p(0.7) ? "" : g.p(0.5) ? " " : "  ";
}
// a decimal as front ends write it, and its value
static std::string decimal(Rng& g, double& v, bool negative = true, double big = 1000)
{
    std::string s;
    switch (g.in(0, 4))
    {
    case 0:
        s = h::fmt("%lld", g.in(0, i64(big)));
        break;
    case 1:
        s = h::fmt("%.1f", g.u(0, big));
        break;
    case 2:
        s = h::fmt("%.6f", g.u(0, big));
        break;
    case 3:
        s = h::fmt("0.%lld", g.in(0, 99999));
        break;
    default:
        s = h::fmt("%.3f", g.u(0, 1));
    }
    if (negative && g.p(0.3))
        s = "-" + s;
    v = strtod(s.c_str(), nullptr);
    return s;
}

template<class E>
static void choices(Run& R, Settings& s, const std::vector<std::pair<const char*, E>>& table, E otherwise, const char* what)
{
    for (auto& [name, value] : table)
    {
        s.add("k", name);
        R.check(s.get<E>("k") == value, std::string("choice ") + what, std::string("'") + name + "' is read as another choice");
        R.stat("choices read");
    }
    s.add("k", "no such choice");
    R.check(s.get<E>("k") == otherwise, std::string("choice ") + what, "an unknown choice is not read as the default");
}

static void values(Run& R, Rng& g, Slice& slice)
{
    Settings s;
    for (int k = 0; k < 12; ++k)
    {
        double v;
        const std::string t = decimal(g, v);
        s.add("k", t);
        auto near = [&](double got, double want, const char* what)
        { R.check(std::abs(got - want) <= 1e-9 * (1 + std::abs(want)), std::string("value ") + what, h::fmt("'%s' is read as %.12g, expected %.12g", t.c_str(), got, want)); };
        near(s.get<double>("k"), v, "number");
        near(s.get<Temperature>("k"), v, "temperature");
        near(s.get<Velocity>("k"), v, "speed");
        near(s.get<Acceleration>("k"), v, "acceleration");
        near(s.get<Ratio>("k"), v / 100, "ratio");
        near(s.get<Duration>("k"), std::max(0.0, v), "duration");
        near(s.get<AngleDegrees>("k").value_, std::fmod(std::fmod(v, 360) + 360, 360), "angle in degrees");
        near(std::remainder(s.get<AngleRadians>("k").value_ - v * M_PI / 180, 2 * M_PI) + 1, 1, "angle in radians");
        const double r = s.get<AngleRadians>("k").value_;
        R.check(r >= 0 && r < 2 * M_PI + 1e-9, "value angle in radians", "not within one turn");
        const coord_t c = s.get<coord_t>("k");
        R.check(std::abs(double(c) - v * 1000) <= 0.5 + 1e-6, "value length", h::fmt("'%s' mm is read as %lld um", t.c_str(), (long long)c));
        R.check(s.get<std::string>("k") == t, "value text", "the text is changed");
        R.check(s.get<int>("k") == int(v), "value integer", h::fmt("'%s' is read as the integer %d", t.c_str(), s.get<int>("k")));
        if (v >= 0)
            R.check(s.get<size_t>("k") == size_t(v), "value count", h::fmt("'%s' is read as the count %zu", t.c_str(), s.get<size_t>("k")));
        R.stat("values read");
    }
    const i64 n = g.in(-3, 500);
    s.add("k", h::fmt("%lld", n));
    R.check(s.get<LayerIndex>("k").value == n - 1, "value layer", "layers are counted from 1 by the user and from 0 inside");
    for (auto& [t, w] : std::vector<std::pair<std::string, bool>>{ { "true", true },
                                                                  { "True", true },
                                                                  { "on", true },
                                                                  { "yes", true },
                                                                  { "1", true },
                                                                  { "7", true },
                                                                  { "-1", true },
                                                                  { "false", false },
                                                                  { "False", false },
                                                                  { "off", false },
                                                                  { "no", false },
                                                                  { "0", false },
                                                                  { "", false },
                                                                  { "nonsense", false } })
    {
        s.add("k", t);
        R.check(s.get<bool>("k") == w, "value switch", "'" + t + "' is read wrongly");
    }
    { // lists
        std::vector<double> want;
        std::string t = "[" + ws(g);
        const int m = int(g.in(0, 8));
        for (int i = 0; i < m; ++i)
        {
            double v;
            t += (i ? ws(g) + "," + ws(g) : "") + decimal(g, v, true, 400);
            want.push_back(v);
        }
        t += ws(g) + "]";
        s.add("k", t);
        R.check(s.get<std::vector<double>>("k") == want, "list of numbers", "'" + t + "' gives other numbers");
        const auto ints = s.get<std::vector<int>>("k");
        bool ok = ints.size() == want.size();
        for (size_t i = 0; ok && i < ints.size(); ++i)
            ok = std::abs(ints[i] - want[i]) <= 0.5;
        R.check(ok, "list of integers", "'" + t + "' gives other integers");
        const auto ratios = s.get<std::vector<Ratio>>("k");
        ok = ratios.size() == want.size();
        for (size_t i = 0; ok && i < ratios.size(); ++i)
            ok = std::abs(double(ratios[i]) - want[i] / 100) < 1e-9;
        R.check(ok, "list of ratios", "'" + t + "' gives other ratios");
        const auto angles = s.get<std::vector<AngleDegrees>>("k");
        ok = angles.size() == want.size();
        for (size_t i = 0; ok && i < angles.size(); ++i)
            ok = std::abs(std::remainder(angles[i].value_ - want[i], 360)) < 1e-9;
        R.check(ok, "list of angles", "'" + t + "' gives other angles");
        s.add("k", "");
        R.check(s.get<std::vector<double>>("k").empty(), "list of numbers", "an empty text gives numbers");
    }
    { // flow graph
        std::string t = "[";
        std::vector<std::pair<double, double>> want;
        const int m = int(g.in(0, 6));
        for (int i = 0; i < m; ++i)
        {
            double a, b;
            t += i ? "," + ws(g) : "";
            const std::string sa = decimal(g, a), sb = decimal(g, b);
            t += "[" + sa + "," + ws(g) + sb + "]";
            want.emplace_back(a, b);
        }
        t += "]";
        s.add("k", t);
        const FlowTempGraph got = s.get<FlowTempGraph>("k");
        bool ok = got.data_.size() == want.size();
        for (size_t i = 0; ok && i < want.size(); ++i)
            ok = std::abs(got.data_[i].flow_ - want[i].first) < 1e-9 && std::abs(double(got.data_[i].temp_) - want[i].second) < 1e-9;
        R.check(ok, "flow graph", "'" + t + "' gives another graph");
    }
    { // areas
        std::string t = "[";
        std::vector<std::vector<std::pair<double, double>>> want;
        const int m = int(g.in(0, 3));
        for (int i = 0; i < m; ++i)
        {
            t += std::string(i ? "," : "") + (i ? ws(g) : "") + "[";
            want.emplace_back();
            const int k = int(g.in(1, 6));
            for (int j = 0; j < k; ++j)
            {
                double a, b;
                const std::string sa = decimal(g, a), sb = decimal(g, b);
                t += (j ? "," + ws(g) : "") + "[" + sa + "," + ws(g) + sb + "]";
                want.back().emplace_back(a, b);
            }
            t += "]";
        }
        t += "]";
        s.add("k", t);
        const Shape got = s.get<Shape>("k");
        bool ok = got.size() == want.size();
        for (size_t i = 0; ok && i < want.size(); ++i)
        {
            ok = got[i].size() == want[i].size();
            for (size_t j = 0; ok && j < want[i].size(); ++j)
                ok = std::abs(double(got[i][j].X) - want[i][j].first * 1000) <= 0.5 + 1e-6 && std::abs(double(got[i][j].Y) - want[i][j].second * 1000) <= 0.5 + 1e-6;
        }
        R.check(ok, "areas", "'" + t + "' gives other areas");
    }
    { // matrices
        double m[3][3];
        std::string t = ws(g) + "[";
        for (int i = 0; i < 3; ++i)
        {
            t += (i ? "," : "") + ws(g) + "[";
            for (int j = 0; j < 3; ++j)
                t += (j ? "," : "") + ws(g) + decimal(g, m[i][j]) + ws(g);
            t += "]" + ws(g);
        }
        t += "]" + ws(g);
        s.add("k", t);
        const Matrix4x3D got = s.get<Matrix4x3D>("k");
        bool ok = true;
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 3; ++j)
                ok = ok && std::abs(got.m[j][i] - m[i][j]) < 1e-9;
        R.check(ok, "matrix", "'" + t + "' gives another matrix");
    }
    for (int k = -1; k < int(slice.scene.extruders.size()); ++k)
    {
        s.add("k", h::fmt("%d", k));
        s.add("extruder_nr", "0");
        R.check(s.get<ExtruderTrain&>("k").extruder_nr_ == size_t(std::max(0, k)), "extruder", "another extruder train than the one named");
        const auto all = s.get<std::vector<ExtruderTrain*>>("k");
        R.check(k < 0 ? all.size() == slice.scene.extruders.size() : all.size() == 1 && all[0]->extruder_nr_ == size_t(k), "extruders", "other extruder trains than the ones named");
    }
    using enum EFillMethod;
    choices<EFillMethod>(
        R,
        s,
        { { "none", NONE },
          { "lines", LINES },
          { "grid", GRID },
          { "cubic", CUBIC },
          { "cubicsubdiv", CUBICSUBDIV },
          { "tetrahedral", TETRAHEDRAL },
          { "quarter_cubic", QUARTER_CUBIC },
          { "triangles", TRIANGLES },
          { "trihexagon", TRIHEXAGON },
          { "concentric", CONCENTRIC },
          { "zigzag", ZIG_ZAG },
          { "cross", CROSS },
          { "cross_3d", CROSS_3D },
          { "gyroid", GYROID },
          { "lightning", LIGHTNING },
          { "honeycomb", HONEYCOMB },
          { "octagon", OCTAGON } },
        NONE,
        "of fill");
    choices<EGCodeFlavor>(
        R,
        s,
        { { "Marlin", EGCodeFlavor::MARLIN },
          { "Griffin", EGCodeFlavor::GRIFFIN },
          { "Cheetah", EGCodeFlavor::CHEETAH },
          { "UltiGCode", EGCodeFlavor::ULTIGCODE },
          { "Makerbot", EGCodeFlavor::MAKERBOT },
          { "BFB", EGCodeFlavor::BFB },
          { "MACH3", EGCodeFlavor::MACH3 },
          { "RepRap (Volumetric)", EGCodeFlavor::MARLIN_VOLUMATRIC },
          { "Repetier", EGCodeFlavor::REPETIER },
          { "RepRap (RepRap)", EGCodeFlavor::REPRAP } },
        EGCodeFlavor::MARLIN,
        "of flavour");
    choices<EPlatformAdhesion>(R, s, { { "skirt", EPlatformAdhesion::SKIRT }, { "brim", EPlatformAdhesion::BRIM }, { "raft", EPlatformAdhesion::RAFT }, { "none", EPlatformAdhesion::NONE } }, EPlatformAdhesion::SKIRT, "of adhesion");
    choices<ESupportType>(R, s, { { "none", ESupportType::NONE }, { "everywhere", ESupportType::EVERYWHERE }, { "buildplate", ESupportType::PLATFORM_ONLY } }, ESupportType::NONE, "of support");
    choices<ESupportStructure>(R, s, { { "normal", ESupportStructure::NORMAL }, { "tree", ESupportStructure::TREE } }, ESupportStructure::NORMAL, "of support structure");
    choices<EZSeamType>(R, s, { { "shortest", EZSeamType::SHORTEST }, { "random", EZSeamType::RANDOM }, { "back", EZSeamType::USER_SPECIFIED }, { "sharpest_corner", EZSeamType::SHARPEST_CORNER } }, EZSeamType::SHORTEST, "of seam");
    choices<EZSeamCornerPrefType>(
        R,
        s,
        { { "z_seam_corner_inner", EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_INNER },
          { "z_seam_corner_outer", EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_OUTER },
          { "z_seam_corner_any", EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_ANY },
          { "z_seam_corner_weighted", EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_WEIGHTED } },
        EZSeamCornerPrefType::Z_SEAM_CORNER_PREF_INNER,
        "of seam corner");
    choices<ESurfaceMode>(R, s, { { "normal", ESurfaceMode::NORMAL }, { "surface", ESurfaceMode::SURFACE }, { "both", ESurfaceMode::BOTH } }, ESurfaceMode::NORMAL, "of surface mode");
    choices<CombingMode>(
        R,
        s,
        { { "all", CombingMode::ALL }, { "off", CombingMode::OFF }, { "noskin", CombingMode::NO_SKIN }, { "no_outer_surfaces", CombingMode::NO_OUTER_SURFACES }, { "infill", CombingMode::INFILL } },
        CombingMode::ALL,
        "of combing");
    choices<SupportDistPriority>(R, s, { { "xy_overrides_z", SupportDistPriority::XY_OVERRIDES_Z }, { "z_overrides_xy", SupportDistPriority::Z_OVERRIDES_XY } }, SupportDistPriority::XY_OVERRIDES_Z, "of support distance");
    choices<SlicingTolerance>(R, s, { { "middle", SlicingTolerance::MIDDLE }, { "inclusive", SlicingTolerance::INCLUSIVE }, { "exclusive", SlicingTolerance::EXCLUSIVE } }, SlicingTolerance::MIDDLE, "of tolerance");
    choices<InsetDirection>(R, s, { { "inside_out", InsetDirection::INSIDE_OUT }, { "outside_in", InsetDirection::OUTSIDE_IN } }, InsetDirection::INSIDE_OUT, "of inset order");
    choices<PrimeTowerMode>(R, s, { { "interleaved", PrimeTowerMode::INTERLEAVED }, { "normal", PrimeTowerMode::NORMAL } }, PrimeTowerMode::NORMAL, "of prime tower");
    choices<BrimLocation>(R, s, { { "everywhere", BrimLocation::EVERYWHERE }, { "inside", BrimLocation::INSIDE }, { "outside", BrimLocation::OUTSIDE } }, BrimLocation::OUTSIDE, "of brim location");
    choices<BuildPlateShape>(R, s, { { "rectangular", BuildPlateShape::RECTANGULAR }, { "elliptic", BuildPlateShape::ELLIPTIC } }, BuildPlateShape::RECTANGULAR, "of plate");
    choices<DraftShieldHeightLimitation>(R, s, { { "full", DraftShieldHeightLimitation::FULL }, { "limited", DraftShieldHeightLimitation::LIMITED } }, DraftShieldHeightLimitation::FULL, "of shield height");
    choices<CoolDuringExtruderSwitch>(
        R,
        s,
        { { "all_fans", CoolDuringExtruderSwitch::ALL_FANS }, { "only_last_extruder", CoolDuringExtruderSwitch::ONLY_LAST_EXTRUDER }, { "unchanged", CoolDuringExtruderSwitch::UNCHANGED } },
        CoolDuringExtruderSwitch::UNCHANGED,
        "of cooling");
    choices<RetractBeforeOuterWall>(
        R,
        s,
        { { "force_retracted", RetractBeforeOuterWall::RETRACTED }, { "force_not_retracted", RetractBeforeOuterWall::NOT_RETRACTED }, { "force_not_retracted_from_infill", RetractBeforeOuterWall::NOT_RETRACTED_FROM_INFILL }, { "automatic", RetractBeforeOuterWall::AUTOMATIC } },
        RetractBeforeOuterWall::AUTOMATIC,
        "of retraction");
    choices<InfillStartEndPreference>(
        R,
        s,
        { { "end_close_to_seam", InfillStartEndPreference::END_CLOSE_TO_SEAM }, { "start_random", InfillStartEndPreference::START_RANDOM }, { "start_closest", InfillStartEndPreference::START_CLOSEST } },
        InfillStartEndPreference::START_CLOSEST,
        "of infill start");
}

static void inheritance(Run& R, Rng& g, Slice& slice, uint64_t& f)
{
    // scene -> extruders; scene -> groups -> meshes; meshes may also stand below an extruder
    struct Node
    {
        Settings* s;
        int parent;
        int extruder;
        std::map<std::string, std::string> own;
    };
    std::vector<Node> nodes;
    std::vector<std::unique_ptr<Settings>> keep;
    nodes.push_back({ &slice.scene.settings, -1, -1, {} });
    for (size_t e = 0; e < slice.scene.extruders.size(); ++e)
        nodes.push_back({ &slice.scene.extruders[e].settings_, 0, int(e), {} });
    const int ne = int(slice.scene.extruders.size());
    const int groups = int(g.in(1, 2));
    for (int i = 0; i < groups; ++i)
    {
        keep.push_back(std::make_unique<Settings>());
        keep.back()->setParent(&slice.scene.settings);
        nodes.push_back({ keep.back().get(), 0, -1, {} });
    }
    for (int i = 0; i < 3; ++i)
    {
        const int par = int(g.in(1, ne + groups));
        keep.push_back(std::make_unique<Settings>());
        keep.back()->setParent(nodes[par].s);
        nodes.push_back({ keep.back().get(), par, -1, {} });
    }
    const int nk = int(g.in(1, 8));
    std::vector<std::string> keys;
    for (int i = 0; i < nk; ++i)
        keys.push_back(h::fmt("key_%d", i));
    std::map<std::string, int> limit;
    int serial = 0;
    auto set = [&](Node& n, const std::string& k)
    {
        const std::string v = h::fmt("v%d", ++serial);
        n.s->add(k, v);
        n.own[k] = v;
    };
    for (auto& k : keys)
    {
        set(nodes[0], k);
        if (g.p(0.4))
        {
            limit[k] = int(g.in(0, ne - 1));
            slice.scene.limit_to_extruder[k] = &slice.scene.extruders[limit[k]];
        }
    }
    for (int step = 0; step < 40; ++step)
    {
        Node& n = nodes[g.next() % nodes.size()];
        const std::string& k = g.pick(keys);
        if (g.p(0.6))
            set(n, k);
        else if (&n != &nodes[0])
        {
            n.s->remove(k);
            n.own.erase(k);
        }
        for (int q = 0; q < 4; ++q)
        {
            const Node& a = nodes[g.next() % nodes.size()];
            const std::string& key = g.pick(keys);
            // the nearest value, except that a value limited to an extruder comes from there unless it is set right here
            const Node* at = &a;
            bool limited = false;
            while (! at->own.count(key))
            {
                if (! limited && limit.count(key))
                {
                    limited = true;
                    at = &nodes[1 + limit[key]];
                    continue;
                }
                at = &nodes[at->parent];
            }
            const std::string want = at->own.at(key);
            const std::string got = a.s->get<std::string>(key);
            R.check(got == want, "inheritance", h::fmt("%s read from node %d gives %s, expected %s", key.c_str(), int(&a - nodes.data()), got.c_str(), want.c_str()));
            R.check(a.s->has(key) == (a.own.count(key) > 0), "has", "has() without looking at parents does not tell whether the value is set here");
            R.check(a.s->has(key, true), "has", "has() with parents does not find a value that can be read");
            R.stat("inherited values read");
        }
    }
    R.check(! nodes.back().s->has("unknown") && ! nodes.back().s->has("unknown", true), "has", "finds what is not there");
    const Node& a = nodes[g.next() % nodes.size()];
    const auto all = a.s->getFlattendSettings();
    for (auto& k : keys)
        R.check(all.count(k) && all.at(k) == a.s->get<std::string>(k), "flattened", "the flattened settings differ from the settings");
    const std::string text = a.s->getAllSettingsString();
    for (auto& [k, v] : a.own)
        R.check(text.find(" -s " + k + "=\"" + v + "\"") != std::string::npos, "settings as text", "a setting is missing from the text");
    f = mix(f, serial * 64 + nk);
}

static void one(Run& R, Rng& g)
{
    auto& app = Application::getInstance();
    app.current_slice_ = std::make_shared<Slice>(1);
    const int ne = int(g.in(1, 4));
    for (int e = 0; e < ne; ++e)
        app.current_slice_->scene.extruders.emplace_back(e, &app.current_slice_->scene.settings);
    uint64_t f = g.next();
    values(R, g, *app.current_slice_);
    inheritance(R, g, *app.current_slice_, f);
    R.eval(f);
}

int main(int argc, char** argv)
{
    return run_main(argc, argv, one);
}
