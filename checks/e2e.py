"""Shared by the end-to-end checks: random jobs (models and settings), and running them in parallel under a monitor."""
import json
import multiprocessing
import os
import random
import sys
import traceback

import gcode
import models
import slicing
import vf

CX = CY = 100.0  # the engine puts the origin of the models in the middle of the 200 x 200 plate


class Rep:
    """What one case observed; merged into the check's context."""

    def __init__(self):
        self.viol, self.stats, self.maxs, self.fps, self.samples, self.inc, self.n = [], {}, {}, set(), [], [], 0

    def violation(self, key, msg):
        self.viol.append((key, msg))

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def smax(self, k, v):
        self.maxs[k] = max(self.maxs.get(k, v), v)

    def eval(self, fp=None):
        self.n += 1
        if fp is not None:
            self.fps.add(hash(fp) & 0xFFFFFFFFFFFF)

    def sample(self, o):
        if len(self.samples) < 1:
            self.samples.append(o)


_FN = None
_CTX = None


def _one(i):
    rep = Rep()
    try:
        _FN(_CTX, i, rep)
    except Exception:
        rep.inc.append("case %d: internal: %s" % (i, traceback.format_exc()[-900:]))
        rep.internal = True
    return i, rep


def run_cases(ctx, n, fn, name, workers=None):
    """fn(ctx, i, rep) for each case, in forked processes."""
    global _FN, _CTX
    _FN, _CTX = fn, ctx
    if ctx.only_harness not in (None, name):
        return
    cases = [ctx.only] if ctx.only is not None else range(n)
    with multiprocessing.get_context("fork").Pool(workers or vf.CORES) as pool:
        n0 = ctx.evaluations
        for i, rep in pool.imap_unordered(_one, cases, chunksize=max(1, min(8, n // 64))):
            for k, m in rep.viol:
                ctx.violation(k, "case %d: %s" % (i, m), {"harness": name, "case": i})
            for k, v in rep.stats.items():
                ctx.stat(k, v)
            for k, v in rep.maxs.items():
                ctx.stat_max("max " + k, v)
            ctx.evaluations += rep.n
            ctx.nontrivial |= rep.fps
            for s in rep.samples:
                ctx.sample(s)
            ctx.inconclusive += rep.inc
            if getattr(rep, "internal", False):
                ctx.stat("internal errors of the monitor")
        ctx.stat("evaluations of " + name, ctx.evaluations - n0)
    internal = ctx.stats.get("internal errors of the monitor", 0)
    if internal:
        print("\n".join([x for x in ctx.inconclusive if "internal" in x][:3]))
        raise vf.Inconclusive("the monitor itself failed on %d cases" % internal)


def slice_job(rep, exe, job, timeout=100, crash=True, volumetric=False, parse=True):
    """Slices; reports a crash, a hang, or a missing result; -> parsed g-code, with .text and .job; or None."""
    r = slicing.slice_(exe, job, timeout)
    if r.proc.timed_out:
        r = slicing.slice_(exe, job, timeout * 2)
    p = r.proc
    if p.timed_out:
        rep.violation("hang", "slicing did not finish within %d s (twice): %s" % (timeout, describe(job)))
        return None
    if p.rc != 0 or vf.is_crash(p):
        if crash:
            rep.violation("crash:" + vf.crash_key(p), "exit code %d: %s\n%s" % (p.rc, describe(job), vf.report_excerpt(p)))
        return None
    if not r.gcode:
        rep.violation("no g-code", "the slicer succeeded and wrote nothing: %s" % describe(job))
        return None
    if not parse:
        return r.gcode
    g = gcode.parse(r.gcode)
    g.text, g.job = r.gcode, job
    return g


def describe(job):
    def m(x):
        return x.describe() if hasattr(x, "describe") else "%d triangles" % len(x)

    groups = job.groups or [job.meshes]
    return json.dumps({"settings": job.settings, "extruders": job.extruders, "groups": [[(m(a), b, c) for a, b, c in g] for g in groups]}, default=str)[:1400]


# ---- settings --------------------------------------------------------------------------------------------------------

PATTERNS = ["lines", "grid", "cubic", "cubicsubdiv", "tetrahedral", "quarter_cubic", "triangles", "trihexagon", "concentric", "zigzag", "gyroid", "lightning", "honeycomb", "octagon", "cross", "cross_3d"]
SKINS = ["lines", "concentric", "zigzag"]
SUPPORTS = ["lines", "grid", "triangles", "concentric", "zigzag", "gyroid", "cross"]


def fmt(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, float):
        return ("%.6f" % v).rstrip("0").rstrip(".")
    return str(v)


def mul_spacing(pattern, line_width, density):
    """infill_line_distance as the front end computes it from a density in per cent."""
    if density <= 0:
        return 0.0
    k = {"grid": 2, "tetrahedral": 2, "quarter_cubic": 2, "triangles": 3, "trihexagon": 3, "cubic": 3, "cubicsubdiv": 3, "cross": 1, "cross_3d": 1, "lightning": 1}.get(pattern, 1)
    return line_width * 100 / density * k


def widths(w):
    keys = ("line_width wall_line_width_0 wall_line_width_x infill_line_width skin_line_width skirt_brim_line_width support_line_width support_roof_line_width "
            "support_bottom_line_width roofing_line_width flooring_line_width prime_tower_line_width").split()
    s = {k: fmt(w) for k in keys}
    for k in "min_bead_width min_even_wall_line_width min_odd_wall_line_width min_wall_line_width".split():
        s[k] = fmt(w * 0.85)
    s["min_feature_size"] = fmt(w * 0.25)
    s["wall_transition_length"] = fmt(w)
    s["wall_transition_filter_deviation"] = fmt(w * 0.25)
    return s


def base(rng=None):
    return {}


def infill(rng, s, patterns=None, densities=(0, 10, 20, 40, 100)):
    p = rng.choice(patterns or PATTERNS)
    d = rng.choice(densities)
    w = float(s.get("infill_line_width", slicing.DEFAULTS["infill_line_width"]))
    s["infill_pattern"] = p
    s["infill_line_distance"] = fmt(mul_spacing(p, w, d))
    if p in ("cross", "cross_3d"):
        s["cross_infill_pocket_size"] = fmt(mul_spacing(p, w, d) or 4)
    s["infill"] = "0"
    return s


def anything(rng, multi=False):
    """A configuration drawn from a wide part of the settings space; consistent in the way the front end keeps settings consistent."""
    s = base(rng)
    P = rng.random
    if P() < 0.5:
        s.update(widths(rng.choice([0.2, 0.3, 0.35, 0.4, 0.6, 0.8])))
    lh = rng.choice([0.05, 0.1, 0.15, 0.2, 0.3])
    if P() < 0.6:
        s["layer_height"] = fmt(lh)
        s["layer_height_0"] = fmt(rng.choice([lh, 0.2, 0.27, 0.3]))
    infill(rng, s)
    s["wall_line_count"] = rng.choice([0, 1, 2, 2, 3, 5])
    s["top_layers"] = rng.choice([0, 1, 3, 1000])
    s["bottom_layers"] = rng.choice([0, 1, 3])
    s["initial_bottom_layers"] = s["bottom_layers"]

    def maybe(p, **k):
        if P() < p:
            for a, b in k.items():
                s[a] = fmt(rng.choice(b) if isinstance(b, (list, tuple)) else b)

    maybe(0.5, top_bottom_pattern=SKINS, top_bottom_pattern_0=SKINS)
    maybe(0.3, adhesion_type=["skirt", "brim", "raft"], skirt_line_count=[1, 2, 5], skirt_brim_minimal_length=[0, 50, 250], brim_line_count=[1, 3, 12], brim_location=["outside", "inside", "everywhere"], brim_gap=[0, 0.2, 1])
    if s.get("adhesion_type") == "raft":
        maybe(0.5, raft_surface_layers=[0, 1, 2, 3], raft_interface_layers=[0, 1, 2], raft_base_wall_count=[0, 1, 3], raft_surface_wall_count=[0, 1, 2], raft_interface_wall_count=[0, 1])
    maybe(0.3, support_enable=True, support_type=["buildplate", "everywhere"], support_structure=["normal", "normal", "tree"], support_angle=[30, 50, 75], support_pattern=SUPPORTS, support_line_distance=[0, 1, 2, 4])
    if s.get("support_enable") == "true":
        maybe(0.4, support_roof_enable=True, support_bottom_enable=[True, False], support_interface_priority=["interface_area_overwrite_support_area", "support_area_overwrite_interface_area", "nothing", "interface_lines_overwrite_support_area", "support_lines_overwrite_interface_area"])
        maybe(0.3, support_wall_count=[0, 1, 2])
        maybe(0.3, support_bottom_stair_step_height=[0.3, 1], support_xy_overrides_z=["z_overrides_xy", "xy_overrides_z"], support_use_towers=[True, False], support_conical_enabled=[True, False], zig_zaggify_support=[True, False], support_connect_zigzags=[True, False])
        maybe(0.2, support_infill_sparse_thickness=[0.2, 0.4, 0.8], gradual_support_infill_steps=[0, 1, 2], support_brim_enable=True, minimum_support_area=[0, 2], support_z_seam_away_from_model=[True, False], travel_avoid_supports=[True, False])
        maybe(0.2, support_mesh_drop_down=[True, False], support_supported_skin_fan_speed=[0, 100], support_fan_enable=[True, False])
    maybe(0.2, inset_direction=["inside_out", "outside_in"], optimize_wall_printing_order=[True, False], group_outer_walls=[True, False], alternate_extra_perimeter=[True, False])
    maybe(0.2, infill_before_walls=[True, False], fill_outline_gaps=[True, False], material_alternate_walls=[True, False], infill_wall_line_count=[0, 1, 2], infill_multiplier=[1, 2, 3])
    maybe(0.2, zig_zaggify_infill=True, connect_infill_polygons=[True, False], infill_enable_travel_optimization=[True, False], infill_offset_x=[0, 1.3], infill_angles=["[ ]", "[0]", "[45,135]", "[10,20,30]"])
    maybe(0.2, gradual_infill_steps=[1, 2, 4], gradual_infill_step_height=[0.4, 1.5], min_infill_area=[0, 5], infill_sparse_thickness=[0.2, 0.4])
    maybe(0.2, infill_support_enabled=[True, False], infill_support_angle=[0, 40, 60], sub_div_rad_add=[0, 0.4, 2])
    maybe(0.2, skin_outline_count=[0, 1, 2], skin_angles=["[ ]", "[0,90]", "[30]"], top_skin_preshrink=[0, 0.8, 2], bottom_skin_preshrink=[0, 0.8], top_skin_expand_distance=[0, 0.8, 3], connect_skin_polygons=[True, False], skin_overlap_mm=[0, 0.08, -0.1], small_skin_width=[0, 0.8, 3], skin_monotonic=[True, False], skin_no_small_gaps_heuristic=[True, False])
    maybe(0.2, roofing_layer_count=[1, 2], roofing_pattern=SKINS, flooring_layer_count=[0, 1], flooring_pattern=SKINS, roofing_monotonic=[True, False])
    maybe(0.15, ironing_enabled=True, ironing_pattern=["zigzag", "concentric"], ironing_only_highest_layer=[True, False], ironing_monotonic=[True, False])
    maybe(0.2, z_seam_type=["back", "shortest", "random", "sharpest_corner"], z_seam_corner=["z_seam_corner_none", "z_seam_corner_inner", "z_seam_corner_outer", "z_seam_corner_any", "z_seam_corner_weighted"], z_seam_relative=[True, False], z_seam_on_vertex=[True, False])
    maybe(0.2, xy_offset=[-0.1, 0.1], xy_offset_layer_0=[-0.2, 0], hole_xy_offset=[0, 0.1, -0.1], hole_xy_offset_max_diameter=[0, 10], wall_0_inset=[0, 0.1])
    maybe(0.2, retraction_combing=["off", "all", "no_outer_surfaces", "noskin", "infill"], retraction_min_travel=[0, 1.5, 5], retraction_hop_enabled=[True, False], retraction_hop_only_when_collides=[True, False], travel_avoid_other_parts=[True, False], retract_at_layer_change=[True, False], travel_retract_before_outer_wall=["force_retracted", "force_not_retracted", "automatic", "force_not_retracted_from_infill"], retraction_combing_max_distance=[0, 5, 15], retraction_amount=[0, 1, 6.5], retraction_extra_prime_amount=[0, 0.05])
    maybe(0.1, retraction_enable=False)
    maybe(0.15, retraction_during_travel_ratio=[0, 30, 100], prime_during_travel_ratio=[0, 20, 100], keep_retracting_during_travel=[True, False])
    maybe(0.1, coasting_enable=True, coasting_volume=[0.05, 0.3], coasting_min_volume=[0.1, 0.8])
    maybe(0.1, scarf_joint_seam_length=[3, 10], scarf_joint_seam_start_height_ratio=[0, 50], scarf_split_distance=[0.5, 1])
    maybe(0.1, wall_0_start_speed_ratio=[100, 50], wall_0_end_speed_ratio=[100, 50], wall_0_acceleration=[20000, 400], wall_0_deceleration=[20000, 400])
    maybe(0.1, magic_fuzzy_skin_enabled=True, magic_fuzzy_skin_thickness=[0.1, 0.3], magic_fuzzy_skin_outside_only=[True, False])
    maybe(0.08, magic_spiralize=True, smooth_spiralized_contours=[True, False])
    maybe(0.08, magic_mesh_surface_mode=["surface", "both"])
    maybe(0.08, mold_enabled=True, mold_width=[1, 5], mold_angle=[0, 40])
    maybe(0.08, conical_overhang_enabled=True, conical_overhang_angle=[50, 20], conical_overhang_hole_size=[0, 2])
    maybe(0.1, adaptive_layer_height_enabled=True, adaptive_layer_height_variation=[0.04, 0.1], adaptive_layer_height_variation_step=[0.01, 0.05], adaptive_layer_height_threshold=[0.1, 0.3])
    maybe(0.1, slicing_tolerance=["inclusive", "exclusive", "middle"])
    maybe(0.1, draft_shield_enabled=True, draft_shield_height_limitation=["full", "limited"], draft_shield_height=[1, 50])
    maybe(0.1, bridge_settings_enabled=True, bridge_enable_more_layers=[True, False], bridge_wall_min_length=[1, 3], bridge_skin_density=[50, 80, 100], bridge_wall_coast=[0, 100])
    maybe(0.1, acceleration_enabled=True, acceleration_travel_enabled=[True, False], acceleration_wall_0=[500, 3000], jerk_enabled=[True, False], jerk_travel_enabled=[True, False], jerk_wall_0=[5, 20])
    maybe(0.1, material_flow_layer_0=[100, 90], wall_0_material_flow=[100, 95], infill_material_flow=[100, 110], skin_material_flow=[100, 90])
    maybe(0.1, relative_extrusion=True)
    maybe(0.1, cool_min_layer_time=[0, 5, 20], cool_min_speed=[0, 10], cool_lift_head=[True, False], cool_fan_full_layer=[1, 3, 6], cool_fan_speed_0=[0, 50], cool_fan_speed_min=[30, 100])
    maybe(0.1, machine_gcode_flavor=["RepRap (Marlin/Sprinter)", "Griffin", "Cheetah", "UltiGCode", "RepRap (Volumetric)", "RepRap (RepRap)", "Repetier", "BFB", "MakerBot", "Mach3"])
    maybe(0.1, machine_firmware_retract=True)
    maybe(0.1, clean_between_layers=True, max_extrusion_before_wipe=[1, 10])
    maybe(0.1, meshfix_union_all=[True, False], meshfix_union_all_remove_holes=[True, False], meshfix_extensive_stitching=[True, False], meshfix_keep_open_polygons=[True, False])
    maybe(0.1, meshfix_maximum_resolution=[0.1, 0.5, 2], meshfix_maximum_deviation=[0.005, 0.025, 0.2], meshfix_fluid_motion_enabled=[True, False])
    maybe(0.1, layer_0_z_overlap=[0, 0.1], raft_airgap=[0, 0.25], remove_empty_first_layers=[True, False])
    maybe(0.1, wall_overhang_angle=[30, 60, 90], wall_overhang_speed_factors=["[100]", "[50]", "[80,40,20]"], seam_overhang_angle=[0, 40, 90])
    maybe(0.1, small_feature_max_length=[0, 10], small_hole_max_size=[0, 3])
    maybe(0.1, material_shrinkage_percentage_xy=[100, 101, 99], material_shrinkage_percentage_z=[100, 102])
    maybe(0.1, gradual_flow_enabled=True, max_flow_acceleration=[0.1, 1], layer_0_max_flow_acceleration=[0.1, 1])
    return s


def model(rng, **k):
    return models.random_model(rng, **k)


def anything_job(rng, threads=None):
    """A job drawn from anything(), with one to three meshes (special mesh kinds included) and one to three extruders."""
    s = anything(rng)
    ne = rng.choice([1, 1, 1, 2, 2, 3])
    meshes = []
    for k in range(rng.choice([1, 1, 1, 2, 2, 3])):
        ms = {}
        m = model(rng, height=(0.4, 3.0), size=(2, 9))
        if k and rng.random() < 0.5:
            kind = rng.choice(["infill_mesh", "cutting_mesh", "anti_overhang_mesh", "support_mesh"])
            ms[kind] = "true"
            if kind in ("infill_mesh", "cutting_mesh"):
                ms["infill_mesh_order"] = str(k)
        if rng.random() < 0.3:
            infill(rng, ms)
            ms["wall_line_count"] = rng.choice([0, 1, 3])
        meshes.append((m, ms, rng.randrange(ne)))
    if rng.random() < 0.15:
        s["carve_multiple_volumes"] = "true"
    extr = [{} for _ in range(ne)]
    if ne > 1:
        for e in extr[1:]:
            if rng.random() < 0.3:
                e["machine_nozzle_offset_x"], e["machine_nozzle_offset_y"] = rng.choice([("18", "0"), ("5", "-3")])
            if rng.random() < 0.3:
                e["retraction_amount"] = "1.5"
        if rng.random() < 0.5:
            s["prime_tower_enable"] = "true"
            s["prime_tower_position_x"] = s["prime_tower_position_y"] = "165"
            s["prime_tower_mode"] = rng.choice(["normal", "interleaved"])
            s["prime_tower_brim_enable"] = rng.choice(["true", "false"])
        if rng.random() < 0.2:
            s["ooze_shield_enabled"] = "true"
        if rng.random() < 0.2:
            s["interlocking_enable"] = "true"
        for k in ("support_extruder_nr", "support_infill_extruder_nr", "support_roof_extruder_nr", "support_bottom_extruder_nr", "support_extruder_nr_layer_0", "skirt_brim_extruder_nr", "raft_base_extruder_nr", "raft_surface_extruder_nr"):
            if rng.random() < 0.25:
                s[k] = str(rng.randrange(ne))
        for k in ("wall_0_extruder_nr", "wall_x_extruder_nr", "infill_extruder_nr", "top_bottom_extruder_nr", "roofing_extruder_nr"):
            if rng.random() < 0.15:
                s[k] = str(rng.randrange(ne))
    groups = None
    if rng.random() < 0.08:
        groups = [meshes, [(model(rng, height=(0.4, 2.0)), {"mesh_position_x": "40"}, rng.randrange(ne))]]
    return slicing.Job(meshes, s, extr, groups, threads=threads or rng.choice([1, 2, 4]), ascii_=rng.random() < 0.2)
