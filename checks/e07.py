"""E07: what is printed is the model: nothing outside of it, its whole outline, and solid material where it must be."""
import math
import random

import e2e
import models
import mon
import printed
import slicing

# settings that change the shape that is printed, or print it otherwise than as walls and filling
SHAPE = """support_enable xy_offset xy_offset_layer_0 hole_xy_offset hole_xy_offset_max_diameter wall_0_inset magic_fuzzy_skin_enabled magic_spiralize magic_mesh_surface_mode mold_enabled
conical_overhang_enabled adaptive_layer_height_enabled slicing_tolerance coasting_enable scarf_joint_seam_length meshfix_union_all meshfix_union_all_remove_holes meshfix_extensive_stitching meshfix_keep_open_polygons
material_shrinkage_percentage_xy material_shrinkage_percentage_z prime_tower_enable ooze_shield_enabled interlocking_enable carve_multiple_volumes remove_empty_first_layers ironing_enabled bridge_settings_enabled
machine_gcode_flavor relative_extrusion layer_0_z_overlap meshfix_fluid_motion_enabled top_skin_preshrink bottom_skin_preshrink skin_overlap_mm""".split()
SHRINK = 0.45  # narrower pieces of skin than the default "top_skin_preshrink" are not skin
TYPES = {"WALL-OUTER", "WALL-INNER", "SKIN", "FILL"}


def plain_job(rng, **k):
    s = e2e.anything(rng)
    for x in SHAPE:
        s.pop(x, None)
    s["remove_empty_first_layers"] = "false"
    if rng.random() < 0.3:
        s["infill_pattern"] = rng.choice(["lines", "zigzag", "concentric"])
        s["infill_line_distance"] = s.get("infill_line_width", slicing.DEFAULTS["infill_line_width"])
        s["infill_multiplier"], s["gradual_infill_steps"], s["infill_sparse_thickness"] = "1", "0", s.get("layer_height", slicing.DEFAULTS["layer_height"])
    ne = rng.choice([1, 1, 2])
    meshes = []
    for i in range(rng.choice([1, 1, 2])):
        m = models.random_model(rng, parts=(1, 2), size=(2, 9), height=(0.6, 2.4))
        ms = {}
        if rng.random() < 0.3:
            ms["mesh_position_x"] = str(rng.choice([-30, 12.5]))
        meshes.append((m, ms, rng.randrange(ne)))
    extr = [{} for _ in range(ne)]
    if ne > 1 and rng.random() < 0.5:
        extr[1]["machine_nozzle_offset_x"], extr[1]["machine_nozzle_offset_y"] = "18", "-2"
    if ne > 1:
        for key in ("wall_0_extruder_nr", "wall_x_extruder_nr", "infill_extruder_nr", "top_bottom_extruder_nr", "roofing_extruder_nr"):
            if rng.random() < 0.25:
                s[key] = str(rng.randrange(ne))
    return slicing.Job(meshes, s, extr, None, threads=rng.choice([1, 2, 4]), ascii_=rng.random() < 0.2)


def samples(rng, polys, n):
    xs = [p[0] for q in polys for p in q]
    ys = [p[1] for q in polys for p in q]
    return [(rng.uniform(min(xs), max(xs)), rng.uniform(min(ys), max(ys))) for _ in range(n)]


def case(ctx, i, rep):
    rng = random.Random("%d/e07/%d" % (ctx.seed, i))
    job = plain_job(rng)
    s = job.settings
    g = e2e.slice_job(rep, slicing.cli("rel"), job, 100, crash=False)
    if g is None:
        return
    lh0, lh = printed.heights(job)
    w = mon.F(job, "wall_line_width_0")
    dev = mon.F(job, "meshfix_maximum_deviation")
    tol = 0.03 + 2 * dev
    walls = int(mon.F(job, "wall_line_count"))
    topn, botn = int(mon.F(job, "top_layers")), int(mon.F(job, "bottom_layers"))
    dense = 0 < mon.F(job, "infill_line_distance") <= mon.F(job, "infill_line_width") * 1.001 and mon.S(job, "infill_pattern") in ("lines", "zigzag", "concentric") and mon.F(job, "infill_multiplier") == 1
    dense = dense and mon.F(job, "infill_sparse_thickness") < 1.4 * lh and mon.F(job, "gradual_infill_steps") == 0
    L = printed.by_layer(g, job)
    jumps = printed.ends(job)
    H = max(m.height() for m, _, _ in job.meshes)
    what = lambda: e2e.describe(job)
    sec = {}

    def section(n):
        if n not in sec:
            z = printed.middle(n, lh0, lh)
            sec[n] = printed.section(job, z) if n >= 0 else []
        return sec[n]

    def clear(n):
        """No face of a model is so close to the height of this layer that rounding decides."""
        z = printed.middle(n, lh0, lh)
        return all(abs(z - j) > 0.003 for j in jumps)

    count = int(round((H - lh0) / lh)) + 1
    for n in range(0, count):
        P = section(n)
        if not clear(n) or not P:
            continue
        lines = L.get(n)
        # (a) nothing outside
        for q in lines.all if lines else ():
            x0, y0, x1, y1, typ, m = q
            if typ not in TYPES:
                continue
            for t in (0.0, 0.5, 1.0):
                x, y = x0 + t * (x1 - x0), y0 + t * (y1 - y0)
                d = printed.depth(P, x, y)
                if d < -tol - (0 if walls else 1.5 * (0.25 + w / 2)):
                    rep.violation("outside of the model", "line %d, layer %d, %s: %.3f,%.3f is %.3f mm outside: %s" % (m.n + 1, n, typ, x, y, -d, what()))
                    break
            rep.stat("lines judged")
        # (b) the outline
        if walls > 0:
            for p in P:
                for a, b in zip(p, p[1:] + p[:1]):
                    l = math.hypot(b[0] - a[0], b[1] - a[1])
                    if l < 0.3:
                        continue
                    t = rng.uniform(0.2, 0.8)
                    x, y = a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1])
                    nx, ny = -(b[1] - a[1]) / l, (b[0] - a[0]) / l
                    r = 2 * w
                    if printed.depth(P, x + nx * r, y + ny * r) < r * 0.98 or models.inside(P, x - nx * 0.05, y - ny * 0.05):
                        continue
                    d = lines.near(x, y, 2, {"WALL-OUTER"}) if lines else math.inf
                    if d > w / 2 + tol + 0.02:
                        rep.violation("outline not printed", "layer %d: no outer wall at %.3f,%.3f (nearest %.3f mm away, width %g): %s" % (n, x, y, d, w, what()))
                    rep.stat("points of outlines found")
        # (c), (d): solid
        for x, y in samples(rng, P, 40):
            d = printed.depth(P, x, y)
            if d < max(2.2 * w, walls * w + SHRINK):
                continue
            why = "solid infill" if dense else None
            for k in range(1, min(topn, count - n) + 1):
                if clear(n + k) and (n + k >= count or printed.depth(section(n + k), x, y) < -max(2 * w, SHRINK)):
                    why = "top"
                    break
            for k in range(1, min(botn, n + 1) + 1):
                if n - k < 0 or clear(n - k) and printed.depth(section(n - k), x, y) < -max(2 * w, SHRINK):
                    why = "bottom"
                    break
            if why is None:
                continue
            e = lines.near(x, y, 2, TYPES) if lines else math.inf
            if e > 1.1 * w + tol:
                rep.violation("not solid: " + why, "layer %d: nothing printed at %.3f,%.3f, %.3f mm deep (nearest line %.3f mm away, width %g): %s" % (n, x, y, d, e, w, what()))
            rep.stat("points judged, " + why)
    for n in L:
        if n >= count + 1:
            rep.violation("outside of the model", "layer %d of %d: %s" % (n, count, what()))
    rep.eval(g.text[2000:5000])
    rep.stat("layers judged", count)


def run(ctx):
    slicing.cli("rel")
    e2e.run_cases(ctx, 200 if ctx.quick else 9000, case, "jobs")
