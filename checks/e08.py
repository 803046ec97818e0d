"""E08: how much material is laid down: it fills the model's volume, every line gets what its width and height need, and writing it relative, absolute or as volumes makes no difference."""
import math
import random

import e2e
import gcode
import models
import mon
import printed
import slicing

FORMS = {"rel": {"relative_extrusion": "true"}, "abs": {"relative_extrusion": "false"}, "vol": {"machine_gcode_flavor": "RepRap (Volumetric)"}}
SHAPE = "magic_spiralize mold_enabled magic_mesh_surface_mode magic_fuzzy_skin_enabled machine_gcode_flavor relative_extrusion scarf_joint_seam_length coasting_enable".split()
RANDOM = {"z_seam_type": "random", "infill_pattern": "lightning"}


def make(rng):
    s = e2e.anything(rng)
    for k in ("magic_fuzzy_skin_enabled", "relative_extrusion", "machine_firmware_retract"):
        s.pop(k, None)
    if s.get("machine_gcode_flavor") not in (None, "RepRap (Marlin/Sprinter)", "RepRap (RepRap)", "Repetier", "Griffin"):
        s.pop("machine_gcode_flavor")
    for k, v in RANDOM.items():
        if s.get(k) == v:
            s.pop(k)
    if s.get("support_structure") == "tree":
        s["support_structure"] = "normal"
    ne = rng.choice([1, 1, 2])
    meshes = [(models.random_model(rng, parts=(1, 2), size=(2, 8), height=(0.4, 2.0)), {}, rng.randrange(ne)) for _ in range(rng.choice([1, 1, 2]))]
    extr = [{} for _ in range(ne)]
    d = rng.choice(["1.75", "2.85"])
    s["material_diameter"] = d
    if ne > 1:
        extr[1]["material_diameter"] = rng.choice(["1.75", "2.85"])
    if rng.random() < 0.2:
        s["flow_rate_extrusion_offset_factor"] = rng.choice(["50", "100"])
        s["flow_rate_max_extrusion_offset"] = "0.3"
    return slicing.Job(meshes, s, extr, None, threads=rng.choice([1, 2]))


def forms(ctx, i, rep):
    """The same job written in two forms."""
    rng = random.Random("%d/e08/%d" % (ctx.seed, i))
    job = make(rng)
    flavored = "machine_gcode_flavor" in job.settings
    a, b = rng.choice([("abs", "rel"), ("abs", "rel"), ("abs", "vol")]) if not flavored else ("abs", "rel")
    if b == "vol":
        job.settings.pop("flow_rate_extrusion_offset_factor", None)  # a distance the filament is pushed ahead, in mm or mm3
        job.settings.pop("flow_rate_max_extrusion_offset", None)
    base = dict(job.settings)
    res = []
    for f in (a, b):
        job.settings = dict(base, **FORMS[f])
        g = e2e.slice_job(rep, slicing.cli("rel"), job, 100, crash=False)
        if g is None:
            return
        res.append(g)
    A, B = ([m for m in g.moves] for g in res)
    what = e2e.describe(job)
    if len(A) != len(B):
        rep.violation("forms: other moves", "%d moves written %s, %d written %s: %s" % (len(A), a, len(B), b, what))
        return
    drift = 0.0
    offsets = "flow_rate_extrusion_offset_factor" in base  # how much a retraction and the line after it move depends on the form, but not their sum
    for m, n in zip(A, B):
        if (m.x, m.y, m.z, m.f, m.g, m.tool) != (n.x, n.y, n.z, n.f, n.g, n.tool):
            rep.violation("forms: other moves", "lines %d and %d differ: %s" % (m.n + 1, n.n + 1, what))
            return
        k = mon.area(job, m.tool if m.tool < len(job.extruders) else 0) if b == "vol" else 1.0
        tol = 3e-5 * max(k, 1) + (0 if b == "rel" else 1e-7 * abs(n.e))
        if not offsets and abs(m.de * k - n.de) > tol:
            rep.violation("forms: other amounts", "lines %d and %d: %g mm written %s, %g written %s: %s" % (m.n + 1, n.n + 1, m.de * k, a, n.de, b, what))
            return
        drift += m.de * k - n.de
        if (mon.printing(m) or not offsets) and abs(drift) > 0.02 + 1e-5 * len(A):
            rep.violation("forms: drift", "up to line %d, %g mm more are written %s than %s: %s" % (m.n + 1, drift, a, b, what))
            return
    rep.stat("moves compared in two forms", len(A))
    rep.eval(res[0].text[2000:5000])


def solid(rng):
    s = {}
    w = rng.choice([0.3, 0.35, 0.4, 0.6])
    s.update(e2e.widths(w))
    lh = rng.choice([0.1, 0.15, 0.2, 0.3])
    s["layer_height"], s["layer_height_0"] = e2e.fmt(lh), e2e.fmt(rng.choice([lh, 0.2, 0.27]))
    s["wall_line_count"] = str(rng.choice([0, 1, 2, 3, 8]))
    s["skin_overlap_mm"] = "0" if s["wall_line_count"] == "0" else e2e.fmt(rng.choice([0, 0, 0.05]))
    s["top_bottom_pattern"] = s["top_bottom_pattern_0"] = rng.choice(["lines", "zigzag", "concentric"])
    s["top_layers"] = "1000"
    s["bottom_layers"] = s["initial_bottom_layers"] = rng.choice(["0", "3"])
    if rng.random() < 0.3:
        s["adaptive_layer_height_enabled"], s["adaptive_layer_height_variation"] = "true", "0.04"
    if rng.random() < 0.3:
        s["layer_height_0"] = "0.3"
    for k, v in (("skin_monotonic", ["true", "false"]), ("skin_outline_count", ["0", "1", "2"]), ("optimize_wall_printing_order", ["true", "false"]), ("alternate_extra_perimeter", ["false", "true"]), ("inset_direction", ["inside_out", "outside_in"]), ("roofing_layer_count", ["0", "1"]), ("material_flow_layer_0", ["100", "90"]), ("material_diameter", ["1.75", "2.85"]), ("connect_skin_polygons", ["true", "false"]), ("retraction_combing", ["off", "all"]), ("top_skin_preshrink", ["0"]), ("bottom_skin_preshrink", ["0"]), ("remove_empty_first_layers", ["false"])):
        s[k] = rng.choice(v)
    flow = rng.choice(["100", "100", "90", "110"])
    s["flow"] = flow
    for k in ("wall_0_material_flow", "wall_x_material_flow", "skin_material_flow", "infill_material_flow", "roofing_material_flow", "flooring_material_flow", "material_flow"):
        s[k] = flow
    for k in ("wall_0_material_flow_roofing", "wall_x_material_flow_roofing", "wall_0_material_flow_flooring", "wall_x_material_flow_flooring"):
        if k in slicing.DEFAULTS:
            s[k] = flow
    for k in ("wall_0_material_flow_layer_0", "wall_x_material_flow_layer_0", "skin_material_flow_layer_0"):
        s[k] = s["material_flow_layer_0"]
    kinds = ["box", "star", "cyl", "ring"]
    meshes = [(models.random_model(rng, parts=(1, 1), size=(5, 12), height=(0.5, 2.0), kinds=kinds), {}, 0)]
    return slicing.Job(meshes, s, [{}], None, threads=2)


def area2(polys):
    return abs(sum(sum(a[0] * b[1] - a[1] * b[0] for a, b in zip(p, p[1:] + p[:1])) for p in polys)) / 2


def volume(ctx, i, rep):
    rng = random.Random("%d/e08/volume/%d" % (ctx.seed, i))
    job = solid(rng)
    g = e2e.slice_job(rep, slicing.cli("rel"), job, 100, crash=False)
    if g is None:
        return
    s = job.settings
    w = float(s["line_width"])
    lh0, lh = printed.heights(job)
    flow = float(s["flow"]) / 100
    zs, vol, narrow = {}, {}, set()
    a = mon.area(job, 0)
    last = None
    for m in g.moves:
        if mon.printing(m) and m.typ in ("WALL-OUTER", "WALL-INNER", "SKIN", "FILL"):
            zs[m.layer] = m.z
            vol[m.layer] = vol.get(m.layer, 0.0) + m.de * a
    what = e2e.describe(job)
    H = max(m.height() for m, _, _ in job.meshes)
    prev = 0.0
    for l in sorted(zs):
        h = zs[l] - prev
        z = prev + h / 2
        prev = zs[l]
        if l + 1 not in zs or l and l - 1 not in zs:
            continue
        P = printed.section(job, z)
        if not P or not all(abs(z - j) > 0.003 for j in printed.ends(job)):
            continue
        A = area2(P)
        per = sum(math.hypot(b[0] - c[0], b[1] - c[1]) for p in P for b, c in zip(p, p[1:] + p[:1]))
        f = float(s["material_flow_layer_0"]) / 100 * flow if l == 0 else flow
        want = A * h
        got = vol.get(l, 0.0) / f
        if A < 15 * w * w or A / per < 2 * w:
            continue
        r = (got - want) / (per * w * h)  # in widths of a line all along the outline
        rep.smax("excess material, line widths along the outline", r)
        rep.smax("missing material, line widths along the outline", -r)
        if not -0.25 < r < 0.4:
            rep.violation("volume", "layer %d, %g mm high: %g mm3 are printed for %g mm2 (%g mm3); outline %g mm, lines %g mm wide: %s" % (l, h, got, A, want, per, w, what))
        rep.stat("volumes of layers compared")
    rep.eval(g.text[1000:4000])


def run(ctx):
    slicing.cli("rel")
    e2e.run_cases(ctx, 110 if ctx.quick else 4000, forms, "forms")
    e2e.run_cases(ctx, 160 if ctx.quick else 6000, volume, "volume")
