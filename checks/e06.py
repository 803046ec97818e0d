"""E06: layers are printed in order, each flat and at its height, from the plate to the top of the models; the nozzle never goes below what is printed."""
import math
import random

import e2e
import models
import mon
import printed
import slicing

DROP = "magic_spiralize scarf_joint_seam_length mold_enabled material_shrinkage_percentage_z material_shrinkage_percentage_xy machine_gcode_flavor clean_between_layers magic_mesh_surface_mode".split()


def make(rng):
    s = e2e.anything(rng)
    for x in DROP:
        s.pop(x, None)
    s["remove_empty_first_layers"] = "false"
    ne = rng.choice([1, 1, 2])
    meshes = []
    for i in range(rng.choice([1, 1, 2])):
        m = models.random_model(rng, parts=(1, 2), size=(2.5, 8), height=(0.4, 4.0), kinds=["box", "star", "cyl", "ring", "frustum", "overhang"])
        meshes.append((m, {}, rng.randrange(ne)))
    extr = [{} for _ in range(ne)]
    if rng.random() < 0.3:
        s["retraction_hop_enabled"] = "true"
        s["retraction_hop"] = rng.choice(["0.2", "1", "2"])
    if s.get("adhesion_type") == "raft":
        if rng.random() < 0.6:
            s["raft_airgap"] = rng.choice(["0", "0.2", "0.35"])
            s["layer_0_z_overlap"] = rng.choice(["0", "0.1", "0.15"])
        if rng.random() < 0.6:
            s["raft_base_thickness"], s["raft_interface_thickness"], s["raft_surface_thickness"] = rng.choice([("0.3", "0.25", "0.2"), ("0.24", "0.3", "0.1"), ("0.4", "0.15", "0.15")])
    return slicing.Job(meshes, s, extr, None, threads=rng.choice([1, 2, 4]))


def case(ctx, i, rep):
    rng = random.Random("%d/e06/%d" % (ctx.seed, i))
    job = make(rng)
    s = job.settings
    g = e2e.slice_job(rep, slicing.cli("rel"), job, 100, crash=False)
    if g is None:
        return
    what = e2e.describe(job)
    lh0, lh = printed.heights(job)
    adaptive = s.get("adaptive_layer_height_enabled") == "true"
    raft = s.get("adhesion_type") == "raft"
    H = max(m.height() for m, _, _ in job.meshes)
    zs, low, prints = {}, {}, 0
    overlap_f = mon.F(job, "layer_0_z_overlap") if raft else 0.0
    high = -math.inf
    for m in g.moves:
        if m.layer is None:
            continue
        if mon.printing(m):
            prints += 1
            if abs(m.z - m.z0) > 1e-6:
                rep.violation("not flat", "line %d, layer %d: prints from height %g to %g: %s" % (m.n + 1, m.layer, m.z0, m.z, what))
            if m.typ in ("SUPPORT", "SUPPORT-INTERFACE"):
                low.setdefault(m.layer, set()).add(round(m.z, 4))  # may be lower within its layer
            else:
                zs.setdefault(m.layer, set()).add(round(m.z, 4))
                high = max(high, m.z)
        if s.get("support_enable") != "true" and (m.x != m.x0 or m.y != m.y0) and m.z < high - overlap_f - 1e-6:
            rep.violation("below what is printed", "line %d, layer %d: moves at height %g, but there is material up to %g: %s" % (m.n + 1, m.layer, m.z, high, what))
    if not prints:
        rep.stat("nothing printed")
        return
    order = [l for l in g.layers]
    for a, b in zip(order, order[1:]):
        if b <= a:
            rep.violation("order", "layer %d after layer %d: %s" % (b, a, what))
    base = 0.0
    if raft:
        nb, ni, ns = mon.F(job, "raft_base_thickness"), int(mon.F(job, "raft_interface_layers")), int(mon.F(job, "raft_surface_layers"))
        heights = [nb] + [mon.F(job, "raft_interface_thickness")] * ni + [mon.F(job, "raft_surface_thickness")] * ns
        total = sum(heights)
        base = total + mon.F(job, "raft_airgap")
        filler = 0
        neg = sorted(l for l in order if l < 0)
        filler = len(neg) and -neg[0] - len(heights)
        acc = 0.0
        for k, h in enumerate(heights):
            acc += h
            l = -(len(heights) + filler) + k
            for z in zs.get(l, ()):
                if abs(z - acc) > 0.0011:
                    rep.violation("raft height", "raft layer %d is printed at %g instead of %g: %s" % (l, z, acc, what))
            rep.stat("raft layers judged")
        for k in range(filler):
            l = -filler + k
            for z in zs.get(l, ()):
                if not (total - 1e-3 <= z <= base + lh0 + 1e-3):
                    rep.violation("raft height", "the layer %d between raft and model is printed at %g, not between %g and %g: %s" % (l, z, total, base + lh0, what))
    overlap = mon.F(job, "layer_0_z_overlap") if raft else 0.0
    last = None
    for l in sorted(zs):
        if l < 0:
            continue
        if len(zs[l]) > 1:
            rep.violation("not flat", "layer %d is printed at heights %s: %s" % (l, sorted(zs[l])[:4], what))
        z = min(zs[l])
        if adaptive:
            v = mon.F(job, "adaptive_layer_height_variation")
            if last is not None and l == last[0] + 1 and not (max(0, lh - v) - 0.0015 <= z - last[1] + (overlap if last[0] == 0 else 0) <= lh + v + 0.0015):
                rep.violation("adaptive height", "layer %d is %g high, allowed is %g +- %g: %s" % (l, z - last[1], lh, v, what))
        else:
            e = base + printed.top(l, lh0, lh) - (overlap if l else 0)
            for zz in low.get(l, ()):
                if not (e - max(lh, lh0) + 0.0005 < zz < e + 0.0015):
                    rep.violation("support height", "support of layer %d is printed at %g, the layer is from %g to %g: %s" % (l, zz, e - lh, e, what))
            if abs(z - e) > 0.0015:
                rep.violation("height", "layer %d is printed at %g instead of %g: %s" % (l, z, e, what))
        last = (l, z)
        rep.stat("layers judged")
    if last is not None:
        t = last[1] - base + overlap
        v = mon.F(job, "adaptive_layer_height_variation") if adaptive else 0
        if s.get("slicing_tolerance") == "exclusive":
            v = 2 * v + lh  # a layer is printed where its top is inside of the model
        # slivers at the very top may be too thin to print anything: models taper
        tapered = any(x.s1 < x.s0 for m, _, _ in job.meshes for x in m.solids) or any(min(b - a for a, b in ((x.bounds()[0], x.bounds()[2]), (x.bounds()[1], x.bounds()[3]))) < 2 for m, _, _ in job.meshes for x in m.solids)
        if t > H + lh + v + 0.002:
            rep.violation("top", "prints up to %g, the models are %g high: %s" % (t, H, what))
        if not tapered and mon.F(job, "wall_line_count") > 0 and t < H - lh - v - max(0.0, lh0 - lh) - 0.002 and H > lh0 + lh:
            rep.violation("top", "prints only up to %g, the models are %g high: %s" % (t, H, what))
    rep.eval(g.text[2000:5000])


def run(ctx):
    slicing.cli("rel")
    e2e.run_cases(ctx, 200 if ctx.quick else 9000, case, "jobs")
