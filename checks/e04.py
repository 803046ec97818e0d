"""E04: retraction: material only flows when it is printed; what was retracted is pushed back before the next line; long travels are retracted (and hop), but not too often."""
import math
import random

import e2e
import models
import mon
import printed
import slicing


def make(rng):
    s = e2e.anything(rng)
    for k in ("magic_spiralize", "machine_gcode_flavor", "clean_between_layers", "retraction_combing", "material_shrinkage_percentage_xy", "scarf_joint_seam_length", "layer_height_0"):
        s.pop(k, None)
    for k in list(s):
        if k.startswith("retraction_") or k.startswith("prime_"):
            s.pop(k)
    P, C = rng.random, rng.choice
    ne = C([1, 1, 1, 2])
    s["retraction_combing"] = C(["off", "off", "all", "noskin", "infill", "no_outer_surfaces"])
    s["retraction_amount"] = C(["1", "3.5", "6.5"])
    s["retraction_min_travel"] = C(["0", "0.8", "1.5", "5"])
    s["retraction_combing_max_distance"] = C(["0", "5", "15", "30"])
    s["retraction_count_max"], s["retraction_extrusion_window"] = C([("100000", "0"), ("100000", "0"), ("100000", "0"), ("3", "1"), ("10", "0.5"), ("1", "0.2")])
    s["retraction_extra_prime_amount"] = C(["0", "0", "0.05", "0.2"])
    s["retraction_hop_enabled"] = C(["false", "true"])
    s["retraction_hop"] = C(["0.5", "1"])
    s["retraction_hop_only_when_collides"] = C(["false", "true"])
    s["limit_support_retractions"] = "false"
    if P() < 0.1:
        s["retraction_enable"] = "false"
    if P() < 0.2:
        s["retraction_during_travel_ratio"], s["prime_during_travel_ratio"] = C(["0", "30", "100"]), C(["0", "20", "100"])
        s["keep_retracting_during_travel"] = C(["true", "false"])
    if P() < 0.25:
        s["machine_gcode_flavor"] = C(["Griffin", "Cheetah", "UltiGCode", "RepRap (Volumetric)", "RepRap (RepRap)", "Repetier"])
    if ne > 1:
        s["switch_extruder_retraction_amount"] = C(["0", "16", "20"])
        s["switch_extruder_extra_prime_amount"] = C(["0", "0.1"])
    meshes = [(models.random_model(rng, parts=(1, 3), size=(2, 8), height=(0.4, 2.0), spread=20, kinds=["box", "star", "cyl", "ring"]), {}, rng.randrange(ne)) for _ in range(C([1, 1, 2]))]
    return slicing.Job(meshes, s, [{} for _ in range(ne)], None, threads=C([1, 2]))


def case(ctx, i, rep):
    rng = random.Random("%d/e04/%d" % (ctx.seed, i))
    job = make(rng)
    s = job.settings
    g = e2e.slice_job(rep, slicing.cli("rel"), job, 100, crash=False)
    if g is None:
        return
    what = e2e.describe(job)
    n0 = len(rep.viol)
    F = lambda k: mon.F(job, k)
    fw = mon.B(job, "machine_firmware_retract") or s.get("machine_gcode_flavor") == "UltiGCode"
    unit = mon.area(job, 0) if mon.volumetric(job) else 1.0  # E per mm of filament
    amount, switch = F("retraction_amount") * unit, F("switch_extruder_retraction_amount") * unit
    extra = F("retraction_extra_prime_amount") / mon.area(job, 0) * unit
    extra_switch = F("switch_extruder_extra_prime_amount") / mon.area(job, 0) * unit
    enable = s.get("retraction_enable") != "false"
    during = float(s.get("retraction_during_travel_ratio", 0)) > 0 or float(s.get("prime_during_travel_ratio", 0)) > 0
    limited = s["retraction_count_max"] != "100000"
    min_travel = F("retraction_min_travel")
    hop = F("retraction_hop") if s["retraction_hop_enabled"] == "true" else 0.0
    combing = s["retraction_combing"]
    maxd = F("retraction_combing_max_distance")
    offs = "flow_rate_extrusion_offset_factor" in s
    lh0, lh = printed.heights(job)
    heights = "adaptive_layer_height_enabled" not in s and s.get("adhesion_type") != "raft"
    shaped = any(k in s for k in ("mold_enabled", "conical_overhang_enabled", "magic_mesh_surface_mode", "xy_offset", "slicing_tolerance", "meshfix_union_all"))
    ends = printed.ends(job)
    eps = 2e-4 * max(1, unit)

    state = {}  # tool -> E retracted now; None before its first line

    chain = []  # moves since the last line
    chain_ret = 0.0
    chain_toolchange, chain_de, groups, negs = True, 0.0, 0, 0
    fw_retracted = {}
    used = {}  # tool -> E laid down and E at its retractions
    since = {}
    last, chain_typ = None, None
    hist = {}
    for n, kind, m in g.events:
        if kind == "tool":
            chain_toolchange = True
            continue
        if kind in ("G10", "G11") and not (kind == "G10" and m):  # G10 with words: temperatures
            tool = last.tool if last else 0
            was = fw_retracted.get(tool)
            if was == (kind == "G10") and not chain_toolchange:
                rep.violation("firmware retraction", "line %d: %s twice: %s" % (n + 1, kind, what))
            fw_retracted[tool] = kind == "G10"
            if kind == "G10":
                chain_ret = math.inf
            continue
        if kind != "move":
            continue
        t = m.tool
        prev, last = last, m
        r = state.get(t)
        if not mon.printing(m):
            if m.de != 0 and r is not None:
                r -= m.de
                state[t] = r
                if m.de < 0:
                    if not chain or chain_de >= 0:
                        groups += 1
                    negs += 1
                    chain_ret = max(chain_ret, r)
                    limit = (max(amount, switch) if chain_toolchange or len(job.extruders) > 1 else amount)
                    if r > limit + eps + extra and enable:
                        rep.violation("retracted too far", "line %d: %g is retracted, the setting says %g: %s" % (n + 1, r, limit, what))
                    if m.g == "G1" and (m.x != m.x0 or m.y != m.y0):
                        rep.violation("retracts along a line", "line %d: %s" % (n + 1, what))
            if m.de:
                chain_de = m.de
            m.held = (state.get(t) or 0) > eps or fw_retracted.get(t)
            chain.append(m)
            continue
        # a line is printed
        if r is not None:
            if r > eps:
                rep.violation("prints retracted", "line %d: %g is still retracted: %s" % (n + 1, r, what))
            # during travel, the pushed amount may be proportioned
            allowed = extra * max(1, negs if during else groups) + (extra_switch if chain_toolchange else 0) + eps
            if -r > allowed and not offs:
                rep.violation("primes too much", "line %d: %g more was pushed than had been retracted: %s" % (n + 1, -r, what))
            if not chain_ret and r < -eps and not chain_toolchange:
                rep.violation("primes without retraction", "line %d: %g was pushed without having been retracted: %s" % (n + 1, -r, what))
        if fw_retracted.get(t):
            rep.violation("prints retracted", "line %d: the firmware still holds the filament back: %s" % (n + 1, what))
        if chain_ret and not chain_toolchange and chain_ret != math.inf:
            # how much was laid down between retractions
            h = hist.setdefault(t, [])
            h.append(used.get(t, 0.0))
        if chain and r is not None and prev is not None and not chain_toolchange:
            travel(rep, chain, chain_ret, m, job, what, locals())
        used[t] = used.get(t, 0.0) + m.de
        chain, chain_ret, chain_toolchange, chain_de, groups, negs = [], 0.0, False, 0.0, 0, 0
        state[t], chain_typ = 0.0, m.typ
        rep.stat("lines judged")
    if limited and not fw and enable and not offs and not during:
        c, w = int(s["retraction_count_max"]), F("retraction_extrusion_window") * unit
        for t, h in hist.items():
            for k in range(len(h) - c):
                if h[k + c] - h[k] < w - 0.01 - 2 * extra * (c + 1):
                    rep.violation("too many retractions", "extruder %d: %d retractions while %g of filament is printed, the settings allow %d per %g: %s" % (t, c + 1, h[k + c] - h[k], c, w, what))
                    break
            rep.stat("retractions judged by the limit", len(h))
    rep.eval(g.text[2000:5000])


MODEL = ("WALL-OUTER", "WALL-INNER", "SKIN", "FILL")


def s_plain(job):
    return "coasting_enable" not in job.settings


def travel(rep, chain, ret, m, job, what, v):
    xy = [(chain[0].x0, chain[0].y0)] + [(c.x, c.y) for c in chain if c.x != c.x0 or c.y != c.y0]
    if len(xy) < 2:
        return
    if not any(c.g == "G0" for c in chain):
        return  # a line without material, where another one was laid already
    d = max((c.length for c in chain if c.g == "G0"), default=0.0)  # every part of a travel may be decided on alone
    straight = math.hypot(xy[0][0] - m.x0, xy[0][1] - m.y0)  # what the engine compares with the least travel
    length = sum(c.length for c in chain)
    new_layer = chain[0].layer != m.layer
    rep.stat("travels judged")
    if v["combing"] == "off" and not new_layer and v["hop"] and not v["limited"] and v["enable"] and s_plain(job):
        for c in chain:
            if c.g == "G0" and c.length > max(v["min_travel"], 1e-3) + 0.002 and c.held:
                rep.stat("travels with a hop judged")
                if c.z < m.z + v["hop"] - 0.0015 and not v["during"]:
                    rep.violation("travel without hop", "line %d: the head travels at height %g, the layer is at %g, hops are %g high: %s" % (c.n + 1, c.z, m.z, v["hop"], what))
    if ret:
        rep.stat("retracted travels")
        if not v["enable"]:
            rep.violation("retracts although disabled", "line %d: %s" % (m.n + 1, what))
        return
    if not v["enable"] or v["limited"]:
        return
    if v["combing"] != "off" and not new_layer and v["heights"] and not v["shaped"] and m.typ in MODEL and v["chain_typ"] in MODEL and m.layer >= 0 and straight > max(0.82, v["min_travel"] + 0.3) and s_plain(job) and not (m.typ == "WALL-OUTER" and "not" in job.settings.get("travel_retract_before_outer_wall", "")):
        z = printed.middle(m.layer, v["lh0"], v["lh"])
        if all(abs(z - e) > 0.003 for e in v["ends"]):
            P = printed.section(job, z)
            if v["maxd"] > 0 and length > v["maxd"] + 0.5:
                rep.violation("long travel without retraction", "line %d: the head travels %g mm unretracted, the setting allows %g: %s" % (m.n + 1, length, v["maxd"], what))
            worst = 0.0
            for a, b in zip(xy, xy[1:]):
                k = int(math.hypot(b[0] - a[0], b[1] - a[1]) / 0.25) + 1
                for j in range(k + 1):
                    q = a[0] + (b[0] - a[0]) * j / k, a[1] + (b[1] - a[1]) * j / k
                    worst = max(worst, -printed.depth(P, *q))
            rep.stat("combed travels judged")
            rep.smax("unretracted travel outside of the model", worst)
            if worst > (0.05 if mon.F(job, "wall_line_count") > 0 else 0.05 + 0.6 * mon.F(job, "line_width")):
                rep.violation("crosses the outside unretracted", "line %d: an unretracted travel of %g mm gets %g mm away from the model: %s" % (m.n + 1, length, worst, what))
    if v["combing"] == "off" and not new_layer and d > max(0.5, v["min_travel"] + 0.002) and s_plain(job):
        rep.violation("travel without retraction", "line %d: the head travels %g mm unretracted: %s" % (m.n + 1, d, what))


def run(ctx):
    slicing.cli("rel")
    e2e.run_cases(ctx, 200 if ctx.quick else 9000, case, "jobs")
