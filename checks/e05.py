"""E05: temperatures: nothing is printed with a nozzle that isn't hot, heaters follow the layers and the use of the extruders, and everything is off at the end."""
import random

import e2e
import models
import mon
import slicing

FLAVORS = ["RepRap (Marlin/Sprinter)", "RepRap (Marlin/Sprinter)", "RepRap (Marlin/Sprinter)", "Griffin", "Cheetah", "RepRap (RepRap)", "Repetier", "RepRap (Volumetric)", "UltiGCode"]


def make(rng):
    R = rng.choice
    s = e2e.anything(rng)
    for k in "adaptive_layer_height_enabled machine_gcode_flavor magic_spiralize mold_enabled cool_min_layer_time cool_min_speed prime_tower_enable conical_overhang_enabled slicing_tolerance remove_empty_first_layers".split():
        s.pop(k, None)
    if str(s.get("wall_line_count", 1)) == "0":  # a shield around nothing isn't known to the choice of the extruders
        s.pop("draft_shield_enabled", None)
        s.pop("ooze_shield_enabled", None)
    ne = R([1, 1, 2, 2, 2, 3])
    s["machine_gcode_flavor"] = R(FLAVORS)
    s["material_print_temp_prepend"] = R(["true", "true", "false"])
    s["material_print_temp_wait"] = R(["true", "false"])
    s["material_bed_temp_prepend"] = R(["true", "true", "false"])
    s["material_bed_temp_wait"] = R(["true", "false"])
    s["material_bed_temperature"], s["material_bed_temperature_layer_0"] = R(["60", "55"]), R(["60", "65", "0"])
    if rng.random() < 0.15:
        s["machine_heated_bed"] = "false"
    if rng.random() < 0.2:
        s["machine_heated_build_volume"], s["build_volume_temperature"] = "true", R(["28", "45", "0"])
    s["cool_min_layer_time"] = R(["0", "0", "3", "10"])
    if rng.random() < 0.2:
        s["machine_nozzle_temp_enabled"] = "false"
    if rng.random() < 0.2:
        s["material_delta_temperature_roofing"] = R(["-5", "8"])
        s["roofing_layer_count"] = "1"
    s["machine_min_cool_heat_time_window"] = R(["0", "5", "15", "50"])
    s["machine_nozzle_heat_up_speed"] = R(["2", "5", "20"])
    s["machine_nozzle_cool_down_speed"] = R(["1", "2", "10"])
    if rng.random() < 0.15:
        s["machine_always_write_active_tool"] = "true"
    extr = []
    for e in range(ne):
        p = R([200, 210, 240])
        x = {"material_print_temperature": str(p), "material_print_temperature_layer_0": str(R([p, p + 5, p - 5, 0])), "material_standby_temperature": str(R([100, 150, 175])), "cool_min_temperature": str(p - R([0, 10]))}
        x["material_initial_print_temperature"] = str(R([0, p, p - 5, p - 15]))
        x["material_final_print_temperature"] = str(R([0, p, p - 10, p - 20]))
        extr.append(x)
    if ne > 1 and rng.random() < 0.15:
        s["machine_extruders_share_heater"] = "true"
        s["machine_extruders_share_nozzle"] = "true"
        s["material_print_temp_prepend"] = "true"
    if ne > 1:
        if rng.random() < 0.4:
            s.update({"prime_tower_enable": "true", "prime_tower_position_x": "165", "prime_tower_position_y": "165", "prime_tower_mode": R(["normal", "interleaved"])})
        for k in ("infill_extruder_nr", "wall_0_extruder_nr", "top_bottom_extruder_nr", "support_extruder_nr", "support_infill_extruder_nr"):
            if rng.random() < 0.2:
                s[k] = str(rng.randrange(ne))
    meshes = [(models.random_model(rng, parts=(1, 1), size=(2, R([4, 14])), height=(0.4, R([1.5, 4.0]))), {}, k % ne) for k in range(R([1, ne, ne]))]
    groups = None
    if rng.random() < 0.15:
        groups = [meshes, [(models.random_model(rng, parts=(1, 1), height=(0.4, 1.5)), {"mesh_position_x": "40"}, rng.randrange(ne))]]
        s["print_sequence"] = "one_at_a_time"
    return slicing.Job(meshes, s, extr, groups, threads=R([1, 2]))


class Heat:
    """The targets a printer would have, told only by the commands."""

    def __init__(self, n, shared):
        self.target = [None] * n
        self.cold = [True] * n  # not waited for since it was below printing temperature
        self.shared = shared

    def set(self, tool, temp, wait, low):
        for t in range(len(self.target)) if self.shared else [tool]:
            self.target[t] = temp
            if temp < low[t] - 0.051:
                self.cold[t] = True
            elif wait:
                self.cold[t] = False


def idle(rep, g, job, what, F, P):
    """Extruders that aren't in use for long cool down to their standby temperature and are hot again in time."""
    ne = len(job.extruders)
    up, down = F("machine_nozzle_heat_up_speed"), F("machine_nozzle_cool_down_speed")
    window = F("machine_min_cool_heat_time_window")
    target, real, out, coldest = [None] * ne, [None] * ne, {}, [1e9] * ne
    tool, now, layer, grp = 0, 0.0, 0, 0
    groups = sum(k == "layer_count" for _, k, _ in g.events)

    def step(dt):
        for t in range(ne):
            if target[t] is not None:
                real[t] = min(target[t], real[t] + up * dt) if real[t] < target[t] else max(target[t], real[t] - down * dt)

    for n, k, d in g.events:
        if k == "move":
            dz = abs(d.z - d.z0)
            dist = (d.length**2 + dz * dz) ** 0.5
            dt = (dist or abs(d.de)) / (d.f / 60) if d.f > 0 else 0
            now += dt
            step(dt)
        elif k == "layer":
            layer = d
        elif k == "layer_count":
            grp += 1
            out = {}
        elif k == "tool":
            if d != tool:
                if target[tool] is not None:  # else it is the start g-code that heated it
                    out[tool] = (now, layer, n)
                coldest[tool] = 1e9
                tool = d
        elif k in ("M104", "M109") and "S" in d:
            t = int(d.get("T", tool))
            if t >= ne:
                continue
            if k == "M109" and t == tool and t in out and real[t] is not None:
                gap, since = now - out[t][0], layer - out[t][1]
                st = F("material_standby_temperature", t)
                full = (P[t] - st) * (1 / up + 1 / down)
                wait = max(0.0, (d["S"] - real[t]) / up)
                low = min(coldest[t], target[t])
                if gap > 1.5 * max(full, window) + 20 and low > st + 5:
                    rep.violation("stays hot while idle", "line %d: extruder %d was not used for %.0f s, standby is %g, it was never set lower than %g: %s" % (n + 1, t, gap, st, low, what))
                if (low > 0 or grp == 1 and groups == 1) and gap < 0.6 * window - 2 and since <= 3 and low < d["S"] - 0.051 and low < F("material_final_print_temperature", t) - 0.051 and low <= st + 0.051:
                    rep.violation("cools for a moment", "line %d: extruder %d was not used for %.0f s and was set to %g: %s" % (n + 1, t, gap, low, what))
                if gap > 20 and since <= 3 and (low > 0 or groups == 1):
                    rep.smax("wait for the nozzle relative to the pause", wait / gap)
                    rep.smax("wait for the nozzle", wait)
                    if wait > 0.25 * gap + 3:
                        rep.violation("not heated in time", "line %d: extruder %d was not used for %.0f s, %.1f s more are needed to heat it: %s" % (n + 1, t, gap, wait, what))
                rep.stat("pauses of extruders judged")
                step(wait)
                now += wait
                out.pop(t)
            if k == "M109" and target[t] is not None:
                real[t] = d["S"]
            target[t] = d["S"]
            coldest[t] = min(coldest[t], d["S"])
            if real[t] is None:
                real[t] = d["S"]


def case(ctx, i, rep):
    rng = random.Random("%d/e05/%d" % (ctx.seed, i))
    job = make(rng)
    g = e2e.slice_job(rep, slicing.cli("rel"), job, 100, crash=False)
    if g is None:
        return
    s, ne = job.settings, len(job.extruders)
    F, B = lambda k, e=None: mon.F(job, k, e), lambda k, e=None: mon.B(job, k, e)
    what = e2e.describe(job)
    flavor = s["machine_gcode_flavor"]
    prepend = B("material_print_temp_prepend") or flavor == "UltiGCode"
    shared = s.get("machine_extruders_share_heater") == "true"
    enabled = s.get("machine_nozzle_temp_enabled") != "false"
    delta = float(s.get("material_delta_temperature_roofing", 0))
    P = [F("material_print_temperature", e) for e in range(ne)]
    P0 = [F("material_print_temperature_layer_0", e) or P[e] for e in range(ne)]
    allowed = []
    for e in range(ne):
        a = [P[e], P0[e]] + [F(k, e) for k in ("material_initial_print_temperature", "material_final_print_temperature") if F(k, e)]
        a += [x + delta for x in (P[e], P0[e])]
        if F("cool_min_layer_time") > 0:
            a.append(F("cool_min_temperature", e))
            a.append(F("cool_min_temperature", e) + delta)
        allowed.append(a)
    if shared:
        allowed = [sum(allowed, [])] * ne
    lo, hi = [min(a) for a in allowed], [max(a) for a in allowed]
    h = Heat(ne, shared)
    commands = [(n, k, d) for n, k, d in g.events if k in ("M104", "M109") or k == "tool"]
    if not enabled:
        bad = [n for n, k, _ in commands if k != "tool"]
        if bad:
            rep.violation("temperature control is off", "line %d sets a nozzle temperature: %s" % (bad[0] + 1, what))
    first = next((m.tool for m in g.moves if mon.printing(m)), None)
    if first is None:
        return
    # what the start g-code or the firmware is trusted to have done
    bed, volume = None, None
    if flavor == "UltiGCode":
        bed = "firmware"
    start = None
    ntool = 0
    tool = 0
    last_use = {}
    selected = set()
    on = 0
    for n, k, d in g.events:
        if k == "tool":
            on = d
            selected.add(d)
        if k == "move" and mon.printing(d):
            last_use[d.tool] = d.n
        elif k in ("move", "tool") and on in last_use:  # selected again without printing anything
            last_use[on] = n
    reported = set()

    def say(key, msg):
        if key not in reported:
            reported.add(key)
            rep.violation(key, msg + ": " + what)

    groups = 0
    raft = s.get("adhesion_type") == "raft"
    commanded = set()
    judged = 0
    layers_min = {}
    grp = 0
    for n, k, d in g.events:
        if k == "layer_count":
            grp += 1
        elif k == "layer":
            layers_min[grp] = min(d, layers_min.get(grp, d))
    lowest = layers_min.get(1, 0)
    grp = 0
    layer = None
    order = 0  # printed layers of this group so far
    since_switch = 0
    single = ne == 1 or len(last_use) == 1
    for n, k, d in g.events:
        if k == "tool":
            tool = d
            since_switch = 0
        elif k == "layer_count":
            grp += 1
            order = 0
        elif k == "layer":
            layer = d
            order += 1
        elif k in ("M104", "M109") and "S" in d:
            t = int(d.get("T", tool))
            if t >= ne:
                say("unknown extruder", "line %d: temperature of extruder %d" % (n + 1, t))
                continue
            if d["S"] > hi[t] + 0.051:
                say("too hot", "line %d: extruder %d is set to %g, it prints at up to %g" % (n + 1, t, d["S"], hi[t]))
            if d["S"] < 0:
                say("negative temperature", "line %d" % (n + 1))
            h.set(t, d["S"], k == "M109", lo)
            commanded.add(t)
        elif k in ("M140", "M190"):
            bed = d.get("S")
        elif k in ("M141", "M191"):
            volume = d.get("S")
        elif k == "move" and mon.printing(d):
            m = d
            t = m.tool
            judged += 1
            if enabled:
                if start is None:
                    start = t
                    if h.target[t] is None:  # left to the start g-code
                        h.set(t, P0[t], True, lo)
                        if prepend and flavor not in ("UltiGCode",) and not shared:
                            say("no temperature", "line %d: extruder %d starts to print and was never heated" % (n + 1, t))
                    elif not (flavor in ("Griffin", "Cheetah") and prepend):
                        h.cold[t] = False  # waiting for the first extruder is an option
                if h.target[t] is None:
                    say("no temperature", "line %d: extruder %d prints and was never heated" % (n + 1, t))
                elif not (lo[t] - 0.051 <= h.target[t] <= hi[t] + 0.051):
                    say("prints cold", "line %d: extruder %d prints at %g, between %g and %g is set" % (n + 1, t, h.target[t], lo[t], hi[t]))
                elif h.cold[t]:
                    say("prints before it is hot", "line %d: extruder %d prints and was not waited for since it was cold" % (n + 1, t))
                if single and not shared and F("cool_min_layer_time") == 0 and layer is not None and h.target[t] is not None:
                    if grp == 1 and order >= 4 and layer >= 2 and min(abs(h.target[t] - P[t]), abs(h.target[t] - P[t] - delta)) > 0.051:
                        say("not the printing temperature", "line %d: layer %d is printed at %g, not at %g" % (n + 1, layer, h.target[t], P[t]))
                    rep.stat("lines judged against the temperature of their layer")
                since_switch += 1
                for o in range(ne):
                    if o != t and not shared and last_use.get(o, -1) < m.n and o in last_use and h.target[o] is not None and h.target[o] > F("material_standby_temperature", o) + 0.051:
                        say("unused extruder stays hot", "line %d: extruder %d isn't used any more and stays at %g" % (n + 1, o, h.target[o]))
                    if o != t and not shared and o not in selected and (h.target[o] or 0) > F("material_standby_temperature", o) + 0.051:
                        say("unused extruder is heated", "line %d: extruder %d isn't used and is at %g" % (n + 1, o, h.target[o]))
            # bed
            if B("machine_heated_bed") and bed != "firmware" and layer is not None:
                b0, b1 = F("material_bed_temperature_layer_0"), F("material_bed_temperature")
                if grp == 1 and layer == lowest:
                    if B("material_bed_temp_prepend") and b0 and bed != b0:
                        say("bed", "line %d: the first layer is printed with a bed at %s, not %g" % (n + 1, bed, b0))
                elif layer > lowest and (grp == 1 or True):
                    was = bed if bed is not None else (b0 if not B("material_bed_temp_prepend") else None)
                    if was != b1:
                        say("bed", "line %d: layer %d is printed with a bed at %s, not %g" % (n + 1, layer, was, b1))
                rep.stat("lines judged against the bed temperature")
    if enabled and not shared and len(last_use) > 1 and s["cool_min_layer_time"] == "0":
        idle(rep, g, job, what, F, P)
    rep.stat("lines judged against nozzle temperatures", judged)
    rep.stat("temperature commands", len(commands))
    if any(x for x in h.target if x):
        if not shared or h.target[tool]:
            say("left on", "at the end the nozzles are left at %s" % h.target)
    if B("machine_heated_bed") and bed not in (None, 0.0, "firmware"):
        say("left on", "at the end the bed is left at %s" % bed)
    if volume:
        say("left on", "at the end the build volume is left at %s" % volume)
    if flavor in ("Griffin", "Cheetah"):
        for e in last_use:
            k = "EXTRUDER_TRAIN.%d.INITIAL_TEMPERATURE" % e
            if k not in g.header:
                say("header", "no initial temperature of extruder %d" % e)
            elif e == first and abs(float(g.header[k]) - P0[e]) > 0.051 and not (lo[e] <= float(g.header[k]) <= hi[e]):
                say("header", "initial temperature of extruder %d is %s, not %g" % (e, g.header[k], P0[e]))
        if B("machine_heated_bed") and abs(float(g.header.get("BUILD_PLATE.INITIAL_TEMPERATURE", -1)) - F("material_bed_temperature_layer_0")) > 0.051:
            say("header", "initial bed temperature is %s" % g.header.get("BUILD_PLATE.INITIAL_TEMPERATURE"))
    rep.eval(g.text[2000:5000])


def run(ctx):
    slicing.cli("rel")
    e2e.run_cases(ctx, 200 if ctx.quick else 9000, case, "jobs")
