"""E09: speeds, accelerations, jerks, fans and minimum layer times: every line is printed as its feature, its layer and the time of its layer demand."""
import math
import random

import e2e
import models
import mon
import slicing

SPEEDS = {
    "WALL-OUTER": ["wall_0", "wall_0_roofing", "wall_0_flooring"],
    "WALL-INNER": ["wall_x", "wall_x_roofing", "wall_x_flooring"],
    "SKIN": ["topbottom", "roofing", "flooring", "ironing"],
    "FILL": ["infill"],
    "SUPPORT": ["support_infill"],
    "SUPPORT-INTERFACE": ["support_roof", "support_bottom"],
    "PRIME-TOWER": ["prime_tower"],
    "SKIRT": ["skirt_brim"],
}
ALL = sorted({k for v in SPEEDS.values() for k in v})


def make(rng):
    R = rng.choice
    s = e2e.anything(rng)
    for k in list(s):
        if k.startswith(("bridge_", "scarf_", "wall_overhang", "small_feature", "coasting_", "wall_0_start", "wall_0_end", "wall_0_accel", "wall_0_decel", "gradual_flow", "cool_", "acceleration_", "jerk_", "support_fan", "support_supported", "magic_spiralize", "machine_gcode", "clean_between")):
            s.pop(k)
    s["machine_gcode_flavor"] = R(["RepRap (Marlin/Sprinter)"] * 3 + ["Griffin", "RepRap (RepRap)"])
    if s["infill_pattern"] == "lightning" and 0 < float(s["infill_line_distance"]) < 1:
        s["infill_line_distance"] = "1"  # dense lightning in large models takes minutes
    s["speed_equalize_flow_width_factor"] = "0"
    ne = R([1, 1, 1, 2])
    base = {"speed": [5, 15, 20, 30, 45, 60, 100, 150], "acceleration": [200, 500, 1000, 3000], "jerk": [3, 5, 8, 20]}
    acc, jerk = rng.random() < 0.4, rng.random() < 0.4
    s["acceleration_enabled"], s["jerk_enabled"] = str(acc).lower(), str(jerk).lower()
    s["acceleration_travel_enabled"], s["jerk_travel_enabled"] = R(["true", "false"]), R(["true", "false"])
    for kind in ("speed", "acceleration", "jerk"):
        for k in ALL + ["travel", "travel_layer_0", "print_layer_0"]:
            name = "skirt_brim_speed" if (kind, k) == ("speed", "skirt_brim") else "%s_%s" % (kind, k)
            s[name] = str(R(base[kind]) + (100 if (kind, k) == ("speed", "travel") else 0) + R([0, 1, 2]))
        for k in ("raft_base", "raft_interface", "raft_surface"):
            s["%s_%s" % (k, kind)] = str(R(base[kind]))
    s["speed_slowdown_layers"] = str(R([0, 1, 2, 4]))
    s["cool_fan_enabled"] = R(["true", "true", "true", "false"])
    s["cool_fan_speed_0"], s["cool_fan_speed_min"] = R(["0", "30"]), R(["20", "50", "100"])
    s["cool_fan_speed_max"] = R([s["cool_fan_speed_min"], "100"])
    s["cool_fan_full_layer"] = R(["0", "1", "2", "4", "7"])
    s["cool_min_layer_time"] = R(["0", "0", "2", "5", "10", "20", "40"])
    s["cool_min_layer_time_fan_speed_max"] = str(float(s["cool_min_layer_time"]) + R([0, 0, 5, 15]))
    s["cool_min_layer_time_overhang"] = s["cool_min_layer_time"]
    s["cool_min_speed"] = R(["1", "4", "10", "25"])
    s["cool_lift_head"] = R(["false", "false", "true"])
    s["machine_scale_fan_speed_zero_to_one"] = R(["false", "false", "true"])
    for k in ("raft_base", "raft_interface", "raft_surface"):
        s[k + "_fan_speed"] = R(["0", "40", "75"])
    if rng.random() < 0.2:
        s["small_feature_max_length"] = R(["5", "20"])
        s["small_feature_speed_factor"], s["small_feature_speed_factor_0"] = R(["50", "80"]), R(["50", "70"])
    if ne > 1:
        if rng.random() < 0.5:
            s.update({"prime_tower_enable": "true", "prime_tower_position_x": "165", "prime_tower_position_y": "165"})
        for k in ("infill_extruder_nr", "wall_0_extruder_nr", "top_bottom_extruder_nr", "support_extruder_nr", "support_infill_extruder_nr"):
            if rng.random() < 0.2:
                s[k] = str(rng.randrange(ne))
    meshes = [(models.random_model(rng, parts=(1, 2), size=(2, R([4, 14, 25])), height=(0.4, 2.5)), {}, k % ne) for k in range(R([1, ne]))]
    return slicing.Job(meshes, s, [{} for _ in range(ne)], threads=R([1, 2]))


def case(ctx, i, rep):
    rng = random.Random("%d/e09/%d" % (ctx.seed, i))
    job = make(rng)
    g = e2e.slice_job(rep, slicing.cli("rel"), job, 100, crash=False)
    if g is None:
        return
    judge(rep, g, job)
    rep.eval(g.text[2000:5000])


def judge(rep, g, job):
    what = e2e.describe(job)
    F, B = lambda k, e=None: mon.F(job, k, e), lambda k, e=None: mon.B(job, k, e)
    ne = len(job.extruders)
    N = int(F("speed_slowdown_layers"))
    small = F("small_feature_max_length") > 0
    raft = mon.S(job, "adhesion_type") == "raft"
    flavor = mon.S(job, "machine_gcode_flavor")
    reported = set()

    def say(key, msg):
        if key not in reported:
            reported.add(key)
            rep.violation(key, msg + ": " + what)

    def smooth(kind, v, v0, n):
        return v * n / N + min(v, v0) * (N - n) / N if 0 <= n < N else v

    def allowed(kind, typ, n):
        if typ == "SKIRT":
            return [F("skirt_brim_speed" if kind == "speed" else "%s_skirt_brim" % kind)]
        v0 = F("%s_print_layer_0" % kind)
        r = [smooth(kind, F("%s_%s" % (kind, k)), v0, n) for k in SPEEDS[typ]]
        if raft and n < 0:
            if typ == "SUPPORT":
                r.append(F("raft_interface_" + kind))
            elif typ == "SUPPORT-INTERFACE":
                r += [F("raft_base_" + kind), F("raft_surface_" + kind)]
        return r

    def near(v, options, tol):
        return any(abs(v - o) <= tol for o in options)

    cool = {e: F("cool_min_layer_time", e) for e in range(ne)}
    maxcool = F("cool_min_layer_time")
    minspeed = F("cool_min_speed")
    scale = 1.0 if B("machine_scale_fan_speed_zero_to_one") else 255.0
    fan_on = B("cool_fan_enabled")
    f0, fmin, fmax = [F("cool_fan_speed_" + k) if fan_on else 0.0 for k in ("0", "min", "max")]
    full = int(F("cool_fan_full_layer")) - 1  # the first layer is number 1 there
    acc_on, jerk_on = B("acceleration_enabled"), B("jerk_enabled")

    def first_fan(n):
        return f0 + (fmin - f0) * max(0, n) / full if n < full and full > 0 else fmin

    cache = {}
    state = dict(fan=None, acc=None, tacc=None, jerk=None)
    layers = []
    cur = None
    at = last_print = (0.0, 0.0)
    tool = last_tool = 0
    for n, k, d in g.events:
        if k == "layer":
            # the way from the layer below belongs to the layer, though it's written before it
            before = None
            moved = bool(layers) and last_tool != tool
            if layers and layers[-1]["lines"]:
                before = math.dist(last_print, at) / smooth("speed", F("speed_travel"), F("speed_travel_layer_0"), d)
            cur = dict(n=d, time=0.0, own=0.0, still=0.0, delay=0.0, lines=[], tools=[], line=n, before=before, moved=moved)
            layers.append(cur)
        elif k == "tool":
            tool = d
            if cur is not None:
                cur["moved"] = True
        elif k in ("G10", "G11") and cur is not None:  # the firmware retracts
            dt = F("retraction_amount", tool) / F("retraction_retract_speed" if k == "G10" else "retraction_prime_speed", tool)
            cur["time"] += dt
            cur["still"] += dt
        elif k == "M106":
            state["fan"] = d.get("S", 255.0) / scale * 100 if not d.get("P") else state["fan"]
        elif k == "M107":
            state["fan"] = 0.0
        elif k == "M204":
            if "S" in d:
                state["acc"] = state["tacc"] = d["S"]
            if "P" in d:
                state["acc"] = d["P"]
            if "T" in d:
                state["tacc"] = d["T"]
        elif k == "M205":
            state["jerk"] = d.get("X")
        elif k == "other" and d.startswith("M566"):
            state["jerk"] = float(d.split()[1][1:]) / 60
        elif k == "other" and d.startswith("G4") and cur is not None:
            w = d.split()[1]
            cur["delay"] += float(w[1:]) / (1000 if w[0] == "P" else 1)
        elif k == "move" and cur is not None:
            m = d
            dz = m.z - m.z0
            length = (m.length**2 + dz * dz) ** 0.5
            if m.g == "G0" and m.de and cur["before"] is not None:
                cur["before"] = None  # times of retractions during travels aren't known
            if m.f > 0:
                dt = (length or abs(m.de)) / (m.f / 60)
                cur["time"] += dt
                if m.length == 0:
                    cur["still"] += dt
            at = (m.x, m.y)
            if m.typ is None:
                continue
            key = (m.typ, m.layer)
            if mon.printing(m):
                last_print, last_tool = at, m.tool
                cur["own"] = cur["time"]
                if key not in cache:
                    cache[key] = {q: allowed(q, m.typ, m.layer) for q in ("speed", "acceleration", "jerk")}
                c = cache[key]
                v = m.f / 60
                cur["lines"].append((m, v, state["fan"], max(c["speed"])))
                if not cur["tools"] or cur["tools"][-1] != m.tool:
                    cur["tools"].append(m.tool)
                if maxcool == 0 and not small:
                    if not near(v, c["speed"], 0.01 + 0.001 * v):
                        say("speed of %s" % m.typ, "line %d: layer %d is printed at %.2f mm/s, not at %s" % (m.n + 1, m.layer, v, c["speed"]))
                    rep.stat("lines judged against exactly one of the set speeds")
                top = max(c["speed"])
                if v > top * 1.001 + 0.01:
                    say("too fast: %s" % m.typ, "line %d: layer %d is printed at %.2f mm/s, %s is set" % (m.n + 1, m.layer, v, c["speed"]))
                if acc_on and state["acc"] is not None:
                    if not near(state["acc"], c["acceleration"], 0.51):
                        say("acceleration of %s" % m.typ, "line %d: layer %d is printed with acceleration %g, not %s" % (m.n + 1, m.layer, state["acc"], c["acceleration"]))
                    rep.stat("lines judged against accelerations")
                elif acc_on:
                    say("no acceleration", "line %d" % (m.n + 1))
                if jerk_on and state["jerk"] is not None:
                    if not near(state["jerk"], c["jerk"], 0.011):
                        say("jerk of %s" % m.typ, "line %d: layer %d is printed with jerk %g, not %s" % (m.n + 1, m.layer, state["jerk"], c["jerk"]))
                    rep.stat("lines judged against jerks")
                elif jerk_on:
                    say("no jerk", "line %d" % (m.n + 1))
            elif m.g == "G0" and m.length > 0.02 and m.de == 0 and dz == 0:
                n0 = cur["n"]
                t = smooth("speed", F("speed_travel"), F("speed_travel_layer_0"), n0)
                v = m.f / 60
                if not near(v, [t], 0.01 + 0.001 * v):
                    say("speed of travels", "line %d: layer %d: travels at %.2f mm/s, not at %.2f" % (m.n + 1, n0, v, t))
                rep.stat("travels judged against their speed")
                if acc_on and B("acceleration_travel_enabled") and state["tacc"] is not None:
                    t = smooth("acceleration", F("acceleration_travel"), F("acceleration_travel_layer_0"), n0)
                    if abs(state["tacc"] - t) > 0.51:
                        say("acceleration of travels", "line %d: layer %d: travels with acceleration %g, not %g" % (m.n + 1, n0, state["tacc"], t))
        elif k == "elapsed":
            cur = None
    if acc_on is False:
        bad = [n for n, k, d in g.events if k == "M204"]
        if bad:
            say("acceleration control is off", "line %d" % (bad[0] + 1))
    last = max((l["n"] for l in layers), default=0)
    for l in layers:
        n, lines = l["n"], l["lines"]
        if not lines:
            continue
        used = set(l["tools"])
        need = max(cool[t] for t in used)
        # where the head comes from isn't known after empty layers and switches
        first = l["before"] is None or l["moved"]
        T = l["time"] + l["delay"] + (l["before"] or 0)
        final = max(used)
        ruled = [x for x in lines if x[0].tool == final]
        slowest = min(min(cache[(x[0].typ, x[0].layer)]["speed"]) for x in ruled)
        slow = [x for x in ruled if x[1] < min(minspeed, slowest * (0.5 if small else 1)) * 0.999 - 0.01]
        if slow:
            say("too slow", "line %d: layer %d is printed at %.2f mm/s, not slower than %g is set" % (slow[0][0].n + 1, n, slow[0][1], minspeed))
        if need > 0 and not first and len(used) == 1 and T < need * 0.98 - 0.15:
            fast = [x for x in ruled if x[1] > minspeed * 1.001 + 0.01 and x[0].length > 0.05]
            if fast:
                say("minimum layer time", "line %d: layer %d takes %.2f s, not %g s, and is printed at %.2f mm/s" % (l["line"] + 1, n, T, need, fast[0][1]))
            elif B("cool_lift_head") and mon.B(job, "cool_lift_head", final):
                say("minimum layer time", "line %d: layer %d takes %.2f s, not %g s, in spite of lifting the head" % (l["line"] + 1, n, T, need))
        if need > 0:
            rep.stat("layers judged against the minimum layer time")
            if T < need * 1.02:
                rep.stat("layers slowed down or delayed for the minimum layer time")
        if need > 0 and not l["delay"] and T > need * 1.05 + 0.5 and maxcool == need:
            # slowed down although it isn't needed, or more than is needed?
            rep.smax("layer time relative to its minimum where lines are slowed", T / need if any(x[1] < slowest * 0.98 for x in ruled) else 0)
        # fans
        a = first_fan(n)
        top = F("cool_min_layer_time_fan_speed_max")
        tol = 0.05 * T + 0.4 + (2.5 if first else 0)
        for m, v, fan, _ in lines:
            if raft and n < 0:
                ok = {F(k + "_fan_speed") for k in ("raft_base", "raft_interface", "raft_surface")} | {0.0, f0, fmin, fmax}  # blended by the time of the layer
                if fan is None or not min(ok) - 0.6 <= fan <= max(ok) + 0.6:
                    say("fan of rafts", "line %d: layer %d is cooled with %s %%" % (m.n + 1, n, fan))
                continue
            t = T - l["delay"]  # the estimate doesn't know delays
            t0 = t - (l["time"] - l["own"]) - l["still"]  # nor the way to the next layer, nor hops
            lo = hi = None

            def fan_at(t):
                if top == need:
                    return fmax if t < need else a
                q = min(1.0, max(0.0, (t - need) / (top - need)))
                return fmax + (a - fmax) * q

            if top == need:
                opts = [a]
            else:
                x, y = fan_at(t0 - tol), fan_at(t + tol)
                opts = None
                lo, hi = min(x, y) - 0.6, max(x, y) + 0.6
            if len(used) > 1 or m.tool != final or slowest < minspeed:
                lo, hi, opts = min(a, fmax) - 0.6, max(a, fmax) + 0.6, None
            if fan is None:
                say("no fan", "line %d: nothing is told to the fan" % (m.n + 1))
            elif opts is not None and not near(fan, opts, 0.6) or opts is None and not lo <= fan <= hi:
                say("fan", "line %d: layer %d (%.1f s) is cooled with %.1f %%, not %s" % (m.n + 1, n, t, fan, opts or "%.1f-%.1f" % (lo, hi)))
            rep.stat("lines judged against fan speeds")


def run(ctx):
    slicing.cli("rel")
    e2e.run_cases(ctx, 200 if ctx.quick else 9000, case, "jobs")
