"""E10: extruders: every feature is printed by the extruder it is assigned to, switches follow the protocol with their g-code, and the prime tower comes first after them."""
import math
import random

import e2e
import models
import mon
import slicing

FLAVORS = ["RepRap (Marlin/Sprinter)"] * 4 + ["Griffin", "RepRap (RepRap)", "Repetier"]
GROUP_KEYS = ["support_extruder_nr_layer_0", "support_infill_extruder_nr", "support_roof_extruder_nr", "support_bottom_extruder_nr", "raft_base_extruder_nr", "raft_interface_extruder_nr", "raft_surface_extruder_nr", "skirt_brim_extruder_nr"]
MESH_KEYS = ["wall_0_extruder_nr", "wall_x_extruder_nr", "infill_extruder_nr", "top_bottom_extruder_nr", "roofing_extruder_nr", "flooring_extruder_nr"]
CENTRE = 100.0


def make(rng):
    R = rng.choice
    s = e2e.anything(rng)
    for k in "adaptive_layer_height_enabled magic_spiralize mold_enabled cool_min_layer_time cool_min_speed conical_overhang_enabled machine_gcode_flavor magic_mesh_surface_mode".split():
        s.pop(k, None)
    for k in list(s):
        if k.startswith(("draft_shield", "ooze_shield", "prime_tower")):
            s.pop(k)
    s["machine_gcode_flavor"] = R(FLAVORS)
    ne = R([1, 2, 2, 2, 3, 4])
    for k in GROUP_KEYS:
        s[k] = str(rng.randrange(ne)) if rng.random() < 0.3 else "-1" if k == "skirt_brim_extruder_nr" else "0"
    for k in MESH_KEYS:
        s[k] = str(rng.randrange(ne)) if rng.random() < 0.15 else "-1"
    if rng.random() < 0.3:
        s["roofing_layer_count"] = "1"
    if rng.random() < 0.2:
        s["flooring_layer_count"] = "1"
    if ne > 1 and rng.random() < 0.7:
        s.update({"prime_tower_enable": "true", "prime_tower_position_x": "165", "prime_tower_position_y": "150", "prime_tower_mode": R(["normal", "interleaved"])})
        s["prime_tower_size"] = R(["12", "20", "30"])
        s["prime_tower_brim_enable"] = R(["true", "false"])
        s["prime_tower_base_size"], s["prime_tower_base_height"] = R(["0", "4"]), R(["0", "1.2"])
        s["prime_tower_wipe_enabled"] = R(["true", "false"])
        s["prime_tower_max_bridging_distance"] = R(["2", "5"])
    if rng.random() < 0.3:
        s["relative_extrusion"] = "true"
    s["machine_start_gcode_first"] = R(["true", "false"])
    s["machine_start_gcode"] = "M117 begin\nM117 more ;of it"
    s["machine_end_gcode"] = R(["M117 done", "M117 done\nM84"])
    extr = []
    for e in range(ne):
        x = {"prime_tower_min_volume": R(["1", "4", "8"]), "prime_tower_line_width": R(["0.4", "0.5"])}
        if rng.random() < 0.8:
            x["machine_extruder_start_code"] = "M117 start%d" % e
        if rng.random() < 0.8:
            x["machine_extruder_end_code"] = "M117 end%d" % e
        if rng.random() < 0.5:
            x["machine_extruder_prestart_code"] = "M117 pre%d" % e
        if rng.random() < 0.3:
            x["machine_nozzle_offset_x"], x["machine_nozzle_offset_y"] = R(["0", "18", "-3.5"]), R(["0", "2.25"])
        extr.append(x)
    if ne == 1:
        s["prime_tower_enable"] = "false"
    meshes = []
    for k in range(R([1, ne, ne])):
        ms = {}
        for key in MESH_KEYS:
            if rng.random() < 0.1:
                ms[key] = str(rng.randrange(ne))
        if rng.random() < 0.5:
            ms["mesh_position_x"], ms["mesh_position_y"] = str(rng.randrange(-30, 31)), str(rng.randrange(-30, 31))
        meshes.append((models.random_model(rng, parts=(1, 1), size=(2, R([4, 12])), height=(0.4, R([1.5, 4.0]))), ms, rng.randrange(ne)))
    return slicing.Job(meshes, s, extr, threads=R([1, 2]))


def case(ctx, i, rep):
    rng = random.Random("%d/e10/%d" % (ctx.seed, i))
    job = make(rng)
    g = e2e.slice_job(rep, slicing.cli("rel"), job, 100, crash=False)
    if g is None:
        return
    what = e2e.describe(job)
    seen = set()

    def say(key, msg):
        if key not in seen:
            seen.add(key)
            rep.violation(key, msg + ": " + what)

    protocol(rep, g, job, say)
    assigned(rep, g, job, say)
    order(rep, g, job, say)
    tower(rep, g, job, say)
    rep.eval(g.text[2000:5000])


def protocol(rep, g, job, say):
    """End code of the old extruder, start codes of the new one around its T, each once per switch, all in absolute mode; nothing prints in between."""
    ne = len(job.extruders)
    rel = mon.B(job, "relative_extrusion")
    code = lambda e, k: mon.S(job, "machine_extruder_%s_code" % k, e)
    lines = g.text.split("\n")

    def opt(e, k, tag):
        return ["M117 %s%d" % (tag, e)] if code(e, k) else []

    def switches(rest, tool):
        """The extruder after the switches that these codes make up, or None if they don't."""
        n = 0
        while rest:
            ts = [x for x in rest if x[0] == "T"]
            if not ts:
                return None
            new = int(ts[0][1:])
            w = opt(tool, "end", "end") + opt(new, "prestart", "pre") + [ts[0]] + opt(new, "start", "start")
            if new == tool or rest[: len(w)] != w:
                return None
            rest, tool = rest[len(w) :], new
            rep.stat("switches followed")
        return tool

    def begin(rest):
        lead = 0  # tools may be selected to heat them first
        while lead < len(rest) and rest[lead][0] == "T":
            lead += 1
        last = [int(x[1:]) for x in rest if x[0] == "T"]
        for k in range(lead + 1):
            for s in range(ne):
                w = opt(s, "prestart", "pre") + (["T%d" % s] if s else []) + opt(s, "start", "start")
                if rest[k : k + len(w)] == w:
                    t = switches(rest[k + len(w) :], s)
                    if t is not None and (not last or t == last[-1]):
                        return t
        return None

    tool, mode, begun, done, got = None, None, 0, 0, []
    for n, line in enumerate(lines):
        c = line.split(";")[0].strip()
        if not c:
            continue
        if c in ("M117 begin", "M117 more"):
            begun += 1
            if line != ("M117 begin" if begun % 2 else "M117 more ;of it"):
                say("start g-code changed", "line %d: %r" % (n + 1, line))
        elif c == "M117 done":
            done += 1
            if tool is not None:
                ok = False  # there may be switches after the last line
                for e in range(ne):
                    w = opt(e, "end", "end")
                    if not w or got[-1:] == w:
                        if switches(got[: len(got) - len(w)], tool) == e:
                            ok = True
                if not ok:
                    say("end code", "line %d: %s at the end of extruder %d" % (n + 1, got, tool))
            got = []
        elif c.startswith("M117"):
            if done:
                say("code after the end", "line %d: %s" % (n + 1, c))
            if rel and mode != "M82":
                say("extruder code in relative mode", "line %d: %s" % (n + 1, c))
            got.append(c)
        elif c in ("M82", "M83"):
            mode = c
        elif c[0] == "T" and c[1:].isdigit():
            got.append(c)
        elif c.startswith(("G0 ", "G1 ")):
            if begun != 2:
                say("moves before the start g-code", "line %d" % (n + 1))
            if done:
                say("moves after the end g-code", "line %d" % (n + 1))
            if c.startswith("G1 ") and "E" in c and ("X" in c or "Y" in c):
                if tool is None:
                    tool = begin(got)
                    if tool is None:
                        say("start of the first extruder", "line %d: %s" % (n + 1, got))
                        return
                elif got:
                    t = switches(got, tool)
                    if t is None:
                        say("codes of a switch", "line %d: %s after extruder %d" % (n + 1, got, tool))
                        return
                    tool = t
                got = []
                if rel and mode != "M83":
                    say("printed in absolute mode", "line %d" % (n + 1))
    if begun != 2:
        say("start g-code", "the start g-code appears %g times" % (begun / 2))
    if done != 1:
        say("end g-code", "the end g-code appears %d times" % done)
    rep.stat("prints followed from start to end")


def assigned(rep, g, job, say):
    ne = len(job.extruders)
    G = lambda k: max(0, int(mon.S(job, k)))

    def M(i, key):
        _, ms, ex = job.meshes[i]
        v = int(ms.get(key, job.extruders[ex].get(key, mon.S(job, key))))
        return ex if v < 0 else v

    raft = mon.S(job, "adhesion_type") == "raft"
    cache = {}
    for m in g.moves:
        if m.layer is None or not mon.printing(m) or m.typ is None:
            continue
        k = (m.typ, m.mesh, (m.layer > 0) - (m.layer < 0), m.tool)
        if k in cache:
            continue
        mesh = int(m.mesh[1:].split(".")[0]) if m.mesh and m.mesh[0] == "m" and m.mesh[1:2].isdigit() else None
        ok = None
        if m.typ in ("SUPPORT", "SUPPORT-INTERFACE"):
            ok = {G("support_infill_extruder_nr") if m.layer > 0 else G("support_extruder_nr_layer_0")} if m.typ == "SUPPORT" else {G("support_roof_extruder_nr"), G("support_bottom_extruder_nr")}
            if raft and m.layer < 0:
                ok |= {G(q) for q in ("raft_base_extruder_nr", "raft_interface_extruder_nr", "raft_surface_extruder_nr")}
        elif m.typ == "SKIRT":
            e = int(mon.S(job, "skirt_brim_extruder_nr"))
            ok = {e, G("support_infill_extruder_nr"), G("support_extruder_nr_layer_0")} if e >= 0 and not mon.B(job, "prime_tower_enable") else None
        elif mesh is not None:
            ok = {
                "WALL-OUTER": {"wall_0_extruder_nr"},
                "WALL-INNER": {"wall_x_extruder_nr", "wall_0_extruder_nr"},
                "SKIN": {"top_bottom_extruder_nr", "roofing_extruder_nr", "flooring_extruder_nr"},
                "FILL": {"infill_extruder_nr"},
            }.get(m.typ)
            if ok:
                ok = {M(mesh, q) for q in ok}
        if ok is not None and m.tool not in ok:
            say("%s by the wrong extruder" % m.typ, "line %d: layer %d: %s of %s is printed by extruder %d, not %s" % (m.n + 1, m.layer, m.typ, m.mesh, m.tool, sorted(ok)))
        cache[k] = True
        rep.stat("kinds of features judged against their extruder")


def order(rep, g, job, say):
    """On a layer every extruder is used once, and the one of the layer below goes on."""
    layer, used, prev = None, [], None
    by = {}
    for m in g.moves:
        if m.layer is not None and mon.printing(m):
            t = by.setdefault(m.layer, [])
            if not t or t[-1] != m.tool:
                t.append(m.tool)
    for n in sorted(by):
        t = by[n]
        if len(set(t)) != len(t):
            say("switching back", "layer %d is printed with the extruders %s in turns" % (n, t))
        if prev is not None and prev in t and t[0] != prev:
            say("needless switch", "layer %d starts with extruder %d, not with %d which is hot and needed" % (n, t[0], prev))
        prev = t[-1]
        rep.stat("layers judged for the order of extruders")


def tower(rep, g, job, say):
    if not mon.B(job, "prime_tower_enable"):
        if any(m.typ == "PRIME-TOWER" for m in g.moves):
            say("tower where none is wanted", "")
        return
    ne = len(job.extruders)
    size = mon.F(job, "prime_tower_size")
    r = size / 2
    cx, cy = mon.F(job, "prime_tower_position_x") - r, mon.F(job, "prime_tower_position_y") + r
    base = mon.F(job, "prime_tower_base_size") if mon.B(job, "prime_tower_brim_enable") else 0.0
    bh = mon.F(job, "prime_tower_base_height") if mon.B(job, "prime_tower_brim_enable") else 0.0
    off = [(mon.F(job, "machine_nozzle_offset_x", e), mon.F(job, "machine_nozzle_offset_y", e)) for e in range(ne)]
    volume = sum(mon.F(job, "prime_tower_min_volume", e) for e in range(ne))
    lh = mon.F(job, "layer_height")
    ample = math.pi * r * r * lh > volume * 1.5 + 2
    tools = {m.tool for m in g.moves if m.layer is not None and mon.printing(m) and m.typ != "PRIME-TOWER"}
    blocks = []
    for m in g.moves:
        if m.layer is None or not mon.printing(m):
            continue
        if not blocks or blocks[-1]["tool"] != m.tool or blocks[-1]["layer"] != m.layer:
            blocks.append(dict(tool=m.tool, layer=m.layer, parts=[], first=m, vol=0.0, before=False))
        b = blocks[-1]
        if m.typ == "PRIME-TOWER":
            for x, y in ((m.x0, m.y0), (m.x, m.y)):
                d = math.hypot(x + off[m.tool][0] - cx, y + off[m.tool][1] - cy)
                if d > r + base + 0.02:
                    say("outside of the tower", "line %d: layer %d: the prime tower is printed %.2f mm from its centre" % (m.n + 1, m.layer, d))
                elif d > r + 0.02 and m.layer * lh > bh + lh:
                    say("base too high", "line %d: layer %d: the prime tower is printed %.2f mm from its centre" % (m.n + 1, m.layer, d))
                rep.smax("distance from the centre of the tower", d)
            if any(p not in ("SKIRT", "PRIME-TOWER") for p in b["parts"]):
                b["before"] = True
            b["vol"] += m.de * mon.area(job, m.tool) if not mon.volumetric(job) else m.de
        if not b["parts"] or b["parts"][-1] != m.typ:
            b["parts"].append(m.typ)
    if len(tools) < 2:
        return
    top = max((b["layer"] for i, b in enumerate(blocks) if i and blocks[i - 1]["tool"] != b["tool"]), default=None)
    prev = None
    raft = mon.S(job, "adhesion_type") == "raft"
    for b in blocks:
        if prev is not None and prev["tool"] != b["tool"]:
            if set(b["parts"]) == {"SKIRT"} or raft and b["layer"] < 0:
                pass
            elif "PRIME-TOWER" not in b["parts"]:
                say("not primed", "line %d: layer %d: extruder %d prints %s after %d without priming on the tower" % (b["first"].n + 1, b["layer"], b["tool"], b["parts"], prev["tool"]))
            else:
                if b["before"]:
                    say("primed late", "line %d: layer %d: extruder %d prints %s" % (b["first"].n + 1, b["layer"], b["tool"], b["parts"]))
                need = mon.F(job, "prime_tower_min_volume", b["tool"])
                if ample and b["vol"] < need * 0.93 - 0.05:
                    say("too little priming", "line %d: layer %d: extruder %d primes %.2f mm3, not %.2f" % (b["first"].n + 1, b["layer"], b["tool"], b["vol"], need))
                rep.stat("primings after a switch judged")
        prev = b
    # the tower never hangs in the air
    layers = {b["layer"] for b in blocks if "PRIME-TOWER" in b["parts"]}
    every = sorted({b["layer"] for b in blocks})
    if layers:
        gaps = [n for n in every if min(every) <= n < max(layers) and n not in layers and not (raft and n < 0)]
        if gaps:
            say("gap in the tower", "no prime tower on layer %s, but on %d" % (gaps[:3], max(layers)))


def run(ctx):
    slicing.cli("rel")
    e2e.run_cases(ctx, 200 if ctx.quick else 9000, case, "jobs")
