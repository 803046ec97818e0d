"""Monitors of g-code: each judges one rule over every line of one slice, given only the g-code and the job's settings."""
import math
import re

import slicing

TYPES = {"WALL-OUTER", "WALL-INNER", "SKIN", "FILL", "SUPPORT", "SUPPORT-INTERFACE", "SKIRT", "PRIME-TOWER"}
NUM = re.compile(r"-?(\d+(\.\d{1,5})?|\.\d{1,5})$")
COORD = re.compile(r"-?(\d+(\.\d{1,3})?|\.\d{1,3})$")


def S(job, key, extruder=None):
    """A setting as the extruder (or the whole scene) sees it."""
    if extruder is not None and extruder < len(job.extruders) and key in job.extruders[extruder]:
        return job.extruders[extruder][key]
    return str(job.settings.get(key, slicing.DEFAULTS[key]))


def F(job, key, extruder=None):
    return float(S(job, key, extruder))


def B(job, key, extruder=None):
    return S(job, key, extruder).lower() in ("true", "on", "yes") or S(job, key, extruder) not in ("0", "") and S(job, key, extruder).isdigit()


def standard(job):
    """A flavour whose g-code the interpreter understands fully."""
    return S(job, "machine_gcode_flavor") not in ("BFB", "MakerBot")


def area(job, extruder):
    d = F(job, "material_diameter", extruder)
    return math.pi * d * d / 4


def volumetric(job):
    return S(job, "machine_gcode_flavor") in ("UltiGCode", "RepRap (Volumetric)")


def printing(m):
    """Lays down material. (Travel moves may get E words too, to retract or prime on the way.)"""
    return m.de > 0 and m.g == "G1" and (m.x != m.x0 or m.y != m.y0)


# ---- E01 -------------------------------------------------------------------------------------------------------------


def wellformed(rep, g, job, inside=True):
    lines = g.text.split("\n")
    for n, line in g.errors[:3]:
        rep.violation("unreadable line", "line %d: %r" % (n + 1, line))
    count, seen, last = None, 0, None
    for n, kind, data in g.events:
        if kind == "layer_count":
            if count is not None and not (seen == count):
                rep.violation("layer count", "%d layers announced, %d written" % (count, seen))
            count, seen, last = data, 0, None
        elif kind == "layer":
            if count is None:
                rep.violation("layer order", "line %d: a layer before the number of layers" % (n + 1))
            if last is not None and data != last + 1 and not (last < 0 and data == 0):
                rep.violation("layer order", "line %d: layer %d follows layer %d" % (n + 1, data, last))
            if last is None and data > 0:
                rep.violation("layer order", "line %d: the first layer is %d" % (n + 1, data))
            last = data
            if data >= 0:
                seen += 1
        elif kind == "type" and data not in TYPES:
            rep.violation("feature comment", "line %d: unknown feature %r" % (n + 1, data))
    if count is not None and seen != count:
        rep.violation("layer count", "%d layers announced, %d written" % (count, seen))
    for m in g.moves:
        words = lines[m.n].split(" ")
        for w in words[1:]:
            if not (COORD if w[0] in "XYZ" else NUM).match(w[1:]):
                rep.violation("number format", "line %d: %r" % (m.n + 1, lines[m.n]))
                break
        if len({w[0] for w in words[1:]}) != len(words) - 1:
            rep.violation("number format", "line %d: a word appears twice: %r" % (m.n + 1, lines[m.n]))
        if m.f <= 0 and printing(m):
            rep.violation("feed rate", "line %d: %r moves at feed rate %g" % (m.n + 1, lines[m.n], m.f))
        if printing(m):
            if m.typ is None or m.layer is None:
                rep.violation("feature comment", "line %d: material is laid down before any layer and feature comment" % (m.n + 1))
            if inside and not (0 <= m.x <= 200 and 0 <= m.y <= 200 and 0 < m.z <= 200):
                rep.violation("build volume", "line %d: prints outside of the build volume: %r" % (m.n + 1, lines[m.n]))
    rep.stat("moves judged", len(g.moves))
    rep.stat("layers judged", len(g.layers))


# ---- E02 -------------------------------------------------------------------------------------------------------------


def header(rep, g, job):
    h = g.header
    griffin = "PRINT.TIME" in h
    total = float(h["PRINT.TIME"] if griffin else h["TIME"])
    elapsed = [d for _, k, d in g.events if k == "elapsed"]
    for a, b in zip(elapsed, elapsed[1:]):
        if b < a - 1e-6:
            rep.violation("time goes back", "elapsed time %g after %g" % (b, a))
    if elapsed and not (elapsed[-1] - 1.01 - 1e-4 * elapsed[-1] <= total <= elapsed[-1] + 2 + F(job, "retraction_amount") / 5):
        rep.violation("total time", "the header says %g s, the last layer ends at %g s" % (total, elapsed[-1]))
    # filament
    if not B(job, "machine_firmware_retract"):
        used = {}
        for m in g.moves:
            used[m.tool] = used.get(m.tool, 0) + m.de
        got = {}
        vol = volumetric(job)
        if griffin:
            for k, v in h.items():
                q = re.match(r"EXTRUDER_TRAIN\.(\d+)\.MATERIAL\.VOLUME_USED$", k)
                if q:
                    got[int(q.group(1))] = (float(v) / (1 if vol else area(job, int(q.group(1)))), 1.01 / area(job, int(q.group(1))))
        elif "Filament used" in h:
            for i, v in enumerate(h["Filament used"].split(",")):
                v = v.strip()
                if v.endswith("mm3"):
                    got[i] = (float(v[:-3]), 1e-4 * abs(float(v[:-3])) + 0.001)
                else:
                    got[i] = (float(v[:-1]) * 1000, 1e-4 * abs(float(v[:-1]) * 1000) + 0.01)
        elif "MATERIAL" in h:
            got[0] = (float(h["MATERIAL"]), 1.01)
            got[1] = (float(h.get("MATERIAL2", 0)), 1.01)
        return used, got
    return None, None


def box(rep, g, job):
    h = g.header
    names = [("MINX", "PRINT.SIZE.MIN.X"), ("MINY", "PRINT.SIZE.MIN.Y"), ("MINZ", "PRINT.SIZE.MIN.Z"), ("MAXX", "PRINT.SIZE.MAX.X"), ("MAXY", "PRINT.SIZE.MAX.Y"), ("MAXZ", "PRINT.SIZE.MAX.Z")]
    try:
        b = [float(h[p] if p in h else h[q]) for p, q in names]
    except KeyError as e:
        rep.violation("header box", "no %s in the header" % e)
        return
    P = [m for m in g.moves if printing(m)]
    if not P:
        return
    lo = [min(min(m.x, m.x0) for m in P), min(min(m.y, m.y0) for m in P), min(m.z for m in P)]
    hi = [max(max(m.x, m.x0) for m in P), max(max(m.y, m.y0) for m in P), max(m.z for m in P)]
    A = [m for m in g.moves if m.layer is not None]
    alo = [min(m.x for m in A), min(m.y for m in A), min(m.z for m in A)]
    ahi = [max(m.x for m in A), max(m.y for m in A), max(m.z for m in A)]
    for x in job.extruders:  # the head counts as being at the origin before it is moved
        alo[0], alo[1] = min(alo[0], -float(x.get("machine_nozzle_offset_x", 0))), min(alo[1], -float(x.get("machine_nozzle_offset_y", 0)))
        ahi[0], ahi[1] = max(ahi[0], -float(x.get("machine_nozzle_offset_x", 0))), max(ahi[1], -float(x.get("machine_nozzle_offset_y", 0)))
    e = 0.0011 + 1e-5 * 200
    for k in range(3):
        if lo[k] < b[k] - e or hi[k] > b[3 + k] + e:
            rep.violation("header box", "the printed moves reach from %s to %s, the header says %s" % (lo, hi, b))
            break
        if b[k] < alo[k] - e or b[3 + k] > ahi[k] + e:
            rep.violation("header box", "the moves reach from %s to %s, the header says %s" % (alo, ahi, b))
            break
    return b
