"""E02: the header tells the truth: the material used, the time, and the space the print takes."""
import random

import e2e
import mon
import slicing


def make(rng):
    job = e2e.anything_job(rng)
    for k in ("machine_gcode_flavor",):
        if job.settings.get(k) in ("BFB", "MakerBot", "Mach3"):
            job.settings.pop(k)
    if rng.random() < 0.3:
        job.settings["machine_gcode_flavor"] = rng.choice(["RepRap (Marlin/Sprinter)", "Griffin", "Cheetah", "UltiGCode", "RepRap (Volumetric)"])
    if rng.random() < 0.3:
        job.settings["material_diameter"] = rng.choice(["1.75", "2.85"])
        for e in job.extruders[1:]:
            e["material_diameter"] = rng.choice(["1.75", "2.85"])
    return job


def case(ctx, i, rep):
    rng = random.Random("%d/e02/%d" % (ctx.seed, i))
    job = make(rng)
    g = e2e.slice_job(rep, slicing.cli("rel"), job, 100, crash=False)
    if g is None:
        return
    n = len(rep.viol)
    used, got = mon.header(rep, g, job)
    mon.box(rep, g, job)
    if used is not None:
        fl = mon.S(job, "machine_gcode_flavor")
        rep.stat("headers with %s filament numbers (%s)" % ("no" if not got else "some", fl))
        for t, (v, tol) in got.items():
            u = used.get(t, 0.0)
            # what is retracted at the end may or may not count; every extruder ends with at most its own retractions
            slack = 1.1 * mon.F(job, "retraction_amount", t if t < len(job.extruders) else None) + mon.F(job, "switch_extruder_retraction_amount", t if t < len(job.extruders) else None) + 0.1
            if mon.volumetric(job):
                slack *= mon.area(job, t if t < len(job.extruders) else 0)
            if abs(u - v) > slack + tol + 1e-5 * len(g.moves):
                rep.violation("filament used", "extruder %d: the header says %g, the moves push %g (header %s)" % (t, v, u, {k: x for k, x in g.header.items() if "ilament" in k or "MATERIAL" in k}))
            rep.stat("filament lengths compared")
            rep.smax("material compared, mm or mm3", u)
    rep.viol[n:] = [(k, m + ": " + e2e.describe(job)) for k, m in rep.viol[n:]]
    rep.eval(g.text[2000:5000])


def run(ctx):
    slicing.cli("rel")
    e2e.run_cases(ctx, 450 if ctx.quick else 16000, case, "jobs")
