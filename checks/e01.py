"""E01: every line of the g-code can be read, the layers are complete and in order, features are announced, numbers are sound, the print stays on the plate."""
import random

import e2e
import mon
import slicing


def case(ctx, i, rep):
    rng = random.Random("%d/e01/%d" % (ctx.seed, i))
    job = e2e.anything_job(rng)
    g = e2e.slice_job(rep, slicing.cli("rel"), job, 100, crash=False)
    if g is None:
        return
    if not mon.standard(job):
        rep.stat("g-code of another dialect")
        return
    n = len(rep.viol)
    mon.wellformed(rep, g, job)
    rep.viol[n:] = [(k, m + ": " + e2e.describe(job)) for k, m in rep.viol[n:]]
    rep.eval(g.text[2000:5000])


def run(ctx):
    slicing.cli("rel")
    e2e.run_cases(ctx, 450 if ctx.quick else 16000, case, "jobs")
