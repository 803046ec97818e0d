"""E03: the same job gives the same g-code, every time and whatever the number of threads."""
import difflib
import random
import re

import e2e
import slicing

RANDOM = {"z_seam_type": "random", "magic_fuzzy_skin_enabled": "true", "infill_pattern": "lightning", "infill_randomize_start_location": "true"}


def draws(s):
    return any(s.get(k) == v for k, v in RANDOM.items())


def case(ctx, i, rep):
    rng = random.Random("%d/e03/%d" % (ctx.seed, i))
    job = e2e.anything_job(rng)
    every = [job.settings] + [m[1] for g in (job.groups or [job.meshes]) for m in g] + job.extruders
    if rng.random() < 0.85:
        for s in every:
            if s.get("z_seam_type") == "random":
                s["z_seam_type"] = "back"
            if s.get("infill_pattern") == "lightning":
                s["infill_pattern"] = "zigzag"
            s.pop("magic_fuzzy_skin_enabled", None)
        if rng.random() < 0.85 and job.settings.get("support_structure") == "tree":
            job.settings["support_structure"] = "normal"
    rnd = any(draws(s) for s in every)
    tree = job.settings.get("support_enable") == "true" and job.settings.get("support_structure") == "tree"
    counts = (1, 1) if rnd else rng.choice([(1, 4), (1, 8), (2, 3), (3, 8), (4, 4), (1, 2, 7)])
    exe = slicing.cli("rel")
    first = None
    for k, n in enumerate(counts):
        job.threads = n
        text = e2e.slice_job(rep, exe, job, 100, parse=False, crash=False)
        if text is None:
            return
        text = re.sub(r"SLICE_UUID:.*", "", text)
        if first is None:
            first = text
        elif text != first:
            d = [x for x in difflib.unified_diff(first.split("\n"), text.split("\n"), "%d threads" % counts[0], "%d threads" % n, n=1, lineterm="")][:14]
            why = "tree support" if tree else "repeat" if counts[0] == n else "threads"
            rep.violation("not reproducible: " + why, "the g-code differs: %s\n%s" % ("\n".join(d), e2e.describe(job)))
            return
    rep.eval(first[2000:5000])
    rep.stat("pairs compared with %s" % ("random features, one thread" if rnd else "equal numbers of threads" if len(set(counts)) == 1 else "different numbers of threads"), len(counts) - 1)
    rep.stat("g-code lines compared", first.count("\n"))


def run(ctx):
    slicing.cli("rel")
    e2e.run_cases(ctx, 420 if ctx.quick else 16000, case, "jobs")
