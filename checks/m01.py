"""M01: the engine under ASan/UBSan/library assertions, on wide-ranging jobs and on broken mesh files."""
import random
import struct

import e2e
import models
import slicing
import vf


def normal_job(ctx, i, rep):
    rng = random.Random("%d/m01/%d" % (ctx.seed, i))
    job = e2e.anything_job(rng)
    text = e2e.slice_job(rep, slicing.cli("asan"), job, 150, parse=False)
    if text is not None:
        rep.eval(text[2000:4000])
        rep.stat("slices completed under the sanitizers")
        rep.stat("g-code lines", text.count("\n"))
        for t in ("WALL-OUTER", "WALL-INNER", "SKIN", "FILL", "SUPPORT", "SUPPORT-INTERFACE", "SKIRT", "PRIME-TOWER"):
            if ";TYPE:" + t + "\n" in text:
                rep.stat("slices with " + t)


def mangle(rng, tris):
    """A list of triangles that is no closed surface any more."""
    kind = rng.choice(["drop", "flip", "dup", "jitter", "soup", "degenerate", "flat", "tiny", "self", "shared-edge"])
    t = [tuple(tuple(v) for v in f) for f in tris]
    if kind == "drop":
        t = [f for f in t if rng.random() < rng.choice([0.5, 0.9])]
    elif kind == "flip":
        t = [f[::-1] if rng.random() < 0.4 else f for f in t]
    elif kind == "dup":
        t += [f for f in t if rng.random() < 0.5]
    elif kind == "jitter":
        a = rng.choice([0.001, 0.03, 0.5])
        t = [tuple(tuple(c + rng.uniform(-a, a) for c in v) for v in f) for f in t]
    elif kind == "soup":
        t = [tuple((rng.uniform(-6, 6), rng.uniform(-6, 6), rng.uniform(0, 3)) for _ in range(3)) for _ in range(rng.randrange(1, 60))]
    elif kind == "degenerate":
        t += [(f[0], f[0], f[1]) for f in t if rng.random() < 0.5] + [(f[0],) * 3 for f in t[:3]]
    elif kind == "flat":
        z = rng.choice([0.0, 0.3, 0.5])
        t = [tuple((x, y, z) for x, y, _ in f) for f in t]
    elif kind == "tiny":
        k = rng.choice([0.0001, 0.01, 0.05])
        t = [tuple(tuple(c * k for c in v) for v in f) for f in t]
    elif kind == "self":
        t += [tuple((x + 0.5, y + 0.3, z) for x, y, z in f) for f in t]
    else:
        t += [(f[0], f[1], (f[2][0] + 1, f[2][1], f[2][2] + 1)) for f in t if rng.random() < 0.3]
    rng.shuffle(t)
    return kind, t


def stl_bytes(rng, tris):
    """Also broken as a file."""
    kind = rng.choice(["ok", "ok", "ok", "count", "truncated", "ascii", "ascii-junk", "empty", "short", "solid-binary"])
    head = b"binary".ljust(80)
    body = b"".join(struct.pack("<12fH", *(0.0, 0.0, 0.0), *[c for v in f for c in v], 0) for f in tris)
    n = len(tris)
    if kind == "count":
        n = rng.choice([0, 1, n * 2 + 1, 0xFFFFFFFF])
    data = head + struct.pack("<I", n) + body
    if kind == "truncated":
        data = data[: rng.randrange(0, len(data) + 1)]
    elif kind in ("ascii", "ascii-junk"):
        rows = ["solid x"]
        for f in [*tris, ((0, 0, 0), (3, 0, 0), (0, 3, 3))]:  # one sound face, or else the file would be taken for a binary one
            rows += ["facet normal 0 0 0", " outer loop"] + ["  vertex %g %g %g" % v for v in f] + [" endloop", "endfacet"]
        rows.append("endsolid x")
        if kind == "ascii-junk":
            for _ in range(rng.randrange(1, 8)):
                k = rng.randrange(1, len(rows))
                rows[k] = rng.choice(["", "vertex", "vertex 1 2", "vertex a b c", "v" * 3000, "\x00\x01", "vertex 1 2 3 4 5", "facet"])
        data = rng.choice(["\n", "\r\n", "\r"]).join(rows).encode()
    elif kind == "empty":
        data = b""
    elif kind == "short":
        data = data[: rng.choice([1, 4, 5, 79, 80, 83, 84, 100])]
    elif kind == "solid-binary":
        data = b"solid" + data[5:]
    return kind, data


class Raw:
    """A mesh file given by its bytes."""

    def __init__(self, data, what):
        self.data, self.what = data, what

    def describe(self):
        return self.what


def broken_job(ctx, i, rep):
    rng = random.Random("%d/m01b/%d" % (ctx.seed, i))
    m = models.random_model(rng, height=(0.4, 3.0), size=(2, 8))
    how, tris = mangle(rng, m.triangles())
    fk, data = stl_bytes(rng, tris)
    s = e2e.anything(rng)
    if rng.random() < 0.4:
        s["meshfix_extensive_stitching"] = "true"
    if rng.random() < 0.3:
        s["meshfix_keep_open_polygons"] = "true"
    job = slicing.Job([(Raw(data, how + "/" + fk), {}, 0)], s, threads=rng.choice([1, 3]))
    r = slicing.slice_(slicing.cli("asan"), job, 150)
    p = r.proc
    if p.timed_out:
        r = slicing.slice_(slicing.cli("asan"), job, 300)
        p = r.proc
        if p.timed_out:
            rep.violation("hang", "did not finish: %s" % e2e.describe(job))
            return
    if vf.is_crash(p):
        rep.violation("crash:" + vf.crash_key(p), "exit code %d: %s\n%s" % (p.rc, e2e.describe(job), vf.report_excerpt(p)))
        return
    rep.eval("%s/%s/%s" % (how, fk, (r.gcode or "")[3000:4000]))
    rep.stat("broken meshes: %s" % how)
    rep.stat("broken files: %s" % fk)
    rep.stat("broken meshes sliced" if r.gcode else "broken meshes refused")


def run(ctx):
    slicing.cli("asan")
    e2e.run_cases(ctx, 170 if ctx.quick else 6000, normal_job, "jobs")
    e2e.run_cases(ctx, 90 if ctx.quick else 3000, broken_job, "broken")
