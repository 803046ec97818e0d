"""Runs the engine's command line on generated models and settings."""
import json
import os
import shutil
import tempfile

import models
import vf

DEFAULTS = json.load(open(os.path.join(vf.VERIF, "lib", "defaults.json")))


class Job:
    """A slice: meshes [(Model or triangles, settings, extruder)], global settings and per-extruder settings; more groups for --next."""

    def __init__(self, meshes, settings=None, extruders=None, groups=None, threads=4, ascii_=False):
        self.meshes, self.settings, self.extruders, self.groups, self.threads, self.ascii = meshes, settings or {}, extruders or [{}], groups, threads, ascii_

    def write(self, d):
        s = dict(DEFAULTS)
        s.update({k: str(v) for k, v in self.settings.items()})
        s["machine_extruder_count"] = str(len(self.extruders))
        with open(os.path.join(d, "d.def.json"), "w") as f:
            json.dump({"settings": {k: {"default_value": v} for k, v in s.items()}}, f)
        cmd = ["slice", "-v", "-m%d" % self.threads, "-j", os.path.join(d, "d.def.json"), "-o", os.path.join(d, "out.gcode")]
        for i, es in enumerate(self.extruders):
            cmd.append("-e%d" % i)
            for k, v in es.items():
                cmd += ["-s", "%s=%s" % (k, v)]
        k = 0
        for gi, group in enumerate(self.groups or [self.meshes]):
            if gi:
                cmd.append("--next")
            for mesh, ms, ex in group:
                cmd.append("-e%d" % ex)
                path = os.path.join(d, "m%d.stl" % k)
                if hasattr(mesh, "data"):
                    with open(path, "wb") as f:
                        f.write(mesh.data)
                else:
                    models.write_stl(path, mesh.triangles() if hasattr(mesh, "triangles") else mesh, self.ascii, "m%d" % k)
                k += 1
                cmd += ["-l", path]
                for a, b in {"extruder_nr": ex, **ms}.items():
                    cmd += ["-s", "%s=%s" % (a, b)]
        return cmd


class Result:
    pass


def slice_(exe, job, timeout=120, keep=None, env=None):
    d = tempfile.mkdtemp(prefix="vf-slice-")
    try:
        cmd = job.write(d)
        p = vf.run_proc([exe, *cmd], timeout, cwd=d, env=env)
        r = Result()
        r.proc = p
        r.gcode = None
        try:
            with open(os.path.join(d, "out.gcode"), encoding="utf-8", errors="replace") as f:
                r.gcode = f.read()
        except OSError:
            pass
        if keep:
            shutil.copytree(d, keep, dirs_exist_ok=True)
        return r
    finally:
        shutil.rmtree(d, ignore_errors=True)


def cli(variant="rel"):
    return vf.B.build([vf.B.cli(variant)])[("CuraEngine", variant)]
