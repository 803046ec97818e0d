"""run.py ID [--replay FILE]: decides one property, as described in lib/props.py."""
import importlib
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "lib"))
sys.path.insert(0, HERE)
import props  # noqa: E402
import vf  # noqa: E402

ID = sys.argv.pop(1)
P = next(p for p in props.PROPS if p["id"] == ID)


def run(ctx):
    ctx.rule = P["rule"]
    ctx.assumptions = list(P["assumptions"])
    if P["parts"]:
        exes = vf.B.build([vf.B.harness(h, v) for h, v, _, _ in P["parts"]])
        for h, v, q, t in P["parts"]:
            if ctx.only is not None and ctx.only_harness not in (None, h):
                continue
            n0 = ctx.evaluations
            vf.run_harness(ctx, exes[(h, v)], q if ctx.quick else t, label=h, timeout=600 if ctx.quick else 3000)
            ctx.stat("evaluations of " + h, ctx.evaluations - n0)
    if P["module"]:
        importlib.import_module(P["module"]).run(ctx)


vf.main(ID, run)
