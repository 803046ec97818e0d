"""Common machinery of the checks: seeds, parallel case execution, violations, known findings, evidence."""
import hashlib
import json
import os
import random
import re
import signal
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "lib"))
import build as B  # noqa: E402

CORES = os.cpu_count() or 4
SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=99:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_sigfpe=1:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=98:suppressions=%s:ignore_noninstrumented_modules=1:history_size=4" % os.path.join(VERIF, "lib", "tsan.supp"),
}


class Inconclusive(Exception):
    pass


class Ctx:
    def __init__(self, prop, level="exploration"):
        self.prop = prop
        self.level = level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.quick = self.tier == "quick"
        self.t0 = time.time()
        self.viol = {}
        self.evaluations = 0
        self.nontrivial = set()
        self.nontrivial_extra = 0
        self.samples = []
        self.stats = {}
        self.rule = ""
        self.assumptions = []
        self.inconclusive = []
        self.only = None  # replay: restrict to one case
        self.only_harness = None

    def rng(self, *parts):
        h = hashlib.sha256(repr((self.prop, self.seed, parts)).encode()).digest()
        return random.Random(int.from_bytes(h[:8], "little"))

    def violation(self, key, msg, replay):
        if key in self.viol:
            self.viol[key]["count"] += 1
            return
        self.viol[key] = {"key": key, "msg": msg, "replay": replay, "count": 1}

    def stat(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def stat_max(self, name, v):
        self.stats[name] = max(self.stats.get(name, v), v)

    def sample(self, obj, limit=6):
        if len(self.samples) < limit:
            self.samples.append(obj)


def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        items = json.load(open(path))
    except OSError:
        return []
    return [k for k in items.get("known", []) if k["property"] == prop]


def finish(ctx):
    known = load_known(ctx.prop)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (ctx.prop, k["what"]))
    known_keys = {k["key"] for k in known}
    fresh = [v for v in ctx.viol.values() if v["key"] not in known_keys]
    ev = {
        "property": ctx.prop,
        "tier": ctx.tier,
        "seed": ctx.seed,
        "level": ctx.level,
        "coverage": {
            "evaluations": ctx.evaluations,
            "distinct_nontrivial": len(ctx.nontrivial) + ctx.nontrivial_extra,
            "rule": ctx.rule,
            "samples": ctx.samples or ["none"],
            "observed": ctx.stats,
            "inconclusive": ctx.inconclusive[:20],
            "inconclusive_count": len(ctx.inconclusive),
            "known_findings_seen": sorted(known_keys & set(ctx.viol)),
        },
        "assumptions": ctx.assumptions,
        "wall_s": round(time.time() - ctx.t0, 2),
        "violations": len(fresh),
    }
    if ctx.only is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", ctx.prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", ctx.prop + ".json"))
    print(
        "%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d inconclusive, %.1f s; %s"
        % (ctx.prop, ctx.tier, ctx.seed, ctx.evaluations, len(ctx.nontrivial) + ctx.nontrivial_extra, len(ctx.inconclusive), ev["wall_s"], json.dumps(ctx.stats)[:1500])
    )
    if fresh:
        rdir = os.path.join(VERIF, "replay")
        os.makedirs(rdir, exist_ok=True)
        for v in fresh[:20]:
            path = os.path.join(rdir, "%s-%s.json" % (ctx.prop, hashlib.sha256(v["key"].encode()).hexdigest()[:10]))
            with open(path, "w") as f:
                json.dump(
                    {"property": ctx.prop, "seed": ctx.seed, "tier": ctx.tier, "key": v["key"], "what": v["msg"], "replay": v["replay"], "count": v["count"]}, f, indent=1
                )
            print("  %s (x%d): %s" % (v["key"], v["count"], v["msg"][:1500]))
            print("VIOLATION property=%s replay=%s" % (ctx.prop, path))
        return 1
    if ctx.evaluations == 0 or len(ctx.nontrivial) + ctx.nontrivial_extra == 0:
        print("ERROR: nothing was observed")
        return 3
    if len(ctx.inconclusive) > max(3, ctx.evaluations // 5):
        print("ERROR: too many inconclusive cases: %s" % ctx.inconclusive[:3])
        return 4
    return 0


def pmap(fn, items, workers=None):
    with ThreadPoolExecutor(workers or CORES) as pool:
        return list(pool.map(fn, items))


def san_env():
    env = dict(os.environ)
    env.update(SAN_ENV)
    env.pop("CURAENGINE_LOG_LEVEL", None)
    return env


class Proc:
    def __init__(self, rc, out, err, timed_out):
        self.rc, self.out, self.err, self.timed_out = rc, out, err, timed_out


def run_proc(cmd, timeout, cwd=None, env=None, stdin=None):
    p = subprocess.Popen(
        cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL if stdin is None else subprocess.PIPE, cwd=cwd, env=env or san_env(), start_new_session=True
    )
    try:
        out, err = p.communicate(stdin, timeout=timeout)
        return Proc(p.returncode, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), False)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, err = p.communicate()
        return Proc(-9, out.decode("utf-8", "replace"), err.decode("utf-8", "replace"), True)


FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ (?:in )?(.+?) (?:/|\(|<null>)(\S*)")


def crash_key(proc):
    """A stable description of a crash: sanitizer report kind plus the first frame in the repository, without line numbers."""
    text = proc.err + "\n" + proc.out
    m = re.search(r"(?:ERROR|WARNING): (?:AddressSanitizer|ThreadSanitizer): ([\w-]+(?: [\w-]+)?)", text)
    kind = None
    if m:
        kind = m.group(1)
        if "deadly" in kind.lower():
            kind = "SEGV"
    else:
        m = re.search(r"runtime error: ([^\n]+)", text)
        if m:
            kind = "UB " + re.sub(r"-?\d[\d.e+]*|0x[0-9a-f]+|'[^']*'", "N", m.group(1))[:70].strip()
    frame = None
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (?:" + re.escape(B.REPO) + r")/((?:src|include)/\S+?)(?::|\s)", text):
        fn = re.sub(r"\(.*", "", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", m.group(1))))
        frame = fn.split("::")[-1] if "::" in fn else fn
        frame = "%s@%s" % (frame.strip(), os.path.basename(m.group(2)))
        break
    if kind is None:
        sig = -proc.rc if proc.rc < 0 else proc.rc
        a = re.search(r"Assertion [`'](.+?)' failed", text)
        kind = "assert " + a.group(1)[:60] if a else ("signal %s" % signal.Signals(sig).name if proc.rc < 0 and sig in signal.Signals._value2member_map_ else "exit %d" % proc.rc)
    return "%s in %s" % (kind, frame or "?")


def is_crash(proc):
    return proc.rc < 0 or proc.rc in (98, 99, 134, 139, 66) or "ERROR: AddressSanitizer" in proc.err or "runtime error:" in proc.err or "WARNING: ThreadSanitizer" in proc.err


def report_excerpt(proc):
    text = proc.err if proc.err.strip() else proc.out
    m = re.search(r"(==\d+==\s*ERROR.*|.*runtime error:.*|WARNING: ThreadSanitizer.*|.*Assertion.*)", text)
    return text[m.start() : m.start() + 1800] if m else text[-800:]


# ---- C++ harnesses -------------------------------------------------------------------------------------------------


def run_harness(ctx, exe, total, args=(), shard=None, timeout=300, workers=None, label=""):
    """Runs cases [0,total) of a harness in parallel shards. The harness prints JSON lines:
    {"v":key,"m":message,"c":case} violation, {"s":{name:count}} counters, {"n":evaluations,"d":[hashes]}, {"x":sample};
    and keeps the number of the case it is at in the file named by --progress."""
    ctx.tmp = getattr(ctx, "tmp", None) or tempfile.mkdtemp(prefix="vf-")
    nshards = shard or (workers or CORES) * 3
    if ctx.only is not None:
        ranges = [(ctx.only, ctx.only + 1)]
    else:
        step = max(1, (total + nshards - 1) // nshards)
        ranges = [(a, min(total, a + step)) for a in range(0, total, step)]

    def go(r):
        a, b = r
        results = []
        while a < b:
            pf = os.path.join(ctx.tmp, "p%s-%d-%d" % (label, a, b))
            cmd = [exe, "--seed", str(ctx.seed), "--from", str(a), "--to", str(b), "--progress", pf, "--tier", ctx.tier, *map(str, args)]
            p = run_proc(cmd, timeout)
            results.append((cmd, p, a, b, pf))
            if p.rc == 0:
                break
            try:
                at = int(open(pf).read().split()[0])
            except (OSError, ValueError, IndexError):
                at = a
            if p.timed_out:  # once more, alone
                cmd1 = [exe, "--seed", str(ctx.seed), "--from", str(at), "--to", str(at + 1), "--progress", pf, "--tier", ctx.tier, *map(str, args)]
                p1 = run_proc(cmd1, timeout)
                results[-1] = (cmd1, p1, at, at + 1, pf)
                if not p1.timed_out:
                    results.append((cmd, Proc(0, p.out, "", False), a, at, pf))
            a = at + 1
            if len(results) > 40:
                break
        return results

    seen = 0
    for results in pmap(go, ranges, workers):
        for cmd, p, a, b, pf in results:
            for line in p.out.splitlines():
                if not line.startswith("{"):
                    continue
                try:
                    o = json.loads(line)
                except ValueError:
                    continue
                if "v" in o:
                    ctx.violation(o["v"], o["m"], {"harness": os.path.basename(exe).split("-")[0], "case": o["c"], "args": list(map(str, args))})
                if "s" in o:
                    for k, n in o["s"].items():
                        if k.startswith("max "):
                            ctx.stat_max(k, n)
                        else:
                            ctx.stat(k, n)
                if "n" in o:
                    ctx.evaluations += o["n"]
                    seen += o["n"]
                    ctx.nontrivial.update(o["d"])
                if "x" in o:
                    ctx.sample(o["x"])
                if "i" in o:
                    ctx.inconclusive.append(o["i"])
            if p.rc != 0:
                try:
                    at = int(open(pf).read().split()[0])
                except (OSError, ValueError, IndexError):
                    at = a
                rep = {"harness": os.path.basename(exe).split("-")[0], "case": at, "args": list(map(str, args))}
                if p.timed_out:
                    ctx.violation("hang:" + label + ":case", "no answer within %d s (twice), case %d" % (timeout, at), rep)
                elif p.rc == 77:
                    raise RuntimeError("harness error: " + (p.err or p.out)[-800:])
                else:
                    key = crash_key(p)
                    ctx.violation("crash:" + key, "case %d: %s" % (at, report_excerpt(p)), rep)
                ctx.evaluations += 1
    return seen


def main(prop, run):
    """Entry point of every check."""
    ctx = Ctx(prop)
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        r = json.load(open(sys.argv[2]))
        ctx.seed, ctx.tier = r["seed"], r["tier"]
        ctx.quick = ctx.tier == "quick"
        ctx.only = r["replay"].get("case")
        ctx.only_harness = r["replay"].get("harness")
    try:
        run(ctx)
        rc = finish(ctx)
    except B.BuildError as e:
        print("ERROR: build failed: %s" % e)
        rc = 5
    except Inconclusive as e:
        print("ERROR: inconclusive: %s" % e)
        rc = 6
    finally:
        t = getattr(ctx, "tmp", None)
        if t and os.path.basename(t).startswith("vf-"):
            import shutil

            shutil.rmtree(t, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
