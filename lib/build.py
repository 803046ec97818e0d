#!/usr/bin/env python3
"""Builds CuraEngine from the working tree (VERIF_REPO, default /repo) plus the stand-in headers of /verif/shims,
in one of several instrumentation variants, and links harness programs against it.

A content-addressed object store (per TU: hashes of every dependency under the repository and /verif) makes a
build incremental whatever the file times are; system headers are taken as constant."""
import fcntl
import hashlib
import json
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

COMMON = (
    "-std=c++20 -w -fno-omit-frame-pointer -DBUILD_TESTS -DCURA_ENGINE_VERSION=\"5.14.0-alpha.0\" "
    "-DCURA_ENGINE_HASH=\"unknown\" -DSENTRY_ENVIRONMENT=\"\" -D_DISABLE_CONSTEXPR_MUTEX_CONSTRUCTOR=1 -DVERIF_HOOKS=1"
).split()
LIBS = "-lspdlog -lfmt -lpolyclipping -lpng -ltbb -lgtest -lpthread".split()
UB = "undefined,float-divide-by-zero"
VARIANTS = {
    # name: (compiler, compile flags, link flags)
    "rel": ("g++", "-O2 -DNDEBUG".split(), []),
    "dbg": ("g++", "-O1 -g1 -UNDEBUG".split(), []),
    "asan": (
        "g++",
        "-O1 -g1 -DNDEBUG -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS".split(),
        "-fsanitize=address,undefined".split(),
    ),
    "tsan": ("g++", "-O1 -g1 -DNDEBUG -fsanitize=thread".split(), "-fsanitize=thread".split()),
}


class BuildError(Exception):
    pass


def sha(data):
    return hashlib.sha256(data).hexdigest()[:24]


_hash_memo = {}


def file_hash(path):
    h = _hash_memo.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = sha(f.read())
        except OSError:
            h = "missing"
        _hash_memo[path] = h
    return h


def engine_sources():
    text = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"set\(engine_SRCS[^)]*\.cpp[^)]*\)", text)
    if not m:
        raise BuildError("no engine_SRCS in CMakeLists.txt")
    srcs = re.findall(r"src/[A-Za-z0-9_/.]+\.cpp", m.group(0))
    return [os.path.join(REPO, s) for s in srcs]


def norm(path):
    path = os.path.normpath(path)
    if path.startswith(REPO + "/"):
        return "R:" + path[len(REPO) + 1 :]
    if path.startswith(VERIF + "/"):
        return "V:" + path[len(VERIF) + 1 :]
    return None


def denorm(n):
    return os.path.join(REPO if n[0] == "R" else VERIF, n[2:])


def _base(src, variant, extra=()):
    cxx, cflags, _ = VARIANTS[variant]
    return sha((norm(src) + "|" + cxx + "|" + " ".join([*COMMON, *cflags, *extra, "-ffunction-sections", "-fdata-sections"])).encode())


def memo_file(src, variant, extra=()):
    return os.path.join(BUILD, "obj", variant, _base(src, variant, extra) + ".memo")


def compile_one(src, variant, extra=()):
    cxx, cflags, _ = VARIANTS[variant]
    flags = [*COMMON, *cflags, *extra, "-ffunction-sections", "-fdata-sections"]
    inc = ["-I" + os.path.join(VERIF, "shims"), "-I" + os.path.join(REPO, "include"), "-I/usr/include/stb", "-I" + os.path.join(VERIF, "harness")]
    base = _base(src, variant, extra)
    odir = os.path.join(BUILD, "obj", variant)
    memo_path = memo_file(src, variant, extra)
    memo = []
    try:
        memo = json.load(open(memo_path))
    except (OSError, ValueError):
        pass
    for i, (deps, obj) in enumerate(memo):
        if all(file_hash(denorm(d)) == h for d, h in deps) and os.path.exists(os.path.join(odir, obj)):
            if i:  # keep most recently used first
                memo.insert(0, memo.pop(i))
                _write_json(memo_path, memo)
            return os.path.join(odir, obj)
    tmp = os.path.join(odir, base + ".%d.tmp" % os.getpid())
    cmd = [cxx, *flags, *inc, "-MD", "-MF", tmp + ".d", "-c", src, "-o", tmp + ".o"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("compiling %s [%s]:\n%s" % (src, variant, r.stderr[-4000:]))
    text = open(tmp + ".d").read().replace("\\\n", " ")
    deps = sorted({n for p in text.split(":", 1)[1].split() if (n := norm(p))})
    deps = [(d, file_hash(denorm(d))) for d in deps]
    obj = base + "-" + sha(json.dumps(deps).encode()) + ".o"
    os.replace(tmp + ".o", os.path.join(odir, obj))
    os.unlink(tmp + ".d")
    memo = [[deps, obj]] + [m for m in memo if m[1] != obj]
    for _, old in memo[6:]:
        try:
            os.unlink(os.path.join(odir, old))
            os.unlink(os.path.join(odir, old + ".sym"))
        except OSError:
            pass
    _write_json(memo_path, memo[:6])
    return os.path.join(odir, obj)


def _write_json(path, obj):
    tmp = path + ".%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(obj, f)
    os.replace(tmp, path)


def _size(src):
    try:
        return os.path.getsize(src)
    except OSError:
        return 0


def compile_all(jobs, workers=None):
    """jobs: [(src, variant, extra)] -> objects, in order."""
    for _, v, _ in jobs:
        os.makedirs(os.path.join(BUILD, "obj", v), exist_ok=True)
    order = sorted(range(len(jobs)), key=lambda i: -_size(jobs[i][0]))
    out = [None] * len(jobs)
    with ThreadPoolExecutor(workers or os.cpu_count()) as pool:
        futs = {i: pool.submit(compile_one, *jobs[i]) for i in order}
        errors = []
        for i, f in futs.items():
            try:
                out[i] = f.result()
            except BuildError as e:
                errors.append(str(e))
    if errors:
        raise BuildError("\n".join(errors[:5]))
    return out


def link(name, variant, objs, extra=()):
    cxx, _, lflags = VARIANTS[variant]
    key = sha("|".join([*objs, variant, *extra]).encode())
    exe = os.path.join(BUILD, "bin", variant, name + "-" + key)
    if os.path.exists(exe):
        os.utime(exe)
        return exe
    d = os.path.dirname(exe)
    os.makedirs(d, exist_ok=True)
    old = sorted((f for f in os.listdir(d) if f.startswith(name + "-") and len(f) == len(name) + 25), key=lambda f: os.path.getmtime(os.path.join(d, f)))
    for f in old[:-4]:
        os.unlink(os.path.join(d, f))
    rsp = exe + ".rsp"
    with open(rsp, "w") as f:
        f.write("\n".join(objs))
    r = subprocess.run([cxx, *lflags, "@" + rsp, "-fuse-ld=gold", "-Wl,--gc-sections", "-o", exe + ".tmp", *extra, *LIBS], capture_output=True, text=True)
    os.unlink(rsp)
    if r.returncode:
        raise BuildError("linking %s [%s]:\n%s" % (name, variant, r.stderr[-4000:]))
    os.replace(exe + ".tmp", exe)
    return exe


def build(programs):
    """programs: [(name, variant, [sources], with_engine)] -> {(name, variant): executable}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        _hash_memo.clear()
        engine = engine_sources()
        jobs, index = [], {}

        def want(src, variant):
            k = (src, variant)
            if k not in index:
                index[k] = len(jobs)
                jobs.append((src, variant, ()))
            return index[k]

        plan = []
        own = {}
        for name, variant, sources in programs:
            for s in sources:
                own[(s, variant)] = None
        ownobj = compile_all([(s, v, ()) for s, v in own])
        for k, o in zip(own, ownobj):
            own[k] = o
        for name, variant, sources in programs:
            needed = closure([own[(s, variant)] for s in sources], engine, variant)
            plan.append((name, variant, sources, [want(s, variant) for s in needed], needed == engine))
        objs = compile_all(jobs)

        def do(p):
            name, variant, sources, ids, full = p
            mine = [own[(s, variant)] for s in sources]
            try:
                return link(name, variant, mine + [objs[i] for i in ids])
            except BuildError:
                if full:
                    raise
            return None

        with ThreadPoolExecutor(4) as pool:
            exes = list(pool.map(do, plan))
        for k, (p, e) in enumerate(zip(plan, exes)):
            if e is None:  # the index of symbols was out of date: take everything
                allobjs = compile_all([(s, p[1], ()) for s in engine])
                exes[k] = link(p[0], p[1], [own[(s, p[1])] for s in p[2]] + allobjs)
        return {(p[0], p[1]): e for p, e in zip(plan, exes)}


def _symbols(obj):
    """(defined, undefined) symbols of an object, cached beside it."""
    cache = obj + ".sym"
    try:
        return json.load(open(cache))
    except (OSError, ValueError):
        pass
    d, u = [], []
    for line in subprocess.run(["nm", "-P", obj], capture_output=True, text=True).stdout.splitlines():
        f = line.split(" ")
        if f[1] == "U":
            u.append(f[0])
        elif f[1] in "TWVBDRu":
            d.append(f[0])
    _write_json(cache, [d, u])
    return d, u


def closure(objs, engine, variant):
    """The engine sources a program needs, going by the symbols of their latest objects, whatever version these are."""
    latest = {}
    odir = os.path.join(BUILD, "obj", variant)
    for s in engine:
        try:
            obj = os.path.join(odir, json.load(open(memo_file(s, variant)))[0][1])
        except (OSError, ValueError, IndexError):
            return engine
        if not os.path.exists(obj):
            return engine
        latest[s] = obj
    definers = {}
    syms = {}
    with ThreadPoolExecutor(8) as pool:
        for s, sy in zip(latest, pool.map(_symbols, latest.values())):
            syms[s] = sy
            for d in sy[0]:
                definers.setdefault(d, []).append(s)
    todo, have, need = [], set(), set()
    for o in objs:
        d, u = _symbols(o)
        have.update(d)
        todo += u
    while todo:
        x = todo.pop()
        if x in have or x not in definers:
            continue
        s = definers[x][0]
        if s in need:
            continue
        need.add(s)
        have.update(syms[s][0])
        todo += syms[s][1]
    return [s for s in engine if s in need]


def cli(variant):
    return ("CuraEngine", variant, [os.path.join(REPO, "src/main.cpp")])


def harness(name, variant):
    return (name, variant, [os.path.join(VERIF, "harness", name + ".cpp")])


if __name__ == "__main__":
    progs = []
    if sys.argv[1:] == ["--all"]:
        import props

        want = {(h, v) for p in props.PROPS for h, v, _, _ in p["parts"]}
        sys.argv[1:] = ["%s:%s" % w for w in sorted(want)] + ["CuraEngine:" + v for v in getattr(props, "CLI", [])]
    for a in sys.argv[1:]:
        name, variant = a.split(":")
        progs.append(cli(variant) if name == "CuraEngine" else harness(name, variant))
    for k, v in build(progs).items():
        print(k, v)
