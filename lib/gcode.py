"""An interpreter for the g-code the engine writes: a virtual machine that records every state change."""
import math
import re

WORD = re.compile(r"([A-Z])\s*(-?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|-?(?:nan|inf))", re.I)


class Move:
    __slots__ = ("held", "n", "x0", "y0", "z0", "x", "y", "z", "e", "de", "f", "g", "typ", "layer", "tool", "mesh", "ret")

    def __init__(self, **k):
        for a, b in k.items():
            setattr(self, a, b)

    @property
    def length(self):
        return math.hypot(self.x - self.x0, self.y - self.y0)


class Parsed:
    pass


def parse(text, volumetric=False):
    """-> Parsed with .header (dict), .moves, .events [(line, kind, data)], .errors [(line, text)], .layers [numbers in order]."""
    P = Parsed()
    P.header, P.moves, P.events, P.errors, P.layers, P.head_lines = {}, [], [], [], [], []
    x = y = z = 0.0
    f = 0.0
    tool = 0
    e = {0: 0.0}  # current E register, per the active tool after G92 resets
    rel = False
    typ, layer, mesh = None, None, None
    fw_ret = False
    started = False
    moves, events, errors = P.moves, P.events, P.errors
    ereg = 0.0
    for n, line in enumerate(text.split("\n")):
        if not line:
            continue
        c0 = line[0]
        if c0 == ";":
            if line.startswith(";TYPE:"):
                typ = line[6:]
                events.append((n, "type", typ))
            elif line.startswith(";LAYER:"):
                layer = int(line[7:])
                P.layers.append(layer)
                started = True
                events.append((n, "layer", layer))
            elif line.startswith(";LAYER_COUNT:"):
                P.header.setdefault("layer_counts", []).append(int(line[13:]))
                events.append((n, "layer_count", int(line[13:])))
            elif line.startswith(";MESH:"):
                mesh = line[6:]
                events.append((n, "mesh", mesh))
            elif line.startswith(";TIME_ELAPSED:"):
                events.append((n, "elapsed", float(line[14:])))
            elif not started:
                P.head_lines.append(line)
                if ":" in line:
                    k, v = line[1:].split(":", 1)
                    P.header.setdefault(k, v)
            else:
                events.append((n, "comment", line[1:]))
            continue
        code = line.split(";", 1)[0].rstrip()
        if not code:
            continue
        if line.startswith(("G1 ", "G0 ")):
            words = code.split(" ")
            nx, ny, nz, ne = x, y, z, None
            try:
                for w in words[1:]:
                    a, v = w[0], float(w[1:])
                    if a == "X":
                        nx = v
                    elif a == "Y":
                        ny = v
                    elif a == "Z":
                        nz = v
                    elif a == "E":
                        ne = v
                    elif a == "F":
                        f = v
                    else:
                        errors.append((n, line))
                    if v != v or v in (math.inf, -math.inf):
                        errors.append((n, line))
            except (ValueError, IndexError):
                errors.append((n, line))
                continue
            if ne is None:
                de = 0.0
            elif rel:
                de = ne
                ereg += ne
            else:
                de = ne - ereg
                ereg = ne
            moves.append(Move(n=n, x0=x, y0=y, z0=z, x=nx, y=ny, z=nz, e=ereg, de=de, f=f, g=words[0], typ=typ, layer=layer, tool=tool, mesh=mesh, ret=ne))
            events.append((n, "move", moves[-1]))
            x, y, z = nx, ny, nz
            continue
        words = code.split()
        cmd = words[0]
        args = {}
        for w in words[1:]:
            try:
                args[w[0]] = float(w[1:])
            except ValueError:
                args[w[0]] = w[1:]
        if cmd == "G92":
            if "E" in args:
                ereg = args["E"]
            events.append((n, "G92", args))
        elif cmd == "M82":
            rel = False
            events.append((n, "abs", None))
        elif cmd == "M83":
            rel = True
            events.append((n, "rel", None))
        elif cmd in ("G10", "G11"):
            events.append((n, cmd, args))
        elif re.fullmatch(r"T\d+", cmd):
            tool = int(cmd[1:])
            events.append((n, "tool", tool))
        elif cmd in ("M104", "M109", "M140", "M190", "M141", "M191"):
            events.append((n, cmd, args))
        elif cmd in ("M106", "M107"):
            events.append((n, cmd, args))
        elif cmd in ("M204", "M205", "M201", "M203"):
            events.append((n, cmd, args))
        elif re.fullmatch(r"[GM]\d+(\.\d+)?", cmd):
            events.append((n, "other", line))
        else:
            errors.append((n, line))
    P.lines = n
    return P
