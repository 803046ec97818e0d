"""What the g-code puts where: printed lines by layer, with fast distances; and exact cross-sections of the models."""
import math

import e2e
import models
import slicing

CELL = 1.0


class Lines:
    """Printed lines of one layer in a grid."""

    def __init__(self):
        self.cells, self.all = {}, []

    def add(self, x0, y0, x1, y1, typ, m):
        s = (x0, y0, x1, y1, typ, m)
        self.all.append(s)
        l = math.hypot(x1 - x0, y1 - y0)
        n = int(l / (CELL * 0.7)) + 1
        last = None
        for i in range(n + 1):
            t = i / n
            k = (int(math.floor((x0 + t * (x1 - x0)) / CELL)), int(math.floor((y0 + t * (y1 - y0)) / CELL)))
            if k != last:
                self.cells.setdefault(k, []).append(s)
                last = k

    def near(self, x, y, r, types=None):
        """Distance of the nearest line, if it is at most r (plus a bit), else infinity."""
        best = math.inf
        kx, ky = int(math.floor(x / CELL)), int(math.floor(y / CELL))
        k = int(r / CELL) + 2
        seen = set()
        for ix in range(kx - k, kx + k + 1):
            for iy in range(ky - k, ky + k + 1):
                for s in self.cells.get((ix, iy), ()):
                    if types is not None and s[4] not in types or id(s) in seen:
                        continue
                    seen.add(id(s))
                    d = dist_seg(x, y, s[0], s[1], s[2], s[3])
                    if d < best:
                        best = d
        return best


def dist_seg(x, y, x0, y0, x1, y1):
    dx, dy = x1 - x0, y1 - y0
    l2 = dx * dx + dy * dy
    t = 0.0 if l2 == 0 else max(0.0, min(1.0, ((x - x0) * dx + (y - y0) * dy) / l2))
    return math.hypot(x0 + t * dx - x, y0 + t * dy - y)


def by_layer(g, job):
    """{layer: Lines}, nozzle offsets taken out."""
    off = []
    for e in job.extruders:
        off.append((float(e.get("machine_nozzle_offset_x", 0)), float(e.get("machine_nozzle_offset_y", 0))))
    res = {}
    for m in g.moves:
        if m.g == "G1" and m.de > 0 and (m.x != m.x0 or m.y != m.y0) and m.layer is not None:
            ox, oy = off[m.tool] if m.tool < len(off) else (0, 0)
            res.setdefault(m.layer, Lines()).add(m.x0 + ox, m.y0 + oy, m.x + ox, m.y + oy, m.typ, m)
    return res


def section(job, z, margin=0.0):
    """Outlines of all meshes at a height in the coordinates of the g-code."""
    r = []
    for m, ms, _ in job.meshes:
        px, py = e2e.CX + float(ms.get("mesh_position_x", 0)), e2e.CY + float(ms.get("mesh_position_y", 0))
        for p in m.section(z):
            r.append([(x + px, y + py) for x, y in p])
    return r


def ends(job):
    """Heights at which the cross-section jumps."""
    return [z for m, _, _ in job.meshes for s in m.solids for z in (s.z0, s.z1)]


def depth(polys, x, y):
    """How deep inside of the polygons a point is; negative outside."""
    if not polys:
        return -math.inf
    d = models.dist_to_polys(polys, x, y)
    return d if models.inside(polys, x, y) != 0 else -d


def heights(job):
    lh = float(job.settings.get("layer_height", slicing.DEFAULTS["layer_height"]))
    lh0 = float(job.settings.get("layer_height_0", slicing.DEFAULTS["layer_height_0"]))
    return lh0, lh


def top(n, lh0, lh):
    return lh0 + n * lh


def middle(n, lh0, lh):
    return lh0 / 2 if n == 0 else lh0 + (n - 0.5) * lh
