"""Random closed triangle meshes whose cross-sections are known analytically.

A model is a list of solids; every solid knows its triangles and, for any height, its outline polygons.
Coordinates are millimetres in the print frame (z up, z >= 0)."""
import math
import struct


def star_polygon(rng, n, r, jitter=0.4, cx=0.0, cy=0.0, phase=None, q=0.01):
    """Counter-clockwise, star-shaped about (cx, cy)."""
    phase = rng.uniform(0, 2 * math.pi) if phase is None else phase
    pts = []
    for i in range(n):
        a = phase + 2 * math.pi * (i + (rng.uniform(-0.3, 0.3) if jitter else 0)) / n
        rr = r * (1 - jitter * rng.random())
        pts.append((round((cx + rr * math.cos(a)) / q) * q, round((cy + rr * math.sin(a)) / q) * q))
    return pts


def regular(n, r, cx=0.0, cy=0.0, phase=0.0):
    return [(cx + r * math.cos(phase + 2 * math.pi * i / n), cy + r * math.sin(phase + 2 * math.pi * i / n)) for i in range(n)]


class Frustum:
    """A star-shaped outline (about c) extruded from z0 to z1, scaled linearly about c from s0 to s1, optionally with a
    similar, smaller hole (factor h of the outline) all the way through."""

    def __init__(self, pts, c, z0, z1, s0=1.0, s1=1.0, hole=0.0):
        self.pts, self.c, self.z0, self.z1, self.s0, self.s1, self.hole = pts, c, z0, z1, s0, s1, hole

    def ring(self, z, factor=1.0):
        t = (z - self.z0) / (self.z1 - self.z0)
        s = (self.s0 + (self.s1 - self.s0) * t) * factor
        cx, cy = self.c
        return [(cx + (x - cx) * s, cy + (y - cy) * s) for x, y in self.pts]

    def section(self, z):
        if not (self.z0 < z < self.z1):
            return []
        r = [self.ring(z)]
        if self.hole:
            r.append(self.ring(z, self.hole)[::-1])
        return r

    def triangles(self):
        n = len(self.pts)
        lo = [(x, y, self.z0) for x, y in self.ring(self.z0)]
        hi = [(x, y, self.z1) for x, y in self.ring(self.z1)]
        t = []
        for i in range(n):
            j = (i + 1) % n
            t.append((lo[i], lo[j], hi[j]))
            t.append((lo[i], hi[j], hi[i]))
        if self.hole:
            li = [(x, y, self.z0) for x, y in self.ring(self.z0, self.hole)]
            hi2 = [(x, y, self.z1) for x, y in self.ring(self.z1, self.hole)]
            for i in range(n):
                j = (i + 1) % n
                t.append((li[j], li[i], hi2[i]))
                t.append((li[j], hi2[i], hi2[j]))
                t.append((lo[j], lo[i], li[i]))
                t.append((lo[j], li[i], li[j]))
                t.append((hi[i], hi[j], hi2[j]))
                t.append((hi[i], hi2[j], hi2[i]))
        else:
            cl = (*self.c, self.z0)
            ch = (*self.c, self.z1)
            for i in range(n):
                j = (i + 1) % n
                t.append((cl, lo[j], lo[i]))
                t.append((ch, hi[i], hi[j]))
        return t

    def area(self, z):
        return sum(poly_area(p) for p in self.section(z))

    def volume(self):
        a = poly_area(self.pts) * (1 - self.hole**2)
        h = self.z1 - self.z0
        return a * h * (self.s0 * self.s0 + self.s0 * self.s1 + self.s1 * self.s1) / 3

    def bounds(self):
        ps = self.ring(self.z0) + self.ring(self.z1)
        return (min(p[0] for p in ps), min(p[1] for p in ps), max(p[0] for p in ps), max(p[1] for p in ps))


def poly_area(p):
    return sum(p[i - 1][0] * p[i][1] - p[i][0] * p[i - 1][1] for i in range(len(p))) / 2


def box(x0, y0, x1, y1, z0, z1):
    return Frustum([(x0, y0), (x1, y0), (x1, y1), (x0, y1)], ((x0 + x1) / 2, (y0 + y1) / 2), z0, z1)


def cylinder(cx, cy, r, z0, z1, n=24, s1=1.0, hole=0.0):
    return Frustum(regular(n, r, cx, cy), (cx, cy), z0, z1, 1.0, s1, hole)


class Model:
    def __init__(self, solids):
        self.solids = solids

    def triangles(self):
        return [t for s in self.solids for t in s.triangles()]

    def section(self, z):
        return [p for s in self.solids for p in s.section(z)]

    def height(self):
        return max(s.z1 for s in self.solids)

    def bounds(self):
        b = [s.bounds() for s in self.solids]
        return (min(x[0] for x in b), min(x[1] for x in b), max(x[2] for x in b), max(x[3] for x in b))

    def describe(self):
        return [
            {"n": len(s.pts), "z": [round(s.z0, 3), round(s.z1, 3)], "scale": [round(s.s0, 3), round(s.s1, 3)], "hole": round(s.hole, 3), "bounds": [round(v, 2) for v in s.bounds()]}
            for s in self.solids
        ]


def inside(polys, x, y, rule="nonzero"):
    """Winding number of the polygons around a point."""
    w = 0
    for p in polys:
        x0, y0 = p[-1]
        for x1, y1 in p:
            if (y0 <= y) != (y1 <= y):
                c = (x1 - x0) * (y - y0) - (x - x0) * (y1 - y0)
                if y1 > y0:
                    if c > 0:
                        w += 1
                elif c < 0:
                    w -= 1
            x0, y0 = x1, y1
    return w


def dist_to_polys(polys, x, y):
    best = 1e18
    for p in polys:
        x0, y0 = p[-1]
        for x1, y1 in p:
            dx, dy = x1 - x0, y1 - y0
            l2 = dx * dx + dy * dy
            t = 0.0 if l2 == 0 else max(0.0, min(1.0, ((x - x0) * dx + (y - y0) * dy) / l2))
            ex, ey = x0 + t * dx - x, y0 + t * dy - y
            d = ex * ex + ey * ey
            if d < best:
                best = d
            x0, y0 = x1, y1
    return math.sqrt(best)


def write_stl(path, tris, ascii_=False, name="m"):
    if ascii_:
        with open(path, "w") as f:
            f.write("solid %s\n" % name)
            for t in tris:
                f.write("facet normal 0 0 0\n outer loop\n")
                for p in t:
                    f.write("  vertex %.6f %.6f %.6f\n" % p)
                f.write(" endloop\nendfacet\n")
            f.write("endsolid\n")
    else:
        with open(path, "wb") as f:
            f.write(b"verif".ljust(80, b"\0") + struct.pack("<I", len(tris)))
            for t in tris:
                f.write(struct.pack("<12fH", 0, 0, 0, *t[0], *t[1], *t[2], 0))


def random_solid(rng, z0=0.0, size=(3, 12), height=(1.0, 5.0), cx=0.0, cy=0.0, kinds=None):
    kind = rng.choice(kinds or ["box", "star", "cyl", "ring", "frustum", "thin", "needle", "overhang"])
    r = rng.uniform(*size)
    z1 = z0 + rng.uniform(*height)
    if kind == "box":
        w, d = r, rng.uniform(*size)
        return box(cx - w, cy - d, cx + w, cy + d, z0, z1)
    if kind == "thin":
        w, d = rng.uniform(0.1, 1.2), r
        if rng.random() < 0.5:
            w, d = d, w
        return box(cx - w / 2, cy - d, cx + w / 2, cy + d, z0, z1)
    if kind == "cyl":
        return cylinder(cx, cy, r, z0, z1, rng.choice([5, 12, 32, 60]))
    if kind == "ring":
        return cylinder(cx, cy, r, z0, z1, rng.choice([6, 16, 40]), hole=rng.uniform(0.3, 0.9))
    if kind == "needle":
        return cylinder(cx, cy, rng.uniform(0.2, 1.0), z0, z1, 8)
    if kind == "frustum":
        return Frustum(star_polygon(rng, rng.randint(3, 10), r, 0.4, cx, cy), (cx, cy), z0, z1, 1.0, rng.uniform(0.15, 1.0))
    if kind == "overhang":
        return Frustum(star_polygon(rng, rng.randint(4, 10), r, 0.3, cx, cy), (cx, cy), z0, z1, rng.uniform(0.3, 0.8), 1.0)
    return Frustum(star_polygon(rng, rng.randint(4, 16), r, 0.6, cx, cy), (cx, cy), z0, z1)


def random_model(rng, parts=(1, 3), spread=14.0, kinds=None, size=(3, 10), height=(1.0, 4.0), stacked=0.3):
    solids = []
    for i in range(rng.randint(*parts)):
        if solids and rng.random() < stacked:
            base = rng.choice(solids)
            solids.append(random_solid(rng, base.z1, (size[0] * 0.5, size[1]), height, base.c[0] + rng.uniform(-2, 2), base.c[1] + rng.uniform(-2, 2), kinds))
        else:
            solids.append(random_solid(rng, 0.0, size, height, rng.uniform(-spread, spread) if i else 0.0, rng.uniform(-spread, spread) if i else 0.0, kinds))
    return Model(solids)
