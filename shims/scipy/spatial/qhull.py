"""Stand-ins for Delaunay (some valid triangulation of the convex hull, with
every point a vertex) and Voronoi (brute force over point triples)."""
import math

import numpy as np
from _shimlib import ShimUnsupported


class QhullError(RuntimeError):
    pass


def _orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def _hull(pts):
    """Indices of the strict convex hull, counter-clockwise."""
    order = sorted(range(len(pts)), key=lambda k: pts[k])
    uniq = []
    for k in order:
        if not uniq or pts[uniq[-1]] != pts[k]:
            uniq.append(k)
    if len(uniq) < 3:
        return uniq

    def half(seq):
        out = []
        for k in seq:
            while len(out) >= 2 and _orient(pts[out[-2]], pts[out[-1]],
                                            pts[k]) <= 0:
                out.pop()
            out.append(k)
        return out
    lo, up = half(uniq), half(reversed(uniq))
    return lo[:-1] + up[:-1]


class Delaunay:
    def __init__(self, points, *args, **kwargs):
        points = np.asarray(points, dtype=float)
        if points.ndim != 2 or points.shape[1] != 2:
            raise ValueError('Need (n, 2) points')
        if not np.isfinite(points).all():
            raise ValueError('Points cannot contain NaN')
        pts = [tuple(p) for p in points.tolist()]
        hull = _hull(pts)
        if len(hull) < 3:
            raise QhullError('Initial simplex is flat')
        tris = [(hull[0], hull[k], hull[k + 1])
                for k in range(1, len(hull) - 1)]
        seen = {pts[k] for k in hull}
        for k in range(len(pts)):
            if pts[k] in seen:
                continue
            seen.add(pts[k])
            nxt = []
            for (a, b, c) in tris:
                o = (_orient(pts[a], pts[b], pts[k]),
                     _orient(pts[b], pts[c], pts[k]),
                     _orient(pts[c], pts[a], pts[k]))
                if min(o) < 0:
                    nxt.append((a, b, c))
                    continue
                for (u, v), w in zip(((a, b), (b, c), (c, a)), o):
                    if w > 0:
                        nxt.append((u, v, k))
            tris = nxt
        self.points = points
        self.simplices = np.array(tris, dtype=np.int32)
        self.vertices = self.simplices
        self.npoints = len(points)
        self.nsimplex = len(tris)

    def __getattr__(self, name):
        raise ShimUnsupported('Delaunay.' + name)


class ConvexHull:
    def __init__(self, points, *args, **kwargs):
        points = np.asarray(points, dtype=float)
        pts = [tuple(p) for p in points.tolist()]
        hull = _hull(pts)
        if len(hull) < 3:
            raise QhullError('Initial simplex is flat')
        self.points = points
        self.vertices = np.array(hull, dtype=np.int32)

    def __getattr__(self, name):
        raise ShimUnsupported('ConvexHull.' + name)


class Voronoi:
    def __init__(self, points, *args, **kwargs):
        points = np.array(points, dtype=float)
        pts = [tuple(p) for p in points.tolist()]
        n = len(pts)
        if len(_hull(pts)) < 3:
            raise QhullError('Initial simplex is flat')
        verts = []        # (x, y)
        owners = []       # set of points at equal distance
        for a in range(n):
            for b in range(a + 1, n):
                for c in range(b + 1, n):
                    o = _orient(pts[a], pts[b], pts[c])
                    if abs(o) < 1e-12:
                        continue
                    (ax, ay), (bx, by), (cx, cy) = pts[a], pts[b], pts[c]
                    d = 2 * o
                    bx -= ax
                    by -= ay
                    cx -= ax
                    cy -= ay
                    ux = (cy * (bx * bx + by * by) - by * (cx * cx + cy * cy)) / d
                    uy = (bx * (cx * cx + cy * cy) - cx * (bx * bx + by * by)) / d
                    r = math.hypot(ux, uy)
                    x, y = ax + ux, ay + uy
                    if any(math.hypot(px - x, py - y) < r - 1e-9 * (1 + r)
                           for px, py in pts):
                        continue
                    own = {k for k in range(n)
                           if abs(math.hypot(pts[k][0] - x, pts[k][1] - y) - r)
                           <= 1e-9 * (1 + r)}
                    if own not in owners:
                        owners.append(own)
                        verts.append((x, y))
        ridge_points, ridge_vertices = [], []
        for a in range(n):
            for b in range(a + 1, n):
                vs = [k for k in range(len(verts))
                      if a in owners[k] and b in owners[k]]
                if len(vs) == 2:
                    ridge_points.append((a, b))
                    ridge_vertices.append(vs)
                elif len(vs) == 1:
                    # infinite ridge iff the open half line exists: a and b
                    # both on the hull and adjacent in the vertex' circle
                    if self._unbounded(pts, verts[vs[0]], a, b):
                        ridge_points.append((a, b))
                        ridge_vertices.append([-1, vs[0]])
        regions, point_region = [], []
        for a in range(n):
            reg = [k for k in range(len(verts)) if a in owners[k]]
            if any(-1 in rv and a in rp
                   for rp, rv in zip(ridge_points, ridge_vertices)):
                reg = [-1] + reg
            else:
                cx = sum(verts[k][0] for k in reg) / len(reg)
                cy = sum(verts[k][1] for k in reg) / len(reg)
                reg.sort(key=lambda k: math.atan2(verts[k][1] - cy,
                                                  verts[k][0] - cx))
                if a % 2:       # either way around
                    reg.reverse()
            regions.append(reg)
        # like Qhull, regions are listed in an order unrelated to the points,
        # with an empty region somewhere in the list
        perm = list(range(n))[::-1]
        out = []
        where = {}
        for r, k in enumerate(perm):
            if r == 1:
                out.append([])
            where[k] = len(out)
            out.append(regions[k])
        point_region = [where[k] for k in range(n)]
        self.points = points
        self.vertices = np.array(verts, dtype=float).reshape(-1, 2)
        self.regions = out
        self.point_region = np.array(point_region, dtype=np.int64)
        self.ridge_points = np.array(ridge_points, dtype=np.int32).reshape(-1, 2)
        self.ridge_vertices = [list(map(int, rv)) for rv in ridge_vertices]
        self.npoints = n

    @staticmethod
    def _unbounded(pts, v, a, b):
        (ax, ay), (bx, by) = pts[a], pts[b]
        dx, dy = bx - ax, by - ay
        length = math.hypot(dx, dy)
        for sx in (1, -1):
            nx, ny = -dy / length * sx, dx / length * sx
            # direction n is unbounded iff no point is strictly further along n
            # than a (and b)
            ref = ax * nx + ay * ny
            if all(px * nx + py * ny <= ref + 1e-9
                   for k, (px, py) in enumerate(pts)):
                # among collinear hull points, a and b must be neighbours
                t = [(px - ax) * dx + (py - ay) * dy
                     for k, (px, py) in enumerate(pts)
                     if k not in (a, b) and
                     abs(px * nx + py * ny - ref) <= 1e-9]
                if not any(0 < s < length * length for s in t):
                    return True
        return False

    def __getattr__(self, name):
        raise ShimUnsupported('Voronoi.' + name)
