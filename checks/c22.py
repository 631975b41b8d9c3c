"""C22: densities measured in the cells of a grid.

Explored: every set of 3 and 4 (5) agents over alphabets of positions (grid,
scattered, nearly collinear, sharp corners, negative), several cell sizes.
Oracle: cells of the Voronoi diagram by exact rational half-plane clipping of
the bounding box."""
import itertools
import math
from fractions import Fraction as F

from mc.num import close

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all sets of 3 and 4 of 9 positions in each of 4 alphabets, 3 '
             'cell sizes, 3 offsets (Voronoi: two thirds of these); all sets of up to 3 '
             'of 9 inside 2 wide borders; classical '
             'density: all multisets of up to 4 of 9 positions',
    'thorough': 'sets of up to 6, 5 cell sizes, 5 offsets'}
ASSUMPTIONS = ['scipy.spatial.Voronoi and shapely are replaced by stand-ins',
               'no three positions collinear in sets of three, no duplicates '
               '(Voronoi densities)',
               'unbounded Voronoi cells: only bounds of the second Voronoi '
               'density are judged']
CASE_TIMEOUT = 800

ALPHA = {
    'grid': [(0., 0.), (1., 0.), (2., 0.), (0., 1.), (1., 1.), (2., 1.),
             (0., 2.5), (1., 2.5), (2.25, 2.)],
    'scatter': [(.125, .25), (1.75, .375), (3.25, .125), (.625, 1.875),
                (2.375, 1.5), (3.5, 2.25), (1.25, 3.125), (2.625, 3.25),
                (.375, 1.125)],
    'flat': [(0., 0.), (1., .0625), (2., 0.), (3., .125), (1.5, -.0625),
             (.5, .03125), (2.5, .0625), (4., .5), (1., -.125)],
    'sharp': [(0., 0.), (4., .25), (4., -.25), (3., 0.), (3.5, .125),
              (1., .03125), (2., -.0625), (3.75, -.125), (4.25, 0.)],
}
SIZES = [1.0, .75, 2.5, .375, 4.0]
OFFSETS = [(0., 0.), (-1.25, -2.125), (-.5, 7.75), (100.25, -50.), (-3., -3.)]


def setup():
    global np, Q, QhullError
    import numpy as np
    from crowddynamics.core import quantities as Q
    from scipy.spatial.qhull import QhullError


def cases(tier):
    t = tier == 'thorough'
    out = []
    for a in sorted(ALPHA):
        for n in (3, 4, 5, 6)[:4 if t else 2]:
            for c in range(5 if t else 3):
                for o in range(5 if t else 3):
                    if t or (c + o) % 3:
                        out.append({'kind': 'voronoi', 'a': a, 'n': n, 'c': c,
                                    'o': o})
    for a in sorted(ALPHA):
        for b in range(len(BORDERS)):
            for c in range(3):
                out.append({'kind': 'inner', 'a': a, 'b': b, 'c': c, 't': t})
    for a in sorted(ALPHA):
        for c in range(5):
            out.append({'kind': 'classical', 'a': a, 'c': c, 't': t})
    return out


def clip(poly, a, b, c):
    """The part of a polygon where a*x + b*y <= c."""
    out = []
    for k in range(len(poly)):
        p, q = poly[k], poly[(k + 1) % len(poly)]
        fp, fq = a * p[0] + b * p[1] - c, a * q[0] + b * q[1] - c
        if fp <= 0:
            out.append(p)
        if fp * fq < 0:
            t = fp / (fp - fq)
            out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
    return out


def area(poly):
    s = F(0)
    for k in range(len(poly)):
        p, q = poly[k], poly[(k + 1) % len(poly)]
        s += p[0] * q[1] - p[1] * q[0]
    return abs(s) / 2


def rect(x0, x1, y0, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


def cell_of(k, pts, box):
    poly = box
    x, y = pts[k]
    for j, (u, v) in enumerate(pts):
        if j != k and poly:
            a, b = 2 * (u - x), 2 * (v - y)
            poly = clip(poly, a, b, u * u + v * v - x * x - y * y)
    return poly


def orient(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def unbounded(k, pts):
    """On the boundary of the convex hull."""
    others = [p for j, p in enumerate(pts) if j != k]
    for p in others:
        s = [orient(pts[k], p, q) for q in others if q != p]
        if all(v >= 0 for v in s) or all(v <= 0 for v in s):
            return True
    return False


def run_case(case, rec):
    globals()['run_' + case['kind']](case, rec)


def run_voronoi(case, rec):
    size = SIZES[case['c']]
    ox, oy = OFFSETS[case['o']]
    c = F(size)
    for sel in itertools.combinations(ALPHA[case['a']], case['n']):
        arr = np.array(sel) + np.array((ox, oy))
        pts = [(F(x), F(y)) for x, y in arr.tolist()]
        if all(orient(pts[0], pts[1], p) == 0 for p in pts):
            continue
        rec.state((case['a'], sel, size, ox))
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        box = rect(min(xs), max(xs), min(ys), max(ys))
        if area(box) == 0:
            continue
        i0, i1 = math.floor(min(xs) / c), math.floor(max(xs) / c)
        j0, j1 = math.floor(min(ys) / c), math.floor(max(ys) / c)
        shape = (i1 - i0 + 1, j1 - j0 + 1)
        cells = [cell_of(k, pts, box) for k in range(len(pts))]
        areas = [area(p) for p in cells]
        d = dict(points=arr.tolist(), size=size)

        before = arr.copy()
        bb = Q.bounding_box(arr)
        rec.check(bb.tolist() == [[float(min(xs)), float(max(xs))],
                                  [float(min(ys)), float(max(ys))]],
                  'bbox', 'bounding box', got=bb.tolist(), **d)
        got = Q.density_voronoi_1(arr, size)
        rec.trace()
        if rec.check(got.shape == shape, 'voronoi1-shape', 'shape of the '
                     'density', got=got.shape, want=shape, **d):
            for i in range(shape[0]):
                for j in range(shape[1]):
                    rec.step()
                    want = F(0)
                    for poly, s in zip(cells, areas):
                        p = poly
                        x0, y0 = (i0 + i) * c, (j0 + j) * c
                        for a, b, e in ((1, 0, x0 + c), (-1, 0, -x0),
                                        (0, 1, y0 + c), (0, -1, -y0)):
                            if p:
                                p = clip(p, a, b, e)
                        if p:
                            want += area(p) / s
                    want = float(want / c ** 2)
                    rec.check(abs(got[i, j] - want) <= 1e-6 * (1 + want),
                              'voronoi1', 'density of a cell', cell=(i, j),
                              got=float(got[i, j]), want=want, **d)
            total = float(got.sum()) * size ** 2
            rec.check(close(total, len(pts), 1e-6), 'voronoi1-total',
                      'the density does not add up to the number of agents',
                      got=total, **d)

        got = Q.density_voronoi_2(arr, size)
        rec.trace()
        check_second(rec, got, pts, c, d)
        rec.check((arr == before).all(), 'pure', 'the positions were changed')


def check_second(rec, got, pts, c, d):
    """The second Voronoi density."""
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    box = rect(min(xs), max(xs), min(ys), max(ys))
    i0, i1 = math.floor(min(xs) / c), math.floor(max(xs) / c)
    j0, j1 = math.floor(min(ys) / c), math.floor(max(ys) / c)
    shape = (i1 - i0 + 1, j1 - j0 + 1)
    hull = [unbounded(k, pts) for k in range(len(pts))]
    big = rect(min(xs) - 10 ** 6, max(xs) + 10 ** 6, min(ys) - 10 ** 6,
               max(ys) + 10 ** 6)
    full = [area(cell_of(k, pts, box if hull[k] else big))
            for k in range(len(pts))]
    if rec.check(got.shape == shape, 'voronoi2-shape', 'shape of the '
                 'density', got=got.shape, want=shape, **d):
        for i in range(shape[0]):
            for j in range(shape[1]):
                here = [k for k, (x, y) in enumerate(pts) if
                        math.floor(x / c) == i0 + i and
                        math.floor(y / c) == j0 + j]
                v = float(got[i, j])
                if not here:
                    rec.check(v == 0, 'voronoi2', 'density of an empty '
                              'cell', cell=(i, j), got=v, **d)
                    continue
                want = float(len(here) / sum(full[k] for k in here))
                if any(hull[k] for k in here):
                    rec.check(0 < v <= want * (1 + 1e-6), 'voronoi2-hull',
                              'density of a cell of border agents',
                              cell=(i, j), got=v, bound=want, **d)
                else:
                    rec.check(close(v, want, 1e-6), 'voronoi2', 'density '
                              'of a cell', cell=(i, j), got=v, want=want,
                              **d)


# borders of a crowd, far from the agents inside
BORDERS = [[(-20., -21.), (25., -19.), (2., 33.)],
           [(-15., 1.5), (4., -14.), (19., 2.), (1., 17.)]]


def run_inner(case, rec):
    """Agents whose cells are bounded, several to a cell of the grid."""
    size = (1.0, 2.5, 4.0)[case['c']]
    border = BORDERS[case['b']]
    ox, oy = OFFSETS[case['c']]
    for n in (1, 2, 3, 4)[:4 if case['t'] else 3]:
        for sel in itertools.combinations(ALPHA[case['a']], n):
            arr = np.array(list(sel) + border) + np.array((ox, oy))
            pts = [(F(x), F(y)) for x, y in arr.tolist()]
            rec.state((case['a'], case['b'], sel, size))
            got = Q.density_voronoi_2(arr, size)
            rec.trace()
            check_second(rec, got, pts, F(size),
                         dict(points=arr.tolist(), size=size))


def run_classical(case, rec):
    size = SIZES[case['c']]
    c = F(size)
    for ox, oy in OFFSETS[:5 if case['t'] else 3]:
        for n in range(1, 6 if case['t'] else 5):
            for sel in itertools.combinations_with_replacement(
                    ALPHA[case['a']], n):
                arr = np.array(sel) + np.array((ox, oy))
                pts = [(math.floor(F(x) / c), math.floor(F(y) / c))
                       for x, y in arr.tolist()]
                i0, j0 = min(p[0] for p in pts), min(p[1] for p in pts)
                got = Q.density_classical(arr, size)
                rec.trace()
                rec.state((case['a'], sel, size, ox))
                want = [[0.0] * (max(p[1] for p in pts) - j0 + 1)
                        for _ in range(max(p[0] for p in pts) - i0 + 1)]
                for i, j in pts:
                    want[i - i0][j - j0] += 1
                want = [[v / size ** 2 for v in row] for row in want]
                ok = list(got.shape) == [len(want), len(want[0])] and all(
                    close(a, b) for r, s in zip(got.tolist(), want)
                    for a, b in zip(r, s))
                rec.check(ok, 'classical', 'classical density',
                          points=arr.tolist(), size=size, got=got.tolist(),
                          want=want)
