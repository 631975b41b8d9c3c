"""C21: samples of lines, polygons and spawns are uniform and stay inside.

Explored: every sequence of draws on a grid of the source of random numbers
(plus its extreme values), on the real samplers.  Oracle: every sample lies
inside, and the share of the draws which lands in a part (half planes in many
directions, segments) is the share of its length or area."""
import itertools
import math

from mc import rand

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'lines: 9 chains x 60 x 24 draws; polygons: 12 point sets x 24 x '
             '16 x 16 draws; spawns: 9 fields x 2 radii x 20 x 10 x 10 draws; '
             'all combinations of extreme draws',
    'thorough': 'lines 240 x 60, polygons 60 x 40 x 40, spawns 40 x 20 x 20'}
ASSUMPTIONS = ['the generator draws uniform numbers from numpy.random; shares '
               'are compared within the resolution of the grid of draws',
               'scipy.spatial.Delaunay and shapely are stand-ins']
CASE_TIMEOUT = 800

CHAINS = [
    [(0, 0), (4, 0)], [(0, 0), (3, 0), (3, 1)], [(0, 0), (1, 0), (4, 0)],
    [(0, 0), (0, 1), (0, 2), (0, 7)], [(-1, -2), (5, 6), (5, 5)],
    [(0, 0), (1, 0), (1, 1), (0, 1), (0, 0)], [(2, 2), (1, 1)],
    [(100, 50), (100.5, 50), (103, 50), (103, 58), (102, 58)],
    [(0, 0), (1e-3, 0), (1e-3, 1)]]
POLYGONS = [
    [(0, 0), (1, 0), (0, 1)], [(0, 0), (4, 0), (4, 3), (0, 3)],
    [(0, 0), (0, 3), (4, 3), (4, 0)], [(-2, -1), (6, 0), (1, 5)],
    [(0, 0), (3, 0), (5, 2), (4, 6), (-1, 4)],
    [(0, 0), (10, 0), (10, .5), (0, .5)], [(0, 0), (4, 0), (4, 4), (3, 1)],
    [(0, 0), (4, 0), (2, 1), (2, 5)],
    [(0, 0), (4, 0), (4, 3), (0, 3), (1, 1.5), (2, .75)],
    [(100, -40), (101, -40), (103, -38), (102, -36), (100, -37)],
    [(0, 0), (1, 0), (7, 1), (7.5, 3), (0, 1)],
    [(0, 0), (4, 0), (4, 3), (0, 3), (0, 0)]]
EXTREME = [0.0, 2.0 ** -53, .5, 1 - 2.0 ** -53]


def setup():
    global np, S, Field, geo
    import numpy as np
    import shapely.geometry as geo
    from crowddynamics.core import sampling as S
    from crowddynamics.simulation.field import Field


def cases(tier):
    t = tier == 'thorough'
    out = [{'kind': 'line', 'k': k, 't': t} for k in range(len(CHAINS))]
    out += [{'kind': 'polygon', 'k': k, 't': t} for k in range(len(POLYGONS))]
    out += [{'kind': 'parts', 'k': k} for k in range(len(POLYGONS))]
    out += [{'kind': 'spawn', 'k': k, 'r': r, 't': t} for k in range(len(SPAWNS))
            for r in (.25, .5)]
    return out


def run_case(case, rec):
    with rand.owned() as d:
        globals()['run_' + case['kind']](case, rec, d)


def mid(n):
    return [(k + .5) / n for k in range(n)]


def run_line(case, rec, d):
    pts = CHAINS[case['k']]
    n, m = (240, 60) if case['t'] else (60, 24)
    arr = np.array(pts, dtype=float)
    lens = [math.dist(p, q) for p, q in zip(pts, pts[1:])]
    total = sum(lens)
    got = list(S.linestring_length_cumsum(arr))
    want = [sum(lens[:k + 1]) for k in range(len(lens))]
    rec.check(len(got) == len(want) and all(abs(a - b) < 1e-9 * (1 + b)
                                            for a, b in zip(got, want)),
              'cumsum', 'lengths along the chain', got=got, want=want)

    def place(p):
        """Segments the point may lie in, with the arc length there."""
        out = []
        for k, (a, b) in enumerate(zip(pts, pts[1:])):
            L = lens[k]
            s = ((p[0] - a[0]) * (b[0] - a[0]) +
                 (p[1] - a[1]) * (b[1] - a[1])) / L
            off = abs((p[0] - a[0]) * (b[1] - a[1]) -
                      (p[1] - a[1]) * (b[0] - a[0])) / L
            if off < 1e-9 * (1 + abs(p[0]) + abs(p[1])) and \
                    -1e-9 <= s <= L + 1e-9:
                out.append(sum(lens[:k]) + s)
        return out

    gen = S.linestring_sample(arr)
    fresh_every = 97
    arcs = []
    weight = 0
    for seq, p in rand.explore(d, lambda k: mid((n, m)[k]),
                               lambda: next(gen), 2):
        rec.step()
        if p is None:
            rec.inconclusive.append('more than two draws for a point')
            return
        at = place([float(p[0]), float(p[1])])
        rec.check(at, 'line-inside', 'a sample is not on the line',
                  draws=[mid((n, m)[k])[i] for k, i in enumerate(seq)],
                  got=list(map(float, p)))
        if at:
            arcs.append(at[0])
        weight += 1
        rec.state((case['k'], seq))
        if weight % fresh_every == 0:
            d.set([mid((n, m)[k])[i] for k, i in enumerate(seq)])
            q = next(S.linestring_sample(arr))
            rec.check(float(q[0]) == float(p[0]) and
                      float(q[1]) == float(p[1]), 'line-history',
                      'a sample depends on those drawn before it')
    rec.trace(weight)
    if arcs:
        arcs.sort()
        for f in range(1, 40):
            # share of the samples in the first part of the chain
            s = total * f / 40
            share = sum(1 for a in arcs if a <= s) / len(arcs)
            rec.check(abs(share - f / 40) <= 1.5 / n + 1.5 / m * max(lens) /
                      total, 'line-share',
                      'the samples are not uniform along the line',
                      chain=pts, upto=f / 40, got=share)
    for seq in itertools.product(EXTREME, repeat=2):
        d.set(seq)
        p = next(S.linestring_sample(arr))
        rec.check(place([float(p[0]), float(p[1])]), 'line-extreme',
                  'a sample is not on the line', draws=seq,
                  got=list(map(float, p)))
        rec.trace()


# areas ------------------------------------------------------------------------

def hull(points):
    pts = sorted(set(points))

    def half(ps):
        out = []
        for p in ps:
            while len(out) > 1 and (out[-1][0] - out[-2][0]) * (
                    p[1] - out[-2][1]) - (out[-1][1] - out[-2][1]) * (
                    p[0] - out[-2][0]) <= 0:
                out.pop()
            out.append(p)
        return out
    lo, up = half(pts), half(pts[::-1])
    return lo[:-1] + up[:-1]


def clip(poly, a, b, c):
    out = []
    for k in range(len(poly)):
        p, q = poly[k], poly[(k + 1) % len(poly)]
        fp, fq = a * p[0] + b * p[1] - c, a * q[0] + b * q[1] - c
        if fp <= 0:
            out.append(p)
        if fp * fq < 0:
            t = fp / (fp - fq)
            out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
    return out


def area(poly):
    return abs(sum(p[0] * q[1] - p[1] * q[0] for p, q in
                   zip(poly, poly[1:] + poly[:1]))) / 2


def inside(poly, p, eps):
    """In a convex polygon given counterclockwise."""
    for a, b in zip(poly, poly[1:] + poly[:1]):
        L = math.dist(a, b)
        if ((b[0] - a[0]) * (p[1] - a[1]) -
                (b[1] - a[1]) * (p[0] - a[0])) / L < -eps:
            return False
    return True


DIRS = [(1, 0), (0, 1), (1, 1), (1, -1), (2, 1), (1, 3), (-1, 2), (-3, 1)]


def shares(rec, poly_parts, samples, tol, key, what, **detail):
    """Share of the samples in half planes against the share of the area."""
    total = sum(area(p) for p in poly_parts)
    worst = 0
    for a, b in DIRS:
        vals = sorted(a * x + b * y for x, y in samples)
        lo = min(a * x + b * y for p in poly_parts for x, y in p)
        hi = max(a * x + b * y for p in poly_parts for x, y in p)
        for f in range(1, 12):
            c = lo + (hi - lo) * f / 12
            want = sum(area(q) for q in (clip(p, a, b, c)
                                         for p in poly_parts) if q) / total
            n = 0
            while n < len(vals) and vals[n] <= c:
                n += 1
            got = n / len(vals)
            worst = max(worst, abs(got - want))
            rec.check(abs(got - want) <= tol, key, what, direction=(a, b),
                      level=c, got=got, want=want, **detail)
    return worst


def run_polygon(case, rec, d):
    pts = [(float(x), float(y)) for x, y in POLYGONS[case['k']]]
    n, m = (60, 40) if case['t'] else (24, 16)
    arr = np.array(pts)
    h = hull(pts)
    eps = 1e-9 * max(1.0, max(abs(v) for p in pts for v in p))
    gen = S.polygon_sample(arr)
    samples = []
    for seq, p in rand.explore(d, lambda k: mid((n, m, m)[k]),
                               lambda: next(gen), 3):
        rec.step()
        if p is None:
            rec.inconclusive.append('more than three draws for a point')
            return
        p = (float(p[0]), float(p[1]))
        rec.check(inside(h, p, eps), 'inside', 'a sample lies outside',
                  draws=seq, got=p)
        samples.append(p)
        if len(samples) % 997 == 0:
            d.set([mid((n, m, m)[k])[i] for k, i in enumerate(seq)])
            q = next(S.polygon_sample(arr))
            rec.check((float(q[0]), float(q[1])) == p, 'history',
                      'a sample depends on those drawn before it')
        rec.state((case['k'], seq))
    rec.trace(len(samples))
    w = shares(rec, [h], samples, .75 / n + 1.25 / m, 'share',
               'the samples are not uniform in the polygon', polygon=pts)
    rec.sample({'worst share error': w, 'samples': len(samples)})
    # centre of mass, which the grid of draws resolves much better
    cx, cy = centroid(h)
    size = max(max(p[k] for p in h) - min(p[k] for p in h) for k in (0, 1))
    mx = sum(p[0] for p in samples) / len(samples)
    my = sum(p[1] for p in samples) / len(samples)
    rec.check(math.hypot(mx - cx, my - cy) <= size * (.5 / n + .01),
              'centre', 'the samples are not centred in the polygon',
              got=(mx, my), want=(cx, cy))
    for seq in itertools.product(EXTREME, repeat=3):
        d.set(seq)
        p = next(S.polygon_sample(arr))
        rec.check(inside(h, (float(p[0]), float(p[1])), eps), 'extreme',
                  'a sample lies outside', draws=seq, got=list(map(float, p)))
        rec.trace()


def centroid(poly):
    a = cx = cy = 0.0
    ox, oy = poly[0]
    for p, q in zip(poly, poly[1:] + poly[:1]):
        w = (p[0] - ox) * (q[1] - oy) - (q[0] - ox) * (p[1] - oy)
        a += w
        cx += w * (p[0] + q[0] - 2 * ox)
        cy += w * (p[1] + q[1] - 2 * oy)
    return ox + cx / (3 * a), oy + cy / (3 * a)


def run_parts(case, rec, d):
    """The functions the samplers are made of."""
    pts = [(float(x), float(y)) for x, y in POLYGONS[case['k']]]
    tris = list(itertools.permutations(pts[:5], 3))
    for k in range(0, len(tris) - 2, 3):
        mesh = tris[k:k + 3]
        got = [float(v) for v in S.triangle_area_cumsum(np.array(mesh))]
        areas = [area(list(t)) for t in mesh]
        want = [sum(areas[:j + 1]) for j in range(3)]
        rec.state(tuple(mesh))
        rec.trace()
        rec.check(all(abs(a - b) < 1e-9 * (1 + b) for a, b in
                      zip(got, want)) and len(got) == 3, 'areas',
                  'areas of triangles', got=got, want=want, mesh=mesh)
    for t in tris[::5]:
        if area(list(t)) < 1e-6:
            continue
        h = hull(list(t))
        arr = [np.array(p) for p in t]
        pts_ = []
        for seq, p in rand.explore(d, mid(24), lambda: S.
                                   random_sample_triangle(*arr), 2):
            if p is None:
                rec.inconclusive.append('more than two draws')
                return
            p = (float(p[0]), float(p[1]))
            rec.step()
            rec.check(inside(h, p, 1e-7), 'triangle-inside',
                      'a sample lies outside of its triangle', draws=seq,
                      triangle=t, got=p)
            pts_.append(p)
        rec.trace(len(pts_))
        shares(rec, [h], pts_, 2 / 24, 'triangle-share',
               'not uniform in the triangle', triangle=t)
    for a, b in itertools.permutations(pts[:4], 2):
        for seq, p in rand.explore(d, mid(20), lambda: S.random_sample_line(
                np.array(a), np.array(b)), 1):
            if p is None:
                rec.inconclusive.append('more than one draw')
                return
            u = mid(20)[seq[0]]
            one = (a[0] + u * (b[0] - a[0]), a[1] + u * (b[1] - a[1]))
            other = (b[0] + u * (a[0] - b[0]), b[1] + u * (a[1] - b[1]))
            rec.trace()
            rec.check(any(math.dist(q, (float(p[0]), float(p[1]))) < 1e-9 *
                          (1 + abs(q[0]) + abs(q[1])) for q in (one, other)),
                      'segment', 'a draw is not spread along the segment',
                      draw=u, got=list(map(float, p)), ends=(a, b))


# spawns -------------------------------------------------------------------------

def box(x0, y0, x1, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


# spawn, obstacles as segments
SPAWNS = [
    (box(0, 0, 4, 3), []),
    (box(0, 0, 4, 3), [((0, 0), (4, 0))]),
    (box(0, 0, 4, 3), [((2, -1), (2, 4))]),
    (box(0, 0, 4, 3), [((1.5, 1.5), (2.5, 1.5))]),
    ([(0, 0), (4, 0), (4, 4), (3, 1)], []),
    ([(0, 0), (4, 0), (4, 1), (1, 1), (1, 4), (0, 4)], []),
    ([(0, 0), (4, 0), (4, 1), (1, 1), (1, 4), (0, 4)], [((-1, 0), (5, 0))]),
    (box(-3, 2, 2, 4), [((-3, 2), (-3, 4)), ((0, 3), (1, 4))]),
    (box(0, 0, 4, 3), [((9, 9), (10, 9))]),
    # obstacles nearby, which do not touch the spawn
    (box(0, 0, 4, 3), [((-.1, -1), (-.1, 5))]),
    (box(0, 0, 4, 3), [((0, 3.15), (4, 3.15)), ((4.2, 1), (4.2, 2))]),
]


def seg_dist(p, a, b):
    L = (b[0] - a[0]) ** 2 + (b[1] - a[1]) ** 2
    t = max(0.0, min(1.0, ((p[0] - a[0]) * (b[0] - a[0]) +
                           (p[1] - a[1]) * (b[1] - a[1])) / L))
    return math.hypot(p[0] - a[0] - t * (b[0] - a[0]),
                      p[1] - a[1] - t * (b[1] - a[1]))


def in_polygon(poly, p, eps):
    if min(seg_dist(p, a, b) for a, b in zip(poly, poly[1:] + poly[:1])) < eps:
        return True
    odd = False
    for a, b in zip(poly, poly[1:] + poly[:1]):
        if (a[1] > p[1]) != (b[1] > p[1]) and p[0] < a[0] + (
                p[1] - a[1]) * (b[0] - a[0]) / (b[1] - a[1]):
            odd = not odd
    return odd


def run_spawn(case, rec, d):
    poly, walls = SPAWNS[case['k']]
    radius = case['r']
    n, m = (40, 20) if case['t'] else (20, 10)
    f = Field()
    other = geo.Polygon(box(20, 20, 21, 22))
    f.spawns = [other, geo.Polygon(poly)]
    if len(walls) == 1:
        f.obstacles = geo.LineString(walls[0])
    elif walls:
        f.obstacles = geo.MultiLineString(walls)

    def allowed(p):
        # the buffer is drawn as a polygon within the circle
        return in_polygon(poly, p, 1e-9) and all(
            seg_dist(p, a, b) >= radius * .985 - 1e-9 for a, b in walls)

    gen = f.sample_spawn(1, radius)
    letters = lambda k: mid((n, m, m)[k])    # noqa: E731
    # draws which are accepted, to get over those which are not
    escape = None
    for seq in itertools.product(mid(6), repeat=3):
        d.set(seq)
        try:
            next(gen)
            escape = seq
            break
        except rand.TooManyDraws:
            gen = f.sample_spawn(1, radius)
    if not rec.check(escape is not None, 'stuck', 'no draw is accepted'):
        return
    samples = []
    rejected = total = 0
    for seq in itertools.product(letters(0), letters(1), letters(2)):
        d.set(seq, lambda k: escape[k % 3])
        p = next(gen)
        p = (float(p[0]), float(p[1]))
        total += 1
        rec.step()
        rec.state((case['k'], radius, seq))
        rec.check(allowed(p), 'spawn-inside', 'a sample lies outside of the '
                  'spawn or on an obstacle', draws=seq, got=p, spawn=poly,
                  walls=walls, radius=radius)
        if d.pos > 3:
            rejected += 1
        else:
            samples.append(p)
    rec.trace(total)
    rec.check(len(samples) > .1 * total, 'rejects',
              'nearly all draws are rejected', rejected=rejected, total=total)
    if len(samples) > 20:
        # share in half planes against a fine raster of what is allowed
        xs = [p[0] for p in poly]
        ys = [p[1] for p in poly]
        N = 60
        raster = []
        for i in range(N):
            for j in range(N):
                p = (min(xs) + (i + .5) / N * (max(xs) - min(xs)),
                     min(ys) + (j + .5) / N * (max(ys) - min(ys)))
                if allowed(p):
                    raster.append(p)
        for a, b in DIRS:
            vals = sorted(a * x + b * y for x, y in samples)
            ref = sorted(a * x + b * y for x, y in raster)
            for q in range(1, 10):
                c = ref[len(ref) * q // 10] + 1e-9
                got = sum(1 for v in vals if v <= c) / len(vals)
                want = sum(1 for v in ref if v <= c) / len(ref)
                rec.check(abs(got - want) <= 1.0 / n + 1.5 / m, 'spawn-share',
                          'the samples are not uniform in the spawn',
                          spawn=poly, walls=walls, radius=radius,
                          direction=(a, b), level=c, got=got, want=want)
    for seq in itertools.product(EXTREME, repeat=3):
        d.set(seq, lambda k: escape[k % 3])
        p = next(gen)
        rec.check(allowed((float(p[0]), float(p[1]))), 'spawn-extreme',
                  'a sample lies outside of the spawn or on an obstacle',
                  draws=seq, got=list(map(float, p)))
        rec.trace()
    # the other spawn is the other one
    d.set((.5, .5, .5))
    p = next(f.sample_spawn(0, radius))
    rec.check(20 <= p[0] <= 21 and 20 <= p[1] <= 22, 'spawn-index',
              'the sample is of another spawn', got=list(map(float, p)))
