"""C14: skin-to-skin distances, normals and rotational moments.

Explored: every pair of bodies over grids of positions, radii and
orientations; every body against every wall.  Oracle: exact rational geometry
for the minimum over all pairs of circles; any of several nearest pairs may
be chosen."""
import itertools
import math
from fractions import Fraction as F

from mc.num import close, vclose

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'circle pairs: 8 positions x 8 positions x 4 x 4 radii; '
             'three-circle pairs: 4 x 8 orientations x 12 positions x 3 x 3 '
             'sizes; walls: 9 x 25 positions x 4 radii, three-circle bodies '
             '8 orientations x 3 sizes',
    'thorough': 'three-circle pairs: 16 x 16 orientations x 24 positions'}
ASSUMPTIONS = ['walls have positive length',
               'nearest pairs whose distances differ by less than 1e-9 may be '
               'chosen either way']


def setup():
    global np, D
    import numpy as np
    from crowddynamics.core import distance as D


P = [(0., 0.), (1., 0.), (0., -2.), (.5, .5), (-1.25, 3.), (100., -7.),
     (1e-6, 0.), (.3, .4)]
R = [0.0, .25, .5, 2.0]
P3 = [(0., .3), (0., 0.), (.5, 0.), (-.4, .1), (1., 1.), (.2, -.9), (3., 0.),
      (-2., .25), (0., .65), (.7, -.7), (1.5, .001), (-30., 40.)]
P3T = P3 + [(.1, .1), (-.1, .6), (.4, .6), (-.6, -.6), (.9, .2), (.62, 0.),
            (0., -.62), (.5, .5), (-1., .3), (.33, -.9), (5., -5.), (.05, 0.)]
# (r_t, r_s, r_ts) of the body types, and one with dominant shoulders
SIZES = [(.16, .10, .16), (.12, .07, .13), (.1, .2, .3)]
WALLS = [((0., 0.), (1., 0.)), ((0., 0.), (0., 3.)), ((-1., -1.), (2., 1.)),
         ((2., 1.), (-1., -1.)), ((.5, 0.), (.25, 4.)), ((5., 5.), (5.01, 5.)),
         ((-10., 0.), (10., .5)), ((1., 2.), (1., -2.)), ((0., 1.), (-3., 0.))]
WP = [(x, y) for x in (-1.5, 0., .5, 1., 2.25) for y in (-2., 0., .25, 1., 3.)]


def cases(tier):
    t = tier == 'thorough'
    out = [{'kind': 'circles', 'a': k} for k in range(len(P))]
    n = 16 if t else 8
    for i in range(n if t else 4):
        for s in range(len(SIZES)):
            out.append({'kind': 'three', 'i': i, 's': s, 'n': n, 't': t})
    for w in range(len(WALLS)):
        out.append({'kind': 'wall', 'w': w})
        for s in range(len(SIZES)):
            out.append({'kind': 'wall3', 'w': w, 's': s})
    return out


def parts(x, phi, size):
    rt, rs, ts = size
    t = (math.sin(phi), -math.cos(phi))
    return ([x, (x[0] - ts * t[0], x[1] - ts * t[1]),
             (x[0] + ts * t[0], x[1] + ts * t[1])], [rt, rs, rs])


def circ(x0, r0, x1, r1):
    d = math.hypot(x0[0] - x1[0], x0[1] - x1[1])
    n = ((x0[0] - x1[0]) / d, (x0[1] - x1[1]) / d) if d else (0., 0.)
    return d - r0 - r1, n


def line(x, r, p0, p1):
    """Distance to a segment, and the unit vector from its nearest point."""
    fx, fy = F(x[0]), F(x[1])
    ax, ay, bx, by = map(F, p0 + p1)
    dx, dy = bx - ax, by - ay
    t = ((fx - ax) * dx + (fy - ay) * dy) / (dx * dx + dy * dy)
    t = min(F(1), max(F(0), t))
    qx, qy = fx - ax - t * dx, fy - ay - t * dy
    d = math.sqrt(qx * qx + qy * qy)
    n = (float(qx) / d, float(qy) / d) if d else None
    return d - r, n


def arr(v):
    return np.array(v, dtype=float)


def three(x0, r0, x1, r1):
    """Acceptable (h, n, moment 0, moment 1)."""
    all_ = []
    for xi, ri in zip(x0, r0):
        for xj, rj in zip(x1, r1):
            h, n = circ(xi, ri, xj, rj)
            all_.append((h, n, xi, ri, xj, rj))
    hmin = min(a[0] for a in all_)
    out = []
    for h, n, xi, ri, xj, rj in all_:
        if h <= hmin + 1e-9:
            out.append((h, n,
                        [xi[k] + ri * n[k] - x0[0][k] for k in (0, 1)],
                        [xj[k] - rj * n[k] - x1[0][k] for k in (0, 1)]))
    return out


def run_case(case, rec):
    kind = case['kind']
    if kind == 'circles':
        x0 = P[case['a']]
        for x1 in P:
            for r0, r1 in itertools.product(R, R):
                h, n = circ(x0, r0, x1, r1)
                a, b = arr(x0), arr(x1)
                got = D.distance_circles(a, r0, b, r1)
                rec.state((x0, x1, r0, r1))
                rec.trace()
                rec.check(close(got[0], h) and vclose(got[1], n, 1e-9, 1e-12),
                          'circles', 'distance of two circles', x0=x0, r0=r0,
                          x1=x1, r1=r1, got=[float(got[0]), got[1].tolist()],
                          want=[h, n])
                back = D.distance_circles(b, r1, a, r0)
                rec.check(close(back[0], got[0], 1e-12, 1e-12) and
                          vclose(-back[1], got[1], 1e-12, 1e-12), 'symmetry',
                          'distance depends on the order of the circles',
                          x0=x0, x1=x1, r0=r0, r1=r1)
                rec.check(a.tolist() == list(x0) and b.tolist() == list(x1),
                          'pure', 'an argument was changed')
    elif kind == 'three':
        n = case['n']
        s0 = SIZES[case['s']]
        phi0 = -math.pi + .1 + 2 * math.pi * case['i'] / (n if case['t'] else 4)
        x0, r0 = parts((.25, -.5), phi0, s0)
        a0 = tuple(arr(p) for p in x0)
        for q in (P3T if case['t'] else P3):
            for k in range(n):
                phi1 = -math.pi + 2 * math.pi * k / n
                for s1 in SIZES:
                    x1, r1 = parts((.25 + q[0], -.5 + q[1]), phi1, s1)
                    a1 = tuple(arr(p) for p in x1)
                    h, nn, m0, m1 = D.distance_three_circles(
                        a0, tuple(r0), a1, tuple(r1))
                    rec.state((phi0, s0, q, phi1, s1))
                    rec.trace()
                    ok = three(x0, r0, x1, r1)
                    if not any(close(h, w[0]) and vclose(nn, w[1], 1e-7, 1e-7)
                               and vclose(m0, w[2], 1e-7, 1e-7) and
                               vclose(m1, w[3], 1e-7, 1e-7) for w in ok):
                        part = ('distance' if not close(h, ok[0][0]) else
                                'normal' if not any(
                                    vclose(nn, w[1], 1e-7, 1e-7) for w in ok)
                                else 'moment')
                        rec.fail('three-' + part, '%s of two three-circle '
                                 'bodies' % part, x0=x0, r0=r0, x1=x1, r1=r1,
                                 got=[float(h), nn.tolist(), m0.tolist(),
                                      m1.tolist()], want=ok)
                    rec.check(all(v.tolist() == list(w) for v, w in
                                  zip(a0 + a1, x0 + x1)), 'pure',
                              'an argument was changed')
    elif kind == 'wall':
        p0, p1 = WALLS[case['w']]
        for x in WP:
            for r in R:
                h, n = line(x, r, p0, p1)
                got = D.distance_circle_line(arr(x), r, arr(p0), arr(p1))
                rec.state((p0, p1, x, r))
                rec.trace()
                good = close(got[0], h)
                if n is not None and h + r > 1e-9:
                    good = good and vclose(got[1], n, 1e-7, 1e-7)
                rec.check(good, 'wall', 'distance of circle and wall', x=x,
                          r=r, wall=[p0, p1], want=[h, n],
                          got=[float(got[0]), got[1].tolist()])
    else:
        p0, p1 = WALLS[case['w']]
        size = SIZES[case['s']]
        for x in WP:
            for k in range(8):
                phi = -math.pi + 2 * math.pi * k / 8 + .05
                xs, rs = parts(x, phi, size)
                all_ = [(line(q, r, p0, p1), q, r) for q, r in zip(xs, rs)]
                hmin = min(a[0][0] for a in all_)
                got = D.distance_three_circle_line(
                    tuple(arr(q) for q in xs), tuple(rs), arr(p0), arr(p1))
                rec.state((p0, p1, x, phi))
                rec.trace()
                good = False
                for (h, n), q, r in all_:
                    if h > hmin + 1e-9 or not close(got[0], h):
                        continue
                    if n is None or h + r < 1e-9:
                        good = True
                        continue
                    m = [q[i] - r * n[i] - xs[0][i] for i in (0, 1)]
                    if vclose(got[1], n, 1e-7, 1e-7) and \
                            vclose(got[2], m, 1e-7, 1e-7):
                        good = True
                rec.check(good, 'wall-three', 'distance of three-circle body '
                          'and wall', x=xs, r=rs, wall=[p0, p1], want=all_,
                          got=[float(got[0]), got[1].tolist(),
                               got[2].tolist()])
