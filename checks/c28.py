"""C28: vector algebra that everything is built on.

Explored: every tuple of arguments from value grids with zeros, signs, tiny
and huge numbers, multiples of pi, one vector at a time and all at once; every
short sequence of the one operation that works in place.  Oracle: the
definitions on plain numbers."""
import itertools
import math

from mc.num import close, vclose

LEVEL = 'model_checking'
BOUNDS = {
    'quick': '21 x 21 grid of vectors; all pairs from a 7 x 7 grid; 4000 '
             'angles; all sequences of 3 truncations; simple polygons of up '
             'to 6 vertices in both directions from every start',
    'thorough': '41 x 41 grid; pairs from an 11 x 11 grid; 100000 angles'}
ASSUMPTIONS = ['results compared up to rounding (1e-12 relative)']


def setup():
    global np, V, G
    import numpy as np
    from crowddynamics.core import vector2D as V
    from crowddynamics.core import geom2D as G


VALS = [0.0, 1.0, -1.0, .5, -2.5, 3.0, -0.0, 1e-9, -1e-9, 1e8, -1e8, 4.0, -3.0,
        .1, -.1, 7.25, -7.25, 1e-140, 123.456, -1e3, 2.0]
VALS2 = VALS + [k * .37 for k in range(-10, 10)]
SMALL = [0.0, 1.0, -1.0, .5, -3.0, 4.0, 1e6]
SMALL2 = SMALL + [-.25, 1e-7, -1e6, 2.0]
POLYS = {
    'tri': [(0, 0), (2, 0), (0, 3)],
    'square': [(-1, -1), (1, -1), (1, 1), (-1, 1)],
    'l': [(0, 0), (3, 0), (3, 1), (1, 1), (1, 2), (0, 2)],
    'dart': [(0, 0), (2, 1), (4, 0), (2, 5)],
    'far': [(1000, 1000), (1002, 1000), (1002, 1003), (1000, 1003)],
    'penta': [(0, 0), (4, -1), (6, 2), (3, 5), (-1, 3)],
    'colin': [(0, 0), (1, 0), (2, 0), (2, 2)],
    'thin': [(0, 0), (10, 0), (10, .125)],
    'flat': [(0, 0), (1, 1), (2, 2)],
    'c': [(0, 0), (4, 0), (4, 1), (1, 1), (1, 3), (4, 3), (4, 4), (0, 4)],
}


def cases(tier):
    t = tier == 'thorough'
    v = VALS2 if t else VALS
    s = SMALL2 if t else SMALL
    out = [{'kind': 'unary', 'x': x, 't': t} for x in v]
    out += [{'kind': 'binary', 'x': x, 'y': y, 't': t} for x in s for y in s]
    n = 100000 if t else 4000
    out += [{'kind': 'wrap', 'lo': k * n // 8, 'hi': (k + 1) * n // 8, 'n': n}
            for k in range(8)]
    out += [{'kind': 'wrapx'}, {'kind': 'empty'}]
    out += [{'kind': 'trunc', 'x': x, 't': t} for x in s]
    out += [{'kind': 'poly', 'p': p} for p in sorted(POLYS)]
    out += [{'kind': 'degenerate'}]
    return out


def wrap_ok(rec, a, got):
    """In [-pi, pi], congruent, and the end of the interval that was asked."""
    t = 1e-12 * max(1.0, abs(a)) + 1e-12
    rec.check(-math.pi - 1e-15 <= got <= math.pi + 1e-15, 'wrap-range',
              'wrap_to_pi(%r) = %r' % (a, got))
    k = round((a - got) / (2 * math.pi))
    rec.check(abs(got + 2 * math.pi * k - a) <= t, 'wrap-congruent',
              'wrap_to_pi(%r) = %r is another angle' % (a, got))
    if abs(a) <= math.pi - 1e-9:
        rec.check(abs(got - a) <= t, 'wrap-identity',
                  'wrap_to_pi(%r) = %r' % (a, got))


def run_case(case, rec):
    kind = case['kind']
    if kind == 'unary':
        vals = VALS2 if case['t'] else VALS
        rows = [(case['x'], y) for y in vals]
        arr = np.array(rows)
        la, aa = V.length(arr), V.angle(arr)
        rec.check(la.shape == aa.shape == (len(rows),), 'shape',
                  'length/angle of a list of vectors', got=la.shape)
        for k, (x, y) in enumerate(rows):
            v = np.array([x, y])
            keep = v.copy()
            rec.state((x, y))
            rec.trace()
            d = {'v': [x, y]}
            rec.check(close(V.length(v), math.hypot(x, y), 1e-12, 0), 'length',
                      'length', got=float(V.length(v)), **d)
            rec.check(close(V.angle(v), math.atan2(y, x), 1e-12, 1e-15),
                      'angle', 'angle', got=float(V.angle(v)), **d)
            rec.check(close(la[k], math.hypot(x, y), 1e-12, 0) and
                      close(aa[k], math.atan2(y, x), 1e-12, 1e-15), 'array',
                      'length/angle of many vectors differ from one', **d)
            r = V.rotate90(v)
            rec.check(vclose(r, (-y, x), 0, 0), 'rotate90', 'rotate90',
                      got=r.tolist(), **d)
            r = V.rotate270(v)
            rec.check(vclose(r, (y, -x), 0, 0), 'rotate270', 'rotate270',
                      got=r.tolist(), **d)
            n = V.normalize(v)
            l = math.hypot(x, y)
            want = (x / l, y / l) if l else (x, y)
            rec.check(vclose(n, want, 1e-12, 0), 'normalize', 'normalize',
                      got=n.tolist(), **d)
            rec.check(v.tobytes() == keep.tobytes(), 'pure',
                      'an argument was changed', **d)
    elif kind == 'binary':
        s = SMALL2 if case['t'] else SMALL
        a = (case['x'], case['y'])
        rows = [(x, y) for x in s for y in s]
        A0, B0 = np.array([a] * len(rows)), np.array(rows)
        dd, cc = V.dot(A0, B0), V.cross(A0, B0)
        ws = (0.0, .25, 1.0)
        ww = [V.weighted_average(A0, B0, w) for w in ws]
        for k, b in enumerate(rows):
            rec.state((a, b))
            rec.trace()
            u, v = np.array(a), np.array(b)
            d = {'a': a, 'b': b}
            m = (abs(a[0]) + abs(a[1])) * (abs(b[0]) + abs(b[1])) * 1e-12
            want = a[0] * b[0] + a[1] * b[1]
            rec.check(close(V.dot(u, v), want, 1e-12, m) and
                      close(dd[k], want, 1e-12, m), 'dot', 'dot',
                      got=float(V.dot(u, v)), **d)
            want = a[0] * b[1] - a[1] * b[0]
            rec.check(close(V.cross(u, v), want, 1e-12, m) and
                      close(cc[k], want, 1e-12, m), 'cross', 'cross',
                      got=float(V.cross(u, v)), **d)
            for w, arr in zip(ws, ww):
                want = [w * p + (1 - w) * q for p, q in zip(a, b)]
                mm = 1e-12 * max(map(abs, a + b))
                rec.check(vclose(V.weighted_average(u, v, w), want, 1e-12, mm)
                          and vclose(arr[k], want, 1e-12, mm), 'weighted',
                          'weighted_average with weight %s' % w, **d)
            rec.check(u.tolist() == list(a) and v.tolist() == list(b), 'pure',
                      'an argument was changed', **d)
    elif kind == 'wrap':
        n = case['n']
        angles = []
        for k in range(case['lo'], case['hi']):
            angles.append((k - n / 2) * 0.0173 + 1e-3 * ((k * 7919) % 13))
        out = V.wrap_to_pi(np.array(angles))
        for a, o in zip(angles, out.tolist()):
            rec.state(a)
            rec.trace()
            wrap_ok(rec, a, o)
        for a in angles[::37]:
            o = float(V.wrap_to_pi(a))
            wrap_ok(rec, a, o)
            u = V.unit_vector(a)
            rec.check(vclose(u, (math.cos(a), math.sin(a)), 1e-12, 1e-12),
                      'unit', 'unit_vector(%r)' % a, got=u.tolist())
        us = V.unit_vector(np.array(angles))
        rec.check(us.shape == (len(angles), 2), 'unit-shape', 'unit_vector',
                  got=us.shape)
        for a, u in zip(angles, us.tolist()):
            rec.check(vclose(u, (math.cos(a), math.sin(a)), 1e-12, 1e-12),
                      'unit', 'unit_vector of many (%r)' % a, got=u)
    elif kind == 'wrapx':
        pi = math.pi
        for k in (1, 3, 5, 7, -1, -3, -5, 2, 4, -2, -4, 0):
            a = k * pi
            o = float(V.wrap_to_pi(a))
            rec.trace()
            rec.state(k)
            if k % 2:
                want = pi if k > 0 else -pi
                # exact for the values that floating point represents
                if k in (1, -1, 3, -3):
                    rec.check(o == want, 'wrap-odd', 'wrap_to_pi(%d pi)' % k,
                              got=o)
                else:
                    rec.check(abs(abs(o) - pi) < 1e-12, 'wrap-odd',
                              'wrap_to_pi(%d pi)' % k, got=o)
            else:
                rec.check(abs(o) < 1e-12, 'wrap-even',
                          'wrap_to_pi(%d pi)' % k, got=o)
        for e in (1e-15, 1e-12, 1e-9, 1e-6):
            for base in (0, pi, -pi, 2 * pi, -2 * pi, 20 * pi, -21 * pi):
                for a in (base + e, base - e):
                    rec.trace()
                    wrap_ok(rec, a, float(V.wrap_to_pi(a)))
    elif kind == 'empty':
        z = np.zeros((0, 2))
        rec.trace()
        rec.check(V.length(z).shape == (0,) and V.dot(z, z).shape == (0,) and
                  V.unit_vector(np.zeros(0)).shape == (0, 2), 'empty',
                  'operations on no vectors')
        rec.state('empty')
    elif kind == 'trunc':
        s = SMALL2 if case['t'] else SMALL
        lens = (.5, 1.0, 5.0, 1e4)
        for y in s:
            for seq in itertools.product(lens, repeat=3):
                v = np.array([case['x'], y])
                m = [case['x'], y]
                for l in seq:
                    r = V.truncate(v, l)
                    rec.step()
                    h = math.hypot(*m)
                    if h > l:
                        m = [c * l / h for c in m]
                    rec.check(vclose(v, m, 1e-12, 1e-300), 'truncate',
                              'truncate', start=[case['x'], y], lens=seq,
                              got=v.tolist(), want=m)
                    rec.check(r is None, 'truncate-returns', 'truncate '
                              'returned a value')
                rec.state((case['x'], y, seq))
                rec.trace()
    elif kind == 'poly':
        pts = POLYS[case['p']]
        n = len(pts)
        want = abs(sum(pts[i][0] * pts[(i + 1) % n][1] -
                       pts[(i + 1) % n][0] * pts[i][1] for i in range(n))) / 2
        for d in (1, -1):
            for s in range(n):
                for (ox, oy) in ((0, 0), (-50.5, 20.25)):
                    q = [(x + ox, y + oy) for x, y in
                         (pts[s:] + pts[:s])[::d]]
                    arr = np.array(q, dtype=float)
                    got = G.polygon_area(arr)
                    rec.trace()
                    rec.state((case['p'], d, s, ox))
                    rec.check(close(got, want, 1e-9, 1e-9), 'area',
                              'area of %s' % case['p'], got=float(got),
                              want=want)
                    rec.check(arr.tolist() == [list(p) for p in q], 'pure',
                              'polygon_area changed its argument')
                    # closed polygons list the first vertex twice
                    got = G.polygon_area(np.array(q + q[:1], dtype=float))
                    rec.check(close(got, want, 1e-9, 1e-9), 'area-closed',
                              'area of closed %s' % case['p'],
                              got=float(got), want=want)
    else:
        for arr in (np.zeros((0, 2)), np.array([[1., 2.]]),
                    np.array([[1., 2.], [3., 5.]])):
            rec.trace()
            rec.state(len(arr))
            rec.check(G.polygon_area(arr) == 0, 'area-degenerate',
                      'fewer than three vertices have no area', n=len(arr))
