"""Stand-in for Shapely 1.6 (point sets in the plane).

Areal set operations work on a decomposition into convex pieces, so their
results have the right point set, area, bounds and hull, but may be returned
as several touching polygons where GEOS would merge them."""
import math

import numpy as np
from _shimlib import ShimUnsupported

EPS = 1e-9


def _pt(p):
    if isinstance(p, Point):
        p = p.coords[0]
    p = tuple(float(v) for v in p)
    if len(p) not in (2, 3):
        raise ValueError('bad coordinate %r' % (p,))
    return p[:2]


def _coords(x):
    if isinstance(x, BaseGeometry):
        x = x.coords
    return [_pt(p) for p in x]


class CoordinateSequence:
    def __init__(self, pts):
        self._p = list(pts)

    def __len__(self):
        return len(self._p)

    def __iter__(self):
        return iter(self._p)

    def __getitem__(self, k):
        return self._p[k]

    def __array__(self, dtype=None):
        return np.array(self._p, dtype=dtype or float).reshape(-1, 2)

    @property
    def xy(self):
        from array import array
        return (array('d', [p[0] for p in self._p]),
                array('d', [p[1] for p in self._p]))


def _cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def _area2(ring):
    s = 0.0
    for (x0, y0), (x1, y1) in zip(ring, ring[1:] + ring[:1]):
        s += x0 * y1 - x1 * y0
    return s


def _hull(pts):
    pts = sorted(set(pts))
    if len(pts) < 3:
        return pts

    def half(seq):
        out = []
        for p in seq:
            while len(out) >= 2 and _cross(out[-2], out[-1], p) <= 1e-12:
                out.pop()
            out.append(p)
        return out
    lo, up = half(pts), half(reversed(pts))
    return lo[:-1] + up[:-1]


def _clip(poly, a, b, sign=1.0):
    """Part of convex ccw ``poly`` on the left (sign=1) or right of a->b."""
    out = []
    n = len(poly)
    d = [sign * _cross(a, b, p) for p in poly]
    for k in range(n):
        p, q = poly[k], poly[(k + 1) % n]
        dp, dq = d[k], d[(k + 1) % n]
        if dp >= 0:
            out.append(p)
        if (dp > 0 and dq < 0) or (dp < 0 and dq > 0):
            t = dp / (dp - dq)
            out.append((p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1])))
    res = []
    for p in out:
        if not res or math.hypot(p[0] - res[-1][0], p[1] - res[-1][1]) > 1e-12:
            res.append(p)
    if len(res) >= 3 and abs(_area2(res)) > 2e-12:
        return res
    return []


def _convex_inter(p, q):
    r = p
    for a, b in zip(q, q[1:] + q[:1]):
        r = _clip(r, a, b)
        if not r:
            return []
    return r


def _convex_diff(p, q):
    """p minus q as a list of convex pieces."""
    if not _convex_inter(p, q):
        return [p]
    out, r = [], p
    for a, b in zip(q, q[1:] + q[:1]):
        o = _clip(r, a, b, -1.0)
        if o:
            out.append(o)
        r = _clip(r, a, b)
        if not r:
            break
    return out


def _is_convex(ring):
    n = len(ring)
    return all(_cross(ring[k], ring[(k + 1) % n], ring[(k + 2) % n]) >= -1e-12
               for k in range(n))


def _triangulate(ring):
    """Ear clipping of a simple ccw ring; convex rings stay whole."""
    if _is_convex(ring):
        return [list(ring)]
    pts, out = list(ring), []
    guard = 0
    while len(pts) > 3 and guard < 10000:
        guard += 1
        for k in range(len(pts)):
            a, b, c = pts[k - 1], pts[k], pts[(k + 1) % len(pts)]
            o = _cross(a, b, c)
            if o <= 1e-15:
                if abs(o) <= 1e-15:
                    del pts[k]
                    break
                continue
            if any(p not in (a, b, c) and _cross(a, b, p) >= 0 and
                   _cross(b, c, p) >= 0 and _cross(c, a, p) >= 0
                   for p in pts):
                continue
            out.append([a, b, c])
            del pts[k]
            break
        else:
            break
    if len(pts) == 3:
        out.append(pts)
    return out


def _inside_ring(ring, x, y):
    """1 inside, 0 on the boundary, -1 outside."""
    n = len(ring)
    ins = False
    for k in range(n):
        (x0, y0), (x1, y1) = ring[k], ring[(k + 1) % n]
        if _seg_dist((x, y), (x0, y0), (x1, y1)) <= EPS:
            return 0
        if (y0 > y) != (y1 > y):
            if x < (x1 - x0) * (y - y0) / (y1 - y0) + x0:
                ins = not ins
    return 1 if ins else -1


def _seg_dist(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    l2 = dx * dx + dy * dy
    if l2 == 0:
        return math.hypot(p[0] - a[0], p[1] - a[1])
    t = max(0.0, min(1.0, ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / l2))
    return math.hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy)


def _seg_params(a, b, c, d):
    """Parameters along a-b where it meets c-d (points or overlap ends)."""
    ux, uy = b[0] - a[0], b[1] - a[1]
    vx, vy = d[0] - c[0], d[1] - c[1]
    den = ux * vy - uy * vx
    wx, wy = c[0] - a[0], c[1] - a[1]
    if abs(den) > 1e-14:
        t = (wx * vy - wy * vx) / den
        s = (wx * uy - wy * ux) / den
        if -EPS <= t <= 1 + EPS and -EPS <= s <= 1 + EPS:
            return [t]
        return []
    l2 = ux * ux + uy * uy
    if l2 == 0 or abs(wx * uy - wy * ux) > EPS * math.sqrt(l2):
        return []
    ts = sorted([(wx * ux + wy * uy) / l2,
                 ((d[0] - a[0]) * ux + (d[1] - a[1]) * uy) / l2])
    lo, hi = max(0.0, ts[0]), min(1.0, ts[1])
    return [lo, hi] if lo <= hi + EPS else []


class BaseGeometry:
    _type = 'Geometry'

    # parts -----------------------------------------------------------------
    def _points(self):
        return []

    def _segments(self):
        return []

    def _pieces(self):
        """Convex ccw pieces of the areal part."""
        return []

    def _chains(self):
        return []

    # predicates ------------------------------------------------------------
    @property
    def is_empty(self):
        return not self._vertices()

    def _vertices(self):
        return []

    def __bool__(self):
        return not self.is_empty

    __nonzero__ = __bool__

    @property
    def is_valid(self):
        return True

    @property
    def geom_type(self):
        return self.__class__.__name__

    type = geom_type

    @property
    def bounds(self):
        v = self._vertices()
        if not v:
            return ()
        xs, ys = [p[0] for p in v], [p[1] for p in v]
        return (min(xs), min(ys), max(xs), max(ys))

    @property
    def area(self):
        return sum(abs(_area2(p)) for p in self._pieces()) / 2

    @property
    def length(self):
        return sum(math.hypot(b[0] - a[0], b[1] - a[1])
                   for a, b in self._segments())

    @property
    def centroid(self):
        pieces = self._pieces()
        if pieces:
            ax = ay = aa = 0.0
            for ring in pieces:
                for p, q in zip(ring, ring[1:] + ring[:1]):
                    c = p[0] * q[1] - q[0] * p[1]
                    aa += c
                    ax += (p[0] + q[0]) * c
                    ay += (p[1] + q[1]) * c
            return Point(ax / (3 * aa), ay / (3 * aa))
        segs = self._segments()
        if segs:
            tot = self.length
            x = sum(math.hypot(b[0] - a[0], b[1] - a[1]) * (a[0] + b[0]) / 2
                    for a, b in segs) / tot
            y = sum(math.hypot(b[0] - a[0], b[1] - a[1]) * (a[1] + b[1]) / 2
                    for a, b in segs) / tot
            return Point(x, y)
        pts = self._points()
        return Point(sum(p[0] for p in pts) / len(pts),
                     sum(p[1] for p in pts) / len(pts))

    @property
    def convex_hull(self):
        h = _hull(self._vertices())
        if not h:
            return GeometryCollection()
        if len(h) == 1:
            return Point(h[0])
        if len(h) == 2:
            return LineString(h)
        return Polygon(h)

    @property
    def envelope(self):
        x0, y0, x1, y1 = self.bounds
        return Polygon([(x0, y0), (x1, y0), (x1, y1), (x0, y1)])

    def distance(self, other):
        p = other
        if isinstance(p, Point):
            x, y = p.coords[0]
        else:
            raise ShimUnsupported('distance')
        best = float('inf')
        for q in self._pieces():
            if _inside_ring(q, x, y) >= 0:
                return 0.0
        for a, b in self._segments():
            best = min(best, _seg_dist((x, y), a, b))
        for a in self._points():
            best = min(best, math.hypot(a[0] - x, a[1] - y))
        return best

    def contains(self, other):
        if not isinstance(other, Point):
            raise ShimUnsupported('contains')
        x, y = other.coords[0]
        # strictly inside some polygon, or interior across touching pieces
        if isinstance(self, Polygon):
            if _inside_ring(self._ext, x, y) != 1:
                return False
            return all(_inside_ring(h, x, y) == -1 for h in self._holes)
        if self._pieces():
            return any(_inside_ring(q, x, y) >= 0 for q in self._pieces())
        return self.distance(other) <= EPS

    def intersects(self, other):
        if self.is_empty or other.is_empty:
            return False
        if isinstance(other, Point):
            return self.distance(other) <= EPS
        if isinstance(self, Point):
            return other.distance(self) <= EPS
        return not self.intersection(other).is_empty

    def disjoint(self, other):
        return not self.intersects(other)

    def within(self, other):
        return other.contains(self)

    def covers(self, other):
        return self.distance(other) <= EPS

    def equals(self, other):
        return mapping(self) == mapping(other)

    def __eq__(self, other):
        return type(self) is type(other) and mapping(self) == mapping(other)

    def __ne__(self, other):
        return not self == other

    __hash__ = object.__hash__

    @property
    def wkt(self):
        return repr(self)

    def __repr__(self):
        return '<%s %r>' % (self.geom_type, mapping(self).get('coordinates')
                            if not self.is_empty else 'EMPTY')

    __str__ = __repr__

    @property
    def __geo_interface__(self):
        return mapping(self)

    # set operations ----------------------------------------------------------
    def union(self, other):
        if self.is_empty:
            return other
        if other.is_empty:
            return self
        polys = _polys(self)
        other_polys = _polys(other)
        if polys and other_polys:
            if any(_convex_inter(p, q) for p in self._pieces()
                   for q in other._pieces()):
                polys = list(polys) + [Polygon(r) for r in
                                       _diff_pieces(other._pieces(),
                                                    self._pieces())]
            else:
                polys = list(polys) + list(other_polys)
        else:
            polys = list(polys) + list(other_polys)
        pieces = self._pieces() + other._pieces()
        chains = _node_chains(self._chains(), other._chains())
        if pieces:
            chains = _chains_minus(chains, [], pieces)
        pts = [p for p in self._points() + other._points()]
        return _build(polys, chains, pts)

    def difference(self, other):
        if other.is_empty or self.is_empty:
            return self
        pieces = self._pieces()
        out = []
        if pieces:
            if other._pieces():
                d = _diff_pieces(pieces, other._pieces())
                if len(d) == len(pieces) and all(a == b for a, b in
                                                 zip(d, pieces)):
                    out = list(_polys(self))
                else:
                    out = [Polygon(r) for r in d]
            else:
                out = list(_polys(self))
        chains = _chains_minus(self._chains(), other._segments(),
                               other._pieces())
        res = _build(out, chains, [])
        if pieces and other._pieces() and not chains and out and \
                len(out) == len(d) and isinstance(res, MultiPolygon):
            res._pc = list(d)       # apart from each other already
        return res

    def intersection(self, other):
        out = []
        for p in self._pieces():
            for q in other._pieces():
                r = _convex_inter(p, q)
                if r:
                    out.append(Polygon(r))
        chains = []
        for ch, pieces in ((self._chains(), other._pieces()),
                           (other._chains(), self._pieces())):
            if pieces and ch:
                chains += _chains_inside(ch, pieces)
        if not out and not chains and self._chains() and other._chains():
            pts = []
            for a, b in self._segments():
                for c, d in other._segments():
                    for t in _seg_params(a, b, c, d):
                        pts.append((a[0] + t * (b[0] - a[0]),
                                    a[1] + t * (b[1] - a[1])))
            return _build([], [], pts)
        pts = []
        if not out and not chains:
            one, two = (self, other) if self._points() else (other, self)
            pts = [p for p in one._points()
                   if two.distance(Point(p)) <= EPS]
        return _build(out, chains, pts)

    def symmetric_difference(self, other):
        return self.difference(other).union(other.difference(self))

    __or__ = union
    __sub__ = difference
    __and__ = intersection
    __xor__ = symmetric_difference

    def buffer(self, distance, resolution=16, *args, **kwargs):
        r = float(distance)
        if r == 0:
            return _build(list(_polys(self)), [], [])
        if r < 0:
            raise ShimUnsupported('negative buffer')
        pieces = []
        if args:
            raise ShimUnsupported('buffer args')

        def capsule(a, b):
            n = 4 * resolution
            pts = [(c[0] + r * math.cos(2 * math.pi * k / n),
                    c[1] + r * math.sin(2 * math.pi * k / n))
                   for c in (a, b) for k in range(n)]
            return _hull(pts)
        for p in self._pieces():
            pieces.append(p)
        for a, b in self._segments():
            pieces.append(capsule(a, b))
        for a in self._points():
            pieces.append(capsule(a, a))
        return _build([Polygon(p) for p in pieces], [], [])

    def simplify(self, *args, **kwargs):
        raise ShimUnsupported('simplify')

    def __array__(self, dtype=None):
        raise ShimUnsupported('array of ' + self.geom_type)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise ShimUnsupported('%s.%s' % (type(self).__name__, name))


def _polys(g):
    if isinstance(g, Polygon):
        return [] if g.is_empty else [g]
    if isinstance(g, BaseMultipartGeometry):
        return [p for x in g for p in _polys(x)]
    return []


def _box(r):
    xs, ys = [p[0] for p in r], [p[1] for p in r]
    return min(xs), min(ys), max(xs), max(ys)


_DIFFS = {}


def _diff_pieces(p, q):
    key = (tuple(map(tuple, p)), tuple(map(tuple, q)))
    if key in _DIFFS:
        return list(_DIFFS[key])
    cur = [(x, _box(x)) for x in p]
    for c in q:
        x0, y0, x1, y1 = _box(c)
        new = []
        for x, b in cur:
            if b[0] > x1 or b[2] < x0 or b[1] > y1 or b[3] < y0:
                new.append((x, b))
            else:
                new.extend((r, _box(r)) for r in _convex_diff(x, c))
        cur = new
    cur = [x for x, b in cur]
    if len(_DIFFS) > 300:
        _DIFFS.clear()
    _DIFFS[key] = tuple(cur)
    return cur


def _node_chains(a, b):
    if not a or not b:
        return list(a) + list(b)
    sa = [(p, q) for ch in a for p, q in zip(ch, ch[1:])]
    sb = [(p, q) for ch in b for p, q in zip(ch, ch[1:])]

    def split(chains, others):
        out = []
        for ch in chains:
            cur = [ch[0]]
            for p, q in zip(ch, ch[1:]):
                ts = {}
                for c, d in others:
                    for t in _seg_params(p, q, c, d):
                        m = (p[0] + t * (q[0] - p[0]), p[1] + t * (q[1] - p[1]))
                        for e in (c, d):
                            if math.hypot(m[0] - e[0], m[1] - e[1]) < EPS:
                                m = e
                        ts.setdefault(round(t, 9), m)
                for t in sorted(ts):
                    if EPS < t < 1 - EPS:
                        m = ts[t]
                        cur.append(m)
                        out.append(cur)
                        cur = [m]
                cur.append(q)
            out.append(cur)
        return out
    left = split(a, sb)
    right = _chains_minus(split(b, sa), sa, [])
    return left + right


def _chains_minus(chains, segs, pieces):
    out = []
    for ch in chains:
        cur = None
        for p, q in zip(ch, ch[1:]):
            ts = {0.0, 1.0}
            for c, d in segs:
                ts.update(_seg_params(p, q, c, d))
            for ring in pieces:
                for c, d in zip(ring, ring[1:] + ring[:1]):
                    ts.update(_seg_params(p, q, c, d))
            ts = sorted(min(1.0, max(0.0, t)) for t in ts)
            for t0, t1 in zip(ts, ts[1:]):
                if t1 - t0 < EPS:
                    continue
                tm = (t0 + t1) / 2
                m = (p[0] + tm * (q[0] - p[0]), p[1] + tm * (q[1] - p[1]))
                gone = any(_seg_dist(m, c, d) <= EPS for c, d in segs) or \
                    any(_inside_ring(r, *m) >= 0 for r in pieces)
                a = p if t0 <= EPS else (p[0] + t0 * (q[0] - p[0]),
                                         p[1] + t0 * (q[1] - p[1]))
                b = q if t1 >= 1 - EPS else (p[0] + t1 * (q[0] - p[0]),
                                             p[1] + t1 * (q[1] - p[1]))
                if gone:
                    if cur:
                        out.append(cur)
                    cur = None
                elif cur is None:
                    cur = [a, b]
                elif t0 > EPS:
                    cur[-1] = b     # same straight segment goes on
                else:
                    cur.append(b)
        if cur:
            out.append(cur)
    return out


def _chains_inside(chains, pieces):
    out = []
    for ch in chains:
        cur = None
        for p, q in zip(ch, ch[1:]):
            ts = {0.0, 1.0}
            for ring in pieces:
                for c, d in zip(ring, ring[1:] + ring[:1]):
                    ts.update(_seg_params(p, q, c, d))
            ts = sorted(min(1.0, max(0.0, t)) for t in ts)
            for t0, t1 in zip(ts, ts[1:]):
                if t1 - t0 < EPS:
                    continue
                tm = (t0 + t1) / 2
                m = (p[0] + tm * (q[0] - p[0]), p[1] + tm * (q[1] - p[1]))
                a = (p[0] + t0 * (q[0] - p[0]), p[1] + t0 * (q[1] - p[1]))
                b = (p[0] + t1 * (q[0] - p[0]), p[1] + t1 * (q[1] - p[1]))
                if any(_inside_ring(r, *m) >= 0 for r in pieces):
                    if cur is None:
                        cur = [a, b]
                    else:
                        cur.append(b)
                else:
                    if cur:
                        out.append(cur)
                    cur = None
        if cur:
            out.append(cur)
    return out


def _build(polys, chains, pts):
    parts = list(polys)
    parts += [LineString(c) for c in chains]
    parts += [Point(p) for p in pts]
    if not parts:
        return GeometryCollection()
    if len(parts) == 1:
        return parts[0]
    if all(isinstance(p, Polygon) for p in parts):
        return MultiPolygon(parts)
    if all(isinstance(p, LineString) for p in parts):
        return MultiLineString(parts)
    if all(isinstance(p, Point) for p in parts):
        return MultiPoint(parts)
    return GeometryCollection(parts)


class Point(BaseGeometry):
    def __init__(self, *args):
        if len(args) == 0:
            self._c = []
        elif len(args) == 1:
            a = args[0]
            self._c = [_pt(a.coords[0] if isinstance(a, Point) else
                           np.asarray(a, dtype=float).ravel().tolist())]
        else:
            self._c = [_pt(args)]

    @property
    def xy(self):
        return self.coords.xy

    @property
    def coords(self):
        return CoordinateSequence(self._c)

    @property
    def x(self):
        return self._c[0][0]

    @property
    def y(self):
        return self._c[0][1]

    def _points(self):
        return list(self._c)

    _vertices = _points

    def __array__(self, dtype=None):
        return np.array(self._c[0], dtype=dtype or float)


class LineString(BaseGeometry):
    def __init__(self, coordinates=None):
        self._c = [] if coordinates is None else _coords(coordinates)
        if len(self._c) == 1:
            raise ValueError('LineStrings must have at least 2 coordinate tuples')

    @property
    def coords(self):
        return CoordinateSequence(self._c)

    @property
    def is_ring(self):
        return bool(self._c) and self._c[0] == self._c[-1]

    @property
    def xy(self):
        return self.coords.xy

    def _vertices(self):
        return list(self._c)

    def _segments(self):
        return list(zip(self._c[:-1], self._c[1:]))

    def _chains(self):
        return [list(self._c)] if self._c else []

    @property
    def is_valid(self):
        return len(set(self._c)) != 1

    def __array__(self, dtype=None):
        return np.array(self._c, dtype=dtype or float).reshape(-1, 2)


class LinearRing(LineString):
    def __init__(self, coordinates=None):
        super().__init__(coordinates)
        if self._c and self._c[0] != self._c[-1]:
            self._c.append(self._c[0])


class Polygon(BaseGeometry):
    def __array__(self, dtype=None):
        # as shapely does
        raise NotImplementedError('A polygon does not itself provide the '
                                  'array interface. Its rings do.')

    def __init__(self, shell=None, holes=None):
        c = [] if shell is None else _coords(shell)
        if c and len(c) > 1 and c[0] == c[-1]:
            c = c[:-1]
        if c and len(c) < 3:
            raise ValueError('A LinearRing must have at least 3 coordinate tuples')
        self._ext = c
        self._holes = []
        for h in holes or []:
            h = _coords(h)
            if h[0] == h[-1]:
                h = h[:-1]
            self._holes.append(h)
        self._cache = None

    @property
    def exterior(self):
        return LinearRing(self._ext)

    @property
    def interiors(self):
        return [LinearRing(h) for h in self._holes]

    @property
    def coords(self):
        raise NotImplementedError('Multi-part geometries do not provide a '
                                  'coordinate sequence')

    def _vertices(self):
        return list(self._ext)

    def _segments(self):
        out = []
        for r in [self._ext] + self._holes:
            out += list(zip(r, r[1:] + r[:1]))
        return out

    def _pieces(self):
        if self._cache is None:
            if not self._ext:
                self._cache = []
            else:
                ring = list(self._ext)
                if _area2(ring) < 0:
                    ring.reverse()
                pieces = _triangulate(ring)
                for h in self._holes:
                    h = list(h)
                    if _area2(h) < 0:
                        h.reverse()
                    pieces = _diff_pieces(pieces, _triangulate(h))
                self._cache = pieces
        return self._cache

    @property
    def is_valid(self):
        """Simple ring (no two non-adjacent edges meet) with positive area."""
        r = self._ext
        n = len(r)
        if abs(_area2(r)) < 1e-15 if r else False:
            return False
        for i in range(n):
            for j in range(i + 1, n):
                if j == i + 1 or (i == 0 and j == n - 1):
                    continue
                if _seg_params(r[i], r[(i + 1) % n], r[j], r[(j + 1) % n]):
                    return False
        return True


class BaseMultipartGeometry(BaseGeometry):
    _part = BaseGeometry

    def __init__(self, geoms=None):
        out = []
        for g in geoms or []:
            if not isinstance(g, BaseGeometry):
                g = self._part(g)
            if isinstance(g, BaseMultipartGeometry) and \
                    self._part is not BaseGeometry:
                out += list(g)
            else:
                out.append(g)
        self._g = out

    @property
    def geoms(self):
        return list(self._g)

    def __iter__(self):
        return iter(list(self._g))

    def __len__(self):
        return len(self._g)

    def __getitem__(self, k):
        return self._g[k]

    def __bool__(self):
        return not self.is_empty

    @property
    def coords(self):
        raise NotImplementedError('Multi-part geometries do not provide a '
                                  'coordinate sequence')

    def _vertices(self):
        return [p for g in self._g for p in g._vertices()]

    def _points(self):
        return [p for g in self._g for p in g._points()]

    def _segments(self):
        return [p for g in self._g for p in g._segments()]

    def _chains(self):
        return [p for g in self._g for p in g._chains()]

    def _pieces(self):
        """Pieces of overlapping members (e.g. a buffer) counted once."""
        if getattr(self, '_pc', None) is None:
            out = []
            for g in self._g:
                cur = list(g._pieces())
                if out:
                    cur = _diff_pieces(cur, out)
                out += cur
            self._pc = out
        return self._pc

    @property
    def is_valid(self):
        return all(g.is_valid for g in self._g)


class MultiPoint(BaseMultipartGeometry):
    _part = Point


class MultiLineString(BaseMultipartGeometry):
    _part = LineString


class MultiPolygon(BaseMultipartGeometry):
    _part = Polygon

    def __init__(self, polygons=None):
        out = []
        for g in polygons or []:
            if isinstance(g, (tuple, list)) and len(g) == 2 and \
                    not isinstance(g[0][0], (int, float)):
                g = Polygon(g[0], g[1])
            out.append(g)
        super().__init__(out)


class GeometryCollection(BaseMultipartGeometry):
    pass


def mapping(ob):
    if hasattr(type(ob), '_type') or isinstance(ob, BaseGeometry):
        t = type(ob).__name__
        if isinstance(ob, Point):
            return {'type': t, 'coordinates': ob._c[0] if ob._c else ()}
        if isinstance(ob, LineString):
            return {'type': t, 'coordinates': tuple(ob._c)}
        if isinstance(ob, Polygon):
            if not ob._ext:
                return {'type': t, 'coordinates': ()}
            rings = [tuple(ob._ext) + (ob._ext[0],)]
            rings += [tuple(h) + (h[0],) for h in ob._holes]
            return {'type': t, 'coordinates': tuple(rings)}
        if isinstance(ob, GeometryCollection):
            return {'type': t, 'geometries': [mapping(g) for g in ob]}
        if isinstance(ob, BaseMultipartGeometry):
            return {'type': t,
                    'coordinates': tuple(mapping(g)['coordinates'] for g in ob)}
        return {'type': 'GeometryCollection', 'geometries': []}
    return ob.__geo_interface__


def shape(context):
    ob = context.__geo_interface__ if hasattr(context, '__geo_interface__') \
        else context
    t = ob.get('type', '').lower()
    c = ob.get('coordinates')
    if t == 'point':
        return Point(*c)
    if t == 'linestring':
        return LineString(c)
    if t == 'linearring':
        return LinearRing(c)
    if t == 'polygon':
        if not c:
            return Polygon()
        return Polygon(c[0], c[1:])
    if t == 'multipoint':
        return MultiPoint([Point(x) for x in c])
    if t == 'multilinestring':
        return MultiLineString([LineString(x) for x in c])
    if t == 'multipolygon':
        return MultiPolygon([Polygon(x[0], x[1:]) for x in c])
    if t == 'geometrycollection':
        return GeometryCollection([shape(g) for g in ob.get('geometries', [])])
    raise ValueError('Unknown geometry type: %s' % t)


def box(minx, miny, maxx, maxy, ccw=True):
    c = [(maxx, miny), (maxx, maxy), (minx, maxy), (minx, miny)]
    return Polygon(c if ccw else c[::-1])


def unary_union(geoms):
    out = BaseGeometry()
    for g in geoms:
        out = out.union(g)
    return out


def linemerge(lines):
    chains = [list(c) for g in (lines if not isinstance(lines, BaseGeometry)
                                else [lines]) for c in g._chains()]
    deg = {}
    for c in chains:
        for p in (c[0], c[-1]):
            deg[p] = deg.get(p, 0) + 1
    changed = True
    while changed:
        changed = False
        for i in range(len(chains)):
            for j in range(len(chains)):
                if i != j and chains[i][-1] in (chains[j][0], chains[j][-1]) \
                        and deg[chains[i][-1]] == 2:
                    a, b = chains[i], chains[j]
                    if b[0] != a[-1]:
                        b = b[::-1]
                    new = a + b[1:]
                    chains = [c for k, c in enumerate(chains)
                              if k not in (i, j)] + [new]
                    changed = True
                    break
            if changed:
                break
    return _build([], chains, [])
