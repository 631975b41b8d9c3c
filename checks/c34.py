"""C34: obstacles are converted to segments, arrays and grids completely.

Explored: every segment, triangle and quadrilateral over a lattice (partly
outside of the grid), polygons with every triangle as hole, parts inside of
holes, and collections of parts in every order and nesting.  Oracle: lists of
coordinates, exact even-odd tests and distances on integers."""
import itertools

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'segments: all collections of up to 3 of 10 parts, 2 levels of '
             'nesting, lines and collections of up to 1100 segments; grids: all segments over 9x8 places, all triangles '
             'over 4x4 and 5 offsets, quadrilaterals over 3x3, all holes '
             'over 4x4 with and without islands, pairs of 8 parts; 3 steps, '
             '3 kinds of grids',
    'thorough': 'triangles over 5x5, quadrilaterals over 4x3, all collections '
                'of up to 4 parts'}
ASSUMPTIONS = ['shapely and skimage.draw are stand-ins',
               'cells at the border of an area may count either way unless '
               'the border of the shell runs through the node of the cell']
CASE_TIMEOUT = 800


def setup():
    global np, G, geo, meshgrid, obstacle_type_linear
    import numpy as np
    import shapely.geometry as geo
    from crowddynamics.core import geometry as G
    from crowddynamics.core.steering.quickest_path import meshgrid
    from crowddynamics.core.structures import obstacle_type_linear


# Shapes as plain data: ('point', p), ('line', pts), ('ring', pts),
# ('poly', shell, holes), ('multi', parts)
HOLE = [(1., 1.), (2., 1.), (1., 2.)]
PARTS = [
    ('point', (1., 2.)),
    ('line', [(0., 0.), (4., 3.)]),
    ('line', [(0., 0.), (1., 0.), (1., 1.), (-2., .5)]),
    ('line', [(0., 0.), (1., 0.), (1., 1.), (0., 0.)]),
    ('ring', [(0., 0.), (4., 0.), (4., 4.)]),
    ('poly', [(0., 0.), (4., 0.), (4., 4.), (0., 4.)], []),
    ('poly', [(0., 0.), (0., 4.), (4., 4.), (4., 0.)], [HOLE]),
    ('poly', [(0., 0.), (9., 0.), (9., 9.), (0., 9.)],
     [HOLE, [(5., 5.), (5., 6.), (6., 6.), (6., 5.)]]),
    ('multi', [('line', [(0., 1.), (2., 3.)]), ('line', [(5., 5.), (6., 7.)])]),
    ('multi', [('poly', [(0., 0.), (9., 0.), (9., 9.), (0., 9.)], [HOLE]),
               ('poly', [(10., 0.), (11., 0.), (11., 1.)], [])]),
]


def shape(p):
    if p[0] == 'point':
        return geo.Point(*p[1])
    if p[0] == 'line':
        return geo.LineString(p[1])
    if p[0] == 'ring':
        return geo.LinearRing(p[1])
    if p[0] == 'poly':
        return geo.Polygon(p[1], p[2])
    kinds = {q[0] for q in p[1]}
    parts = [shape(q) for q in p[1]]
    if kinds == {'line'}:
        return geo.MultiLineString(parts)
    if kinds == {'poly'}:
        return geo.MultiPolygon(parts)
    if kinds == {'point'}:
        return geo.MultiPoint(parts)
    return geo.GeometryCollection(parts)


def pairs(pts):
    return list(zip(pts[:-1], pts[1:]))


def closed(pts):
    return pts if pts[0] == pts[-1] else pts + pts[:1]


def segments(p):
    if p[0] == 'point':
        return []
    if p[0] == 'line':
        return pairs(p[1])
    if p[0] == 'ring':
        return pairs(closed(p[1]))
    if p[0] == 'poly':
        return sum((pairs(closed(r)) for r in [p[1]] + p[2]), [])
    return sum(map(segments, p[1]), [])


def chunks(p):
    """What the array of the shape holds: (kind, coordinates) of each part."""
    if p[0] == 'point':
        return [(0.0, [p[1]])]
    if p[0] == 'line':
        return [(1.0, p[1])]
    if p[0] == 'ring':
        return [(1.0, closed(p[1]))]
    if p[0] == 'poly':
        return [(2.0, closed(h)) for h in p[2]] + [(3.0, closed(p[1]))]
    return sum(map(chunks, p[1]), [])


def cases(tier):
    t = tier == 'thorough'
    n = len(PARTS)
    out = [{'kind': 'convert', 'first': f, 'n': 4 if t else 3}
           for f in range(-1, n)]
    for step in range(3):
        out += [{'kind': 'lines', 'step': step, 'x': x} for x in range(-2, 7)]
        out += [{'kind': 'triangles', 'step': step, 'off': o,
                 'n': 5 if t else 4} for o in range(5)]
    out += [{'kind': 'quads', 'w': 4 if t else 3, 'first': f}
            for f in range(12 if t else 9)]
    out += [{'kind': 'holes', 'island': i} for i in range(4)]
    out += [{'kind': 'parts', 'first': f} for f in range(8)]
    return out


def run_case(case, rec):
    globals()['run_' + case['kind']](case, rec)


def undirected(seg):
    return tuple(sorted(tuple(map(float, q)) for q in seg))


def run_convert(case, rec):
    if case['first'] < 0:
        rec.check(len(G.geom_to_linear_obstacles(None)) == 0 and
                  G.geom_to_linear_obstacles(None).dtype ==
                  obstacle_type_linear, 'none', 'no obstacles')
        for bad in ('text', 5, [(0, 0), (1, 1)]):
            for f in (lambda g: list(G.geom_to_linesegment(g)),
                      G.geom_to_array, G.geom_to_linear_obstacles):
                rec.step()
                try:
                    f(bad)
                    rec.fail('type', 'something else than a geometry was '
                             'converted', value=bad)
                except TypeError:
                    pass
        # a great many segments, in one part and in many
        for n in (7, 40, 300, 1100):
            pts = [(k % 50 * .5, k // 50 + .25 * (k % 2)) for k in range(n)]
            convert(('line', pts), rec, n)
            convert(('multi', [('line', [p, (p[0] + .25, p[1] + .5)])
                               for p in pts]), rec, n)
            rec.state(n)
        rec.state('none')
        rec.trace()
        return
    for n in range(0, case['n']):
        for sel in itertools.product(range(len(PARTS)), repeat=n):
            ks = (case['first'],) + sel
            parts = [PARTS[k] for k in ks]
            forms = [('multi', parts)] if n else [parts[0]]
            if n == 2:
                forms.append(('multi', [parts[0], ('multi', parts[1:])]))
                forms.append(('multi', [('multi', parts[:2]), parts[2]]))
            for p in forms:
                convert(p, rec, ks)
            rec.state(ks)


def convert(p, rec, ks):
    g = shape(p)
    want = segments(p)
    rec.step()
    got = [tuple(tuple(q) for q in s) for s in G.geom_to_linesegment(g)]
    rec.check(sorted(map(undirected, got)) == sorted(map(undirected, want)),
              'segments', 'segments of the geometry', parts=ks, got=got,
              want=want)
    arr = G.geom_to_linear_obstacles(g)
    rows = [(tuple(a), tuple(b)) for a, b in zip(arr['p0'].tolist(),
                                                 arr['p1'].tolist())]
    rec.check(arr.dtype == obstacle_type_linear and rows == got,
              'obstacles', 'linear obstacles are not the segments', parts=ks,
              got=rows, want=got)
    flat = G.geom_to_array(g)
    out = []
    for x, y in flat.tolist():
        if x != x:
            out.append((y, []))
        elif not rec.check(bool(out), 'array', 'array does not begin with a '
                           'separator', parts=ks):
            return
        else:
            out[-1][1].append((x, y))
    rec.check([(k, [tuple(map(float, c)) for c in v]) for k, v in chunks(p)]
              == out, 'array', 'array of the geometry', parts=ks, got=out,
              want=chunks(p))
    rec.trace()


# Grids --------------------------------------------------------------------

STEPS = [(1.0, (0.0, 0.0)), (.5, (-3.25, 7.5)), (.1, (12.7, -.3))]
W, H = 6, 5                 # the last cells of the grid


def grid_of(step, low):
    mg = meshgrid(step, low[0], low[1], low[0] + (W + .3) * step,
                  low[1] + (H + .3) * step)
    return mg


def place(p, step, low):
    """The middle of a cell: where it is does not depend on rounding."""
    return (low[0] + (p[0] + .5) * step, low[1] + (p[1] + .5) * step)


def moved(p, step, low):
    if p[0] == 'point':
        return ('point', place(p[1], step, low))
    if p[0] in ('line', 'ring'):
        return (p[0], [place(q, step, low) for q in p[1]])
    if p[0] == 'poly':
        return ('poly', [place(q, step, low) for q in p[1]],
                [[place(q, step, low) for q in h] for h in p[2]])
    return ('multi', [moved(q, step, low) for q in p[1]])


def on_segment(a, b, p):
    cross = (b[0] - a[0]) * (p[1] - a[1]) - (b[1] - a[1]) * (p[0] - a[0])
    return cross == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) and \
        min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def near2(a, b, p):
    """Squared distance times the squared length of the segment."""
    dx, dy = b[0] - a[0], b[1] - a[1]
    n = dx * dx + dy * dy
    t = (p[0] - a[0]) * dx + (p[1] - a[1]) * dy
    if n == 0 or t <= 0:
        return ((p[0] - a[0]) ** 2 + (p[1] - a[1]) ** 2) * max(n, 1), max(n, 1)
    if t >= n:
        return ((p[0] - b[0]) ** 2 + (p[1] - b[1]) ** 2) * n, n
    c = dx * (p[1] - a[1]) - dy * (p[0] - a[0])
    return c * c, n


def dist_at_least(a, b, p, num, den):
    """Distance to the segment is at least num/den."""
    d, n = near2(a, b, p)
    return d * den * den >= num * num * n


def odd(ring, p):
    res = False
    for a, b in pairs(closed(ring)):
        if (a[1] > p[1]) != (b[1] > p[1]):
            lhs = (p[0] - a[0]) * (b[1] - a[1])
            rhs = (p[1] - a[1]) * (b[0] - a[0])
            if (lhs < rhs) == (b[1] > a[1]):
                res = not res
    return res


def verdict(p, c):
    """True, False or None (either) for a cell of the grid."""
    if p[0] == 'point':
        return False
    if p[0] in ('line', 'ring'):
        segs = segments(p)
        if any(on_segment(a, b, c) for a, b in segs):
            return True
        # cells of a drawn line are at most half a cell away from it
        if all(dist_at_least(a, b, c, 6, 10) for a, b in segs):
            return False
        return None
    if p[0] == 'poly':
        for h in p[2]:
            if any(not dist_at_least(a, b, c, 1, 1) for a, b in
                   pairs(closed(h))):
                return None
            if odd(h, c):
                return False
        edge = pairs(closed(p[1]))
        if any(on_segment(a, b, c) for a, b in edge):
            return True
        if odd(p[1], c):
            return True
        if all(dist_at_least(a, b, c, 6, 10) for a, b in edge):
            return False
        return None
    all_ = [verdict(q, c) for q in p[1]]
    return True if True in all_ else None if None in all_ else False


def lowest(p):
    if p[0] == 'point':
        return min(p[1])
    if p[0] == 'multi':
        return min(map(lowest, p[1]))
    return min(min(q) for q in p[1])


KINDS = [('bool', False, True), ('float', -1.0, 1.0), ('int', 7, 9)]


def draw(p, rec, step=0, kind=0, tag=None, keep=None):
    st, low = STEPS[step]
    mg = grid_of(st, low)
    k, back, value = KINDS[kind]
    grid = np.full(mg.shape, back, dtype={'bool': np.bool_, 'float': float,
                                          'int': np.int64}[k])
    rec.check(mg.shape == (H + 2, W + 2), 'grid', 'size of the grid',
              got=mg.shape)
    rec.step()
    def floors(position):
        return np.floor((np.asarray(position) - np.array(low)) / st).astype(
            np.int64)

    # how indices below the grid are rounded is up to the meshgrid
    indicer = floors if lowest(p) < 0 else mg.indicer
    try:
        G.draw_geom(shape(moved(p, st, low)), grid, indicer, value)
    except IndexError as e:
        rec.fail('error', 'a geometry was not drawn: %s' % e, shape=p)
        return None
    out = grid.tolist()
    for y, row in enumerate(out):
        for x, v in enumerate(row):
            w = verdict(p, (x, y))
            if v not in (back, value):
                rec.fail('value', 'another value in the grid', got=v, shape=p)
            if w is not None and (v == value) != w:
                rec.fail('drawn' if not w else 'missing',
                         'cell outside of the geometry is drawn' if not w else
                         'cell of the geometry is not drawn', shape=p,
                         cell=(x, y), step=st, kind=k)
    rec.trace()
    return grid


def connected(p, grid, rec):
    """A drawn line leaves no gaps, diagonal steps included."""
    cells = {(x, y) for y, row in enumerate(grid.tolist())
             for x, v in enumerate(row) if v}
    a, b = p[1]
    if not all(0 <= q[0] <= W + 1 and 0 <= q[1] <= H + 1 for q in (a, b)):
        return
    reach, todo = {a}, [a]
    while todo:
        x, y = todo.pop()
        for dx in (-1, 0, 1):
            for dy in (-1, 0, 1):
                c = (x + dx, y + dy)
                if c in cells and c not in reach:
                    reach.add(c)
                    todo.append(c)
    rec.check(a in cells and b in cells and reach == cells, 'gap',
              'a drawn line has gaps', line=p[1], cells=sorted(cells))


def run_lines(case, rec):
    xs, ys = range(-2, 10), range(-2, 9)
    for y in range(-2, 7):
        for bx in xs:
            for by in ys:
                p = ('line', [(case['x'], y), (bx, by)])
                if p[1][0] == p[1][1]:
                    continue
                grid = draw(p, rec, case['step'], case['step'])
                if grid is not None and case['step'] == 0:
                    connected(p, grid, rec)
                rec.state((case['step'], tuple(p[1])))


def area2(pts):
    return sum(a[0] * b[1] - a[1] * b[0] for a, b in pairs(closed(pts)))


OFFSETS = [(1, 1), (-2, 0), (4, 3), (0, -2), (-2, 4)]


def run_triangles(case, rec):
    ox, oy = OFFSETS[case['off']]
    places = [(x + ox, y + oy) for x in range(case['n'])
              for y in range(case['n'])]
    for tri in itertools.combinations(places, 3):
        if area2(list(tri)) == 0:
            continue
        order = list(tri) if sum(map(sum, tri)) % 2 else list(tri[::-1])
        draw(('poly', order, []), rec, case['step'], case['step'])
        rec.state((case['step'], tri))


def simple(pts):
    """No two edges of the quadrilateral meet except at corners."""
    e = pairs(closed(pts))

    def side(a, b, c):
        v = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
        return (v > 0) - (v < 0)

    for (a, b), (c, d) in ((e[0], e[2]), (e[1], e[3])):
        if side(a, b, c) * side(a, b, d) <= 0 and \
                side(c, d, a) * side(c, d, b) <= 0:
            return False
    return all(side(pts[i - 2], pts[i - 1], pts[i]) for i in range(4))


def run_quads(case, rec):
    places = [(2 * x, 2 * y) for x in range(case['w']) for y in range(3)]
    first = places[case['first']]
    for rest in itertools.permutations([q for q in places if q != first], 3):
        pts = [first] + list(rest)
        if not simple(pts):
            continue
        draw(('poly', pts, []), rec, 0, 1)
        rec.state(tuple(pts))


SHELL = [(0, 0), (6, 0), (6, 5), (0, 5)]
# two areas left out, of which cells are well inside
TWO = [[(0, 0), (3, 0), (3, 5), (0, 5)], [(3, 0), (6, 0), (6, 5), (3, 5)]]
ISLANDS = [None, ('line', [(1, 1), (4, 4)]), ('poly', [(2, 2), (3, 2), (3, 3)],
                                              []),
           ('poly', [(-2, 2), (2, 2), (2, 7)], [])]


def run_holes(case, rec):
    places = [(x + 1, y + 1) for x in range(4) for y in range(4)]
    island = ISLANDS[case['island']]
    for tri in itertools.combinations(places, 3):
        if area2(list(tri)) == 0:
            continue
        p = ('poly', SHELL, [list(tri)])
        if island is None:
            draw(p, rec, 0, 0)
        else:
            # the order of the parts does not matter
            a = draw(('multi', [p, island]), rec, 0, 0)
            b = draw(('multi', [island, p]), rec, 0, 0)
            if a is not None and b is not None:
                rec.check((a == b).all(), 'order', 'the order of the parts '
                          'changes what is drawn', shape=p, island=island)
        rec.state((case['island'], tri))
    outer = [(-1, -1), (7, -1), (7, 6), (-1, 6)]
    for k in range(1, 4):
        for hs in itertools.permutations(TWO + [[(0, 0), (6, 0), (3, 5)]], k):
            for flip in itertools.product((1, -1), repeat=k):
                p = ('poly', outer, [h[::f] for h, f in zip(hs, flip)])
                for kind in range(3):
                    draw(p if island is None else ('multi', [p, island]), rec,
                         kind, kind)
                rec.state((case['island'], str(hs), flip))


DRAWN = [('point', (2, 2)), ('line', [(0, 5), (5, 1)]),
         ('ring', [(1, 1), (4, 1), (4, 4), (1, 4)]),
         ('poly', [(3, 3), (8, 3), (8, 8)], []),
         ('poly', [(-3, -3), (2, -3), (2, 2), (-3, 2)], []),
         ('poly', SHELL, [[(1, 1), (5, 1), (5, 4), (1, 4)]]),
         ('line', [(-9, -4), (-3, -1)]),
         ('line', [(9, 0), (9, 9), (0, 9)])]


def run_parts(case, rec):
    for n in (0, 1, 2):
        for rest in itertools.product(range(8), repeat=n):
            ks = (case['first'],) + rest
            parts = [DRAWN[k] for k in ks]
            p = ('multi', parts) if n else parts[0]
            for kind in range(3):
                draw(p, rec, 1, kind)
            rec.state(ks)
