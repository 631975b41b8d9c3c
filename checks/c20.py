"""C20: a field answers about its present geometry.

Explored: every history of geometry replacements and queries on two fields up
to a depth (the hidden state is the cache behind the queries), and every
invalid geometry.  Oracle: the same maps computed from the present geometry by
the plain functions, without any memory."""
import itertools
import math

LEVEL = 'model_checking'
BOUNDS = {
    'quick': '2 fields; all histories query - operation - query over 8 '
             'replacements and 12 queries per field, whose queries share a '
             'map, from 2 starting geometries; query - replacement - query - '
             'replacement - query histories over 5 queries on one field from '
             '3; 9 invalid values; wrong queries',
    'thorough': 'all histories of 4 operations on the reduced alphabet and 3 '
                'on the full one from 3 starting geometries'}
ASSUMPTIONS = ['geometry is replaced as a whole (lists are not changed in '
               'place: they cannot be observed)',
               'shapely, scikit-fmm, scikit-image and scipy are stand-ins']
CASE_TIMEOUT = 800


def setup():
    global np, Field, Q, O, geo, geometry, X
    global DOMAINS, OBSTACLES, TARGETS
    import numpy as np
    import shapely.geometry as geo
    from crowddynamics import exceptions as X
    from crowddynamics.core import geometry
    from crowddynamics.core.steering import quickest_path as Q
    from crowddynamics.core.steering import obstacle_handling as O
    from crowddynamics.simulation.field import Field
    P, L = geo.Polygon, geo.LineString
    DOMAINS = [P([(0, 0), (4, 0), (4, 3), (0, 3)]),
               P([(-1, 0), (4, 0), (4, 3.5), (-1, 3.5)])]
    OBSTACLES = [None, L([(2, 0), (2, 1.5)]),
                 geo.MultiLineString([[(1, 1.5), (3, 1.5)],
                                      [(2, 2), (2.5, 2.5)]])]
    TARGETS = [[L([(4, .5), (4, 2)])],
               [L([(0, 0), (0, 1)]), L([(0, 3), (2, 3)])],
               [L([(0, 3), (2, 3)]), L([(0, 0), (0, 1)]), L([(4, .5), (4, 2)])]]


SETS = [('domain', 0), ('domain', 1), ('obstacles', 0), ('obstacles', 1),
        ('obstacles', 2), ('targets', 0), ('targets', 1), ('targets', 2)]
QUERIES = [('mesh', .8), ('mesh', 1.),
           ('path', .8, 0, .3), ('path', 1., 0, .3), ('path', .8, 1, .3),
           ('path', .8, 'closest', .3), ('path', .8, 0, .6),
           ('obs', .8),
           ('nav', 0, .8, .3, .25), ('nav', 0, .8, .6, .25),
           ('nav', 0, .8, .3, .75), ('nav', 'closest', .8, .3, .25)]
SHORT = [QUERIES[k] for k in (0, 2, 5, 7, 8)]


def cases(tier):
    t = tier == 'thorough'
    out = []
    for a in range(len(QUERIES)):
        for start in range(3 if t else 2):
            out.append({'kind': 'three', 'a': a, 'start': start})
    for q in range(len(SHORT)):
        for s in range(len(SETS)):
            out.append({'kind': 'alternate', 'q': q, 's': s, 't': t})
    if t:
        for a in range(2 * len(SHORT)):
            for b in range(2 * (len(SHORT) + len(SETS))):
                out.append({'kind': 'four', 'a': a, 'b': b})
    out.append({'kind': 'invalid'})
    out.append({'kind': 'wrong'})
    out.append({'kind': 'hull'})
    out.append({'kind': 'overlap'})
    return out


STARTS = [(0, 2, 2), (0, 1, 1), (1, 0, 0)]


def make(geom):
    f = Field()
    d, o, t = geom
    f.domain = DOMAINS[d]
    f.obstacles = OBSTACLES[o]
    f.targets = list(TARGETS[t])
    return f


def numbers(v):
    v = np.ascontiguousarray(v, dtype=float)
    return (np.where(np.isnan(v), 12345.0, v) + 0.0).tobytes()


def plain(v):
    """Numbers of maps in a comparable form."""
    if isinstance(v, np.ma.MaskedArray):
        return ('masked', np.ma.getmaskarray(v).tolist(),
                numbers(v.filled(0.0)))
    if isinstance(v, np.ndarray):
        return ('array', v.shape, numbers(v))
    if isinstance(v, Q.MeshGrid):
        return ('mesh', plain(v.values[0]), plain(v.values[1]),
                tuple(v.shape), v.step, tuple(v.bounds),
                plain(np.asarray(v.indicer((1.3, 2.6)))))
    if isinstance(v, (tuple, list)):
        return tuple(plain(x) for x in v)
    return repr(v)


class Refused:
    pass


MEMO = {}


def reference(geom, q):
    key = (geom, q)
    if key not in MEMO:
        MEMO[key] = compute(geom, q)
    return MEMO[key]


def compute(geom, q):
    domain, obstacles, targets = (DOMAINS[geom[0]], OBSTACLES[geom[1]],
                                  TARGETS[geom[2]])

    def mesh(step):
        return Q.meshgrid(step, *domain.bounds)

    def target(index):
        if index == 'closest':
            u = targets[0]
            for v in targets[1:]:
                u = u | v
            return u
        return targets[index] if index < len(targets) else None

    if q[0] == 'mesh':
        return plain(mesh(q[1]))
    if q[0] == 'path':
        if target(q[2]) is None:
            return IndexError
        return plain(Q.shortest_path(mesh(q[1]), domain, target(q[2]),
                                     obstacles, q[3]))
    if q[0] == 'obs':
        if obstacles is None:
            return Refused
        return plain(O.direction_map_obstacles(mesh(q[1]), obstacles))
    if target(q[1]) is None:
        return IndexError
    dir_t, dmap_t = Q.shortest_path(mesh(q[2]), domain, target(q[1]),
                                    obstacles, q[3])
    if obstacles is not None:
        dir_o, dmap_o = O.direction_map_obstacles(mesh(q[2]), obstacles)
        out = O.obstacle_handling(dmap_o, dir_o, dir_t, q[3], q[4])
    else:
        out = dir_t
    return plain((mesh(q[2]), dmap_t, out))


def ask(f, q):
    if q[0] == 'mesh':
        return f.meshgrid(q[1])
    if q[0] == 'path':
        return f.shortest_path_target(q[1], q[2], q[3])
    if q[0] == 'obs':
        return f.direction_map_obstacles(q[1])
    return f.navigation_to_target(*q[1:])


def play(rec, ops, start):
    fields = [make(start), make(STARTS[(STARTS.index(start) + 1) % 3])]
    geoms = [list(start), list(STARTS[(STARTS.index(start) + 1) % 3])]
    rec.state((start, ops))
    for n, (k, op) in enumerate(ops):
        rec.step()
        f, g = fields[k], geoms[k]
        if op[0] == 'domain':
            g[0] = op[1]
            f.domain = DOMAINS[op[1]]
        elif op[0] == 'obstacles':
            g[1] = op[1]
            f.obstacles = OBSTACLES[op[1]]
        elif op[0] == 'targets':
            g[2] = op[1]
            f.targets = list(TARGETS[op[1]])
        else:
            want = reference(tuple(g), op)
            if want is Refused:
                continue
            d = dict(history=ops[:n + 1], geometry=list(g))
            try:
                got = plain(ask(f, op))
            except IndexError:
                rec.check(want is IndexError, 'index', 'a query of a target '
                          'which exists is refused', **d)
                continue
            rec.check(got == want, 'stale:%s' % op[0], 'the answer is not the '
                      'one for the present geometry', **d)
    rec.trace()


def alphabet(queries):
    return [(k, op) for k in (0, 1) for op in SETS + queries]


def run_case(case, rec):
    globals()['run_' + case['kind']](case, rec)


def run_three(case, rec):
    # a replacement ahead of any query is another starting geometry, and the
    # two fields are alike: the first operation is a query of the first one
    ops = alphabet(QUERIES)
    start = STARTS[case['start']]
    a = (0, QUERIES[case['a']])
    for b in ops:
        # with three operations something is only remembered wrongly when the
        # last query resembles an earlier one, of either field
        asked = [o for o in (a, b) if o[1] in QUERIES]
        for c in ops:
            if c[1] in QUERIES and any(c[1][0] == o[1][0] or
                                       c[1][0] == 'nav' or
                                       o[1][0] == 'nav' or
                                       o[1][0] == 'mesh' for o in asked):
                play(rec, (a, b, c), start)


def run_alternate(case, rec):
    q, s = SHORT[case['q']], SETS[case['s']]
    for start in STARTS:
        for s2 in SETS:
            for q2 in SHORT:
                for q3 in (SHORT if case['t'] else (q,)):
                    play(rec, ((0, q), (0, s), (0, q2), (0, s2), (0, q3)),
                         start)


def run_four(case, rec):
    ops = alphabet(SHORT)
    a = [o for o in ops if o[1] in SHORT][case['a']]
    b = ops[case['b']]
    for c in ops:
        for d in ops:
            if d[1] in SHORT and c[1] in SETS:
                play(rec, (a, b, c, d), STARTS[0])


def run_invalid(case, rec):
    """Geometry which is refused leaves the field as it was."""
    P, L = geo.Polygon, geo.LineString
    bow = P([(0, 0), (2, 2), (2, 0), (0, 2)])
    bad = [('domain', bow), ('domain', P()), ('obstacles', bow),
           ('obstacles', P()), ('domain', L([(0, 0), (1, 1)])),
           ('domain', 'x'), ('obstacles', 3), ('targets', [1]),
           ('spawns', ['a'])]
    import traitlets
    for start in STARTS:
        for name, value in bad:
            for q in SHORT:
                if reference(start, q) is Refused:
                    continue
                f = make(start)
                before = getattr(f, name)
                rec.state((start, name, repr(value), q))
                first = plain(ask(f, q))
                try:
                    setattr(f, name, value)
                except (X.ValidationError, traitlets.TraitError) as e:
                    if name in ('domain', 'obstacles') and \
                            value in (bad[0][1], bad[1][1]):
                        rec.check(isinstance(e, X.ValidationError), 'kind',
                                  'the error is not a ValidationError',
                                  name=name)
                else:
                    rec.fail('accepted', 'invalid geometry is accepted',
                             name=name, value=repr(value))
                    continue
                rec.check(getattr(f, name) is before or
                          getattr(f, name) == before, 'kept',
                          'the refused geometry replaced the old one',
                          name=name)
                got = plain(ask(f, q))
                rec.check(got == first == reference(start, q), 'after',
                          'other answers after geometry was refused',
                          query=q)
                rec.step(2)
                rec.trace()


def run_wrong(case, rec):
    for start in STARTS:
        for index in ('nearest', 1.0, None, (0,)):
            f = make(start)
            rec.state((start, index))
            for call in (lambda: f.shortest_path_target(.5, index, .3),
                         lambda: f.navigation_to_target(index, .5, .3, .25)):
                try:
                    call()
                except X.InvalidType:
                    pass
                else:
                    rec.fail('index', 'a wrong index is accepted',
                             index=repr(index))
                rec.trace()
        # also after the same maps were asked for by the right index
        for right, wrong in ((0, 0.0), (1, 1.0), (np.int64(0), np.float64(0)),
                             (np.int64(1), 1.0 + 0j)):
            f = make(start)
            if int(right) >= len(TARGETS[start[2]]):
                continue
            for by in ('path', 'nav'):
                if by == 'path':
                    f.shortest_path_target(.5, right, .3)
                else:
                    f.navigation_to_target(right, .5, .3, .25)
                for call in (lambda: f.shortest_path_target(.5, wrong, .3),
                             lambda: f.navigation_to_target(wrong, .5, .3,
                                                            .25)):
                    try:
                        call()
                    except X.InvalidType:
                        pass
                    else:
                        rec.fail('indexafter', 'a wrong index is accepted '
                                 'after the right one', index=repr(wrong))
                    rec.step()
                    rec.trace()
        for index in (np.int64(0), np.int64(1)):
            f = make(start)
            if int(index) >= len(TARGETS[start[2]]):
                continue
            got = plain(f.shortest_path_target(.5, index, .3))
            rec.check(got == reference(start, ('path', .5, int(index), .3)),
                      'npindex', 'numpy index', start=start)
            rec.trace()
        f = Field()
        try:
            f.meshgrid(.5)
        except X.CrowdDynamicsException:
            pass
        else:
            rec.fail('nodomain', 'a field without domain has a grid')
        f.domain = DOMAINS[start[0]]
        try:
            f.navigation_to_target('closest', .8, .3, .25)
        except X.CrowdDynamicsException:
            pass
        else:
            rec.fail('notargets', 'navigation without targets')
        # and both become possible once the geometry is there
        f.targets = list(TARGETS[start[2]])
        f.obstacles = OBSTACLES[start[1]]
        q = ('nav', 'closest', .5, .3, .25)
        rec.check(plain(ask(f, q)) == reference(start, q), 'later',
                  'navigation after the targets were set')
        rec.trace(3)


def run_overlap(case, rec):
    """Targets which cover each other, or the obstacles, are all targets."""
    def box(x0, y0, x1, y1):
        return geo.Polygon([(x0, y0), (x1, y0), (x1, y1), (x0, y1)])

    shapes = [box(0, 0, 1.6, 1.6), box(.8, .8, 2.4, 2.4), box(0, 0, 2.4, 2.4),
              box(.4, .4, 1.2, 1.2), box(3.2, 0, 4, 2), box(0, 0, 1.6, 1.6)]
    for n in (2, 3):
        for sel in itertools.permutations(range(len(shapes)), n):
            parts = [shapes[k] for k in sel]
            f = Field()
            f.domain = DOMAINS[0]
            f.targets = list(parts)
            rec.state(('overlap', sel))
            rec.step()
            _, dmap = f.shortest_path_target(.8, 'closest', .3)
            mesh = f.meshgrid(.8)
            d = np.ma.filled(np.ma.asarray(dmap, dtype=float), np.nan)
            xs, ys = mesh.values
            for i in range(d.shape[0]):
                for j in range(d.shape[1]):
                    x, y = float(xs[i, j]), float(ys[i, j])
                    # signs tell the inside from the outside
                    for name, m, sign in (('inside', -.05, 1),
                                          ('outside', .85, -1)):
                        inside = any(b[0] - m < x < b[2] + m and
                                     b[1] - m < y < b[3] + m
                                     for b in (q.bounds for q in parts))
                        if inside == (sign > 0) and not math.isnan(d[i, j]):
                            rec.check(d[i, j] * sign > -1e-9, name,
                                      'a place %s of the targets' % name,
                                      targets=sel, place=(x, y), got=d[i, j])
            got = f.convex_hull()
            xs0 = [q.bounds for q in parts]
            want = (min(b[0] for b in xs0), min(b[1] for b in xs0),
                    max(b[2] for b in xs0), max(b[3] for b in xs0))
            rec.check(tuple(got.bounds) == want, 'hull', 'convex hull of '
                      'targets which cover each other', got=got.bounds,
                      want=want, targets=sel)
            g = Field()
            g.obstacles, g.targets, g.spawns = parts[0], [parts[1]], \
                [parts[-1]]
            rec.check(tuple(g.convex_hull().bounds) == want, 'hull-mixed',
                      'convex hull of objects which cover each other',
                      got=g.convex_hull().bounds, want=want, objects=sel)
            rec.trace()


def run_hull(case, rec):
    """The convex hull covers every object of the field."""
    spawns = [[], [geo.Polygon([(1, 1), (2, 1), (2, 2)])],
              [geo.Polygon([(5, 1), (6, 1), (6, 2)]),
               geo.Polygon([(-3, 1), (-2, 1), (-2, 2)])]]
    for o in range(3):
        for t in range(4):
            for s in range(3):
                f = Field()
                objs = []
                if o:
                    f.obstacles = OBSTACLES[o]
                    objs.append(OBSTACLES[o])
                if t:
                    f.targets = list(TARGETS[t - 1])
                    objs += TARGETS[t - 1]
                f.spawns = list(spawns[s])
                objs += spawns[s]
                if not objs:
                    continue
                rec.state((o, t, s))
                u = objs[0]
                for v in objs[1:]:
                    u = u | v
                got, want = f.convex_hull(), u.convex_hull
                rec.trace()
                rec.check(got.bounds == want.bounds and
                          abs(got.area - want.area) < 1e-9, 'hull',
                          'convex hull', got=got.bounds, want=want.bounds,
                          obstacles=o, targets=t, spawns=s)
