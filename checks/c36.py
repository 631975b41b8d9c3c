"""C36: the fields and simulations that come with the package are sound.

Explored: every field over a grid of its sizes, every simulation over agent
types, numbers of agents and every sequence of the first random draws.
Oracle: flood filling of the free space, plain geometry and the driving force
on plain numbers."""
import itertools
import math

from mc import rand

LEVEL = 'model_checking'
BOUNDS = {
    'quick': '8 fields over all combinations of 2-4 sizes each; changes of '
             'sizes: all sequences of 2 of 5; 14 simulations x 2 agent types x '
             '2-3 numbers of agents x all sequences of 3 of 3 draws, then 2 '
             'iterations; single agents in all 81 sequences of 4',
    'thorough': 'sequences of 5 draws and 10 iterations, 3 changes of sizes'}
ASSUMPTIONS = ['shapely, skimage, skfmm, cell_lists, scipy are stand-ins',
               'random draws after the enumerated ones are evenly spread',
               'exits and passages are not wider than the walls they are in',
               'navigation on a coarse grid']
CASE_TIMEOUT = 850


def setup():
    global np, A, L, F, S, C, V, geo, stats, CrowdDynamicsException
    import numpy as np
    import scipy.stats as stats
    import shapely.geometry as geo
    from crowddynamics.examples import collective_motion as C
    from crowddynamics.examples import fields as F
    from crowddynamics.examples import simulations as S
    from crowddynamics.examples import validation as V
    from crowddynamics.simulation import agents as A
    from crowddynamics.simulation import logic as L


# Fields -------------------------------------------------------------------

WH = [(10., 10.), (20., 8.), (7.5, 13.), (40., 5.)]
FIELDS = {
    'OutdoorField': [dict(width=w, height=h) for w, h in WH],
    'HallwayField': [dict(width=w, height=h, ratio=r) for w, h in WH
                     for r in (1 / 3, .5, .1)],
    'Rounding': [dict(width=w, height=h, ratio=r) for w, h in WH
                 for r in (.6, .5, .85)],
    'AvoidObstacle': [dict(width=w, height=h, exit_width=e, ratio_obs=r)
                      for w, h in WH for e in (1.25, 3.) for r in (.6, .3)],
    'ClosedRoom': [dict(width=w, height=h) for w, h in WH],
    'RoomWithOneExit': [dict(width=w, height=h, exit_width=e,
                             exit_hall_width=d) for w, h in WH
                        for e in (1.25, 3.) for d in (2., .5)],
    'FourExitsField': [dict(exit_width=e) for e in (1.25, .8, 3.)],
    'PillarInTheMiddle': [dict(width=w, height=h, radius_pillar=r)
                          for w, h in WH for r in (1., .4, 2.)],
}
OPEN = ('OutdoorField', 'PillarInTheMiddle')


def bounds(name, p):
    w, h = p.get('width'), p.get('height')
    return {'RoomWithOneExit': lambda: (0, 0, w + p['exit_hall_width'], h),
            'FourExitsField': lambda: (0, 0, 100, 80),
            'PillarInTheMiddle': lambda: (-w / 2, -h / 2, w / 2, h / 2),
            }.get(name, lambda: (0, 0, w, h))()


def exits(name, p):
    """Lengths of the targets."""
    h = p.get('height')
    return {'HallwayField': lambda: [h, h], 'Rounding': lambda: [h / 2],
            'AvoidObstacle': lambda: [p['exit_width']],
            'RoomWithOneExit': lambda: [p['exit_width']],
            'FourExitsField': lambda: [p['exit_width']] * 4,
            }.get(name, lambda: [])()


def areas(name, p):
    """Areas of the spawns."""
    w, h = p.get('width'), p.get('height')
    return {'HallwayField': lambda: [p['ratio'] * w * h] * 2,
            'Rounding': lambda: [w * h / 4],
            'AvoidObstacle': lambda: [p['ratio_obs'] * w * h / 2,
                                      p['ratio_obs'] * w * h],
            'FourExitsField': lambda: None}.get(name, lambda: [w * h])()


def cases(tier):
    t = tier == 'thorough'
    out = [{'kind': 'field', 'name': n, 'k': k} for n, ps in FIELDS.items()
           for k in range(len(ps))]
    out += [{'kind': 'change', 'name': n, 'first': f, 'n': 3 if t else 2}
            for n in ('OutdoorField', 'HallwayField') for f in range(5)]
    for m, n, _, _ in SIMS:
        for a in range(2):
            out.append({'kind': 'simulation', 'm': m, 'n': n, 'a': a,
                        'draws': 5 if t else 3, 'steps': 10 if t else 2})
            out.append({'kind': 'alone', 'm': m, 'n': n, 'a': a})
    return out


def run_case(case, rec):
    globals()['run_' + case['kind']](case, rec)


def segments(g):
    """Edges of a geometry, by its coordinates alone."""
    if g is None or g.is_empty:
        return []
    m = geo.mapping(g)

    def lines(kind, c):
        if kind in ('LineString', 'LinearRing'):
            pts = [tuple(map(float, q)) for q in c]
            if kind == 'LinearRing' and pts[0] != pts[-1]:
                pts.append(pts[0])
            return list(zip(pts[:-1], pts[1:]))
        if kind == 'Polygon':
            return sum((lines('LinearRing', r) for r in c), [])
        if kind in ('MultiLineString', 'MultiPolygon'):
            return sum((lines(kind[5:], q) for q in c), [])
        return []

    if m['type'] == 'GeometryCollection':
        return sum((segments(q) for q in g), [])
    return lines(m['type'], m['coordinates'])


def cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def crosses(a, b, c, d):
    return cross(a, b, c) * cross(a, b, d) < 0 and \
        cross(c, d, a) * cross(c, d, b) < 0


def distance(p, seg):
    (ax, ay), (bx, by) = seg
    dx, dy = bx - ax, by - ay
    n = dx * dx + dy * dy
    t = 0 if n == 0 else max(0, min(1, ((p[0] - ax) * dx + (p[1] - ay) * dy)
                                    / n))
    return math.hypot(p[0] - ax - t * dx, p[1] - ay - t * dy)


class Space:
    """Free space on a grid: neighbours are connected unless an edge runs
    between them.  One cell more than the bounds on each side."""

    def __init__(self, box, step, walls):
        self.box, self.step = box, step
        # shifted, so that no edge runs through the middle of a cell
        self.low = (box[0] - step * 1.4837, box[1] - step * 1.4693)
        self.size = (int((box[2] - box[0]) / step) + 4,
                     int((box[3] - box[1]) / step) + 4)
        self.near = {}
        for w in walls:
            (ax, ay), (bx, by) = w
            i0, j0 = self.cell((min(ax, bx), min(ay, by)))
            i1, j1 = self.cell((max(ax, bx), max(ay, by)))
            for i in range(i0 - 1, i1 + 2):
                for j in range(j0 - 1, j1 + 2):
                    if distance(self.middle((i, j)), w) < 1.5 * step:
                        self.near.setdefault((i, j), []).append(w)

    def cell(self, p):
        return tuple(int(math.floor((p[k] - self.low[k]) / self.step))
                     for k in (0, 1))

    def middle(self, c):
        return tuple(self.low[k] + (c[k] + .5) * self.step for k in (0, 1))

    def fill(self, start):
        seen, todo = {start}, [start]
        while todo:
            c = todo.pop()
            for d in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                n = (c[0] + d[0], c[1] + d[1])
                if n in seen or not (0 <= n[0] < self.size[0] and
                                     0 <= n[1] < self.size[1]):
                    continue
                walls = self.near.get(c)
                if walls:
                    a, b = self.middle(c), self.middle(n)
                    if any(crosses(a, b, *w) for w in walls):
                        continue
                seen.add(n)
                todo.append(n)
        return seen

    def outside(self, c):
        x, y = self.middle(c)
        b = self.box
        return x < b[0] or x > b[2] or y < b[1] or y > b[3]


def known(rec, key, what, **d):
    """A defect listed in known_findings.json, exactly as it is, once per
    case."""
    if not any(f['key'] == key for f in rec.fails):
        rec.fail(key, what, **d)


def area(g):
    pts = list(g.exterior.coords)
    return abs(sum(a[0] * b[1] - a[1] * b[0]
                   for a, b in zip(pts[:-1], pts[1:]))) / 2


def describe(f):
    def one(g):
        if g is None:
            return None
        return sorted(tuple(sorted(s)) for s in segments(g))
    return (one(f.domain), one(f.obstacles), [one(g) for g in f.targets],
            [one(g) for g in f.spawns])


def inside_box(pts, box, tol=1e-9):
    return all(box[0] - tol <= x <= box[2] + tol and
               box[1] - tol <= y <= box[3] + tol for x, y in pts)


def run_field(case, rec):
    name = case['name']
    p = FIELDS[name][case['k']]
    f = getattr(F, name)(**p)
    box = bounds(name, p)
    d = dict(field=name, sizes=p)
    rec.state((name, case['k']))
    want, frame = areas(name, p), box
    if name == 'PillarInTheMiddle':
        w, h = p['width'], p['height']
        quarter = (w / 2, h / 2, w, h)
        if f.domain.bounds == quarter:
            known(rec, 'pillar-in-a-corner', 'PillarInTheMiddle: the domain '
                  'is the quarter right above of the pillar', **d)
            box, want = quarter, [w * h / 4]
    rec.check(f.domain is not None and f.domain.is_valid and
              all(abs(a - b) < 1e-9 for a, b in zip(f.domain.bounds, box)) and
              abs(area(f.domain) - (box[2] - box[0]) * (box[3] - box[1])) <
              1e-6, 'domain', 'domain', got=f.domain.bounds, want=box, **d)
    walls = segments(f.obstacles)
    for what, gs in (('obstacles', [f.obstacles]), ('targets', f.targets),
                     ('spawns', f.spawns)):
        for g in gs:
            pts = [q for s in segments(g) for q in s]
            rec.check(inside_box(pts, frame if what == 'obstacles' else box),
                      'within', '%s reach out of the '
                      'domain' % what, points=pts[:9], **d)
    lengths = [sum(math.dist(*s) for s in segments(g)) for g in f.targets]
    widths = exits(name, p)
    rec.check(len(lengths) == len(widths) and all(
        abs(a - b) < 1e-9 for a, b in zip(lengths, widths)), 'exits',
        'widths of the targets', got=lengths, want=widths, **d)
    got = [area(g) for g in f.spawns]
    rec.check(bool(got) and min(got) > 0 and (want is None or (
        len(got) == len(want) and all(abs(a - b) < 1e-6 * b for a, b in
                                      zip(got, want)))), 'spawns',
              'areas of the spawns', got=got, want=want, **d)
    for k, g in enumerate(f.targets):
        for s in segments(g):
            for t in (.01, .25, .5, .75, .99):
                q = [s[0][c] + t * (s[1][c] - s[0][c]) for c in (0, 1)]
                rec.step()
                rec.check(all(distance(q, w) > 1e-9 for w in walls),
                          'blocked', 'an obstacle stands in a target',
                          target=k, point=q, **d)
    # from any spawn one gets to all of the targets, and nowhere else
    gap = min(exits(name, p) + [1.])
    step = min(gap / 3, .21) if name != 'FourExitsField' else gap / 3
    space = Space(box, step, walls)
    doors = sum((segments(g) for g in f.targets), [])
    closed = Space(box, step, walls + doors)
    for k, g in enumerate(f.spawns):
        starts = []
        b = g.bounds
        for i in range(1, 6):
            for j in range(1, 6):
                q = (b[0] + (b[2] - b[0]) * i / 6.03,
                     b[1] + (b[3] - b[1]) * j / 6.07)
                if g.contains(geo.Point(*q)) and all(
                        distance(q, w) > .3 for w in walls) and not (
                        isinstance(f.obstacles, geo.Polygon) and
                        f.obstacles.contains(geo.Point(*q))):
                    starts.append(q)
        rec.check(bool(starts), 'room', 'no room in a spawn', spawn=k, **d)
        seen, kept = set(), set()
        for q in starts:
            rec.step()
            rec.trace()
            c = space.cell(q)
            if c not in seen:
                reach = space.fill(c)
                for n, t in enumerate(f.targets):
                    rec.check(any(distance(space.middle(x), s) < step
                                  for x in reach for s in segments(t)),
                              'reach', 'a target cannot be reached', spawn=k,
                              start=q, target=n, **d)
                seen |= reach
            if c not in kept and name not in OPEN:
                reach = closed.fill(c)
                rec.check(not any(closed.outside(x) for x in reach), 'closed',
                          'one gets out of the field other than by the '
                          'targets', spawn=k, start=q, **d)
                kept |= reach


CHANGES = [('width', 12.), ('width', 30.), ('height', 6.), ('height', 14.),
           ('ratio', .25)]


def run_change(case, rec):
    """The geometry follows the sizes."""
    name = case['name']
    cls = getattr(F, name)
    usable = [k for k, c in enumerate(CHANGES) if c[0] in cls.class_trait_names()]
    if case['first'] not in usable:
        return
    for n in range(case['n']):
        for rest in itertools.product(usable, repeat=n):
            f = cls()
            p = {}
            for k in (case['first'],) + rest:
                setattr(f, *CHANGES[k])
                p[CHANGES[k][0]] = CHANGES[k][1]
                rec.step()
                rec.check(describe(f) == describe(cls(**p)), 'change',
                          'geometry does not follow the sizes', field=name,
                          sizes=p, got=describe(f), want=describe(cls(**p)))
            rec.state((name, case['first'], rest))
            rec.trace()


# Simulations --------------------------------------------------------------

# module, class, settings, groups as (setting, number) -> count
SIMS = [
    ('S', 'Outdoor', [dict(size=1), dict(size=4)], None),
    ('S', 'Hallway', [dict(size=2), dict(size=5), dict(size=3, width=20.)],
     None),
    ('S', 'RoomWithOneExit', [dict(size=1), dict(size=4),
                              dict(size=2, width=15.)], None),
    ('S', 'FourExitsRandomPlacing', [dict(size=0), dict(size=3)], None),
    ('C', 'Outdoor', [dict(size_leaders=1, size_herding=3),
                      dict(size_leaders=0, size_herding=2)], None),
    ('C', 'Rounding', [dict(size_leaders=1, size_herding=2),
                       dict(size_leaders=2, size_herding=0)], None),
    ('C', 'AvoidObstacle', [dict(size_leaders=1, size_herding=2),
                            dict(size_leaders=0, size_herding=3)], None),
    ('C', 'ClosedRoom', [dict(size_leaders=1, size_herding=2),
                         dict(size_leaders=0, size_herding=1)], None),
    ('C', 'FourExitsRandomPlacing', [dict(size_leaders=2, size_herding=2)],
     None),
    ('C', 'FourExitsFixedPlacing', [dict(size_herding=2)], None),
    ('V', 'TestMovement', [dict()], None),
    ('V', 'TestAgentInteraction', [dict()], None),
]


def number(m, n, kw):
    if m == 'V':
        return {'TestMovement': 1, 'TestAgentInteraction': 2}[n]
    if m == 'S':
        return kw['size']
    return kw.get('size_leaders', 4) + kw['size_herding']


LETTERS = [.07, .46, .83]


def spread(k):
    """Evenly spread numbers."""
    return (.3 + .6180339887498949 * (k + 1)) % 1.0


def make(m, n, kw, agent_type, d, seq, like=None):
    d.set([LETTERS[i] for i in seq], spread)
    if n in ('FourExitsRandomPlacing', 'FourExitsFixedPlacing', 'AvoidObstacle',
             'RoomWithOneExit'):
        # wide enough for a coarse grid
        kw = dict(kw, exit_width=3.)
    if like is not None:
        # the field of an equal simulation, which has its maps already
        kw = dict(kw, field=like.field)
    s = getattr({'S': S, 'C': C, 'V': V}[m], n)(agent_type=agent_type, **kw)
    s.agents
    s.logic
    try:
        s.logic['Navigation'].step = .5 if 'Four' in n else .25
    except KeyError:
        pass
    return s


def discs(a):
    if 'position_ls' not in a.dtype.names:
        return [(a['position'].tolist(), float(a['radius']))]
    return [(a['position'].tolist(), float(a['r_t'])),
            (a['position_ls'].tolist(), float(a['r_s'])),
            (a['position_rs'].tolist(), float(a['r_s']))]


def start(s, m, n, kw, rec, d):
    """The agents of a simulation that has not begun."""
    a = s.agents.array
    want = number(m, n, kw)
    if n == 'Hallway' and want % 2 and len(a) == want - 1:
        known(rec, 'hallway-odd-size', 'Hallway: an odd number of agents '
              'is one short', got=len(a), want=want, **d)
        want -= 1
    rec.check(len(a) == want, 'number', 'number of agents',
              got=len(a), want=want, **d)
    walls = segments(s.field.obstacles)
    for i in range(len(a)):
        p = a['position'][i].tolist()
        where = [k for k, g in enumerate(s.field.spawns) if g.intersects(
            geo.Point(*p))]
        rec.check(bool(where), 'spawn', 'an agent starts outside of the '
                  'spawns', position=p, **d)
        for x, r in discs(a[i]):
            rec.check(all(distance(x, w) >= r - 1e-9 for w in walls)
                      or n in ('ClosedRoom',), 'wall',
                      'an agent starts on an obstacle', position=p, **d)
        for j in range(i):
            rec.check(all(math.dist(x, y) >= r + q - 1e-9
                          for x, r in discs(a[i]) for y, q in discs(a[j])),
                      'overlap', 'agents start on each other',
                      positions=a['position'].tolist(), **d)
        rec.check(bool(a['active'][i]) and a['mass'][i] > 0 and
                  a['radius'][i] > 0 and a['target_velocity'][i] > 0,
                  'body', 'body of an agent', **d)
        t = int(a['target'][i])
        rec.check(t == A.NO_TARGET or 0 <= t < len(s.field.targets),
                  'target', 'target of an agent', got=t, **d)
    if m == 'C':
        lead = kw.get('size_leaders', 4)
        rec.check(a['is_leader'].tolist() == [True] * lead + [False] * (
            len(a) - lead) and a['is_follower'].tolist() == [False] * lead +
            [True] * (len(a) - lead), 'roles', 'leaders and followers',
            got=a['is_leader'].tolist(), **d)
        if s.field.targets:
            rec.check(all((int(t) == A.NO_TARGET) == (k >= lead) for k, t in
                          enumerate(a['target'])), 'aims', 'leaders know '
                      'their target, followers do not',
                      got=a['target'].tolist(), **d)
    if n == 'FourExitsFixedPlacing':
        rec.check(a['target'].tolist()[:4] == [0, 1, 2, 3], 'four',
                  'one leader per exit', got=a['target'].tolist(), **d)
    if n == 'Hallway':
        mid = s.width / 2
        half = len(a) // 2
        for k in range(len(a)):
            left = a['position'][k][0] < mid
            rec.check(left == (k < half) and int(a['target'][k]) == int(left)
                      and (a['velocity'][k][0] > 0) == left, 'ways',
                      'agents of the hallway walk to the other side', **d)


class Own:
    def __enter__(self):
        self.cm = rand.owned()
        d = self.cm.__enter__()
        stats.truncnorm.source = lambda a, b, n: [
            a + (b - a) * (.25 + .5 * d.u()) for _ in range(n)]
        return d

    def __exit__(self, *a):
        stats.truncnorm.source = None
        return self.cm.__exit__(*a)


def settings(case):
    for m, n, ks, _ in SIMS:
        if (m, n) == (case['m'], case['n']):
            return ks


def types(case):
    return (A.Circular, A.ThreeCircle)[case['a']]


def run_simulation(case, rec):
    m, n = case['m'], case['n']
    with Own() as own:
        for k, kw in enumerate(settings(case)):
            depth = case['draws'] if m != 'V' else 1
            seqs = list(itertools.product(range(3), repeat=depth))
            d = dict(simulation=m + '.' + n, settings=kw,
                     agent_type=types(case).__name__)
            for seq in seqs:
                s = make(m, n, kw, types(case), own, seq)
                rec.state((m, n, case['a'], k, seq))
                rec.step()
                if m != 'V':
                    start(s, m, n, kw, rec, dict(d, draws=seq))
            like = None
            for seq in seqs:
                if len(s.agents.array) and sum(seq) % 4 == 0:
                    s = make(m, n, kw, types(case), own, seq, like)
                    like = s
                    run(s, case['steps'], rec, dict(d, draws=seq))
                    rec.trace()


def run(s, steps, rec, d):
    s.exit_condition = lambda x: x.data['iterations'] == steps
    a = s.agents.array
    v = a['velocity'].copy()
    try:
        s.run()
    except Exception as e:
        rec.fail('run', 'the simulation stopped: %s: %s' % (
            type(e).__name__, e), **d)
        return
    rec.step(steps)
    rec.check(s.data['iterations'] == steps and
              abs(s.data['time_tot'] - .01 * steps) < 1e-9, 'time',
              'time of the simulation', got=dict(s.data), **d)
    for name in ('position', 'velocity', 'force_prev'):
        rec.check(bool(np.isfinite(a[name]).all()), 'finite', '%s is not '
                  'finite' % name, got=a[name].tolist(), **d)
    rec.check(not a['force'].any(), 'reset', 'forces are not reset', **d)
    if 'inactive' in s.data:
        rec.check(int(s.data['inactive']) == int((~a['active']).sum()),
                  'inactive', 'number of inactive agents', **d)


def run_alone(case, rec):
    """Agents which are far from each other and from walls are driven towards
    their directions, and by nothing else."""
    m, n = case['m'], case['n']
    kw = dict(settings(case)[0])
    for key in ('size_herding',):
        if key in kw:
            kw[key] = 0
    if n == 'FourExitsRandomPlacing' and m == 'S':
        kw['size'] = 1
    if n == 'ClosedRoom' or (m == 'C' and n != 'FourExitsFixedPlacing'):
        kw['size_leaders'] = 1
    s = None
    with Own() as own:
        for seq in itertools.product(range(3), repeat=4 if m != 'V' else 2):
            s = make(m, n, kw, types(case), own, seq, s)
            a = s.agents.array
            d = dict(simulation=m + '.' + n, settings=kw, draws=seq)
            rec.state((m, n, case['a'], seq))
            rec.trace()
            # no fluctuation
            a['std_rand_force'] = 0
            a['velocity'] = [LETTERS[seq[0]], -LETTERS[seq[1]]]
            if s.field.targets == []:
                a['target_direction'] = [(1., 0.), (0., -1.), (-.6, .8)][seq[0]]
            v = a['velocity'].copy()
            try:
                s.update()
            except Exception as e:
                rec.fail('run', 'the simulation stopped: %s: %s' % (
                    type(e).__name__, e), **d)
                continue
            rec.step()
            walls = segments(s.field.obstacles)
            for k in range(len(a)):
                if any(math.dist(a['position'][k], a['position'][j]) < 4
                       for j in range(len(a)) if j != k) or any(
                           distance(a['position'][k].tolist(), w) < .4
                           for w in walls):
                    continue
                q = a['mass'][k] / a['tau_adj'][k]
                want = q * (a['target_velocity'][k] * a['target_direction'][k]
                            - v[k])
                if n == 'TestMovement' and not a['force_prev'][k].any():
                    known(rec, 'testmovement-not-driven', 'TestMovement: '
                          'forces are reset before they move the agent', **d)
                    want[:] = 0
                rec.check(bool(np.allclose(a['force_prev'][k], want,
                                           rtol=1e-6, atol=1e-6)), 'driven',
                          'a free agent is not driven towards its direction',
                          got=a['force_prev'][k].tolist(), want=want.tolist(),
                          **d)
                if int(a['target'][k]) != A.NO_TARGET:
                    e = a['target_direction'][k]
                    rec.check(abs(math.hypot(*e) - 1) < 1e-6, 'directed',
                              'an agent with a target has no direction',
                              got=e.tolist(), **d)
