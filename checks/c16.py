"""C16: what is in line of sight, and which exit is detected.

Explored: every pair of segments on a grid (collinear, touching, degenerate
ones included), every set of walls from an alphabet with every line of sight,
every arrangement of agents, exits and walls for the exit detection and its
logic node.  Oracle: exact rational segment intersection."""
import itertools
import math
from fractions import Fraction as F

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all ordered pairs of segments on a 4 x 4 grid (65536); all '
             'subsets of up to 3 of 7 walls x all lines between 16 points; '
             'exits: all lists of up to 3 of 6 exits x subsets of up to 2 walls '
             'x 5 (2 for triples) ranges x 16 agents; the logic node with all follower '
             'masks; crowds of 5 to 150 exits, agents and walls; '
             'distances that differ by 1e-9',
    'thorough': '5 x 5 grid (390625 pairs), subsets of up to 4 walls, up to 3 '
                'walls around exits'}
ASSUMPTIONS = ['grid coordinates are exact in floating point',
               'an exit exactly at the end of the range may be judged either '
               'way']
CASE_TIMEOUT = 800


def setup():
    global np, G, S, E, A, L, otype, sim
    import numpy as np
    from crowddynamics.core import geom2D as G
    from crowddynamics.core import sensory_region as S
    from crowddynamics.core import evacuation as E
    from crowddynamics.core.structures import obstacle_type_linear as otype
    from crowddynamics.simulation import agents as A
    from crowddynamics.simulation import logic as L
    from mc import sim


def orient(a, b, c):
    v = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
    return (v > 0) - (v < 0)


def on(a, b, p):
    return orient(a, b, p) == 0 and min(a[0], b[0]) <= p[0] <= max(a[0], b[0]) \
        and min(a[1], b[1]) <= p[1] <= max(a[1], b[1])


def meet(a, b, c, d):
    """Exact: do the closed segments share a point."""
    o1, o2 = orient(a, b, c), orient(a, b, d)
    o3, o4 = orient(c, d, a), orient(c, d, b)
    if o1 * o2 < 0 and o3 * o4 < 0:
        return True
    return on(a, b, c) or on(a, b, d) or on(c, d, a) or on(c, d, b)


WALLS = [((0., 1.), (2., 1.)), ((1., 0.), (1., .5)), ((2., 2.), (3., 3.)),
         ((-1., -1.), (-1., 4.)), ((.5, 1.5), (1.5, 2.5)), ((3., 0.), (2., 0.)),
         ((1., 3.), (1., 3.5))]
PTS = [(float(x), float(y)) for x in range(4) for y in range(4)]
EXITS = [(0., 0.), (3., 0.), (1., 2.), (0., 3.), (3., 3.), (.5, .5)]
RANGES = [.75, 1.0, 1.5, 2.5, 20.0]


def cases(tier):
    t = tier == 'thorough'
    n = 5 if t else 4
    out = [{'kind': 'segments', 'a': k, 'n': n} for k in range(n * n)]
    out += [{'kind': 'sight', 'w': w, 'max': 4 if t else 3}
            for w in range(len(WALLS) + 1)]
    for k in range(1, 4):
        for e in range(len(EXITS)):
            out.append({'kind': 'exit', 'k': k, 'first': e, 'max': 3 if t else 2})
    out += [{'kind': 'node', 'r': r} for r in range(len(RANGES))]
    out += [{'kind': 'crowd', 'n': n} for n in ((5, 12, 40, 100, 150) if t else
                                                (5, 12, 40, 150))]
    out += [{'kind': 'close'}]
    return out


def walls_array(ws):
    a = np.zeros(len(ws), dtype=otype)
    for k, (p, q) in enumerate(ws):
        a['p0'][k], a['p1'][k] = p, q
    return a


def subsets(n):
    for k in range(n + 1):
        yield from itertools.combinations(range(len(WALLS)), k)


def detect(p, exits, walls, rng):
    """The acceptable answers."""
    best, out = None, set()
    for k, e in enumerate(exits):
        if any(meet(p, e, *w) for w in walls):
            continue
        d2 = F(p[0] - e[0]) ** 2 + F(p[1] - e[1]) ** 2
        r2 = F(rng) ** 2
        if d2 > r2:
            continue
        if d2 == r2:
            out.add(('edge', k))
            continue
        if best is None or d2 < best[0]:
            best = (d2, {k})
        elif d2 == best[0]:
            best[1].add(k)
    if best is not None:
        return best[1]
    ok = {-1}
    ok |= {k for _, k in out}
    return ok


def run_case(case, rec):
    kind = case['kind']
    if kind == 'segments':
        n = case['n']
        pts = [(float(x), float(y)) for x in range(n) for y in range(n)]
        arrs = [np.array(p) for p in pts]
        a = case['a']
        for b, c, d in itertools.product(range(n * n), repeat=3):
            want = meet(pts[a], pts[b], pts[c], pts[d])
            got = G.line_intersect(arrs[a], arrs[b], arrs[c], arrs[d])
            rec.step()
            if bool(got) != want:
                t = ('degenerate' if a == b or c == d else 'parallel' if
                     (pts[b][0] - pts[a][0]) * (pts[d][1] - pts[c][1]) ==
                     (pts[b][1] - pts[a][1]) * (pts[d][0] - pts[c][0])
                     else 'crossing')
                rec.fail('intersect-' + t, 'line_intersect', got=bool(got),
                         x=[pts[a], pts[b]], y=[pts[c], pts[d]], want=want)
            rec.state((a, b, c, d))
        rec.trace((n * n) ** 3)
    elif kind == 'sight':
        for ws in subsets(case['max']):
            # the cases share the subsets by their first wall
            if (ws[0] if ws else len(WALLS)) != case['w']:
                continue
            walls = [WALLS[w] for w in ws]
            arr = walls_array(walls)
            for p, q in itertools.product(PTS, repeat=2):
                want = any(meet(p, q, *w) for w in walls)
                got = S.is_obstacle_between_points(np.array(p), np.array(q),
                                                   arr)
                rec.state((ws, p, q))
                rec.trace()
                rec.check(bool(got) == want, 'sight', 'line of sight',
                          p=p, q=q, walls=walls, got=bool(got), want=want)
    elif kind == 'exit':
        pos = np.array(PTS)
        for rest in itertools.product(range(len(EXITS)), repeat=case['k'] - 1):
            exits = [EXITS[case['first']]] + [EXITS[e] for e in rest]
            for ws in subsets(case['max']):
                walls = [WALLS[w] for w in ws]
                arr = walls_array(walls)
                for rng in RANGES if case['k'] < 3 else RANGES[1::2]:
                    got, has = E.exit_detection(np.array(exits), pos, arr, rng)
                    rec.trace()
                    rec.state((tuple(exits), ws, rng))
                    for k, p in enumerate(PTS):
                        rec.step()
                        ok = detect(p, exits, walls, rng)
                        rec.check(int(got[k]) in ok, 'exit', 'detected exit',
                                  agent=p, exits=exits, walls=walls, range=rng,
                                  got=int(got[k]), want=sorted(ok))
                        rec.check(bool(has[k]) == (int(got[k]) != -1),
                                  'exit-flag', 'flag and exit disagree',
                                  agent=p, exits=exits, walls=walls,
                                  range=rng)
    elif kind == 'crowd':
        run_crowd(case, rec)
    elif kind == 'close':
        # exits hardly nearer than others, or than the range
        gaps = [0.0, 1e-9, -1e-9, 4e-9, -2e-8, 1e-7]
        for base, far, n in itertools.product(
                ((0., 0.), (37.1, -12.3)), (1.0, 7.3), (1, 2, 3)):
            for sel in itertools.permutations(gaps, n):
                exits = []
                for k, g in enumerate(sel):
                    c, s_ = ((1., 0.), (0., 1.), (-.6, .8))[k]
                    exits.append((base[0] + far * (1 + g) * c,
                                  base[1] + far * (1 + g) * s_))
                for rng in (far, far * (1 + 5e-10), far * (1 - 5e-10),
                            far * (1 + 2e-9), far * (1 - 1e-8), 2 * far):
                    ok = detect(base, exits, [], rng)
                    d = [math.dist(base, e) for e in exits]
                    if any(abs(x - y) < 1e-13 * far for x, y in
                           itertools.combinations(d + [rng], 2)):
                        continue
                    got, has = E.exit_detection(
                        np.array(exits), np.array([base]), walls_array([]),
                        rng)
                    rec.trace()
                    rec.step()
                    rec.state((base, far, sel, rng))
                    rec.check(int(got[0]) in ok and bool(has[0]) ==
                              (int(got[0]) != -1), 'close', 'exit among '
                              'exits at nearly the same distance',
                              agent=base, exits=exits, range=rng,
                              got=int(got[0]), want=sorted(ok, key=str))
    else:
        run_node(case, rec)


def run_crowd(case, rec):
    """Many exits, agents and walls."""
    n = case['n']
    side = 8
    ps = [(.75 * (k % side) + .0625 * (k % 5), .8125 * (k // side))
          for k in range(n)]
    exits = [(.5 * (5 * k % 13) - .25, .5 * (7 * k % 11) - .375)
             for k in range(n)]
    walls = [((.375 * (11 * k % 17) - .125, .375 * (k % 15)),
              (.375 * (11 * k % 17) + .25, .375 * (k % 15) + .3125))
             for k in range(n)]
    pos = np.array(ps)
    for m in (1, n // 2, n):
        for w in (0, 1, n) if n <= 40 else (0, 1):
            arr = walls_array(walls[:w])
            for rng in RANGES if n <= 40 else RANGES[-1:]:
                got, has = E.exit_detection(np.array(exits[:m]), pos, arr, rng)
                rec.trace()
                rec.state((n, m, w, rng))
                rec.step(n)
                rec.check(len(got) == len(has) == n, 'crowd', 'not one answer '
                          'for each agent', n=n, got=len(got))
                for k, p in enumerate(ps):
                    ok = detect(p, exits[:m], walls[:w], rng)
                    rec.check(int(got[k]) in ok and
                              bool(has[k]) == (int(got[k]) != -1), 'crowd',
                              'exit detected by agent %d of %d' % (k, n),
                              exits=m, walls=w, range=rng, got=int(got[k]),
                              want=sorted(ok, key=str))


def run_node(case, rec):
    from shapely.geometry import LineString, MultiLineString, Polygon
    rng = RANGES[case['r']]
    node_range = max(rng, 1.0)
    targets = [LineString([(0., -1.), (0., 1.)]),
               LineString([(2.5, 0.), (3.5, 0.)]),
               LineString([(0., 3.), (1., 3.), (2., 0.)])]
    centers = [(0., 0.), (3., 0.), (1., 2.)]
    # areas with the same centres; more corners on one side, and a hole
    areas = [Polygon([(-.5, -1.), (.5, -1.), (.5, 1.), (0., 1.), (-.25, 1.),
                      (-.5, 1.)]),
             Polygon([(2., -.5), (4., -.5), (4., .5), (2., .5)],
                     [[(2.75, -.25), (2.75, .25), (3.25, .25),
                       (3.25, -.25)]]),
             Polygon([(0., 1.), (3., 2.), (0., 3.)])]
    ps = [(0., 1.), (1., 1.), (3., 1.), (2., 3.)]
    for ws in ((), (0,), (0, 2), (5,)):
        walls = [WALLS[w] for w in ws]
        obstacles = None if not ws else MultiLineString(
            [list(w) for w in walls])
        for nt, which in [(nt, w) for nt in (0, 1, 2, 3) for w in
                          itertools.product((0, 1), repeat=nt)]:
            doors = [(areas if w else targets)[k]
                     for k, w in enumerate(which)]
            for mask in itertools.product((False, True), repeat=len(ps)):
                if any(which) and sum(mask) not in (1, len(ps)):
                    continue
                a = np.zeros(len(ps), dtype=A.agent_type_circular)
                a['position'] = ps
                a['is_follower'] = mask
                a['target'] = [-1, 0, 7, -1]
                # whether an agent is active does not matter
                a['active'] = [(nt + k + sum(mask)) % 3 > 0 for k in range(4)]
                a['target_reached'] = [k % 2 for k in range(4)]
                before = a.copy()
                s = sim.simulation(a, obstacles=obstacles,
                                   targets=doors)
                node = L.ExitDetection(s, detection_range=node_range)
                node.update()
                rec.trace()
                rec.state((ws, which, mask, rng))
                for k, p in enumerate(ps):
                    ok = detect(p, centers[:nt], walls, node_range)
                    d = dict(agent=p, walls=walls, targets=nt, mask=mask,
                             range=node_range)
                    if not mask[k]:
                        rec.check(a['target'][k] == before['target'][k] and
                                  not a['is_follower'][k], 'node-other',
                                  'an agent that follows nobody was sent to '
                                  'an exit', **d)
                        continue
                    got = int(a['target'][k])
                    if a['is_follower'][k]:
                        rec.check(-1 in ok and got == before['target'][k],
                                  'node-missed', 'an exit in sight was not '
                                  'detected', got=got, want=sorted(ok), **d)
                    else:
                        rec.check(got in ok - {-1}, 'node-exit',
                                  'target of the agent that detected an exit',
                                  got=got, want=sorted(ok), **d)
                for name in a.dtype.names:
                    if name not in ('target', 'is_follower'):
                        rec.check(a[name].tobytes() == before[name].tobytes(),
                                  'node-pure', '%s was changed' % name)
