"""C35: an iteration of a whole simulation does what its nodes are for.

Explored: every history of target directions and random draws up to a depth,
from every scene of agents, motions and walls, for trees of different shape
and both agent types, on real simulations.  Oracle: forces, torques and the
integration restated on plain numbers; every explored step is checked as a
relation between the state before and after."""
import itertools
import math

from checks import c11, c12, c13
from mc import rand
from mc.num import close, vclose

LEVEL = 'model_checking'
BOUNDS = {
    'quick': '2 agents over 6 x 6 positions x 3 motions x 3 sets of walls x 2 '
             'agent types, 2 steps of 3 directions x 2 draws; 3 agents; every '
             'subset and order of the nodes; 4 bounds of the time step; time '
             'and iterations over 60 steps; 2 simulations in turns',
    'thorough': '10 positions, 3 steps of 3 directions x 3 draws'}
ASSUMPTIONS = ['cell_lists, shapely and truncnorm are stand-ins',
               'states in which rounding decides between two contacts are '
               'not continued']
CASE_TIMEOUT = 800
PI = math.pi


def setup():
    global np, A, L, sim, geo, stats
    import numpy as np
    import scipy.stats as stats
    import shapely.geometry as geo
    from crowddynamics.simulation import agents as A
    from crowddynamics.simulation import logic as L
    from mc import sim
    c13.setup()


POS = [(0., 0.), (.45, .1), (1.5, -.5), (3.3, .2), (-.3, -.35), (-3.4, -.4),
       (7.1, 7.3), (.1, 3.45), (-.2, .5), (2., 2.)]
WALLS = [None, [((-5., .3), (5., .3))],
         [((3.4, -5.), (3.4, 5.)), ((-.5, .6), (.5, .2)), ((1.6, -.4),
                                                           (9., -.4))]]
DIRS = [(1., 0.), (-.6, .8), (0., 0.)]
DRAWS = [(0., 0.), (.125, .5), (.71, 1.)]
NODES = ['Fluctuation', 'Adjusting', 'Agents', 'Obstacles']
BOUND = [(.01, .01), (.001, .1), (0., .02), (.05, .05)]
TYPES = ['circular', 'three_circle']


def cases(tier):
    t = tier == 'thorough'
    out = []
    for typ in TYPES:
        for w in range(len(WALLS)):
            for a in range(10 if t else 6):
                out.append({'kind': 'scene', 'type': typ, 'w': w, 'a': a,
                            'p': 10 if t else 6, 'n': 3 if t else 2,
                            'd': 3 if t else 2})
            out.append({'kind': 'three', 'type': typ, 'w': w})
            out.append({'kind': 'inactive', 'type': typ, 'w': w})
        out += [{'kind': 'nodes', 'type': typ, 'k': k} for k in range(5)]
        out += [{'kind': 'bounds', 'type': typ, 'b': b} for b in range(4)]
        out.append({'kind': 'long', 'type': typ})
        out.append({'kind': 'turns', 'type': typ})
        out += [{'kind': 'far', 'type': typ, 'd': d}
                for d in (2.9, 3.05, 3.3, 3.45)]
    return out


class Random:
    """The same draw for everything that is drawn within a step."""

    def __enter__(self):
        self.u = self.f = 0.
        self.cm = rand.owned()
        d = self.cm.__enter__()
        d.u = lambda: self.u
        stats.truncnorm.source = lambda a, b, n: [a + self.f * (b - a)] * n
        return self

    def __exit__(self, *a):
        stats.truncnorm.source = None
        return self.cm.__exit__(*a)


EXTRA = [(.5, 1.2, .1, 4.0, .2, 12., .2, .1), (.25, 1.5, .02, 3.0, .4, 6., 0., .4),
         (1., .8, 0., 5.0, .25, 9., -.5, .05)]


def scene(typ, pos, vel, walls, nodes=None, bound=BOUND[0], spin=0.,
          shape='example'):
    a, _ = c13.build(typ, pos, vel)
    a['active'] = True
    for k in range(len(pos)):
        tau, v0, std, inertia, tr, om0, om, st = EXTRA[k % 3]
        a['tau_adj'][k], a['target_velocity'][k] = tau, v0
        a['std_rand_force'][k] = std
        if typ != 'circular':
            a['inertia_rot'][k], a['tau_rot'][k] = inertia, tr
            a['target_angular_velocity'][k] = om0
            a['angular_velocity'][k] = om + spin
            a['std_rand_torque'][k] = st
    obstacles = None
    if walls:
        obstacles = geo.LineString(walls[0]) if len(walls) == 1 else \
            geo.MultiLineString(walls)
    s = sim.simulation(a, domain=geo.Polygon([(-20, -20), (20, -20), (20, 20),
                                              (-20, 20)]), obstacles=obstacles)
    nodes = NODES if nodes is None else nodes
    inner = []
    for n in nodes:
        if n == 'Fluctuation':
            inner.append(L.Fluctuation(s))
        elif n == 'Adjusting':
            node = L.Adjusting(s)
            if shape == 'example':
                node = node << L.Orientation(s)
            inner.append(node)
        elif n == 'Agents':
            inner.append(L.AgentAgentInteractions(s))
        elif n == 'Obstacles':
            inner.append(L.AgentObstacleInteractions(s))
    integ = L.Integrator(s, dt_min=bound[0], dt_max=bound[1])
    s.logic = L.Reset(s) << (integ << tuple(inner))
    s.walls = walls or []
    s.nodes = nodes
    s.turns = shape == 'example'
    s.bound = bound
    return s


def body(a, k, typ):
    """Agent of the array as plain numbers."""
    x = [float(c) for c in a['position'][k]]
    b = {'x': x, 'v': [float(c) for c in a['velocity'][k]],
         'm': float(a['mass'][k]), 'k': float(a['k_soc'][k]),
         't0': float(a['tau_0'][k]),
         'c': tuple(float(a[n][k]) for n in ('mu', 'kappa', 'damping'))}
    if typ == 'circular':
        b['xs'], b['rs'] = [x], [float(a['radius'][k])]
    else:
        from checks import c14
        dims = [float(a[n][k]) for n in ('r_t', 'r_s', 'r_ts')]
        b['xs'], b['rs'] = c14.parts(x, float(a['orientation'][k]), dims)
    return b


def wrap(x):
    return math.atan2(math.sin(x), math.cos(x))


def expected(s, typ, u, f):
    """Forces, torques and target orientations of the coming iteration;
    torques are lists of acceptable ones."""
    a = s.agents.array
    n = len(a)
    circular = typ == 'circular'
    bodies = [body(a, k, typ) for k in range(n)]
    force = [[0., 0.] for _ in range(n)]
    torque = [[0.] for _ in range(n)]
    target = [None if circular else float(a['target_orientation'][k])
              for k in range(n)]

    def add(k, fk, tk):
        force[k] = [x + y for x, y in zip(force[k], fk)]
        torque[k] = [x + y for x in torque[k]
                     for y in (tk if isinstance(tk, list) else [tk])]

    for k in range(n):
        m = float(a['mass'][k])
        if 'Fluctuation' in s.nodes:
            r = m * float(a['std_rand_force'][k]) * 3 * f
            tq = 0. if circular else float(a['inertia_rot'][k]) * \
                float(a['std_rand_torque'][k]) * (6 * f - 3)
            add(k, [r * math.cos(2 * PI * u), r * math.sin(2 * PI * u)], tq)
        if 'Adjusting' in s.nodes:
            e = [float(c) for c in a['target_direction'][k]]
            tq = 0.
            if not circular:
                if s.turns:
                    target[k] = math.atan2(e[1], e[0])
                tq = c12.model_torque(
                    float(a['inertia_rot'][k]), float(a['tau_rot'][k]),
                    target[k], float(a['orientation'][k]),
                    float(a['target_angular_velocity'][k]),
                    float(a['angular_velocity'][k]))
            v0 = float(a['target_velocity'][k])
            q = m / float(a['tau_adj'][k])
            add(k, [q * (v0 * e[c] - bodies[k]['v'][c]) for c in (0, 1)], tq)
        if 'Obstacles' in s.nodes:
            add(k, *c13.against_walls(bodies[k], s.walls))
    if 'Agents' in s.nodes:
        for i, j in itertools.combinations(range(n), 2):
            fi, ti, fj, tj = c13.interact(bodies[i], bodies[j], circular)
            add(i, fi, ti)
            add(j, fj, tj)
    return force, torque, target


CHANGED = {'position', 'velocity', 'force', 'force_prev', 'torque',
           'torque_prev', 'orientation', 'angular_velocity', 'position_ls',
           'position_rs', 'target_orientation'}


def iterate(rec, s, typ, rnd, draw, what):
    """One iteration; the state after it is what the state before it says."""
    a = s.agents.array
    rnd.u, rnd.f = draw
    try:
        force, torque, target = expected(s, typ, *draw)
    except c13.Unclear:
        return False
    before = a.copy()
    data = dict(s.data)
    v = max([math.hypot(*x) for x in before['velocity'].tolist()], default=0.)
    lo, hi = s.bound
    v0 = max(before['target_velocity'].tolist(), default=0.)
    dt = hi if v == 0 else min(max(1.1 * v0 * hi / v, lo), hi)
    s.update()
    rec.step()
    d = dict(when=what, draw=draw, walls=s.walls, nodes=s.nodes,
             positions=before['position'].tolist(),
             velocities=before['velocity'].tolist())
    ok = rec.check(s.agents.array is a, 'array', 'the agents were exchanged',
                   **d)
    ok &= rec.check(close(s.data['dt'], dt, 1e-9, 1e-12), 'dt', 'time step',
                    got=s.data['dt'], want=dt, **d)
    ok &= rec.check(close(s.data['time_tot'], data['time_tot'] + dt, 1e-9,
                          1e-9), 'time', 'time of the simulation',
                    got=s.data['time_tot'], want=data['time_tot'] + dt, **d)
    ok &= rec.check(s.data['iterations'] == data['iterations'] + 1 and
                    set(s.data) == set(data), 'iterations', 'data', **d)
    for k in range(len(a)):
        m = float(before['mass'][k])
        b = c11.Body(before['position'][k], before['velocity'][k], m)
        b.fp = [float(c) for c in before['force_prev'][k]]
        b.verlet(force[k], dt)
        scale = 1e-7 * (1 + max(map(abs, force[k])) / m)
        ok &= rec.check(vclose(a['force_prev'][k], force[k], 1e-7, 1e-6),
                        'force', 'total force on agent %d' % k,
                        got=a['force_prev'][k].tolist(), want=force[k], **d)
        ok &= rec.check(vclose(a['position'][k], b.x, 1e-9, scale) and
                        vclose(a['velocity'][k], b.v, 1e-9, scale), 'moved',
                        'position or velocity of agent %d' % k,
                        got=a['position'][k].tolist() +
                        a['velocity'][k].tolist(), want=b.x + b.v, **d)
        ok &= rec.check(not a['force'][k].any(), 'reset', 'force is not '
                        'reset', got=a['force'][k].tolist(), **d)
        if typ == 'circular':
            continue
        got = float(a['torque_prev'][k])
        near = [t for t in torque[k] if close(got, t, 1e-7, 1e-6)]
        ok &= rec.check(bool(near), 'torque', 'total torque on agent %d' % k,
                        got=got, want=torque[k], **d)
        if not near:
            continue
        r = c11.Body([before['orientation'][k]],
                     [before['angular_velocity'][k]],
                     float(before['inertia_rot'][k]))
        r.fp = [float(before['torque_prev'][k])]
        r.verlet([got], dt)
        phi = float(a['orientation'][k])
        ok &= rec.check(abs(wrap(phi - r.x[0])) < 1e-7 and close(
            a['angular_velocity'][k], r.v[0], 1e-8, 1e-8), 'turned',
            'orientation of agent %d' % k, got=phi, want=wrap(r.x[0]), **d)
        ok &= rec.check(a['torque'][k] == 0, 'reset', 'torque is not reset',
                        **d)
        ok &= rec.check(abs(wrap(float(a['target_orientation'][k]) -
                                 target[k])) < 1e-12, 'target',
                        'target orientation of agent %d' % k, **d)
        x, y = a['position'][k].tolist()
        ts = float(a['r_ts'][k])
        side = [math.sin(phi) * ts, -math.cos(phi) * ts]
        for name, sg in (('position_ls', -1), ('position_rs', 1)):
            ok &= rec.check(vclose(a[name][k], [x + sg * side[0],
                                                y + sg * side[1]]),
                            'shoulders', '%s of agent %d' % (name, k),
                            got=a[name][k].tolist(), **d)
    for name in a.dtype.names:
        if name not in CHANGED or (name == 'target_orientation' and
                                   not s.turns):
            ok &= rec.check(a[name].tobytes() == before[name].tobytes(),
                            'else', '%s was changed' % name, **d)
    return ok


def explore(rec, s, typ, rnd, n, draws, tag):
    """All histories of directions and draws; the state is put back."""
    letters = list(itertools.product(range(len(DIRS)), range(draws)))
    a = s.agents.array

    def down(depth, path):
        if depth == 0:
            rec.trace()
            return
        keep, data = a.copy(), dict(s.data)
        for e, q in letters:
            for k in range(len(a)):
                a['target_direction'][k] = DIRS[(e + k) % len(DIRS)]
            rec.state((tag, path, e, q))
            if iterate(rec, s, typ, rnd, DRAWS[q], 'history %r' % (
                    path + ((e, q),),)):
                down(depth - 1, path + ((e, q),))
            a[:] = keep
            s.data.update(data)

    down(n, ())


def run_case(case, rec):
    with Random() as rnd:
        globals()['run_' + case['kind']](case, rec, rnd)


def run_scene(case, rec, rnd):
    typ = case['type']
    for q in POS[:case['p']]:
        p = POS[case['a']]
        if p == q:
            continue
        for m in range(3):
            s = scene(typ, [p, q], c13.MOVE[m][:2], WALLS[case['w']],
                      spin=.3 * m)
            explore(rec, s, typ, rnd, case['n'], case['d'],
                    (typ, case['w'], p, q, m))


def run_three(case, rec, rnd):
    typ = case['type']
    for sel in itertools.permutations(range(5), 3):
        for m in (1, 4):
            s = scene(typ, [POS[k] for k in sel], c13.MOVE[m][:3],
                      WALLS[case['w']])
            explore(rec, s, typ, rnd, 1, 2, (typ, case['w'], sel, m))
    for n in (0, 1):
        s = scene(typ, POS[:n], c13.MOVE[1][:n], WALLS[case['w']],
                  nodes=NODES if n else ['Fluctuation', 'Adjusting',
                                         'Obstacles'])
        if n:
            explore(rec, s, typ, rnd, 3, 2, (typ, case['w'], n))


def run_nodes(case, rec, rnd):
    """Every subset and order of the nodes that add forces."""
    typ = case['type']
    for nodes in itertools.permutations(NODES, case['k']):
        for shape in ('example', 'plain'):
            s = scene(typ, [POS[0], POS[1]], c13.MOVE[2][:2], WALLS[2],
                      nodes=list(nodes), shape=shape)
            explore(rec, s, typ, rnd, 2 if case['k'] < 4 else 1, 2,
                    (typ, nodes, shape))


def run_inactive(case, rec, rnd):
    """What an iteration does to agents is the same when some of them have
    left the domain."""
    typ = case['type']
    for sel in itertools.permutations(range(5), 3):
        for bits in itertools.product((False, True), repeat=3):
            for m in (1, 4):
                s = scene(typ, [POS[k] for k in sel], c13.MOVE[m][:3],
                          WALLS[case['w']])
                s.agents.array['active'] = bits
                explore(rec, s, typ, rnd, 1, 2,
                        (typ, case['w'], sel, m, bits))
    for bits in itertools.product((False, True), repeat=2):
        s = scene(typ, POS[1:3], c13.MOVE[2][:2], WALLS[case['w']])
        s.agents.array['active'] = bits
        explore(rec, s, typ, rnd, 2, 2, (typ, case['w'], bits))


def run_far(case, rec, rnd):
    """Pairs which only just see each other, wherever the borders of the
    cells are."""
    typ = case['type']
    for d in (case['d'],):
        for k in range(72 if d == 3.45 else 24):
            x = -3.6 + (.1 if d == 3.45 else .3) * k + .01
            for p, q in (((x, .1), (x + d, .2)), ((.1, x), (.15, x + d)),
                         ((x, x), (x - d * .7, x + d * .7))):
                for m in (1, 2):
                    s = scene(typ, [p, q], c13.MOVE[m][:2], None)
                    explore(rec, s, typ, rnd, 1, 1, (typ, d, p, q, m))
                s = scene(typ, [p, (p[0] + .1, p[1] - 9), q],
                          c13.MOVE[1][:3], None)
                explore(rec, s, typ, rnd, 1, 1, (typ, d, p, q, 3))


def run_bounds(case, rec, rnd):
    typ = case['type']
    for m in range(6):
        for p in POS[1:4]:
            s = scene(typ, [POS[0], p], c13.MOVE[m][:2], WALLS[2],
                      bound=BOUND[case['b']])
            explore(rec, s, typ, rnd, 2, 2, (typ, case['b'], m, p))


def run_long(case, rec, rnd):
    typ = case['type']
    for m in range(6):
        for b in BOUND[:2]:
            s = scene(typ, [POS[0], POS[2], POS[7]], c13.MOVE[m][:3],
                      WALLS[1], bound=b)
            for n in range(60):
                a = s.agents.array
                for k in range(3):
                    a['target_direction'][k] = DIRS[(n // 9 + k) % 2]
                rec.state((typ, m, b, n))
                if not iterate(rec, s, typ, rnd, DRAWS[n % 3],
                               'step %d' % n):
                    s.agents.array['velocity'] += 1e-3
            rec.trace()


def run_turns(case, rec, rnd):
    """Two simulations in every order of iterations."""
    typ = case['type']
    for order in sorted(set(itertools.permutations([0] * 3 + [1] * 3))):
        both = [scene(typ, [POS[0], POS[1]], c13.MOVE[1][:2], WALLS[1]),
                scene(typ, [POS[2], POS[0]], c13.MOVE[3][:2], WALLS[2])]
        for n, k in enumerate(order):
            a = both[k].agents.array
            a['target_direction'] = DIRS[n % 3]
            other = both[1 - k].agents.array.tobytes(), dict(both[1 - k].data)
            rec.state((typ, order, n))
            iterate(rec, both[k], typ, rnd, DRAWS[n % 2], 'turn %d' % n)
            rec.check((both[1 - k].agents.array.tobytes(),
                       dict(both[1 - k].data)) == other, 'shared',
                      'an iteration changed another simulation')
        rec.trace()
