"""C37: logic nodes act on the simulation as it is, not as it was.

Explored: every history, up to a depth, of updates of one node (every kind of
node) between which the agents (moved in place, added, removed, replaced), the
geometry (changed in the same field or another field) and the settings of the
node change; and every order of updates of two simulations.  Oracle: a fresh
node of a fresh simulation which has never seen anything else.  (That what a
fresh node does is right is for C11-C20, C27 and C35.)"""
import itertools

from mc import rand

LEVEL = 'model_checking'
BOUNDS = {
    'quick': '11 kinds of nodes x all histories of 3 updates over 5 sets of '
             'agents x 4 geometries (2 for the maps) x settings, 2 agent '
             'types, objects kept or replaced; agents changing their type; '
             'all orders of 2 x 3 updates of 2 simulations; two nodes of one '
             'simulation',
    'thorough': 'histories of 4 updates'}
ASSUMPTIONS = ['cell_lists, shapely, scikit-fmm, scikit-image and truncnorm '
               'are stand-ins; the draws of an update are fixed',
               'the domain and targets counted by InsideDomain and '
               'TargetReached stay those the node was made for']
CASE_TIMEOUT = 800


def setup():
    global np, A, L, sim, geo, stats, Field
    import numpy as np
    import scipy.stats as stats
    import shapely.geometry as geo
    from crowddynamics.simulation import agents as A
    from crowddynamics.simulation import logic as L
    from crowddynamics.simulation.field import Field
    from mc import sim


# x, y, vx, vy, ex, ey, phi, omega, target, follower, leader, index, familiar
SETS = [
    [(1., 1., .5, .25, 1., 0., 0., .5, 0, 0, 1, -1, 1),
     (2., 1.2, .4, .1, 0., 1., 1., -1., -1, 1, 0, -1, 0),
     (1.5, 2.5, 1., -.5, .6, .8, -2., 0., 1, 1, 0, -1, 0)],
    [(5., 3., -1., .1, 1., 0., 3., 2., 1, 0, 1, -1, 0),
     (5.4, 3.1, -.5, 0., 0., -1., .5, .1, -1, 1, 0, -1, 1)],
    [(2., 2., 0., 1., 0., 1., .1, 0., 0, 1, 0, 1, 1),
     (2.3, 3.2, .1, 1.5, -1., 0., 2., 1., 1, 0, 1, -1, 0),
     (1.8, 2.2, 0., 0., 0., 1., -1., .2, -1, 1, 0, 3, 0),
     (5.1, 1., -.3, .3, -.6, .8, 1.5, -.7, 0, 0, 1, -1, 1)],
    [(.7, 3.3, .2, -.1, 1., 0., .3, .3, -1, 1, 0, -1, 0)],
    [(1., 1., .5, .25, 1., 0., 0., .5, 1, 0, 1, -1, 1),
     (3., 1.5, -.5, 1., 0., 1., 1.2, -1., -1, 1, 0, 2, 1),
     (3.1, 2.0, -.5, 2., .6, -.8, -2., 1., 0, 0, 1, -1, 0)]]
GEO = [
    (((0., 0.), (6., 0.), (6., 4.), (0., 4.)), (),
     (((6., 1.), (6., 2.)), ((0., 2.), (0., 3.)))),
    (((0., 0.), (6., 0.), (6., 4.), (0., 4.)), (((3., 0.), (3., 2.6)),),
     (((6., 1.), (6., 2.)), ((0., 2.), (0., 3.)))),
    (((0., 0.), (6., 0.), (6., 4.), (0., 4.)),
     (((1.2, 2.), (2.6, 2.)), ((4., 4.), (4., 1.2))),
     (((1., 0.), (2., 0.)), ((5., 4.), (6., 4.)))),
    (((-1., -1.), (8., -1.), (8., 5.), (-1., 5.)), (((2.2, -1.), (2.2, 1.4)),),
     (((8., 1.), (8., 2.)), ((3., 5.), (4., 5.)), ((-1., 0.), (-1., 1.))))]
PARS = {
    'Reset': [{}], 'Fluctuation': [{}], 'Adjusting': [{}], 'Orientation': [{}],
    'Integrator': [{'dt_min': .01, 'dt_max': .02},
                   {'dt_min': .001, 'dt_max': .1}],
    'AgentAgentInteractions': [{'cell_size': 3.6}, {'cell_size': 5.}],
    'AgentObstacleInteractions': [{}],
    'Navigation': [{'step': .5, 'radius': 1., 'strength': .3},
                   {'step': .5, 'radius': .5, 'strength': .8}],
    'LeaderFollower': [{'sight': 20.}, {'sight': 1.6}],
    'LeaderFollowerWithHerding': [
        {'sight_follower': 10., 'size_nearest_other': 5},
        {'sight_follower': 2., 'size_nearest_other': 1}],
    'ExitDetection': [{'detection_range': 20.}, {'detection_range': 2.5}]}
NODES = sorted(PARS)
SIZES = [('update', None), ('max_agent_radius', .3), ('max_agent_radius', .6),
         ('max_agent_radius', 1.1), ('sight_soc', 3.), ('sight_soc', 4.),
         ('cell_size', 3.6), ('cell_size', 4.2), ('cell_size', 6.)]
TYPES = ['circular', 'three_circle']
GEOMETRIC = {'AgentObstacleInteractions', 'Navigation', 'LeaderFollower',
             'LeaderFollowerWithHerding', 'ExitDetection'}


def cases(tier):
    n = 4 if tier == 'thorough' else 3
    out = []
    for node in NODES:
        for typ in TYPES:
            for keep in (0, 1):
                for first in letters(node):
                    out.append({'kind': 'hist', 'node': node, 'type': typ,
                                'keep': keep, 'first': first,
                                'n': n - (node == 'Navigation')})
            out.append({'kind': 'turns', 'node': node, 'type': typ})
        out += [{'kind': 'types', 'node': node, 'first': k} for k in range(6)]
        out.append({'kind': 'both', 'node': node})
    out += [{'kind': 'counts', 'type': t, 'n': n} for t in TYPES]
    out += [{'kind': 'sizes', 'type': t, 'first': f, 'n': n}
            for t in TYPES for f in range(len(SIZES))]
    return out


def letters(node):
    """Agents, geometry and settings; each set of agents with some of the
    geometries, all of them in the histories."""
    g = len(GEO) if node in GEOMETRIC else 1
    if node == 'Navigation':
        return [(0, 1, 0), (1, 2, 0), (2, 1, 1), (3, 3, 0), (4, 0, 1),
                (2, 3, 1)]
    if g == 1:
        return [(a, 0, p) for a in range(len(SETS))
                for p in range(len(PARS[node]))]
    return [(a, (a + k) % g, (a + k // 2) % len(PARS[node]))
            for a in range(len(SETS)) for k in range(1 + (a < 3))]


def agents(typ, k):
    dtype = A.AgentModelToType[typ]
    rows = SETS[k]
    a = np.zeros(len(rows), dtype=dtype)
    for n, (x, y, vx, vy, ex, ey, phi, om, target, fo, le, ix, fam) in \
            enumerate(rows):
        a['active'][n] = True
        a['position'][n], a['velocity'][n] = (x, y), (vx, vy)
        a['target_direction'][n] = ex, ey
        a['target'][n], a['is_follower'][n], a['is_leader'][n] = target, fo, le
        a['index_leader'][n] = ix if ix < len(rows) else -1
        a['familiar_exit'][n] = fam
        a['mass'][n], a['radius'][n] = 60. + 5 * n, .25 + .01 * n
        a['tau_adj'][n], a['target_velocity'][n] = .5, 1.2 + .1 * n
        a['k_soc'][n], a['tau_0'][n] = 1.5, 3.
        a['mu'][n], a['kappa'][n], a['damping'][n] = 1.2e5, 4e4, 500.
        a['std_rand_force'][n] = .1
        a['force'][n], a['force_prev'][n] = (30. + n, -7. * k), (n, 2. + k)
        if typ == 'three_circle':
            a['r_t'][n], a['r_s'][n], a['r_ts'][n] = .16, .1, .15
            a['orientation'][n], a['angular_velocity'][n] = phi, om
            a['inertia_rot'][n], a['tau_rot'][n] = 4., .2
            a['target_orientation'][n] = .5 - phi
            a['target_angular_velocity'][n] = 12.
            a['std_rand_torque'][n] = .1
            a['torque'][n], a['torque_prev'][n] = 3. + k, n - 1.
    if typ == 'three_circle':
        A.shoulders(a)
    return a


def geometry(k):
    dom, walls, targets = GEO[k]
    return {'domain': geo.Polygon(dom),
            'obstacles': geo.MultiLineString(walls) if walls else None,
            'targets': [geo.LineString(t) for t in targets]}


class Fixed:
    """The same draws in every update."""

    def __enter__(self):
        self.cm = rand.owned()
        self.d = self.cm.__enter__()
        stats.truncnorm.source = lambda a, b, n: [
            a + (b - a) * (.2 + .15 * k) for k in range(n)]
        return self

    def __exit__(self, *a):
        stats.truncnorm.source = None
        return self.cm.__exit__(*a)

    def again(self):
        self.d.set((), lambda k: (.13 + .29 * k) % 1)


def make(node, typ, letter):
    a, g, p = letter
    s = sim.simulation(agents(typ, a), **geometry(g))
    return s, getattr(L, node)(s, **PARS[node][p])


def change(s, node, obj, typ, letter, keep):
    """The world of the letter, in the same objects or in new ones."""
    a, g, p = letter
    new, field = agents(typ, a), geometry(g)
    if keep:
        if len(new) == len(s.agents.array) and \
                new.dtype == s.agents.array.dtype:
            s.agents.array[:] = new
        else:
            s.agents.array = new
        for name in ('domain', 'obstacles', 'targets'):
            if name == 'obstacles' and field[name] is None:
                if s.field.obstacles is not None:
                    # a field takes no None: another field without
                    s.field = Field(domain=field['domain'],
                                    targets=field['targets'])
                continue
            setattr(s.field, name, field[name])
    else:
        s.agents = sim.simulation(new).agents
        s.field = Field(**{k: v for k, v in field.items() if v is not None})
    for name, value in PARS[node][p].items():
        setattr(obj, name, value)


def act(s, obj, rnd):
    rnd.again()
    s.data['dt'], s.data['time_tot'], s.data['iterations'] = 0., 2., 5
    try:
        obj.update()
    except Exception as e:
        return (type(e).__name__, None, None)
    return (None, s.agents.array, dict(s.data))


class Fresh:
    def __init__(self, rnd):
        self.rnd = rnd
        self.known = {}

    def __call__(self, node, typ, letter):
        key = (node, typ, tuple(letter))
        if key not in self.known:
            s, obj = make(node, typ, letter)
            e, a, d = act(s, obj, self.rnd)
            self.known[key] = (e, None if a is None else a.copy(), d)
        return self.known[key]


def same(rec, got, want, key, what, **detail):
    rec.step()
    if got[0] != want[0]:
        rec.fail(key, what, got=got[0], want=want[0], **detail)
        return False
    if want[0] is not None:
        return True
    bad = []
    if len(got[1]) != len(want[1]) or got[1].dtype != want[1].dtype:
        bad.append('agents')
    else:
        for name in want[1].dtype.names:
            x, y = got[1][name], want[1][name]
            if x.dtype.kind == 'f':
                ok = np.allclose(x, y, rtol=1e-9, atol=1e-9, equal_nan=True)
            else:
                ok = np.array_equal(x, y)
            if not ok:
                bad.append((name, x.tolist(), y.tolist()))
    for k in set(got[2]) | set(want[2]):
        if got[2].get(k) != want[2].get(k):
            bad.append((k, got[2].get(k), want[2].get(k)))
    return rec.check(not bad, key, what, wrong=bad[:3], **detail)


def run_case(case, rec):
    with Fixed() as rnd:
        globals()['run_' + case['kind']](case, rec, rnd, Fresh(rnd))


def run_hist(case, rec, rnd, fresh):
    node, typ = case['node'], case['type']
    abc = letters(node)
    for rest in itertools.product(abc, repeat=case['n'] - 1):
        hist = [tuple(case['first'])] + list(rest)
        s, obj = make(node, typ, hist[0])
        for n, letter in enumerate(hist):
            if n:
                change(s, node, obj, typ, letter, case['keep'])
            rec.state((node, typ, case['keep'], tuple(hist[:n + 1])))
            if not same(rec, act(s, obj, rnd), fresh(node, typ, letter),
                        node, '%s acts on something else than the present '
                        'simulation' % node, history=hist[:n + 1], type=typ,
                        keep=case['keep']):
                break
        rec.trace()


def run_types(case, rec, rnd, fresh):
    """Agents of the other type, and back."""
    node = case['node']
    abc = letters(node)[:3]
    worlds_of = list(itertools.product(TYPES, abc))
    for rest in itertools.product(worlds_of, repeat=2):
        worlds = (worlds_of[case['first']],) + rest
        s, obj = make(node, *worlds[0])
        for n, (typ, letter) in enumerate(worlds):
            if n:
                change(s, node, obj, typ, letter, 0)
            rec.state((node, worlds[:n + 1]))
            if not same(rec, act(s, obj, rnd), fresh(node, typ, letter),
                        node + '-types', '%s acts on something else than the '
                        'present agents' % node, history=worlds[:n + 1]):
                break
        rec.trace()


def run_turns(case, rec, rnd, fresh):
    """Two simulations of the same kind of node in any order."""
    node, typ = case['node'], case['type']
    abc = letters(node)
    for order in sorted(set(itertools.permutations([0] * 3 + [1] * 3))):
        for shift in (1, 2):
            both = [make(node, typ, abc[0]), make(node, typ, abc[shift])]
            count = [0, 0]
            for n, k in enumerate(order):
                letter = abc[(shift * k + count[k]) % len(abc)]
                s, obj = both[k]
                if count[k]:
                    change(s, node, obj, typ, letter, (n + k) % 2)
                count[k] += 1
                other = both[1 - k][0]
                before = other.agents.array.tobytes(), dict(other.data)
                rec.state((node, typ, order, shift, n))
                same(rec, act(s, obj, rnd), fresh(node, typ, letter),
                     node + '-turns', '%s acts on another simulation' % node,
                     order=order[:n + 1], type=typ)
                rec.check(before == (other.agents.array.tobytes(),
                                     dict(other.data)), node + '-other',
                          '%s changed another simulation' % node, order=order)
            rec.trace()


def run_both(case, rec, rnd, fresh):
    """Two nodes of one kind, with settings of their own, in one simulation."""
    node = case['node']
    for typ in TYPES:
        for letter in letters(node):
            for ps in itertools.product(range(len(PARS[node])), repeat=2):
                s, one = make(node, typ, letter[:2] + (ps[0],))
                two = getattr(L, node)(s, **PARS[node][ps[1]])
                for order in itertools.product((0, 1), repeat=3):
                    for k in order:
                        s.agents.array[:] = agents(typ, letter[0])
                        rec.state((node, typ, letter, ps, order))
                        same(rec, act(s, (one, two)[k], rnd),
                             fresh(node, typ, letter[:2] + (ps[k],)),
                             node + '-settings', 'settings of another %s' %
                             node, letter=letter, settings=ps, order=order)
                    rec.trace()


def run_counts(case, rec, rnd, fresh):
    """Counters count the agents where they are, wherever these are kept."""
    typ = case['type']
    for name in ('InsideDomain', 'TargetReached'):
        poly = [geo.Polygon([(0, 0), (2.2, 0), (2.2, 4), (0, 4)]),
                geo.Polygon([(4, 0), (6, 0), (6, 4), (4, 4)])]
        abc = [0, 2, 4, 1]
        for hist in itertools.product(abc, repeat=case['n']):
            sizes = [len(SETS[k]) for k in hist]
            if name == 'TargetReached' and sorted(sizes) != sizes:
                continue    # agents may be added
            s = sim.simulation(agents(typ, hist[0]), domain=poly[0],
                               targets=poly[::-1])
            node = getattr(L, name)(s)
            been = [set(), set()]
            for n, k in enumerate(hist):
                if n:
                    new = agents(typ, k)
                    if n % 2 and len(new) == len(s.agents.array):
                        s.agents.array[:] = new
                    else:
                        s.agents.array = new
                node.update()
                rec.step()
                rec.state((name, typ, hist[:n + 1]))
                xs = [r[0] for r in SETS[k]]
                if name == 'InsideDomain':
                    inside = [x < 2.2 for x in xs]
                    rec.check(s.agents.array['active'].tolist() == inside and
                              s.data['inactive'] == len(xs) - sum(inside),
                              name, 'agents inside of the domain',
                              history=hist[:n + 1])
                else:
                    for q, (lo, hi) in enumerate(((4, 6), (0, 2.2))):
                        been[q] |= {i for i, x in enumerate(xs)
                                    if lo < x < hi}
                        rec.check(s.data['target_%d' % q] == len(been[q]),
                                  name, 'agents that reached a target',
                                  history=hist[:n + 1])
            rec.trace()


def run_sizes(case, rec, rnd, fresh):
    """Interactions of agents as large as the settings say, whenever these are
    changed: all agents in sight of one another act."""
    typ = case['type']

    def pair(radius, x, d):
        a = agents(typ, 0)[:2]
        a['position'] = [(x, .5), (x + d, .4)]
        a['velocity'] = [(1.5, 0.), (-1.5, 0.)]
        a['radius'], a['tau_0'] = radius, 30.
        if typ == 'three_circle':
            a['r_t'], a['r_s'], a['r_ts'] = .6 * radius, .4 * radius, \
                .6 * radius
            a['orientation'] = [.3, 2.]
            A.shoulders(a)
        return a

    worlds = []
    for radius in (.3, .6, 1.1):
        # a third agent at the origin keeps the cells where they are
        for x, d in itertools.product((.5, 2., 3.4), (.5, .9, .99)):
            a = np.concatenate([pair(radius, x, 2 * radius + 3 * d),
                                pair(radius, -40., 20.)[:1]])
            s = sim.simulation(a.copy(), **geometry(0))
            L.agent_agent_block_list(s.agents.array, 50.)
            worlds.append((radius, a, s.agents.array['force'].copy()))
    for rest in itertools.product(SIZES, repeat=case['n'] - 1):
        hist = (SIZES[case['first']],) + rest
        s = sim.simulation(worlds[0][1].copy(), **geometry(0))
        obj = L.AgentAgentInteractions(s)
        m = {'max_agent_radius': .3, 'sight_soc': 3.}
        for name, v in hist:
            if name == 'update':
                obj.update()
            else:
                setattr(obj, name, v)
                m[name] = v
        rec.state((typ, hist))
        rec.trace()
        for radius, a, want in worlds:
            if radius > m['max_agent_radius']:
                continue
            s.agents.array = a.copy()
            obj.update()
            rec.step()
            if not rec.check(np.allclose(s.agents.array['force'], want,
                                         rtol=1e-9, atol=1e-9),
                             'sizes', 'agents in sight do not act on each '
                             'other', history=hist, radius=radius,
                             position=a['position'].tolist(),
                             got=s.agents.array['force'].tolist(),
                             want=want.tolist()):
                break
