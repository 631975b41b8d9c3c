"""C27: counters of agents inside the domain and of targets reached.

Explored: every history of positions up to a depth for up to 3 agents over
domains and targets, on the real nodes (alone and in a tree with a simulation
that updates).  Oracle: even-odd rule with exact arithmetic, and a set of
agents that have been inside."""
import itertools
from fractions import Fraction as F

LEVEL = 'model_checking'
BOUNDS = {
    'quick': '6 domains (2 with holes) x all histories of 2 steps of 2 agents over 6 places; '
             '6 target sets x all histories of 3 steps of 2 agents over 5 '
             'places; both agent types; one step of 3 agents over 9 places; '
             'agents added between the steps (4 patterns of sizes); 7 to 60 agents x 23 targets x 6 steps',
    'thorough': 'domains: histories of 3 steps; targets: over 8 places'}
ASSUMPTIONS = ['no agent stands exactly on an edge',
               'matplotlib.path is a stand-in']
CASE_TIMEOUT = 800


def setup():
    global np, A, L, sim, geo
    import numpy as np
    import shapely.geometry as geo
    from crowddynamics.simulation import agents as A
    from crowddynamics.simulation import logic as L
    from mc import sim


def box(x0, y0, x1, y1):
    return [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]


DOMAINS = {'square': box(0, 0, 4, 4), 'shift': box(-3, -2, 1, .5),
           'ell': [(0, 0), (4, 0), (4, 1), (1, 1), (1, 4), (0, 4)],
           'diamond': [(2, 0), (4, 2), (2, 4), (0, 2)],
           # a polygon with holes is (border, holes)
           'hole': (box(0, 0, 4, 4), [box(2, 1.5, 2.5, 2.5)]),
           'holes': (box(-1, -1, 4.5, 4.5), [
               box(.25, .25, .75, .75), [(3, 3), (4, 3), (3.75, 4)]])}
PLACES = [(.5, .5), (3.5, .5), (3.5, 3.5), (-.25, .25), (2.125, 1.9375),
          (5.0, 5.0), (.4375, 3.75), (2.0, -1.0), (1.25, .875)]
TARGETS = {
    'one': [('P', box(3, 0, 4, 1))],
    'two': [('P', box(3, 0, 4, 1)), ('P', box(0, 0, 1, 4))],
    'mixed': [('L', [(0, 0), (0, 4)]), ('P', box(3, 3, 4, 4)),
              ('L', [(4, 0), (4, 1)]), ('P', box(1.9, 0, 4.1, 4))],
    'many': [('P', box(.75 * (k % 5), .75 * (k // 5), .75 * (k % 5) + 1.5,
                       .75 * (k // 5) + 1.125)) if k % 4 else
             ('L', [(k, 0), (k, 1)]) for k in range(23)],
    'overlap': [('P', box(0, 0, 4, 4)), ('P', box(3, 0, 6, 6)),
                ('P', [(2, 1.5), (2.5, 2), (2, 2.5)])],
    'holes': [('P', (box(0, 0, 4, 4), [box(2, 1, 3, 3)])),
              ('L', [(0, 0), (0, 4)]),
              ('P', (box(-1, -2, 4, 4), [box(0, 0, 1, 1), box(3, 0, 4, .75)])),
              ('P', box(2, 1, 3, 3))],
}


def shape(poly):
    return geo.Polygon(*poly) if isinstance(poly, tuple) else geo.Polygon(poly)


def inside(poly, p):
    if isinstance(poly, tuple):
        return inside(poly[0], p) and not any(inside(h, p) for h in poly[1])
    x, y = F(p[0]), F(p[1])
    odd = False
    for (a, b), (c, d) in zip(poly, poly[1:] + poly[:1]):
        a, b, c, d = F(a), F(b), F(c), F(d)
        if (b > y) != (d > y) and x < a + (y - b) * (c - a) / (d - b):
            odd = not odd
    return odd


def cases(tier):
    t = tier == 'thorough'
    places = 8 if t else 5
    out = []
    for d in sorted(DOMAINS):
        for k in range(6):
            out.append({'kind': 'domain', 'd': d, 'k': k, 'n': 2,
                        'len': 3 if t else 2, 'places': 6, 'a': 'Circular'})
        out.append({'kind': 'domain', 'd': d, 'k': None, 'n': 3, 'len': 1,
                    'places': 9, 'a': 'ThreeCircle'})
    for d in sorted(TARGETS):
        for k in range(places):
            out.append({'kind': 'target', 'd': d, 'k': k, 'n': 2, 'len': 3,
                        'places': places, 'a': 'ThreeCircle' if k % 2 else
                        'Circular'})
        out.append({'kind': 'target', 'd': d, 'k': None, 'n': 3, 'len': 1,
                    'places': 9, 'a': 'Circular'})
    out.append({'kind': 'both'})
    out += [{'kind': 'grow', 'd': d, 'k': k} for d in ('two', 'overlap', 'holes')
            for k in range(5)]
    out += [{'kind': 'crowd', 'n': n} for n in (7, 20, 60)]
    return out


def array(case):
    cls = getattr(A, case['a'])
    return np.concatenate([np.array(cls(radius=.3)) for _ in range(case['n'])])


def histories(case):
    steps = list(itertools.product(range(case['places']), repeat=case['n']))
    for h in itertools.product(steps, repeat=case['len']):
        if case['k'] is None or h[0][0] == case['k']:
            yield h


def run_case(case, rec):
    globals()['run_' + case['kind']](case, rec)


def run_domain(case, rec):
    poly = DOMAINS[case['d']]
    where = [inside(poly, p) for p in PLACES]
    s = sim.simulation(array(case), domain=shape(poly))
    s.data['other'] = 5
    for h in histories(case):
        s.agents.array['active'] = True
        node = L.InsideDomain(s)
        rec.check(s.data['inactive'] == 0, 'start', 'inactive agents before '
                  'the first step', got=s.data['inactive'])
        for n, step in enumerate(h):
            for k, p in enumerate(step):
                s.agents.array['position'][k] = PLACES[p]
            before = s.agents.array.copy()
            node.update()
            rec.step()
            d = dict(domain=case['d'], history=[[PLACES[p] for p in q]
                                                for q in h[:n + 1]])
            want = [where[p] for p in step]
            rec.check(s.agents.array['active'].tolist() == want, 'active',
                      'agents outside of the domain are not the inactive '
                      'ones', got=s.agents.array['active'].tolist(),
                      want=want, **d)
            rec.check(int(s.data['inactive']) == want.count(False), 'count',
                      'number of inactive agents', got=int(s.data['inactive']),
                      want=want.count(False), **d)
            before['active'] = want
            rec.check(before.tobytes() == s.agents.array.tobytes(), 'else', 'something '
                      'else than the activity changed', **d)
        rec.check(s.data['other'] == 5, 'data', 'other data changed')
        rec.state((case['d'], h[-1]))
        rec.trace()


def run_target(case, rec):
    targets = TARGETS[case['d']]
    shapes = [shape(p) if k == 'P' else geo.LineString(p)
              for k, p in targets]
    polys = [(i, p) for i, (k, p) in enumerate(targets) if k == 'P']
    where = {i: [inside(p, q) for q in PLACES] for i, p in polys}
    s = sim.simulation(array(case), domain=geo.Polygon(box(-9, -9, 9, 9)),
                       targets=shapes)
    for h in histories(case):
        for k in [k for k in s.data if k.startswith('target')]:
            del s.data[k]
        node = L.TargetReached(s)
        reached = {i: set() for i in where}
        names = sorted('target_%d' % i for i in where)
        got = sorted(k for k in s.data if k.startswith('target'))
        rec.check(got == names, 'names', 'counters of the targets', got=got,
                  want=names)
        for n, step in enumerate([None] + list(h)):
            if step is not None:
                for k, p in enumerate(step):
                    s.agents.array['position'][k] = PLACES[p]
                before = s.agents.array.copy()
                node.update()
                rec.step()
                for i in where:
                    reached[i] |= {k for k, p in enumerate(step)
                                   if where[i][p]}
                before['target_reached'] = s.agents.array['target_reached']
                rec.check(before.tobytes() == s.agents.array.tobytes(), 'else',
                          'the agents changed')
            for i in where:
                v = s.data.get('target_%d' % i)
                rec.check(v is not None and int(v) == len(reached[i]), 'count',
                          'agents that have reached the target', target=i,
                          got=v, want=len(reached[i]), targets=targets,
                          history=[[PLACES[p] for p in q] for q in h[:n]])
        rec.state((case['d'], tuple(sorted((i, tuple(sorted(v)))
                                           for i, v in reached.items()))))
        rec.trace()


def run_crowd(case, rec):
    """Many agents."""
    n = case['n']
    poly = DOMAINS['ell']
    targets = TARGETS['many']
    s = sim.simulation(array({'a': 'Circular', 'n': n}),
                       domain=shape(poly), targets=[
                           shape(p) if k == 'P' else geo.LineString(p)
                           for k, p in targets])
    s.logic = L.InsideDomain(s) << L.TargetReached(s)
    reached = {i: set() for i, (k, _) in enumerate(targets) if k == 'P'}
    for step in range(6):
        ps = [(.31 * (k * (step + 3) % 17) - .5 + .003 * k,
               .29 * ((k + 5 * step) % 16) - .4 + .002 * k) for k in range(n)]
        s.agents.array['position'] = ps
        s.update()
        rec.step()
        want = [inside(poly, p) for p in ps]
        rec.check(s.agents.array['active'].tolist() == want and
                  int(s.data['inactive']) == want.count(False), 'crowd',
                  'activity in a crowd', n=n, step=step)
        for i in reached:
            reached[i] |= {k for k, p in enumerate(ps)
                           if inside(targets[i][1], p)}
            rec.check(int(s.data['target_%d' % i]) == len(reached[i]),
                      'crowd', 'agents of a crowd that have reached target %d'
                      % i, n=n, step=step, got=int(s.data['target_%d' % i]),
                      want=len(reached[i]))
        rec.state((n, step))
    rec.trace()


def run_grow(case, rec):
    """Agents are added between the steps."""
    targets = TARGETS[case['d']]
    poly = DOMAINS['ell']
    where = {i: [inside(p, q) for q in PLACES]
             for i, (k, p) in enumerate(targets) if k == 'P'}
    within = [inside(poly, q) for q in PLACES]
    base = array({'a': 'Circular', 'n': 3})
    for sizes in ((0, 1, 2), (1, 2), (1, 2, 2), (1, 1, 3)):
        for places in itertools.product(range(5), repeat=sum(sizes) - sizes[0]):
            s = sim.simulation(
                base[:sizes[0]].copy(),
                domain=shape(poly),
                targets=[shape(p) if k == 'P' else geo.LineString(p)
                         for k, p in targets])
            s.agents.array['position'] = PLACES[case['k']]
            s.logic = L.InsideDomain(s) << L.TargetReached(s)
            reached = {i: set() for i in where}
            left = list(places)
            now = [case['k']] * sizes[0]
            for step, n in enumerate(sizes):
                if step:
                    a = s.agents.array
                    s.agents.array = np.concatenate((
                        a, base[:n - len(a)]))
                    now, left = left[:n], left[n:]
                    for k, p in enumerate(now):
                        s.agents.array['position'][k] = PLACES[p]
                s.update()
                rec.step()
                for i in where:
                    reached[i] |= {k for k, p in enumerate(now)
                                   if where[i][p]}
                got = [int(s.data['target_%d' % i]) for i in sorted(where)]
                rec.check(got == [len(reached[i]) for i in sorted(where)] and
                          int(s.data['inactive']) == sum(
                              not within[p] for p in now), 'grow',
                          'counters after agents were added', sizes=sizes,
                          places=places, step=step, got=dict(s.data))
            rec.state((case['d'], case['k'], sizes, places))
            rec.trace()


def run_both(case, rec):
    """Both nodes in the tree of one simulation, and two simulations."""
    poly = DOMAINS['square']
    targets = [shape(p) for _, p in TARGETS['two']]
    for h in itertools.product(range(len(PLACES)), repeat=3):
        sims = []
        for k in range(2):
            s = sim.simulation(array({'a': 'Circular', 'n': 1}),
                               domain=shape(poly), targets=targets)
            s.logic = L.InsideDomain(s) << L.TargetReached(s)
            sims.append(s)
        seen = [set(), set()]
        for n, p in enumerate(h):
            for k, s in enumerate(sims):
                # the second one walks the same way backwards
                q = p if k == 0 else h[len(h) - 1 - n]
                s.agents.array['position'][0] = PLACES[q]
                s.update()
                rec.step()
                seen[k] |= {i for i in (0, 1)
                            if inside(TARGETS['two'][i][1], PLACES[q])}
                got = [int(s.data['target_%d' % i]) for i in (0, 1)]
                rec.check(got == [int(i in seen[k]) for i in (0, 1)] and
                          int(s.data['inactive']) == int(
                              not inside(poly, PLACES[q])) and
                          s.data['iterations'] == n + 1, 'both',
                          'counters of a simulation', history=h, sim=k,
                          got=dict(s.data))
        rec.state(h)
        rec.trace(2)
