"""C19: navigation maps guide every agent around obstacles to its target.

Explored: every scene of an alphabet of domains, obstacles and targets at
several resolutions, from every cell of it; every small map and position for
the functions the maps are combined and read with.  Oracle: walking the map
must reach the target without crossing an obstacle; combining and reading are
restated on plain numbers."""
import itertools
import math

from checks.c16 import meet
from mc.num import close, vclose

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'grids: 6 steps x 5 bounds; reading: 3 x 4 map, all index pairs '
             'in -2..5; combining: all 2-cell contents from 6 distances x 6 x '
             '6 directions x 2 radii x 2 strengths; gradients of all 3 x 3 '
             'maps over 3 values of 5 cells; walks from every cell of 9 '
             'scenes x 2 steps; the node with all targets of 4 agents in 4 '
             'scenes, and of up to 300 agents with 12 targets',
    'thorough': 'walks at 4 steps down to a fifth of the radius, gradients over all 9 cells'}
ASSUMPTIONS = ['scikit-fmm and scikit-image are replaced by stand-ins (first '
               'order fast marching, Bresenham lines): distances are judged '
               'with the tolerance of that scheme',
               'agents closer to an obstacle than the resolution are not '
               'walked; the resolution is at most half of the radius (a '
               'coarser map does not resolve the passages)']
CASE_TIMEOUT = 800


def setup():
    global np, Q, O, N, A, L, sim, geo
    import numpy as np
    import shapely.geometry as geo
    from crowddynamics.core.steering import quickest_path as Q
    from crowddynamics.core.steering import obstacle_handling as O
    from crowddynamics.core.steering import navigation as N
    from crowddynamics.simulation import agents as A
    from crowddynamics.simulation import logic as L
    from mc import sim


STEPS = [.1, .25, .5, .3, 1.0, .04]
GRIDS = [(0., 0., 1., 1.), (-3., 2., -1., 5.5), (0., 0., .9, .3),
         (-.55, -1.1, 2.2, 0.), (100., 100., 103., 101.),
         (-2., 1., 10., 1.5), (3., -7., 3.2, 6.)]
BOX = [(0, 0), (6, 0), (6, 4), (0, 4)]
SCENES = {
    'open': (BOX, [], [[(6, 1), (6, 3)]]),
    'wall': (BOX, [[(3, 0), (3, 2)]], [[(6, 1), (6, 3)]]),
    'gap': (BOX, [[(3, 0), (3, 1.2)], [(3, 2.8), (3, 4)]], [[(6, 0), (6, 4)]]),
    'low': (BOX, [[(1, 2.5), (5, 2.5)]], [[(0, 0), (6, 0)]]),
    'maze': (BOX, [[(2, 0), (2, 2.6)], [(4, 1.4), (4, 4)]], [[(6, 3), (6, 4)]]),
    'two': (BOX, [[(3, 1), (3, 3)]], [[(0, 1), (0, 3)], [(6, 1), (6, 3)]]),
    'left': (BOX, [[(2, 1), (4, 1), (4, 3)]], [[(0, 0), (0, 1)]]),
    'shift': ([(-4, 10), (2, 10), (2, 15), (-4, 15)], [[(-1, 10), (-1, 12)]],
              [[(2, 10), (2, 11)]]),
    'corner': (BOX, [[(1.5, 1.5), (1.5, 4)]], [[(0, 4), (1, 4)], [(5, 0), (6, 0)]]),
}
# a dozen of targets
MANY = (BOX, [[(3, 1), (3, 3)]],
        [[(k, 0), (k + .5, 0)] for k in range(6)] +
        [[(k + .25, 4), (k + 1, 4)] for k in range(5)] + [[(6, 1), (6, 2)]])
NODE_SCENES = ('open', 'two', 'corner', 'shift')


def cases(tier):
    t = tier == 'thorough'
    out = [{'kind': 'grid', 's': s} for s in range(len(STEPS))]
    out += [{'kind': 'get'}]
    out += [{'kind': 'combine', 'd': d} for d in range(6)]
    out += [{'kind': 'gradient', 'a': a, 'b': b, 't': t} for a in range(3)
            for b in range(3)]
    for name in sorted(SCENES):
        for step in (.25, .2, .125, .1)[:4 if t else 2]:
            for i in range(len(SCENES[name][2])):
                out.append({'kind': 'walk', 'scene': name, 'step': step,
                            'target': i})
            if len(SCENES[name][2]) > 1:
                out.append({'kind': 'walk', 'scene': name, 'step': step,
                            'target': 'closest'})
    for name in NODE_SCENES:
        for k in range(4):
            out.append({'kind': 'node', 'scene': name, 'k': k})
    out += [{'kind': 'static', 'scene': n} for n in sorted(SCENES)]
    out += [{'kind': 'orient'}]
    out += [{'kind': 'crowd', 'n': n} for n in (13, 70, 300)]
    return out


def field_of(name):
    dom, obs, targets = MANY if name == 'many' else SCENES[name]
    o = None
    if len(obs) == 1:
        o = geo.LineString(obs[0])
    elif obs:
        o = geo.MultiLineString(obs)
    return dict(domain=geo.Polygon(dom), obstacles=o,
                targets=[geo.LineString(t) for t in targets])


def run_case(case, rec):
    globals()['run_' + case['kind']](case, rec)


def run_grid(case, rec):
    step = STEPS[case['s']]
    for (x0, y0, x1, y1) in GRIDS:
        g = Q.meshgrid(step, x0, y0, x1, y1)
        xs, ys = g.values
        rec.trace()
        rec.state((step, x0))
        d = dict(step=step, bounds=(x0, y0, x1, y1), shape=g.shape)
        rec.check(xs.shape == ys.shape == tuple(g.shape), 'grid-shape',
                  'shape of the grid', **d)
        n, m = g.shape
        rec.check(g.step == step and tuple(g.bounds) == (x0, y0, x1, y1),
                  'grid-attr', 'step and bounds of the grid', **d)
        for i, j in itertools.product({0, n // 2, n - 1}, {0, m // 2, m - 1}):
            rec.check(close(xs[i, j], x0 + j * step, 1e-9, 1e-9) and
                      close(ys[i, j], y0 + i * step, 1e-9, 1e-9),
                      'grid-values', 'values of the grid', cell=(i, j), **d)
        rec.check(xs[0, -1] >= x1 - 1e-9 and ys[-1, 0] >= y1 - 1e-9 and
                  xs[0, -1] < x1 + 1.001 * step + 1e-9 and
                  ys[-1, 0] < y1 + 1.001 * step + 1e-9, 'grid-cover',
                  'the grid does not cover its bounds', **d)
        pts = []
        for fx in (0., .2, .5, .77, 1.):
            for fy in (0., .31, .5, .9, 1.):
                pts.append((x0 + fx * (x1 - x0), y0 + fy * (y1 - y0)))
        idx = g.indicer(np.array(pts))
        for p, (j, i) in zip(pts, idx.tolist()):
            rec.step()
            rec.check(0 <= i < n and 0 <= j < m, 'index-inside', 'a position '
                      'of the domain is outside of the grid', p=p, got=(j, i),
                      **d)
            rec.check(j * step - 1e-9 <= p[0] - x0 <= (j + 1) * step + 1e-9 and
                      i * step - 1e-9 <= p[1] - y0 <= (i + 1) * step + 1e-9,
                      'index', 'cell of a position', p=p, got=(j, i), **d)
        one = g.indicer(pts[7])
        rec.check(one.tolist() == idx[7].tolist(), 'index-one',
                  'cell of a single position', **d)


def run_get(case, rec):
    u = np.arange(12.).reshape(3, 4)
    v = -np.arange(12.).reshape(3, 4) - .5
    cells = list(itertools.product(range(-2, 6), repeat=2))
    for a in cells:
        for b in ((0, 0), (2, 3), (3, 3), (-1, 1)):
            idx = np.array([a, b])
            dflt = np.array([[.25, .75], [-.5, .5]])
            keep = dflt.copy()
            got = N.getdefault(idx, (u, v), dflt)
            rec.trace()
            rec.state((a, b))
            for k, (i, j) in enumerate((a, b)):
                want = [u[i, j], v[i, j]] if 0 <= i < 3 and 0 <= j < 4 \
                    else keep[k].tolist()
                rec.check(got[k].tolist() == want, 'get', 'direction read at '
                          'cell', cell=(i, j), got=got[k].tolist(), want=want)
            rec.check(dflt.tolist() == keep.tolist(), 'get-pure',
                      'the defaults were changed')
    got = N.getdefault(np.zeros((0, 2), dtype=int), (u, v), np.zeros((0, 2)))
    rec.check(got.shape == (0, 2), 'get-empty', 'no agents')


DIST = [0.0, -.2, -.5, -1.0, .3, -.75]
DIRS = [(1., 0.), (0., -1.), (.6, .8), (-.6, -.8), (-1., 0.), (.8, -.6)]


def combined(x, o, t, radius, strength):
    """The direction of one cell, None if not defined."""
    x = -x
    if 0 < x < radius:
        p = strength ** (x / radius)
        r = [-p * o[k] + (1 - p) * t[k] for k in (0, 1)]
    else:
        r = list(t)
    l = math.hypot(*r)
    return [c / l for c in r] if l > 1e-9 else None


def run_combine(case, rec):
    d0 = DIST[case['d']]
    for o0, t0, d1, t1 in itertools.product(DIRS, DIRS, DIST, DIRS[:3]):
        o1 = DIRS[3]
        for radius, strength in ((.5, .3), (1., .5)):
            dm = np.array([[d0, d1]])
            mo = (np.array([[o0[0], o1[0]]]), np.array([[o0[1], o1[1]]]))
            mt = (np.array([[t0[0], t1[0]]]), np.array([[t0[1], t1[1]]]))
            u, v = O.obstacle_handling(dm, mo, mt, radius, strength)
            rec.trace()
            rec.state((d0, o0, t0, d1, t1, radius))
            want = [combined(d0, o0, t0, radius, strength),
                    combined(d1, o1, t1, radius, strength)]
            d = dict(distance=(d0, d1), obstacle=(o0, o1), target=(t0, t1),
                     radius=radius, strength=strength)
            for k in (0, 1):
                if want[k] is not None:
                    rec.check(vclose((u[0, k], v[0, k]), want[k]), 'combine',
                              'combined direction of cell %d' % k,
                              got=[u[0, k], v[0, k]], want=want[k], **d)
            rec.check(mt[0].tolist() == [[t0[0], t1[0]]], 'combine-pure',
                      'the map of the target was changed', **d)
            idx = np.array([[0, 0], [0, 1], [1, 0], [0, 5], [-1, 0]])
            tgt = np.array([t0, t1, t0, t1, t0])
            got = O.obstacle_handling_continuous(dm, mo, tgt, idx, radius,
                                                 strength)
            for k in range(5):
                w = want[k] if k < 2 else tgt[k].tolist()
                if w is not None:
                    rec.check(vclose(got[k], w), 'continuous', 'combined '
                              'direction of agent %d' % k, want=w,
                              got=got[k].tolist(), **d)


def run_gradient(case, rec):
    vals = (0., 1., -2.5)
    n = 9 if case['t'] else 5
    for rest in itertools.product(vals, repeat=n - 2):
        cells = [vals[case['a']], vals[case['b']]] + list(rest)
        cells += [.5, -1., 3., 0.][:9 - n]
        m = np.array(cells).reshape(3, 3)
        u, v = Q.direction_map(m)
        rec.trace()
        rec.state(tuple(cells))
        g = m.tolist()
        for i in range(3):
            for j in range(3):
                gy = (g[min(i + 1, 2)][j] - g[max(i - 1, 0)][j]) / (
                    min(i + 1, 2) - max(i - 1, 0))
                gx = (g[i][min(j + 1, 2)] - g[i][max(j - 1, 0)]) / (
                    min(j + 1, 2) - max(j - 1, 0))
                l = math.hypot(gx, gy)
                got = (float(u[i, j]), float(v[i, j]))
                if l == 0:
                    ok = got[0] != got[0] and got[1] != got[1]
                else:
                    ok = vclose(got, (gx / l, gy / l))
                rec.check(ok, 'gradient', 'direction of cell %s' % ((i, j),),
                          map=g, got=got, want=(gx, gy))


def seg_dist(p, a, b):
    dx, dy = b[0] - a[0], b[1] - a[1]
    t = ((p[0] - a[0]) * dx + (p[1] - a[1]) * dy) / (dx * dx + dy * dy)
    t = min(1., max(0., t))
    return math.hypot(p[0] - a[0] - t * dx, p[1] - a[1] - t * dy)


def segs(lines):
    return [(l[k], l[k + 1]) for l in lines for k in range(len(l) - 1)]


def maps(case):
    from crowddynamics.simulation.field import Field
    f = Field(**{k: v for k, v in field_of(case['scene']).items()
                 if v is not None})
    return f.navigation_to_target(case['target'], case['step'], .5, .3)


def run_walk(case, rec):
    dom, obs, targets = SCENES[case['scene']]
    step = case['step']
    g, dmap, (u, v) = maps(case)
    ts = segs(targets if case['target'] == 'closest'
              else [targets[case['target']]])
    ws = segs(obs)
    x0, y0 = min(p[0] for p in dom), min(p[1] for p in dom)
    x1, y1 = max(p[0] for p in dom), max(p[1] for p in dom)
    n, m = g.shape
    U, V = np.ma.getdata(u).tolist(), np.ma.getdata(v).tolist()
    D = np.ma.getdata(dmap).tolist()
    rec.check((n, m) == u.shape == v.shape, 'walk-shape', 'shape of the maps')
    near = 1.6 * step
    for i in range(n):
        for j in range(m):
            p = [x0 + (j + .5) * step, y0 + (i + .5) * step]
            if not (p[0] < x1 and p[1] < y1):
                continue
            if ws and min(seg_dist(p, *w) for w in ws) < 2.5 * step:
                continue
            rec.state((case['scene'], step, case['target'], i, j))
            start = tuple(p)
            straight = min(seg_dist(p, *t) for t in ts)
            d = dict(scene=case['scene'], step=step, target=case['target'],
                     start=start)
            if not ws and straight > 2 * step:
                rec.check(abs(-D[i][j] - straight) <= 1.5 * step +
                          .12 * straight, 'distance', 'distance to the target',
                          got=-D[i][j], want=straight, **d)
            walked, h = 0.0, .25 * step
            limit = 3 * (abs(D[i][j]) + 3) + 2
            ok = False
            while walked < limit:
                if min(seg_dist(p, *t) for t in ts) < near:
                    ok = True
                    break
                a = min(n - 1, max(0, int((p[1] - y0) / step)))
                b = min(m - 1, max(0, int((p[0] - x0) / step)))
                du, dv = U[a][b], V[a][b]
                if du != du or dv != dv:
                    break
                if abs(math.hypot(du, dv) - 1) > 1e-6:
                    rec.fail('walk-unit', 'a direction is not a unit vector',
                             cell=(a, b), got=(du, dv), **d)
                q = [min(x1, max(x0, p[0] + h * du)),
                     min(y1, max(y0, p[1] + h * dv))]
                if any(meet(tuple(p), tuple(q), *w) for w in ws):
                    rec.fail('walk-obstacle', 'the way to the target crosses '
                             'an obstacle', at=q, **d)
                    break
                p = q
                walked += h
                rec.step()
            rec.check(ok, 'walk', 'following the map does not reach the '
                      'target', stopped=p, walked=walked, **d)
            rec.trace()


def run_node(case, rec):
    dom, obs, targets = SCENES[case['scene']]
    nt = len(targets)
    x0, y0 = min(p[0] for p in dom), min(p[1] for p in dom)
    ps = [(x0 + .6, y0 + .7), (x0 + 4.9, y0 + 3.3), (x0 + 1.05, y0 + 3.9),
          (x0 - .5, y0 + 1.)]
    radius, strength, step = ((.5, .3, .5), (.7, .5, .5), (.5, .3, .4),
                              (.3, .2, .25))[case['k']]
    f = field_of(case['scene'])
    s = sim.simulation(np.zeros(0, dtype=A.agent_type_circular), **f)
    node = L.Navigation(s, step=step, radius=radius, strength=strength)
    ref = {}
    for t in range(nt):
        ref[t] = s.field.navigation_to_target(t, step, radius, strength)
    for tg in itertools.product(range(-1, nt), repeat=4):
        for dtype in (A.agent_type_circular, A.agent_type_three_circle)[
                :1 + (sum(tg) % 2)]:
            a = np.zeros(4, dtype=dtype)
            a['position'], a['target'] = ps, tg
            a['target_direction'] = (.6, -.8)
            # neither of these matters
            a['active'] = [(sum(tg) + k) % 3 > 0 for k in range(4)]
            a['target_reached'] = [(tg[0] + k) % 2 for k in range(4)]
            a['is_follower'] = [(tg[1] + k) % 3 == 0 for k in range(4)]
            before = a.copy()
            s.agents.array = a
            node.update()
            a = s.agents.array
            rec.trace()
            rec.state((case['scene'], case['k'], tg))
            for k in range(4):
                rec.step()
                want = (.6, -.8)
                if tg[k] >= 0:
                    g, _, (u, v) = ref[tg[k]]
                    i = int((ps[k][1] - y0) / step)
                    j = int((ps[k][0] - x0) / step)
                    if k != 3:
                        want = (float(np.ma.getdata(u)[i, j]),
                                float(np.ma.getdata(v)[i, j]))
                    elif j == 0:
                        continue
                rec.check(vclose(a['target_direction'][k], want), 'node',
                          'direction of agent %d' % k, targets=tg,
                          pos=ps[k], got=a['target_direction'][k].tolist(),
                          want=want)
            for name in a.dtype.names:
                if name != 'target_direction':
                    rec.check(a[name].tobytes() == before[name].tobytes(),
                              'node-pure', '%s was changed' % name)


def run_crowd(case, rec):
    """Many agents on their ways to a dozen of targets."""
    n, step, radius, strength = case['n'], .5, .5, .3
    s = sim.simulation(np.zeros(0, dtype=A.agent_type_circular),
                       **field_of('many'))
    node = L.Navigation(s, step=step, radius=radius, strength=strength)
    maps = [s.field.navigation_to_target(t, step, radius, strength)[2]
            for t in range(len(MANY[2]))]
    for mul in (1, 5, 7):
        a = np.zeros(n, dtype=A.agent_type_circular)
        ps = [(.1 + (37 * k % 59) / 10, .1 + (23 * k % 39) / 10)
              for k in range(n)]
        tg = [k * mul % (len(maps) + 1) - 1 for k in range(n)]
        a['position'], a['target'] = ps, tg
        a['target_direction'] = (.6, -.8)
        s.agents.array = a
        node.update()
        rec.trace()
        rec.state((n, mul))
        for k in range(n):
            rec.step()
            want = (.6, -.8)
            if tg[k] >= 0:
                i, j = int(ps[k][1] / step), int(ps[k][0] / step)
                want = [float(np.ma.getdata(c)[i, j]) for c in maps[tg[k]]]
            rec.check(vclose(s.agents.array['target_direction'][k], want),
                      'node', 'direction of agent %d of %d' % (k, n),
                      target=tg[k], pos=ps[k], want=want,
                      got=s.agents.array['target_direction'][k].tolist())


def run_static(case, rec):
    f = field_of(case['scene'])
    for k, t in enumerate(f['targets']):
        from crowddynamics.simulation.field import Field
        g, dm, (u, v) = N.static_potential(f['domain'], t, f['obstacles'], .5,
                                           .6, .3)
        fl = Field(**{a: b for a, b in f.items() if b is not None})
        g2, dm2, (u2, v2) = fl.navigation_to_target(k, .5, .6, .3)
        rec.trace()
        rec.state((case['scene'], k))
        same = all(np.array_equal(np.ma.filled(p, -7.), np.ma.filled(q, -7.),
                                  equal_nan=True)
                   for p, q in ((dm, dm2), (u, u2), (v, v2)))
        rec.check(same and g.shape == g2.shape, 'static', 'static_potential '
                  'and the field give different maps', scene=case['scene'],
                  target=k)


def run_orient(case, rec):
    from crowddynamics.core.steering.orientation import \
        orient_towards_target_direction as f
    dirs = DIRS + [(0., 1.), (-1., 1e-9), (-1., -1e-9), (.3, .3)]
    for sel in itertools.permutations(range(len(dirs)), 3):
        a = np.zeros(3, dtype=A.agent_type_three_circle)
        a['target_direction'] = [dirs[k] for k in sel]
        a['orientation'] = .5
        f(a)
        rec.trace()
        rec.state(sel)
        for k, s in enumerate(sel):
            want = math.atan2(dirs[s][1], dirs[s][0])
            rec.check(close(a['target_orientation'][k], want), 'orient',
                      'target orientation', direction=dirs[s],
                      got=float(a['target_orientation'][k]), want=want)
        rec.check((a['orientation'] == .5).all(), 'orient-pure',
                  'the orientation was changed')
    for dtype in (A.agent_type_circular, A.agent_type_three_circle):
        a = np.zeros(2, dtype=dtype)
        a['target_direction'] = [(0., 1.), (1., 0.)]
        a['active'] = [True, False]
        s = sim.simulation(a)
        L.Orientation(s).update()
        rec.trace()
        if 'torque' in dtype.names:
            rec.check(vclose(s.agents.array['target_orientation'],
                             (math.pi / 2, 0.)), 'orient-node',
                      'target orientation set by the logic node')
