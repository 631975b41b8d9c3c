"""C13: every pair of agents in sight, and every wall, acts exactly once.

Explored: every arrangement of up to 4 agents on a grid of positions that
crosses cells, touches and overlaps, for both agent types, several cell sizes
and orders of the array, and every set of walls.  Oracle: forces and torques
summed over all pairs with plain-number formulas."""
import itertools
import math

from checks import c12, c14, c15
from mc.num import close, vclose

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'circular and three-circle agents: all pairs over 14 positions x '
             '6 motions, all triples over 10 positions, quadruples over 7; '
             'cell sizes 3.6, 4, 50; reversed order; 10 sets of walls; crowds '
             'of 5-19, 33 and 80 agents of two densities with as many walls',
    'thorough': 'triples over 14 positions x 4 motions, quadruples over 10; '
                'crowds of up to 257'}
ASSUMPTIONS = ['cell_lists is replaced by a stand-in that yields each pair of '
               'points in the same or adjacent cells once',
               'cell size at least sight plus two radii',
               'pairs for which rounding decides between two results are '
               'skipped']
SIGHT = 3.0


def setup():
    global np, A, I, L, otype
    import numpy as np
    from crowddynamics.simulation import agents as A
    from crowddynamics.core import interactions as I
    from crowddynamics.core.structures import obstacle_type_linear as otype
    from crowddynamics.simulation import logic as L


POS = [(0., 0.), (.45, .1), (1.5, -.5), (3.3, .2), (3.55, .1), (-.3, -.35),
       (-3.4, -.4), (7.1, 7.3), (.1, 3.45), (-.2, .5), (3.59, 3.61),
       (-3.7, 3.5), (.02, -3.58), (2., 2.)]
MOVE = [[(0., 0.), (0., 0.), (0., 0.), (0., 0.)],
        [(1., 0.), (-1., .1), (.3, .3), (0., -1.)],
        [(-.5, .2), (.7, .1), (0., 1.2), (.4, .4)],
        [(1., 1.), (1., 1.), (-.2, .1), (-1., -.7)],
        [(.2, -.9), (-.1, 1.1), (1.3, 0.), (-.6, 0.)],
        [(-1.2, -.1), (1.1, -.3), (-.4, -.9), (.8, .1)]]
PHI = [.4, -1.3, 2.9, 1.57]
# radius, mass, k, tau0, mu, kappa, damping
PAR = [(.25, 70., 1.5, 3.0, 1.2e5, 4e4, 500.), (.28, 90., 2.0, 2.0, 1e5, 3e4, 250.),
       (.2, 50., 1.5, 3.0, 1.2e5, 4e4, 0.), (.3, 80., 1.0, 1.0, 5e4, 4e4, 500.)]
BODY = [(.16, .10, .16), (.15, .09, .14), (.12, .07, .12), (.17, .11, .18)]
WALLS = [[], [((-5., .3), (5., .3))], [((.2, -1.), (.2, 1.)), ((-5., -.2), (5., -.3))],
         [((.1, .1), (.2, .1))], [((-9., -9.), (-8., -9.))],
         [((3.4, -5.), (3.4, 5.)), ((-.5, .6), (.5, .2)), ((1.6, -.4), (9., -.4))],
         # corners and pairs of walls that touch the same agent
         [((-5., .12), (5., .12)), ((.1, -5.), (.1, 5.))],
         [((.13, -5.), (.13, 5.)), ((-5., -.09), (5., -.09)),
          ((-5., .14), (5., .14))],
         [((.08, -2.), (.08, 2.)), ((.08, -2.), (.08, 2.))],
         [((-5., 0.06), (.9, 0.06)), ((1.4, -2.), (1.4, 2.)),
          ((-5., -.07), (.9, -.07))]]
CELLS = [3.6, 4.0, 50.0]


def cases(tier):
    t = tier == 'thorough'
    out = []
    for typ in ('circular', 'three_circle'):
        for m in range(len(MOVE)):
            out.append({'kind': 'pairs', 'type': typ, 'm': m})
        np_ = 14 if t else 10
        for m in range(4 if t else 1):
            for a in range(np_):
                out.append({'kind': 'n', 'n': 3, 'type': typ, 'm': m + 1,
                            'a': a, 'p': np_})
        q = 10 if t else 7
        for a in range(q):
            out.append({'kind': 'n', 'n': 4, 'type': typ, 'm': 2, 'a': a,
                        'p': q})
        for w in range(len(WALLS)):
            out.append({'kind': 'walls', 'type': typ, 'w': w})
        sizes = list(range(5, 20)) + [33, 80] + ([129, 257] if t else [])
        out += [{'kind': 'crowd', 'type': typ, 'n': n} for n in sizes]
    out += [{'kind': 'few', 'type': t_} for t_ in ('circular', 'three_circle')]
    return out


def build(typ, pos, vel):
    dtype = A.agent_type_circular if typ == 'circular' else \
        A.agent_type_three_circle
    n = len(pos)
    a = np.zeros(n, dtype=dtype)
    bodies = []
    for k in range(n):
        r, m, ks, t0, mu, ka, da = PAR[k % 4]
        a['position'][k], a['velocity'][k] = pos[k], vel[k]
        a['radius'][k], a['mass'][k], a['k_soc'][k], a['tau_0'][k] = r, m, ks, t0
        a['mu'][k], a['kappa'][k], a['damping'][k] = mu, ka, da
        b = {'x': pos[k], 'v': vel[k], 'r': r, 'm': m, 'k': ks, 't0': t0,
             'c': (mu, ka, da)}
        if typ != 'circular':
            rt, rs, ts = BODY[k % 4]
            phi = PHI[k % 4]
            a['r_t'][k], a['r_s'][k], a['r_ts'][k] = rt, rs, ts
            a['orientation'][k] = phi
            xs, rads = c14.parts(pos[k], phi, BODY[k % 4])
            a['position_ls'][k], a['position_rs'][k] = xs[1], xs[2]
            b['xs'], b['rs'] = xs, rads
        else:
            b['xs'], b['rs'] = [pos[k]], [r]
        bodies.append(b)
    return a, bodies


class Unclear(Exception):
    pass


def social(p, q, circular):
    v = [p['v'][k] - q['v'][k] for k in (0, 1)]
    best = None
    for xi, ri in zip(p['xs'], p['rs']):
        for xj, rj in zip(q['xs'], q['rs']):
            xr = [xi[k] - xj[k] for k in (0, 1)]
            tau, margin = c15.tau_of(xr, v, ri + rj)
            if margin < 1e-9:
                raise Unclear
            if tau is None or tau <= 0 or (circular and tau > 30):
                continue
            if best is not None and abs(best[0] - tau) < 1e-9:
                if math.dist(best[1], xr) < 1e-12 and best[2] == ri + rj:
                    continue    # parallel agents: the same force
                raise Unclear
            if best is None or tau < best[0]:
                best = (tau, xr, ri + rj)
    if best is None:
        return [0., 0.], [0., 0.]
    g = c15.grad_of(best[1], v, best[2])
    return (c15.force(p['m'], p['k'], p['t0'], best[0], g),
            c15.force(q['m'], q['k'], q['t0'], best[0], [-c for c in g]))


def interact(p, q, circular):
    """Force and torque on p and q."""
    ok = c14.three(p['xs'], p['rs'], q['xs'], q['rs'])
    if len(ok) > 1 or abs(ok[0][0] - SIGHT) < 1e-9 or abs(ok[0][0]) < 1e-12:
        raise Unclear
    h, n, m0, m1 = ok[0]
    zero = [0., 0.]
    if h >= SIGHT:
        return zero, 0., zero, 0.
    fi, fj = social(p, q, circular)
    if h < 0:
        t = (n[1], -n[0])
        v = [p['v'][k] - q['v'][k] for k in (0, 1)]
        ci = c12.model_contact(h, n, v, t, *p['c'])
        cj = c12.model_contact(h, n, v, t, *q['c'])
        fi = [a + b for a, b in zip(fi, ci)]
        fj = [a - b for a, b in zip(fj, cj)]
    return (fi, m0[0] * fi[1] - m0[1] * fi[0],
            fj, m1[0] * fj[1] - m1[1] * fj[0])


def against_walls(b, walls):
    """Force and torque of the walls on an agent."""
    f, tq = [0., 0.], 0.
    for p0, p1 in walls:
        c = [(c14.line(x, r, p0, p1), x, r) for x, r in zip(b['xs'], b['rs'])]
        c.sort(key=lambda e: e[0][0])
        (h, n), x, r = c[0]
        if (len(c) > 1 and c[1][0][0] - h < 1e-9 and h < 1e-9) \
                or abs(h) < 1e-12 or n is None:
            raise Unclear
        if h < 0:
            t = (n[1], -n[0])
            g = c12.model_contact(h, n, b['v'], t, *b['c'])
            m = [x[k] - r * n[k] - b['x'][k] for k in (0, 1)]
            f = [u + v for u, v in zip(f, g)]
            tq += m[0] * g[1] - m[1] * g[0]
    return f, tq


def compare(rec, a, start, forces, torques, circular, key, **d):
    for k in range(len(a)):
        want = [start + c for c in forces[k]]
        rec.check(vclose(a['force'][k], want, 1e-6, 1e-5), key + '-force',
                  'force on agent %d' % k, got=a['force'][k].tolist(),
                  want=want, **d)
        if not circular:
            rec.check(close(a['torque'][k], start + torques[k], 1e-6, 1e-5),
                      key + '-torque', 'torque on agent %d' % k,
                      got=float(a['torque'][k]), want=start + torques[k], **d)


def try_agents(rec, typ, pos, vel, cells, orders):
    circular = typ == 'circular'
    a, bodies = build(typ, pos, vel)
    n = len(pos)
    rec.state((typ, tuple(pos), tuple(vel)))
    try:
        forces, torques = [[0., 0.] for _ in pos], [0.] * n
        for i, j in itertools.combinations(range(n), 2):
            fi, ti, fj, tj = interact(bodies[i], bodies[j], circular)
            for k, f, t in ((i, fi, ti), (j, fj, tj)):
                forces[k] = [x + y for x, y in zip(forces[k], f)]
                torques[k] += t
    except Unclear:
        return
    for cell in cells:
        for rev in orders:
            perm = list(range(n))[::-1] if rev else list(range(n))
            b = a[perm].copy()
            b['force'] = 1.5
            if not circular:
                b['torque'] = 1.5
            before = b.copy()
            I.agent_agent_block_list(b, cell)
            rec.trace()
            rec.step(n * (n - 1) // 2)
            compare(rec, b, 1.5, [forces[k] for k in perm],
                    [torques[k] for k in perm], circular, 'pairs', pos=pos,
                    vel=vel, cell=cell, reversed=rev)
            for name in b.dtype.names:
                if name not in ('force', 'torque'):
                    rec.check(b[name].tobytes() == before[name].tobytes(),
                              'pure', '%s was changed' % name, pos=pos)


def crowd(rec, typ, n, spacing):
    """Many agents and as many walls: none is left out."""
    circular = typ == 'circular'
    side = math.ceil(math.sqrt(n))
    pos = [(spacing * (k % side - side // 2) + .13 * math.sin(1.7 * k),
            spacing * (k // side - side // 2) + .11 * math.cos(2.9 * k))
           for k in range(n)]
    vel = [(math.cos(2.1 * k), .8 * math.sin(1.3 * k)) for k in range(n)]
    walls = []
    for k in range(n):
        x, y = pos[(7 * k) % n]
        x, y = x + .2 * math.cos(k), y + .21 * math.sin(k)
        walls.append(((x, y), (x + 1.5 * math.cos(.7 * k),
                               y + 1.4 * math.sin(.7 * k))))
    a, bodies = build(typ, pos, vel)
    rec.state((typ, n, spacing))
    forces, torques = [[0., 0.] for _ in pos], [0.] * n
    unclear = set()
    for i, j in itertools.combinations(range(n), 2):
        if math.dist(pos[i], pos[j]) > SIGHT + 1.2:
            continue
        try:
            fi, ti, fj, tj = interact(bodies[i], bodies[j], circular)
        except Unclear:
            unclear |= {i, j}
            continue
        for k, f, t in ((i, fi, ti), (j, fj, tj)):
            forces[k] = [x + y for x, y in zip(forces[k], f)]
            torques[k] += t
    rec.check(len(unclear) <= .8 * n, 'unclear', 'the crowd decides nothing',
              n=n, spacing=spacing, unclear=len(unclear))

    def look(b, want, key):
        rec.trace()
        for k in range(n):
            if k in unclear:
                continue
            f, t = want[k]
            rec.check(vclose(b['force'][k], f, 1e-6, 1e-4), key + '-force',
                      'force on agent %d of %d' % (k, n), spacing=spacing,
                      got=b['force'][k].tolist(), want=f)
            if not circular:
                rec.check(close(b['torque'][k], t, 1e-6, 1e-4),
                          key + '-torque', 'torque on agent %d of %d' % (k, n),
                          spacing=spacing, got=float(b['torque'][k]), want=t)

    for cell in CELLS:
        b = a.copy()
        I.agent_agent_block_list(b, cell)
        rec.step(n * (n - 1) // 2)
        look(b, list(zip(forces, torques)), 'crowd')
    unclear = set()
    for m in sorted({n, n // 2, min(n, 3)}):
        obs = np.zeros(m, dtype=otype)
        for k, (p0, p1) in enumerate(walls[:m]):
            obs['p0'][k], obs['p1'][k] = p0, p1
        want = []
        for k, b in enumerate(bodies):
            try:
                want.append(against_walls(b, walls[:m]))
            except Unclear:
                unclear.add(k)
                want.append(None)
        b = a.copy()
        I.agent_obstacle(b, obs)
        rec.step(n * m)
        look(b, want, 'crowd-walls')


def run_case(case, rec):
    if case['kind'] == 'crowd':
        for spacing in (.62 if case['type'] == 'circular' else .85, 2.3):
            crowd(rec, case['type'], case['n'], spacing)
        return
    typ = case['type']
    circular = typ == 'circular'
    kind = case['kind']
    if kind == 'pairs':
        mv = MOVE[case['m']]
        for p, q in itertools.product(POS, repeat=2):
            if p == q:
                continue
            try_agents(rec, typ, [p, q], mv[:2], CELLS, (0, 1))
    elif kind == 'n':
        n = case['n']
        mv = MOVE[case['m']]
        pos = POS[:case['p']]
        for rest in itertools.permutations(pos, n - 1):
            if pos[case['a']] in rest:
                continue
            if n == 4 and list(rest) != sorted(rest):
                continue
            try_agents(rec, typ, [pos[case['a']]] + list(rest), mv[:n],
                       CELLS[:1], (0,))
    elif kind == 'few':
        for n in (0, 1):
            a, bodies = build(typ, POS[:n], MOVE[1][:n])
            rec.state((typ, n))
            rec.trace()
            if n:
                I.agent_agent_block_list(a, 3.6)
                rec.check(a['force'].tolist() == [[0, 0]], 'single',
                          'a single agent acts on itself')
            I.agent_obstacle(a, np.zeros(0, dtype=otype))
            rec.check(not a['force'].any(), 'nowalls', 'force without walls')
        from crowddynamics.exceptions import InvalidType
        for f, args in ((I.agent_agent_block_list, (3.6,)),
                        (I.agent_obstacle, (np.zeros(0, dtype=otype),))):
            b = np.zeros(2, dtype=[('position', np.float64, 2)])
            try:
                f(b, *args)
            except InvalidType:
                rec.trace()
            else:
                rec.fail('type', 'agents of an unknown type are accepted')
    else:
        w = WALLS[case['w']]
        obs = np.zeros(len(w), dtype=otype)
        for k, (p0, p1) in enumerate(w):
            obs['p0'][k], obs['p1'][k] = p0, p1
        for mv in MOVE:
            for p, q in itertools.product(POS, repeat=2):
                a, bodies = build(typ, [p, q], mv[:2])
                a['force'] = 2.5
                if not circular:
                    a['torque'] = 2.5
                forces, torques, skip = [], [], False
                for b in bodies:
                    try:
                        f, tq = against_walls(b, w)
                    except Unclear:
                        skip = True
                        break
                    forces.append(f)
                    torques.append(tq)
                rec.state((typ, case['w'], p, q, tuple(mv[:2])))
                if skip:
                    continue
                I.agent_obstacle(a, obs)
                rec.trace()
                rec.step(len(w) * 2)
                compare(rec, a, 2.5, forces, torques, circular, 'walls',
                        pos=[p, q], vel=mv[:2], walls=w)
