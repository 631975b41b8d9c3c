"""C17: herding agents follow the nearest neighbours they see heading away.

Explored: crowds; every arrangement of up to 5 agents over positions that straddle
cells, walls and ranges; every pair of headings; every small list of
neighbours.  Oracle: distances and exact segment intersection on all pairs,
the angle of view on plain numbers."""
import itertools
import math

from checks.c16 import meet
from mc.num import close, vclose

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'relations: 9 positions x 9 x 9 velocities x 4 angles; '
             'neighbours: all sets of 4 of 10 positions (and of 5 of 8) x 3 '
             'sights x 4 numbers x 5 sets of walls; herding: 3 agents, all '
             'positions from 6, velocities from 5, masks and neighbour lists; '
             'crowds of 9, 40 and 150 agents x 8 scenes x 4 ranges; distances '
             'that differ by 1e-9',
    'thorough': 'all sets of 4 of 12, of 5 of 10'}
ASSUMPTIONS = ['cell_lists is replaced by a stand-in',
               'headings within 1e-9 of the angle of view may be judged '
               'either way',
               'equally distant neighbours may be chosen in any way']


def setup():
    global np, M, otype, cells
    import numpy as np
    import cell_lists as cells
    from crowddynamics.core.steering import collective_motion as M
    from crowddynamics.core.structures import obstacle_type_linear as otype


POS = [(0., 0.), (1., 0.), (-1.5, .5), (.25, 2.), (2.9, -.1), (-3.2, -3.1),
       (3.1, 3.), (.5, -2.75), (1., 1.), (6.5, .25), (-.75, 1.5), (2., -2.)]
VEL = [(0., 0.), (1., 0.), (-1., 0.), (0., .5), (.6, -.8), (-.8, .6),
       (.3, .3), (-2., -2.), (0., -1.)]
PHI = [math.pi / 2, .45 * math.pi, .2, math.pi]
WALLS = [[], [((.5, -9.), (.5, 9.))], [((-9., .75), (9., .75))],
         [((.5, -.5), (.5, .5)), ((-1., -1.), (-2., 3.))],
         [((1.5, .5), (1.5, .25)), ((.2, 1.), (.3, 1.))]]
SIGHT = [1.25, 3.0, 10.0]
NUM = [0, 1, 2, 5]
WEIGHT = [0.0, .15, 1.0]


def cases(tier):
    t = tier == 'thorough'
    out = [{'kind': 'relation', 'p': k} for k in range(9)]
    n4, n5 = (12, 10) if t else (10, 8)
    for s in range(len(SIGHT)):
        for w in range(len(WALLS)):
            out.append({'kind': 'near', 's': s, 'w': w, 'n': 4, 'p': n4})
            out.append({'kind': 'near', 's': s, 'w': w, 'n': 5, 'p': n5})
    out += [{'kind': 'herd', 'a': k, 'v': v} for k in range(6)
            for v in range(5)]
    out += [{'kind': 'crowd', 'n': n} for n in (9, 40, 150)]
    out += [{'kind': 'close'}]
    return out


def norm(v):
    l = math.hypot(*v)
    return (v[0] / l, v[1] / l) if l else (0., 0.)


class Unclear(Exception):
    pass


def heading(x1, x2, v1, v2, phi):
    """Is 2 heading away from 1, and 1 from 2 (as the rule has it)."""
    if math.hypot(*v1) == 0 or math.hypot(*v2) == 0:
        return False, False
    e = norm((x2[0] - x1[0], x2[1] - x1[1]))
    a, b = norm(v1), norm(v2)
    c_i = e[0] * a[0] + e[1] * a[1]
    c_j = -(e[0] * b[0] + e[1] * b[1])
    c = math.cos(phi)
    if abs(c_i - c) < 1e-9 or abs(c_j - c) < 1e-9:
        raise Unclear
    return {(True, True): (False, False), (True, False): (True, False),
            (False, True): (False, True),
            (False, False): (True, True)}[(c_i > c, c_j > c)]


def visible(p, q, walls):
    return not any(meet(p, q, *w) for w in walls)


def walls_array(ws):
    a = np.zeros(len(ws), dtype=otype)
    for k, (p, q) in enumerate(ws):
        a['p0'][k], a['p1'][k] = p, q
    return a


def check_neighbors(rec, got, pos, walls, sight, num, **d):
    n = len(pos)
    rec.check(got.shape == (n, num), 'near-shape', 'shape of the neighbours',
              got=got.shape, **d)
    for i in range(n):
        cand = {j: math.hypot(pos[i][0] - pos[j][0], pos[i][1] - pos[j][1])
                for j in range(n)
                if j != i and visible(pos[i], pos[j], walls)}
        cand = {j: l for j, l in cand.items() if l < sight}
        mine = [int(j) for j in got[i] if j != -1]
        dd = dict(agent=i, got=mine, candidates=cand, **d)
        rec.check(len(set(mine)) == len(mine), 'near-twice',
                  'a neighbour is listed twice', **dd)
        rec.check(all(j in cand for j in mine), 'near-wrong',
                  'a neighbour is not in sight', **dd)
        rec.check(len(mine) == min(num, len(cand)), 'near-missing',
                  'neighbours in sight are missing', **dd)
        if mine and all(j in cand for j in mine):
            far = max(cand[j] for j in mine)
            rec.check(all(cand[j] >= far - 1e-12 for j in cand
                          if j not in mine), 'near-nearest',
                      'a nearer neighbour is missing', **dd)


def run_case(case, rec):
    kind = case['kind']
    if kind == 'relation':
        x2 = [(0., 0.), (1., 0.), (0., 2.), (-1., -1.), (.5, .1), (-3., .2),
              (1e-3, 0.), (0., -1.), (-1., 0.)][case['p']]
        for base in ((0., 0.), (7.5, -2.)):
            p1, p2 = base, (base[0] + x2[0], base[1] + x2[1])
            for v1, v2, phi in itertools.product(VEL, VEL, PHI):
                try:
                    want = heading(p1, p2, v1, v2, phi)
                except Unclear:
                    continue
                got = M.herding_relationship(np.array(p1), np.array(p2),
                                             np.array(v1), np.array(v2), phi)
                rec.state((p1, p2, v1, v2, phi))
                rec.trace()
                rec.check(tuple(map(bool, got)) == want, 'relation',
                          'who is heading away', x1=p1, x2=p2, v1=v1, v2=v2,
                          phi=phi, got=list(map(bool, got)), want=want)
    elif kind == 'near':
        walls = WALLS[case['w']]
        arr = walls_array(walls)
        sight = SIGHT[case['s']]
        for pos in itertools.combinations(POS[:case['p']], case['n']):
            for rev in (0, 1):
                ps = list(pos)[::-1] if rev else list(pos)
                p = np.array(ps)
                idx, cnt, off, shape = cells.add_to_cells(p, sight)
                ci = np.arange(len(cnt))
                nc = cells.neighboring_cells(shape)
                for num in NUM if not rev else NUM[2:3]:
                    got = M.find_nearest_neighbors(p, sight, num, ci, nc, idx,
                                                   cnt, off, arr)
                    rec.trace()
                    rec.step(case['n'])
                    rec.state((pos, rev, sight, num, case['w']))
                    check_neighbors(rec, got, ps, walls, sight, num, points=ps,
                                    wall=walls, within=sight, most=num)
    elif kind == 'close':
        # neighbours hardly nearer than others, or than the sight
        gaps = [0.0, 3e-9, -3e-9, 1.2e-8, -2e-8, 1e-7]
        for base, far, n in itertools.product(
                ((0., 0.), (37.1, -12.3)), (1.0, 7.3), (2, 3)):
            for sel in itertools.permutations(gaps, n):
                ps = [base]
                for k, g in enumerate(sel):
                    c, s_ = ((1., 0.), (0., 1.), (-.6, .8))[k]
                    ps.append((base[0] + far * (1 + g) * c,
                               base[1] + far * (1 + g) * s_))
                p = np.array(ps)
                for sight in (far * (1 + 1e-9), far * (1 - 1e-9), 2 * far):
                    idx, cnt, off, shape = cells.add_to_cells(p, sight)
                    for num in (1, 2):
                        got = M.find_nearest_neighbors(
                            p, sight, num, np.arange(len(cnt)),
                            cells.neighboring_cells(shape), idx, cnt, off,
                            walls_array([]))
                        rec.trace()
                        rec.step(n)
                        rec.state((ps[0], far, sel, sight, num))
                        check_neighbors(rec, got, ps, [], sight, num,
                                        points=ps, within=sight, most=num)
    elif kind == 'crowd':
        n = case['n']
        side = 1.5 * math.sqrt(n)
        for mul, wall in itertools.product((1, 2), WALLS[:4]):
            ps = [(side * (k * .618034 * mul % 1), side * (k + .5) / n)
                  for k in range(n)]
            wall = [tuple((x + side / 2, y + side / 2) for x, y in w)
                    for w in wall]
            arr = walls_array(wall)
            p = np.array(ps)
            vs = [VEL[(k * mul + k // 5) % len(VEL)] for k in range(n)]
            mask = [k % 7 != 3 for k in range(n)]
            for sight, num in ((1.25, 3), (3.0, 8), (3.0, 40), (10.0, 15)):
                idx, cnt, off, shape = cells.add_to_cells(p, sight)
                got = M.find_nearest_neighbors(
                    p, sight, num, np.arange(len(cnt)),
                    cells.neighboring_cells(shape), idx, cnt, off, arr)
                rec.trace()
                rec.step(n)
                rec.state((n, mul, str(wall), sight, num))
                check_neighbors(rec, got, ps, wall, sight, num, n=n, mul=mul,
                                wall=wall, within=sight, most=num)
                new, has = M.herding_interaction(
                    np.array(mask), p, np.array(vs), got, .15, PHI[1])
                for k, w in enumerate(herd(mask, ps, vs, got.tolist(), .15,
                                           PHI[1], True)):
                    if w == 'unclear':
                        continue
                    rec.check(bool(has[k]) == (w is not None) and
                              vclose(new[k], w or (0., 0.)), 'herd',
                              'direction of herding agent %d of %d' % (k, n),
                              got=new[k].tolist(), want=w, mul=mul,
                              wall=wall, within=sight, most=num)
    else:
        vels = VEL[1:6]
        a, v = POS[case['a']], vels[case['v']]
        for b, c in itertools.product(POS[:6], repeat=2):
            if len({a, b, c}) < 3:
                continue
            for vb, vc in itertools.product(vels[:4] + [(0., 0.)], repeat=2):
                ps, vs = [a, b, c], [v, vb, vc]
                for nb in ([[1, 2], [2, 0], [-1, -1]],
                           [[-1, 2], [-1, -1], [1, 0]]):
                    for mask, phi, w in (((1, 1, 1), PHI[1], .15),
                                         ((1, 0, 1), PHI[0], 1.0),
                                         ((0, 1, 1), PHI[1], 0.0)):
                        try:
                            want = herd(mask, ps, vs, nb, w, phi)
                        except Unclear:
                            continue
                        got, has = M.herding_interaction(
                            np.array(mask, dtype=bool), np.array(ps),
                            np.array(vs), np.array(nb), w, phi)
                        rec.trace()
                        rec.state((tuple(ps), tuple(vs), mask, str(nb)))
                        d = dict(pos=ps, vel=vs, neighbors=nb, mask=mask,
                                 phi=phi, weight=w)
                        for k in range(3):
                            rec.check(bool(has[k]) == (want[k] is not None),
                                      'herd-flag', 'agent %d follows others'
                                      % k, got=bool(has[k]), **d)
                            rec.check(vclose(got[k], want[k] or (0., 0.)),
                                      'herd', 'direction of herding agent %d'
                                      % k, got=got[k].tolist(), want=want[k],
                                      **d)


def herd(mask, ps, vs, nb, weight, phi, lenient=False):
    out = []
    for i in range(len(ps)):
        try:
            out.append(herd_one(i, mask, ps, vs, nb, weight, phi))
        except Unclear:
            if not lenient:
                raise
            out.append('unclear')
    return out


def herd_one(i, mask, ps, vs, nb, weight, phi):
    if not mask[i]:
        return None
    away = [j for j in nb[i] if j != -1 and
            heading(ps[i], ps[j], vs[i], vs[j], phi)[0]]
    if not away:
        return None
    mp = [sum(ps[j][k] for j in away) / len(away) - ps[i][k] for k in (0, 1)]
    mv = [sum(vs[j][k] for j in away) for k in (0, 1)]
    for q in (mp, mv):
        if 0 < math.hypot(*q) < 1e-9:
            raise Unclear
    mp, mv = norm(mp), norm(mv)
    s = [weight * mp[k] + (1 - weight) * mv[k] for k in (0, 1)]
    if math.hypot(*s) < 1e-6:
        raise Unclear
    return norm(s)
