"""C29: estimates of the evacuation: capacity of exits and order of agents.

Explored: every combination of widths on a fine grid, every arrangement of up
to 5 agents on a grid and every door.  Oracle: exact rational arithmetic."""
import itertools
import math
from fractions import Fraction as F

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'doors 0..3 m in steps of 1/32 m and of 0.05 m x 6 sizes of '
             'agents x 6 layers (and none) x 4 coefficients; all arrangements '
             'of up to 4 agents over 9 places x 6 doors, 5 agents over 6; all '
             'pairs on 2 fine grids; crowds of 6 to 69',
    'thorough': 'steps of 1/128 m, up to 5 agents over 9 places'}
ASSUMPTIONS = ['where a width is a whole multiple up to rounding both '
               'neighbouring capacities are accepted; agents equally far '
               'away may be counted in any order']
CASE_TIMEOUT = 800

AGENT = [.5, .45, .25, .6, .375, .51]
LAYER = [None, .45, .25, .5, .3, .125, .6]
COEFF = [1.0, .5, 2.0, 1.75]
PLACES = [(0., 0.), (1., 0.), (0., 1.), (2., 1.5), (-1., .25), (3., -2.),
          (1.5, 1.5), (-.5, -.5), (10., 10.)]
DOORS = [(0., 0.), (1.1, .3), (-5., 2.), (2., 1.5), (.4, .45), (0., -30.)]


def setup():
    global np, E
    import numpy as np
    from crowddynamics.core import evacuation as E


def cases(tier):
    t = tier == 'thorough'
    out = [{'kind': 'capacity', 'a': a, 't': t} for a in range(len(AGENT))]
    for d in range(len(DOORS)):
        for n in (1, 2, 3, 4):
            out.append({'kind': 'order', 'd': d, 'n': n, 'm': 9})
        out.append({'kind': 'order', 'd': d, 'n': 5, 'm': 9 if t else 6})
    out += [{'kind': 'pairs', 'k': k} for k in range(2)]
    out += [{'kind': 'crowd', 'n': 200 if t else 70}]
    return out


def run_case(case, rec):
    globals()['run_' + case['kind']](case, rec)


def floors(q, exact=False):
    """Whole numbers which a quotient may be rounded down to."""
    out = {math.floor(q)}
    if exact:
        return out
    near = round(q)
    if abs(q - near) < F(1, 10 ** 9):
        out |= {near, near - 1}
    return out


def run_capacity(case, rec):
    a = AGENT[case['a']]
    n = 128 if case['t'] else 32
    doors = sorted({k / n for k in range(3 * n + 1)} |
                   {round(.05 * k, 10) for k in range(61)} |
                   {a, 2 * a, 3 * a})
    for layer in LAYER:
        for c in COEFF:
            last = 0.0
            for door in doors:
                got = E.narrow_exit_capacity(door, a, layer, c)
                if layer is None and c == 1.0:
                    other = E.narrow_exit_capacity(door, a)
                    rec.check(other == got, 'defaults', 'defaults of the '
                              'capacity', got=other, want=got)
                rec.step()
                rec.state((door, a, layer, c))
                if door < a:
                    want = {0}
                elif layer is None:
                    q = F(door) / F(a)
                    # a quotient which is a whole number is exact
                    want = floors(q, q == math.floor(q))
                else:
                    want = floors((F(door) - (F(a) - F(layer))) / F(layer),
                                  all(v * 1024 == int(v * 1024)
                                      for v in (door, a, layer)))
                d = dict(door=door, agent=a, layer=layer, coeff=c, got=got)
                rec.check(any(abs(got - c * w) < 1e-12 for w in want),
                          'capacity', 'capacity of the exit',
                          want=[c * w for w in want], **d)
                rec.check(got >= last - 1e-12 or len(want) > 1, 'steps',
                          'a wider exit has less capacity', before=last, **d)
                last = got
                rec.trace()
            if layer == a:
                for door in doors:
                    x = E.narrow_exit_capacity(door, a, layer, c)
                    y = E.narrow_exit_capacity(door, a, None, c)
                    rec.check(abs(x - y) <= (c if len(floors(F(door) / F(a)))
                                             > 1 else 1e-12), 'agree',
                              'the estimates do not agree', door=door,
                              agent=a, got=(x, y))


def run_order(case, rec):
    door = DOORS[case['d']]
    for sel in itertools.product(range(case['m']), repeat=case['n']):
        check_order(rec, door, [PLACES[k] for k in sel])


def check_order(rec, door, pts):
    arr = np.array(pts)
    before = arr.copy()
    c = np.array(door)
    got = [int(v) for v in E.agent_closer_to_exit(c, arr)]
    rec.state((door, tuple(pts)))
    rec.trace()
    d2 = [(F(x) - F(door[0])) ** 2 + (F(y) - F(door[1])) ** 2 for x, y in pts]
    d = dict(door=door, positions=pts, got=got)
    rec.check(sorted(got) == list(range(len(pts))), 'permutation',
              'the agents are not numbered once each', **d)
    for i in range(len(pts)):
        rec.step()
        lo = sum(1 for v in d2 if v < d2[i] * (1 - F(1, 10 ** 12)))
        hi = sum(1 for v in d2 if v <= d2[i] * (1 + F(1, 10 ** 12))) - 1
        rec.check(lo <= got[i] <= hi, 'order', 'number of agents closer to '
                  'the exit', agent=i, want=(lo, hi), **d)
    rec.check((arr == before).all() and tuple(c) == door, 'pure',
              'the positions were changed')


def run_crowd(case, rec):
    """All sizes of a crowd."""
    for door in DOORS[:2]:
        for n in range(6, case['n']):
            check_order(rec, door, [
                (.37 * (7 * k % 23) - 3 + .013 * k, .41 * (5 * k % 19) - 2.9)
                for k in range(n)])


def run_pairs(case, rec):
    step = (.25, 1e-3)[case['k']]
    grid = [(i * step, j * step) for i in range(5) for j in range(5)]
    for door in DOORS[:2] + [(2 * step, 2 * step)]:
        for a in grid:
            for b in grid:
                check_order(rec, door, [a, b])
