"""C11: one integration step moves every agent by the scheme's formula with a
step inside the given bounds.

Explored: every sequence of forces (and torques) up to the depth from a grid
of states, for both integrators and both agent types, alone and next to other
agents.  Oracle: the recurrences restated on plain numbers."""
import itertools
import math

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'force/torque sequences of length 3 over 5 values from 12 '
             'initial states; all pairs/triples of agents; step bounds: 9 '
             'speeds x 5 target speeds x 6 bound pairs, alone and mixed',
    'thorough': 'sequences of length 5'}
ASSUMPTIONS = ['tolerance 1e-9 relative', 'positive masses']


def setup():
    global np, A, integ
    import numpy as np
    from crowddynamics.simulation import agents as A
    from crowddynamics.core import integrator as integ


FORCES = [(0., 0.), (70., -140.), (-3.5, 0.), (0., 1e4), (-2e3, 7.)]
TORQUES = [0., 4., -400., 1e3, .1]
STATES = [((0., 0.), (0., 0.)), ((1., -2.), (1.25, 0.)), ((1e3, .1), (0., -3.)),
          ((-5., 5.), (.3, .4))]
ROT = [(0., 0.), (3., 5.), (-math.pi, -30.)]


def cases(tier):
    n = 5 if tier == 'thorough' else 3
    out = []
    for typ in ('circular', 'three_circle'):
        for i in ('verlet', 'euler', 'init'):
            for s in range(len(STATES)):
                for r in range(len(ROT) if typ == 'three_circle' else 1):
                    out.append({'kind': 'seq', 'type': typ, 'integ': i,
                                'state': s, 'rot': r, 'n': n})
            for size in (1, 2, 3):
                out.append({'kind': 'many', 'type': typ, 'integ': i,
                            'size': size})
        out.append({'kind': 'dt', 'type': typ})
        out.append({'kind': 'empty', 'type': typ})
    return out


def build(typ, states, mass=70., vel0=1.25):
    cls = A.Circular if typ == 'circular' else A.ThreeCircle
    arr = np.zeros(len(states), dtype=cls.dtype())
    for k, (x, v, phi, om) in enumerate(states):
        a = arr[k]
        a['active'] = True
        a['position'][:] = x
        a['velocity'][:] = v
        a['mass'] = mass + 5 * k
        a['radius'] = .25
        a['target_velocity'] = vel0
        a['tau_adj'] = .5
        if typ == 'three_circle':
            a['inertia_rot'] = 4. + k
            a['r_ts'] = .2
            a['orientation'] = phi
            a['angular_velocity'] = om
    if typ == 'three_circle':
        A.shoulders(arr)
    return arr


def wrap(x):
    return math.atan2(math.sin(x), math.cos(x))


class Body:
    def __init__(self, x, v, m):
        self.x, self.v, self.m = list(x), list(v), m
        self.fp = [0.] * len(x)

    def verlet(self, f, dt):
        for i in range(len(self.x)):
            a0, a1 = self.fp[i] / self.m, f[i] / self.m
            self.v[i] += (a0 + a1) / 2 * dt
            self.x[i] += self.v[i] * dt + a1 / 2 * dt * dt
            self.fp[i] = f[i]

    def euler(self, f, dt, keep=True):
        for i in range(len(self.x)):
            a = f[i] / self.m
            self.x[i] += self.v[i] * dt + a / 2 * dt * dt
            self.v[i] += a * dt


def near(a, b):
    return abs(a - b) <= 1e-9 * (1 + abs(b))


UNTOUCHED = ['active', 'mass', 'radius', 'target_velocity', 'target', 'force',
             'target_direction', 'tau_adj']


def step(kind, arr, lo, hi):
    f = {'verlet': integ.velocity_verlet_integrator,
         'euler': integ.euler_integrator,
         'init': integ.velocity_verlet_integrator_init}[kind]
    return f(arr, lo, hi)


def run(rec, case, arr, forces, torques, lo, hi, tag):
    """Runs one sequence on the real code and on the bodies; compares."""
    three = case['type'] == 'three_circle'
    bodies = [Body(a['position'], a['velocity'], float(a['mass'])) for a in arr]
    rots = [Body([a['orientation']], [a['angular_velocity']],
                 float(a['inertia_rot'])) for a in arr] if three else []
    for n, (f, t) in enumerate(zip(forces, torques)):
        for k in range(len(arr)):
            arr['force'][k] = f[k]
            if three:
                arr['torque'][k] = t[k]
        before = arr.copy()
        # the first step of a Verlet run may be the initialising one
        kind = case['integ'] if case['integ'] != 'init' else \
            ('init' if n == 0 else 'verlet')
        dt = step(kind, arr, lo, hi)
        rec.step()
        if not lo <= dt <= hi:
            rec.fail('bounds', 'step %r outside [%r, %r] (%s)' % (
                dt, lo, hi, tag))
            return False
        for k, b in enumerate(bodies):
            if kind == 'verlet':
                b.verlet(f[k], dt)
            else:
                b.euler(f[k], dt)
                if kind == 'init':
                    b.fp = list(f[k])
            got = list(arr['position'][k]) + list(arr['velocity'][k])
            want = b.x + b.v
            if not all(map(near, got, want)):
                rec.fail('translation', 'step %d, agent %d: %r, expected %r '
                         '(%s, %s)' % (n, k, got, want, kind, tag))
                return False
            if three:
                r = rots[k]
                if kind == 'verlet':
                    r.verlet([t[k]], dt)
                else:
                    r.euler([t[k]], dt)
                    if kind == 'init':
                        r.fp = [t[k]]
                phi = float(arr['orientation'][k])
                if abs(wrap(phi - r.x[0])) > 1e-7 or \
                        not near(float(arr['angular_velocity'][k]), r.v[0]):
                    rec.fail('rotation', 'step %d, agent %d: %r, expected %r '
                             '(%s, %s)' % (n, k, (phi, float(
                                 arr['angular_velocity'][k])),
                                 (wrap(r.x[0]), r.v[0]), kind, tag))
                    return False
                if not -math.pi <= phi <= math.pi:
                    rec.fail('range', 'orientation %r (%s)' % (phi, tag))
                    return False
                r.x = [phi]
            if kind != 'euler' and (
                    tuple(arr['force_prev'][k]) != tuple(f[k])):
                rec.fail('previous', 'previous force not kept (%s)' % tag)
                return False
        for name in UNTOUCHED:
            if (arr[name] != before[name]).any():
                rec.fail('untouched', '%s changed (%s)' % (name, tag))
                return False
    return True


def run_case(case, rec):
    if case['kind'] == 'seq':
        x, v = STATES[case['state']]
        phi, om = ROT[case['rot']]
        for seq in itertools.product(range(5), repeat=case['n']):
            for lo, hi in ((.01, .01), (.001, .1)):
                if lo != hi and sum(seq) % 3:
                    continue
                arr = build(case['type'], [(x, v, phi, om)])
                if not run(rec, case, arr, [[FORCES[k]] for k in seq],
                           [[TORQUES[(k + 2) % 5]] for k in seq], lo, hi,
                           'forces %r' % (seq,)):
                    return
                rec.state((case['type'], case['integ'], case['state'],
                           case['rot'], seq, lo))
                rec.trace()
        rec.sample({'state': STATES[case['state']], 'sequence': seq})
    elif case['kind'] == 'many':
        for idx in itertools.product(range(len(STATES)), repeat=case['size']):
            for rot in range(3):
                st = [STATES[i] + ROT[(rot + i) % 3] for i in idx]
                arr = build(case['type'], st)
                n = len(idx)
                arr['active'] = [(k + rot) % 2 == 0 for k in range(n)]
                fs = [[FORCES[(s + k) % 5] for k in range(n)] for s in (1, 3)]
                ts = [[TORQUES[(s + k) % 5] for k in range(n)] for s in (1, 3)]
                if not run(rec, case, arr, fs, ts, .01, .01, 'agents %r' % (
                        idx,)):
                    return
                rec.state((case['type'], case['integ'], idx, rot))
                rec.trace()
    elif case['kind'] == 'dt':
        speeds = [0., 1e-12, .5, 1.25, 1.375, 1.376, 3., 12.5, 1e3]
        for k, (v, v0, (lo, hi), ang) in enumerate(itertools.product(
                speeds, [0., .5, 1.25, 2., 5.],
                [(.01, .01), (.001, .1), (0., .1), (.001, .001), (.0001, 1.),
                 (.05, .1)], (0., 2.2))):
            for extra in (None, 0., 2.5):
                st = [((0., 0.), (v * math.cos(ang), v * math.sin(ang)), 0., 0.)]
                if extra is not None:
                    st.append(((5., 5.), (0., extra), 0., 0.))
                arr = build(case['type'], st, vel0=v0)
                if extra is not None:
                    arr['target_velocity'][1] = .75 * v0
                    # activity plays no role
                    arr['active'] = [k % 3 != 0, k % 2 != 0]
                vmax = max(v, extra or 0.)
                if vmax == 0:
                    want = hi
                else:
                    want = min(max(1.1 * v0 * hi / vmax, lo), hi)
                got = integ.adaptive_timestep(arr, lo, hi)
                rec.step()
                if not lo <= got <= hi or not near(got, want):
                    rec.fail('timestep', 'speed %g, target speed %g, bounds '
                             '%r: step %r, expected %r' % (
                                 vmax, v0, (lo, hi), got, want))
                    return
                if (arr['position'][0] != 0).any():
                    rec.fail('timestep', 'moved an agent')
                rec.state((case['type'], v, v0, lo, hi, ang, extra))
                rec.trace()
    elif case['kind'] == 'empty':
        for i in ('verlet', 'euler', 'init'):
            arr = build(case['type'], [])
            dt = step(i, arr, .01, .02)
            rec.check(.01 <= dt <= .02 and len(arr) == 0, 'empty', repr(dt))
            rec.state((case['type'], i))
            rec.trace()
