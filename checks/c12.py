"""C12: contact, driving and fluctuation forces.

Explored: every combination of arguments from the grids, one agent at a time
and all mixes in one array (twice, to see that forces add up); for the random
parts every combination of angle and magnitude draws.  Oracle: the documented
formulas on plain numbers."""
import itertools
import math

from mc.num import close, vclose

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'contact: 5 distances x 5 normals x 7 velocities x 8 parameter '
             'sets; driving: 3 masses x 3 times x 4 speeds x 5 directions x 5 '
             'velocities; torque: 13 x 13 angles x 4 x 4 angular velocities; '
             'arrays of 1-3 of 8 agents; fluctuation: 8 angles x 5 draws per '
             'agent, 1-2 agents',
    'thorough': '33 x 33 angles, arrays of 1-4 agents'}
ASSUMPTIONS = ['the source of random numbers is replaced by every enumerated '
               'draw of its range',
               'target orientations differing from the orientation by pi '
               'may be turned to in either direction']


def setup():
    global np, C, J, FL, A, stats
    import numpy as np
    import scipy.stats as stats
    from crowddynamics.core.motion import contact as C
    from crowddynamics.core.motion import adjusting as J
    from crowddynamics.core.motion import fluctuation as FL
    from crowddynamics.simulation import agents as A


H = [-.1, -.001, 0.0, .05, -1.0]
N = [(1., 0.), (0., -1.), (.6, .8), (-.8, .6), (0., 0.)]
VEL = [(0., 0.), (1., 0.), (0., 2.), (-1.5, .5), (.3, -.4), (10., 10.), (-3., 0.)]
PAR = list(itertools.product((1.2e5, 0.0), (4e4, 1.0), (500., 0.0)))
MASS = [1.0, 73.5, 120.0]
TAU = [.5, .2, 1.0]
SPEED = [0.0, 1.0, 1.4, 4.0]
DIR = [(1., 0.), (0., 1.), (-.6, .8), (0., 0.), (.8, -.6)]
OM = [0.0, 1.0, -4.0, 12.0]


def angles(t):
    n = 32 if t else 12
    return [-math.pi + 2 * math.pi * k / n for k in range(n + 1)]


def cases(tier):
    t = tier == 'thorough'
    out = [{'kind': 'contact', 'h': h} for h in H]
    out += [{'kind': 'adjust', 'm': m, 'tau': tau} for m in MASS for tau in TAU]
    out += [{'kind': 'torque', 'om': om, 't': t} for om in OM]
    for n in range(1, 5 if t else 4):
        for first in range(8):
            out.append({'kind': 'arrays', 'n': n, 'first': first})
    out += [{'kind': 'fluct', 'n': n, 'k': k} for n in (1, 2) for k in range(8)]
    out += [{'kind': 'fluct_torque', 'n': n} for n in (1, 2)]
    return out


def model_contact(h, n, v, t, mu, kappa, c):
    vt = v[0] * t[0] + v[1] * t[1]
    vn = v[0] * n[0] + v[1] * n[1]
    return [-h * (mu * n[k] - kappa * vt * t[k]) + c * vn * n[k] for k in (0, 1)]


def model_torque(i, tau, p0, p, o0, o):
    """The acceptable torques."""
    d = (p0 - p) % (2 * math.pi)
    ds = [d] if d <= math.pi - 1e-9 else [d - 2 * math.pi] \
        if d > math.pi + 1e-9 else [d, d - 2 * math.pi]
    if d > 2 * math.pi - 1e-9:
        ds = [0.0, d - 2 * math.pi]
    return [i / tau * (x / math.pi * o0 - o) for x in ds]


AGENTS = [
    # mass, tau_adj, v0, e0, v, inertia, tau_rot, phi0, phi, om0, om
    (70., .5, 1.2, (1., 0.), (0., 0.), 4.0, .2, 0.0, 0.0, 12., 0.0),
    (50., .5, 0.0, (0., 1.), (1., 1.), 3.0, .2, 1.0, -1.0, 12., .5),
    (90., .25, 4., (-.6, .8), (-2., .1), 5.0, .4, -3.0, 3.0, 6., -2.),
    (73.5, 1., 1.4, (.8, -.6), (.8, -.6), 4.5, 1., 2.0, .5, 0., 3.),
    (1., .5, 1., (0., 0.), (5., -5.), .1, .2, -1.5, 2.5, 4., 0.0),
    (70., .5, 1.2, (0., -1.), (0., 3.), 4.0, .2, .1, .1, 12., -9.),
    (60., .5, 1.3, (-1., 0.), (-1.3, 0.), 2.0, .5, 3.1, -3.1, 12., 1.),
    (99., .1, 2., (.6, .8), (0., -1.), 9.0, .2, -.7, 1.7, 1., 4.)]


def fill(dtype, sel, start):
    a = np.zeros(len(sel), dtype=dtype)
    for k, s in enumerate(sel):
        m, tau, v0, e0, v, i, tr, p0, p, o0, o = AGENTS[s]
        a['mass'][k], a['tau_adj'][k], a['target_velocity'][k] = m, tau, v0
        a['target_direction'][k], a['velocity'][k] = e0, v
        a['position'][k] = (k, -k)
        a['force'][k] = start
        if 'torque' in dtype.names:
            a['inertia_rot'][k], a['tau_rot'][k] = i, tr
            a['target_orientation'][k], a['orientation'][k] = p0, p
            a['target_angular_velocity'][k], a['angular_velocity'][k] = o0, o
            a['torque'][k] = start
    return a


def run_case(case, rec):
    kind = case['kind']
    if kind == 'contact':
        h = case['h']
        for n, v, par in itertools.product(N, VEL, PAR):
            for t in ((n[1], -n[0]), (1., 0.)):
                args = [np.array(q) for q in (n, v, t)]
                got = C.force_contact(h, args[0], args[1], args[2], *par)
                want = model_contact(h, n, v, t, *par)
                rec.state((h, n, v, par, t))
                rec.trace()
                rec.check(vclose(got, want, 1e-9, 1e-7), 'contact',
                          'contact force', h=h, n=n, v=v, t=t, par=par,
                          got=got.tolist(), want=want)
                rec.check([list(q) for q in (n, v, t)] ==
                          [q.tolist() for q in args], 'pure',
                          'an argument was changed')
    elif kind == 'adjust':
        m, tau = case['m'], case['tau']
        for v0, e0, v in itertools.product(SPEED, DIR, VEL):
            a, b = np.array(e0), np.array(v)
            got = J.force_adjust(m, tau, v0, a, b)
            want = [m / tau * (v0 * e0[k] - v[k]) for k in (0, 1)]
            rec.state((m, tau, v0, e0, v))
            rec.trace()
            rec.check(vclose(got, want), 'adjust', 'driving force', m=m,
                      tau=tau, v0=v0, e0=e0, v=v, got=got.tolist(), want=want)
            rec.check(a.tolist() == list(e0) and b.tolist() == list(v), 'pure',
                      'an argument was changed')
    elif kind == 'torque':
        om = case['om']
        for p0, p in itertools.product(angles(case['t']), repeat=2):
            for o0 in OM:
                got = J.torque_adjust(4.0, .2, p0, p, o0, om)
                want = model_torque(4.0, .2, p0, p, o0, om)
                rec.state((p0, p, o0, om))
                rec.trace()
                rec.check(any(close(got, w, 1e-9, 1e-6) for w in want),
                          'torque', 'driving torque', phi_0=p0, phi=p,
                          omega_0=o0, omega=om, got=float(got), want=want)
    elif kind == 'arrays':
        for rest in itertools.combinations(range(8), case['n'] - 1):
            sel = (case['first'],) + rest
            for dtype in (A.agent_type_circular, A.agent_type_three_circle):
                a = fill(dtype, sel, .5)
                before = a.copy()
                J.force_adjust_agents(a)
                J.force_adjust_agents(a)
                if 'torque' in dtype.names:
                    J.torque_adjust_agents(a)
                    J.torque_adjust_agents(a)
                rec.state((sel, 'torque' in dtype.names))
                rec.trace()
                rec.step(4)
                for k, s in enumerate(sel):
                    m, tau, v0, e0, v, i, tr, p0, p, o0, o = AGENTS[s]
                    want = [.5 + 2 * m / tau * (v0 * e0[c] - v[c])
                            for c in (0, 1)]
                    rec.check(vclose(a['force'][k], want), 'agents-force',
                              'driving force of agent %d' % k, agents=sel,
                              got=a['force'][k].tolist(), want=want)
                    if 'torque' in dtype.names:
                        want = [.5 + 2 * w for w in
                                model_torque(i, tr, p0, p, o0, o)]
                        rec.check(any(close(a['torque'][k], w) for w in want),
                                  'agents-torque', 'driving torque of agent '
                                  '%d' % k, agents=sel, want=want,
                                  got=float(a['torque'][k]))
                for name in dtype.names:
                    if name not in ('force', 'torque'):
                        rec.check(a[name].tobytes() == before[name].tobytes(),
                                  'agents-pure', '%s was changed' % name,
                                  agents=sel)
    else:
        run_fluct(case, rec)


FR = [0.0, .25, .5, .75, 1.0]
PHI = [0.0, .125, .25, .375, .5, .625, .75, 1.0]
FLA = [(70., .1), (50., .02)]


def run_fluct(case, rec):
    n = case['n']
    mass = np.array([f[0] for f in FLA[:n]])
    scale = np.array([f[1] for f in FLA[:n]])
    calls = []
    box = {}

    def source(start, end, count):
        calls.append((start, end, count))
        return [start + f * (end - start)
                for f in itertools.islice(itertools.cycle(box['f']), count)]

    old_u = np.random.uniform

    def uniform(low=0.0, high=1.0, size=None):
        box['range'] = (low, high)

        def one():
            f = box['u'][box['next'] % n]
            box['next'] += 1
            return f
        if size is None and not np.ndim(low) and not np.ndim(high):
            return low + one() * (high - low)
        count = n if size is None else int(np.prod(size))
        return low + np.array([one() for _ in range(count)]) * (high - low)

    stats.truncnorm.source = source
    np.random.uniform = uniform
    try:
        if case['kind'] == 'fluct':
            for u in itertools.product(PHI, repeat=n):
                if u[0] != PHI[case['k']]:
                    continue
                for f in itertools.product(FR, repeat=n):
                    box['u'], box['f'], box['next'] = u, f, 0
                    got = FL.force_fluctuation(mass, scale)
                    rec.state((u, f))
                    rec.trace()
                    lo, hi, size = calls[-1]
                    rec.check(got.shape == (n, 2), 'fluct-shape',
                              'shape of the fluctuation', got=got.shape)
                    for k in range(n):
                        mag = mass[k] * scale[k] * (lo + f[k] * (hi - lo))
                        rec.check(close(math.hypot(*got[k]), abs(mag), 1e-9,
                                        1e-9), 'fluct-size', 'size of the '
                                  'fluctuation force of agent %d' % k, f=f,
                                  got=got.tolist(), want=mag)
                    if 'range' not in box:
                        continue    # directions drawn in another way
                    rec.check(abs(abs(box['range'][1] - box['range'][0]) -
                                  2 * math.pi) < 1e-9, 'fluct-range',
                              'the direction is not uniform on the circle',
                              got=box['range'])
                    rec.check(max(abs(lo), abs(hi)) == 3.0, 'fluct-trunc',
                              'not truncated at three deviations',
                              got=[lo, hi])
                    for k in range(n):
                        phi = box['range'][0] + u[k] * (
                            box['range'][1] - box['range'][0])
                        mag = mass[k] * scale[k] * (lo + f[k] * (hi - lo))
                        want = [mag * math.cos(phi), mag * math.sin(phi)]
                        rec.check(vclose(got[k], want, 1e-9, 1e-9), 'fluct',
                                  'fluctuation force of agent %d' % k, u=u,
                                  f=f, got=got.tolist(), want=want)
        else:
            for f in itertools.product(FR, repeat=n):
                box['f'] = f
                got = FL.torque_fluctuation(mass, scale)
                rec.state(f)
                rec.trace()
                lo, hi, size = calls[-1]
                rec.check((lo, hi) == (-3.0, 3.0), 'fluct-trunc',
                          'not truncated at three deviations', got=[lo, hi])
                rec.check(got.shape == (n,), 'fluct-shape', 'shape',
                          got=got.shape)
                want = [mass[k] * scale[k] * (lo + f[k] * (hi - lo))
                        for k in range(n)]
                rec.check(vclose(got, want, 1e-9, 1e-9), 'fluct-torque',
                          'fluctuation torque', f=f, got=got.tolist(),
                          want=want)
    finally:
        stats.truncnorm.source = None
        np.random.uniform = old_u
