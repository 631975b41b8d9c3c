"""C15: social force is the repulsion from the first predicted contact.

Explored: every pair of agents over grids of relative positions, velocities,
radii, orientations, masses and horizons.  Oracle: the first moment any two
parts touch, computed on plain numbers, and the documented gradient of the
interaction energy; checked against finite differences of that energy."""
import itertools
import math

from mc.num import close, vclose

LEVEL = 'model_checking'
BOUNDS = {
    'quick': '19 relative positions x 17 relative velocities x 5 radius pairs '
             '(circular); x 5 x 5 orientations x 2 sizes (three-circle); both '
             'orders of every pair, next to a third agent; potential and '
             'magnitude: 12 x 4 grid',
    'thorough': '8 x 8 orientations x 3 sizes, 31 relative positions'}
ASSUMPTIONS = ['relative velocities that graze (tangent within 1e-6) or '
               'contacts predicted simultaneously by different parts may '
               'be judged either way',
               'when two three-circle bodies overlap already, the part that '
               'touches next is the one with the smallest positive time']

F_MAX = 2e3


def setup():
    global np, P, A, alloc
    import numpy as np
    from crowddynamics.core.motion import power_law as P
    from crowddynamics.simulation import agents as A


XREL = [(1., 0.), (-2., 0.), (0., 1.5), (.75, .75), (-1., .25), (5., -3.),
        (20., 0.), (.3, .2), (0., 0.), (-.5, -.55), (2.9, .1), (-60., 0.),
        (.62, 0.), (0., -.8), (1.2, -.6), (-.25, 2.),
        (.5, 0.), (0., -.5), (.3, .4)]     # touching exactly
XREL_T = XREL + [(.9, .05), (-.7, .1), (.1, .9), (-.1, -1.), (3., 3.),
                 (-1.5, -.02), (.55, -.2), (.4, .7), (-.45, .45), (8., 1.),
                 (-.8, -.8), (.5, .1)]
VREL = [(0., 0.), (-1., 0.), (1., 0.), (0., -1.), (0., 1.), (-1., -1.),
        (1., -.25), (-.5, .3), (2., -2.), (-1., .05), (-.01, 0.), (5., 4.),
        (-3., -1.), (.8, 1.1), (.1, -.9), (-.3, -1.4), (1.9, .2)]
RAD = [(.25, .25), (.2, .3), (.01, .02), (.5, .1), (.3, .3)]
PHI = [0.0, 1.2, math.pi / 2, -2.5, 3.0]
PHI_T = PHI + [-.7, -1.6, 2.2]
# r_t, r_s, r_ts
SIZES = [(.16, .10, .16), (.12, .2, .2), (.17, .11, .18)]


def cases(tier):
    t = tier == 'thorough'
    out = [{'kind': 'energy'}] + [{'kind': 'horizon', 'three': k}
                                  for k in (0, 1)]
    for x in range(len(XREL_T if t else XREL)):
        out.append({'kind': 'circ', 'x': x})
        for p in range(len(PHI_T if t else PHI)):
            for s in range(3 if t else 2):
                out.append({'kind': 'three', 'x': x, 'p': p, 's': s, 't': t})
    return out


def tau_of(x, v, r):
    """Time until two circles touch, and how far from grazing it is."""
    a = v[0] ** 2 + v[1] ** 2
    b = -(x[0] * v[0] + x[1] * v[1])
    c = x[0] ** 2 + x[1] ** 2 - r * r
    disc = b * b - a * c
    if a == 0:
        return None, 1.0
    scale = b * b + abs(a * c) + 1e-300
    if disc <= 0:
        return None, abs(disc) / scale
    d = math.sqrt(disc)
    return (b - d) / a, min(abs(disc), abs(b - d) ** 2) / scale


def mag(tau, t0):
    return (2 / tau + 1 / t0) * math.exp(-tau / t0) / tau ** 2


def grad_of(x, v, r):
    a = v[0] ** 2 + v[1] ** 2
    b = -(x[0] * v[0] + x[1] * v[1])
    c = x[0] ** 2 + x[1] ** 2 - r * r
    d = math.sqrt(b * b - a * c)
    return [(v[k] - (v[k] * b + x[k] * a) / d) / a for k in (0, 1)]


def force(m, k, t0, tau, grad):
    f = [-m * k * g * mag(tau, t0) for g in grad]
    l = math.hypot(*f)
    return [c * F_MAX / l for c in f] if l > F_MAX else f


PARAMS = [(70., 1.5, 3.0), (50., 2.0, 1.0)]


def fill(dtype, xs, vs, extra):
    n = len(xs)
    a = np.zeros(n, dtype=dtype)
    for i in range(n):
        a['position'][i], a['velocity'][i] = xs[i], vs[i]
        a['mass'][i], a['k_soc'][i], a['tau_0'][i] = PARAMS[i % 2]
        for name, val in extra[i].items():
            a[name][i] = val
    return a


def pair(rec, fn, a, i, j, want, detail, key):
    before = a.tobytes()
    fi, fj = fn(a, i, j)
    rec.trace()
    rec.check(a.tobytes() == before, 'pure', 'the agents were changed',
              **detail)
    ok = any(vclose(fi, w[0], 1e-6, 1e-6) and vclose(fj, w[1], 1e-6, 1e-6)
             for w in want)
    rec.check(ok, key, 'social force', got=[fi.tolist(), fj.tolist()],
              want=want, **detail)
    rec.check(math.hypot(*fi) <= F_MAX * (1 + 1e-9) and
              math.hypot(*fj) <= F_MAX * (1 + 1e-9), key + '-max',
              'social force larger than allowed', **detail)


def bounded(rec, fn, a, i, j, detail, key):
    """Grazing or touching exactly: no force or some force, but a number."""
    rec.trace()
    with np.errstate(all='ignore'):
        for f in fn(a, i, j):
            rec.check(bool(np.all(np.isfinite(f))) and
                      math.hypot(*f) <= F_MAX * (1 + 1e-9), key + '-max',
                      'social force which is no number or larger than '
                      'allowed', got=[float(c) for c in f], **detail)


def horizon(rec, three):
    """Contacts far in the future, and agents that look far ahead."""
    fn = P.force_social_three_circle if three else P.force_social_circular
    dtype = A.agent_type_three_circle if three else A.agent_type_circular
    taus = (.05, .3, 1., 4., 9., 11., 14., 16., 19., 21., 24., 26., 29., 29.9,
            30.1, 31., 45.)
    for tau0, want_tau, side, speed in itertools.product(
            ((30., 12.), (8., 60.), (3., 3.)), taus, (0., .1, -.3),
            (.5, 1.25)):
        for w in (0., 1., -2.5):
            c, s = math.cos(w), math.sin(w)
            along = math.sqrt(.5 ** 2 - side ** 2) + speed * want_tau
            # torsos of radius .25 towards each other, the shoulders inside
            x = (c * along - s * side, s * along + c * side)
            v = (-c * speed, -s * speed)
            xs, vs = [(x[0] + 1., x[1]), (1., 0.)], [v, (0., 0.)]
            extra = [{'tau_0': tau0[0], 'radius': .25},
                     {'tau_0': tau0[1], 'radius': .25}]
            if three:
                for k in (0, 1):
                    extra[k].update(r_t=.25, r_s=.05, r_ts=.1, orientation=w)
            a = fill(dtype, xs, vs, extra)
            if three:
                A.shoulders(a)
            tau, _ = tau_of(x, v, .5)
            g = grad_of(x, v, .5)
            rec.state((three, tau0, want_tau, side, speed, w))
            pars = [PARAMS[k][:2] + (tau0[k],) for k in (0, 1)]
            want = [(force(*pars[0], tau, g),
                     force(*pars[1], tau, [-e for e in g]))]
            if tau > 30.:
                # too far ahead to be considered
                zero = [((0., 0.), (0., 0.))]
                want = want + zero if three else zero
            d = {'tau': tau, 'tau_0': tau0, 'side': side, 'speed': speed}
            pair(rec, fn, a, 0, 1, want, d, 'horizon')
            pair(rec, fn, a, 1, 0, [(q[1], q[0]) for q in want], d,
                 'horizon-swapped')


def run_case(case, rec):
    kind = case['kind']
    if kind == 'energy':
        for tau in (.01, .1, .5, 1., 1.5, 2., 3., 5., 10., 29., 30., 31.):
            for t0 in (.5, 1., 3., 10.):
                rec.state((tau, t0))
                rec.trace()
                e = P.potential(1.5, tau, t0)
                rec.check(close(e, 1.5 / tau ** 2 * math.exp(-tau / t0)),
                          'potential', 'interaction energy', tau=tau, t0=t0,
                          got=float(e))
                m = P.magnitude(tau, t0)
                rec.check(close(m, mag(tau, t0)), 'magnitude',
                          'magnitude of the force', tau=tau, t0=t0,
                          got=float(m))
                h = 1e-4 * tau
                num = -(P.potential(1., tau + h, t0) -
                        P.potential(1., tau - h, t0)) / (2 * h)
                rec.check(close(m, num, 1e-4, 1e-12), 'magnitude-energy',
                          'magnitude is not the slope of the energy',
                          tau=tau, t0=t0, got=float(m), want=float(num))
        return
    if kind == 'circ':
        x = XREL_T[case['x']]
        for v in VREL:
            for r in RAD:
                base = (3.0, -2.0)
                vb = (.5, -.25)
                xs = [(base[0] + x[0], base[1] + x[1]), base, (4., 4.)]
                vs = [(vb[0] + v[0], vb[1] + v[1]), vb, (-1., -1.)]
                a = fill(A.agent_type_circular, xs, vs,
                         [{'radius': r[0]}, {'radius': r[1]}, {'radius': .2}])
                tau, margin = tau_of(x, v, sum(r))
                rec.state((x, v, r))
                d = {'x_rel': x, 'v_rel': v, 'radii': r}
                got = P.time_to_collision_circle_circle(
                    np.array(x), np.array(v), sum(r))
                if margin < 1e-6 and tau is not None:
                    for i, j in ((0, 1), (1, 0)):
                        bounded(rec, P.force_social_circular, a, i, j, d,
                                'circular')
                    continue
                zero = tau is None or tau <= 0
                if zero:
                    rec.check(got[0] != got[0] and got[1].tolist() == [0, 0],
                              'tau', 'time to collision of circles that do '
                              'not collide', got=[float(got[0])], **d)
                else:
                    g = grad_of(x, v, sum(r))
                    rec.check(close(got[0], tau, 1e-7) and
                              vclose(got[1], g, 1e-6, 1e-6), 'tau',
                              'time to collision', want=[tau, g],
                              got=[float(got[0]), got[1].tolist()], **d)
                if zero or tau > 30.0:
                    want = [((0., 0.), (0., 0.))]
                else:
                    fi = force(*PARAMS[0], tau, g)
                    fj = force(*PARAMS[1], tau, [-c for c in g])
                    want = [(fi, fj)]
                if tau is not None and abs(tau - 30.0) < 1e-9:
                    continue
                pair(rec, P.force_social_circular, a, 0, 1, want, d, 'circular')
                swapped = [(w[1], w[0]) for w in want]
                pair(rec, P.force_social_circular, a, 1, 0, swapped, d,
                     'circular-swapped')
        return
    if kind == 'horizon':
        horizon(rec, case['three'])
        return
    t = case['t']
    x = XREL_T[case['x']]
    phi0 = PHI_T[case['p']]
    size = SIZES[case['s']]
    for phi1 in (PHI_T if t else PHI):
        for v in VREL:
            base, vb = (3.0, -2.0), (.5, -.25)
            xs = [(base[0] + x[0], base[1] + x[1]), base]
            vs = [(vb[0] + v[0], vb[1] + v[1]), vb]
            other = SIZES[0]
            extra, circles = [], []
            for pos, phi, (rt, rs, ts) in ((xs[0], phi0, size),
                                           (xs[1], phi1, other)):
                off = (math.sin(phi) * ts, -math.cos(phi) * ts)
                ls = (pos[0] - off[0], pos[1] - off[1])
                rs_ = (pos[0] + off[0], pos[1] + off[1])
                extra.append({'orientation': phi, 'r_t': rt, 'r_s': rs,
                              'r_ts': ts, 'position_ls': ls,
                              'position_rs': rs_})
                circles.append([(pos, rt), (ls, rs), (rs_, rs)])
            a = fill(A.agent_type_three_circle, xs, vs, extra)
            d = {'x_rel': x, 'v_rel': v, 'phi': [phi0, phi1], 'size': size}
            rec.state((x, v, phi0, phi1, size))
            taus, skip = [], False
            for (p, r), (q, s) in itertools.product(*circles):
                xr = (p[0] - q[0], p[1] - q[1])
                tau, margin = tau_of(xr, v, r + s)
                if margin < 1e-9:
                    skip = True
                if tau is not None and tau > 0:
                    taus.append((tau, xr, r + s))
            if skip:
                for i, j in ((0, 1), (1, 0)):
                    bounded(rec, P.force_social_three_circle, a, i, j, d,
                            'three')
                continue
            taus.sort()
            if not taus:
                want = [((0., 0.), (0., 0.))]
            else:
                want = []
                for tau, xr, r in taus:
                    if tau <= taus[0][0] + 1e-7:
                        g = grad_of(xr, v, r)
                        want.append((force(*PARAMS[0], tau, g),
                                     force(*PARAMS[1], tau, [-c for c in g])))
            pair(rec, P.force_social_three_circle, a, 0, 1, want, d, 'three')
            pair(rec, P.force_social_three_circle, a, 1, 0,
                 [(w[1], w[0]) for w in want], d, 'three-swapped')
