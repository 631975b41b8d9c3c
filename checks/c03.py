"""C03: the shoulders of a three-circle agent are where its position and
orientation say, at every moment.

Explored: every history of attribute changes on an agent object up to the
depth, and every short history of array operations (placing, integrating,
recomputing) from a grid of states.  Oracle: x -+ r_ts (sin phi, -cos phi)."""
import itertools
import math

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'histories of 4 attribute changes out of 11; arrays of 1-3 '
             'agents over 6 orientations x 4 angular velocities x 3 '
             'integrators x 3 steps',
    'thorough': 'histories of 5 attribute changes'}
ASSUMPTIONS = ['shoulders are not assigned directly',
               'tolerance 1e-9 (relative to coordinates)']


def setup():
    global np, A, integ
    import numpy as np
    from crowddynamics.simulation import agents as A
    from crowddynamics.core import integrator as integ


OPS = [('position', (0., 0.)), ('position', (3.5, -2.)), ('position', (1e3, 7.)),
       ('orientation', 0.0), ('orientation', 1.0), ('orientation', -math.pi),
       ('r_ts', .2), ('r_ts', .05), ('radius', .3), ('ratio_ts', .5),
       ('velocity', (1., 1.))]
PHI = [0.0, .7, math.pi / 2, 3.1, -math.pi, -2.2]
OMEGA = [0.0, 1.0, -4.0, 400.0]


def cases(tier):
    n = 5 if tier == 'thorough' else 4
    out = [{'kind': 'history', 'n': n, 'first': [a, b]}
           for a in range(len(OPS)) for b in range(len(OPS))]
    out += [{'kind': 'construct', 'k': k} for k in range(4)]
    for i in range(3):
        for phi in range(len(PHI)):
            out.append({'kind': 'array', 'integ': i, 'phi': phi})
    return out


def expected(x, phi, r_ts):
    ox, oy = r_ts * math.sin(phi), -r_ts * math.cos(phi)
    return (x[0] - ox, x[1] - oy), (x[0] + ox, x[1] + oy)


def close(a, b):
    return all(abs(p - q) <= 1e-9 * (1 + abs(p)) for p, q in zip(a, b))


def check_object(rec, t, tag):
    ls, rs = expected(t.position, t.orientation, t.r_ts)
    rec.step()
    if not close(t.position_ls, ls) or not close(t.position_rs, rs):
        rec.fail('object', 'shoulders at %r and %r, expected %r and %r (%s)' % (
            list(t.position_ls), list(t.position_rs), ls, rs, tag))
        return False
    arr = np.array(t)
    if not close(arr['position_ls'][0], ls) or \
            not close(arr['position_rs'][0], rs) or \
            not close(arr['position'][0], t.position):
        rec.fail('as-array', 'array form has other shoulders (%s)' % tag)
        return False
    return True


def check_array(rec, arr, tag):
    rec.step()
    for k, a in enumerate(arr):
        ls, rs = expected(a['position'], float(a['orientation']),
                          float(a['r_ts']))
        if not close(a['position_ls'], ls) or not close(a['position_rs'], rs):
            rec.fail('array', 'agent %d: shoulders at %r and %r, expected %r '
                     'and %r (%s)' % (k, a['position_ls'].tolist(),
                                      a['position_rs'].tolist(), ls, rs, tag))
            return False
    return True


def run_case(case, rec):
    kind = case['kind']
    if kind == 'history':
        for n in range(case['n'] - 1):
            for rest in itertools.product(range(len(OPS)), repeat=n):
                if n == 3 and rest[0] == rest[1]:
                    continue
                # reading in between must not freeze anything: both ways
                for read in (0, 1):
                    t = A.ThreeCircle()
                    seq = tuple(case['first']) + rest
                    for k in seq:
                        if read:
                            t.position_ls, t.position_rs
                        setattr(t, *OPS[k])
                    if not check_object(rec, t, 'after %r' % (
                            [OPS[k] for k in seq],)):
                        return
                    rec.state((seq, read))
                    rec.trace()
        rec.sample({'first': [OPS[k] for k in case['first']]})
    elif kind == 'construct':
        bt = ['adult', 'male', 'child', None][case['k']]
        for pos, phi, r in itertools.product((None, (1., 2.)), (None, 1.5, -.5),
                                             (None, .4)):
            kw = {}
            if bt:
                kw['body_type'] = bt
            if pos:
                kw['position'] = pos
            if phi is not None:
                kw['orientation'] = phi
            if r:
                kw['radius'] = r
                if not bt:
                    kw['r_ts'] = .2
            for later in (None, (5., -5.)):
                t = A.ThreeCircle(**kw)
                if not check_object(rec, t, 'built with %r' % kw):
                    return
                if later:
                    t.position = later
                    if not check_object(rec, t, 'moved, %r' % kw):
                        return
                # placed by the group
                g = A.AgentGroup(agent_type=A.ThreeCircle, size=2,
                                 attributes=[kw, kw])
                ag = A.Agents(agent_type=A.ThreeCircle)
                it = iter([(0., 0.), (40., 3.)])
                ag.add_non_overlapping_group(g, lambda: next(it))
                if len(ag.array) != 2:
                    rec.fail('placing', 'not placed')
                if not check_array(rec, ag.array, 'placed, %r' % kw):
                    return
                rec.state((bt, pos, phi, r, later))
                rec.trace()
    elif kind == 'array':
        step = [lambda a: integ.velocity_verlet_integrator(a, .01, .01),
                lambda a: integ.euler_integrator(a, .01, .01),
                lambda a: integ.velocity_verlet_integrator(a, .001, .1)
                ][case['integ']]
        for om, size, moves, tq in itertools.product(OMEGA, (1, 3), (1, 3),
                                                     (0., 1.)):
            agents = [A.ThreeCircle(
                radius=.3, r_t=.2, r_s=.1, r_ts=.2 - .01 * k, mass=70.,
                inertia_rot=4., position=(10. * k, -k),
                orientation=PHI[(case['phi'] + k) % len(PHI)],
                angular_velocity=om, velocity=(1. + k, -.5),
                torque=2. * k * tq, torque_prev=tq, force=(1., k),
                force_prev=(0., 1.)) for k in range(size)]
            arr = np.concatenate([np.array(t) for t in agents])
            tag = 'integrator %d, angular velocity %g' % (case['integ'], om)
            if not check_array(rec, arr, 'built'):
                return
            for m in range(moves):
                step(arr)
                if not check_array(rec, arr, tag + ', step %d' % m):
                    return
            # recomputing from scratch
            arr['position'] += 3.25
            arr['orientation'] = PHI[case['phi']]
            A.shoulders(arr)
            if not check_array(rec, arr, 'recomputed'):
                return
            rec.state((case['integ'], case['phi'], om, size, moves, tq))
            rec.trace()
