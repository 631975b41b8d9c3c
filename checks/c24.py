"""C24: body types and body parts.

Explored: every agent type x body type x set of attributes given by hand x
order of the arguments x draws; every order of setting means, scales and
ratios one by one; every history of radius and ratio changes up to a depth;
every second choice of a body type.  Oracle: the documented formulas on plain
numbers with the values of the configuration file."""
import itertools
import math

from mc.num import close

LEVEL = 'model_checking'
BOUNDS = {
    'quick': '2 agent types x 5 body types x 16 sets of given attributes x 3 '
             'orders x 7 draw patterns; all orders of 6 settings (x 3 given '
             'sets); histories of 4 changes of radius and ratios out of 11',
    'thorough': 'histories of 5 changes, all orders of 7 settings'}
ASSUMPTIONS = ['scipy.stats.truncnorm is a stand-in whose draws are chosen by '
               'the checker', 'the moment of inertia is that of the mass and '
               'radius known first (it is not changed once set)']
CASE_TIMEOUT = 800


def setup():
    global np, A, ST, X, TYPES, traitlets
    import os
    import numpy as np
    import traitlets
    import scipy.stats
    import crowddynamics
    ST = scipy.stats.truncnorm
    from crowddynamics import exceptions as X
    from crowddynamics.simulation import agents as A
    path = os.path.join(os.path.dirname(crowddynamics.__file__), 'conf',
                        'body_types.cfg')
    TYPES = {}
    with open(path) as fp:
        for line in fp:
            line = line.split('#')[0].strip()
            if line.startswith('['):
                cur = TYPES.setdefault(line.strip('[]'), {})
            elif '=' in line:
                k, v = line.split('=')
                cur[k.strip()] = float(v)


GIVEN = {'radius': .31, 'mass': 61.0, 'target_velocity': 2.25,
         'inertia_rot': 3.5}
PATTERNS = [(0.0,), (1.0,), (.5,), (0.0, .25, .75, 1.0), (.9, .1, .4),
            (.125, .625, .375), (1.0, .5, 0.0)]
AGENTS = ['Circular', 'ThreeCircle']


def cases(tier):
    t = tier == 'thorough'
    out = [{'kind': 'types', 'a': a, 'b': b} for a in AGENTS for b in range(5)]
    out += [{'kind': 'once', 'a': a} for a in AGENTS]
    out += [{'kind': 'config'}]
    out += [{'kind': 'orders', 'a': a, 'first': f, 't': t} for a in AGENTS
            for f in range(7 if t else 6)]
    out += [{'kind': 'history', 'a': a, 'first': f, 'n': 5 if t else 4}
            for a in AGENTS for f in range(len(OPS))]
    return out


def inertia(mass, radius):
    return 4 * math.pi * (mass / 80.0) * (radius / .27) ** 2


class Source:
    """Draws at chosen fractions of the interval, one after another."""

    def __init__(self, pattern):
        self.it = itertools.cycle(pattern)
        self.ranges = []

    def __call__(self, a, b, n):
        self.ranges.append((a, b))
        return [a + (b - a) * next(self.it) for _ in range(n)]


def run_case(case, rec):
    old = ST.source
    try:
        globals()['run_' + case['kind']](case, rec)
    finally:
        ST.source = old


def run_types(case, rec):
    name = sorted(TYPES)[case['b']]
    cfg = TYPES[name]
    cls = getattr(A, case['a'])
    for n in range(len(GIVEN) + 1):
        for given in itertools.combinations(sorted(GIVEN), n):
            keys = list(given)
            for order in (['body_type'] + keys, keys + ['body_type'],
                          keys[:1] + ['body_type'] + keys[1:]):
                for pattern in PATTERNS:
                    src = ST.source = Source(pattern)
                    kw = {k: name if k == 'body_type' else GIVEN[k]
                          for k in order}
                    agent = cls(**kw)
                    rec.state((case['a'], name, tuple(order), pattern))
                    rec.trace()
                    d = dict(arguments=kw, draws=pattern)
                    seen = []
                    for attr in ('radius', 'mass', 'target_velocity'):
                        v = getattr(agent, attr)
                        if attr in given:
                            rec.check(v == GIVEN[attr], 'given',
                                      '%s was given but is not kept' % attr,
                                      got=v, **d)
                            continue
                        mean = cfg[attr + '_mean']
                        scale = cfg[attr + '_scale']
                        f = ((v - mean) / scale + 1) / 2
                        rec.check(any(abs(f - p) < 1e-9 for p in pattern),
                                  'draw', '%s is not drawn from mean and scale '
                                  'of the body type' % attr, got=v, mean=mean,
                                  scale=scale, **d)
                        seen.append(round(f, 6))
                    if len(pattern) >= 3:
                        rec.check(len(set(seen)) == len(seen), 'own-draw',
                                  'two attributes share a draw', got=seen, **d)
                    rec.check(all(r == (-3.0, 3.0) for r in src.ranges),
                              'truncation', 'not truncated at three '
                              'deviations', got=src.ranges, **d)
                    want = GIVEN['inertia_rot'] if 'inertia_rot' in given \
                        else inertia(agent.mass, agent.radius)
                    rec.check(close(agent.inertia_rot, want), 'inertia',
                              'rotational moment', got=agent.inertia_rot,
                              want=want, **d)
                    for part, ratio in (('r_t', 'ratio_rt'),
                                        ('r_s', 'ratio_rs'),
                                        ('r_ts', 'ratio_ts')):
                        rec.check(close(getattr(agent, part),
                                        cfg[ratio] * agent.radius), 'part',
                                  'radius of a body part', part=part,
                                  got=getattr(agent, part),
                                  want=cfg[ratio] * agent.radius, **d)
                    arr = agent.array()
                    for attr in ('radius', 'mass', 'target_velocity', 'r_t',
                                 'r_s', 'r_ts', 'inertia_rot'):
                        rec.check(float(arr[attr][0]) == getattr(agent, attr),
                                  'array', 'record of the agent', attr=attr)


def run_config(case, rec):
    """The body types make sense: parts lie within the body."""
    for name in sorted(TYPES):
        cfg = TYPES[name]
        rec.state(name)
        rec.trace()
        rec.check(close(cfg['ratio_ts'] + cfg['ratio_rs'], 1, 0, 1e-3),
                  'reach', 'the shoulders do not reach the radius', name=name)
        for k in ('radius', 'mass', 'target_velocity'):
            rec.check(0 < cfg[k + '_scale'] < cfg[k + '_mean'], 'positive',
                      'draws may be negative', name=name, attr=k)
        for z in (0.0, .5, 1.0):
            ST.source = Source([z])
            agent = A.ThreeCircle(body_type=name, position=(1.0, 2.0))
            far = max(math.dist(agent.position_ls, agent.position),
                      math.dist(agent.position_rs, agent.position)) + agent.r_s
            rec.check(close(far, agent.radius, 1e-3), 'within', 'the '
                      'shoulders do not reach the radius', name=name, got=far,
                      want=agent.radius)


def run_once(case, rec):
    """A body type is chosen once."""
    cls = getattr(A, case['a'])
    attrs = ('radius', 'mass', 'target_velocity', 'r_t', 'r_s', 'r_ts',
             'inertia_rot', 'radius_mean', 'mass_mean', 'body_type')
    for one in sorted(TYPES):
        for two in sorted(TYPES):
            for late in (False, True):
                ST.source = Source([.25, .5, .75])
                if late:
                    agent = cls()
                    agent.body_type = one
                else:
                    agent = cls(body_type=one)
                before = [getattr(agent, k) for k in attrs]
                rec.state((case['a'], one, two, late))
                rec.trace()
                for _ in range(2):
                    try:
                        agent.body_type = two
                    except traitlets.TraitError:
                        rec.check(one != two, 'same', 'the same body type is '
                                  'refused', one=one)
                    else:
                        rec.check(one == two, 'twice', 'the body type was '
                                  'changed', one=one, two=two)
                    rec.check([getattr(agent, k) for k in attrs] == before,
                              'changed', 'a refused body type changed the '
                              'agent', one=one, two=two)
    for name in ('alien', 'Adult', ' adult'):
        try:
            cls(body_type=name)
        except (KeyError, traitlets.TraitError, X.CrowdDynamicsException):
            pass
        else:
            rec.fail('unknown', 'an unknown body type is accepted', name=name)
        # A refused name leaves the agent as it was: free to get a body type,
        # or with the one it has
        for first in (None,) + tuple(sorted(TYPES)):
            for then in sorted(TYPES):
                ST.source = Source([.25, .5, .75])
                agent = cls() if first is None else cls(body_type=first)
                before = [getattr(agent, k) for k in attrs]
                rec.state((case['a'], name, first, then))
                rec.trace()
                d = dict(name=name, first=first, then=then)
                for _ in range(2):
                    try:
                        agent.body_type = name
                    except (KeyError, traitlets.TraitError,
                            X.CrowdDynamicsException):
                        pass
                    else:
                        rec.fail('unknown', 'an unknown body type is '
                                 'accepted', **d)
                    rec.check([getattr(agent, k) for k in attrs] == before,
                              'refused', 'a refused body type changed the '
                              'agent', got=agent.body_type, **d)
                try:
                    agent.body_type = then
                except traitlets.TraitError:
                    rec.check(first not in (None, then), 'after', 'no body '
                              'type can be chosen after a refused one', **d)
                else:
                    rec.check(first in (None, then), 'twice', 'the body type '
                              'was changed', **d)
                    rec.check(agent.radius > 0 and agent.mass > 0 and
                              agent.body_type == then, 'after', 'the body '
                              'type chosen after a refused one has no effect',
                              **d)
    run_tables(case, rec)


def run_tables(case, rec):
    """Body types of the user's own table, whatever the order of arguments."""
    from configobj import ConfigObj
    cls = getattr(A, case['a'])
    adult = dict(TYPES['adult'])
    own = {'mine': dict(adult, radius_mean=.5, ratio_rt=.25, ratio_ts=.75),
           'adult': dict(adult, mass_mean=20.0)}
    for name in ('mine', 'adult', 'child'):
        for order in ('table-first', 'type-first', 'late', 'table-late'):
            ST.source = Source([.5])
            table = ConfigObj({k: dict(v) for k, v in own.items()})
            rec.state((case['a'], name, order))
            rec.trace()
            try:
                if order == 'table-first':
                    agent = cls(body_types=table, body_type=name)
                elif order == 'type-first':
                    agent = cls(body_type=name, body_types=table)
                elif order == 'late':
                    agent = cls(body_types=table)
                    agent.body_type = name
                else:
                    agent = cls()
                    agent.body_types = table
                    agent.body_type = name
            except (KeyError, traitlets.TraitError, X.CrowdDynamicsException):
                rec.check(name == 'child', 'table', "a body type of the "
                          "user's table is refused", name=name, order=order)
                continue
            if name == 'child':
                rec.fail('table', "a body type which the user's table does "
                         'not have is accepted', order=order)
                continue
            cfg = own[name]
            for attr, want in (('radius', cfg['radius_mean']),
                               ('mass', cfg['mass_mean']),
                               ('r_t', cfg['ratio_rt'] * cfg['radius_mean']),
                               ('r_ts', cfg['ratio_ts'] * cfg['radius_mean'])):
                rec.check(close(getattr(agent, attr), want), 'table',
                          "not the body of the user's table", name=name,
                          order=order, attr=attr, got=getattr(agent, attr),
                          want=want)


SETTINGS = [('radius_mean', .25), ('radius_scale', .05), ('mass_mean', 70.0),
            ('mass_scale', 7.0), ('ratio_rt', .6), ('ratio_ts', .5),
            ('target_velocity_mean', 1.5)]


def run_orders(case, rec):
    """Whatever the order of the settings, the body comes out the same."""
    cls = getattr(A, case['a'])
    sets = SETTINGS[:7 if case['t'] else 6]
    for rest in itertools.permutations([s for k, s in enumerate(sets)
                                        if k != case['first']]):
        order = (sets[case['first']],) + rest
        for given in ({}, {'radius': .4}, {'mass': 50.0, 'radius': .3}):
            ST.source = Source([.75])
            agent = cls(**given)
            for k, v in order:
                setattr(agent, k, v)
                rec.step()
            rec.state((case['a'], tuple(k for k, _ in order),
                       tuple(sorted(given))))
            rec.trace()
            radius = given.get('radius', .25 + .025)
            mass = given.get('mass', 70 + 3.5)
            want = {'radius': radius, 'mass': mass, 'r_t': .6 * radius,
                    'r_ts': .5 * radius, 'r_s': 0.0,
                    'inertia_rot': inertia(mass, radius),
                    'target_velocity': 0.0}
            for k, v in want.items():
                rec.check(close(getattr(agent, k), v), 'order:%s' % k,
                          'depends on the order of the settings', attr=k,
                          order=[k for k, _ in order], given=given,
                          got=getattr(agent, k), want=v)


OPS = [('radius', .3), ('radius', .4), ('radius', 1.25), ('ratio_rt', .5),
       ('ratio_rt', .25), ('ratio_rs', .375), ('ratio_rs', .75), ('ratio_ts', .625),
       ('ratio_ts', 1.0), ('mass', 60.0), ('mass', 90.0)]
PARTS = {'ratio_rt': 'r_t', 'ratio_rs': 'r_s', 'ratio_ts': 'r_ts'}


def run_history(case, rec):
    cls = getattr(A, case['a'])
    for rest in itertools.product(range(len(OPS)), repeat=case['n'] - 1):
        agent = cls()
        m = {'radius': 0.0, 'ratio_rt': 0.0, 'ratio_rs': 0.0, 'ratio_ts': 0.0,
             'mass': 0.0, 'r_t': 0.0, 'r_s': 0.0, 'r_ts': 0.0,
             'inertia_rot': 0.0}
        history = (case['first'],) + rest
        for k in history:
            name, value = OPS[k]
            setattr(agent, name, value)
            rec.step()
            m[name] = value
            for ratio, part in PARTS.items():
                if m['radius'] > 0 and m[ratio] > 0:
                    m[part] = m[ratio] * m['radius']
            if m['inertia_rot'] == 0 and m['mass'] > 0 and m['radius'] > 0:
                m['inertia_rot'] = inertia(m['mass'], m['radius'])
        rec.state((case['a'], tuple(sorted(m.items()))))
        rec.trace()
        bad = [k for k, v in m.items() if not close(getattr(agent, k), v)]
        rec.check(not bad, 'history', 'the body does not follow its radius '
                  'and ratios', history=[OPS[k] for k in history],
                  wrong={k: (getattr(agent, k), m[k]) for k in bad})
