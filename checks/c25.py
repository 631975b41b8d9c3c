"""C25: agents convert to records and back without loss.

Explored: every pair of attribute values from small alphabets on every agent
type, read back into agents with different histories; every class hierarchy of
up to 3 traits over 2 classes with and without exclusion; every shape and
length offered to a validated attribute.  Oracle: plain Python values."""
import itertools
import math

LEVEL = 'model_checking'
BOUNDS = {
    'quick': '2 agent types; all pairs of attribute values (3-5 values for '
             'each of 30-34 attributes) x 3 agents read into; arrays of other '
             'lengths; derived types with each attribute declared again, '
             'alone and with a new one; all struct types of up to 3 out of 7 traits split over '
             'a class and its base x 3 exclusions; 40 offered vectors',
    'thorough': 'all struct types of up to 4 traits; pairs read into 6 agents'}
ASSUMPTIONS = ['shoulders are not assigned directly: they follow the position',
               'orientation in [-pi, pi]']
CASE_TIMEOUT = 800


def setup():
    global np, A, T, tl, X, Array
    import numpy as np
    import traitlets as tl
    from traittypes import Array
    from crowddynamics import exceptions as X
    from crowddynamics import traits as T
    from crowddynamics.simulation import agents as A


FLAG = [False, True]
SMALL = [0.0, .25, 1e3]
VEC = [(0.0, 0.0), (1.5, -2.25), (-1e3, 1e-3), (.1, .2)]
COMMON = {
    'active': FLAG, 'target_reached': FLAG, 'target': [-1, 0, 7],
    'is_leader': FLAG, 'is_follower': FLAG, 'index_leader': [-1, 0, 12],
    'familiar_exit': [-1, 0, 3], 'radius': SMALL, 'r_t': SMALL, 'r_s': SMALL,
    'r_ts': SMALL, 'mass': SMALL, 'inertia_rot': SMALL,
    'target_velocity': SMALL, 'target_angular_velocity': SMALL,
    'position': VEC, 'velocity': VEC,
    'target_direction': [(0.0, 0.0), (1.0, 0.0), (-.6, .8)],
    'force': VEC, 'force_prev': VEC, 'tau_adj': [.5, .1, 0.0],
    'k_soc': [1.5, 0.0, 3.0], 'tau_0': [3.0, 0.0], 'mu': [1.2e5, 0.0],
    'kappa': [4e4, 1.0], 'damping': [500.0, 0.0], 'std_rand_force': [.1, 0.0]}
TURN = {
    'orientation': [0.0, 1.0, -math.pi, math.pi, -.3],
    'angular_velocity': [0.0, -2.5, 1e2], 'target_orientation': [0.0, 1.25, -3.0],
    'torque': [0.0, -7.0], 'torque_prev': [0.0, 9.0], 'tau_rot': [.2, 0.0],
    'std_rand_torque': [.1, 0.0]}
FIELDS = {'Circular': COMMON, 'ThreeCircle': dict(COMMON, **TURN)}
INT = ('target', 'index_leader', 'familiar_exit')
INTO = [{}, {'body_type': 'adult', 'position': (5.0, 6.0)},
        {'radius': .5, 'mass': 70.0, 'r_ts': .3, 'active': False,
         'velocity': (1.0, 1.0), 'target': 4},
        {'body_type': 'child', 'is_follower': True, 'force': (1.0, 2.0)},
        {'position': (-1e5, 3.0), 'r_t': .2}, {'target_direction': (0.0, -1.0)}]


def cases(tier):
    t = tier == 'thorough'
    out = []
    for a in sorted(FIELDS):
        for k in range(len(FIELDS[a])):
            out.append({'kind': 'record', 'a': a, 'k': k, 't': t})
        out += [{'kind': 'lengths', 'a': a}, {'kind': 'model', 'a': a},
                {'kind': 'derived', 'a': a}]
    for k in range(len(KINDS)):
        out.append({'kind': 'struct', 'k': k, 'n': 4 if t else 3})
    out += [{'kind': 'vectors', 'a': a} for a in sorted(FIELDS)]
    out += [{'kind': 'converters'}]
    return out


def run_case(case, rec):
    globals()['run_' + case['kind']](case, rec)


def value(v):
    if isinstance(v, np.ndarray):
        return tuple(float(x) for x in v)
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    return v.item() if isinstance(v, np.generic) else v


def run_record(case, rec):
    cls = getattr(A, case['a'])
    fields = FIELDS[case['a']]
    names = sorted(fields)
    one = names[case['k']]
    dtype = cls.dtype()
    derived = {'position_ls', 'position_rs'} if case['a'] == 'ThreeCircle' \
        else set()
    rec.check(set(dtype.names) == set(names) | derived, 'fields',
              'fields of the record', got=dtype.names)
    for v in fields[one]:
        for two in names[case['k'] + 1:] + [None]:
            for w in (fields[two] if two else [None]):
                kw = {one: v}
                if two:
                    kw[two] = w
                agent = cls(**kw)
                arr = np.array(agent)
                rec.state((case['a'], one, v, two, w))
                d = dict(attributes=kw)
                rec.check(arr.shape == (1,) and arr.dtype == dtype, 'dtype',
                          'type of the record', **d)
                for f in dtype.names:
                    want = value(getattr(agent, f))
                    if f in kw and f != 'inertia_rot':
                        rec.check(want == kw[f], 'set', 'the attribute does '
                                  'not hold what was given', attr=f, got=want,
                                  **d)
                    rec.check(value(arr[f][0]) == want, 'lost', 'the record '
                              'differs from the agent', attr=f,
                              got=value(arr[f][0]), want=want, **d)
                rec.trace()
                for into in INTO[:6 if case['t'] else 3]:
                    other = cls(**into)
                    other.from_array(arr)
                    rec.step()
                    back = np.array(other)
                    for f in dtype.names:
                        g, h = value(back[f][0]), value(arr[f][0])
                        same = g == h or (f in derived and math.dist(g, h) <
                                          1e-9 * (1 + abs(h[0]) + abs(h[1])))
                        rec.check(same, 'back', 'an agent read from a record '
                                  'differs from it', attr=f, got=g, want=h,
                                  into=into, **d)


def run_derived(case, rec):
    """Types derived from the agent types, attributes declared again."""
    base = getattr(A, case['a'])
    fields = FIELDS[case['a']]
    for one in sorted(fields):
        if one == 'inertia_rot':
            continue
        inherited = base.class_traits()[one]
        for v in fields[one]:
            for extra in (False, True):
                d = dict(again=one, default=v, extra=extra)
                if isinstance(v, tuple):
                    new = Array(default_value=v, dtype=np.float64)
                else:
                    new = type(inherited)(default_value=v)
                attrs = {one: new}
                if extra:
                    attrs['stamina'] = tl.Float(7.5)
                cls = type('Derived', (base,), attrs)
                rec.state((case['a'], one, v, extra))
                rec.trace()
                try:
                    dtype = cls.dtype()
                except Exception as e:
                    rec.fail('derived', 'a derived type has no records: %r'
                             % e, **d)
                    continue
                rec.check(set(dtype.names) == set(base.dtype().names) |
                          ({'stamina'} if extra else set()), 'derived-fields',
                          'fields of a derived type', got=dtype.names, **d)
                agent, plain = cls(), base()
                arr = np.array(agent)
                rec.check(value(arr[one][0]) == v, 'derived-default',
                          'the record of a derived type does not hold its '
                          'default', got=value(arr[one][0]), **d)
                other = cls(**{one: fields[one][0]})
                other.from_array(arr)
                back = np.array(other)
                for f in dtype.names:
                    g, h = value(back[f][0]), value(arr[f][0])
                    rec.check(g == h, 'derived-back', 'an agent read from a '
                              'record differs from it', attr=f, got=g, want=h,
                              **d)
                    rec.check(h == value(getattr(agent, f)), 'derived-lost',
                              'the record differs from the agent', attr=f,
                              **d)


def run_lengths(case, rec):
    cls = getattr(A, case['a'])
    for n in (0, 2, 3):
        for into in INTO:
            agent = cls(**into)
            before = np.array(agent)
            many = np.zeros(n, dtype=cls.dtype())
            try:
                agent.from_array(many)
            except ValueError:
                pass
            else:
                rec.fail('length', 'an array of %d records is accepted' % n)
            rec.state((case['a'], n, sorted(into)))
            rec.trace()
            rec.check(np.array(agent) == before, 'touched', 'a refused array '
                      'changed the agent', n=n)


def run_model(case, rec):
    cls = getattr(A, case['a'])
    model = {'Circular': 'circular', 'ThreeCircle': 'three_circle'}[case['a']]
    for n in (0, 1, 3):
        arr = np.zeros(n, dtype=cls.dtype())
        for m in ('circular', 'three_circle'):
            for view in (arr, arr[::-1], arr[:1], arr.copy()):
                rec.state((case['a'], n, m))
                rec.trace()
                rec.check(bool(A.is_model(view, m)) == (m == model), 'model',
                          'model of an array of agents', array=case['a'],
                          model=m)
    plain = np.zeros(2, dtype=[('position', float, 2)])
    for m in ('circular', 'three_circle'):
        rec.check(not A.is_model(plain, m), 'model', 'an array of something '
                  'else is an array of agents', model=m)
    rec.check(str(cls()) == case['a'], 'str', 'name of the type')


# struct types ----------------------------------------------------------------

KINDS = ['int', 'float', 'complex', 'bool', 'vec2', 'mat', 'intvec']


def trait(kind):
    return {'int': lambda: tl.Int(3), 'float': lambda: tl.Float(1.5),
            'complex': lambda: tl.Complex(1j), 'bool': lambda: tl.Bool(True),
            'vec2': lambda: Array(default_value=(0, 0), dtype=np.float64),
            'mat': lambda: Array(default_value=((1, 2, 3), (4, 5, 6)),
                                 dtype=np.float64),
            'intvec': lambda: Array(default_value=(1, 2, 3), dtype=np.int64),
            }[kind]()


DTYPE = {'int': ('int64', ()), 'float': ('float64', ()),
         'complex': ('complex128', ()), 'bool': ('bool', ()),
         'vec2': ('float64', (2,)), 'mat': ('float64', (2, 3)),
         'intvec': ('int64', (3,))}


def run_struct(case, rec):
    """Fields of struct types: kind, shape and order."""
    for n in range(1, case['n'] + 1):
        for rest in itertools.product(KINDS, repeat=n - 1):
            kinds = (KINDS[case['k']],) + rest
            names = ['t%d' % (7 * i % 10) for i in range(n)]
            for cut in range(n + 1):
                base = type('Base', (tl.HasTraits,), {
                    a: trait(k) for a, k in list(zip(names, kinds))[:cut]})
                cls = type('Cls', (base,), dict(
                    [(a, trait(k)) for a, k in list(zip(names, kinds))[cut:]],
                    helper=lambda self: 1, CONST=5))
                base.__module__ = cls.__module__ = __name__
                for ex in range(3):
                    exa = (lambda a: a == names[0]) if ex == 1 else None
                    exc = (lambda c: c is base) if ex == 2 else None
                    own = [(a, k) for a, k in list(zip(names, kinds))[cut:]]
                    inh = [(a, k) for a, k in list(zip(names, kinds))[:cut]]
                    want = own + ([] if ex == 2 else inh)
                    if ex == 1:
                        want = [w for w in want if w[0] != names[0]]
                    rec.state((kinds, cut, ex))
                    rec.trace()
                    got = list(T.class_traits(cls, exa, exc))
                    rec.check([g[0] for g in got] == [w[0] for w in want],
                              'traits', 'traits of a class', got=[
                                  g[0] for g in got], want=want)
                    dt = T.class_to_struct_dtype(cls, exa, exc)
                    fields = [(f, str(dt[f].base), dt[f].shape)
                              for f in dt.names or ()]
                    rec.check(fields == [(a,) + DTYPE[k] for a, k in want],
                              'struct', 'struct type of a class', got=fields,
                              want=want)


def run_converters(case, rec):
    conv = {'int': int, 'float': float, 'complex': complex, 'bool': bool}
    for k in KINDS:
        rec.state(k)
        rec.trace()
        got = T.trait_to_dtype('abc', trait(k))
        want = np.dtype([('abc',) + DTYPE[k]])
        rec.check(np.dtype([got]) == want, 'dtype', 'type of a trait',
                  kind=k, got=repr(got))
        try:
            g = T.trait_to_type(trait(k))
        except X.InvalidValue:
            rec.check(k not in conv, 'type', 'refused', kind=k)
        else:
            rec.check(conv.get(k) is g, 'type', 'Python type of a trait',
                      kind=k, got=repr(g))
    rec.check(T.trait_to_type(tl.Unicode('a')) is str, 'type', 'text')
    for bad in (1, 'x', None, int, object()):
        for f in (lambda v: T.trait_to_dtype('a', v), T.trait_to_type,
                  lambda v: T.trait_to_option('a', v)):
            try:
                f(bad)
            except X.InvalidType:
                pass
            else:
                rec.fail('notrait', 'something which is no trait is converted',
                         value=repr(bad))
            rec.trace()
    for odd in (tl.List(), tl.Dict(), tl.Instance(int)):
        for f in (lambda v: T.trait_to_dtype('a', v), T.trait_to_type,
                  lambda v: T.trait_to_option('a', v)):
            try:
                f(odd)
            except X.InvalidValue:
                pass
            else:
                rec.fail('odd', 'a trait without conversion is converted',
                         value=repr(odd))
            rec.trace()


OFFERED = [(0.0, 0.0), (1.0, 0.0), (0.0, -1.0), (.6, .8), (-.6, .8), (.6, .7),
           (2.0, 0.0), (0.0, .5), (1.0, 1.0), (1e-3, 0.0), (.99, 0.0),
           (1.0, 1e-12), (0.0, 1.01)]
SHAPES = [(), (1.0,), (1.0, 0.0, 0.0), ((1.0, 0.0),), ((1.0,), (0.0,)),
          1.0, ((0.0, 0.0), (0.0, 0.0))]
VECTORS = ('position', 'velocity', 'target_direction', 'force', 'force_prev')


def run_vectors(case, rec):
    """Only vectors of the plane, and only directions of unit length (or
    none) where a direction is wanted."""
    cls = getattr(A, case['a'])
    for attr in VECTORS:
        for v in OFFERED:
            for start in ((0.0, 0.0), (0.0, 1.0)):
                agent = cls(**{attr: start})
                l = math.hypot(*v)
                good = attr != 'target_direction' or l < 1e-8 or \
                    abs(l - 1) < 1e-5
                rec.state((attr, v))
                rec.trace()
                for by_hand in (False, True):
                    try:
                        if by_hand:
                            cls(**{attr: v})
                        else:
                            setattr(agent, attr, v)
                    except tl.TraitError:
                        rec.check(not good, 'refused', 'a vector is refused',
                                  attr=attr, value=v)
                    else:
                        rec.check(good, 'accepted', 'a direction which has '
                                  'not unit length is accepted', attr=attr,
                                  value=v)
                rec.check(tuple(getattr(agent, attr)) == (v if good else start),
                          'kept', 'value after an offer', attr=attr, value=v)
        for v in SHAPES:
            agent = cls(**{attr: (0.0, 1.0)})
            rec.state((attr, repr(v)))
            rec.trace()
            try:
                setattr(agent, attr, v)
            except (tl.TraitError, ValueError):
                pass
            else:
                rec.fail('shape', 'a value which is no vector of the plane is '
                         'accepted', attr=attr, value=repr(v))
            rec.check(tuple(getattr(agent, attr)) == (0.0, 1.0), 'kept',
                      'a refused vector changed the agent', attr=attr)
    names = {'radius': -.1, 'mass': -1.0, 'target_velocity': -1e-9,
             'target': -2, 'familiar_exit': -2, 'mu': -1.0, 'tau_adj': -.5,
             'r_ts': -.01}
    if case['a'] == 'ThreeCircle':
        names.update({'orientation': 3.2, 'tau_rot': -1.0})
    for attr, v in names.items():
        agent = cls()
        before = getattr(agent, attr)
        rec.state((attr, v))
        rec.trace()
        try:
            setattr(agent, attr, v)
        except tl.TraitError:
            pass
        else:
            rec.fail('range', 'a value out of range is accepted', attr=attr,
                     value=v)
        rec.check(getattr(agent, attr) == before, 'kept', 'a refused value '
                  'changed the agent', attr=attr)
