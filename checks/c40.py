"""C40: groups of agents have the members their settings describe.

Explored: every history (up to a depth) of setting size, agent type and
attributes of a group, started empty or from the constructor, with
collections, generators and callables as attributes, invalid ones included;
afterwards the group is placed.  Oracle: a model of three settings and the
items they yield."""
import itertools

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'histories of 4 settings out of 15 (3 sizes, 3 types, 9 kinds of '
             'attributes) from an empty group and of 1 after each of 427 '
             'constructor calls in every order of the arguments',
    'thorough': 'histories of 5 settings, 2 after constructor calls'}
ASSUMPTIONS = ['a list of attributes is not changed in place while a group '
               'has it']
CASE_TIMEOUT = 800
OPS = [('size', 0), ('size', 1), ('size', 3),
       ('agent_type', 'Circular'), ('agent_type', 'ThreeCircle'),
       ('agent_type', None),
       ('attributes', 'two'), ('attributes', 'tuple'), ('attributes', 'none'),
       ('attributes', 'empty'), ('attributes', 'endless'),
       ('attributes', 'four'), ('attributes', 'call'), ('attributes', 'bad'),
       ('attributes', 'again')]


def setup():
    global A
    from crowddynamics.simulation import agents as A


def cases(tier):
    t = tier == 'thorough'
    out = [{'kind': 'empty', 'first': f, 'n': 5 if t else 4}
           for f in range(len(OPS))]
    out += [{'kind': 'built', 'first': f, 'n': 2 if t else 1}
            for f in range(len(OPS))]
    return out


class Items:
    """Attributes of consecutive agents: each has a radius of its own."""

    def __init__(self):
        self.n = 0

    def one(self):
        self.n += 1
        return {'radius': .1 + self.n / 1024}


class Model:
    """What is set, and the members which follow from it."""

    def __init__(self):
        self.items = Items()
        self.size = 0
        self.type = None
        self.attributes = None    # (kind, real object, radii or None)
        self.members = []
        self.key = (0, None, None)
        self.kept = None

    def make(self, what):
        """Attributes of the kind, and the radii they are going to yield."""
        if what == 'again':
            return self.attributes
        if what == 'none':
            return None
        one = self.items.one
        if what in ('two', 'bad'):
            xs = [one(), one()]
            if what == 'bad':
                xs[1] = {'radius': -1.0}
            return ('collection', xs, [x['radius'] for x in xs])
        if what == 'tuple':
            xs = (one(),)
            return ('collection', xs, [x['radius'] for x in xs])
        if what == 'empty':
            return ('collection', [], [])
        if what == 'four':
            xs = [one() for _ in range(4)]
            return ('generator', (x for x in xs), [x['radius'] for x in xs])
        if what == 'endless':
            xs = [one() for _ in range(64)]
            return ('generator', (x for x in xs), [x['radius'] for x in xs])
        xs = [one() for _ in range(64)]
        it = iter(list(xs))
        return ('callable', lambda: next(it), [x['radius'] for x in xs])

    def set(self, **values):
        """Sets several settings at once; False if that is an error."""
        for k, v in values.items():
            if k == 'attributes':
                old = self.attributes
                if old is None or v is None or old[1] is not v[1]:
                    # An equal collection is not a change
                    if old is None or v is None or not (
                            old[0] == v[0] == 'collection' and
                            old[1] == v[1]):
                        self.attributes = v
            elif k == 'size':
                self.size = v
            else:
                self.type = v
        a = self.attributes
        if a is not None and a[0] == 'collection':
            self.size = len(a[1])
        key = (self.size, self.type, None if a is None else id(a[1]))
        if key == self.key:
            return True
        self.key = key
        self.members = []
        if a is None or self.type is None or self.size == 0:
            return True
        if a[0] == 'collection':
            if min(a[2]) < 0:
                return False
            self.members = list(a[2])
            return True
        if len(a[2]) < self.size:
            del a[2][:]
            return False
        self.members = a[2][:self.size]
        del a[2][:self.size]
        return True


def value(what, v):
    if what == 'agent_type':
        return None if v is None else getattr(A, v)
    return v


def state(m):
    return (m.size, m.type, None if m.attributes is None else
            (m.attributes[0], len(m.attributes[2])), len(m.members))


def compare(rec, group, m, history):
    d = dict(history=history)
    if group.size != m.size:
        return rec.fail('size', 'the size of the group is not the one asked '
                        'for or that of its attributes', got=group.size,
                        want=m.size, **d)
    got = [x.radius for x in group.members]
    if got != m.members:
        return rec.fail('members', 'the group does not have the members its '
                        'settings describe', got=got, want=m.members, **d)
    if m.members:
        bad = [type(x).__name__ for x in group.members
               if type(x).__name__ != m.type]
        if bad:
            return rec.fail('type', 'members of another type', got=bad, **d)
        if len({id(x) for x in group.members}) != len(m.members):
            return rec.fail('shared', 'members are the same object', **d)
    return True


def placed(rec, group, m, history):
    """All members are placed, twice, as they are."""
    if len(m.members) != m.size or m.type is None:
        return True
    agents = A.Agents(agent_type=getattr(A, m.type))
    for turn in (1, 2):
        at = iter([(4.0 * k, 5.0 * turn) for k in range(m.size)])
        agents.add_non_overlapping_group(group, lambda: next(at))
        got = [float(x) for x in agents.array['radius']]
        if got != m.members * turn:
            return rec.fail('placed', 'not the members of the group are '
                            'placed', got=got, want=m.members * turn,
                            history=history)
    return True


def apply(rec, group, m, op, history):
    what, v = op
    if what == 'attributes':
        v = m.make(v)
        real = None if v is None else v[1]
    else:
        real = value(what, v)
    ok = m.set(**{what: v})
    try:
        setattr(group, what, real)
    except Exception as e:
        if ok:
            return rec.fail('error', 'a setting is refused',
                            history=history, error=repr(e)[:200])
    else:
        if not ok:
            return rec.fail('accepted', 'attributes which are not valid, or '
                            'not enough, are accepted', history=history)
    rec.step()
    return compare(rec, group, m, history)


def run_case(case, rec):
    if case['kind'] == 'empty':
        for rest in itertools.product(range(len(OPS)), repeat=case['n'] - 1):
            group, m = A.AgentGroup(), Model()
            history = [OPS[k] for k in (case['first'],) + rest]
            for k, op in enumerate(history):
                if apply(rec, group, m, op, history[:k + 1]) is not True:
                    break
            else:
                placed(rec, group, m, history)
            rec.state(state(m))
            rec.trace()
        return
    names = ('size', 'agent_type', 'attributes')
    options = {n: [o[1] for o in OPS if o[0] == n and
                   o[1] not in ('again', 'bad', 'four')] for n in names}
    for n in range(4):
        for order in itertools.permutations(names, n):
            for values in itertools.product(*[options[x] for x in order]):
                for rest in itertools.product(range(len(OPS)),
                                              repeat=case['n'] - 1):
                    m, kw, model = Model(), {}, {}
                    for name, v in zip(order, values):
                        if name == 'attributes':
                            v = model[name] = m.make(v)
                            kw[name] = None if v is None else v[1]
                        else:
                            model[name] = v
                            kw[name] = value(name, v)
                    m.set(**model)
                    history = [dict(zip(order, values))] + [
                        OPS[k] for k in (case['first'],) + rest]
                    group = A.AgentGroup(**kw)
                    rec.step()
                    if compare(rec, group, m, history[:1]) is not True:
                        continue
                    for k, op in enumerate(history[1:]):
                        if apply(rec, group, m, op,
                                 history[:k + 2]) is not True:
                            break
                    else:
                        placed(rec, group, m, history)
                    rec.state(state(m))
                    rec.trace()
