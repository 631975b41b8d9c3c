"""C09: a simulation updates until its exit condition holds, counts what it
did, and shares nothing with other simulations.

Explored: every sequence of exit-condition answers (truthy and falsy values
of many types) up to the depth x callable kinds x failing step; conditions
replaced while running; two simulations in every interleaving of updates.
Oracle: a counter."""
import functools
import itertools

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all answer sequences to length 5 over 2 falsy + 1 truthy value, '
             'to length 3 over 12 values; errors in the condition or the '
             'update at each step; all interleavings of 2 simulations x 4 '
             'updates; condition swaps at each step; runs of 12000 updates',
    'thorough': 'answer sequences to length 8 and 4; interleavings of 3 '
                'simulations x 3 updates; runs of 70000'}
ASSUMPTIONS = []


def setup():
    global np, base, MultiAgentSimulation, LogicNode
    import numpy as np
    from crowddynamics.simulation import base
    from crowddynamics.simulation.multiagent import MultiAgentSimulation
    from crowddynamics.simulation.logic import LogicNode


def values():
    return [(False, 'False'), (0, '0'), (None, 'None'), ('', "''"), ([], '[]'),
            (np.bool_(False), 'np.False_'), (0.0, '0.0'),
            (True, 'True'), (1, '1'), ('x', "'x'"), (np.bool_(True), 'np.True_'),
            ([0], '[0]')]


CALLABLES = ['function', 'lambda', 'method', 'partial', 'object']


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for c in CALLABLES:
        for sim in ('base', 'multi'):
            out.append({'kind': 'answers', 'callable': c, 'sim': sim,
                        'n': 8 if deep else 5, 'vals': [0, 2, 7]})
            out.append({'kind': 'answers', 'callable': c, 'sim': sim,
                        'n': 4 if deep else 3, 'vals': list(range(12))})
    for sim in ('base', 'multi'):
        out.append({'kind': 'errors', 'sim': sim})
        out.append({'kind': 'swap', 'sim': sim})
        out.append({'kind': 'none', 'sim': sim})
        out.append({'kind': 'long', 'sim': sim, 'n': 70000 if deep else 12000})
    out.append({'kind': 'isolated', 'sims': 2, 'n': 4})
    if deep:
        out.append({'kind': 'isolated', 'sims': 3, 'n': 3})
    out.append({'kind': 'meta'})
    return out


class Boom(Exception):
    pass


def make(sim, log, hook=None, name=None):
    kw = {} if name is None else {'name': name}
    if sim == 'base':
        class Sim(base.SimulationBase):
            def update(self):
                log.append('u')
                if hook:
                    hook(self)
        return Sim(**kw)

    class Node(LogicNode):
        def update(self):
            log.append('u')
            if hook:
                hook(self.simulation)

    class Sim2(MultiAgentSimulation):
        pass
    s = Sim2(**kw)
    s.logic = Node(s)
    return s


def as_callable(kind, f):
    if kind == 'function':
        def cond(simulation):
            return f(simulation)
        return cond
    if kind == 'lambda':
        return lambda s: f(s)
    if kind == 'partial':
        return functools.partial(lambda s, z: f(s), z=1)

    class C:
        def __call__(self, s):
            return f(s)

        def m(self, s):
            return f(s)
    return C() if kind == 'object' else C().m


def run_case(case, rec):
    kind = case['kind']
    if kind == 'answers':
        vals = values()
        for n in range(1, case['n'] + 1):
            for ans in itertools.product(case['vals'], repeat=n):
                if any(vals[a][0] for a in ans[:-1]) or (
                        n < case['n'] and not vals[ans[-1]][0]):
                    continue      # stops earlier: enumerated at that length
                log = []
                s = make(case['sim'], log)
                left = list(ans)

                def cond(simulation):
                    if simulation is not s:
                        raise RuntimeError('condition got %r' % (simulation,))
                    log.append('c')
                    if not left:
                        raise Boom
                    return vals[left.pop(0)][0]
                s.exit_condition = as_callable(case['callable'], cond)
                try:
                    ret = s.run()
                    boom = False
                except Boom:
                    boom = True
                want = ['c'] + ['u', 'c'] * (n - 1)
                if not vals[ans[-1]][0]:
                    want += ['u', 'c']
                rec.step(len(want))
                names = [vals[a][1] for a in ans]
                if log != want or boom == bool(vals[ans[-1]][0]):
                    rec.fail('loop', 'answers %r: trace %s, expected %s' % (
                        names, ''.join(log), ''.join(want)))
                    return
                if case['sim'] == 'multi' and \
                        s.data['iterations'] != want.count('u'):
                    rec.fail('iterations', 'answers %r: iterations %r after '
                             '%d updates' % (names, s.data['iterations'],
                                             want.count('u')))
                    return
                rec.state((case['sim'], case['callable'], ans))
                rec.trace()
                rec.sample({'answers': names})
    elif kind == 'errors':
        for k, where, exc in itertools.product(
                range(4), ('u', 'c'), (Boom, StopIteration, KeyError,
                                       GeneratorExit, KeyboardInterrupt)):
            log = []

            def hook(sim):
                if where == 'u' and log.count('u') == k + 1:
                    raise exc

            def cond(sim):
                log.append('c')
                if where == 'c' and log.count('c') == k + 1:
                    raise exc
                return len(log) > 30
            s = make(case['sim'], log, hook)
            s.exit_condition = cond
            try:
                s.run()
                got = None
            except BaseException as e:
                got = type(e)
            want = ['c', 'u'] * k + (['c', 'u'] if where == 'u' else ['c'])
            rec.step(len(want))
            if got is not exc or log != want:
                rec.fail('errors', '%s at %s%d: ended with %r after %s' % (
                    exc.__name__, where, k, got, ''.join(log)))
                return
            if case['sim'] == 'multi' and s.data['iterations'] != k:
                rec.fail('iterations', 'a failed cycle was counted')
                return
            # running again goes on from there
            del log[:]
            s.exit_condition = lambda sim: log.count('u') >= 2
            where = 'x'
            s.run()
            if log != ['u', 'u']:
                rec.fail('again', 'second run: %s' % ''.join(log))
            s.run()
            if log != ['u', 'u']:
                rec.fail('again', 'a finished run updates again')
            rec.state((case['sim'], k, where, exc.__name__))
            rec.trace()
    elif kind == 'swap':
        # the condition is replaced inside the k-th update
        for k, stop in itertools.product(range(4), range(6)):
            log = []

            def hook(sim):
                if log.count('u') == k + 1:
                    sim.exit_condition = lambda q: log.count('u') >= stop
            s = make(case['sim'], log, hook)
            s.exit_condition = lambda q: log.count('u') >= 8
            s.run()
            rec.step(len(log))
            if log.count('u') != max(stop, k + 1):
                rec.fail('swap', 'replaced at %d, to stop at %d: %d updates' % (
                    k + 1, stop, log.count('u')))
                return
            rec.state((case['sim'], k, stop))
            rec.trace()
    elif kind == 'none':
        for n in (1, 3, 200):
            log = []

            def hook(sim):
                if log.count('u') == n:
                    raise Boom
            s = make(case['sim'], log, hook)
            if s.exit_condition is not None:
                rec.fail('default', 'an exit condition by default')
            try:
                s.run()
                rec.fail('none', 'run without a condition returned')
            except Boom:
                pass
            rec.step(n)
            if len(log) != n:
                rec.fail('none', '%d updates' % len(log))
            rec.state((case['sim'], n))
            rec.trace()
    elif kind == 'long':
        # nothing happens after a large number of updates
        n, log, seen = case['n'], [], [0]
        s = make(case['sim'], log)

        def stop(sim):
            seen[0] += 1
            count = sim.data.get('iterations', len(log))
            if count != len(log) or seen[0] != len(log) + 1:
                rec.fail('long', 'after %d updates %r are counted and the '
                         'condition was asked %d times' % (
                             len(log), count, seen[0]))
                return True
            return len(log) >= n
        s.exit_condition = stop
        s.run()
        rec.step(n)
        rec.check(len(log) == n or rec.fails, 'long', 'stopped after %d '
                  'updates instead of %d' % (len(log), n))
        rec.state((case['sim'], n))
        rec.trace()
    elif kind == 'isolated':
        m, n = case['sims'], case['n']
        for order in sorted(set(itertools.permutations(
                [k for k in range(m) for _ in range(n)]))):
            logs = [[] for _ in range(m)]
            sims = [make('multi', logs[k], name='s%d' % k) for k in range(m)]
            count = [0] * m
            for k in order:
                sims[k].update()
                count[k] += 1
                sims[k].data['mine'] = k
                sims[k].data['x%d' % k] = 1
                sims[k].metadata['m'] = k
                rec.step()
                for j in range(m):
                    d = sims[j].data
                    if d['iterations'] != count[j] or len(logs[j]) != count[j] \
                            or (count[j] and d['mine'] != j) or \
                            any('x%d' % q in d for q in range(m) if q != j) or \
                            sims[j].metadata.get('m', j) != j or \
                            sims[j].metadata['name'] != 's%d' % j:
                        rec.fail('isolated', 'simulation %d sees %r after %r' %
                                 (j, dict(d), order))
                        return
            fresh = MultiAgentSimulation()
            if set(fresh.data) != {'iterations', 'time_tot', 'dt'} or \
                    fresh.data['iterations'] != 0 or \
                    'm' in fresh.metadata:
                rec.fail('isolated', 'a new simulation starts with %r' % (
                    dict(fresh.data),))
            rec.state(order)
            rec.trace()
    elif kind == 'meta':
        import time
        for cls in (base.SimulationBase, MultiAgentSimulation):
            class Mine(cls):
                pass
            for c in (cls, Mine):
                a = c()
                t = a.timestamp
                time.sleep(.002)
                b = c(name='run 7')
                rec.check(a.name == c.__name__ and b.name == 'run 7', 'name',
                          'names %r %r' % (a.name, b.name))
                for s in (a, b):
                    rec.check(s.metadata['name'] == s.name, 'metadata',
                              'name %r' % s.metadata['name'])
                    rec.check(s.metadata['timestamp'] == str(s.timestamp),
                              'metadata', 'timestamp')
                    rec.check(s.timestamp is s.timestamp and
                              s.name_with_timestamp == s.name_with_timestamp,
                              'timestamp', 'changes between reads')
                    rec.check(s.timestamp.tzinfo is not None, 'timestamp',
                              'no time zone')
                    rec.check(s.name_with_timestamp.startswith(s.name + '_')
                              and ' ' not in
                              s.name_with_timestamp[len(s.name):],
                              'timestamp', 'bad name %r' %
                              s.name_with_timestamp)
                rec.check(a.timestamp == t and a.timestamp != b.timestamp and
                          a.name_with_timestamp != b.name_with_timestamp,
                          'timestamp', 'not unique')
                rec.state((cls.__name__, c is cls))
                rec.trace()
        try:
            base.SimulationBase().run()
        except NotImplementedError:
            pass
        else:
            rec.fail('abstract', 'run() without update() returned')
