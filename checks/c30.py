"""C30: what a simulation saved is what it was.

Explored: every answer pattern of the save condition up to a depth, for every
place of the saving node in the tree and both agent types, stopped at every
step (by the exit condition or an error of a node); several simulations in
one directory in every interleaving.  Oracle: the frames and rows a witness
copies at the end of every iteration."""
import csv
import itertools
import json
import os
import shutil
from contextlib import contextmanager

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all patterns of 6 answers x 2 agent types x 3 trees; all '
             'patterns of 4 answers x stopped by an error in each step x 3 '
             'nodes; answers of 10 kinds; all interleavings of 2 simulations '
             'x 3 steps x all answers; 8 fields; directories of 7 kinds, with all changes '
             'of the working directory in between',
    'thorough': 'patterns of 9 answers, of 5 with errors; interleavings of 2 '
                'simulations x 4 steps'}
ASSUMPTIONS = ['shapely is a stand-in',
               'a simulation saves into a directory of its own']
CASE_TIMEOUT = 800


def setup():
    global np, A, L, io, sim, geo, Field, MultiAgentSimulation
    import numpy as np
    import shapely.geometry as geo
    from crowddynamics import io
    from crowddynamics.simulation import agents as A
    from crowddynamics.simulation import logic as L
    from crowddynamics.simulation.multiagent import MultiAgentSimulation
    from mc import sim


TREES = ['root', 'deep', 'wide']
AGENTS = ['Circular', 'ThreeCircle']
VALUES = ['True', 'False', 'None', '1', '0', "'x'", "''", 'np.True_',
          'np.False_', '[]']


EVENTS = ['none', 'array', 'agents', 'data', 'all']


def cases(tier):
    t = tier == 'thorough'
    out = [{'kind': 'pattern', 'a': a, 'tree': tree, 'n': 9 if t else 6}
           for a in AGENTS for tree in TREES]
    out += [{'kind': 'error', 'a': a, 'n': 5 if t else 4, 'at': at}
            for a in AGENTS for at in ('before', 'own', 'after')]
    out += [{'kind': 'values', 'v': v} for v in range(len(VALUES))]
    out += [{'kind': 'two', 'same': s, 'n': 4 if t else 3, 'first': f}
            for s in ('name', 'names', 'dirs') for f in (0, 1)]
    out += [{'kind': 'field', 'f': f} for f in range(8)]
    out += [{'kind': 'place', 'p': p} for p in range(7)]
    out += [{'kind': 'number', 'n': n, 'a': a} for n in (0, 1, 3)
            for a in AGENTS]
    out += [{'kind': 'exchange', 'first': f, 'n': 4 if t else 3}
            for f in range(len(EVENTS))]
    return out


def run_case(case, rec):
    globals()['run_' + case['kind']](case, rec)


def array(kind, n=2):
    out = np.zeros(n, dtype=getattr(A, kind).dtype())
    out['active'] = True
    return out


@contextmanager
def scratch(rec):
    d = rec.tmpdir()
    yield d
    shutil.rmtree(d)


class Stop(Exception):
    pass


def build(a='Circular', tree='root', stop_at=None, where=None, field=None,
          name=None, n=2, speed=1):
    """A simulation in which every node leaves a trace in the agents and the
    data, and a witness which is the last to see them."""
    s = sim.simulation(array(a, n), name=name, **(field or {}))
    seen = []

    class Reset(L.LogicNode):
        def update(self):
            arr = self.simulation.agents.array
            arr['force'][:, 0] = len(seen)
            self.simulation.data['reset'] = len(seen)

    class Move(L.LogicNode):
        def update(self):
            if where == 'before' and len(seen) == stop_at:
                raise Stop()
            arr = self.simulation.agents.array
            arr['position'] += speed * (np.arange(2 * n).reshape(n, 2) + 1.0)
            self.simulation.data['dt'] = .25 * (len(seen) + 1)
            self.simulation.data['time_tot'] += .25 * (len(seen) + 1)

    class Late(L.LogicNode):
        def update(self):
            if where == 'after' and len(seen) == stop_at:
                raise Stop()
            arr = self.simulation.agents.array
            arr['velocity'][:, 1] = arr['position'][:, 0] + speed
            arr['mass'] = len(seen)
            self.simulation.data['late'] = "a,b '%d'" % len(seen)

    s.data['reset'] = 0
    s.data['late'] = ''
    if tree == 'root':
        s.logic = Reset(s) << (Late(s) << Move(s))
    elif tree == 'deep':
        # what is above the node of the name runs after it has been saved
        top = Late(s)
        s.logic = top << (Reset(s) << Move(s))
    else:
        s.logic = Reset(s) << (Move(s), Late(s))
    return s, seen


def frame(s, i=None):
    """What is to be saved: the agents and the data, copied by values."""
    return (s.agents.array.tobytes(),
            [(k, str(v)) for k, v in s.data.items()])


def saver(s, answers, base, seen, directory=None, fail=None):
    """The saving node of the simulation, with a condition which answers from
    the list and keeps what there was to save."""
    def condition(simulation):
        k = len(seen)
        if simulation is not s:
            raise AssertionError('condition called with something else')
        if fail == k:
            raise Stop()
        seen.append(frame(s))
        return answers[k]

    kw = dict(save_condition=condition, base_directory=base)
    if directory is not None:
        kw['save_directory'] = directory
    node = L.SaveSimulationData(s, **kw)
    node.add_to_simulation_logic()
    return node


def rows(path):
    with open(path, newline='') as fp:
        return list(csv.reader(fp))


def verify(rec, s, node, seen, answers, tag, dtype, path=None):
    """The files hold what was to be saved up to the last positive answer."""
    path = path or node.full_path
    done = answers[:len(seen)]
    last = max([k for k, v in enumerate(done) if v], default=-1) + 1
    cut = [k + 1 for k, v in enumerate(done) if v]
    want = [seen[a:b] for a, b in zip([0] + cut, cut)]
    rec.step()
    d = dict(answers=[bool(v) for v in answers], steps=len(seen), tag=tag)
    parts = list(io.load_npy(path, 'agents'))
    got = [[f.tobytes() for f in p] for p in parts]
    rec.check(got == [[f for f, _ in w] for w in want], 'agents',
              'saved agents are not those of the iterations',
              got=[len(p) for p in got], want=[len(w) for w in want], **d)
    rec.check(all(p.dtype == dtype for p in parts), 'dtype', 'records have '
              'another type', **d)
    csvfile = os.path.join(path, 'data.csv')
    table = rows(csvfile) if os.path.exists(csvfile) else []
    wt = [[k for k, _ in seen[0][1]]] + \
        [[v for _, v in r] for _, r in seen[:last]] if last else []
    rec.check(table == wt, 'data', 'saved data is not that of the iterations',
              got=table[:4], want=wt[:4], **d)
    meta = rows(os.path.join(path, 'metadata.csv'))
    rec.check(meta == [list(s.metadata), [str(v) for v in
                                          s.metadata.values()]],
              'metadata', 'saved metadata', got=meta, **d)
    if last:
        whole = io.load_npy_concatenated(path, 'agents')
        rec.check(len(whole) == last == len(table) - 1, 'aligned', 'as many '
                  'frames as rows', got=(len(whole), len(table)), **d)


def run_pattern(case, rec):
    n = case['n']
    for answers in itertools.product((False, True), repeat=n):
        with scratch(rec) as base:
            s, seen = build(case['a'], case['tree'])
            logic = s.logic
            node = saver(s, answers, base, seen)
            root = s.logic.root
            rec.check(s.logic is logic and (
                root is node) == (case['tree'] != 'deep'), 'tree',
                'the saving node is not placed above Reset', tree=case['tree'])
            rec.check(len(seen) == 0 and sorted(os.listdir(node.full_path)) ==
                      ['geometry.json', 'metadata.csv'], 'start',
                      'files before the first iteration',
                      got=os.listdir(node.full_path))
            s.exit_condition = lambda x: x.data['iterations'] == n
            if answers[0]:
                # looked at while the simulation runs
                for k in range(n):
                    s.update()
                    rec.step()
                    verify(rec, s, node, seen, answers, 'running',
                           s.agents.array.dtype)
            else:
                s.run()
                verify(rec, s, node, seen, answers, 'ended',
                       s.agents.array.dtype)
            rec.check(len(seen) == n, 'asked', 'the condition is asked once '
                      'per iteration', got=len(seen))
            # the rows are numbered by the iterations before
            rec.check([dict(r)['iterations'] for _, r in seen] ==
                      [str(k) for k in range(n)], 'numbers',
                      'iterations of the rows')
            rec.state((case['a'], case['tree'], answers))
            rec.trace()


def run_number(case, rec):
    """Any number of agents."""
    for answers in itertools.product((False, True), repeat=5):
        with scratch(rec) as base:
            s, seen = build(case['a'], n=case['n'])
            node = saver(s, answers, base, seen)
            for k in range(5):
                s.update()
                rec.step()
                verify(rec, s, node, seen, answers, 'number %d' % case['n'],
                       s.agents.array.dtype)
            rec.state((case['a'], case['n'], answers))
            rec.trace()


def run_exchange(case, rec):
    """The agents, their array or the data are exchanged between iterations;
    the node saves what the simulation has at the time."""
    n = case['n']
    for rest in itertools.product(range(len(EVENTS)), repeat=n - 1):
        for bits in itertools.product((False, True), repeat=n):
            with scratch(rec) as base:
                s, seen = build()
                node = saver(s, list(bits) + [True], base, seen)
                for k, e in enumerate((0, case['first']) + rest):
                    e = EVENTS[e]
                    if e in ('array', 'all'):
                        s.agents.array = s.agents.array.copy()
                        s.agents.array['mass'] += 40 + k
                    if e in ('agents', 'all'):
                        other = type(s.agents)(
                            agent_type=s.agents.agent_type)
                        other.array = s.agents.array.copy()
                        other.array['radius'] += 40 + k
                        s.agents = other
                    if e in ('data', 'all'):
                        s.data = type(s.data)(s.data)
                        s.data['time_tot'] += 40 + k
                    s.update()
                    rec.step()
                verify(rec, s, node, seen, list(bits) + [True], 'exchange',
                       s.agents.array.dtype)
                rec.state((case['first'], rest, bits))
                rec.trace()


def run_error(case, rec):
    n = case['n']
    for answers in itertools.product((False, True), repeat=n):
        for k in range(n):
            with scratch(rec) as base:
                s, seen = build(case['a'], 'root', k, case['at'])
                node = saver(s, answers, base, seen,
                             fail=k if case['at'] == 'own' else None)
                try:
                    for _ in range(n):
                        s.update()
                        rec.step()
                    rec.fail('error', 'the error was lost', at=k)
                except Stop:
                    pass
                rec.check(len(seen) == k, 'error-steps', 'iterations before '
                          'the error', got=len(seen), want=k)
                verify(rec, s, node, seen, answers, 'error',
                       s.agents.array.dtype)
                rec.state((case['a'], case['at'], answers, k))
                rec.trace()


def run_values(case, rec):
    """Answers of any kind count by their truth, up to numpy ones."""
    v = eval(VALUES[case['v']])
    for pattern in itertools.product((0, 1), repeat=3):
        answers = [v if p else True for p in pattern] + [False]
        with scratch(rec) as base:
            s, seen = build()
            node = saver(s, answers, base, seen)
            for _ in range(4):
                s.update()
                rec.step()
            verify(rec, s, node, seen, answers, VALUES[case['v']],
                   s.agents.array.dtype)
        rec.state((case['v'], pattern))
        rec.trace()


def run_two(case, rec):
    """Two simulations, every interleaving."""
    n = case['n']
    for order in sorted(set(itertools.permutations([0] * n + [1] * n))):
        if order[0] != case['first']:
            continue
        for bits in itertools.product((False, True), repeat=2 * n):
            answers = bits[:n], bits[n:]
            with scratch(rec) as base:
                runs = []
                for k in range(2):
                    name = {'name': None, 'names': 'sim%d' % k,
                            'dirs': 'same'}[case['same']]
                    s, seen = build(name=name, n=2 + k, speed=1 + 3 * k)
                    if k == 0:
                        stamp = s.timestamp
                    elif case['same'] == 'names':
                        # made at the same moment, of other names
                        s.timestamp = stamp
                        s.metadata['timestamp'] = str(stamp)
                    node = saver(s, answers[k], base, seen,
                                 directory='d%d' % k if case['same'] == 'dirs'
                                 else None)
                    runs.append((s, seen, node))
                paths = {r[2].full_path for r in runs}
                rec.check(len(paths) == 2 and len(os.listdir(base)) == 2,
                          'directories', 'two simulations save into one '
                          'directory', got=sorted(paths))
                for k in order:
                    runs[k][0].update()
                    rec.step()
                for k, (s, seen, node) in enumerate(runs):
                    verify(rec, s, node, seen, answers[k], 'two',
                           s.agents.array.dtype)
            rec.state((case['same'], order, bits))
            rec.trace(2)


def fields(k):
    P, LS = geo.Polygon, geo.LineString
    sq = P([(0, 0), (4, 0), (4, 4), (0, 4)])
    hole = P([(0, 0), (4, 0), (4, 4), (0, 4)],
             [[(1, 1), (2, 1), (2, 2)]])
    return [
        {}, {'domain': sq}, {'domain': sq, 'obstacles': LS([(0, 0), (4, 0)])},
        {'domain': hole, 'targets': [LS([(0, 0), (0, 4)])]},
        {'domain': sq, 'targets': [sq, LS([(0, 1), (2, 2), (3, 3)])],
         'spawns': [sq]},
        {'domain': sq, 'obstacles': geo.MultiLineString(
            [[(0, 0), (1, 0)], [(2, 0), (4, 0)]]), 'spawns': [sq, hole]},
        {'domain': sq, 'obstacles': sq.exterior},
        {'domain': sq, 'obstacles': hole, 'targets': [sq], 'spawns': [hole]},
    ][k]


def flat(g):
    """A geometry as nested tuples."""
    def tup(c):
        return tuple(tup(x) for x in c) if isinstance(c, (list, tuple)) \
            else float(c)
    if g is None:
        return None
    if isinstance(g, (list, tuple)):
        return [flat(x) for x in g]
    if g.is_empty:
        return None
    m = geo.mapping(g)
    return m['type'].replace('LinearRing', 'LineString'), tup(m['coordinates'])


def run_field(case, rec):
    kw = fields(case['f'])
    with scratch(rec) as base:
        s, seen = build(field=kw)
        node = saver(s, [True] * 3, base, seen)
        for k in range(4):
            rec.step()
            rec.state((case['f'], k))
            got = io.load_geometry_json(os.path.join(node.full_path,
                                                     'geometry.json'))
            want = {n: getattr(s.field, n) for n in
                    ('domain', 'obstacles', 'targets', 'spawns')}
            rec.check(set(got) == set(want), 'geometry-names',
                      'names of the saved geometries', got=sorted(got))
            for n, g in want.items():
                rec.check(flat(got.get(n)) == flat(g), 'geometry',
                          'saved geometry differs', name=n,
                          got=flat(got.get(n)), want=flat(g))
            for n, g in kw.items():
                rec.check(flat(got.get(n)) == flat(g), 'geometry-given',
                          'saved geometry is not the given one', name=n)
            if k < 3:
                s.update()
        rec.trace()


def run_place(case, rec):
    """Base directories of every kind."""
    with scratch(rec) as tmp:
        cwd = os.getcwd()
        try:
            os.chdir(tmp)
            os.mkdir('there')
            os.mkdir('with{0} b')
            p = case['p']
            base = ['.', 'there', os.path.join(tmp, 'there'),
                    'new/of many/parts', os.path.join(tmp, 'n2'),
                    'with{0} b', 'there/../there'][p]
            full = os.path.realpath(os.path.join(tmp, base))
            for directory in (None, 'given', 'a/b'):
                s, seen = build(name='Some name' if p % 2 else None)
                node = saver(s, [True, False, True], base, seen, directory)
                name = directory or '%s_%s' % (
                    s.name, str(s.timestamp).replace(' ', '_'))
                want = os.path.join(full, name)
                rec.check(os.path.realpath(node.full_path) ==
                          os.path.realpath(want), 'place', 'saved elsewhere',
                          got=node.full_path, want=want)
                for _ in range(3):
                    s.update()
                    rec.step()
                verify(rec, s, node, seen, [True, False, True], base,
                       s.agents.array.dtype)
                rec.state((p, directory))
                # nothing else was written
                files = sorted(os.path.relpath(os.path.join(r, f), want)
                               for r, _, fs in os.walk(want) for f in fs)
                rec.check(files == ['agents_0.npy', 'agents_1.npy', 'data.csv',
                                    'geometry.json', 'metadata.csv'], 'files',
                          'files of a simulation', got=files)
                rec.trace()
            # the working directory changes while the simulation runs
            os.mkdir('moved')
            for moves in itertools.product((False, True), repeat=3):
                os.chdir(tmp)
                s, seen = build(name='moving')
                node = saver(s, [True, False, True], base, seen,
                             'm' + ''.join('01'[m] for m in moves))
                path = os.path.realpath(node.full_path)
                for m in moves:
                    if m:
                        os.chdir('..' if os.getcwd() != tmp else 'moved')
                    s.update()
                    rec.step()
                verify(rec, s, node, seen, [True, False, True],
                       [base, moves], s.agents.array.dtype, path)
                rec.state((p, moves))
                rec.trace()
            rec.check(not os.listdir(os.path.join(tmp, 'moved')), 'moved',
                      'something was written into the new working directory')
        finally:
            os.chdir(cwd)
