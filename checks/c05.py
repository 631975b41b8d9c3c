"""C05: the table file holds a header and one row per sent record.

Explored: every sequence of (record, dump flag) up to the depth over several
record shapes; two tables in one directory in every interleaving; long
histories; records changed by the sender after sending.  Oracle: lists of
strings, the file read back with the csv reader."""
import csv
import itertools
import os
import pathlib
from collections import OrderedDict

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all flag histories to length 9 on 3 record shapes and to length '
             '5 on 10 shapes x 3 ways of reusing the record x basenames; all '
             'interleavings of 2 tables x 3 records x all flags; histories of '
             '2000 records',
    'thorough': 'flag histories to length 12 and 7; 2 tables x 4 records; '
                '20000 records'}
ASSUMPTIONS = ['every record of a table has the same keys in the same order',
               'ASCII text; the file did not exist before']

BASENAMES = ['data', 'data_0', 'a.b', 'data.csv', 'a{0}', 'x y', 'a[1]']


def setup():
    global np, io
    import numpy as np
    from crowddynamics import io


def record(kind, n, cls=dict):
    if kind == 'num':
        return cls([('iterations', n), ('time_tot', .1 * n), ('dt', .01)])
    if kind == 'one':
        return cls([('a', n)])
    if kind == 'quote':
        return cls([('k,1', 'v,%d' % n), ('q"', 'x"%d"' % n), ("l'", "'")])
    if kind == 'lines':
        return cls([('a', 'x\ny%d' % n), ('b\nc', 'p\r\nq'), ('d', ' s ')])
    if kind == 'none':
        return cls([('a', None), ('b', n), ('c', '')])
    if kind == 'np':
        return cls([('a', np.float64(.1 * n)), ('b', np.int64(n)),
                    ('c', np.sum(np.array([True] * (n % 3))))])
    if kind == 'special':
        return cls([('a', float('nan')), ('b', -1e-300 * n), ('c', 10 ** 30 + n),
                    ('d', True)])
    if kind == 'grow':
        return cls([('a', 'z' * (n * 700)), ('b', n)])
    if kind == 'shrink':
        return cls([('a', 'z' * (4000 - 500 * (n % 8))), ('b', n)])
    if kind == 'keys':
        return cls([(1, n), (2.5, 'x'), ('c', n)])
    if kind == 'many':
        return cls([('c%d' % k, k * n) for k in range(30)])
    raise KeyError(kind)


KINDS = ['num', 'one', 'quote', 'lines', 'none', 'np', 'special', 'grow',
         'shrink', 'keys', 'many']


def text(v):
    return '' if v is None else repr(v) if type(v) is float else str(v)


def cases(tier):
    deep = tier == 'thorough'
    out = []
    for kind in ('num', 'quote', 'grow'):
        for first in itertools.product((0, 1), repeat=3):
            out.append({'kind': 'flags', 'rec': kind, 'n': 12 if deep else 9,
                        'first': list(first)})
    for kind in KINDS:
        for reuse in ('fresh', 'mutate', 'mutate-before-flag'):
            out.append({'kind': 'reuse', 'rec': kind, 'reuse': reuse,
                        'n': 7 if deep else 5})
    for b in BASENAMES:
        out.append({'kind': 'names', 'base': b})
    for b in (('data', 'metadata'), ('a', 'a_0'), ('a', 'aa')):
        out.append({'kind': 'two', 'base': list(b), 'n': 4 if deep else 3})
    out.append({'kind': 'two-dirs', 'n': 3})
    for n, every in ((2000, 2000), (2000, 100), (300, 1)) + \
            (((20000, 20000),) if deep else ()):
        out.append({'kind': 'long', 'n': n, 'every': every})
    return out


class Store:
    def __init__(self, rec, directory, base):
        self.rec = rec
        self.path = os.path.join(str(directory), base + '.csv')
        self.real = io.save_csv(directory, base)
        self.real.send(None)
        self.rows, self.dumped = [], 0

    def send(self, record, flag, keep=None, between=None):
        keep = record if keep is None else keep
        if not self.rows:
            self.rows.append([text(k) for k in keep.keys()])
        self.rows.append([text(v) for v in keep.values()])
        self.real.send(record)
        if between:
            between()
        self.real.send(flag)
        self.rec.step()
        if flag:
            self.dumped = len(self.rows)

    def verify(self, tag):
        self.rec.step()
        if not os.path.exists(self.path):
            got = []
        else:
            with open(self.path, newline='') as fp:
                got = list(csv.reader(fp))
        want = self.rows[:self.dumped]
        if got != want:
            k = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b),
                     min(len(got), len(want)))
            self.rec.fail('rows', '%d lines expected, %d read, first '
                          'difference at line %d: %r / %r (%s)' % (
                              len(want), len(got), k,
                              str(got[k])[:80] if k < len(got) else None,
                              str(want[k])[:80] if k < len(want) else None,
                              tag))
            return False
        return True


def run_case(case, rec):
    kind = case['kind']
    if kind == 'flags':
        first = tuple(case['first'])
        for rest in itertools.product((0, 1), repeat=case['n'] - 3):
            flags = first + rest
            s = Store(rec, rec.tmpdir(), 'data')
            for k, f in enumerate(flags):
                s.send(record(case['rec'], k), bool(f))
                rec.state((case['rec'], flags[:k + 1]))
                if f and k in (1, 4) and not s.verify('flags %r' % (flags,)):
                    return
            if not s.verify('flags %r' % (flags,)):
                return
            rec.trace()
            rec.sample({'flags': flags})
    elif kind == 'reuse':
        for n in range(1, case['n'] + 1):
            for flags in itertools.product((0, 1), repeat=n):
                s = Store(rec, rec.tmpdir(), 'data')
                shared = record(case['rec'], 0, OrderedDict)
                for k, f in enumerate(flags):
                    want = record(case['rec'], k)
                    if case['reuse'] == 'fresh':
                        s.send(record(case['rec'], k, OrderedDict), bool(f),
                               keep=want)
                        continue
                    shared.update(want)
                    later = record(case['rec'], k + 7)
                    s.send(shared, bool(f), keep=want,
                           between=(lambda: shared.update(later))
                           if case['reuse'] != 'mutate' else None)
                rec.state((case['rec'], case['reuse'], flags))
                if not s.verify('%s %s %r' % (case['rec'], case['reuse'],
                                              flags)):
                    return
                rec.trace()
    elif kind == 'names':
        for b in [case['base']]:
            for form in ('str', 'path', 'sep'):
                for flags in itertools.product((0, 1), repeat=3):
                    d = os.path.join(rec.tmpdir(), 'run {0}')
                    os.mkdir(d)
                    s = Store(rec, {'str': d, 'path': pathlib.Path(d),
                                    'sep': d + os.sep}[form], b)
                    s.path = os.path.join(d, b + '.csv')
                    for k, f in enumerate(flags):
                        s.send(record('num', k), np.bool_(f) if k else f)
                    rec.state((b, form, flags))
                    if not s.verify('%r %s %r' % (b, form, flags)):
                        return
                    rec.trace()
    elif kind in ('two', 'two-dirs'):
        n = case['n']
        for order in set(itertools.permutations((0,) * n + (1,) * n)):
            for flags in itertools.product((0, 1), repeat=2 * n):
                if n > 3 and sum(flags) < n:
                    continue
                d = rec.tmpdir()
                if kind == 'two':
                    st = [Store(rec, d, b) for b in case['base']]
                else:
                    st = [Store(rec, d, 'a'), Store(rec, rec.tmpdir(), 'a')]
                for k, (w, f) in enumerate(zip(order, flags)):
                    st[w].send(record(('num', 'quote')[w], k), bool(f))
                rec.state((kind, order, flags))
                for s in st:
                    if not s.verify('%r order %r flags %r' % (
                            case.get('base'), order, flags)):
                        return
                rec.trace()
    elif kind == 'long':
        s = Store(rec, rec.tmpdir(), 'data')
        for k in range(case['n']):
            s.send(record('num', k), (k + 1) % case['every'] == 0)
        rec.state((case['n'], case['every']))
        s.verify('%(n)d records, dump every %(every)d' % case)
        rec.trace()
