"""C04: what was dumped with the array storage is what loading returns.

Explored: every sequence of (frame, dump flag) up to the depth, over frame
kinds x basenames x directory forms; two storages of one directory driven in
every interleaving; long histories around the sizes where digits or buffers
roll over.  Oracle: a list of lists of frames."""
import itertools
import os
import pathlib

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all flag histories to length 7 on 3 frame kinds, to length 4 on '
             '11 frame kinds x 4 ways of reusing the frame buffer and on 14 '
             'basenames among foreign files; all interleavings of 2 storages '
             'x 3 frames x all flags; histories of 12, 105 dumps, 1100 frames; all patterns of '
             'repeated frames to length 5; all sequences of 3 frames out of '
             '6 dtypes and numbers of rows',
    'thorough': 'flag histories to length 11, the rest to length 6; '
                'interleavings of 2 storages x 4 frames; 1005 dumps'}
ASSUMPTIONS = ['frames of one storage share shape (but for the number of '
               'rows) and are 1-D or 2-D',
               'files sit in the directory given to the storage, which no '
               'earlier storage of the same basename used']

BASENAMES = ['agents', 'data_1', 'a.b', 'agents_0', 'npy', 'x' * 40, 'a[1]',
             'a+b', '(a', 'a{0}', '{index}', '_', '7', 'a b']
FLAGS = {'bool': (False, True), 'int': (0, 1), 'np': None}


def setup():
    global np, io
    import numpy as np
    from crowddynamics import io


def frame(kind, n):
    """n-th frame of a kind; all frames of a history differ."""
    if kind == 'f1':
        return np.array([n, -n, .1 * n])
    if kind == 'f2':
        return np.arange(6.).reshape(3, 2) * 1.1 + n
    if kind == 'i1':
        return np.array([n, 2 ** 40 + n, -n], dtype=np.int64)
    if kind == 'special':
        return np.array([np.nan, np.inf, -np.inf, -0.0, 5e-324, n])
    if kind == 'bool':
        return np.array([n % 2 == 0, True, n % 3 == 0])
    if kind == 'struct':
        a = np.zeros(2, dtype=[('position', np.float64, (2,)),
                               ('active', np.bool_), ('target', np.uint8)])
        a['position'] = n + .25
        a['active'] = n % 2
        a['target'] = n
        return a
    if kind == 'struct1':
        return np.array([(n, 'x%d' % n)], dtype=[('a', 'f4'), ('b', 'U4')])
    if kind == 'one':
        return np.array([float(n)])
    if kind == 'empty':
        return np.zeros((0, 2))
    if kind == 'fortran':
        return np.asfortranarray(np.arange(6.).reshape(2, 3) + n)
    if kind == 'slice':
        return (np.arange(20.) + n)[::3]
    raise KeyError(kind)


KINDS = ['f1', 'f2', 'i1', 'special', 'bool', 'struct', 'struct1', 'one',
         'empty', 'fortran', 'slice']


def rows(fr):
    return np.atleast_2d(np.asarray(fr))


def stack(frames):
    # the oracle's own stacking: row by row
    parts = [rows(f) for f in frames]
    out = np.empty((sum(p.shape[0] for p in parts),) + parts[0].shape[1:],
                   dtype=parts[0].dtype)
    k = 0
    for p in parts:
        out[k:k + p.shape[0]] = p
        k += p.shape[0]
    return out


def same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and \
        (a.tobytes() == b.tobytes() if a.dtype.names is None else
         all(same(np.ascontiguousarray(a[f]), np.ascontiguousarray(b[f]))
             for f in a.dtype.names))


def cases(tier):
    deep = tier == 'thorough'
    out = []
    n = 11 if deep else 7
    for kind in ('f1', 'f2', 'struct'):
        for first in itertools.product((0, 1), repeat=3):
            out.append({'kind': 'flags', 'frame': kind, 'n': n,
                        'first': list(first)})
    for kind in KINDS:
        for reuse in ('fresh', 'mutate', 'mutate-before-flag', 'view'):
            out.append({'kind': 'reuse', 'frame': kind, 'reuse': reuse,
                        'n': 6 if deep else 4})
    for b in BASENAMES:
        out.append({'kind': 'names', 'base': b, 'n': 4 if deep else 3})
    for b in (('a', 'a_0'), ('a', 'aa'), ('b_a', 'a'), ('a_0.npy', 'a'),
              ('a', 'a_1_0'), ('a', 'A'), ('a_1', 'a')):
        out.append({'kind': 'two', 'base': list(b), 'n': 3 if not deep else 4})
    out.append({'kind': 'two-dirs', 'n': 3})
    for dumps, per in ((12, 1), (12, 2), (105, 1), (3, 40), (1, 300),
                       (2, 1100), (25, 7)) + \
            (((1005, 1), (1, 5000)) if deep else ()):
        out.append({'kind': 'long', 'dumps': dumps, 'per': per})
    for rep in itertools.product((0, 1), repeat=5):
        out.append({'kind': 'repeat', 'rep': list(rep)})
    for first in range(6):
        out.append({'kind': 'mixed', 'first': first, 'n': 4 if deep else 3})
    out.append({'kind': 'equal'})
    for flag in ('bool', 'int', 'np'):
        out.append({'kind': 'flagtypes', 'flag': flag})
    return out


class Store:
    """Real storage and model side by side."""

    def __init__(self, rec, directory, base):
        self.rec, self.dir, self.base = rec, directory, base
        self.real = io.save_npy(directory, base)
        self.real.send(None)
        self.pending, self.files = [], []

    def send(self, fr, flag, keep=None, between=None):
        self.real.send(fr)
        self.pending.append(np.array(fr if keep is None else keep, copy=True))
        if between:
            between()
        self.real.send(flag)
        self.rec.step()
        if flag:
            self.files.append(stack(self.pending))
            self.pending = []

    def verify(self, tag):
        rec = self.rec
        found = list(io.find_npy_files(self.dir, self.base))
        idx = [i for i, _ in found]
        if len(found) != len(self.files) or len(set(idx)) != len(idx):
            rec.fail('count', '%d dumps, find_npy_files reports indices %r (%s)'
                     % (len(self.files), sorted(idx), tag))
            return False
        # the index orders the dumps
        for (i, path), want in zip(sorted(found, key=lambda x: x[0]),
                                   self.files):
            if not same(np.load(path), want):
                rec.fail('index', 'file of index %r does not hold the dump of '
                         'that rank (%s)' % (i, tag))
                return False
        got = list(io.load_npy(self.dir, self.base))
        if len(got) != len(self.files):
            rec.fail('load', '%d dumps, %d arrays loaded (%s)' % (
                len(self.files), len(got), tag))
            return False
        for k, (a, b) in enumerate(zip(got, self.files)):
            if not same(a, b):
                rec.fail('load', 'array %d of %d differs from what was dumped '
                         '(%s): %r / %r' % (k, len(got), tag, a.tolist()[:4],
                                            b.tolist()[:4]))
                return False
        if got:
            allof = io.load_npy_concatenated(self.dir, self.base)
            if not same(allof, stack(self.files)):
                rec.fail('concat', 'concatenated load differs (%s)' % tag)
                return False
        rec.step(2)
        return True


def run_case(case, rec):
    kind = case['kind']
    if kind == 'flags':
        n = case['n']
        first = tuple(case['first'])
        for length in range(len(first), n + 1):
            if length < n and length > 5:
                continue     # prefixes of the longest are verified on the way
            for rest in itertools.product((0, 1), repeat=length - len(first)):
                flags = first + rest
                d = rec.tmpdir()
                s = Store(rec, d, 'agents')
                for k, f in enumerate(flags):
                    s.send(frame(case['frame'], k), bool(f))
                    rec.state((case['frame'], flags[:k + 1]))
                if not s.verify('flags %r' % (flags,)):
                    return
                rec.trace()
                rec.sample({'flags': flags})
    elif kind == 'reuse':
        for flags in itertools.product((0, 1), repeat=case['n']):
            d = rec.tmpdir()
            s = Store(rec, d, 'agents')
            base = frame(case['frame'], 0)
            for k, f in enumerate(flags):
                want = frame(case['frame'], k)
                if case['reuse'] == 'fresh':
                    s.send(want, bool(f))
                elif case['reuse'] == 'mutate':
                    base[...] = want
                    s.send(base, bool(f), keep=want)
                elif case['reuse'] == 'mutate-before-flag':
                    base[...] = want
                    later = frame(case['frame'], k + 7)

                    def spoil():
                        base[...] = later
                    s.send(base, bool(f), keep=want, between=spoil)
                else:
                    base[...] = want
                    s.send(base[:], bool(f), keep=want)
            rec.state((case['frame'], case['reuse'], flags))
            if not s.verify('%s %s flags %r' % (case['frame'], case['reuse'],
                                                flags)):
                return
            rec.trace()
    elif kind == 'names':
        b = case['base']
        for form in ('str', 'path', 'sep'):
            for foreign in (0, 1):
                for flags in itertools.product((0, 1), repeat=case['n']):
                    d = rec.tmpdir()
                    if foreign == 1:
                        d = os.path.join(d, 'run_0 {x}')
                        os.mkdir(d)
                    where = {'str': d, 'path': pathlib.Path(d),
                             'sep': d + os.sep}[form]
                    if foreign:
                        for name in (b + '.npy', b + '_x.npy', b + '_.npy',
                                     b + '_0.npy.bak', 'z' + b + '_9.npy',
                                     b + 'z_8.npy', b + '_1.csv',
                                     b + '_1_7.npy', '_' + b + '_5.npy',
                                     b + '_3npy', b + '_-4.npy', b + '_2a.npy'):
                            np.save(open(os.path.join(d, name), 'wb'),
                                    np.array([99.]))
                    s = Store(rec, where, b)
                    for k, f in enumerate(flags):
                        s.send(frame('f1', k), bool(f))
                    rec.state((b, form, foreign, flags))
                    if not s.verify('basename %r flags %r foreign files %d' % (
                            b, flags, foreign)):
                        return
                    rec.trace()
    elif kind in ('two', 'two-dirs'):
        n = case['n']
        for order in set(itertools.permutations((0,) * n + (1,) * n)):
            for flags in itertools.product((0, 1), repeat=2 * n):
                if n > 3 and sum(flags) < n:
                    continue
                d = rec.tmpdir()
                if kind == 'two':
                    st = [Store(rec, d, b) for b in case['base']]
                else:
                    e = rec.tmpdir()
                    st = [Store(rec, d, 'a'), Store(rec, e, 'a')]
                for k, (w, f) in enumerate(zip(order, flags)):
                    st[w].send(frame('f1', k), bool(f))
                rec.state((kind, order, flags))
                for s in st:
                    if not s.verify('%r order %r flags %r' % (
                            case.get('base'), order, flags)):
                        return
                rec.trace()
    elif kind == 'long':
        d = rec.tmpdir()
        s = Store(rec, d, 'agents')
        k = 0
        for dump in range(case['dumps']):
            for j in range(case['per']):
                s.send(frame('f1', k), j == case['per'] - 1)
                k += 1
            rec.state((case['dumps'], case['per'], dump))
        s.send(frame('f1', k), False)
        s.verify('%(dumps)d dumps of %(per)d frames' % case)
        rec.trace()
    elif kind == 'repeat':
        # frames that repeat the one before are frames all the same
        for flags in itertools.product((0, 1), repeat=5):
            for kd in ('f2', 'struct', 'empty'):
                d = rec.tmpdir()
                s = Store(rec, d, 'agents')
                n = 0
                for k, f in enumerate(flags):
                    n += 1 - case['rep'][k]
                    s.send(frame(kd, n), bool(f))
                rec.state((tuple(case['rep']), flags, kd))
                if not s.verify('repeated frames %r' % (case['rep'],)):
                    return
                rec.trace()
    elif kind == 'mixed':
        # kinds of numbers and numbers of rows change from frame to frame
        def other(k, n):
            return [np.array([[n, -n]]), np.array([[n + .1, 1e300]]),
                    np.array([[n, .5]], dtype=np.float32),
                    np.array([[n % 2 == 0, True]]), np.zeros((0, 2)),
                    np.arange(6.).reshape(3, 2) - n][k]
        for n in range(case['n']):
            for rest in itertools.product(range(6), repeat=n):
                ks = (case['first'],) + rest
                for flags in itertools.product((0, 1), repeat=n + 1):
                    d = rec.tmpdir()
                    store = io.save_npy(d, 'agents')
                    store.send(None)
                    files, rows = [], []
                    for j, (k, f) in enumerate(zip(ks, flags)):
                        fr = other(k, j + 1)
                        rows += fr.tolist()
                        store.send(fr)
                        store.send(bool(f))
                        rec.step()
                        if f:
                            files.append(rows)
                            rows = []
                    got = [a.tolist() for a in io.load_npy(d, 'agents')]
                    rec.state((ks, flags))
                    if got != files:
                        rec.fail('mixed', 'frames of several kinds %r, flags '
                                 '%r: loaded %r instead of %r' % (
                                     ks, flags, got, files))
                        return
                    if files:
                        got = io.load_npy_concatenated(d, 'agents').tolist()
                        if got != sum(files, []):
                            rec.fail('mixed', 'concatenated load of several '
                                     'kinds %r, flags %r' % (ks, flags))
                            return
                    rec.trace()
    elif kind == 'equal':
        # frames which are equal as numbers are not the same frame
        kinds = [np.array([[0.0, 1.0]]), np.array([[-0.0, 1.0]]),
                 np.array([[0, 1]]), np.array([[0.0, np.nan]]),
                 np.array([[False, True]])]

        def text(a):
            return [[repr(float(x)) for x in row] for row in a.tolist()]
        for ks in itertools.product(range(len(kinds)), repeat=3):
            for flags in itertools.product((0, 1), repeat=3):
                d = rec.tmpdir()
                store = io.save_npy(d, 'agents')
                store.send(None)
                want, files = [], []
                for k, f in zip(ks, flags):
                    store.send(kinds[k])
                    store.send(bool(f))
                    rec.step()
                    want.append(kinds[k])
                    if f:
                        files.append(want)
                        want = []
                got = list(io.load_npy(d, 'agents'))
                rec.state((ks, flags))
                rec.trace()
                ok = len(got) == len(files) and all(
                    text(g) == sum((text(x) for x in w), [])
                    for g, w in zip(got, files))
                if not ok:
                    rec.fail('equal', 'frames which are equal as numbers, %r, '
                             'flags %r: loaded %r' % (ks, flags, got))
                    return
    elif kind == 'flagtypes':
        yes, no = {'bool': (True, False), 'int': (1, 0),
                   'np': (np.bool_(True), np.bool_(False))}[case['flag']]
        for flags in itertools.product((0, 1), repeat=5):
            d = rec.tmpdir()
            s = Store(rec, d, 'agents')
            for k, f in enumerate(flags):
                s.send(frame('f2', k), yes if f else no)
            rec.state((case['flag'], flags))
            if not s.verify('flags of type %s' % type(yes)):
                return
            rec.trace()
