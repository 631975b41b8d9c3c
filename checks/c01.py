"""C01 spatial index: every query returns exactly what was stored in the
blocks around it, after every history of insertions and queries.

Explicit-state exploration of all insertion histories over an alphabet of
points, real MutableBlockList in lock step with a dict-of-lists model."""
import itertools
import math
from array import array
from collections import defaultdict

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all insertion histories up to length 4 over alphabets of 5-9 '
             'points in 1-3 dimensions, 4 cell sizes, 3 container types, 3 key '
             'types; after each history every alphabet point is queried at '
             'radius 0..2 twice with the first answer mutated in between; '
             'scaled histories of 400 insertions, 600 into few blocks; all pairs of 40 '
             'coordinates next to block borders',
    'thorough': 'as quick with length 5',
}
ASSUMPTIONS = ['points lie on exactly representable coordinates or well inside '
               'a block, so no verdict hangs on rounding of the block index']

CELLS = [1.0, 0.5, 2.0, 0.1]


def setup():
    global BL, SortedList
    from crowddynamics.core.block_list import MutableBlockList as BL
    from sortedcontainers.sortedlist import SortedList


# coordinates in units of the cell size; for 0.1 only block interiors are used
def alphabet(dim, cell):
    inner = [-1.5, -0.5, 0.5, 1.5, 3.5]
    edge = [-1.0, 0.0, 1.0]
    units = inner if cell == 0.1 else inner + edge
    if dim == 1:
        return [(u * cell,) for u in units]
    if dim == 2:
        pts = [(-.5, -.5), (.5, -.5), (-.5, .5), (.5, .5), (1.5, -1.5),
               (2.5, .5), (.25, .75)]
        if cell != 0.1:
            pts += [(0., 0.), (1., -1.)]
        return [(a * cell, b * cell) for a, b in pts]
    if dim == 3:
        pts = [(.5, .5, .5), (-.5, .5, -.5), (1.5, -.5, .5), (.5, .5, -1.5),
               (2.5, .5, .5)]
        return [tuple(a * cell for a in p) for p in pts]
    pts = [(.5,) * 4, (.5, .5, .5, -.5), (-1.5, .5, .5, .5)]
    return [tuple(a * cell for a in p) for p in pts]


CONT = {'list': lambda: list, 'sorted': lambda: SortedList,
        'array': lambda: (lambda: array('i'))}


def cases(tier):
    depth = {1: 4, 2: 4, 3: 4, 4: 4}
    if tier == 'thorough':
        depth = {1: 5, 2: 5, 3: 6, 4: 7}
    out = []
    for cell in CELLS:
        for dim in (1, 2, 3, 4):
            n = len(alphabet(dim, cell))
            for first in range(n):
                for cont in ('list', 'sorted', 'array'):
                    d = depth[dim]
                    if cont != 'list' or cell not in (1.0, 0.1):
                        d -= 1
                    out.append({'kind': 'hist', 'cell': cell, 'dim': dim,
                                'first': first, 'cont': cont, 'depth': d})
    for cell in CELLS:
        for dim in (1, 2, 3):
            out.append({'kind': 'scaled', 'cell': cell, 'dim': dim})
    for cell in (1.0, 0.5):
        out.append({'kind': 'full', 'cell': cell})
    for cell in (1.0, 0.5, 2.0):
        out.append({'kind': 'border', 'cell': cell})
    out.append({'kind': 'badkey'})
    out.append({'kind': 'badsize'})
    out.append({'kind': 'types'})
    out.append({'kind': 'two'})
    out.append({'kind': 'kinds'})
    return out


def block(p, cell):
    # ints here are exact: coordinates are multiples of cell/2 (or interiors)
    return tuple(math.floor(round(x / cell, 6)) for x in p)


class Model:
    def __init__(self, cell):
        self.cell = cell
        self.d = defaultdict(list)

    def put(self, p, v):
        self.d[block(p, self.cell)].append(v)

    def near(self, p, r):
        b = block(p, self.cell)
        out = []
        for k, vals in self.d.items():
            if all(abs(x - y) <= r for x, y in zip(k, b)):
                out += vals
        return sorted(out)

    def get(self, p):
        return sorted(self.d.get(block(p, self.cell), []))

    def key(self):
        return tuple(sorted((k, tuple(sorted(v))) for k, v in self.d.items()))


def compare(rec, bl, model, pts, radii, tag, mutate=True):
    for p in pts:
        for r in radii:
            want = model.near(p, r)
            for rnd in (0, 1):
                ans = bl.nearest(p, radius=r)
                got = sorted(ans)
                rec.step()
                if got != want:
                    rec.fail('nearest', 'nearest(%r, radius=%d) returned %r, '
                             'stored in reach: %r (%s)' % (p, r, got, want, tag))
                    return False
                if not mutate:
                    break
                # the answer belongs to the caller: spoiling it must not matter
                if rnd == 0:
                    try:
                        if hasattr(ans, 'append') and not \
                                isinstance(ans, SortedList):
                            ans.append(77)
                        elif hasattr(ans, 'add'):
                            ans.add(77)
                    except (TypeError, ValueError, AttributeError):
                        break
        # no-argument form has radius 1
        rec.step()
        if sorted(bl.nearest(p)) != model.near(p, 1):
            rec.fail('nearest-default', 'nearest(%r) differs from radius 1' % (p,))
            return False
        got = sorted(bl[p])
        rec.step()
        if got != model.get(p):
            rec.fail('get', 'block of %r holds %r, stored there: %r (%s)' % (
                p, got, model.get(p), tag))
            return False
    return True


def run_case(case, rec):
    import numpy as np
    kind = case['kind']
    if kind == 'hist':
        cell, dim = case['cell'], case['dim']
        pts = alphabet(dim, cell)
        make = CONT[case['cont']]()
        radii = (0, 1, 2) if dim < 4 else (0, 1)
        for length in range(0, case['depth']):
            for rest in itertools.product(range(len(pts)), repeat=length):
                seq = (case['first'],) + rest
                bl, model = BL(cell, make), Model(cell)
                for n, k in enumerate(seq):
                    bl[pts[k]] = n
                    model.put(pts[k], n)
                    rec.step()
                key = (cell, dim, case['cont'], model.key())
                rec.state(key)
                # queries at the last point and two others; all at full depth 2
                qs = pts if length <= 1 else [
                    pts[seq[-1]], pts[(seq[-1] + 1) % len(pts)],
                    pts[(seq[0] + 2) % len(pts)]]
                if not compare(rec, bl, model, qs, radii, 'history %r' % (seq,)):
                    return
                rec.trace()
                rec.sample({'inserted': [pts[k] for k in seq]})
    elif kind == 'scaled':
        cell, dim = case['cell'], case['dim']
        bl, model = BL(cell), Model(cell)
        side = {1: 40, 2: 8, 3: 4}[dim]
        offs = [(-side // 2 + i + .5) * cell for i in range(side)]
        grid = list(itertools.product(offs, repeat=dim))
        n = 0
        for rnd in range(4):
            for k, p in enumerate(grid):
                bl[p] = n
                model.put(p, n)
                n += 1
                if k % 17 == 0:
                    # queries interleaved with insertions
                    if sorted(bl.nearest(p, radius=1)) != model.near(p, 1):
                        rec.fail('nearest', 'after %d insertions' % n)
                        return
                rec.step()
            rec.state((cell, dim, rnd))
            if not compare(rec, bl, model, grid[::7], (0, 1, 3), 'scaled'):
                return
        far = tuple(1e6 * cell + .5 * cell for _ in range(dim))
        bl[far] = -1
        model.put(far, -1)
        compare(rec, bl, model, [far, grid[0]], (0, 1), 'far point')
        rec.trace()
    elif kind == 'border':
        # points next to the borders of blocks, the cell size a power of two
        cell = case['cell']
        near = [b + e for b in (-2., -1., 1., 2., 3.)
                for e in (-2. ** -50, -2. ** -40, -2. ** -30, 0., 2. ** -30,
                          2. ** -40, 2. ** -50)] + \
            [-2. ** -60, -2. ** -1000, 0., 2. ** -1000, 2. ** -60]
        for u, v in itertools.product(near, repeat=2):
            bl = BL(cell)
            bl[(u * cell, .5 * cell)] = 'a'
            bl[(.5 * cell, u * cell)] = 'b'
            a = (math.floor(u), 0), (0, math.floor(u))
            q = (v * cell, .5 * cell)
            b = (math.floor(v), 0)
            for r in (0, 1):
                want = [x for x, k in zip('ab', a)
                        if max(abs(k[0] - b[0]), abs(k[1] - b[1])) <= r]
                rec.step()
                if sorted(bl.nearest(q, radius=r)) != want:
                    rec.fail('border', 'stored %r at %r times the cell size, '
                             'nearest at %r within %d blocks: %r' % (
                                 want, u, v, r, bl.nearest(q, radius=r)))
                    return
            rec.state((cell, u, v))
            rec.trace()
    elif kind == 'full':
        # many values in one block, among few and many others
        for dim in (1, 2, 3):
            for cont in CONT:
                bl, model = BL(case['cell'], CONT[cont]()), Model(case['cell'])
                pts = alphabet(dim, case['cell'])
                for n in range(600):
                    p = pts[0 if n % 7 else n // 7 % len(pts)]
                    bl[p] = n
                    model.put(p, n)
                    rec.step()
                    if n % 60 == 59:
                        rec.state((dim, cont, case['cell'], n))
                        if not compare(rec, bl, model, pts, (0, 1), 'full'):
                            return
                rec.trace()
    elif kind == 'badsize':
        for cell in (0, 0.0, -1, -.5, -1e-9, float('-inf')):
            for default in (list, SortedList):
                try:
                    BL(cell, default)
                except Exception:   # any refusal
                    pass
                else:
                    rec.fail('badsize', 'cell size %r accepted' % cell)
                rec.step()
                rec.state((cell, default.__name__))
                rec.trace()
        for default in (None, 3, [], 'list'):
            try:
                bl = BL(1.0, default)
                bl[(.5, .5)] = 1
            except Exception:
                pass
            else:
                rec.fail('badlist', 'container %r accepted' % (default,))
            rec.step()
            rec.state(repr(default))
    elif kind == 'badkey':
        for bad in (5, 3.5, None, object(), ('a', 'b'), (None, 1.0), 'xy',
                    (1.0, 'z')):
            for cell in (1.0, 0.5):
                bl, model = BL(cell), Model(cell)
                bl[(.25, .25)] = 1
                model.put((.25, .25), 1)
                for op in ('set', 'get', 'nearest'):
                    try:
                        if op == 'set':
                            bl[bad] = 9
                        elif op == 'get':
                            bl[bad]
                        else:
                            bl.nearest(bad)
                    except KeyError:
                        pass
                    else:
                        rec.fail('badkey', '%s with key %r did not raise '
                                 'KeyError' % (op, bad))
                        return
                    rec.step()
                compare(rec, bl, model, [(.25, .25), (-.25, .25)], (0, 1),
                        'after refused key')
                rec.state((repr(type(bad)), cell))
                rec.trace()
    elif kind == 'types':
        # the same point given as tuple, list, array, ints: one block
        forms = [tuple, list, np.array, lambda p: tuple(int(x) for x in p),
                 lambda p: np.array(p, dtype=np.int64),
                 lambda p: np.array(p, dtype=np.float32)]
        for cell in (1.0, 2.0, 0.5, 1, 2):
            for p in ((0., 0.), (-3., 2.), (4., -4.)):
                for f, g in itertools.product(forms, repeat=2):
                    bl = BL(cell)
                    bl[f(p)] = 'v'
                    for r in (0, 1):
                        if list(bl.nearest(g(p), radius=r)) != ['v']:
                            rec.fail('types', 'stored under %r, not found under '
                                     '%r' % (f(p), g(p)))
                            return
                    if list(bl[g(p)]) != ['v']:
                        rec.fail('types', 'stored under %r, not found under %r'
                                 % (f(p), g(p)))
                        return
                    rec.step(3)
                    rec.trace()
                rec.state((cell, p))
    elif kind == 'two':
        # two indexes never share contents
        for a, b in itertools.product([(.5, .5), (-.5, .5), (2.5, .5)], repeat=2):
            x, y = BL(1.0), BL(1.0)
            mx, my = Model(1.0), Model(1.0)
            for n in range(3):
                x[a] = n
                mx.put(a, n)
                y[b] = 10 + n
                my.put(b, 10 + n)
                compare(rec, x, mx, [a, b], (0, 1), 'two indexes')
                compare(rec, y, my, [a, b], (0, 1), 'two indexes')
            rec.state((a, b))
            rec.trace()
    elif kind == 'kinds':
        # any value may be stored, also falsy ones and repeated ones
        vals = [0, '', None, (), False, 0, 'a', 'a', 1.5]
        for perm in itertools.permutations(range(4)):
            bl = BL(1.0)
            want = []
            for k in perm:
                for v in (vals[k], vals[k + 4]):
                    bl[(.5, .5)] = v
                    want.append(v)
                if list(map(repr, bl.nearest((.5, .5), radius=0))) != \
                        list(map(repr, want)) and \
                        sorted(map(repr, bl.nearest((.5, .5), radius=0))) != \
                        sorted(map(repr, want)):
                    rec.fail('kinds', 'stored %r, returned %r' % (
                        want, bl.nearest((.5, .5), radius=0)))
                    return
                rec.step(2)
            rec.state(perm)
            rec.trace()
