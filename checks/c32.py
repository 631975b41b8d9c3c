"""C32: Poisson clocks tick at the drawn times, players in order of them.

Explored: every sequence of draws (random waiting times and shuffles become
choices) up to a depth, for up to 3 players, on the real generators.  Oracle:
running sums of the waiting times; the order of the players is that of their
ticks."""
import itertools

from mc import rand

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'clock: all sequences of up to 6 waiting times out of 5, 4 '
             'intervals x 5 windows; timings: all draws of up to 3 players '
             '(shuffle x waiting times out of 4, up to 9 draws), 3 '
             'windows; consumed whole or in part; vectors: 5 sizes x draws; crowds of 12 '
             'to 130 players under 9 scripts of draws',
    'thorough': 'up to 8 waiting times; 11 draws'}
ASSUMPTIONS = ['waiting times are drawn from numpy.random (scaled by the '
               'interval); which player gets which clock is found from all '
               'assignments']
CASE_TIMEOUT = 800
WAIT = [.125, .5, 1.0, 1.75, 3.0]


def setup():
    global np, R
    import numpy as np
    from crowddynamics.core import rand as R


def cases(tier):
    t = tier == 'thorough'
    out = []
    for interval in (1.0, .25, 2.0, .01):
        for dt in (0.0, .5, 1.0, 2.5, 4.0):
            out.append({'kind': 'clock', 'interval': interval, 'dt': dt,
                        'n': 8 if t else 6})
    for players in ([], [0], [3], [1, 0], [2, 7], [4, 1, 6]):
        for dt in (.5, 1.0, 2.0):
            for interval in (1.0, .5):
                out.append({'kind': 'timings', 'players': players, 'dt': dt,
                            'interval': interval, 'n': 11 if t else 9})
    out += [{'kind': 'vectors', 'n': n} for n in range(5)]
    out += [{'kind': 'crowd', 'n': n} for n in (12, 17, 40, 130)]
    return out


class Waits(rand.Draws):
    """Waiting times from a list of multiples of the scale."""

    def __init__(self):
        super().__init__()
        self.log = []

    def exponential(self, scale=1.0, size=None):
        def one():
            w = WAIT[int(self.u() * len(WAIT))] * float(scale)
            self.log.append(('wait', w))
            return w
        return self.many(size, one)


def owned_waits():
    import contextlib

    @contextlib.contextmanager
    def cm():
        with rand.owned():
            d = Waits()
            for name, m in rand.NAMES.items():
                setattr(np.random, name, getattr(d, m))
            yield d
    return cm()


def run_case(case, rec):
    with owned_waits() as d:
        globals()['run_' + case['kind']](case, rec, d)


LETTERS = [(k + .5) / len(WAIT) for k in range(len(WAIT))]


def run_clock(case, rec, d):
    interval, dt = case['interval'], case['dt']

    def run():
        d.log = []
        return list(R.poisson_clock(interval, dt))

    for seq, got in rand.explore(d, LETTERS, run, case['n']):
        if got is None:      # not over yet: only within the window
            waits = [w for _, w in d.log]
            rec.check(sum(waits) < dt, 'stop', 'the clock goes on past the '
                      'window', waits=waits, interval=interval, dt=dt)
            continue
        rec.step(len(seq))
        rec.state((interval, dt, seq))
        rec.trace()
        waits = [w for _, w in d.log]
        want = []
        t = 0.0
        for w in waits:
            t += w
            if t < dt:
                want.append(t)
        rec.check(len(got) == len(want) and all(
            abs(a - b) < 1e-12 for a, b in zip(got, want)), 'clock',
            'ticks of the clock', waits=waits, interval=interval, dt=dt,
            got=got, want=want)
        # the clock stops at the first time past the window, and only there
        rec.check(len(waits) == len(want) + 1, 'stop', 'the clock looks '
                  'further than the window', waits=waits, dt=dt)
        rec.check(all(abs(w / interval - v) < 1e-9 for w, v in zip(
            waits, [WAIT[k] for k in seq])), 'scale', 'waiting times are not '
            'scaled by the interval', waits=waits, interval=interval)


def run_timings(case, rec, d):
    interval, dt = case['interval'], case['dt']
    original = list(case['players'])
    box = {}

    def run():
        d.log = []
        box['arr'] = np.array(original, dtype=np.int64)
        return [int(i) for i in R.poisson_timings(box['arr'], interval, dt)]

    for seq, got in rand.explore(d, LETTERS[:4], run, case['n']):
        if got is None:      # not over yet: only with clocks still going
            done, t = 0, 0.0
            for _, w in d.log:
                t += w
                if t >= dt:
                    done, t = done + 1, 0.0
            rec.check(done < len(original), 'clocks', 'clocks go on past the '
                      'window', players=original, dt=dt,
                      waits=[w for _, w in d.log])
            continue
        rec.step(len(seq))
        rec.state((tuple(original), interval, dt, seq))
        rec.trace()
        rec.check(box['arr'].tolist() == original, 'players', 'the players '
                  'were reordered', got=box['arr'].tolist(), want=original)
        # the clocks, one after another: each ends past the window
        clocks, t, cur = [], 0.0, []
        for _, w in d.log:
            t += w
            if t < dt:
                cur.append(t)
            else:
                clocks.append(cur)
                t, cur = 0.0, []
        de = dict(players=original, waits=[w for _, w in d.log], dt=dt, got=got)
        if not rec.check(len(clocks) == len(original) and not cur, 'clocks',
                         'not one clock per player', clocks=clocks, **de):
            continue
        ok = False
        for order in itertools.permutations(original):
            ticks = sorted((t, i) for i, c in zip(order, clocks) for t in c)
            times = [t for t, _ in ticks]
            if sorted(i for _, i in ticks) != sorted(got):
                continue
            # equal times in any order
            good = True
            k = 0
            while k < len(ticks) and good:
                j = k
                while j < len(ticks) and times[j] - times[k] < 1e-12:
                    j += 1
                good = sorted(i for _, i in ticks[k:j]) == sorted(got[k:j])
                k = j
            ok = ok or good
        rec.check(ok, 'order', 'players are not updated in the order of '
                  'their clocks', clocks=clocks, **de)


def run_crowd(case, rec, d):
    """Many players, and many ticks of each."""
    n = case['n']
    for k, (dt, step) in enumerate(itertools.product(
            (.3, 1.0, 6.0), (7, 31, 45))):
        players = [(3 * i * i + 11 * i) % 1009 for i in range(n)]
        if len(set(players)) < n:
            players = list(range(n))
        d.log = []
        # all the times are different: the k-th one has 1e-7 k of its own
        box = [0]

        def wait(scale=1.0, size=None):
            def one():
                box[0] += 1
                w = scale * (.05 + (box[0] * step % 101) / 101 +
                             1e-7 * box[0])
                d.log.append(w)
                return w
            return d.many(size, one)
        np.random.exponential = wait
        d.set([], lambda j: (j * step % 97 + .5) / 97)
        arr = np.array(players, dtype=np.int64)
        got = [int(i) for i in R.poisson_timings(arr, 1.0, dt)]
        rec.step(len(got))
        rec.state((n, k))
        rec.trace()
        clocks, t, cur = [], 0.0, []
        for w in d.log:
            t += w
            if t < dt:
                cur.append(t)
            else:
                clocks.append(cur)
                t, cur = 0.0, []
        de = dict(players=n, dt=dt, step=step)
        if not rec.check(len(clocks) == n and not cur, 'clocks',
                         'not one clock per player', clocks=len(clocks), **de):
            continue
        ticks = [c for _, c in sorted((t, c) for c, ts in enumerate(clocks)
                                      for t in ts)]
        whose = dict(zip(ticks, got))
        rec.check(len(ticks) == len(got) and set(got) <= set(players) and
                  [whose[c] for c in ticks] == got and
                  len(set(whose.values())) == len(whose), 'order',
                  'players are not updated in the order of their clocks',
                  ticks=ticks[:40], got=got[:40], **de)


def run_vectors(case, rec, d):
    """Random vectors have the magnitude and the range of directions asked
    for."""
    import math
    n = case['n']
    for orient in ((0.0, 2 * math.pi), (-1.0, .5), (1.0, 1.0)):
        for mag in (1.0, 2.5, 0.0):
            for seq in itertools.product([0.0, .25, .625, .9999], repeat=n):
                d.set(seq)
                got = R.random_vector(n, orient, mag)
                rec.state((n, orient, mag, seq))
                rec.step()
                rec.trace()
                want = [(mag * math.cos(orient[0] + u * (orient[1] - orient[0])),
                         mag * math.sin(orient[0] + u * (orient[1] - orient[0])))
                        for u in seq]
                rec.check(got.shape == (n, 2) and all(
                    math.dist(g, w) < 1e-9 for g, w in zip(got.tolist(), want)),
                    'vector', 'random vectors', orient=orient, mag=mag,
                    draws=seq, got=got.tolist(), want=want)
