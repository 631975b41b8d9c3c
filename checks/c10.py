"""C10: a simulation process always ends its stream with exactly one end
marker, and a stop request takes effect within one update.

Explored: the runner is sequential and the only thing it shares with its
controllers is the stop flag, so every interleaving is a placement of stop()
calls between the runner's visible actions (flag reads, start and end of each
update, queue operations).  All placements of up to 2 (3) stops x failing
step x kind of error are executed on the real code, each stop made at its
place; a set of real forked processes repeats representative schedules."""
import itertools
import multiprocessing
import queue as queues
import threading

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'programs of up to 4 updates, all placements of up to 2 stop '
             'requests over the first 14 actions, errors of 6 kinds at each '
             'update; 24 real processes',
    'thorough': 'up to 6 updates, up to 3 stop requests over the first 20 '
                'actions; 60 real processes'}
ASSUMPTIONS = ['the reads of the stop flag are atomic '
               '(multiprocessing.Event)']
CASE_TIMEOUT = 200


class NotOurs(Exception):
    pass


def setup():
    global mod, exc, LogicNode, MPEvent
    from crowddynamics.simulation import multiagent as mod
    from crowddynamics import exceptions as exc
    from crowddynamics.simulation.logic import LogicNode
    import multiprocessing.synchronize
    MPEvent = multiprocessing.synchronize.Event


def errors():
    return {'base': exc.CrowdDynamicsException, 'overlap': exc.OverlappingError,
            'type': exc.InvalidType, 'value': ValueError, 'own': NotOurs,
            'key': KeyError}


OURS = ('base', 'overlap', 'type')


def cases(tier):
    deep = tier == 'thorough'
    n, pts, stops = (6, 20, 3) if deep else (4, 14, 2)
    out = []
    for err in (None, 'base', 'overlap', 'type', 'value', 'own', 'key'):
        for at in ([0] if err is None else range(1, n + 1)):
            out.append({'kind': 'schedule', 'err': err, 'at': at,
                        'points': pts, 'stops': stops, 'updates': n})
    out.append({'kind': 'schedule', 'err': None, 'at': 0, 'points': pts,
                'stops': stops, 'updates': n, 'own': 1})
    for err in (None, 'base', 'value'):
        for at in ((1, 2, 4) if not deep else (1, 2, 3, 4, 5, 6, 7)):
            for how in ('before', 'inside', 'outside'):
                if err is not None and how == 'before':
                    continue
                out.append({'kind': 'process', 'err': err, 'at': at,
                            'how': how})
    return out


class Q:
    def __init__(self, hook):
        self.items, self.hook = [], hook

    def put(self, item, *a, **kw):
        self.hook('put')
        self.items.append(item)
        self.hook('put-done')

    put_nowait = put


def run_case(case, rec):
    if case['kind'] == 'process':
        return process(case, rec)
    pts = range(case['points'])
    plans = [p for k in range(case['stops'] + 1)
             for p in itertools.combinations(pts, k)]
    for plan in plans:
        if not schedule(case, rec, plan):
            return


class Runaway(BaseException):
    pass


def schedule(case, rec, plan):
    log = []
    n = [0]
    busy = [False]
    limit = case['updates']

    def point(what):
        """A visible action of the runner; stops placed here happen now."""
        if busy[0]:
            return
        log.append(what)
        k = n[0]
        n[0] += 1
        if k in plan:
            busy[0] = True
            proc.stop()
            busy[0] = False
            log.append('STOP')

    class Node(LogicNode):
        def update(self):
            point('u')
            c = log.count('u')
            self.simulation.data['x'] = c
            q.items.append(c)
            if case['err'] and c == case['at']:
                raise errors()[case['err']]('boom')
            if c >= limit:
                # bounds the program: an outside controller stops it
                if 'STOP' not in log:
                    busy[0] = True
                    proc.stop()
                    busy[0] = False
                    log.append('STOP')
                elif c > limit + 2:
                    raise Runaway
            point('v')

    simu = mod.MultiAgentSimulation()
    if case.get('own'):
        simu.exit_condition = lambda s: False
    simu.logic = Node(simu)
    q = Q(point)
    proc = mod.MultiAgentProcess(simu, q)
    real = MPEvent.is_set

    def is_set(self):
        point('?')
        r = real(self)
        point('!' if r else '.')
        return r
    early = 0 in plan
    if early:
        proc.stop()
        log.append('STOP')
        n[0] = 1
        log.append('start')
    else:
        n[0] = 1
        log.append('start')
    MPEvent.is_set = is_set
    raised = None
    try:
        proc.run()
    except Exception as e:
        raised = e
    except Runaway:
        rec.fail('runaway', 'updates go on after stop: %s' % ' '.join(log))
        return False
    finally:
        MPEvent.is_set = real
    rec.step(len(log))
    rec.state((case['err'], case['at'], tuple(log)))
    rec.trace()
    tag = '%s; stops at %r, %s error at update %s' % (
        ' '.join(log), plan, case['err'], case['at'])
    marks = [k for k, i in enumerate(q.items)
             if i is mod.MultiAgentProcess.EndProcess]
    if len(marks) != 1:
        rec.fail('marker', '%d end markers queued: %s' % (len(marks), tag))
        return False
    if marks[0] != len(q.items) - 1:
        rec.fail('marker', 'items follow the end marker: %s' % tag)
        return False
    ups = log.count('u')
    if q.items[:-1] != list(range(1, ups + 1)):
        rec.fail('items', 'queue %r: %s' % (q.items, tag))
        return False
    failed = case['err'] and ups == case['at']
    if raised is not None and (case['err'] in OURS or not failed):
        rec.fail('raised', 'run() ended with %r: %s' % (raised, tag))
        return False
    if not failed and 'STOP' not in log:
        rec.fail('ended', 'ended without a stop or an error: %s' % tag)
        return False
    if case['err'] and ups > case['at']:
        rec.fail('after-error', 'updates after the error: %s' % tag)
        return False
    if 'STOP' in log:
        k = log.index('STOP')
        after = log[k:].count('u')
        # '?' '.' read before the stop allows the one update it leads to
        inside = log[:k].count('u') > log[:k].count('v')
        pending = '.' in log[:k] and not inside and \
            'u' not in log[len(log[:k]) - log[:k][::-1].index('.'):k] \
            if '.' in log[:k] else False
        allowed = 1 if pending else 0
        if after > allowed:
            rec.fail('stop', '%d updates began after the stop: %s' % (
                after, tag))
            return False
    rec.sample({'trace': ' '.join(log)})
    return True


def process(case, rec):
    """The same with a real process, pipe-fed queue and real signals."""
    class Node(LogicNode):
        n = 0

        def update(self):
            self.n += 1
            queue.put(self.n)
            if case['how'] == 'outside' and self.n >= case['at']:
                # let the controller decide from here on
                gate.wait(60)
            if case['err'] and self.n == case['at']:
                raise errors()[case['err']]('boom')
            if case['how'] == 'inside' and not case['err'] and \
                    self.n == case['at']:
                proc.stop()

    ctx = multiprocessing.get_context('fork')
    queue, gate = ctx.Queue(), ctx.Event()
    simu = mod.MultiAgentSimulation()
    simu.logic = Node(simu)
    proc = mod.MultiAgentProcess(simu, queue)
    if case['how'] == 'before':
        proc.stop()
    import os
    import sys
    sys.stderr = open(os.devnull, 'w')
    proc.start()
    items = []
    try:
        while True:
            try:
                i = queue.get(timeout=60)
            except queues.Empty:
                rec.fail('process', 'no end marker within 60 s: %r' % case)
                return
            items.append(i)
            rec.step()
            if i is mod.MultiAgentProcess.EndProcess:
                break
            if case['how'] == 'outside' and i == case['at']:
                proc.stop()
                gate.set()
        proc.join(60)
        if proc.is_alive():
            rec.fail('process', 'still alive after its end marker: %r' % case)
            return
        try:
            extra = queue.get(timeout=.05)
            rec.fail('process', '%r follows the end marker: %r' % (extra, case))
        except queues.Empty:
            pass
        want = 0 if case['how'] == 'before' else case['at']
        if items[:-1] != list(range(1, want + 1)):
            rec.fail('process', 'stream %r, expected %d updates: %r' % (
                items[:-1], want, case))
        rec.state((case['err'], case['at'], case['how']))
        rec.trace()
    finally:
        if proc.is_alive():
            proc.terminate()
