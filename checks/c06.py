"""C06: a dump that was acknowledged survives a crash at any later point.

Each execution runs the real storage in a child process which is ended, or
whose file writes are cut off, at one chosen point; the parent then reads the
directory with the real loaders.  Fault points of a history: before every
step, and within every step at every byte of any file being written (the
kernel's file size limit: the write is torn there and the process killed, or
the write fails and the process goes on).  Oracle: the dumps acknowledged
over a pipe before the fault."""
import csv
import itertools
import os
import resource
import signal
import sys

LEVEL = 'fault_enumeration'
RULE = ('one evaluation = one history x fault point, run in a process of its '
        'own and read back; distinct = (history, step, byte offset, kind of '
        'fault)')
BOUNDS = {
    'quick': 'array, table and geometry storages; histories of 3-4 dumps; '
             'kill before every step; torn write (kill) and failed write '
             '(error) at every 2nd byte of each step plus all boundaries',
    'thorough': 'the same at every byte, and all dump-flag histories of 4 '
                'frames'}
ASSUMPTIONS = ['what the kernel accepted before the process died is on disk '
               '(process crash, not power loss)',
               'write errors in the payload (not the header) of a .npy file '
               'are left out: numpy.save drops them before the code under '
               'test sees them',
               'geometry JSON is rewritten in place and is only claimed to be '
               'readable or to raise, not to keep its previous contents']


def setup():
    global np, io
    import numpy as np
    from crowddynamics import io


def cases(tier):
    deep = tier == 'thorough'
    out = []
    hists = [[0, 1, 1, 0, 1], [1] * 4] if not deep else \
        [list(h) for h in itertools.product((0, 1), repeat=4)] + \
        [[0, 1, 1, 0, 1], [1] * 6]
    stride = 1 if deep else 2
    for store in ('npy', 'csv', 'both'):
        for h in hists:
            for step in range(len(h)):
                out.append({'kind': 'kill', 'store': store, 'hist': h,
                            'step': step})
                if not h[step]:
                    continue
                for mode in ('torn', 'error'):
                    for part in range(4):
                        out.append({'kind': mode, 'store': store, 'hist': h,
                                    'step': step, 'stride': stride,
                                    'part': part})
    return out


def frame(k):
    # frames differ and dumps have different sizes
    return np.arange(4.) * 1.5 + k


def recd(k):
    return {'iterations': k, 'x': 'v%d' % (k * 37), 'time': .125 * k}


def child(store, hist, fault_step, fault, d, wfd):
    """Runs the history; writes one byte per acknowledged step."""
    npy = io.save_npy(d, 'agents') if store in ('npy', 'both') else None
    tab = io.save_csv(d, 'data') if store in ('csv', 'both') else None
    for s in (npy, tab):
        if s is not None:
            s.send(None)
    for k, flag in enumerate(hist):
        if k == fault_step:
            if fault[0] == 'kill':
                os.kill(os.getpid(), signal.SIGKILL)
            signal.signal(signal.SIGXFSZ, signal.SIG_DFL if
                          fault[0] == 'torn' else signal.SIG_IGN)
            resource.setrlimit(resource.RLIMIT_FSIZE,
                               (fault[1], resource.RLIM_INFINITY))
        try:
            if npy is not None:
                npy.send(frame(k))
                npy.send(bool(flag))
                os.write(wfd, b'n')
            if tab is not None:
                tab.send(recd(k))
                tab.send(bool(flag))
                os.write(wfd, b'c')
        except BaseException:
            os.write(wfd, b'E')
            return
        if k == fault_step:
            resource.setrlimit(resource.RLIMIT_FSIZE,
                               (resource.RLIM_INFINITY,) * 2)
    os.write(wfd, b'.')


def execute(rec, store, hist, step, fault):
    d = rec.tmpdir()
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            os.close(r)
            child(store, hist, step, fault, d, w)
        finally:
            # no interpreter shutdown: nothing gets flushed later
            os._exit(0)
    os.close(w)
    ack = b''
    while True:
        b = os.read(r, 4096)
        if not b:
            break
        ack += b
    os.close(r)
    _, status = os.waitpid(pid, 0)
    return d, ack.decode(), status


def dumps(hist, n, make):
    """Contents of the files after n acknowledged steps, and the next one."""
    files, cur = [], []
    for k in range(n):
        cur.append(make(k))
        if hist[k]:
            files.append(cur)
            cur = []
    return files


def judge(rec, store, hist, step, fault, d, ack, status):
    tag = '%s history %r, %s in step %d' % (store, hist, fault, step)
    full = len(hist)
    if store in ('npy', 'both'):
        n = ack.count('n')
        want = dumps(hist, n, frame)
        possible = dumps(hist, min(full, max(n, step) + 1), frame)
        got, err = [], None
        try:
            for a in io.load_npy(d, 'agents'):
                got.append(np.array(a))
        except Exception as e:
            err = e
        if len(got) < len(want):
            rec.fail('npy-lost', 'acknowledged %d dumps, %d can be loaded%s '
                     '(%s)' % (len(want), len(got),
                               '' if err is None else ', then %r' % err, tag))
            return False
        for k, a in enumerate(got):
            ok = k < len(possible) and np.array_equal(
                a, np.vstack(possible[k]))
            if not ok:
                rec.fail('npy-wrong', 'array %d loaded after the crash is not '
                         'what was dumped (%s)' % (k, tag))
                return False
    if store in ('csv', 'both'):
        n = ack.count('c')
        keys = [str(k) for k in recd(0)]
        last = max([k + 1 for k in range(n) if hist[k]], default=0)
        top = max([k + 1 for k in range(min(full, max(n, step) + 1))
                   if hist[k]], default=0)
        rows = [keys] + [[str(v) for v in recd(k).values()]
                         for k in range(full)]
        text = ''
        path = os.path.join(d, 'data.csv')
        if os.path.exists(path):
            with open(path, newline='') as fp:
                text = fp.read()
        got = list(csv.reader(text.splitlines()))
        want = rows[:last + 1] if last else []
        if got[:len(want)] != want:
            rec.fail('csv-lost', '%d acknowledged rows, the file starts with '
                     '%r (%s)' % (last, got[:len(want)][-2:], tag))
            return False
        limit = rows[:top + 1] if top else []
        rest = got[len(want):]
        for k, row in enumerate(rest):
            ref = limit[len(want) + k] if len(want) + k < len(limit) else None
            torn = k == len(rest) - 1
            if ref is None or (row != ref and not (
                    torn and ','.join(ref).startswith(','.join(row)))):
                rec.fail('csv-wrong', 'the file holds a row that was not sent: '
                         '%r (%s)' % (row, tag))
                return False
    if fault[0] == 'kill' and not os.WIFSIGNALED(status):
        raise RuntimeError('the child was not killed')
    return True


def run_case(case, rec):
    store, hist, step = case['store'], case['hist'], case['step']
    if case['kind'] == 'kill':
        d, ack, status = execute(rec, store, hist, step, ('kill', 0))
        rec.state((store, tuple(hist), step, 'kill'))
        judge(rec, store, hist, step, ('kill', 0), d, ack, status)
        rec.trace()
        return
    # the largest file of the fault-free run bounds the offsets
    d, ack, status = execute(rec, store, hist, None, ('none', 0))
    if not judge(rec, store, hist, len(hist), ('none', 0), d, ack, status):
        return
    if '.' not in ack:
        rec.fail('run', 'the fault-free history did not finish: %r' % ack)
        return
    size = max([os.path.getsize(os.path.join(r, f))
                for r, _, fs in os.walk(d) for f in fs] or [0])
    offsets = sorted(set(range(0, size + 1, case['stride'])) |
                     {0, 1, 127, 128, 129, size - 1, size})
    if case['kind'] == 'error' and store != 'csv':
        # numpy.save itself ignores a failing write of a small payload
        offsets = [k for k in offsets if k < 128]
    for k in offsets[case['part']::4]:
        fault = (case['kind'], k)
        d, ack, status = execute(rec, store, hist, step, fault)
        rec.state((store, tuple(hist), step, fault))
        if not judge(rec, store, hist, step, fault, d, ack, status):
            return
        rec.trace()
    rec.sample({'history': hist, 'step': step, 'offsets': len(offsets)})
