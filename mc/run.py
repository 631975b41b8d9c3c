"""Runner: enumerates the cases of one check on several worker processes,
collects what they covered, writes the evidence file and reports.

    python -m mc.run C01 [--tier quick|thorough] [--jobs N]
    python -m mc.run C01 --replay FILE
"""
import argparse
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import env

env.setup()

from _shimlib import ShimUnsupported  # noqa: E402

MAX_FAILS_PER_CASE = 20
FAILFAST = None     # keys which do not end the run (tools/mutate.py)


LARGE = 1.2e9       # bytes, of a process which makes room for another


def resident():
    with open('/proc/self/statm') as fp:
        return int(fp.read().split()[1]) * 4096


class CaseTimeout(BaseException):
    pass


class StopCase(Exception):
    pass


class Rec:
    """What one case did."""
    tick = 0        # of this process
    after = 0       # bytes in memory after the last collection

    def __init__(self, case, scratch, seed):
        self.case = case
        self.scratch = scratch
        self.seed = seed
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.evaluations = 0
        self.samples = []
        self.fails = []
        self.inconclusive = []
        self._n = 0

    # coverage ---------------------------------------------------------------
    def state(self, key):
        """A distinct state of the explored space (hashable or JSON-able)."""
        if not isinstance(key, bytes):
            key = repr(key).encode()
        self.states.add(hashlib.blake2b(key, digest_size=8).digest())

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        """A complete execution of the real code compared with the model."""
        self.traces += n
        self.evaluations += n
        Rec.tick += 1
        if Rec.tick & 255 == 0:
            self.tidy()

    def tidy(self):
        """Arrays lie outside of the heap the collector watches."""
        if resident() > Rec.after + 3e8:
            gc.collect()
            Rec.after = resident()

    def sample(self, obj):
        if len(self.samples) < 1:
            self.samples.append(obj)

    # verdicts ---------------------------------------------------------------
    def fail(self, key, what, **detail):
        """The property is broken; ``key`` identifies the failing input, call
        site or history (matched against known_findings.json)."""
        self.fails.append({'key': str(key), 'what': str(what),
                           'detail': detail})
        if len(self.fails) >= MAX_FAILS_PER_CASE:
            raise StopCase

    def check(self, cond, key, what, **detail):
        if not cond:
            self.fail(key, what, **detail)
        return cond

    # scratch ----------------------------------------------------------------
    def tmpdir(self):
        self._n += 1
        d = os.path.join(self.scratch, 'd%d' % self._n)
        os.makedirs(d)
        return d


def load(prop):
    return importlib.import_module('checks.' + prop.lower())


def _alarm(signum, frame):
    raise CaseTimeout


def jsonable(o):
    try:
        import numpy as np
        if isinstance(o, np.ndarray):
            return o.tolist()
        if isinstance(o, np.generic):
            return o.item()
    except Exception:
        pass
    if isinstance(o, (set, frozenset)):
        return sorted(o, key=repr)
    if isinstance(o, bytes):
        return o.decode('latin1')
    return repr(o)


def run_case(mod, case, seed, scratch_root):
    limit = getattr(mod, 'CASE_TIMEOUT', 240)
    scratch = tempfile.mkdtemp(dir=scratch_root)
    rec = Rec(case, scratch, seed)
    cwd = os.getcwd()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        os.chdir(scratch)
        mod.run_case(case, rec)
    except StopCase:
        pass
    except ShimUnsupported as e:
        rec.inconclusive.append(repr(e))
    except CaseTimeout:
        rec.fails.append({'key': 'timeout', 'what':
                          'did not finish within %d s' % limit, 'detail': {}})
    except Exception as e:
        if _shim_cause(e):
            rec.inconclusive.append(repr(e))
        else:
            tb = traceback.extract_tb(e.__traceback__)
            inside = [f for f in tb if f.filename.startswith(env.REPO + '/')]
            where = inside[-1] if inside else (tb[-1] if tb else None)
            loc = '%s:%s' % (os.path.relpath(where.filename, env.REPO)
                             if inside else where.filename, where.name) \
                if where else '?'
            rec.fails.append({
                'key': 'exception:%s' % type(e).__name__,
                'what': 'unexpected %s: %s (in %s)' % (
                    type(e).__name__, str(e)[:200], loc),
                'detail': {'traceback': traceback.format_exc()[-2000:]}})
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    return rec


def _shim_cause(e):
    seen = set()
    while e is not None and id(e) not in seen:
        if isinstance(e, ShimUnsupported):
            return True
        seen.add(id(e))
        e = e.__cause__ or e.__context__
    return False


def worker(mod, cases, order, counter_path, seed, scratch_root, out, k):
    """Takes case numbers from a shared file-locked counter."""
    import fcntl
    res = {'states': set(), 'transitions': 0, 'traces': 0, 'evaluations': 0,
           'samples': [], 'fails': [], 'inconclusive': [], 'done': 0,
           'large': False}
    cur_path = out + '.cur'
    sys.stdout = open(os.devnull, 'w')
    while True:
        with open(counter_path, 'r+') as fp:
            fcntl.flock(fp, fcntl.LOCK_EX)
            n = int(fp.read() or 0)
            fp.seek(0)
            fp.write(str(n + 1))
        if n >= len(order):
            break
        idx = order[n]
        case = cases[idx]
        with open(cur_path, 'w') as fp:
            fp.write(str(idx))
        rec = run_case(mod, case, seed, scratch_root)
        res['states'] |= rec.states
        res['transitions'] += rec.transitions
        res['traces'] += rec.traces
        res['evaluations'] += rec.evaluations
        res['done'] += 1
        for s in rec.samples:
            if len(res['samples']) < 3:
                res['samples'].append({'case': case, 'sample': s})
        for f in rec.fails:
            res['fails'].append((idx, f))
        for i in rec.inconclusive:
            res['inconclusive'].append((idx, i))
        if FAILFAST and any(f['key'] not in FAILFAST for f in rec.fails):
            with open(counter_path, 'w') as fp:
                fp.write(str(10 ** 9))
            break
        if len(res['fails']) > 200:
            break
        if resident() > LARGE:
            res['large'] = True
            break
    with open(out, 'wb') as fp:
        # samples/details may hold arrays: make them plain first
        res['samples'] = json.loads(json.dumps(res['samples'], default=jsonable))
        res['fails'] = [(i, json.loads(json.dumps(f, default=jsonable)))
                        for i, f in res['fails']]
        pickle.dump(res, fp)
    if os.path.exists(cur_path):
        os.remove(cur_path)


def run_all(mod, cases, jobs, seed, scratch_root):
    order = list(range(len(cases)))
    random.Random(seed).shuffle(order)
    counter = os.path.join(scratch_root, 'counter')
    with open(counter, 'w') as fp:
        fp.write('0')
    running = {}
    started = 0
    tot = {'states': set(), 'transitions': 0, 'traces': 0, 'evaluations': 0,
           'samples': [], 'fails': [], 'inconclusive': [], 'done': 0}
    crashed = []

    def start():
        nonlocal started
        out = os.path.join(scratch_root, 'w%d' % started)
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                worker(mod, cases, order, counter, seed, scratch_root, out,
                       started)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        started += 1
        running[pid] = out

    for _ in range(min(jobs, max(1, len(cases)))):
        start()
    while running:
        pid, status = os.wait()
        out = running.pop(pid, None)
        if out is None:
            continue
        if os.path.exists(out):
            with open(out, 'rb') as fp:
                res = pickle.load(fp)
            os.remove(out)
            for key in ('transitions', 'traces', 'evaluations', 'done'):
                tot[key] += res[key]
            tot['states'] |= res['states']
            tot['samples'] += res['samples']
            tot['fails'] += res['fails']
            tot['inconclusive'] += res['inconclusive']
            if res['large']:
                # goes on in a fresh process
                start()
        else:
            idx = None
            try:
                with open(out + '.cur') as fp:
                    idx = int(fp.read())
            except Exception:
                pass
            crashed.append((idx, status))
    return tot, crashed


def known_for(prop):
    path = os.path.join(env.VERIF, 'known_findings.json')
    try:
        with open(path) as fp:
            data = json.load(fp)
    except FileNotFoundError:
        return []
    return [k for k in data.get('known', []) if k['property'] == prop]


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--jobs', type=int,
                    default=int(os.environ.get('VERIF_JOBS', '8')))
    ap.add_argument('--replay')
    ap.add_argument('--case', help='JSON of a single case to run')
    args = ap.parse_args(argv)
    prop = args.prop.upper()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    t0 = time.time()
    mod = load(prop)
    scratch_root = tempfile.mkdtemp(prefix='mc-%s-' % prop.lower())
    try:
        return _main(args, prop, seed, tier, t0, mod, scratch_root)
    finally:
        shutil.rmtree(scratch_root, ignore_errors=True)


def _main(args, prop, seed, tier, t0, mod, scratch_root):
    setup_error = None
    if hasattr(mod, 'setup'):
        # imports the code under test; failing here is a failure of the code
        try:
            mod.setup()
        except ShimUnsupported as e:
            setup_error = ('shim', repr(e))
        except Exception as e:
            setup_error = ('shim' if _shim_cause(e) else 'error',
                           traceback.format_exc()[-2000:])
    if args.replay or args.case:
        if args.replay:
            with open(args.replay) as fp:
                case = json.load(fp)['case']
        else:
            case = json.loads(args.case)
        if setup_error:
            print(setup_error[1])
            return 1
        rec = run_case(mod, case, seed, scratch_root)
        for f in rec.fails:
            print('FAIL', f['key'], f['what'])
            print('    ', json.dumps(f['detail'], default=jsonable)[:3000])
        for i in rec.inconclusive:
            print('INCONCLUSIVE', i)
        print('transitions', rec.transitions, 'traces', rec.traces,
              'states', len(rec.states))
        return 1 if rec.fails else 0

    cases = [] if setup_error else list(mod.cases(tier))
    if os.environ.get('MC_FAILFAST'):
        global FAILFAST
        FAILFAST = {k['key'] for k in known_for(prop)} | {'-'}
    if cases:
        tot, crashed = run_all(mod, cases, args.jobs, seed, scratch_root)
    else:
        tot = {'states': set(), 'transitions': 0, 'traces': 0,
               'evaluations': 0, 'samples': [], 'fails': [],
               'inconclusive': [], 'done': 0}
        crashed = []
    fails = []
    if setup_error and setup_error[0] == 'error':
        fails.append((None, {'key': 'setup', 'what':
                             'the code under test does not load: ' +
                             setup_error[1].strip().splitlines()[-1],
                             'detail': {'traceback': setup_error[1]}}))
    if setup_error and setup_error[0] == 'shim':
        tot['inconclusive'].append((None, setup_error[1]))
    for idx, status in crashed:
        if idx is None:
            # a worker that died outside any case is the checker's trouble
            print('worker ended outside a case (status %s)' % status,
                  file=sys.stderr)
            continue
        fails.append((idx, {'key': 'crash', 'what':
                            'process ended while running the case '
                            '(wait status %d)' % status, 'detail': {}}))
    fails += tot['fails']

    known = known_for(prop)
    seen_known, violations = {}, {}
    for idx, f in fails:
        k = next((k for k in known if k['key'] == f['key']), None)
        if k is not None:
            seen_known.setdefault(k['key'], k)
        else:
            violations.setdefault(f['key'], []).append((idx, f))
    for k in known:
        # every listed finding is announced, also when this tier's bounds did
        # not reach it
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))

    if FAILFAST:
        for key, lst in sorted(violations.items())[:3]:
            print('%s: %s: %s' % (prop, key, lst[0][1]['what'][:200]))
        return 1 if violations else 0

    wall = time.time() - t0
    level = mod.LEVEL
    cov = {'exhaustive': True, 'bounds': mod.BOUNDS.get(tier, mod.BOUNDS)
           if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
           'cases': len(cases), 'cases_run': tot['done'],
           'inconclusive': len(tot['inconclusive']),
           'samples': sorted(tot['samples'],
                             key=lambda s: json.dumps(s, sort_keys=True))[:5]}
    if level == 'model_checking':
        cov.update(states=len(tot['states']), transitions=tot['transitions'],
                   traces_validated_against_impl=tot['traces'])
    else:
        cov.update(evaluations=tot['evaluations'],
                   distinct_nontrivial=len(tot['states']), rule=mod.RULE)
    if tot['done'] != len(cases) or tot['inconclusive']:
        cov['exhaustive'] = False
    if tot['inconclusive']:
        cov['inconclusive_samples'] = [i for _, i in tot['inconclusive'][:3]]
    if known:
        cov['known_findings_reproduced'] = sorted(seen_known)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': cov, 'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'wall_s': round(wall, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(env.VERIF, 'evidence'), exist_ok=True)
    path = os.path.join(env.VERIF, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as fp:
        json.dump(ev, fp, indent=1, default=jsonable)
        fp.write('\n')
    os.replace(path + '.tmp', path)

    rdir = os.path.join(env.VERIF, 'replays')
    if violations:
        os.makedirs(rdir, exist_ok=True)
    for n, (key, lst) in enumerate(sorted(violations.items())):
        if n >= 10:
            print('... %d more kinds of failure' % (len(violations) - n))
            break
        lst.sort(key=lambda x: (len(json.dumps(cases[x[0]]))
                                if x[0] is not None else 0))
        idx, f = lst[0]
        name = '%s-%s.json' % (prop, hashlib.md5(key.encode()).hexdigest()[:8])
        rp = os.path.join(rdir, name)
        with open(rp, 'w') as fp:
            json.dump({'property': prop, 'key': key, 'what': f['what'],
                       'case': cases[idx] if idx is not None else None,
                       'detail': f['detail'],
                       'command': 'cd /verif && ./check %s --replay %s' % (
                           prop, rp)}, fp, indent=1, default=jsonable)
        print('%s: %s: %s' % (prop, key, f['what']))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    print('%s %s: cases=%d/%d states=%d transitions=%d traces=%d '
          'inconclusive=%d violations=%d wall=%.1fs' % (
              prop, tier, tot['done'], len(cases), len(tot['states']),
              tot['transitions'], tot['traces'], len(tot['inconclusive']),
              len(violations), wall))
    return 1 if violations else 0


if __name__ == '__main__':
    sys.exit(main())
