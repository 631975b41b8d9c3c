"""C23: configurations load completely or not at all, and the simulations
they name are imported without moving the caller.

Explored: every configuration built from 1-2 sections whose values deviate
in up to two places over a value alphabet; every small simulation
configuration x place of the file x caller's directory.  Oracle: the spec's
ranges, restated."""
import itertools
import os
import pathlib
import warnings

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'body-type files of 0-2 sections with up to 2 deviating values '
             'out of 12; shipped files; simulation files of up to 2 modules x '
             'up to 2 functions x 4 module kinds x 5 ways of naming the file; '
             'files that are missing, directories or not parsable, in 5 '
             'positions of the wrong line',
    'thorough': 'up to 3 deviating values'}
ASSUMPTIONS = []

KEYS = ['ratio_rt', 'ratio_rs', 'ratio_ts', 'radius_mean', 'radius_scale',
        'target_velocity_mean', 'target_velocity_scale', 'mass_mean',
        'mass_scale']
VALUES = ['0', '1', '0.5', '1e-9', '-0.0', '1.0000001', '-1e-9', '2', '1e300',
          'abc', '', 'DROP', '"0.25"', '-1', '0,1']


def ok(key, v):
    if v == 'DROP':
        return False
    try:
        x = float(v.strip('"'))
    except ValueError:
        return False
    return x >= 0 and (x <= 1 or not key.startswith('ratio'))


def setup():
    global config, exc, agents_types
    from crowddynamics import config
    from crowddynamics import exceptions as exc


def cases(tier):
    n = 3 if tier == 'thorough' else 2
    out = [{'kind': 'body', 'first': k, 'n': n} for k in range(len(KEYS))]
    out += [{'kind': 'two', 'first': k} for k in range(len(KEYS))]
    out += [{'kind': 'shipped'}, {'kind': 'plain'}]
    for form in ('abs', 'rel', 'name', 'path', 'path-rel'):
        for mods in ((), ('a',), ('a', 'b')):
            out.append({'kind': 'callables', 'form': form,
                        'mods': list(mods)})
    out += [{'kind': 'deprecated'}, {'kind': 'unreadable'}]
    return out


def write(path, sections):
    with open(path, 'w') as fp:
        for name, vals in sections:
            fp.write('[%s]\n' % name)
            for k, v in vals.items():
                if v != 'DROP':
                    fp.write('%s = %s\n' % (k, v))


def attempt(rec, path, sections, tag):
    good = all(ok(k, v) for _, vals in sections for k, v in vals.items())
    try:
        c = config.load_config(path, config.BODY_TYPES_CFG_SPEC)
    except exc.ValidationError:
        c = None
    rec.step()
    if (c is not None) != good:
        rec.fail('validation', '%s: %s' % (
            'accepted' if c is not None else 'refused', tag))
        return False
    if c is not None:
        got = {n: dict(s) for n, s in c.items()}
        want = {n: {k: float(v.strip('"')) for k, v in s.items()}
                for n, s in sections}
        if got != want or list(got) != [n for n, _ in sections] or \
                any(type(v) is not float for s in got.values()
                    for v in s.values()):
            rec.fail('values', 'loaded %r: %s' % (got, tag))
            return False
    return True


def run_case(case, rec):
    kind = case['kind']
    base = {k: '0.5' for k in KEYS}
    if kind in ('body', 'two'):
        f = case['first']
        path = os.path.join(rec.tmpdir(), 'b.cfg')
        n = case.get('n', 1)
        for v in VALUES:
            combos = [()]
            for m in range(1, n):
                combos += [tuple(zip(ks, vs)) for ks in
                           itertools.combinations(KEYS[f + 1:], m)
                           for vs in itertools.product(
                               VALUES if m == 1 else VALUES[5:12], repeat=m)]
            for extra in combos:
                vals = dict(base)
                vals[KEYS[f]] = v
                vals.update(extra)
                sections = [('adult', vals)]
                if kind == 'two':
                    for order in (0, 1):
                        sec = [('x', dict(base)), ('adult', vals)]
                        sec = sec[::-1] if order else sec
                        write(path, sec)
                        if not attempt(rec, path, sec, '%s=%s in one of two '
                                       'sections' % (KEYS[f], v)):
                            return
                write(path, sections)
                if not attempt(rec, path, sections, '%s=%s %r' % (
                        KEYS[f], v, extra)):
                    return
                rec.state((kind, f, v, extra))
                rec.trace()
        rec.sample({'key': KEYS[f], 'values': VALUES})
        if f == 0:
            write(path, [])
            attempt(rec, path, [], 'no sections')
    elif kind == 'shipped':
        c = config.load_config(config.BODY_TYPES_CFG,
                               config.BODY_TYPES_CFG_SPEC)
        for name, s in c.items():
            rec.state(name)
            rec.trace()
            rec.check(sorted(s) == sorted(KEYS), 'shipped',
                      '%s: keys %r' % (name, sorted(s)))
            for k, v in s.items():
                rec.check(ok(k, repr(v)) and v > 0, 'shipped',
                          '%s: %s = %r' % (name, k, v))
            # the three circles fit the outer one, and nobody can get a negative size
            rec.check(abs(s['ratio_rs'] + s['ratio_ts'] - 1) < 1e-3,
                      'shipped', '%s: shoulders do not end at the radius' % name)
            rec.check(s['ratio_rt'] < 1 and s['ratio_rs'] < s['ratio_rt'],
                      'shipped', '%s: ratios' % name)
            for q in ('radius', 'target_velocity', 'mass'):
                rec.check(s[q + '_mean'] > s[q + '_scale'] and
                          s[q + '_scale'] > 0, 'shipped',
                          '%s: %s can be negative' % (name, q))
        rec.check({'adult', 'male', 'female', 'child', 'eldery'} <= set(c),
                  'shipped', 'body types %r' % sorted(c))
        # loading is repeatable and independent
        d = config.load_config(config.BODY_TYPES_CFG,
                               config.BODY_TYPES_CFG_SPEC)
        d['adult']['mass_mean'] = -1.0
        e = config.load_config(config.BODY_TYPES_CFG,
                               config.BODY_TYPES_CFG_SPEC)
        rec.check(dict(e['adult']) == dict(c['adult']), 'shared',
                  'a loaded configuration is shared')
    elif kind == 'plain':
        path = os.path.join(rec.tmpdir(), 'b.cfg')
        for v in VALUES:
            write(path, [('s', {'k': v, 'x': '1'})])
            c = config.load_config(path)
            want = {'x': '1'}
            if v != 'DROP':
                want['k'] = ['0', '1'] if v == '0,1' else v.strip('"')
            rec.check({n: dict(s) for n, s in c.items()} == {'s': want},
                      'plain', 'without a spec: %r read as %r' % (v, c))
            rec.state(v)
            rec.trace()
    elif kind == 'callables':
        callables(case, rec)
    elif kind == 'unreadable':
        unreadable(rec, base)
    elif kind == 'deprecated':
        d = rec.tmpdir()
        p = os.path.join(d, 'c.cfg')
        write(p, [])
        for _ in range(3):
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                list(config.import_simulation_callables(p))
            n = [x for x in w if issubclass(x.category, DeprecationWarning)
                 and 'import_simulation_callables' in str(x.message)]
            rec.check(len(n) == 1, 'deprecated', '%d warnings' % len(n))
        rec.state('w')
        rec.trace()


def unreadable(rec, base):
    """Files which are not there, or are no configurations."""
    d = rec.tmpdir()
    good = os.path.join(d, 'good.cfg')
    write(good, [('adult', base)])
    with open(good) as fp:
        lines = fp.read().splitlines()
    bad = []
    for k, wrong in enumerate(('ratio_rt', '[adult', '[[deep', '= 0.5',
                               'ratio_rt = "0.5', 'ratio_rt = 0.5',
                               '[adult]')):
        for at in (1, 2, 5, len(lines) - 1, len(lines)):
            path = os.path.join(d, 'bad%d_%d.cfg' % (k, at))
            with open(path, 'w') as fp:
                fp.write('\n'.join(lines[:at] + [wrong] + lines[at:]) + '\n')
            if k == 5 and at == 1:
                continue        # given once more below itself
            bad.append((path, '%r in line %d' % (wrong, at + 1)))
    bad += [(os.path.join(d, 'none.cfg'), 'a file which is not there'),
            (os.path.join(d, 'none', 'good.cfg'), 'a missing directory'),
            (d, 'a directory'), (os.path.join(good, 'x'), 'below a file')]
    specs = [None, config.BODY_TYPES_CFG_SPEC, config.CROWDDYNAMICS_CFG_SPEC]
    for path, what in bad:
        for spec in specs:
            rec.state((what, spec and os.path.basename(spec)))
            rec.trace()
            try:
                c = config.load_config(path, spec)
            except Exception:
                continue
            rec.fail('unreadable', 'loaded %r from %s' % (dict(c), what))
            return
        if not os.path.isfile(path):
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    got = list(config.import_simulation_callables(path))
            except Exception:
                continue
            rec.fail('unreadable', 'simulations %r from %s' % (got, what))
    for spec in specs[1:]:
        for path in (os.path.join(d, 'none.cfg'), spec + '.none'):
            try:
                config.load_config(good, path)
            except Exception:
                continue
            rec.fail('unreadable', 'loaded without its specification')
    rec.check(dict(config.load_config(good, specs[1])['adult']) ==
              {k: float(v) for k, v in base.items()}, 'unreadable',
              'the good file is not loaded')


MODULES = {
    'good': ('def f():\n    return "f@%s"\ndef g():\n    return "g@%s"\n', 'fg'),
    'partial': ('def f():\n    return "f@%s"\nz = "%s"\n', 'f'),
    'broken': ('import no_such_module_at_all  # %s %s\n', ''),
    'cwd': ('import os\nhere = os.getcwd()\ndef f():\n    return "f@%s"\n'
            'def g():\n    return "g@%s"\n', 'fg')}


def callables(case, rec):
    for kinds in itertools.product(sorted(MODULES), repeat=len(case['mods'])):
        for funcs in itertools.product((['f'], ['f', 'g'], ['g', 'f'],
                                        ['nope', 'g']),
                                       repeat=len(case['mods'])):
            root = rec.tmpdir()
            conf_dir = os.path.join(root, 'conf dir')
            os.makedirs(os.path.join(conf_dir, 'sub'))
            other = rec.tmpdir()
            want = []
            with open(os.path.join(conf_dir, 'c.cfg'), 'w') as fp:
                fp.write('[simulations]\n')
                for m, k, fs in zip(case['mods'], kinds, funcs):
                    src, has = MODULES[k]
                    rel = '%s.py' % m if m == 'a' else 'sub/%s.py' % m
                    with open(os.path.join(conf_dir, rel), 'w') as mod:
                        mod.write(src % (m, m))
                    fp.write('[[%s]]\npath = %s\nfunctions = %s,\n' % (
                        m, rel, ', '.join(fs)))
                    want += [(f, '%s@%s' % (f, m)) for f in fs if f in has]
            start, name = {
                'abs': (other, os.path.join(conf_dir, 'c.cfg')),
                'rel': (root, os.path.join('conf dir', 'c.cfg')),
                'path': (other, pathlib.Path(conf_dir) / 'c.cfg'),
                'path-rel': (root, pathlib.Path('conf dir') / 'c.cfg'),
                'name': (conf_dir, 'c.cfg')}[case['form']]
            old = os.getcwd()
            try:
                os.chdir(start)
                start = os.getcwd()
                got = []
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    for n, fn in config.import_simulation_callables(name):
                        if os.getcwd() != start:
                            rec.fail('cwd', 'the caller runs in %r' %
                                     os.getcwd())
                            return
                        got.append((n, fn()))
                        rec.step()
                    moved = os.getcwd() != start
                    # abandoned after the first
                    it = iter(config.import_simulation_callables(name))
                    next(it, None)
                    moved = moved or os.getcwd() != start
                    del it
                if moved:
                    rec.fail('cwd', 'directory changed afterwards')
                    return
            finally:
                os.chdir(old)
            if got != want:
                rec.fail('callables', 'modules %r functions %r: got %r, '
                         'expected %r' % (kinds, funcs, got, want))
                return
            rec.state((case['form'], kinds, funcs))
            rec.trace()
