"""Plants a bug: python3 tools/plant.py SPEC.py

SPEC.py defines ID, PROPERTY, NEEDS, WHAT, EDITS = [(file, old, new), ...] and
DEMO, the body of a program that exits nonzero (raises) with the change.
Checks everything a planted bug needs in scratch copies of /repo and, if it
holds, writes seeded/ID/."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
d=$(cd "$(dirname "$0")" && pwd)
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$d/stubs:$PWD"
exec /opt/venv/bin/python "$d/demo.py"
'''
HEAD = '''import sys
import warnings
warnings.simplefilter('ignore')
import logging
logging.disable(logging.CRITICAL)
import numpy as np
np.seterr(all='ignore')
if not hasattr(np, 'asscalar'):
    np.asscalar = lambda a: np.asarray(a).item()

'''


def run(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def main(path):
    s = runpy.run_path(path)
    out = os.path.join(ROOT, 'seeded', s['ID'])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    with open(out + '/demo.sh', 'w') as fp:
        fp.write(SH)
    os.chmod(out + '/demo.sh', 0o755)
    with open(out + '/demo.py', 'w') as fp:
        fp.write(HEAD + s['DEMO'].strip() + '\n')
    shutil.copytree(ROOT + '/shims', out + '/stubs',
                    ignore=shutil.ignore_patterns('__pycache__'))
    with open(out + '/meta.json', 'w') as fp:
        json.dump({'property': s['PROPERTY'], 'needs': s['NEEDS'],
                   'what_it_breaks': s['WHAT']}, fp, indent=1)
    tmp = tempfile.mkdtemp(prefix='plant-')
    try:
        work = tmp + '/repo'
        run('cp -a /repo %s' % work)
        for f, old, new in s['EDITS']:
            p = os.path.join(work, f)
            t = open(p).read()
            assert t.count(old) == 1, (f, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = run('git diff', cwd=work).stdout
        with open(out + '/patch.diff', 'w') as fp:
            fp.write(diff)
        ok = run(out + '/demo.sh', cwd='/repo', timeout=280)
        bad = run(out + '/demo.sh', cwd=work, timeout=280)
        st = run('git status --short', cwd=work).stdout
        # only lines of the original repository may be changed
        base = run('git rev-list --max-parents=0 HEAD', cwd='/repo').stdout.strip()
        orig = set()
        for f in {e[0] for e in s['EDITS']}:
            orig |= set(run('git show %s:%s' % (base, f), cwd='/repo').stdout
                        .splitlines())
        alien = [l[1:] for l in diff.splitlines() if l.startswith('-')
                 and not l.startswith('---') and l[1:] not in orig]
        removed = [l for l in diff.splitlines() if l.startswith('-')
                   and not l.startswith('---')]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print(s['ID'], 'clean rc', ok.returncode, 'patched rc', bad.returncode)
    if ok.returncode:
        print(ok.stdout[-1500:])
    if not bad.returncode:
        print('NOT DETECTED BY ITS DEMO')
    else:
        print('   ', bad.stdout.strip().splitlines()[-1][:200])
    if alien:
        print('CHANGES LINES ADDED BY FIXES', alien)
    if not removed:
        print('note: only adds lines')
    if st.count('\n') != len({e[0] for e in s['EDITS']}):
        print('unexpected status', st)


for p in sys.argv[1:]:
    main(p)
