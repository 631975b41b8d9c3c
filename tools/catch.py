"""Which checks catch which planted bugs: python3 tools/catch.py [ID...] [--all]

Applies each bug to a scratch copy of /repo and runs the check of its property
(with --all every check) against that copy."""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith('-')]
every = '--all' in sys.argv
ids = args or sorted(os.listdir(ROOT + '/seeded'))
props = [c['property'] for c in
         json.load(open(ROOT + '/MANIFEST.json'))['checks']]
for i in ids:
    meta = json.load(open('%s/seeded/%s/meta.json' % (ROOT, i)))
    tmp = tempfile.mkdtemp(prefix='catch-')
    try:
        subprocess.run('cp -a /repo %s/repo && cd %s/repo && git apply '
                       '%s/seeded/%s/patch.diff' % (tmp, tmp, ROOT, i),
                       shell=True, check=True)
        got = []
        for p in (props if every else [meta['property']]):
            r = subprocess.run(
                [ROOT + '/check', p], env=dict(os.environ, VERIF_SEED='1',
                                               VERIF_TIER='quick',
                                               VERIF_REPO=tmp + '/repo'),
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                keys = sorted({l.split(': ')[1] for l in r.stdout.splitlines()
                               if l.startswith(p + ': ')})
                got.append('%s(%d: %s)' % (p, r.returncode, ', '.join(keys)[:90]))
        f = ROOT + '/doc/catches.json'
        known = json.load(open(f)) if os.path.exists(f) else {}
        known[i] = sorted(set(got) | set(
            [] if every else [g for g in known.get(i, [])
                              if not g.startswith(meta['property'] + '(')]))
        with open(f, 'w') as fp:
            json.dump(known, fp, indent=1, sort_keys=True)
        print(i, meta['property'], 'CAUGHT' if got else 'MISSED', *got,
              flush=True)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
