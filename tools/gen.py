"""Writes properties.jsonl and MANIFEST.json."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props  # noqa: E402

root = os.path.dirname(HERE)
ps = sorted(props.PROPS, key=lambda p: p['id'])
assert len({p['id'] for p in ps}) == len(ps)
NA = getattr(props, 'NOT_APPLICABLE', {})
with open(os.path.join(root, 'properties.jsonl'), 'w') as fp:
    for p in ps:
        assert len(p['title']) <= 80, p['id']
        a = {'files': p['files'], 'mechanism': p['mechanism']}
        if p['state']:
            a['state'] = list(p['state'])
        if p['observe']:
            a['observe_at'] = list(p['observe'])
        a['hook_needed'] = None
        fp.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'], 'anchors': a}) + '\n')
checks = []
for p in ps:
    if p['id'] in NA:
        continue
    checks.append({
        'property': p['id'], 'quick_cmd': './check %s --tier quick' % p['id'],
        'thorough_cmd': './check %s --tier thorough' % p['id'],
        'technique': p['technique'], 'level': p['level'],
        'level_note': p['note']})
with open(os.path.join(root, 'MANIFEST.json'), 'w') as fp:
    json.dump({'version': 1, 'setup_cmd': './setup', 'checks': checks,
               'not_applicable': [{'property': k, 'reason': v}
                                  for k, v in sorted(NA.items())],
               'notes': 'Nothing is compiled: every check imports /repo from '
                        'its working tree under the project\'s interpreter, '
                        'with stand-ins (shims/) for the packages that are '
                        'not installed. No hooks in /repo.'}, fp, indent=1)
    fp.write('\n')
