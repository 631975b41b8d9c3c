"""Systematic mutation of the code under test, to find what the checks miss.

    python3 tools/mutate.py OUT.jsonl [FILE...]      (resumes)

For every site and operator one mutant in a scratch copy; the checks of that
file run until one of them fails.  Survivors are printed and recorded."""
import ast
import copy
import json
import os
import queue
import shutil
import subprocess
import sys
import tempfile
import threading
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {
    'core/motion/contact.py': 'C12 C13',
    'core/motion/fluctuation.py': 'C12 C35',
    'core/motion/adjusting.py': 'C12 C35',
    'core/motion/power_law.py': 'C15 C13',
    'core/steering/orientation.py': 'C19',
    'core/steering/navigation.py': 'C19 C20',
    'core/steering/obstacle_handling.py': 'C19 C20',
    'core/steering/quickest_path.py': 'C19 C20 C36',
    'core/steering/collective_motion.py': 'C17 C18',
    'core/geometry.py': 'C34 C13 C20',
    'core/rand.py': 'C32 C12 C24',
    'core/block_list.py': 'C01 C02',
    'core/sampling.py': 'C21 C36',
    'core/evacuation.py': 'C29 C16',
    'simulation/field.py': 'C20 C21 C19',
    'core/distance.py': 'C14 C13',
    'core/interactions.py': 'C13 C35',
    'core/vector2D.py': 'C28 C15',
    'core/integrator.py': 'C11 C03 C35',
    'traits.py': 'C25 C26 C39',
    'core/quantities.py': 'C22',
    'simulation/agents.py': 'C25 C24 C03 C02 C36',
    'simulation/logic.py': 'C35 C27 C16 C18 C30 C19 C17 C37',
    'simulation/base.py': 'C08 C09 C10',
    'simulation/multiagent.py': 'C09 C10 C30 C35',
    'io.py': 'C04 C05 C07 C30 C06',
    'utils.py': 'C31 C26 C09 C39',
    'config.py': 'C23',
    'cli.py': 'C26',
    'visualizations.py': 'C38',
    'exceptions.py': 'C31 C09',
    'core/sensory_region.py': 'C16',
    'core/geom2D.py': 'C28 C16',
    'examples/simulations.py': 'C36',
    'examples/fields.py': 'C36',
    'examples/collective_motion.py': 'C36',
}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE],
       ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot],
       ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div],
       ast.Div: [ast.Mult], ast.FloorDiv: [ast.Div], ast.Mod: [ast.Mult],
       ast.Pow: [ast.Mult], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd]}


def sites(tree):
    """(description, function which changes the tree in place)."""
    out = []
    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            b = node.body
            if b and isinstance(b[0], ast.Expr) and isinstance(
                    b[0].value, ast.Constant):
                skip.add(id(b[0]))
                skip.add(id(b[0].value))
            for d in getattr(node, 'decorator_list', []):
                for n in ast.walk(d):
                    skip.add(id(n))
            if isinstance(node, ast.FunctionDef) and node.name in (
                    '__repr__', '__str__'):
                for n in ast.walk(node):
                    skip.add(id(n))
        if isinstance(node, ast.keyword) and node.arg == 'help':
            for n in ast.walk(node):
                skip.add(id(n))
        if isinstance(node, ast.Call) and isinstance(
                node.func, ast.Attribute) and isinstance(
                node.func.value, ast.Name) and node.func.value.id == 'logger':
            for n in ast.walk(node):
                skip.add(id(n))
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            skip.add(id(node))
    k = -1
    for node in ast.walk(tree):
        k += 1
        if id(node) in skip:
            continue
        line = getattr(node, 'lineno', 0)
        src = None

        def add(what, k=k, line=line, fn=None):
            out.append((line, k, what, fn))
        if isinstance(node, ast.Compare):
            for o in CMP.get(type(node.ops[0]), []):
                add('cmp->' + o.__name__,
                    fn=lambda n, o=o: n.ops.__setitem__(0, o()))
        if isinstance(node, ast.BinOp) and not isinstance(
                node.left, (ast.Constant, ast.JoinedStr)) or isinstance(
                node, ast.AugAssign) or (isinstance(node, ast.BinOp) and not
                                         isinstance(getattr(node.left, 'value',
                                                            None), str)):
            for o in BIN.get(type(node.op), []):
                add('bin->' + o.__name__,
                    fn=lambda n, o=o: setattr(n, 'op', o()))
        if isinstance(node, ast.BinOp) and isinstance(node.op, (ast.Sub,
                                                                ast.Div)):
            def swap(n):
                n.left, n.right = n.right, n.left
            add('swap-operands', fn=swap)
        if isinstance(node, ast.BoolOp):
            o = ast.Or if isinstance(node.op, ast.And) else ast.And
            add('bool->' + o.__name__, fn=lambda n, o=o: setattr(n, 'op', o()))
            for q in range(len(node.values)):
                add('bool-drop%d' % q, fn=lambda n, q=q: n.values.pop(q))
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub,
                                                                  ast.Not)):
            def pos(n):
                n.op = ast.UAdd() if isinstance(n.op, ast.USub) else None
            if isinstance(node.op, ast.USub):
                add('unary-drop', fn=pos)
        if isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                add('const', fn=lambda n, v=v: setattr(n, 'value', not v))
            elif isinstance(v, int):
                add('const+1', fn=lambda n, v=v: setattr(n, 'value', v + 1))
                if v:
                    add('const-1', fn=lambda n, v=v: setattr(n, 'value', v - 1))
            elif isinstance(v, float):
                add('const*1.25', fn=lambda n, v=v: setattr(
                    n, 'value', v * 1.25 + (v == 0)))
        if isinstance(node, (ast.If, ast.While, ast.IfExp)):
            add('cond-not', fn=lambda n: setattr(n, 'test', ast.UnaryOp(
                ast.Not(), n.test)))
            if not isinstance(node, ast.While):
                add('cond-true', fn=lambda n: setattr(n, 'test', ast.Constant(
                    True)))
            add('cond-false', fn=lambda n: setattr(n, 'test', ast.Constant(
                False)))
        if isinstance(node, ast.Call) and len(node.args) >= 2:
            for q in range(len(node.args) - 1):
                def sw(n, q=q):
                    n.args[q], n.args[q + 1] = n.args[q + 1], n.args[q]
                add('args-swap%d' % q, fn=sw)
        if isinstance(node, ast.Tuple) and len(node.elts) == 2 and \
                isinstance(node.ctx, ast.Load):
            add('tuple-swap', fn=lambda n: n.elts.reverse())
        for field in ('body', 'orelse', 'finalbody'):
            lst = getattr(node, field, None)
            for q, st in enumerate(lst if isinstance(lst, list) else []):
                if id(st) in skip or not isinstance(
                        st, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return,
                             ast.Break, ast.Continue, ast.Raise, ast.Assert)):
                    continue
                if isinstance(st, ast.Expr) and id(st.value) in skip:
                    continue
                if isinstance(node, ast.Module) and isinstance(
                        st, ast.Assign) and q < 6:
                    continue

                def drop(n, f=field, q=q):
                    getattr(n, f)[q] = ast.Pass()
                add('drop:%s' % ast.unparse(st)[:60].replace('\n', ' '),
                    line=st.lineno, fn=drop)
    return sorted(out, key=lambda s: (s[0], s[1], s[2]))


def mutant(text, k, what):
    tree = ast.parse(text)
    for line, q, w, fn in sites(tree):
        if q == k and w == what:
            node = list(ast.walk(tree))[k]
            before = ast.unparse(node)[:100]
            fn(node)
            ast.fix_missing_locations(tree)
            return ast.unparse(tree), before
    raise KeyError


def main():
    out = sys.argv[1]
    files = sys.argv[2:] or list(MAP)
    slots = int(os.environ.get('SLOTS', '4'))
    jobs = os.environ.get('VERIF_JOBS', '2')
    done = set()
    if os.path.exists(out):
        with open(out) as f:
            for l in f:
                r = json.loads(l)
                done.add((r['file'], r['k'], r['what'], r.get('line')))
    todo = queue.Queue()
    total = 0
    for f in files:
        text = open('/repo/crowddynamics/' + f).read()
        for line, k, what, _ in sites(ast.parse(text)):
            if (f, k, what, line) not in done:
                todo.put((f, text, line, k, what))
                total += 1
    print(total, 'mutants', flush=True)
    lock = threading.Lock()

    def work(n):
        tmp = tempfile.mkdtemp(prefix='mut-')
        subprocess.run(['cp', '-a', '/repo', tmp + '/repo'], check=True)
        while True:
            try:
                f, text, line, k, what = todo.get_nowait()
            except queue.Empty:
                break
            path = tmp + '/repo/crowddynamics/' + f
            try:
                new, before = mutant(text, k, what)
            except Exception as e:
                new, before = None, repr(e)
            r = {'file': f, 'line': line, 'k': k, 'what': what,
                 'before': before}
            t0 = time.time()
            if new is None:
                r['by'] = 'skip'
            else:
                with open(path, 'w') as fp:
                    fp.write(new)
                r['by'] = None
                for c in MAP[f].split():
                    try:
                        p = subprocess.run(
                            ['timeout', '-k', '5', '400', ROOT + '/check', c],
                            env=dict(os.environ, VERIF_REPO=tmp + '/repo',
                                     MC_FAILFAST='1', VERIF_JOBS=jobs,
                                     VERIF_TIER='quick', VERIF_SEED='1'),
                            stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                            text=True)
                    except Exception as e:
                        r['by'] = repr(e)
                        break
                    if p.returncode:
                        r['by'] = '%s(%d)' % (c, p.returncode)
                        r['key'] = p.stdout[:120]
                        break
                with open(path, 'w') as fp:
                    fp.write(text)
            r['s'] = round(time.time() - t0, 1)
            with lock:
                with open(out, 'a') as fp:
                    fp.write(json.dumps(r) + '\n')
                if not r['by']:
                    print('SURVIVED', f, line, what, '|', before, flush=True)
        shutil.rmtree(tmp, ignore_errors=True)

    ts = [threading.Thread(target=work, args=(n,)) for n in range(slots)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == '__main__':
    main()
