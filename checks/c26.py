"""C26: the command line runs the simulations it names as they were asked for.

Explored: every simulation of a generated set of modules x every choice of
options (each value of each option, all pairs, orders), every chain of up to 3
commands, every number of runs, in directories with up to 3 modules.  Oracle:
the class which ran and the values of its attributes, told by the simulation
itself; exit codes."""
import itertools
import os

LEVEL = 'model_checking'
BOUNDS = {
    'quick': '12 kinds of options, all values alone and in pairs of options in '
             'both orders; chains of up to 3 of 4 commands x num 1-3, one x num up to 40; 7 '
             'subsets of modules; invalid values of each kind; concatenation '
             'of up to 12 saved parts',
    'thorough': 'triples of options, chains of 4'}
ASSUMPTIONS = ['setting up of logging is replaced (the installed logging '
               'helper does not work with the installed YAML package)']
CASE_TIMEOUT = 800
LOG = []

TRAITS = [
    # name, declaration, default, [(arguments, value)], [bad arguments]
    ('size', 'Int(default_value=3, min=1, max=9)', 3,
     [(['5'], 5), (['9'], 9), (['1'], 1)], [['0'], ['10'], ['x'], ['2.5']]),
    ('count', 'Int(default_value=0)', 0, [(['12'], 12), (['-4'], -4)], [['a']]),
    ('width', 'Float(default_value=1.5)', 1.5,
     [(['2.25'], 2.25), (['-1e-3'], -1e-3), (['4'], 4.0)], [['w']]),
    ('phase', 'Complex(default_value=1j)', 1j, [(['1+2j'], 1 + 2j)], [['q']]),
    ('flag', 'Bool(default_value=False)', False, [([], True)], []),
    ('label', "Unicode(default_value='x')", 'x',
     [(['a b'], 'a b'), ([''], '')], []),
    ('kind', "Enum(default_value='p', values=('p', 'q', 'r'))", 'p',
     [(['q'], 'q'), (['r'], 'r')], [['s'], ['P']]),
    ('level', 'Enum(default_value=2, values=(1, 2, 30))', 2,
     [(['1'], 1), (['30'], 30)], [['3']]),
    ('model', 'Enum(default_value=Kind1, values=(Kind1, Kind2))', 'Kind1',
     [(['<Kind2>'], 'Kind2'), (['<Kind1>'], 'Kind1')], [['Kind3']]),
    ('maybe', "Enum(default_value=None, values=(None, 'yes'))", None,
     [(['yes'], 'yes'), (['None'], None)], [['no']]),
    # choices without a default among them, and no value by default
    ('free', "Enum(values=('u', 'v'), allow_none=True)", None,
     [(['u'], 'u'), (['v'], 'v')], [['None'], ['w']]),
    ('open', 'Enum(values=(1, 2))', 'unset', [(['2'], 2)], [['3'], ['']]),
    ('gap', 'Float(default_value=None, allow_none=True, min=0)', None,
     [(['2.5'], 2.5)], [['-1'], ['x']]),
    ('Mixed_Case', 'Int(default_value=7)', 7, [(['8'], 8)], []),
    ('pair', 'Tuple(Int(), Float(), default_value=(1, 2.5))', (1, 2.5),
     [(['4', '0.5'], (4, .5))], [['4', 'x']]),
    ('ratio', 'Float(default_value=.5, min=0, max=1)', .5,
     [(['0.25'], .25), (['0'], 0.0), (['1'], 1.0)],
     [['-0.1'], ['1.0000001'], ['1e9'], ['r']]),
    ('above', 'Float(default_value=.5, min=-1)', .5,
     [(['-1'], -1.0), (['1e9'], 1e9)], [['-1.1']]),
    ('few', 'Int(default_value=-2, max=4)', -2, [(['-9'], -9)], [['5']]),
    ('span', 'Tuple(Int(min=0), Float(max=2.), default_value=(1, 1.5))',
     (1, 1.5), [(['0', '2'], (0, 2.0))], [['-1', '1'], ['3', '2.5']]),
]

HEAD = '''
from traitlets import Int, Float, Complex, Bool, Unicode, Enum, Tuple
from crowddynamics.simulation.multiagent import MultiAgentSimulation
import checks.c26 as told


class Meta(type):
    def __str__(cls):
        return '<%s>' % cls.__name__


class Kind1(object, metaclass=Meta):
    pass


class Kind2(object, metaclass=Meta):
    pass

'''
CLASS = '''
class %(name)s(%(base)s):
%(traits)s
    def run(self):
        told.told('%(name)s', self, %(names)r)

'''


def told(name, sim, names):
    vals = {}
    for n in names:
        try:
            v = getattr(sim, n)
        except traitlets.TraitError:
            v = 'unset'
        vals[n] = v.__name__ if isinstance(v, type) else v
    LOG.append((name, vals, id(sim), sim))


def setup():
    global np, cli, io, CliRunner, click, traitlets
    import click
    import traitlets
    import numpy as np
    from click.testing import CliRunner
    from crowddynamics import cli, io
    import crowddynamics.logging as cl
    cl.setup_logging = lambda *a, **k: None
    if hasattr(cli, 'setup_logging'):
        cli.setup_logging = cl.setup_logging


def cases(tier):
    t = tier == 'thorough'
    out = [{'kind': 'options', 'k': k, 't': t} for k in range(len(TRAITS))]
    out += [{'kind': 'chain', 'k': k, 'n': 4 if t else 3} for k in range(4)]
    out += [{'kind': 'modules'}, {'kind': 'concat'}, {'kind': 'levels'},
            {'kind': 'inherit'}, {'kind': 'names'}]
    return out


def source(name, traits, base='MultiAgentSimulation', names=None):
    body = ''.join('    %s = %s\n' % (t[0], t[1]) for t in traits) or '    pass\n'
    return CLASS % {'name': name, 'base': base, 'traits': body,
                    'names': names or [t[0] for t in traits]}


def load(files):
    """Leaves these modules alone in the current directory."""
    for f in os.listdir('.'):
        os.remove(f)
    for f, text in files.items():
        with open(f, 'w') as fp:
            fp.write(text)
    cli.run.commands.clear()


def invoke(*args):
    del LOG[:]
    return CliRunner().invoke(cli.main, list(args))


def run_case(case, rec):
    os.chdir(rec.tmpdir())
    globals()['run_' + case['kind']](case, rec)


def listed():
    """The commands ``run --help`` tells of."""
    out = invoke('run', '--help').output
    if 'Commands:' not in out:
        return []
    return sorted(l.split()[0] for l in out.split('Commands:')[1].split('\n')
                  if l.startswith('  ') and not l.startswith('   '))


def explain(result):
    return '%r %s' % (result.exception, result.output[-300:])


def run_options(case, rec):
    one = TRAITS[case['k']]
    # one simulation before and one after it: commands must not be mixed up
    load({'sims.py': HEAD + source('First', TRAITS[:2]) +
          source('Sim', TRAITS) + source('Last', [])})
    defaults = {t[0]: t[2] for t in TRAITS}

    def opt(t, v):
        return ['--' + t[0]] + v

    def expect(args, values):
        r = invoke('run', 'Sim', *args)
        rec.state(tuple(args))
        rec.step()
        rec.trace()
        want = dict(defaults, **values)
        ok = r.exit_code == 0 and len(LOG) == 1 and LOG[0][0] == 'Sim'
        rec.check(ok, 'run', 'the simulation was not run once', args=args,
                  ran=[x[0] for x in LOG], output=explain(r))
        if ok:
            got = LOG[0][1]
            bad = {k: (got[k], want[k]) for k in want if got[k] != want[k] or
                   type(got[k]) is not type(want[k])}
            rec.check(not bad, 'value', 'the options did not reach the '
                      'simulation', args=args, wrong=bad)

    expect([], {})
    for a, v in one[3]:
        expect(opt(one, a), {one[0]: v})
        for two in TRAITS:
            if two is one:
                continue
            for b, w in two[3]:
                expect(opt(one, a) + opt(two, b), {one[0]: v, two[0]: w})
                if not case['t']:
                    continue
                for three in TRAITS:
                    if three is not two and three is not one:
                        c, x = three[3][-1]
                        expect(opt(one, a) + opt(two, b) + opt(three, c),
                               {one[0]: v, two[0]: w, three[0]: x})
    for bad in one[4]:
        r = invoke('run', 'Sim', *opt(one, bad))
        rec.state(('bad', one[0], tuple(bad)))
        rec.step()
        rec.trace()
        rec.check(r.exit_code != 0 and not LOG, 'bad', 'an invalid option is '
                  'accepted', option=one[0], value=bad, ran=[
                      x[:2] for x in LOG])
        # nothing of a chain runs either, wherever the option stands
        for chain in (['First', 'Sim'] + opt(one, bad),
                      ['Last', 'First', 'Sim'] + opt(one, bad) + ['Last'],
                      ['Sim', 'Sim'] + opt(one, bad)):
            r = invoke('run', *chain)
            rec.step()
            rec.trace()
            rec.check(r.exit_code != 0 and not LOG, 'bad', 'something ran '
                      'although an option is invalid', option=one[0],
                      value=bad, ran=[x[:2] for x in LOG])
    r = invoke('run', 'Sim', '--nothing', '1')
    rec.check(r.exit_code != 0 and not LOG, 'unknown', 'an unknown option is '
              'accepted')


def run_chain(case, rec):
    names = ['Alpha', 'Beta', 'Gamma', 'Delta']
    size = TRAITS[0]
    load({'one.py': HEAD + source('Alpha', [size]) + source('Beta', [size]),
          'two.py': HEAD + source('Gamma', [size]) + source('Delta', [])})
    for n in range(1, case['n'] + 1):
        for rest in itertools.product(names, repeat=n - 1):
            chain = (names[case['k']],) + rest
            for num in (None, 1, 2, 3):
                args = ['run'] + ([] if num is None else ['--num', str(num)])
                want = []
                for k, c in enumerate(chain):
                    args.append(c)
                    s = (3, 4, 5, 6)[k]
                    if c != 'Delta' and k:
                        args += ['--size', str(s)]
                    elif c != 'Delta':
                        s = 3
                    want += [(c, {} if c == 'Delta' else {'size': s})] * (
                        num or 1)
                r = invoke(*args)
                rec.state((chain, num))
                rec.step()
                rec.trace()
                rec.check(r.exit_code == 0 and [x[:2] for x in LOG] == want,
                          'chain', 'other simulations ran than asked for',
                          args=args, ran=[x[:2] for x in LOG],
                          output=explain(r))
                rec.check(len({x[2] for x in LOG}) == len(LOG), 'fresh',
                          'a simulation object ran twice', args=args)


def program(*args):
    """What ``python -m crowddynamics.cli`` prints."""
    import contextlib
    import io as stdio
    import runpy
    import sys
    import warnings
    out, old = stdio.StringIO(), sys.argv
    sys.argv = ['crowddynamics'] + list(args)
    try:
        with contextlib.redirect_stdout(out), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            runpy.run_module('crowddynamics.cli', run_name='__main__')
    except SystemExit:
        pass
    finally:
        sys.argv = old
    return out.getvalue()


def run_modules(case, rec):
    """Exactly the simulations of the modules of the directory."""
    text = {'a.py': HEAD + source('Alpha', TRAITS[:1]),
            'b.py': HEAD + source('Beta', TRAITS[:2]) + source('Gamma', []) +
            'NOT_A_CLASS = 3\ndef helper():\n    return MultiAgentSimulation\n',
            'c.py': 'x = 1\n', 'd.txt': 'Omega', 'e.pyc': 'junk',
            'f.py.bak': 'raise Exception',
            # saved data, and a module of few words
            'agents_0.npy': 'raise Exception',
            '_g.py': HEAD + source('Delta', [])}
    has = {'a.py': ['Alpha'], 'b.py': ['Beta', 'Gamma'], '_g.py': ['Delta']}
    here = os.getcwd()
    load({'a.py': text['a.py'], 'b.py': text['b.py']})
    for k in (0, 1, 7, 12, 40):
        r = invoke('run', '--num', str(k), 'Alpha')
        rec.check(r.exit_code == 0 and [x[0] for x in LOG] == ['Alpha'] * k,
                  'num', 'number of runs', asked=k, ran=len(LOG),
                  output=explain(r))
    for n in range(len(text) + 1):
        for files in itertools.combinations(sorted(text), n):
            want = sorted(x for f in files for x in has.get(f, []))
            load({f: text[f] for f in files})
            rec.state(files)
            rec.step()
            rec.trace()
            got = listed()
            rec.check(got == want, 'commands', 'commands for the simulations '
                      'of the directory', files=files, got=got)
            if n <= 2:    # the module run as a program says the same
                cli.run.commands.clear()
                got = program('run', '--help')
                rec.check(all((x in got) == (x in want) for x in (
                    'Alpha', 'Beta', 'Gamma', 'Delta')), 'program', 'commands of the '
                    'program', files=files, got=got[-400:])
                cli.run.commands.clear()
            for c in want:
                r = invoke('run', c)
                rec.check(r.exit_code == 0 and [x[0] for x in LOG] == [c],
                          'one', 'another simulation ran', asked=c,
                          ran=[x[0] for x in LOG], output=explain(r))
            r = invoke('list')
            rec.check(r.exit_code == 0 and all(x in r.output for x in want),
                      'list', 'list of the simulations', files=files,
                      output=explain(r))
            rec.check(not any(x in r.output for x in
                              ('Alpha', 'Beta', 'Gamma', 'Delta')
                              if x not in want),
                      'list', 'the list names others', files=files)
            # from another directory
            sub = os.path.join(here, '..', 'other%d' % len(rec.states))
            os.makedirs(sub)
            for rel in (os.path.abspath(here), os.path.relpath(here, sub)):
                os.chdir(sub)
                try:
                    got = cli.import_simulations(rel)
                finally:
                    os.chdir(here)
                rec.check(sorted(got) == want and all(
                    c.__name__ == k for k, c in got.items()), 'directory',
                    'simulations of another directory', files=files,
                    got=sorted(got))
            for bad in ('Omega', 'alpha'):
                r = invoke('run', bad)
                rec.check(r.exit_code != 0 and not LOG, 'missing',
                          'a simulation which is not there ran')


def run_names(case, rec):
    """A simulation is called by the name it is bound to in its module: made
    by a function or by type, bound to two names, two modules with it."""
    size = TRAITS[0]
    make = '''
def make(value):
    class Made(MultiAgentSimulation):
        size = Int(default_value=value, min=1, max=9)
        def run(self):
            told.told('%s', self, ['size'])
    return Made

'''
    kinds = {
        'plain': (source('Plain', [size]), {'Plain': ('Plain', 3)}),
        'made': (make % 'Made' + 'Four = make(4)\nFive = make(5)\n',
                 {'Four': ('Made', 4), 'Five': ('Made', 5)}),
        'typed': ("Typed = type('Other', (MultiAgentSimulation,), dict("
                  "size=Int(6), run=lambda self: told.told("
                  "'Typed', self, ['size'])))\n", {'Typed': ('Typed', 6)}),
        'alias': (source('Alpha', [size]) + 'Beta = Alpha\n',
                  {'Alpha': ('Alpha', 3), 'Beta': ('Alpha', 3)}),
        'under': (source('_Sim', [size]) + source('sim_2', [size]),
                  {'_Sim': ('_Sim', 3), 'sim_2': ('sim_2', 3)})}
    for n in range(1, len(kinds) + 1):
        for sel in itertools.permutations(sorted(kinds), n):
            text, want = '', {}
            for k in sel:
                text += kinds[k][0]
                want.update(kinds[k][1])
            load({'m.py': HEAD + text})
            rec.state(sel)
            rec.step()
            rec.trace()
            got = listed()
            rec.check(got == sorted(want), 'names',
                      'commands for the simulations of a module', kinds=sel,
                      got=got, want=sorted(want))
            if n > 2 and sel != tuple(sorted(sel)):
                continue
            for c, (name, value) in want.items():
                for args, v in (([], value), (['--size', '8'], 8)):
                    r = invoke('run', c, *args)
                    rec.step()
                    rec.check(r.exit_code == 0 and [x[:2] for x in LOG] ==
                              [(name, {'size': v})], 'names-run', 'another '
                              'simulation ran', asked=c, kinds=sel,
                              ran=[x[:2] for x in LOG], output=explain(r))


def run_inherit(case, rec):
    """Options of the class itself; others keep their defaults."""
    size, width = TRAITS[0], TRAITS[2]
    load({'m.py': HEAD + source('Base', [size]) +
          source('Derived', [width], base='Base', names=['size', 'width'])})
    for args, want in ((['run', 'Derived'], {'size': 3, 'width': 1.5}),
                       (['run', 'Derived', '--width', '4'],
                        {'size': 3, 'width': 4.0}),
                       (['run', 'Base', '--size', '8'], {'size': 8}),
                       (['run', 'Base'], {'size': 3})):
        r = invoke(*args)
        rec.state(tuple(args))
        rec.step()
        rec.trace()
        rec.check(r.exit_code == 0 and [x[1] for x in LOG] == [want],
                  'inherit', 'options of the class', args=args,
                  ran=[x[:2] for x in LOG], output=explain(r))


def run_levels(case, rec):
    load({'m.py': HEAD + source('Sim', [])})
    for level in ('INFO', 'DEBUG', 'WARNING', 'ERROR', 'CRITICAL', 'NOTSET'):
        r = invoke('run', '--loglevel', level, 'Sim')
        rec.state(level)
        rec.step()
        rec.trace()
        rec.check(r.exit_code == 0 and len(LOG) == 1, 'level', 'a level of '
                  'logging is refused', level=level, output=explain(r))
    for bad in ('info?', 'LOUD'):
        r = invoke('run', '--loglevel', bad, 'Sim')
        rec.step()
        rec.trace()
        rec.check(r.exit_code == 2 and not LOG, 'level', 'a wrong level of '
                  'logging is not refused properly', level=bad,
                  output=explain(r))
    for args in (['--help'], ['run', '--help'], ['run', 'Sim', '--help'],
                 ['list', '--help'], ['--version']):
        r = invoke(*args)
        rec.state(tuple(args))
        rec.step()
        rec.trace()
        rec.check(r.exit_code == 0 and not LOG, 'help', 'help', args=args,
                  output=explain(r))
    for bad in ('x', '1.5'):
        r = invoke('run', '--num', bad, 'Sim')
        rec.check(r.exit_code == 2 and not LOG, 'num', 'number of runs',
                  num=bad)


def run_concat(case, rec):
    """Saved parts are put together in the order they were saved."""
    here = os.getcwd()
    for parts in range(1, 13):
        for where in ('dot', 'abs', 'rel'):
            d = rec.tmpdir()
            work = rec.tmpdir()
            os.chdir(d if where == 'dot' else work)
            try:
                save = io.save_npy(d, 'agents')
                save.send(None)
                other = io.save_npy(d, 'agents_x')
                other.send(None)
                want = []
                for k in range(parts):
                    for row in range(1 + k % 3):
                        a = np.arange(3) + 100 * k + 10 * row
                        save.send(a)
                        save.send(row == k % 3)
                        other.send(a + 1000)
                        other.send(row == k % 3)
                        want += a.tolist()
                args = {'dot': [], 'abs': ['-d', d],
                        'rel': ['--directory', os.path.relpath(d)]}[where]
                name = [c for c in cli.main.commands if 'concat' in c]
                r = invoke(name[0], *(args + ['-n', 'agents']))
            finally:
                os.chdir(here)
            rec.state((parts, where))
            rec.step()
            rec.trace()
            if rec.check(r.exit_code == 0, 'concat', 'concatenation',
                         parts=parts, where=where, output=explain(r)):
                got = np.load(os.path.join(d, 'agents.npy'))
                rec.check(got.ravel().tolist() == want, 'concat',
                          'the parts are not put together in order',
                          parts=parts, where=where, got=got.tolist(),
                          want=want)
                rec.check(not os.path.exists(os.path.join(
                    work, 'agents.npy')), 'concat', 'written elsewhere')
