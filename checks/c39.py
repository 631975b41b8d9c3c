"""C39: descriptions of classes and functions tell what they are.

Explored: every small class hierarchy of an alphabet of traits described as a
table, put into every docstring template; every function of up to 4 parameters
over kinds, defaults and annotations.  Oracle: the declarations the classes
and functions were generated from."""
import csv
import inspect
import io
import itertools

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'tables: all sequences of up to 3 of 8 traits over 2 classes; '
             'the same with every subset of inherited traits '
             'declared again; docstrings: 5 templates x 4 substitutions; functions: all '
             'sequences of up to 3 of 12 parameters, as function, method, '
             'static and class method; agent classes of the package',
    'thorough': 'sequences of up to 4 traits and 4 parameters'}
ASSUMPTIONS = ['parameters without default are not judged']
CASE_TIMEOUT = 600


def setup():
    global tl, T, U, A, np, Array
    import numpy as np
    import traitlets as tl
    from traittypes import Array
    from crowddynamics import traits as T
    from crowddynamics import utils as U
    from crowddynamics.simulation import agents as A


# (name, constructor, symbol, default, help)
def alphabet():
    return [
        ('radius', tl.Float, 'r', .25, 'Radius of the body'),
        ('count', tl.Int, None, 3, 'Commas, and "quotes"'),
        ('flag', tl.Bool, '', False, ''),
        ('label', tl.Unicode, r'\ell_{0}', '', 'One\nover two lines'),
        ('word', tl.Unicode, 'w', "it's", None),
        ('phase', tl.Complex, r'\phi, \psi', 1j, "'single'"),
        ('kind', lambda **k: tl.Enum(values=('a', None), **k), 'k', None,
         'Ends with backslash \\'),
        ('place', Array, r'\mathbf{x}', np.array([1., 2.]), 'A; b'),
    ]


def cases(tier):
    t = tier == 'thorough'
    return [{'kind': 'tables', 'first': k, 'n': 4 if t else 3}
            for k in range(8)] + \
        [{'kind': 'again', 'first': k, 'n': 4 if t else 3}
         for k in range(8)] + \
        [{'kind': 'docs'}, {'kind': 'agents'}] + \
        [{'kind': 'signature', 'n': n} for n in range(5 if t else 4)]


def run_case(case, rec):
    globals()['run_' + case['kind']](case, rec)


def declare(names, spec, base):
    return type('Declared', (base,), {
        s[0]: (s[1](default_value=s[3], help=s[4] or '', symbol=s[2])
               if s[2] is not None else
               s[1](default_value=s[3], help=s[4] or '')).tag()
        for s in (spec[k] for k in names)})


def cells(s):
    """The row of a trait, as an application of the documented roles."""
    return ['``%s``' % s[0],
            '' if s[2] in ('', None) else ':math:`%s`' % s[2],
            '' if isinstance(s[3], str) and s[3] == '' else '``%s``' % (s[3],),
            s[4] or '']


def parse(text):
    """Rows of a csv-table directive and its head."""
    lines = text.replace('\r\n', '\n').split('\n')
    k = next(k for k, x in enumerate(lines) if x.startswith('.. csv-table::'))
    body = lines[k + 1:]
    options = []
    while body and body[0].strip():
        options.append(body.pop(0))
    bad = [x for x in options + body if x.strip() and not x.startswith('   ')]
    content = '\n'.join(x[3:] for x in body).strip('\n')
    return [x.strip() for x in options], \
        list(csv.reader(io.StringIO(content, newline=''))), bad


def check_table(rec, text, rows, say):
    options, got, bad = parse(text)
    rec.check(not bad, 'indent', 'content outside of the directive',
              got=bad, **say)
    rec.check(options == [':header-rows: 1'], 'options', 'options of the '
              'table', got=options, **say)
    rec.check(bool(got) and got[0] == ['name', 'symbol', 'default value',
                                       'help'],
              'head', 'head of the table', got=got[:1], **say)
    got = [r for r in got[1:] if r]
    rec.check(got == rows, 'rows', 'rows of the table', got=got, want=rows,
              **say)


def run_tables(case, rec):
    spec = alphabet()
    others = [k for k in range(len(spec)) if k != case['first']]
    for n in range(case['n']):
        for sel in itertools.permutations(others, n):
            ks = (case['first'],) + sel
            for cut in range(len(ks) + 1):
                base = declare(ks[cut:], spec, tl.HasTraits)
                cls = declare(ks[:cut], spec, base)
                rec.state((ks, cut))
                text = T.table_of_traits(cls)
                rec.step()
                # own traits first, then inherited ones
                check_table(rec, text, [cells(spec[k]) for k in ks],
                            dict(traits=ks, inherited=len(ks) - cut))
                rec.check([k for k, _ in T.class_traits(cls)] ==
                          [spec[k][0] for k in ks], 'order', 'traits of a '
                          'class', traits=ks)
                hide = spec[ks[-1]][0]
                got = [k for k, _ in T.class_traits(
                    cls, exclude_attrs=lambda a: a == hide)]
                rec.check(got == [spec[k][0] for k in ks[:-1]], 'hide',
                          'traits less an excluded one', got=got, traits=ks)
                got = [k for k, _ in T.class_traits(
                    cls, exclude_cls=lambda c: c is base)]
                rec.check(got == [spec[k][0] for k in ks[:cut]], 'hide-class',
                          'traits less an excluded class', got=got, traits=ks)
                rec.trace()


def run_again(case, rec):
    """Traits declared again by a derived class replace the inherited."""
    spec = alphabet()
    # the same names, declared otherwise
    again = spec + [(s[0], tl.Int, 'again', 40 + k, 'Again')
                    for k, s in enumerate(spec)]
    others = [k for k in range(len(spec)) if k != case['first']]
    for n in range(case['n']):
        for sel in itertools.permutations(others, n):
            ks = (case['first'],) + sel
            base = declare(ks, spec, tl.HasTraits)
            for m in range(1, len(ks) + 1):
                for sub in itertools.permutations(ks, m):
                    new = [k for k in others if k not in ks][:1]
                    own = [k + len(spec) for k in sub] + new
                    cls = declare(own, again, base)
                    want = own + [k for k in ks if k not in sub]
                    rec.state((ks, sub))
                    say = dict(traits=ks, again=sub)
                    got = [(k, v.default_value) for k, v in
                           T.class_traits(cls)]
                    rec.check([g[0] for g in got] ==
                              [again[k][0] for k in want], 'again-order',
                              'traits of a class which declares inherited '
                              'ones again', got=[g[0] for g in got], **say)
                    rec.check([g[1] for g in got[:m]] ==
                              [again[k][3] for k in own[:m]], 'again',
                              'not the declaration of the derived class',
                              **say)
                    check_table(rec, T.table_of_traits(cls),
                                [cells(again[k]) for k in want], say)
                    got = [k for k, _ in T.class_traits(
                        cls, exclude_cls=lambda c: c is cls)]
                    rec.check(got == [spec[k][0] for k in ks], 'again-base',
                              'inherited traits less the derived class',
                              got=got, **say)
                    rec.trace()


def run_docs(case, rec):
    templates = ['%(a)s', 'x %(a)s y %(b)s', '%(b)s\n\n   %(a)s\n%(b)s',
                 'plain', '100 %% of %(a)s']
    values = ['text', '', lambda cls: cls.__name__, lambda cls: str(
        sorted(k for k in vars(cls) if k == 'mark'))]
    for doc, i, j in itertools.product(templates, range(4), range(4)):
        cls = type('Thing', (object,), {'__doc__': doc, 'mark': 1})
        rec.state((doc, i, j))
        rec.step()
        before = dict(vars(cls))
        same = U.interpolate_docstring(a=values[i], b=values[j])(cls)
        rec.check(same is cls, 'class', 'another class', doc=doc)

        def say(v):
            return v(cls) if callable(v) else v
        want = doc.replace('%(a)s', '\0').replace('%(b)s', '\1').replace(
            '%%', '%').replace('\0', say(values[i])).replace(
                '\1', say(values[j]))
        rec.check(cls.__doc__ == want, 'doc', 'docstring', got=cls.__doc__,
                  want=want)
        rec.check({k for k, v in vars(cls).items()
                   if before.get(k) is not v} <= {'__doc__'}, 'else',
                  'something else was changed', doc=doc)
        rec.trace()


def run_agents(case, rec):
    """The agent classes of the package carry their table."""
    for cls in (A.AgentType, A.Circular, A.ThreeCircle, A.Agents, A.BodyType,
                A.States):
        text = T.table_of_traits(cls)
        rows = [cells((n, None, t.metadata.get('symbol', ''), t.default_value,
                       t.metadata.get('help', '')))
                for c in inspect.getmro(cls) if issubclass(c, tl.HasTraits)
                for n, t in vars(c).items() if isinstance(t, tl.TraitType)]
        rec.state(cls.__name__)
        rec.step()
        check_table(rec, text, rows, dict(cls=cls.__name__))
        doc = cls.__doc__ or ''
        rec.check('%(' not in doc, 'left', 'a place was left open in the '
                  'docstring', cls=cls.__name__)
        if '.. csv-table' in doc:
            rec.check(text in doc, 'docstring', 'the docstring does not hold '
                      'the table of the class', cls=cls.__name__)
        rec.trace()
    for cls in (A.Circular, A.ThreeCircle):
        rec.check('.. csv-table' in cls.__doc__, 'documented', 'a class '
                  'without table', cls=cls.__name__)


PARAMS = [  # text, default, annotation
    ('a=1', 1, None), ('b: int = 2', 2, int), ("c='x'", 'x', None),
    ('d: float = 0.5', .5, float), ('e=None', None, None),
    ('f: bool = False', False, bool), ("g: str = ''", '', str),
    ('h=()', (), None), ('*, k=4', 4, None), ('selfish=5', 5, None),
    ('cls=6', 6, None), ('_hidden=7', 7, None)]


def run_signature(case, rec):
    for sel in itertools.permutations(range(len(PARAMS)), case['n']):
        texts = [PARAMS[k][0] for k in sel]
        want = [(t.replace('*, ', '').split('=')[0].split(':')[0].strip(),
                 PARAMS[k][1], PARAMS[k][2]) for t, k in zip(texts, sel)]
        for form in ('function', 'method', 'static', 'bound'):
            head = ['self'] if form in ('method', 'bound') else []
            space = {}
            exec('def f(%s): pass' % ', '.join(head + texts), space)
            f = space['f']
            if form != 'function':
                cls = type('C', (), {'f': staticmethod(f)
                                     if form == 'static' else f})
                f = cls().f if form == 'bound' else cls.f
            rec.state((sel, form))
            rec.step()
            got = list(U.parse_signature(f))
            rec.check([tuple(g) for g in got] == want and
                      all(type(g.default) is type(w[1])
                          for g, w in zip(got, want)), 'signature',
                      'parameters of a function', got=got, want=want,
                      form=form)
            rec.check(all((g.name, g.default, g.annotation) == tuple(g)
                          for g in got), 'names', 'fields of a parameter',
                      form=form)
            rec.trace()
