"""C31: the small tools keep their promises: the working directory is always
restored, only subclasses are imported, deprecated functions behave as before
and warn, errors keep their families.

Explored: all nestings of directory changes x ways of leaving; all small
modules made of class definitions; all call shapes of a deprecated
function."""
import inspect
import itertools
import os
import pathlib
import warnings

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'directory nestings to depth 4 x 5 targets x 4 ways of leaving '
             'each level; modules of up to 4 definitions out of 8 kinds; call '
             'shapes of 4 signatures',
    'thorough': 'depth 5; modules of up to 5 definitions'}
ASSUMPTIONS = ['every entered directory, and the one left, exist throughout']


def setup():
    global utils, exc, traitlets
    from crowddynamics import utils
    from crowddynamics import exceptions as exc
    import traitlets


TARGETS = ['a', 'a/b', '.', '..', 'ABS']
LEAVE = ['normal', 'Error', 'Base', 'moved']


def cases(tier):
    deep = tier == 'thorough'
    out = [{'kind': 'cwd', 'n': 5 if deep else 4, 'first': [a, b]}
           for a in TARGETS for b in LEAVE]
    out += [{'kind': 'modules', 'n': 5 if deep else 4, 'first': k}
            for k in range(8)]
    out += [{'kind': k} for k in ('missing', 'deprecated', 'docstring',
                                  'signature', 'families', 'filter')]
    return out


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    pass


def run_case(case, rec):
    globals()['k_' + case['kind']](case, rec)


def k_cwd(case, rec):
    root = rec.tmpdir()
    os.makedirs(os.path.join(root, 'r', 'a', 'b', 'a', 'b', 'a', 'b', 'a', 'b',
                             'a', 'b'))
    absd = os.path.join(root, 'r', 'a')
    old = os.getcwd()
    level = [tuple(x) for x in itertools.product(TARGETS, LEAVE)]

    def go(plan):
        """Enters plan[0], recurses, leaves it; returns False on a failure."""
        if not plan:
            return True
        target, leave = plan[0]
        t = absd if target == 'ABS' else target
        if not os.path.isdir(t):
            return True
        if len(plan) % 2:
            t = pathlib.Path(t)
        before = os.getcwd()
        want = os.path.realpath(os.path.join(before, str(t)))
        good = [True]
        rec.step()
        try:
            with utils.remember_cwd(t):
                if os.path.realpath(os.getcwd()) != want:
                    rec.fail('cwd', 'inside: %r instead of %r' % (
                        os.getcwd(), want))
                    return False
                good[0] = go(plan[1:])
                if leave == 'Error':
                    raise Boom
                if leave == 'Base':
                    raise BaseBoom
                if leave == 'moved':
                    os.chdir('/')
        except (Boom, BaseBoom):
            if leave not in ('Error', 'Base'):
                rec.fail('cwd', 'an exception out of nothing')
                return False
        else:
            if leave in ('Error', 'Base'):
                rec.fail('cwd', 'the exception %s was swallowed' % leave)
                return False
        if os.getcwd() != before:
            rec.fail('cwd', 'left by %s: in %r instead of %r' % (
                leave, os.getcwd(), before))
            return False
        return good[0]
    try:
        for n in range(case['n']):
            for rest in itertools.product(level, repeat=n):
                if n >= 3 and len({r[1] for r in rest}) > 2:
                    continue
                os.chdir(os.path.join(root, 'r'))
                if not go((tuple(case['first']),) + rest):
                    return
                rec.state((tuple(case['first']), rest))
                rec.trace()
        rec.sample({'first': case['first']})
    finally:
        os.chdir(old)


def k_missing(case, rec):
    root = rec.tmpdir()
    old = os.getcwd()
    open(os.path.join(root, 'file'), 'w').close()
    try:
        os.chdir(root)
        here = os.getcwd()
        for t in ('none', 'file', '', 'none/x'):
            entered = False
            try:
                with utils.remember_cwd(t):
                    entered = True
            except OSError:
                pass
            rec.check(not entered, 'cwd', 'entered %r' % t)
            rec.check(os.getcwd() == here, 'cwd', 'moved by %r' % t)
            rec.state(t)
            rec.step()
            rec.trace()
    finally:
        os.chdir(old)


DEFS = [('class %s(Base):\n    pass', True), ('class %s:\n    pass', False),
        ('class %s(Derived):\n    pass', True), ('%s = Base', False),
        ('%s = Derived', True), ('%s = 5', False),
        ('def %s():\n    return Base', False), ('%s = Base()', False)]


def k_modules(case, rec):
    prelude = ('import builtins\nBase = builtins._mc_base\n'
               'Derived = builtins._mc_derived\n')
    import builtins

    class Base:
        pass

    class Derived(Base):
        pass
    builtins._mc_base, builtins._mc_derived = Base, Derived
    d = rec.tmpdir()
    names = ['Zeta', 'alpha', '_private', 'Mid', 'A0']
    k = 0
    for n in range(case['n']):
        for rest in itertools.product(range(len(DEFS)), repeat=n):
            if n >= 3 and len(set(rest)) < 2:
                continue
            kinds = (case['first'],) + rest
            k += 1
            path = os.path.join(d, 'mod %d.py' % k)
            with open(path, 'w') as fp:
                fp.write(prelude)
                for name, kind in zip(names, kinds):
                    fp.write(DEFS[kind][0] % name + '\n')
            want = ['Derived'] + [nm for nm, kd in zip(names, kinds)
                                  if DEFS[kd][1]]
            got = utils.import_subclasses(
                path if k % 2 else pathlib.Path(path), Base)
            rec.step()
            if list(got) != want:
                rec.fail('subclasses', 'definitions %r: %r, expected %r' % (
                    kinds, list(got), want))
                return
            for nm, o in got.items():
                if not issubclass(o, Base) or (
                        nm != 'Derived' and
                        DEFS[kinds[names.index(nm)]][0].startswith('class')
                        and o.__name__ != nm):
                    rec.fail('subclasses', '%s bound to %r' % (nm, o))
                    return
            rec.state(kinds)
            rec.trace()
            # every import gives a module of its own
            if n == 1:
                again = utils.import_subclasses(path, Base)
                for nm in got:
                    if nm != 'Derived' and DEFS[kinds[names.index(nm)]][0]\
                            .startswith('class') and again[nm] is got[nm]:
                        rec.fail('subclasses', 'module shared between imports')
            os.remove(path)
    for name in ('plain', 'two words', 'dotted.name', '_x', 'a0'):
        for where in (d, os.path.join(d, 'sub.dir')):
            os.makedirs(where, exist_ok=True)
            path = os.path.join(where, name + '.py')
            with open(path, 'w') as fp:
                fp.write('NAME = __name__\nclass Some:\n    pass\n')
            mod = utils.import_module(path)
            rec.state(('module', name, where == d))
            rec.trace()
            rec.check(mod.NAME == mod.__name__ == mod.Some.__module__ == name,
                      'module', 'module %r is called %r' % (name, mod.NAME))
    m = os.path.join(d, 'bad.py')
    with open(m, 'w') as fp:
        fp.write('raise KeyError("x")\n')
    try:
        utils.import_module(m)
        rec.fail('errors', 'an error while importing was swallowed')
    except KeyError:
        pass


def k_filter(case, rec):
    class Base:
        pass

    class Sub(Base):
        pass

    namesake = type('Base', (Base,), {})

    class Meta(type):
        def __subclasscheck__(cls, o):
            raise RuntimeError

    objs = [(Base, False), (Sub, True), (object, False), (int, False),
            (namesake, True), (5, False), (None, False), ('Sub', False), (Base(), False),
            (Sub(), False), ([Sub], False), ((Sub,), False), (lambda: 0, False)]
    for o, want in objs:
        rec.check(bool(utils.filter_cls(Base, o)) == want, 'filter', repr(o))
        rec.state(repr(type(o)) + str(want))
        rec.step()
        rec.trace()


def k_deprecated(case, rec):
    def f0():
        """doc"""
        return 'r0'

    def f1(a, b=2, *c, d=4, **e):
        return a, b, c, d, e

    def f2(x):
        raise Boom(x)

    def gen(n):
        for k in range(n):
            yield k
    shapes = [(f0, (), {}), (f1, (1,), {}), (f1, (1, 3), {'d': 5}),
              (f1, (1, 2, 3, 4), {'z': 1}), (f1, (), {'a': 1}),
              (f2, (1,), {}), (f0, (9,), {})]
    for (fn, a, kw), times in itertools.product(shapes, (1, 3)):
        g = exc.deprecated(fn)
        rec.check(g.__name__ == fn.__name__ and g.__doc__ == fn.__doc__,
                  'metadata', 'name or doc lost')
        for _ in range(times):
            def out(h):
                try:
                    return 'value', h(*a, **kw)
                except Exception as e:
                    return 'error', type(e), str(e)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                got = out(g)
            rec.step()
            rec.check(got == out(fn), 'behaviour', '%r instead of %r' % (
                got, out(fn)))
            rec.check(len(w) == 1 and w[0].category is DeprecationWarning and
                      fn.__name__ in str(w[0].message), 'warning',
                      '%d warnings' % len(w))
            if len(w) == 1:
                rec.check(w[0].filename == fn.__code__.co_filename, 'warning',
                          'points to %r' % w[0].filename)
        rec.state((fn.__name__, a, tuple(kw)))
        rec.trace()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        rec.check(list(exc.deprecated(gen)(3)) == [0, 1, 2], 'behaviour',
                  'generator')
        warnings.simplefilter('error')
        try:
            exc.deprecated(f0)()
            rec.fail('warning', 'not raised as an error')
        except DeprecationWarning:
            pass


def k_docstring(case, rec):
    for subs in itertools.product(('text', '%', 'a\nb', '100%s', 5),
                                  ('plain', 'call')):
        val, how = subs

        class Foo:
            """%(name)s and %(other)s, 50%%"""

            def m(self):
                return 1
        out = utils.interpolate_docstring(
            name=(lambda c: (c.__name__, val)[1]) if how == 'call' else val,
            other=lambda c: c.__name__)(Foo)
        rec.step()
        rec.check(out is Foo and Foo.__doc__ == '%s and Foo, 50%%' % (val,),
                  'docstring', repr(Foo.__doc__))
        rec.state(subs)
        rec.trace()


def k_signature(case, rec):
    anns = [inspect.Parameter.empty, int, 'x']
    defs = [None, 0, False, 'a', (1, 2)]
    for names in (('a',), ('b', 'a'), ('self', 'a', 'b'), ('x', 'self_'),
                  ('self',), ()):
        for da in itertools.product(range(3), repeat=min(len(names), 2)):
            for dd in itertools.product(range(5), repeat=min(len(names), 2)):
                ps = []
                for k, n in enumerate(names):
                    ps.append(inspect.Parameter(
                        n, inspect.Parameter.POSITIONAL_OR_KEYWORD,
                        default=defs[dd[k % 2 if len(dd) > 1 else 0]],
                        annotation=anns[da[k % 2 if len(da) > 1 else 0]]))

                def f():
                    pass
                f.__signature__ = inspect.Signature(ps)
                got = [tuple(s) for s in utils.parse_signature(f)]
                want = [(p.name, p.default,
                         None if p.annotation is inspect.Parameter.empty
                         else p.annotation) for p in ps if p.name != 'self']
                rec.step()
                if got != want:
                    rec.fail('signature', '%r instead of %r' % (got, want))
                    return
                rec.state((names, da, dd))
                rec.trace()


def k_families(case, rec):
    fam = {'InvalidType': TypeError, 'InvalidValue': ValueError,
           'ValidationError': traitlets.TraitError,
           'OverlappingError': Exception, 'AgentStructureFull': Exception,
           'NotACrowdDynamicsDirectory': Exception,
           'DirectoryIsAlreadyCrowdDynamicsDirectory': Exception}
    for name, std in fam.items():
        c = getattr(exc, name)
        for kind in (std, exc.CrowdDynamicsException, c):
            try:
                raise c('message')
            except kind as e:
                rec.check('message' in str(e), 'families', name)
            except Exception:
                rec.fail('families', '%s is not caught as %s' % (
                    name, kind.__name__))
            rec.step()
        for other in fam:
            if other != name:
                rec.check(not issubclass(c, getattr(exc, other)), 'families',
                          '%s is a %s' % (name, other))
        rec.state(name)
        rec.trace()
