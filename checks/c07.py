"""C07: geometries written to the JSON file come back the same.

Explored: every geometry kind x every container it may come in x coordinate
alphabets, all pairs of entries in one file, and all sequences of saves to
the same and to different files.  Oracle: nested coordinate tuples."""
import itertools
import json
import os
import pathlib

LEVEL = 'model_checking'
BOUNDS = {
    'quick': '17 geometry kinds x 4 coordinate sets x 6 containers; all pairs '
             'of (kind, container) entries of one file; all sequences of 3 '
             'saves over 9 contents (2 of which cannot be saved: the file '
             'stays as it was) and 2 files',
    'thorough': 'the same with triples of entries and sequences of 4 saves'}
ASSUMPTIONS = ['shapely is not installed here: a stand-in with the shapely 1.6 '
               'interface provides the geometry classes, mapping() and shape()',
               'empty geometries may come back as None or empty']

COORDS = {
    'int': [(0., 0.), (4., 0.), (4., 3.), (0., 3.), (1., 1.), (2., 1.), (2., 2.)],
    'frac': [(.1, .2), (1 / 3, -1e-9), (2.5, 1 / 7), (.3, 1.7), (.7, .5),
             (1.1, .5), (1.1, .9)],
    'big': [(1e10, -1e10), (1e10 + 4, -1e10), (1e10 + 4, -1e10 + 3),
            (1e10, -1e10 + 3), (1e10 + 1, -1e10 + 1), (1e10 + 2, -1e10 + 1),
            (1e10 + 2, -1e10 + 2)],
    'neg': [(-9., -9.), (-5., -9.), (-5., -6.), (-9., -6.), (-8., -8.),
            (-7., -8.), (-7., -7.)]}


def setup():
    global io, sg
    from crowddynamics import io
    import shapely.geometry as sg


KINDS = ['none', 'point', 'line', 'line5', 'ring', 'poly', 'tri', 'hole',
         'mpoint', 'mpoint1', 'mline', 'mpoly', 'mpoly1', 'coll', 'empty-coll',
         'empty-poly', 'empty-line']
CONTAINERS = ['plain', 'list', 'list1', 'tuple', 'dict', 'listnone']


def geom(kind, co):
    p = COORDS[co]
    if kind == 'none':
        return None
    if kind == 'point':
        return sg.Point(*p[2])
    if kind == 'line':
        return sg.LineString(p[:2])
    if kind == 'line5':
        return sg.LineString(p[:5])
    if kind == 'ring':
        return sg.LinearRing(p[:4])
    if kind == 'poly':
        return sg.Polygon(p[:4])
    if kind == 'tri':
        return sg.Polygon(p[:3])
    if kind == 'hole':
        return sg.Polygon(p[:4], [p[4:7]])
    if kind == 'mpoint':
        return sg.MultiPoint(p[:3])
    if kind == 'mpoint1':
        return sg.MultiPoint(p[:1])
    if kind == 'mline':
        return sg.MultiLineString([p[:2], p[2:5]])
    if kind == 'mpoly':
        return sg.MultiPolygon([sg.Polygon(p[4:7]), sg.Polygon(
            [(x + 100, y) for x, y in p[:4]])])
    if kind == 'mpoly1':
        return sg.MultiPolygon([sg.Polygon(p[:4])])
    if kind == 'coll':
        return sg.GeometryCollection([sg.Point(*p[1]), sg.LineString(p[:2])])
    if kind == 'empty-coll':
        return sg.GeometryCollection()
    if kind == 'empty-poly':
        return sg.Polygon()
    if kind == 'empty-line':
        return sg.LineString()
    raise KeyError(kind)


def wrap(g, container):
    if container == 'plain':
        return g
    if container == 'list':
        return [g, geom('point', 'neg'), g]
    if container == 'list1':
        return [g]
    if container == 'tuple':
        return (geom('poly', 'neg'), g)
    if container == 'dict':
        return {'a': g, 'b c': geom('line', 'neg')}
    if container == 'listnone':
        return [g, geom('mpoly', 'neg')]


def norm(o):
    """Canonical form of a value for comparison."""
    if o is None:
        return None
    if isinstance(o, dict):
        return {k: norm(v) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [norm(v) for v in o]
    if o.is_empty:
        return None
    t = o.geom_type
    if t in ('Point', 'LineString', 'LinearRing'):
        return (t, tuple(map(tuple, o.coords)))
    if t == 'Polygon':
        return (t, tuple(map(tuple, o.exterior.coords)),
                tuple(tuple(map(tuple, r.coords)) for r in o.interiors))
    return (t, tuple(norm(g) for g in o.geoms))


def cases(tier):
    deep = tier == 'thorough'
    out = [{'kind': 'single', 'geom': k, 'coords': c}
           for k in KINDS for c in COORDS]
    for k in KINDS:
        for c in ('plain', 'list', 'dict'):
            out.append({'kind': 'pairs', 'geom': k, 'cont': c,
                        'n': 3 if deep else 2})
    for first in range(9):
        out.append({'kind': 'saves', 'first': first, 'n': 4 if deep else 3})
    return out


def roundtrip(rec, path, geoms, tag):
    io.save_geometry_json(path, geoms)
    return read(rec, path, geoms, tag)


def read(rec, path, geoms, tag):
    with open(str(path)) as fp:
        json.load(fp)        # one well-formed document
    got = io.load_geometry_json(path)
    rec.step()
    if set(got) != set(geoms):
        rec.fail('names', 'saved %r, loaded %r (%s)' % (
            sorted(geoms), sorted(got), tag))
        return False
    for name in geoms:
        a, b = norm(geoms[name]), norm(got[name])
        if a != b:
            rec.fail('geometry', '%r: saved %r, loaded %r (%s)' % (
                name, a, b, tag))
            return False
    return True


def run_case(case, rec):
    kind = case['kind']
    if kind == 'single':
        for cont in CONTAINERS:
            for form in (str, pathlib.Path):
                g = wrap(geom(case['geom'], case['coords']), cont)
                p = os.path.join(rec.tmpdir(), 'geometry.json')
                if not roundtrip(rec, form(p), {'domain': g}, '%s %s' % (
                        case['geom'], cont)):
                    return
                # loading is repeatable, and saving what was loaded is stable
                again = io.load_geometry_json(form(p))
                q = os.path.join(rec.tmpdir(), 'again.json')
                if not roundtrip(rec, form(q), again, 'second round'):
                    return
                rec.state((case['geom'], case['coords'], cont))
                rec.trace()
        rec.sample({'geometry': repr(norm(geom(case['geom'], case['coords'])))})
    elif kind == 'pairs':
        items = [(k, c) for k in KINDS for c in ('plain', 'list', 'dict')]
        for others in itertools.product(items, repeat=case['n'] - 1):
            if case['n'] > 2 and (others[0][1] != 'plain' or
                                  others[1][1] == 'dict'):
                continue
            entries = [(case['geom'], case['cont'])] + list(others)
            geoms = {}
            for n, (k, c) in enumerate(entries):
                geoms[('domain', 'obstacles', 'targets')[n]] = \
                    wrap(geom(k, ('int', 'frac', 'neg')[n]), c)
            p = os.path.join(rec.tmpdir(), 'g.json')
            if not roundtrip(rec, p, geoms, repr(entries)):
                return
            rec.state(tuple(entries))
            rec.trace()
    elif kind == 'saves':
        contents = [{}, {'a': geom('poly', 'int')},
                    {'a': geom('mpoly', 'frac'), 'b': None},
                    {'b': [geom('point', 'neg')] * 5},
                    {'c': {'x': geom('line', 'int')}},
                    {'type': {'type': geom('point', 'int'), 'coordinates':
                              None}, 'geometries': [geom('line', 'neg')]},
                    {'domain': geom('hole', 'big'), 'obstacles': None,
                     'targets': [geom('ring', 'int')], 'spawns': []}]
        # contents which cannot be saved: the file stays what it was
        good = len(contents)
        bad = {'a': geom('poly', 'neg'), 'b': object()}
        contents.append(bad)
        contents.append({'a': [geom('line', 'int'), {1, 2}, bad],
                         'z': geom('poly', 'int')})
        for rest in itertools.product(range(len(contents)),
                                      repeat=case['n'] - 1):
            for where in itertools.product((0, 1), repeat=case['n']):
                d = rec.tmpdir()
                model, files = {}, {}
                for c, w in zip((case['first'],) + rest, where):
                    p = os.path.join(d, 'g%d.json' % w)
                    try:
                        io.save_geometry_json(p, contents[c])
                        model[w] = c
                    except (TypeError, ValueError):
                        if c < good:
                            raise
                        files[w] = p
                    rec.step()
                rec.state((case['first'], rest, where))
                for w, p in files.items():
                    if w not in model and os.path.exists(p):
                        with open(p) as fp:
                            json.load(fp)
                for w, c in model.items():
                    p = os.path.join(d, 'g%d.json' % w)
                    if not read(rec, p, contents[c], 'saves %r to files %r' % (
                            (case['first'],) + rest, where)):
                        return
                rec.trace()
