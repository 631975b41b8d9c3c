"""C38: drawings show the field as it is.

Explored: every combination of domains, obstacles, targets and spawns of an
alphabet drawn by both functions, every collection of shapes up to a depth,
every ratio of sides and extent of data, every way of leaving a figure, every
logic tree up to a size drawn from every node.  Oracle: the coordinates of the
shapes, interpreted from the strokes recorded by a stand-in of the drawing
package."""
import itertools
import math
import os
import re

from mc.num import close, vclose

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'fields: 3 domains x 5 obstacles x 4 sets of targets x 3 of '
             'spawns x 2 functions; all collections of up to 2 of 8 shapes, 2 '
             'levels; extents: 5 x 5 values x 4 sizes x 3 ratios x 3 margins; '
             'maps: 4 fields x 3 steps x 4 strides; figures: 2 x 2 x 6 names '
             'x 3 ways out; all trees of up to 4 nodes from every node',
    'thorough': 'collections of up to 3 shapes, trees of up to 5 nodes'}
ASSUMPTIONS = ['bokeh, shapely and scikit-fmm are stand-ins',
               'areas are drawn by their shells (the drawing package has no '
               'areas with holes)']
CASE_TIMEOUT = 600


def setup():
    global np, V, geo, Field, L, sim, bio, Figure
    import numpy as np
    import bokeh.io as bio
    import shapely.geometry as geo
    from bokeh.plotting import Figure
    from crowddynamics import visualizations as V
    from crowddynamics.simulation import logic as L
    from crowddynamics.simulation.field import Field
    from mc import sim


def cases(tier):
    t = tier == 'thorough'
    out = [{'kind': 'field', 'd': d, 'o': o} for d in range(3)
           for o in range(5)]
    out += [{'kind': 'shapes', 'first': k, 'n': 3 if t else 2}
            for k in range(8)]
    out += [{'kind': 'extent', 'size': s} for s in range(4)]
    out += [{'kind': 'maps', 'd': d} for d in range(3)]
    out += [{'kind': 'figure'}]
    out += [{'kind': 'trees', 'n': n} for n in range(1, 6 if t else 5)]
    return out


def run_case(case, rec):
    del bio.LOG[:]
    cwd = os.getcwd()
    os.chdir(rec.tmpdir())
    try:
        globals()['run_' + case['kind']](case, rec)
    finally:
        os.chdir(cwd)


# Shapes as plain data: what they look like -------------------------------

SQ = [(0., 0.), (4., 0.), (4., 3.), (0., 3.)]
OFF = [(-1., 2.), (4., 2.), (4., 5.5), (-1., 5.5)]
FAR = [(10., -7.), (15., -7.), (13., -4.), (10., -4.)]
HOLE = [(1., 1.), (2., 1.), (1., 2.)]


def outlines(g):
    """Strokes which show the geometry: (kind, coordinates)."""
    if g is None or g.is_empty:
        return []
    kind = g.geom_type
    if kind == 'Point':
        return [('point', ((g.x, g.y),))]
    if kind in ('LineString', 'LinearRing'):
        return [('line', tuple(map(tuple, g.coords)))]
    if kind == 'Polygon':
        return [('area', tuple(map(tuple, g.exterior.coords)))]
    return sum(map(outlines, g), [])


def canon(kind, pts):
    pts = [tuple(float(c) for c in p) for p in pts]
    if kind == 'area':
        if pts[0] == pts[-1]:
            pts = pts[:-1]
        turns = [pts[k:] + pts[:k] for k in range(len(pts))]
        pts = min(turns + [t[:1] + t[:0:-1] for t in turns])
    if kind == 'line':
        pts = min(pts, pts[::-1])
    return kind, tuple(pts)


def strokes(fig):
    """What was drawn on the figure, one stroke at a time."""
    out = []
    for name, v, kw in fig.drawn:
        if name in ('circle', 'scatter'):
            xs, ys = np.atleast_1d(v['x']), np.atleast_1d(v['y'])
            out += [(canon('point', [p]), kw) for p in zip(xs, ys)]
        elif name in ('line', 'patch'):
            out.append((canon({'line': 'line', 'patch': 'area'}[name],
                              list(zip(v['x'], v['y']))), kw))
        elif name in ('multi_line', 'patches'):
            out += [(canon({'multi_line': 'line', 'patches': 'area'}[name],
                           list(zip(x, y))), kw)
                    for x, y in zip(v['xs'], v['ys'])]
    return out


def shown(geoms):
    return sorted(canon(*s) for g in geoms for s in outlines(g))


def fields():
    P, LS = geo.Polygon, geo.LineString
    domains = [P(SQ), P(OFF), P(FAR)]
    obstacles = [[None, LS([(d[0], d[1] + 1), (d[0] + 2, d[1] + 1)]),
                  geo.MultiLineString([[(d[0] + 1, d[1] + .5),
                                        (d[0] + 1, d[1] + 2)],
                                       [(d[0] + 2, d[1] + 1),
                                        (d[0] + 2.5, d[1] + 2.5),
                                        (d[0] + 3, d[1] + 2)]]),
                  P([(d[0] + 1, d[1] + 1), (d[0] + 2, d[1] + 1),
                     (d[0] + 1.5, d[1] + 2)]),
                  P([(d[0] + 1.2, d[1] + .8), (d[0] + 2.4, d[1] + .8),
                     (d[0] + 2.4, d[1] + 1.8), (d[0] + 1.2, d[1] + 1.8)],
                    [[(d[0] + 1.5, d[1] + 1), (d[0] + 2, d[1] + 1),
                      (d[0] + 1.5, d[1] + 1.5)]])]
                 for k, d in enumerate([(0., 0.), (-1., 2.), (10., -7.)])]
    targets, spawns = [], []
    for d in [(0., 0.), (-1., 2.), (10., -7.)]:
        a = LS([(d[0] + 3, d[1]), (d[0] + 4, d[1])])
        b = P([(d[0], d[1] + 2.5), (d[0] + 1, d[1] + 2.5),
               (d[0] + 1, d[1] + 3), (d[0], d[1] + 3)])
        targets.append([[a], [b, a], [a, b, LS([(d[0], d[1]),
                                                (d[0] + .5, d[1])])], []])
        s = P([(d[0] + 2, d[1] + 2), (d[0] + 3, d[1] + 2),
               (d[0] + 3, d[1] + 3)])
        spawns.append([[], [s], [b, s]])
    return domains, obstacles, targets, spawns


def extent(fig):
    return (fig.x_range.start, fig.x_range.end, fig.y_range.start,
            fig.y_range.end)


def run_field(case, rec):
    domains, obstacles, targets, spawns = fields()
    d, o = case['d'], case['o']
    for t, s in itertools.product(range(4), range(3)):
        f = Field()
        f.domain, f.obstacles = domains[d], obstacles[d][o]
        f.targets, f.spawns = list(targets[d][t]), list(spawns[d][s])
        geoms = [f.domain, f.obstacles] + f.targets + f.spawns
        say = dict(domain=d, obstacles=o, targets=t, spawns=s)
        fig = Figure()
        V.add_field(fig, f)
        rec.step()
        rec.state(('field', d, o, t, s))
        got = sorted(x for x, _ in strokes(fig))
        rec.check(got == shown(geoms), 'field', 'shapes of the field drawn',
                  got=got, want=shown(geoms), **say)
        rec.trace()
        if s == 0:
            # nor needs there be a domain
            g = Field()
            g.obstacles, g.targets = f.obstacles, list(f.targets)
            fig = Figure()
            V.add_field(fig, g)
            got = sorted(x for x, _ in strokes(fig))
            rec.check(got == shown(geoms[1:]), 'no-domain', 'shapes of a '
                      'field without domain', got=got, **say)
        # the whole page, also without domain (around the rest)
        for size, domain in (((600, 600), True), ((800, 300), True),
                             ((800, 300), False)):
            if not domain:
                geoms = geoms[1:]
                if not shown(geoms):
                    continue
                f.domain = None
            say['no_domain'] = not domain
            del bio.LOG[:]
            V.plot_field(f, step=.7, radius=.3, strength=.3,
                         plot_width=size[0], plot_height=size[1])
            rec.step()
            log = list(bio.LOG)
            pages = [e for e in log if e[0] == 'show']
            rec.check(len(pages) == 1, 'shown', 'the page is shown once',
                      got=len(pages), **say)
            rec.check([e for e in log if e[0] == 'output_file'] ==
                      [('output_file', f.name + '.html', f.name)], 'file',
                      'name of the page', **say)
            if len(pages) != 1:
                continue
            fig = pages[0][1]
            got = sorted(x for x, _ in strokes(fig) if x[0] != 'point')
            rec.check(got == shown(geoms), 'page', 'shapes of the field on '
                      'the page', got=got, want=shown(geoms), **say)
            check_extent(rec, fig, f.domain.bounds if domain else around(
                geoms), size, 1., .1, say)
            # each spawn and target has a name of its own in the legend
            for kind, gs in (('spawn', f.spawns), ('target', f.targets)):
                for k, g in enumerate(gs):
                    want = [canon(*x) for x in outlines(g)]
                    mine = [x for x, kw in strokes(fig) if kw.get(
                        'legend') == '%s_%d' % (kind, k)]
                    rec.check(mine == want, 'legend', 'what is named %s_%d'
                              % (kind, k), got=mine, want=want, **say)
            mine = [x for x, kw in strokes(fig) if kw.get('legend') == 'domain']
            rec.check(mine == ([canon(*x) for x in outlines(f.domain)]
                               if domain else []), 'legend',
                      'what is named domain', got=mine, **say)
            if not (domain and f.targets):
                rec.check(not [1 for n, _, _ in fig.drawn if n in (
                    'image', 'segment', 'triangle')], 'nomap', 'a map of a '
                    'field without domain or targets', **say)
                rec.trace()
                continue
            grid, dmap, dirs = f.navigation_to_target('closest', .7, .3, .3)
            check_maps(rec, fig, grid, np.ma.filled(dmap, 1.), dirs, 2, say)
            rec.trace()


def around(geoms):
    """Bounds of these geometries."""
    bounds = [g.bounds for g in geoms if g is not None]
    return tuple(f(b[k] for b in bounds) for k, f in enumerate(
        (min, min, max, max)))


def check_extent(rec, fig, bounds, size, aspect, margin, say):
    x0, x1, y0, y1 = extent(fig)
    minx, miny, maxx, maxy = bounds
    w, h = maxx - minx, maxy - miny
    eps = 1e-9 * (1 + abs(minx) + abs(maxx) + abs(miny) + abs(maxy))
    ok = rec.check(x1 > x0 and y1 > y0, 'range', 'ranges are empty',
                   got=extent(fig), **say)
    ok &= rec.check(close((x0 + x1) / 2, (minx + maxx) / 2, 1e-9, eps) and
                    close((y0 + y1) / 2, (miny + maxy) / 2, 1e-9, eps),
                    'centre', 'the data is not in the middle',
                    got=extent(fig), want=bounds, **say)
    r = aspect * size[0] / size[1]
    ok &= rec.check(close((x1 - x0), r * (y1 - y0), 1e-9, 0), 'aspect',
                    'ratio of the sides', got=(x1 - x0) / (y1 - y0), want=r,
                    **say)
    ok &= rec.check(x1 - x0 >= w * (1 + 2 * margin) - eps and
                    y1 - y0 >= h * (1 + 2 * margin) - eps, 'margin',
                    'data and margin do not fit', got=extent(fig),
                    want=bounds, **say)
    # as large as possible
    need = [w * (1 + 2 * margin) if w > 0 else 1.,
            h * (1 + 2 * margin) if h > 0 else 1.]
    ok &= rec.check(close(x1 - x0, need[0], 1e-9, eps) or
                    close(y1 - y0, need[1], 1e-9, eps), 'tight',
                    'neither side is filled', got=extent(fig), **say)
    return ok


def check_maps(rec, fig, grid, dmap, dirs, freq, say):
    images = [v for n, v, _ in fig.drawn if n == 'image']
    minx, miny, maxx, maxy = grid.bounds
    if rec.check(len(images) == 1, 'image', 'the map is drawn once',
                 got=len(images), **say):
        v = images[0]
        img = np.asarray(v['image'][0])
        rec.check(len(v['image']) == 1 and img.shape == np.shape(dmap) and
                  vclose(img.ravel(), np.ravel(dmap), 1e-12, 1e-12), 'values',
                  'values of the map', **say)
        # the image lies over the domain
        step = grid.step + 1e-9
        rec.check(abs(v['x'] - minx) < step and abs(v['y'] - miny) < step and
                  abs(v['x'] + v['dw'] - maxx) < 1.01 * step and
                  abs(v['y'] + v['dh'] - maxy) < 1.01 * step, 'place',
                  'the map is not drawn over the domain',
                  got=(v['x'], v['y'], v['dw'], v['dh']), want=grid.bounds,
                  **say)
    segs = [v for n, v, _ in fig.drawn if n == 'segment']
    tips = [v for n, v, _ in fig.drawn if n == 'triangle']
    angles = [kw for n, _, kw in fig.drawn if n == 'triangle']
    if not rec.check(len(segs) == 1 and len(tips) == 1, 'arrows', 'the '
                     'directions are drawn once', got=len(segs), **say):
        return
    X, Y = grid.values
    U, W = dirs
    want = []
    for i in range(0, X.shape[0], freq):
        for j in range(0, X.shape[1], freq):
            u, w = U[i, j], W[i, j]
            if u is np.ma.masked or w is np.ma.masked or \
                    math.isnan(u) or math.isnan(w):
                want.append(None)
            else:
                want.append((float(X[i, j]), float(Y[i, j]), float(u),
                             float(w)))
    v = segs[0]
    cols = [np.ma.asarray(v[n]).ravel() for n in ('x0', 'y0', 'x1', 'y1')]
    tx, ty = (np.ma.asarray(tips[0][n]).ravel() for n in ('x', 'y'))
    ang = np.ma.asarray(angles[0].get('angle', 0.)).ravel()
    if not rec.check(all(len(c) == len(want) for c in cols + [tx, ty, ang]),
                     'arrow-count', 'number of arrows', got=len(cols[0]),
                     want=len(want), **say):
        return
    for k, w in enumerate(want):
        if w is None:
            continue
        x0, y0, x1, y1 = (float(c[k]) for c in cols)
        length = math.hypot(w[2], w[3])
        rec.check(vclose((x0, y0), w[:2], 1e-9, 1e-9), 'arrow-start',
                  'an arrow does not start at its node', got=(x0, y0),
                  want=w[:2], **say)
        dx, dy = x1 - x0, y1 - y0
        n = math.hypot(dx, dy)
        rec.check(length == 0 or (n > 0 and vclose(
            (dx / n, dy / n), (w[2] / length, w[3] / length), 1e-6, 1e-6)),
            'arrow', 'an arrow points elsewhere', got=(dx, dy), want=w[2:],
            **say)
        rec.check(n <= freq * grid.step * length * (1 + 1e-9) and
                  n >= .5 * freq * grid.step * length, 'arrow-length', 'length of an '
                  'arrow', got=n, **say)
        rec.check(vclose((float(tx[k]), float(ty[k])), (x1, y1), 1e-9, 1e-9),
                  'tip', 'a tip is not at the end of its arrow', **say)
        turn = float(ang[k]) + math.pi / 2 - math.atan2(w[3], w[2])
        rec.check(length == 0 or abs(math.sin(turn)) < 1e-6 and
                  math.cos(turn) > 0, 'tip-angle', 'a tip is turned',
                  got=float(ang[k]), **say)


def run_maps(case, rec):
    domains, obstacles, targets, _ = fields()
    d = case['d']
    for o, t, step, freq in itertools.product(
            (0, 1, 2, 3), (0, 1), (.5, .7, 1.), (1, 2, 3, 5)):
        f = Field()
        f.domain, f.obstacles = domains[d], obstacles[d][o]
        f.targets = list(targets[d][t])
        rec.state(('maps', d, o, t, step, freq))
        grid, dmap, dirs = f.navigation_to_target(0, step, .3, .3)
        fig = Figure()
        V.add_distance_map(fig, grid, np.ma.filled(dmap, 1.))
        V.add_direction_map(fig, grid, dirs, freq=freq)
        rec.step(2)
        check_maps(rec, fig, grid, np.ma.filled(dmap, 1.), dirs, freq,
                   dict(domain=d, obstacles=o, target=t, step=step,
                        freq=freq))
        rec.trace()


def alphabet():
    P, LS = geo.Polygon, geo.LineString
    return [geo.Point(1, 2), LS([(0, 0), (1, 2)]),
            LS([(0, 0), (1, 2), (3, 3), (0, 0)]), geo.LinearRing(HOLE),
            P(SQ), P(SQ, [HOLE]),
            geo.MultiLineString([[(5, 5), (6, 6)], [(7, 7), (8, 9), (9, 9)]]),
            geo.MultiPolygon([P(HOLE), P(FAR)])]


def run_shapes(case, rec):
    shapes = alphabet()
    for n in range(case['n']):
        for sel in itertools.product(range(len(shapes)), repeat=n):
            ks = (case['first'],) + sel
            parts = [shapes[k] for k in ks]
            tries = [parts[0]] if n == 0 else [
                geo.GeometryCollection(parts),
                geo.GeometryCollection([geo.GeometryCollection(parts[:-1]),
                                        parts[-1]])]
            for g in tries:
                fig = Figure()
                kw = dict(color='red', alpha=.5, legend='x')
                V.add_geom(fig, g, **kw)
                rec.step()
                rec.state(('shapes', ks))
                got = strokes(fig)
                rec.check(sorted(x for x, _ in got) == shown(parts),
                          'shapes', 'shapes drawn', got=[x for x, _ in got],
                          want=shown(parts), parts=ks)
                rec.check(all(k == kw for _, k in got), 'style', 'the style '
                          'of a part was lost', got=[k for _, k in got],
                          parts=ks)
                rec.trace()
    for bad in ('text', 5, [(0, 0)]):
        try:
            V.add_geom(Figure(), bad)
            rec.fail('type', 'something else than a geometry is drawn',
                     value=repr(bad))
        except TypeError:
            pass


def run_extent(case, rec):
    size = [(600, 600), (800, 300), (300, 700), (1000, 999)][case['size']]
    data = [(0., 4.), (-7.5, 2.25), (3., 3.), (5., 5.5, -1e3), (1e-3, -2e-3)]
    for x, y in itertools.product(data, repeat=2):
        for aspect in (1, .5, 3.):
            for margin in (.1, 0, 1.):
                fig = Figure(plot_width=size[0], plot_height=size[1])
                V.set_aspect(fig, x, y, aspect, margin)
                rec.step()
                rec.state((size, x, y, aspect, margin))
                check_extent(rec, fig, (min(x), min(y), max(x), max(y)), size,
                             aspect, margin, dict(x=x, y=y, size=size,
                                                  aspect=aspect,
                                                  margin=margin))
                rec.trace()


class Out(Exception):
    pass


def run_figure(case, rec):
    for name, title in (('a', 'a'), ('a.html', 'a'), ('d/b.html', 'b'),
                        ('d.1/c', 'c'), ('x.htm', 'x'), ('a b.c.html',
                                                         'a b.c')):
        for show, save, leave in itertools.product(
                (False, True), (False, True), ('end', 'error', 'break')):
            del bio.LOG[:]
            rec.state((name, show, save, leave))
            rec.step()
            say = dict(name=name, show=show, save=save, leave=leave)
            inside = None
            try:
                for _ in (0,):
                    with V.figure(name, show=show, save=save,
                                  plot_width=123) as fig:
                        inside = list(bio.LOG)
                        fig.line([0, 1], [1, 2])
                        if leave == 'error':
                            raise Out()
                        if leave == 'break':
                            break
                rec.check(leave != 'error', 'swallowed', 'an error was lost',
                          **say)
            except Out:
                rec.check(leave == 'error', 'raised', 'an error', **say)
            want = name if name.endswith('.html') else name + '.html'
            rec.check([e[:2] for e in inside] == [('output_file', want)],
                      'file', 'file of the figure', got=inside, **say)
            rec.check(inside[0][2] == title, 'title', 'title of the figure',
                      got=inside[0][2], want=title, **say)
            rec.check(fig.plot_width == 123, 'options', 'options of the '
                      'figure', **say)
            after = bio.LOG[len(inside):]
            if leave == 'error':
                rec.check(not after, 'half', 'an unfinished figure is shown '
                          'or saved', got=[e[0] for e in after], **say)
            else:
                rec.check(sorted(e[0] for e in after) ==
                          ['save'] * save + ['show'] * show and
                          all(e[1] is fig for e in after), 'after', 'shown '
                          'and saved', got=[e[0] for e in after], **say)
            rec.trace()


def trees(n):
    """All ordered trees of n nodes as lists of parents in preorder."""
    def grow(parents):
        if len(parents) == n:
            yield tuple(parents)
            return
        # the next node hangs below the last one or one of its ancestors
        at = len(parents) - 1
        while at >= 0:
            yield from grow(parents + [at])
            at = parents[at]
    yield from grow([-1])


def run_trees(case, rec):
    kinds = [type(name, (L.LogicNode,), {}) for name in
             ('Alpha', 'Beta', 'Gamma', 'Delta', 'Epsilon')]
    s = sim.simulation(np.zeros(0, dtype=__import__(
        'crowddynamics.simulation.agents', fromlist=['x']).Circular.dtype()))
    for parents in trees(case['n']):
        nodes = []
        for k, p in enumerate(parents):
            nodes.append(kinds[k](s))
            if p >= 0:
                nodes[p].add_children(nodes[k])
        want = sorted((nodes[p].name, nodes[k].name)
                      for k, p in enumerate(parents) if p >= 0)
        for k, node in enumerate(nodes):
            rec.state((parents, k))
            rec.step()
            path = 'tree%d.dot' % k
            V.render_tree(node, path)
            with open(path) as fp:
                text = fp.read()
            edges = sorted(re.findall(r'"(\w+)" -> "(\w+)"', text))
            names = re.findall(r'^\s*"(\w+)";', text, re.M)
            say = dict(parents=parents, node=k)
            rec.check(edges == want, 'edges', 'edges of the tree', got=edges,
                      want=want, **say)
            rec.check(sorted(names) == sorted(x.name for x in nodes), 'nodes',
                      'nodes of the tree', got=names, **say)
            rec.check([x.parent for x in nodes] ==
                      [nodes[p] if p >= 0 else None for p in parents],
                      'kept', 'the tree was changed', **say)
            rec.trace()
            for bad in ('tree.txt', 'tree'):
                try:
                    V.render_tree(node, bad)
                    rec.fail('format', 'an unknown format is accepted',
                             name=bad)
                except Exception:
                    rec.check(not os.path.exists(bad), 'format-file',
                              'a file of unknown format', name=bad)
