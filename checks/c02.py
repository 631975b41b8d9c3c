"""C02: agents are placed without overlapping each other or an obstacle.

Explored: every sequence of proposed positions up to the depth over a
position alphabet x sizes x cell sizes x obstacles x groups, on the real
Agents class.  Oracle: exact rational geometry decides for each proposal
whether it must be taken; the array must hold exactly the taken ones."""
import itertools
import math
from fractions import Fraction

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all sequences of 3 proposals over 6 positions (2 over 12); circular '
             'agents with 7 radius patterns x 5 cell sizes; three-circle '
             'agents with 4 orientation patterns; 3 obstacle sets; pairs of '
             'groups; 27 orders of sizes x 8 directions x 5 distances of the third '
             'agent; every agent of a dense crowd of 36 hit by the next; '
             'groups that do not fit; every number of refusals around the limit; a '
             'crowd of 200 hit everywhere; rings of 24 neighbours; sizes of 1 to 3 '
             'whole blocks touching across borders; bodies wider '
             'than their radius; groups added after earlier agents moved (8 x 6 '
             'places) or the cell size changed; positions that end after 0 to 3 '
             'proposals in 4 ways; 8 x 8 '
             'orientations x 24 directions x 4 distances of two agents, 5 '
             'of a wall',
    'thorough': 'all sequences of 4 proposals over 8 positions'}
ASSUMPTIONS = ['touching agents may be judged either way when rounding decides '
               '(never on the exact grid used for circles)']


def setup():
    global np, A, exc, otype
    import numpy as np
    from crowddynamics.simulation import agents as A
    from crowddynamics import exceptions as exc
    from crowddynamics.core.structures import obstacle_type_linear as otype


POS = [(0., 0.), (.5, 0.), (0., .75), (-.25, -.25), (1., 0.), (.5, 1.25),
       (-1.5, .5), (2.25, -.75), (.375, .5), (3.5, 3.5), (-.625, 1.), (.25, 0.)]
RADII = {'small': [.25], 'big': [.5], 'mix': [.25, .5, .125], 'huge': [.25, 2.],
         'huge1': [2., .25], 'tiny': [.0625], 'grow': [.125, .25, .5, 1.]}
OBST = {'none': None, 'empty': [], 'wall': [((-2., .25), (3., .25))],
        'two': [((1.25, -3.), (1.25, 3.)), ((-3., -1.), (3., -1.))],
        'short': [((.75, .5), (1., .75))], 'bent': [((0., 1.), (1., 2.)),
                                                    ((1., 2.), (2., 1.))]}
ORI = {'zero': [0.0], 'turn': [math.pi / 2, 0.0], 'diag': [math.pi / 4],
       'mix': [0.3, -2.0, math.pi]}


def cases(tier):
    deep = tier == 'thorough'
    out = []
    n = 4 if deep else 3
    for rad in RADII:
        for cell in (.6, .3, .25, 1., 2.5):
            for ob in ('none', 'wall'):
                if ob != 'none' and cell != .6:
                    continue
                out.append({'kind': 'circ', 'radii': rad, 'cell': cell,
                            'obst': ob, 'n': n, 'npos': 6 if not deep else 8})
    for rad in ('mix', 'tiny'):
        for ob in ('empty', 'two', 'short', 'bent'):
            out.append({'kind': 'circ', 'radii': rad, 'cell': .6, 'obst': ob,
                        'n': 2, 'npos': len(POS)})
    for ori in ORI:
        for cell in (.6, .2):
            for ob in ('none', 'wall', 'two'):
                out.append({'kind': 'three', 'ori': ori, 'cell': cell,
                            'obst': ob, 'n': 2 if not deep else 3,
                            'npos': 9 if not deep else 7})
    for typ in ('circ', 'three'):
        for s1, s2 in itertools.product((1, 2, 3), repeat=2):
            out.append({'kind': 'groups', 'type': typ, 'sizes': [s1, s2],
                        'npos': 5 if deep else 3})
        out.append({'kind': 'full', 'type': typ})
        out.append({'kind': 'ring', 'type': typ})
        for cell in (.6, .25, 1.):
            out.append({'kind': 'many', 'type': typ, 'cell': cell,
                        'n': 400 if deep else 200})
        for size in (2, 12, 30):
            out.append({'kind': 'attempts', 'type': typ, 'size': size})
        out.append({'kind': 'callable', 'type': typ})
    for typ in ('circ', 'three'):
        for cell in (.6, .25, 1.5):
            out.append({'kind': 'third', 'type': typ, 'cell': cell})
            out.append({'kind': 'dense', 'type': typ, 'cell': cell})
    for k in range(8):
        out.append({'kind': 'parts', 'ori': k, 'n': 16 if deep else 8})
    for cell in (.5, .6, .25):
        for m in (1, 2, 3):
            out.append({'kind': 'blocks', 'cell': cell, 'm': m})
        out.append({'kind': 'wide', 'cell': cell})
    for typ in ('circ', 'three'):
        for cell in (.6, .25, 2.5):
            for k in range(len(MOVES)):
                out.append({'kind': 'moved', 'type': typ, 'cell': cell,
                            'first': k, 'n': len(MOVES) if deep else 6})
        for k in range(4):
            out.append({'kind': 'ends', 'type': typ, 'how': k})
    out.append({'kind': 'mismatch'})
    return out


# where agents may have gone between one group and the next
MOVES = [(0., 0.), (.5, 0.), (0., .75), (9., -9.), (-.25, -.25), (1., 0.),
         (-31.5, .5), (2.25, -.75)]


def seg_d2(p, a, b):
    """Exact squared distance of a point to a segment."""
    px, py, ax, ay, bx, by = map(Fraction, (*p, *a, *b))
    dx, dy = bx - ax, by - ay
    t = ((px - ax) * dx + (py - ay) * dy) / (dx * dx + dy * dy)
    t = min(max(t, 0), 1)
    ex, ey = ax + t * dx - px, ay + t * dy - py
    return ex * ex + ey * ey


def discs(member):
    """Circles of an agent at its position: ((x, y), r)."""
    x, y = (float(v) for v in member.position)
    if isinstance(member, A.ThreeCircle):
        f = member.orientation
        tx, ty = math.sin(f) * member.r_ts, -math.cos(f) * member.r_ts
        return [((x, y), member.r_t), ((x - tx, y - ty), member.r_s),
                ((x + tx, y + ty), member.r_s)]
    return [((x, y), member.radius)]


def gap(c, o):
    """Sign of the exact gap between two discs, 0 when touching."""
    (p, r), (q, s) = c, o
    d2 = (Fraction(p[0]) - Fraction(q[0])) ** 2 + \
        (Fraction(p[1]) - Fraction(q[1])) ** 2
    rr = (Fraction(r) + Fraction(s)) ** 2
    return float(d2 - rr)


def wall_gap(c, w):
    (p, r) = c
    return float(seg_d2(p, *w) - Fraction(r) ** 2)


def verdict(new, placed, walls, exact):
    """True: must be taken, False: must be refused, None: rounding decides."""
    m = min([gap(c, o) for c in new for p in placed for o in p] +
            [wall_gap(c, w) for c in new for w in walls] + [1.])
    if not exact and abs(m) < 1e-9:
        return None
    return m >= 0


class Proposals:
    def __init__(self, pos, as_callable=False):
        self.pos, self.k = pos, 0

    def __call__(self):
        p = self.pos[self.k]
        self.k += 1
        return p

    def gen(self):
        while True:
            yield self()


class Exhausted(Exception):
    pass


def follow(rec, agents, group, pos, walls, placed, exact, tag, form='gen'):
    """Adds the group for real and checks what happened to every proposal.
    ``placed`` (list of (discs, row)) is extended."""
    before = len(agents.array)
    old = agents.array.copy()
    seen = []

    def propose():
        if len(seen) >= len(pos) + 400 + 11 * group.size:
            raise Exhausted
        p = pos[len(seen)] if len(seen) < len(pos) else far(len(seen))
        seen.append(p)
        return p
    far = (lambda k: pos[-1]) if tag == 'full' else \
        (lambda k: (100. + 10. * k, 50.))

    def generate():
        while True:
            yield propose()
    ob = None if walls is None else np.array(walls, dtype=otype)
    agents.add_non_overlapping_group(
        group, propose if form == 'call' else generate(), obstacles=ob)
    rec.step(len(seen))
    walls = walls or []
    arr = agents.array
    # replay the proposals on the model, guided only where rounding decides
    k = 0
    rejected = 0
    row = before
    for p in seen:
        if k >= len(group.members):
            rec.fail('proposals', 'positions were drawn after the last agent '
                     'was placed (%s)' % tag)
            return False
        m = group.members[k]
        saved = m.position
        here = at(m, p)
        v = verdict(here, [d for d, _ in placed], walls, exact)
        taken = row < len(arr) and tuple(arr['position'][row]) == tuple(p) and \
            v is not False
        if v is None:
            v = taken
        if v:
            if not taken:
                rec.fail('refused', 'position %r is free for agent %d, but it '
                         'was not placed there (%s)' % (p, k, tag))
                return False
            if np.array(m).tobytes() != arr[row:row + 1].tobytes():
                rec.fail('attributes', 'agent %d in the array differs from '
                         'its member (%s)' % (k, tag))
                return False
            placed.append((here, row))
            row += 1
            k += 1
        else:
            rejected += 1
    if row != len(arr):
        # says which: an overlapping agent or a ghost
        extra = arr[row:]
        rec.fail('overlap', 'the array holds %d agents, %d proposals were '
                 'free; extra rows at %r radius %r (%s)' % (
                     len(arr), row, extra['position'].tolist()[:3],
                     extra['radius'].tolist()[:3], tag))
        return False
    if k < group.size and rejected < 10 * group.size:
        rec.fail('gave-up', 'gave up after %d refusals (%s)' % (rejected, tag))
        return False
    if k < group.size and rejected > 10 * group.size:
        rec.fail('goes-on', 'went on after %d refusals (%s)' % (rejected, tag))
        return False
    if not (arr[:before] == old).all() if before else False:
        rec.fail('others', 'rows of earlier agents changed (%s)' % tag)
        return False
    if not arr.flags.c_contiguous:
        rec.fail('contiguous', 'array is not contiguous')
        return False
    return True


def at(m, p):
    x, y = p
    if isinstance(m, A.ThreeCircle):
        f = m.orientation
        tx, ty = math.sin(f) * m.r_ts, -math.cos(f) * m.r_ts
        return [((x, y), m.r_t), ((x - tx, y - ty), m.r_s),
                ((x + tx, y + ty), m.r_s)]
    return [((x, y), m.radius)]


def stands(row, typ):
    """Circles of a row of the array, where its position and orientation say
    they are."""
    x, y = (float(v) for v in row['position'])
    if typ == 'three':
        f, d = float(row['orientation']), float(row['r_ts'])
        tx, ty = math.sin(f) * d, -math.cos(f) * d
        return [((x, y), float(row['r_t'])),
                ((x - tx, y - ty), float(row['r_s'])),
                ((x + tx, y + ty), float(row['r_s']))]
    return [((x, y), float(row['radius']))]


def attributes(typ, k, radii=None, ori=None, n=0):
    a = {}
    if typ == 'circ':
        a['radius'] = radii[k % len(radii)]
    else:
        a['radius'] = .25
        a['r_t'], a['r_s'], a['r_ts'] = .15, .09375, .15625
        a['orientation'] = ori[k % len(ori)]
    a['target'] = k % 3
    a['mass'] = 60. + k + n
    return a


GROUPS = {}


def group_of(typ, size, radii=None, ori=None, n=0):
    # building the members is slow: one group per pattern (placing only moves
    # them)
    key = (typ, size, tuple(radii or ()), tuple(ori or ()), n)
    if key not in GROUPS:
        GROUPS[key] = _group_of(typ, size, radii, ori, n)
    return GROUPS[key]


def _group_of(typ, size, radii, ori, n):
    return A.AgentGroup(
        agent_type=A.Circular if typ == 'circ' else A.ThreeCircle, size=size,
        attributes=[attributes(typ, k, radii or [.25], ori or [0.], n)
                    for k in range(size)])


def fresh(typ, cell=.6):
    return A.Agents(agent_type=A.Circular if typ == 'circ' else A.ThreeCircle,
                    cell_size=cell)


def run_case(case, rec):
    kind = case['kind']
    if kind in ('circ', 'three'):
        typ = kind
        pos = POS[:case['npos']]
        n = case['n']
        walls = OBST[case['obst']]
        radii = RADII.get(case.get('radii'))
        ori = ORI.get(case.get('ori'))
        for seq in itertools.product(range(len(pos)), repeat=n):
            if n > 3 and (len(set(seq)) < n - 1 or (
                    seq[0] > seq[1] and n > 3 and radii and len(radii) == 1)):
                continue
            agents = fresh(typ, case['cell'])
            g = group_of(typ, n, radii, ori)
            if not follow(rec, agents, g, [pos[k] for k in seq], walls, [],
                          kind == 'circ', 'proposals %r' % ([
                              pos[k] for k in seq],)):
                return
            rec.state((kind, case.get('radii'), case.get('ori'), case['cell'],
                       case['obst'], seq))
            rec.trace()
        rec.sample({'proposals': [pos[k] for k in seq]})
    elif kind == 'groups':
        typ = case['type']
        pos = POS[:case['npos']]
        s1, s2 = case['sizes']
        for seq in itertools.product(range(len(pos)), repeat=2):
            for seq2 in itertools.product(range(len(pos)), repeat=2):
                agents = fresh(typ)
                placed = []
                for n, (s, q) in enumerate(((s1, seq), (s2, seq2))):
                    g = group_of(typ, s, [.25, .375], [0., 1.], n=10 * n)
                    if not follow(rec, agents, g, [pos[k] for k in q],
                                  OBST['short'], placed, typ == 'circ',
                                  'group %d, proposals %r' % (n, q),
                                  'call' if n else 'gen'):
                        return
                rec.state((typ, s1, s2, seq, seq2))
                rec.trace()
    elif kind == 'third':
        # sizes in every order, the last one next to the first
        typ = case['type']
        for sizes in itertools.product((.125, .25, 1.), repeat=3):
            scale = 1.
            for k in range(8):
                w = k * math.pi / 4
                for f in (.5, .9, .99, 1.01, 1.2):
                    agents = fresh(typ, case['cell'])
                    reach = f * (sizes[0] + sizes[2])
                    p = (round(reach * math.cos(w) * 1024) / 1024,
                         round(reach * math.sin(w) * 1024) / 1024)
                    pos = [(0., 0.), (20., -.5), p]
                    if typ == 'circ':
                        g = group_of(typ, 3, sizes)
                    else:
                        key = ('sizes', sizes)
                        if key not in GROUPS:
                            GROUPS[key] = A.AgentGroup(
                                agent_type=A.ThreeCircle, size=3, attributes=[
                                    {'radius': r, 'r_t': .625 * r,
                                     'r_s': .375 * r, 'r_ts': .625 * r,
                                     'orientation': .25 * k}
                                    for k, r in enumerate(sizes)])
                        g = GROUPS[key]
                    if not follow(rec, agents, g, pos, None, [],
                                  typ == 'circ', 'sizes %r' % (sizes,)):
                        return
                    rec.state((typ, case['cell'], sizes, k, f))
                    rec.trace()
    elif kind == 'blocks':
        # sizes of about a whole number of blocks, touching across borders
        c, m = case['cell'], case['m']
        for more in (-2e-3, -1e-6, 0., 1e-6, 2e-5, 9e-4, .03):
            reach = m * c + more
            for part in (.5, .2, .9):
                for edge in (1e-7, 5e-4, c - 1e-7, c / 2):
                    for gap_ in (-1e-6, 1e-6, -4e-4):
                        for a, b in ((1, 0), (-1, 0), (0, 1), (0, -1),
                                     (.8, .6), (-.6, .8)):
                            agents = fresh('circ', c)
                            g = group_of('circ', 2, (reach * part,
                                                     reach * (1 - part)))
                            x = (3 * c + edge, -2 * c + edge)
                            f = reach + gap_
                            if not follow(
                                    rec, agents, g, [x, (x[0] + f * a,
                                                         x[1] + f * b)],
                                    None, [], False, 'blocks %r' % (
                                        (c, m, more, part, edge, gap_),)):
                                return
                            rec.state((c, m, more, part, edge, gap_, a, b))
                            rec.trace()
    elif kind == 'wide':
        # bodies which reach further than their radius
        for R, fat in ((.5, .2), (1., .1), (2., .3), (0., 1.5)):
            for order in (0, 1):
                key = ('wide', R, fat, order)
                if key not in GROUPS:
                    bodies = [dict(radius=.1, r_t=.1 if R else fat,
                                   r_s=fat if R else .1, r_ts=R),
                              dict(radius=.1, r_t=.1, r_s=.05, r_ts=.05)]
                    GROUPS[key] = A.AgentGroup(
                        agent_type=A.ThreeCircle, size=2,
                        attributes=bodies[::-1] if order else bodies)
                g = GROUPS[key]
                for k in range(8):
                    w = k * math.pi / 4 + .1
                    for f in (.2, .5, .8, .95, 1.05, 1.3):
                        for x, y in ((0., 0.), (.24, -.01), (-.3, .59)):
                            # along the shoulders
                            g.members[order].orientation = (
                                w + math.pi / 2 + math.pi) % (
                                2 * math.pi) - math.pi
                            reach = f * (R + fat + .1)
                            agents = fresh('three', case['cell'])
                            if not follow(
                                    rec, agents, g, [(x, y), (
                                        x + reach * math.cos(w),
                                        y + reach * math.sin(w))], None, [],
                                    False, 'wide %r' % ((R, fat, k, f),)):
                                return
                            rec.state((R, fat, order, k, f, x, case['cell']))
                            rec.trace()
    elif kind == 'dense':
        # many agents in the reach of the last one, which overlaps any of them
        typ = case['type']
        n = 6
        r = .0625
        grid = [(.25 * i - .625, .25 * j - .625)
                for i in range(n) for j in range(n)]
        key = ('dense', typ)
        if key not in GROUPS:
            GROUPS[key] = A.AgentGroup(
                agent_type=A.Circular if typ == 'circ' else A.ThreeCircle,
                size=n * n + 1, attributes=[
                    dict(radius=r, **({} if typ == 'circ' else dict(
                        r_t=r / 2, r_s=r / 4, r_ts=r * .75)))
                    for _ in range(n * n + 1)])
        for k, (x, y) in enumerate(grid):
            agents = fresh(typ, case['cell'])
            if not follow(rec, agents, GROUPS[key],
                          grid + [(x + .03125, y), (x, y - .015625)], None, [],
                          typ == 'circ', 'dense, at agent %d' % k):
                return
            rec.state((typ, case['cell'], k))
            rec.trace()
    elif kind == 'full':
        # the group does not fit: what fits stays, nothing else appears
        typ = case['type']
        for size in (2, 3, 5):
            for room in range(0, size):
                for again in (0, 1, 2):
                    agents = fresh(typ)
                    placed = []
                    pos = [(2. * k, 0.) for k in range(room)] + [(0., .125)]
                    if room == 0:
                        continue
                    g = group_of(typ, size)
                    if not follow(rec, agents, g, pos, None, placed,
                                  typ == 'circ', 'full'):
                        return
                    if len(agents.array) != room:
                        rec.fail('ghost', '%d agents where %d fit' % (
                            len(agents.array), room))
                        return
                    if again:
                        g = group_of(typ, 2, n=9)
                        if not follow(rec, agents, g, [(0., .125), (9., 9.)]
                                      if again == 1 else [(0., .125)],
                                      None, placed, typ == 'circ',
                                      'again' if again == 1 else 'full'):
                            return
                    if again == 2 and not follow(
                            rec, agents, group_of(typ, 3, n=9),
                            [(40., 9.), (0., .125)], None, placed,
                            typ == 'circ', 'full'):
                        return
                    rec.state((typ, size, room, again))
                    rec.trace()
    elif kind == 'many':
        # a crowd; a second group is proposed on top of each of them, then on
        # each of many walls
        typ, n = case['type'], case['n']
        circ = typ == 'circ'
        side = math.ceil(math.sqrt(n))
        grid = [(.25 * (k % side) - 2., .25 * (k // side) - 1.)
                for k in range(n)]

        def some(size):
            return A.AgentGroup(
                agent_type=A.Circular if circ else A.ThreeCircle, size=size,
                attributes=[dict(radius=.0625, **({} if circ else dict(
                    r_t=.03125, r_s=.015625, r_ts=.046875)))
                    for _ in range(size)])
        walls = [((.25 * (k % 9) - 2., 10. + .5 * (k // 9)),
                  (.25 * (k % 9) - 1.9, 10. + .5 * (k // 9)))
                 for k in range(60)]
        agents = fresh(typ, case['cell'])
        placed = []
        first = some(n)
        if not follow(rec, agents, first, grid, None, placed, circ, 'many'):
            return
        rec.state((typ, case['cell'], 'crowd'))
        second = some(n // 5)
        if not follow(rec, agents, second, [
                (x + .03125, y - .015625) for x, y in grid] + [
                (a[0] + .05, a[1] + .01) for a, _ in walls], walls, placed,
                circ, 'on top of many'):
            return
        rec.state((typ, case['cell'], 'second'))
        rec.trace(2)
    elif kind == 'attempts':
        # refusals up to the last but one attempt, the last and one more
        typ, size = case['type'], case['size']
        for early in (0, 1, size - 1):
            for refused in (10 * size - 1, 10 * size, 10 * size + 1):
                agents = fresh(typ)
                g = group_of(typ, size, n=size)
                pos = [(3. * k, 1.) for k in range(max(early, 1))]
                pos += [(0., 1.)] * refused
                if not follow(rec, agents, g, pos, None, [], typ == 'circ',
                              'attempts %d, %d' % (early, refused)):
                    return
                rec.state((typ, size, early, refused))
                rec.trace()
    elif kind == 'ring':
        # one agent is surrounded at distances just below and at contact
        typ = case['type']
        for cell in (.1, .25, .6, 1.):
            for r0, r1 in ((.25, .25), (.5, .125), (2., .25), (.25, 2.)):
                for k in range(24):
                    a = 2 * math.pi * k / 24
                    for f in (.999, 1.001):
                        agents = fresh(typ, cell)
                        at_ = typ == 'circ'
                        d = (r0 + r1) * f if at_ else .35 * f
                        p = (3.1 + d * math.cos(a), -2.2 + d * math.sin(a))
                        g = group_of(typ, 2, [r0, r1], [0., .4])
                        if not follow(rec, agents, g, [(3.1, -2.2), p], None,
                                      [], False, 'ring %d, %g' % (k, f)):
                            return
                        rec.state((typ, cell, r0, r1, k, f))
                        rec.trace()
    elif kind == 'parts':
        # any part of a turned agent alone reaches a short wall or a part of
        # another turned agent
        n = case['n']
        o = 2 * math.pi * case['ori'] / 8 - math.pi + .1
        for k in range(24):
            a = 2 * math.pi * k / 24 + .05
            c, s = math.cos(a), math.sin(a)
            for d in (.14, .16, .2, .24, .26):
                wall = [((1. + d * c - .01 * s, 2. + d * s + .01 * c),
                         (1. + d * c + .01 * s, 2. + d * s - .01 * c))]
                agents = fresh('three')
                if not follow(rec, agents, group_of('three', 1, None, [o]),
                              [(1., 2.)], wall, [], False,
                              'wall at %d, %g' % (k, d)):
                    return
                rec.state(('wall', o, k, d))
                rec.trace()
            for q in range(n):
                for d in (.25, .32, .4, .48):
                    agents = fresh('three')
                    g = group_of('three', 2, None,
                                 [o, 2 * math.pi * q / n - 3.])
                    if not follow(rec, agents, g, [
                            (1., 2.), (1. + d * c, 2. + d * s)], None, [],
                            False, 'turned %d, %d, %g' % (k, q, d)):
                        return
                    rec.state(('turned', o, q, k, d))
                    rec.trace()
    elif kind == 'callable':
        typ = case['type']
        for seq in itertools.product(range(len(POS)), repeat=2):
            for form in ('gen', 'call'):
                agents = fresh(typ)
                g = group_of(typ, 2)
                if not follow(rec, agents, g, [POS[k] for k in seq], None, [],
                              typ == 'circ', form, form):
                    return
                rec.state((typ, seq, form))
                rec.trace()
    elif kind == 'moved':
        # agents move between the groups; the cell size may change, too
        typ = case['type']
        one, two, three = (group_of(typ, k, [.25, .5], ORI['mix'], n)
                           for k, n in ((2, 0), (2, 10), (1, 20)))
        start = [(0., 0.), (4., 4.)]
        for second in range(case['n']):
            for cell in (None, .35, 3.):
                for rest in itertools.product(
                        MOVES[:4] if cell is None else MOVES[:2], repeat=2):
                    agents = fresh(typ, case['cell'])
                    placed = []
                    if not follow(rec, agents, one, start, None, placed,
                                  False, 'before'):
                        return
                    arr = agents.array
                    arr['position'] = MOVES[case['first']], MOVES[second]
                    if typ == 'three':
                        arr['orientation'] += .8
                        A.shoulders(arr)
                    if cell is not None:
                        agents.cell_size = cell
                    placed[:] = [(stands(arr[k], typ), k)
                                 for k in range(len(arr))]
                    tag = 'moved to %r, cell size %r' % (
                        arr['position'].tolist(), cell)
                    if not follow(rec, agents, two, list(rest), None, placed,
                                  False, tag):
                        return
                    # and once more, the last ones have moved
                    arr = agents.array
                    arr['position'][2:] += 1.5
                    if typ == 'three':
                        A.shoulders(arr)
                    placed[:] = [(stands(arr[k], typ), k)
                                 for k in range(len(arr))]
                    if not follow(rec, agents, three, [
                            rest[0], (rest[1][0] + 1.5, rest[1][1] + 1.5),
                            MOVES[second]], None, placed, False, tag):
                        return
                    rec.state((typ, case['cell'], case['first'], second, cell,
                               rest))
                    rec.trace()
    elif kind == 'ends':
        # the positions come to an end (or are none) before the group is placed
        typ = case['type']

        def none():
            raise LookupError

        for n in range(4):
            for seq in itertools.product(range(6), repeat=n):
                agents = fresh(typ)
                placed = []
                for first in (0, 1):
                    if first and not follow(rec, agents, group_of(
                            typ, 1, [.25, .5], ORI['mix'], 5), [POS[0]], None,
                            placed, typ == 'circ', 'one'):
                        return
                    g = group_of(typ, 3, [.25, .5], ORI['mix'])
                    pos = iter([POS[k] for k in seq])
                    give = (pos, lambda: next(pos, (1., 'x')),
                            lambda: next(pos, None) or none(),
                            lambda: next(pos, (1., 2., 3.)))[case['how']]
                    before = len(agents.array)
                    row, k = before, 0
                    for p in seq:
                        here = at(g.members[k], POS[p])
                        if verdict(here, [d for d, _ in placed], [],
                                   typ == 'circ'):
                            placed.append((here, row))
                            row, k = row + 1, k + 1
                        if k == 3:
                            break
                    try:
                        agents.add_non_overlapping_group(g, give)
                        ended = k == 3
                    except (StopIteration, A.TraitError, LookupError,
                            TypeError, ValueError):
                        ended = k < 3
                    rec.step()
                    d = dict(seq=[POS[q] for q in seq], how=case['how'])
                    rec.check(ended, 'end', 'the end of the positions is not '
                              'told', **d)
                    if not rec.check(
                            len(agents.array) == row and
                            all(tuple(agents.array['position'][q]) ==
                                h[0][0] for h, q in placed), 'ghost',
                            'the array does not hold the agents placed before '
                            'the positions ended', got=agents.array[
                                'position'].tolist(), want=row, **d):
                        return
                    if first:
                        rec.state((typ, seq, case['how']))
                        rec.trace()
    elif kind == 'mismatch':
        for a, b in (('circ', 'three'), ('three', 'circ')):
            agents = fresh(a)
            follow(rec, agents, group_of(a, 2), [(0., 0.), (5., 5.)], None, [],
                   False, 'first')
            old = agents.array.copy()
            try:
                agents.add_non_overlapping_group(group_of(b, 1),
                                                 lambda: (9., 9.))
                rec.fail('mismatch', 'agents of another type were accepted')
            except exc.CrowdDynamicsException:
                pass
            rec.check(len(agents.array) == 2 and (agents.array == old).all(),
                      'mismatch', 'array changed')
            rec.state((a, b))
            rec.trace()
