"""C18: followers follow the nearest leader they see, remember it when it
disappears, and fall back to the exit they know.

Explored: every history of moves of leaders and followers among an alphabet
of scenes (walls between or not, in range or not, heading towards or away), on
the real update; the state carried on is who follows whom and where to.
Oracle: a small state machine with exact visibility."""
import itertools
import math

from checks.c16 import meet
from checks.c17 import Unclear, check_neighbors, heading, herd, norm
from mc.num import vclose

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'one follower, two leaders: all histories of 2 scenes out of 5 x '
             '3 x 3 positions x 3 headings, 3 sets of walls, 2 ranges, every '
             'remembered leader; two followers; with herding: histories of 2 '
             'out of 54 scenes of 4 agents; both logic nodes; 42 scenes of 5 '
             'to 29 agents x 2 ranges x walls; distances that differ by 2e-8',
    'thorough': 'histories of 3 scenes of the leaders'}
ASSUMPTIONS = ['no agent is both a leader and a follower',
               'equally distant leaders may be tried in any order']
CASE_TIMEOUT = 800


def setup():
    global np, M, A, L, otype, sim
    import numpy as np
    from crowddynamics.core.steering import collective_motion as M
    from crowddynamics.core.structures import obstacle_type_linear as otype
    from crowddynamics.simulation import agents as A
    from crowddynamics.simulation import logic as L
    from mc import sim


FPOS = [(0., 0.), (1.5, 0.), (4., .25), (0., 3.), (-.5, -1.)]
L1 = [(2., .1), (-1., 1.), (9., 0.)]
L2 = [(3., 2.), (.5, -2.), (2.5, .3)]
HEAD = [((1., 0.), (1., .1), (.5, .1)), ((.2, .1), (-1., 0.), (0., 1.)),
        ((-.5, .4), (0., -1.), (-1., -.3))]
WALLS = [[], [((1., -5.), (1., 1.))], [((-5., .6), (5., .6)),
                                       ((2.2, -1.), (2.2, .2))]]
SIGHT = [3.5, 20.0]
W = .40
PHI = .45 * math.pi


def cases(tier):
    t = tier == 'thorough'
    out = []
    for w in range(len(WALLS)):
        for s in range(len(SIGHT)):
            for rem in (-1, 1, 2):
                for fp in range(len(FPOS)):
                    out.append({'kind': 'hist', 'w': w, 's': s, 'rem': rem,
                                'f': fp, 'n': 3 if t else 2})
            out.append({'kind': 'two', 'w': w, 's': s})
        for k in range(9):
            out.append({'kind': 'herd', 'w': w, 'k': k, 'n': 2})
        out.append({'kind': 'nodes', 'w': w})
        out.append({'kind': 'crowd', 'w': w, 'n': 60 if t else 30})
    out.append({'kind': 'crowd', 'w': 0, 'n': 0})
    return out


def walls_array(ws):
    a = np.zeros(len(ws), dtype=otype)
    for k, (p, q) in enumerate(ws):
        a['p0'][k], a['p1'][k] = p, q
    return a


def lead(i, agents, walls, sight):
    """Model of one follower; updates its target and leader, returns the
    direction or None, and whether it has a strategy."""
    me = agents[i]
    leaders = []
    for j, b in enumerate(agents):
        if b['leader']:
            d = math.hypot(me['x'][0] - b['x'][0], me['x'][1] - b['x'][1])
            if abs(d - sight) < 1e-9:
                raise Unclear
            if d < sight:
                leaders.append((d, j))
    leaders.sort()
    for (d, j), (e, k) in zip(leaders, leaders[1:]):
        if e - d < 1e-9:
            raise Unclear
    for d, j in leaders:
        b = agents[j]
        if any(meet(me['x'], b['x'], *w) for w in walls):
            if me['rem'] == j:
                me['target'] = b['target']
                return None, True
        elif heading(me['x'], b['x'], me['v'], b['v'], PHI)[0]:
            me['rem'] = j
            me['target'] = -1
            e = norm([b['x'][k] - me['x'][k] for k in (0, 1)])
            v = norm(b['v'])
            s = [W * e[k] + (1 - W) * v[k] for k in (0, 1)]
            if math.hypot(*s) < 1e-6:
                raise Unclear
            return norm(s), True
    if me['rem'] != -1:
        me['target'] = agents[me['rem']]['target']
        return None, True
    return None, False


def to_array(agents, dtype=None):
    a = np.zeros(len(agents), dtype=dtype or A.agent_type_circular)
    for k, b in enumerate(agents):
        a['position'][k], a['velocity'][k] = b['x'], b['v']
        a['is_leader'][k], a['is_follower'][k] = b['leader'], b['follower']
        a['target'][k], a['index_leader'][k] = b['target'], b['rem']
        a['familiar_exit'][k] = b['exit']
        a['target_direction'][k] = (.6, .8)
        # neither of these matters
        a['active'][k] = (k + b['leader'] + (b['x'][0] > 0)) % 2
        a['target_reached'][k] = (k + (b['x'][1] > 0)) % 2
    return a


def agent(x, v, role, target=-1, rem=-1, exit=-1):
    return {'x': x, 'v': v, 'leader': role == 'L', 'follower': role == 'F',
            'target': target, 'rem': rem, 'exit': exit}


def compare(rec, a, model, dirs, got, d):
    for k, b in enumerate(model):
        rec.check(int(a['target'][k]) == b['target'], 'target',
                  'target of agent %d' % k, got=int(a['target'][k]),
                  want=b['target'], **d)
        rec.check(int(a['index_leader'][k]) == b['rem'], 'leader',
                  'leader of agent %d' % k, got=int(a['index_leader'][k]),
                  want=b['rem'], **d)
        rec.check(vclose(got[k], dirs[k] or (0., 0.)), 'direction',
                  'direction of agent %d' % k, got=got[k].tolist(),
                  want=dirs[k], **d)


def step_leader(rec, scene, state, walls, arr, sight, d, trace):
    """One update of the real code next to the model."""
    model = [dict(b, x=x, v=v) for b, (x, v) in zip(state, scene)]
    a = to_array(model)
    before = a.copy()
    dirs = []
    try:
        for i, b in enumerate(model):
            if not b['follower']:
                dirs.append(None)
                continue
            e, has = lead(i, model, walls, sight)
            dirs.append(e)
            if not has:
                b['target'] = b['exit']
    except Unclear:
        return None
    got = M.leader_follower_interaction(a, arr, sight)
    rec.step()
    d = dict(d, scene=scene, trace=trace)
    compare(rec, a, model, dirs, got, d)
    for name in a.dtype.names:
        if name not in ('target', 'index_leader'):
            rec.check(a[name].tobytes() == before[name].tobytes(), 'pure',
                      '%s was changed' % name, **d)
    return model


def run_case(case, rec):
    kind = case['kind']
    walls = WALLS[case['w']]
    arr = walls_array(walls)
    if kind == 'hist':
        sight = SIGHT[case['s']]
        scenes = []
        for l1, l2, h in itertools.product(L1, L2, HEAD):
            scenes.append([(l1, h[1]), (l2, h[2]), h[0]])
        # agents: follower 0, leaders 1 and 2
        fps = [FPOS[case['f']], FPOS[(case['f'] + 1) % len(FPOS)],
               FPOS[(case['f'] + 3) % len(FPOS)]]
        start = [agent(None, None, 'F', 5, case['rem'], 7),
                 agent(None, None, 'L', 1), agent(None, None, 'L', 2)]

        def go(state, depth, trace):
            if depth == case['n']:
                rec.trace()
                return
            for k, s in enumerate(scenes):
                scene = [(fps[depth], s[2]), s[0], s[1]]
                d = {'walls': walls, 'sight': sight, 'remembered': case['rem']}
                if depth and case['f'] % 2:
                    # leaders may lose or change their target
                    state = [state[0], dict(state[1], target=-depth % 3 - 1),
                             dict(state[2], target=2 - 3 * (depth % 2))]
                elif depth and case['f'] == 4:
                    # a leader may be one no more
                    state = [state[0], dict(state[1], leader=False),
                             dict(state[2], target=3)]
                nxt = step_leader(rec, scene, state, walls, arr, sight, d,
                                  trace + [k])
                if nxt is None:
                    continue
                rec.state((depth, k, nxt[0]['rem'], nxt[0]['target'],
                           case['w'], sight, case['f']))
                go(nxt, depth + 1, trace + [k])
        go(start, 0, [])
    elif kind == 'two':
        sight = SIGHT[case['s']]
        for p, q, l1, l2, h in itertools.product(FPOS, FPOS, L1, L2, HEAD):
            for roles in ('FFL', 'LFF', 'F-F', 'FLF-', 'FLL', '', 'FF'):
                xs = [p, l1, q, l2]
                vs = [h[0], h[1], (.3, -.7), h[2]]
                state = [agent(x, v, r, 3 + k, -1 if r != 'F' or k % 2 else
                               (roles.find('L')), 9)
                         for k, (x, v, r) in enumerate(zip(xs, vs, roles))]
                if len({s['x'] for s in state}) < len(state):
                    continue
                d = {'walls': walls, 'sight': sight, 'roles': roles}
                n = step_leader(rec, [(b['x'], b['v']) for b in state], state,
                                walls, arr, sight, d, [])
                rec.trace()
                rec.state((p, q, l1, l2, h, roles))
    elif kind == 'crowd' and case['w'] == 0 and case['n'] == 0:
        for sel in itertools.permutations([0.0, 4e-8, -4e-8, 2e-8, 1e-7], 3):
            for far in (1.0, 7.3):
                state = [agent((.5, .25), (.9, .8), 'F', 5, -1, 7)]
                for k, g in enumerate(sel):
                    c, s_ = ((1., 0.), (0., 1.), (.6, .8))[k]
                    state.append(agent((.5 + far * (1 + g) * c,
                                        .25 + far * (1 + g) * s_),
                                       (.7 + .1 * k, .8), 'L', k))
                for sight in (far * (1 + 1e-8), far * (1 - 1e-8), 3 * far):
                    step_leader(rec, [(b['x'], b['v']) for b in state],
                                state, walls, arr, sight, {'sight': sight},
                                [])
                    rec.trace()
                    rec.state(('close', sel, far, sight))
    elif kind == 'crowd':
        # leaders coming this way, and only the furthest one going away
        for n, side in itertools.product(range(1, case['n']), (0, 1)):
            state = [agent((0., 0.), (1., 0.), 'F', 5, -1, 7)]
            for k in range(n):
                state.append(agent((.5 + .11 * k, .8 - .02 * k if side else
                                    .1 * (-1) ** k), (-1., .1), 'L', k % 5))
            state.append(agent((.9 + .11 * n, -1.2), (1., -.3), 'L', 1))
            state = state[::-1] if side else state
            state[-1 if side else 0]['rem'] = 1 if n % 3 else -1
            got = step_leader(rec, [(b['x'], b['v']) for b in state], state,
                              walls, arr, 20., {'walls': walls, 'n': n}, [])
            rec.trace()
            rec.state(('last', n, side, case['w'], got is not None))
        # many leaders and followers; the nearest leaders are of no use
        for n in range(5, case['n'], 4):
            for turn in range(6):
                state = []
                for k in range(n):
                    x = (.71 * (k % 7) - 2.3 + .031 * k,
                         .83 * (k // 7) - 1.7 + .017 * k)
                    a = 1.9 * k + turn
                    role = 'LF-'[(k * (turn + 1) + k // 3) % 3]
                    state.append(agent(
                        x, (math.cos(a), math.sin(a)), role, k % 4 - 1,
                        -1, k % 3 - 1))
                leaders = [k for k in range(n) if state[k]['leader']]
                for k in range(n):
                    if state[k]['follower'] and leaders and k % 2:
                        state[k]['rem'] = leaders[k % len(leaders)]
                for sight in (20., 2.5):
                    step_leader(rec, [(b['x'], b['v']) for b in state], state,
                                walls, arr, sight, {'walls': walls,
                                                    'sight': sight, 'n': n},
                                [])
                    rec.trace()
                    rec.state((n, turn, sight, case['w']))
    elif kind == 'herd':
        run_herd(case, rec, walls, arr)
    else:
        run_nodes(case, rec, walls, arr)


def herd_scenes(k):
    p0 = FPOS[k % 3]
    h = HEAD[k // 3]
    for q, l1 in itertools.product(FPOS[2:], L1[:2]):
        for v in ((.4, .2), (-.7, .3), (0., 0.)):
            yield [(p0, h[0]), (l1, h[1]), (q, v), ((.9, -1.3), h[2])]


def step_herd(rec, scene, state, walls, arr, sight, num, d):
    model = [dict(b, x=x, v=v) for b, (x, v) in zip(state, scene)]
    a = to_array(model)
    n = len(model)
    pos = [b['x'] for b in model]
    # neighbours, nearest first; undecided ones are left out
    nb = []
    for i in range(n):
        c = sorted((math.hypot(pos[i][0] - pos[j][0], pos[i][1] - pos[j][1]),
                    j) for j in range(n) if j != i and
                   not any(meet(pos[i], pos[j], *w) for w in walls))
        if any(abs(l - sight) < 1e-9 for l, _ in c):
            return None
        c = [x for x in c if x[0] < sight]
        if len(c) > num and c[num][0] - c[num - 1][0] < 1e-9:
            return None
        nb.append([j for _, j in c[:num]])
    dirs = []
    try:
        h = herd([b['follower'] for b in model], pos, [b['v'] for b in model],
                 nb, .15, PHI)
        for b, e in zip(model, h):
            if e is not None:
                b['target'] = -1
        for i, b in enumerate(model):
            if not b['follower']:
                dirs.append(None)
                continue
            e, has = lead(i, model, walls, 20.0)
            if not has and h[i] is None:
                b['target'] = b['exit']
            e, g = e or (0., 0.), h[i] or (0., 0.)
            s = [.65 * e[k] + .35 * g[k] for k in (0, 1)]
            if 0 < math.hypot(*s) < 1e-6:
                return None
            dirs.append(norm(s))
    except Unclear:
        return None
    got = M.leader_follower_with_herding_interaction(a, arr, sight, num)
    rec.step()
    compare(rec, a, model, dirs, got, dict(d, scene=scene, sight=sight,
                                           num=num))
    return model


def run_herd(case, rec, walls, arr):
    scenes = list(herd_scenes(case['k']))
    more = list(herd_scenes((case['k'] + 4) % 9))[::3]
    for roles in ('FLFF', 'FFFF', '-LF-'):
        for sight, num in ((2.5, 2), (10.0, 5), (10.0, 1)):
            start = [agent(None, None, r, 2 + k, 1 if k == 2 and
                           roles[1] == 'L' else -1, 9)
                     for k, r in enumerate(roles)]
            d = {'walls': walls, 'roles': roles}
            for s in scenes:
                n1 = step_herd(rec, s, start, walls, arr, sight, num, d)
                if n1 is None:
                    continue
                rec.state((case['w'], case['k'], str(s), roles, sight, num))
                for t in more:
                    step_herd(rec, t, n1, walls, arr, sight, num,
                              dict(d, first=s))
                rec.trace()


def run_nodes(case, rec, walls, arr):
    from shapely.geometry import MultiLineString
    obstacles = MultiLineString([list(w) for w in walls]) if walls else None
    for roles in ('FLF-', 'LLFF'):
        for sc in list(herd_scenes(3))[::2]:
            for kind in ('lead', 'herd'):
                state = [agent(x, v, r, 2 + k, -1, 9)
                         for k, ((x, v), r) in enumerate(zip(sc, roles))]
                ref = to_array(state)
                for dtype in (A.agent_type_circular,
                              A.agent_type_three_circle):
                    a = to_array(state, dtype)
                    s = sim.simulation(a, obstacles=obstacles)
                    if kind == 'lead':
                        node = L.LeaderFollower(s, sight=20.0)
                        r = ref.copy()
                        want = M.leader_follower_interaction(r, arr, 20.0)
                    else:
                        node = L.LeaderFollowerWithHerding(
                            s, sight_follower=10.0, size_nearest_other=5)
                        r = ref.copy()
                        want = M.leader_follower_with_herding_interaction(
                            r, arr, 10.0, 5)
                    node.update()
                    rec.trace()
                    rec.state((case['w'], roles, str(sc), kind, str(dtype)))
                    for k, b in enumerate(state):
                        e = want[k] if b['follower'] else (.6, .8)
                        rec.check(vclose(a['target_direction'][k], e),
                                  'node', 'direction of agent %d set by the '
                                  'logic node' % k, roles=roles, node=kind,
                                  got=a['target_direction'][k].tolist(),
                                  want=list(e))
                    rec.check((a['target'] == r['target']).all() and
                              (a['index_leader'] == r['index_leader']).all(),
                              'node-target', 'targets set by the logic node',
                              roles=roles, node=kind)
