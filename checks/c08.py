"""C08: the logic tree is what the building operations say, and an update
visits it children first, once each.

Explored: breadth first, every forest over 4 (5) labelled nodes reachable
through the building operations, every operation tried in every state.
Oracle: a parent map with ordered children.  The real tree of each state is
rebuilt by replaying the shortest operation path."""
import itertools

LEVEL = 'model_checking'
BOUNDS = {
    'quick': 'all reachable forests of 4 nodes, every operation (add, <<, '
             '<< tuple, inject before/after) in each; updates and name lookup '
             'in every forest; chains/fans of 60 nodes, attached one by one, as tuples, lists and '
             'iterators',
    'thorough': 'forests of 5 nodes'}
ASSUMPTIONS = ['the injected node is neither above nor below the place '
               'where it is injected',
               'the tree after an operation refused as a loop is not '
               'judged (the tree library half-applies it)']

NAMES = ['Reset', 'A', 'B', 'C', 'A2']


class LoopRefused(Exception):
    pass


def setup():
    global base, MultiAgentSimulation, LogicNode, LoopError
    from crowddynamics.simulation import base
    from anytree import LoopError
    from crowddynamics.simulation.logic import LogicNode
    from crowddynamics.simulation.multiagent import MultiAgentSimulation


class Forest:
    """Model: parent and ordered children by index."""

    def __init__(self, n):
        self.parent = [None] * n
        self.children = [[] for _ in range(n)]

    def key(self):
        return tuple(tuple(c) for c in self.children)

    def copy(self):
        f = Forest(0)
        f.parent = list(self.parent)
        f.children = [list(c) for c in self.children]
        return f

    def ancestors(self, k):
        while k is not None:
            yield k
            k = self.parent[k]

    def root(self, k):
        return list(self.ancestors(k))[-1]

    def attach(self, child, parent):
        if parent is not None and child in self.ancestors(parent):
            raise LoopRefused
        if self.parent[child] == parent:
            return            # already there: keeps its place
        if self.parent[child] is not None:
            self.children[self.parent[child]].remove(child)
        self.parent[child] = parent
        if parent is not None:
            self.children[parent].append(child)

    def apply(self, op):
        kind, a, b = op
        if kind in ('add', 'shift'):
            self.attach(b, a)
        elif kind in ('tuple', 'list', 'gen'):
            for x in b:
                self.attach(x, a)
        elif kind == 'before':
            p = self.parent[a]
            self.attach(a, b)
            self.attach(b, p)
        elif kind == 'after':
            for c in list(self.children[a]):
                self.attach(c, b)
            self.attach(b, a)

    def post(self, k):
        for c in self.children[k]:
            yield from self.post(c)
        yield k

    def pre(self, k):
        yield k
        for c in self.children[k]:
            yield from self.pre(c)


def ops(n, f):
    for a, b in itertools.product(range(n), repeat=2):
        if a == b:
            yield ('add', a, b)      # refused: a node is not its own child
            continue
        yield ('add', a, b)
        yield ('shift', a, b)
        if b not in f.ancestors(a) and a not in f.ancestors(b):
            yield ('before', a, b)
            yield ('after', a, b)
    for a in range(n):
        others = [x for x in range(n) if x != a]
        for size in (0, 2, 3):
            for t in itertools.permutations(others, size):
                yield ('tuple', a, t)
        for t in itertools.permutations(others, 2):
            yield ('list', a, t)
            yield ('gen', a, t)


def make_class():
    class Node(LogicNode):
        log = None

        def update(self):
            Node.log.append(self.k)
            if self.k == Node.bad:
                raise ZeroDivisionError
    Node.log = []
    Node.bad = None
    return Node


def build(n, path):
    Node = make_class()
    nodes = []
    for k in range(n):
        x = Node(None, name=NAMES[k])
        x.k = k
        nodes.append(x)
    for op in path:
        real_op(nodes, op)
    return Node, nodes


def real_op(nodes, op):
    kind, a, b = op
    if kind == 'add':
        return nodes[a].add_children(nodes[b])
    if kind == 'shift':
        return nodes[a] << nodes[b]
    if kind == 'tuple':
        return nodes[a] << tuple(nodes[x] for x in b)
    if kind == 'list':
        return nodes[a] << [nodes[x] for x in b]
    if kind == 'gen':
        return nodes[a] << (nodes[x] for x in b)
    if kind == 'before':
        nodes[a].inject_before(nodes[b])
    elif kind == 'after':
        nodes[a].inject_after(nodes[b])


def cases(tier):
    # the reachable model states, split over the cases
    n = 5 if tier == 'thorough' else 4
    parts = 64 if tier == 'thorough' else 16
    return [{'kind': 'forest', 'n': n, 'part': p, 'parts': parts}
            for p in range(parts)] + \
        [{'kind': 'names'}, {'kind': 'iterate'}, {'kind': 'large', 'n': 60}]


def reach(n):
    f0 = Forest(n)
    seen = {f0.key(): ((), f0)}
    todo = [f0.key()]
    while todo:
        nxt = []
        for k in todo:
            path, f = seen[k]
            for op in ops(n, f):
                g = f.copy()
                try:
                    g.apply(op)
                except LoopRefused:
                    continue
                if g.key() not in seen:
                    seen[g.key()] = (path + (op,), g)
                    nxt.append(g.key())
        todo = nxt
    return seen


def same(rec, nodes, f, tag):
    for k, x in enumerate(nodes):
        got_c = [c.k for c in x.children]
        got_p = None if x.parent is None else x.parent.k
        if got_c != f.children[k] or got_p != f.parent[k]:
            rec.fail('tree', 'node %d has parent %r and children %r, expected '
                     '%r and %r (%s)' % (k, got_p, got_c, f.parent[k],
                                         f.children[k], tag))
            return False
    return True


def run_case(case, rec):
    if case['kind'] == 'forest':
        n = case['n']
        states = reach(n)
        keys = sorted(states)[case['part']::case['parts']]
        for key in keys:
            path, f = states[key]
            Node, nodes = build(n, path)
            tag = 'after %r' % (path,)
            if not same(rec, nodes, f, tag):
                return
            rec.state((n, key))
            rec.trace()
            # lookup by name from every node
            for k in range(n):
                tree = set(f.pre(f.root(k)))
                for m in range(n):
                    try:
                        got = nodes[k][NAMES[m]].k
                    except KeyError:
                        got = None
                    if got != (m if m in tree else None):
                        rec.fail('lookup', 'node %d[%r] gave %r (%s)' % (
                            k, NAMES[m], got, tag))
                        return
                    rec.step()
            if not updates(rec, Node, nodes, f, tag):
                return
            for op in ops(n, f):
                Node, nodes = build(n, path)
                g = f.copy()
                refused = False
                try:
                    g.apply(op)
                except LoopRefused:
                    refused = True
                t = 'op %r %s' % (op, tag)
                try:
                    ret = real_op(nodes, op)
                except LoopError:
                    if not refused:
                        rec.fail('refused', 'refused as a loop: ' + t)
                        return
                    # what a refused operation leaves behind is the tree
                    # library's business
                    pass
                else:
                    if refused:
                        rec.fail('loop', 'a loop was accepted: ' + t)
                        return
                    if op[0] in ('add', 'shift', 'tuple', 'list', 'gen') and \
                            ret is not nodes[op[1]]:
                        rec.fail('chaining', 'the operation does not return '
                                 'its node: ' + t)
                        return
                    if not same(rec, nodes, g, t):
                        return
                rec.step()
        rec.sample({'part': case['part'], 'forests': len(keys)})
    elif case['kind'] == 'names':
        class Alpha(base.LogicNodeBase):
            pass

        class Beta(Alpha):
            pass
        for a, b, c in itertools.product(('x', 'y', 'z'), repeat=3):
            # the first in pre-order wins when names repeat
            x, y, z = Alpha(name=a), Alpha(name=b), Beta(name=c)
            x << (y << z)
            for start in (x, y, z):
                for name in 'xyzw':
                    want = next((q for q in (x, y, z) if q.name == name), None)
                    try:
                        got = start[name]
                    except KeyError:
                        got = None
                    rec.step()
                    if got is not want:
                        rec.fail('lookup', 'names %r: [%r] gave %r' % (
                            (a, b, c), name, got))
                        return
            rec.state((a, b, c))
            rec.trace()
        if Alpha().name != 'Alpha' or Beta().name != 'Beta':
            rec.fail('names', 'default name is not the class name')
        t = Alpha() << Beta()
        if t['Beta'].name != 'Beta' or t['Beta'].parent is not t:
            rec.fail('names', 'lookup by class name')
        try:
            base.LogicNodeBase().update()
        except NotImplementedError:
            pass
        else:
            rec.fail('abstract', 'a node without update() updates')
    elif case['kind'] == 'large':
        Node = make_class()
        n = case['n']
        for shape in ('chain', 'fan', 'comb', 'binary'):
            f = Forest(n)
            nodes = []
            for k in range(n):
                x = Node(None, name='n%d' % k)
                x.k = k
                nodes.append(x)
                if k:
                    p = {'chain': k - 1, 'fan': 0,
                         'comb': k - 1 if k % 2 else max(k - 2, 0),
                         'binary': (k - 1) // 2}[shape]
                    f.attach(k, p)
                    nodes[p] << x
            if not same(rec, nodes, f, shape):
                return
            if not updates(rec, Node, nodes, f, shape, bad=False):
                return
            if any(nodes[(7 * k) % n]['n%d' % k] is not nodes[k]
                   for k in range(n)):
                rec.fail('lookup', shape)
            rec.state(shape)
            rec.trace()
        for form in ('tuple', 'list', 'gen'):
            f = Forest(n)
            nodes = []
            for k in range(n):
                x = Node(None, name='n%d' % k)
                x.k = k
                nodes.append(x)
            for k in range(1, n):
                f.attach(k, 0)
            nodes[0] << {'tuple': tuple(nodes[1:]), 'list': nodes[1:],
                         'gen': (x for x in nodes[1:])}[form]
            if not same(rec, nodes, f, form):
                return
            if not updates(rec, Node, nodes, f, form, bad=False):
                return
            rec.state(form)
            rec.trace()
    elif case['kind'] == 'iterate':
        # the tree is changed between iterations: the next one follows it
        for path_ops in itertools.product(
                [('before', 1, 3), ('after', 1, 3), ('add', 0, 3),
                 ('after', 0, 3), ('shift', 2, 3)], repeat=1):
            Node, nodes = build(4, [('shift', 0, 1), ('shift', 1, 2)])
            f = Forest(4)
            for op in (('shift', 0, 1), ('shift', 1, 2)):
                f.apply(op)
            if not updates(rec, Node, nodes, f, 'first', bad=False):
                return
            for op in path_ops:
                f.apply(op)
                real_op(nodes, op)
            if not updates(rec, Node, nodes, f, 'after %r' % (path_ops,),
                           bad=False):
                return
            rec.state(path_ops)
            rec.trace()


def updates(rec, Node, nodes, f, tag, bad=True):
    for k in range(len(nodes)):
        if not bad and k % 7:
            continue
        simu = simu_of(MultiAgentSimulation, nodes[k])
        want = list(f.post(f.root(k)))
        for it in (1, 2):
            del Node.log[:]
            simu.update()
            rec.step()
            if Node.log != want or simu.data['iterations'] != it:
                rec.fail('order', 'update visited %r, expected %r; iterations '
                         '%r (%s)' % (Node.log, want, simu.data['iterations'],
                                      tag))
                return False
        if bad:
            # a node that fails ends the cycle there and then
            for b in want:
                Node.bad = b
                del Node.log[:]
                try:
                    simu.update()
                    ok = False
                except ZeroDivisionError:
                    ok = True
                finally:
                    Node.bad = None
                rec.step()
                if not ok or Node.log != want[:want.index(b) + 1]:
                    rec.fail('error', 'failing node %d: visited %r (%s)' % (
                        b, Node.log, tag))
                    return False
    return True


def simu_of(cls, node):
    # any node of the tree may be given: the whole tree is updated
    s = cls()
    s.logic = node
    return s
