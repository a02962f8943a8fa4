"""The unique-id index holds exactly the nodes of the tree."""
from node.base import AttributedNode
from node.base import BaseNode
from node.base import Node
from node.behaviors import Adopt
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Lifecycle
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import Reference
from .common import EqualNode, FalsyNode
from plumber import plumbing
import uuid

BOUNDS = dict(
    quick='4 classes (and, smaller, nodes that are false or equal to everything); trees of up to 4 '
          'nodes in every shape; then histories of 2 operations from up to 3 nodes '
          '(3 of detach, delete, re-add; 1 from 4 nodes) out of adding a node or a subtree by '
          'assignment, setdefault, update or insertion, overwriting, deleting, popping, clearing, detaching '
          'and re-adding anywhere (also 1 operation in trees of 4 with children that are values or '
          'have no ids), with arbitrary keys; a new node or its child with an arbitrary '
          '128 bit id that may be one of the ids in use',
    thorough='trees of up to 5 nodes, all histories of 3 operations from up to 2 nodes, of 2 from up to 4')


@plumbing(Adopt, Reference, DefaultInit, Nodify, DictStorage)
class Plain(object):
    pass


@plumbing(Lifecycle, Adopt, Reference, Order, DefaultInit, Nodify, OdictStorage)
class Live(object):
    pass


@plumbing(Adopt, Reference, DefaultInit, Nodify, DictStorage)
class Falsy(FalsyNode):
    pass


@plumbing(Lifecycle, Adopt, Reference, Order, DefaultInit, Nodify, OdictStorage)
class Equal(EqualNode):
    pass


ODD = dict(Falsy=Falsy, Equal=Equal)
CLASSES = dict(Plain=Plain, Live=Live, Node=Node, AttributedNode=AttributedNode)
OPS = ('set', 'setdefault', 'update', 'insertfirst', 'insertlast', 'insertbefore', 'insertafter',
       'del', 'pop', 'popitem', 'clear', 'detach', 'readd', 'foreign')
FEW = ('set', 'del', 'detach', 'readd')


class Tree(object):
    """Model: parent links and children of all nodes."""

    def __init__(self, env):
        self.env = env
        self.chosen = []
        self.kids = {}
        self.all = []

    def add(self, node):
        for u in self.chosen:
            # uuid4 gives fresh ids
            self.env.assume(not (node.uuid.int == u.int))
        self.all.append(node)
        self.kids[id(node)] = []

    def find(self, p, key):
        for e in self.kids[id(p)]:
            if e[0] is key or e[0] == key:
                return e
        return None

    def under(self, node):
        out = [node]
        for k, c in self.kids[id(node)]:
            out.extend(self.under(c))
        return out

    def roots(self):
        contained = [c for n in self.all for k, c in self.kids[id(n)]]
        return [n for n in self.all if not any(n is c for c in contained)]

    def put(self, p, key, node):
        e = self.find(p, key)
        if e is not None:
            e[1] = node
        else:
            self.kids[id(p)].append([key, node])

    def remove(self, p, node):
        self.kids[id(p)] = [e for e in self.kids[id(p)] if e[1] is not node]


def check(env, t, tag):
    for r in t.roots():
        group = t.under(r)
        for m in group:
            if not hasattr(m, 'node'):
                continue
            env.samelist(m.values(), [c for k, c in t.kids[id(m)]], tag + ': children')
            env.eqlist(m.keys(), [k for k, c in t.kids[id(m)]], tag + ': keys')
            for x in t.all:
                if not hasattr(x, 'node'):
                    continue
                inside = any(x is g for g in group)
                exp = x
                if not inside:
                    # None, or a node of the group with the same id
                    exp = None
                    for g in group:
                        if hasattr(g, 'node') and g.uuid.int == x.uuid.int:
                            exp = g
                env.same(m.node(x.uuid), exp, tag + (': contained' if inside else ': not contained'))
                env.check((x.uuid in m.index) == (exp is not None), tag + ': in index')
                env.same(m.index.get(x.uuid), exp, tag + ': get from index')
                if exp is not None:
                    env.same(m.index[x.uuid], exp, tag + ': item of index')


def run(env, cls, size, nops, ops, first=None, anywhere=False, shapes=4,
        foreign=0):
    C = CLASSES.get(cls) or ODD[cls]
    order = hasattr(C, 'insertbefore')
    ops = [o for o in ops if order or not o.startswith('insert')]
    t = Tree(env)
    root = C(name='root')
    t.add(root)
    for i in range(1, size):
        p = t.all[env.choice('par%d' % i, i)]
        k = 'k%d' % i
        kind = env.choice('kind%d' % i, foreign + 1) if i > 1 else 0
        env.assume(hasattr(p, 'node'))
        if kind:
            # a child without ids; a value
            n = BaseNode() if kind == 1 else object()
            t.all.append(n)
            t.kids[id(n)] = []
        else:
            n = C()
            t.add(n)
        p[k] = n
        t.put(p, k, n)
    for j in range(nops):
        op = first if first and not j else ops[env.choice('op%d' % j, len(ops))]
        step(env, C, t, root, op, j, anywhere, shapes)
        check(env, t, 'after op%d %s' % (j, op))
    env.reach('end')


def step(env, C, t, root, op, j, anywhere, shapes):
    pool = [n for n in (t.all if anywhere else t.under(root)) if hasattr(n, 'node')]
    p = pool[env.choice('p%d' % j, len(pool))]
    root = [r for r in t.roots() if any(p is m for m in t.under(r))][0]
    tree = [n for n in t.under(root) if hasattr(n, 'node')]
    kids = t.kids[id(p)]
    if op in ('del', 'pop', 'detach'):
        env.assume(len(kids) > 0)
        k, n = kids[env.choice('at%d' % j, len(kids))]
        if op == 'del':
            del p[k]
        elif op == 'pop':
            env.same(p.pop(k), n, 'pop result')
        else:
            env.same(p.detach(k), n, 'detach result')
        t.remove(p, n)
    elif op == 'popitem':
        env.assume(len(kids) > 0)
        k, n = kids[-1]
        env.same(p.popitem()[1], n, 'popitem result')
        t.remove(p, n)
    elif op == 'clear':
        env.assume(len(kids) > 0)
        p.clear()
        t.kids[id(p)] = []
    elif op == 'foreign':
        # a child without ids
        k = env.keyfree('key%d' % j)
        n = BaseNode()
        p[k] = n
        t.all.append(n)
        t.kids[id(n)] = []
        t.put(p, k, n)
    else:
        k = env.keyfree('key%d' % j)
        if op == 'readd':
            loose = [n for n in t.roots() if n is not root and hasattr(n, 'node')]
            env.assume(len(loose) > 0)
            n = loose[env.choice('who%d' % j, len(loose))]
        else:
            n = C()
            sub = None
            t.add(n)
            shape = env.choice('shape%d' % j, shapes)
            if shape:
                sub = C()
                t.add(sub)
                n['sub'] = sub
                t.put(n, 'sub', sub)
            if shape > 1:
                # an id that may be in use
                u = env.uuid('uuid%d' % j, default=987654321)
                x = n if shape == 2 else sub
                y = sub if shape == 2 else n
                env.assume(not (u.int == y.uuid.int))
                x.uuid = u
                t.chosen.append(u)
        refused = any(o.uuid.int == m.uuid.int for o in tree for m in t.under(n)
                      if hasattr(m, 'uuid'))
        old = t.find(p, k)
        before = [(m, list(m.values())) for m in t.all if hasattr(m, 'values')]
        if op.startswith('insert'):
            env.assume(old is None)
            n.__name__ = k
            if op in ('insertfirst', 'insertlast'):
                call = lambda: getattr(p, op)(n)  # noqa
                at = 0 if op == 'insertfirst' else len(kids)
            else:
                env.assume(len(kids) > 0)
                at = env.choice('at%d' % j, len(kids))
                sib = kids[at][1]
                call = lambda: getattr(p, op)(n, sib)  # noqa
                at += op == 'insertafter'
        elif op == 'setdefault':
            env.assume(old is None)
            call = lambda: p.setdefault(k, n)  # noqa
        elif op == 'update':
            call = lambda: p.update([(k, n)])  # noqa
        else:
            call = lambda: p.__setitem__(k, n)  # noqa
        e, r = env.raises(call, ValueError, *([KeyError] if op.startswith('insert') else []))
        env.check((e is not None) == refused, op + ': refused exactly for an id in use')
        if refused:
            for m, vals in before:
                env.samelist(m.values(), vals, op + ' refused: children')
            if not op.startswith('insert'):
                env.check(isinstance(e, ValueError), op + ' refused: ValueError')
            env.same(n.parent, None, op + ' refused: parent')
        elif op.startswith('insert'):
            t.kids[id(p)].insert(at, [k, n])
        else:
            t.put(p, k, n)


QUICK = {
    # class, size: (operations of the first step, number of steps, later operations)
    ('Plain', 1): (('setdefault', 'update', 'foreign'), 2, OPS),
    ('Plain', 2): (('set', 'del', 'detach', 'pop', 'foreign', 'clear'), 2, FEW),
    ('Plain', 3): (('del', 'detach', 'clear'), 2, FEW),
    ('Node', 1): (('set',), 2, OPS),
    ('Node', 2): (('insertbefore', 'popitem', 'detach', 'clear'), 2, FEW),
    ('Node', 3): (('del', 'detach'), 2, OPS),
    ('Live', 1): (('insertlast',), 2, FEW),
    ('Live', 2): (('del', 'detach', 'pop'), 2, OPS),
    ('AttributedNode', 2): (('insertafter', 'del'), 2, FEW),
}


def scenarios(tier):
    out = []
    q = tier == 'quick'

    def sc(name, weight, **kw):
        out.append(dict(name=name, fn='run', kw=kw, must_reach=['end'], weight=weight,
                        budget=200 if q else 1500))
    if q:
        for (c, size), (first, n, ops) in QUICK.items():
            for op in first:
                sc('%s-%d-%s' % (c, size, op), 10 * size if op[:3] in ('set', 'ins') else 2,
                   cls=c, size=size, nops=n, ops=ops, first=op)
        sc('Node-3-three', 20, cls='Node', size=3, nops=3, ops=FEW, first='detach', shapes=1,
           anywhere=True)
        sc('Plain-3-three', 20, cls='Plain', size=3, nops=3, ops=FEW, first='del', shapes=1,
           anywhere=True)
        for c in ('Node', 'Plain'):
            sc('%s-4-mixed' % c, 20, cls=c, size=4, nops=1, ops=('set', 'del', 'detach', 'clear'),
               shapes=1, foreign=1 + (c == 'Plain'))
        for c, ops in (('Falsy', ('set', 'del', 'detach', 'clear')),
                       ('Equal', ('set', 'insertafter', 'insertlast', 'popitem', 'del'))):
            sc('%s-3' % c, 10, cls=c, size=3, nops=1, ops=ops)
            sc('%s-2' % c, 10, cls=c, size=2, nops=2, ops=FEW, first='detach', shapes=2)
        for c, part in (('Node', ('set', 'del', 'detach', 'insertafter', 'popitem')),
                        ('Plain', OPS), ('Live', ('clear', 'pop', 'insertbefore'))):
            sc('%s-4' % c, 12, cls=c, size=4, nops=1, ops=[o for o in part if o != 'readd'])
        return out
    for c in ODD:
        for op in OPS:
            if (op.startswith('insert') and c == 'Falsy') or op == 'readd':
                continue
            sc('%s-3-%s' % (c, op), 3, cls=c, size=3, nops=2, ops=OPS, first=op, shapes=3)
    for c in CLASSES:
        for size in range(1, 5):
            for op in OPS:
                if op.startswith('insert') and c == 'Plain' or op == 'readd' or size == 1 and op in (
                        'del', 'pop', 'popitem', 'clear', 'detach', 'insertbefore', 'insertafter'):
                    continue
                sc('%s-%d-%s' % (c, size, op), size, cls=c, size=size, ops=OPS, first=op,
                   nops=3 if size < 3 else 2)
                if size > 2:
                    sc('%s-%d-%s-mixed' % (c, size, op), size, cls=c, size=size, ops=FEW, first=op,
                       nops=2, shapes=1, foreign=1 + (c == 'Plain'))
                if op in FEW and size > 1:
                    sc('%s-%d-%s-any' % (c, size, op), 20, cls=c, size=size, nops=3, ops=FEW,
                       first=op, shapes=2, anywhere=True)
        sc('%s-5' % c, 5, cls=c, size=5, nops=1, ops=[o for o in OPS if o != 'readd'])
    return out
