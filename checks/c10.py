"""Ordering operations put children exactly where asked."""
from node.base import AttributedNode
from node.base import BaseNode
from node.base import Node
from node.behaviors import Adopt
from node.behaviors import DefaultInit
from node.behaviors import Lifecycle
from node.behaviors import NodeChildValidate
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import UUIDAware
from plumber import plumbing
from .common import EqualNode, FalsyNode, Ref, agree, new_keys

BOUNDS = dict(
    quick='4 classes; every insertion and swap at every place among 0..5 children with arbitrary '
          'distinct names (0..3 for nodes that are false or equal to everything); all pairs of insertion, swap, deletion, detach, append and overwrite from 0..3 '
          'children (triples from 0 and 1)',
    thorough='single operations among 0..7 children, pairs from 0..4, triples from 0..2')


@plumbing(Adopt, Order, DefaultInit, Nodify, OdictStorage)
class Orderable(object):
    pass


@plumbing(NodeChildValidate, Lifecycle, Adopt, UUIDAware, Order, DefaultInit, Nodify, OdictStorage)
class Live(object):
    pass


class Falsy(FalsyNode, Orderable):
    pass


class Equal(EqualNode, Orderable):
    pass


ODD = dict(Falsy=Falsy, Equal=Equal)
CLASSES = dict(Orderable=Orderable, Live=Live, Node=Node, AttributedNode=AttributedNode)
INSERT = ('insertbefore', 'insertafter', 'insertfirst', 'insertlast')
OPS = INSERT + ('swap', 'del', 'detach', 'set', 'overwrite')


def check(env, cont, ref, tag):
    agree(env, cont, ref, tag)
    for k, v in ref.items():
        env.check(v.name == k, tag + ': name')
        env.same(v.parent, cont, tag + ': parent')
        env.eqlist(v.path, ['cont', k], tag + ': path')


def run(env, cls, n, nops, ops=OPS):
    C = CLASSES.get(cls) or ODD[cls]
    cont = C(name='cont')
    ref = Ref()
    for k in new_keys(env, n):
        cont[k] = C()
        ref.set(k, cont[k])
    out = []
    for j in range(nops):
        op = ops[env.choice('op%d' % j, len(ops))]
        kids = ref.items()
        if op in INSERT:
            key = env.keyfree('new%d' % j)
            env.assume(not ref.has(key))
            new = C(name=key)
            if env.bool('reuse%d' % j):
                # one that was removed before
                env.assume(len(out) > 0)
                new = out.pop()
                new.__name__ = key
            elif env.bool('sub%d' % j):
                new['sub'] = C()
            if op in ('insertbefore', 'insertafter'):
                env.assume(len(kids) > 0)
                p = env.choice('at%d' % j, len(kids))
                r = getattr(cont, op)(new, kids[p][1])
                p += op == 'insertafter'
            else:
                r = getattr(cont, op)(new)
                p = 0 if op == 'insertfirst' else len(kids)
            env.same(r, None, op + ': result')
            ref.e.insert(p, [key, new])
        elif op == 'swap':
            env.assume(len(kids) > 1)
            a = env.choice('a%d' % j, len(kids))
            b = env.choice('b%d' % j, len(kids))
            env.assume(a != b)
            cont.swap(kids[a][1], kids[b][1])
            ref.e[a], ref.e[b] = ref.e[b], ref.e[a]
        elif op == 'set':
            key = env.keyfree('new%d' % j)
            env.assume(not ref.has(key))
            new = C()
            cont[key] = new
            ref.set(key, new)
        else:
            env.assume(len(kids) > 0)
            k, v = kids[env.choice('at%d' % j, len(kids))]
            if op == 'overwrite':
                new = C()
                cont[k] = new
                ref.set(k, new)
            else:
                if op == 'del':
                    del cont[k]
                else:
                    env.same(cont.detach(k), v, 'detach result')
                ref.delete(k)
            out.append(v)
        check(env, cont, ref, 'after %s' % op)
    env.reach('end')


def nested(env, n):
    """Order below the root and a child of another class."""
    root = Node(name='root')
    cont = root[env.keyfree('c')] = Node()
    ref = Ref()
    for k in new_keys(env, n):
        cont[k] = Node()
        ref.set(k, cont[k])
    key = env.keyfree('new')
    env.assume(not ref.has(key))
    new = BaseNode(name=key) if env.bool('foreign') else Node(name=key)
    op = INSERT[env.choice('op', 4)]
    at = env.choice('at', n)
    if op in ('insertbefore', 'insertafter'):
        getattr(cont, op)(new, ref.values()[at])
        at += op == 'insertafter'
    else:
        getattr(cont, op)(new)
        at = 0 if op == 'insertfirst' else n
    ref.e.insert(at, [key, new])
    agree(env, cont, ref, 'after %s' % op)
    env.same(new.parent, cont, 'parent')
    env.same(new.root, root, 'root')
    env.samelist(root.values(), [cont], 'root children')
    env.reach('end')


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for c in CLASSES:
        for n in range(0, 6 if q else 8):
            out.append(dict(name='%s-%d' % (c, n), fn='run', weight=n,
                            kw=dict(cls=c, n=n, nops=1), must_reach=['end'], budget=100))
        for n in range(0, 4 if q else 5):
            if q and (c == 'AttributedNode' or n == 3 and c == 'Live'):
                continue
            out.append(dict(name='%s-%d-pairs' % (c, n), fn='run', weight=4 + 4 * n,
                            kw=dict(cls=c, n=n, nops=2), must_reach=['end'],
                            budget=150 if q else 1500))
        if q and c in ('Node', 'Orderable'):
            for n in (0, 1):
                out.append(dict(name='%s-%d-triples' % (c, n), fn='run', weight=15, must_reach=['end'],
                                kw=dict(cls=c, n=n, nops=3, ops=INSERT[1:3] + ('swap', 'detach')),
                                budget=150))
        if not q:
            for n in range(0, 3):
                out.append(dict(name='%s-%d-triples' % (c, n), fn='run', weight=40,
                                kw=dict(cls=c, n=n, nops=3), must_reach=['end'], budget=1500))
    for c in ODD:
        for n in range(0, 4 if q else 5):
            out.append(dict(name='%s-%d' % (c, n), fn='run', weight=n, must_reach=['end'], budget=100,
                            kw=dict(cls=c, n=n, nops=1)))
    for n in (1, 2, 3):
        out.append(dict(name='nested-%d' % n, fn='nested', kw=dict(n=n), must_reach=['end']))
    return out
