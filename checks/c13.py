"""Changing a unique id re-keys the lookup, or is refused."""
from node.base import AttributedNode
from node.base import Node
from node.behaviors import Adopt
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Nodify
from node.behaviors import Reference
from plumber import plumbing
from .common import EqualNode, FalsyNode
import uuid

BOUNDS = dict(
    quick='5 classes (also falsy nodes and nodes equal to everything); trees of 1..4 nodes in every shape; one to three changes '
          'of the id of any node to arbitrary 128 bit values (0 included, 3 changes in trees of up to 2 nodes, 2 of 3, 1 of 4); '
          'a subtree detached before and added again afterwards',
    thorough='trees of up to 5 nodes, three changes')


@plumbing(Adopt, Reference, DefaultInit, Nodify, DictStorage)
class Plain(object):
    pass


@plumbing(Adopt, Reference, DefaultInit, Nodify, DictStorage)
class Falsy(FalsyNode):
    pass


@plumbing(Adopt, Reference, DefaultInit, Nodify, DictStorage)
class Equal(EqualNode):
    pass


CLASSES = dict(Falsy=Falsy, Equal=Equal, Plain=Plain, Node=Node, AttributedNode=AttributedNode)


def check(env, groups, ids, every, tag):
    """ids: id(node) -> its uuid; every: all uuids ever used."""
    for g in groups:
        for m in g:
            env.same(m.uuid, ids[id(m)], tag + ': uuid')
        for u in every:
            exp = [x for x in g if ids[id(x)].int == u.int]
            env.check(len(exp) < 2, tag + ': ids are unique')
            exp = exp[0] if exp else None
            # lookup from every node
            for m in g:
                env.same(m.node(u), exp, tag + ': lookup')
                env.check((u in m.index) == (exp is not None), tag + ': in index')
                env.same(m.index.get(u), exp, tag + ': get from index')
                e, r = env.raises(lambda: m.index[u], KeyError)
                env.check((e is None) == (exp is not None), tag + ': item of index')
                if e is None:
                    env.same(r, exp, tag + ': item of index')


def run(env, cls, size, changes, detach=False):
    C = CLASSES[cls]
    # different or equal names
    same = env.bool('same names')
    nodes = [C(name='k' if same else 'root')]
    par = {}
    for i in range(1, size):
        p = env.choice('par%d' % i, i)
        n = C()
        nodes[p]['k' if same and 'k' not in nodes[p].keys() else 'k%d' % i] = n
        nodes.append(n)
        par[i] = p
    ids = {}
    for n in nodes:
        env.check(isinstance(n.uuid, uuid.UUID), 'a new node has an id')
        env.check(not any(n.uuid == u for u in ids.values()), 'an id of its own')
        ids[id(n)] = n.uuid
    every = list(ids.values())
    groups = [list(nodes)]
    check(env, groups, ids, every, 'new')
    loose = None
    if detach:
        i = 1 + env.choice('who', size - 1)
        sub = [i]
        for k in range(i + 1, size):
            if par[k] in sub:
                sub.append(k)
        loose = nodes[i]
        nodes[par[i]].detach(loose.name)
        groups = [[n for k, n in enumerate(nodes) if k not in sub], [nodes[k] for k in sub]]
        check(env, groups, ids, every, 'detached')
    for j in range(changes):
        w = env.choice('n%d' % j, len(nodes))
        n = nodes[w]
        g = [x for x in groups if any(n is m for m in x)][0]
        u = env.uuid('u%d' % j, default=1000 + j)
        every.append(u)
        used = any(ids[id(m)].int == u.int for m in g if m is not n)
        e, r = env.raises(lambda: setattr(n, 'uuid', u), ValueError)
        env.check((e is not None) == used, 'refused exactly for an id in use')
        if not used:
            ids[id(n)] = u
        check(env, groups, ids, every, 'after change %d' % j)
    if loose is not None:
        a, b = groups
        clash = any(ids[id(x)].int == ids[id(y)].int for x in a for y in b)
        e, r = env.raises(lambda: nodes[0].__setitem__('again', loose), ValueError)
        env.check((e is not None) == clash, 're-adding refused exactly for an id in use')
        if not clash:
            groups = [a + b]
        check(env, groups, ids, every, 're-added')
    env.reach('end')


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for c in CLASSES:
        for size in range(1, 5 if q else 6):
            if q and c in ('AttributedNode', 'Falsy', 'Equal') and size > 2:
                continue
            n = (3 if size < 3 else 2 if size < 4 else 1) if q else 3
            out.append(dict(name='%s-%d' % (c, size), fn='run', weight=size ** 2, must_reach=['end'],
                            kw=dict(cls=c, size=size, changes=n), budget=150 if q else 1500))
            if size > 1 and not (q and size > 3):
                out.append(dict(name='%s-%d-detach' % (c, size), fn='run', weight=size ** 2,
                                must_reach=['end'], budget=150 if q else 1500,
                                kw=dict(cls=c, size=size, changes=2 if not q or size < 3 or c == 'Plain' else 1,
                                        detach=True)))
    return out
