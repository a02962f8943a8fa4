"""Id-aware nodes never share a unique id by copying."""
from node.base import BaseNode
from node.behaviors import Adopt
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Lifecycle
from node.behaviors import NodeChildValidate
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import UUIDAware
from plumber import plumbing
import uuid

BOUNDS = dict(
    quick='trees of 1..4 nodes in every shape; every node one of 5 classes (id-aware with and '
          'without recursive renewal, falsy when empty, with an own id source, not id-aware); '
          'arbitrary 128 bit ids assigned to any node; moved, detached or replaced before; copies '
          'of any id-aware node and copies of copies; arbitrary keys in the single-class trees',
    thorough='trees of up to 5 nodes')


@plumbing(UUIDAware, Adopt, DefaultInit, Nodify, DictStorage)
class Aware(object):
    pass


@plumbing(UUIDAware, NodeChildValidate, Adopt, Order, Lifecycle, DefaultInit, Nodify, OdictStorage)
class Shallow(object):
    overwrite_recursiv_on_copy = False


@plumbing(UUIDAware, Adopt, DefaultInit, Nodify, OdictStorage)
class Falsy(object):
    def __bool__(self):
        return False

    __nonzero__ = __bool__


class Count(object):
    n = 10 ** 6


@plumbing(UUIDAware, Adopt, DefaultInit, Nodify, OdictStorage)
class Own(object):
    def uuid_factory(self):
        Count.n += 1
        return 'id-%d' % Count.n


CLASSES = (Aware, Shallow, Falsy, Own, BaseNode)
AWARE = CLASSES[:-1]


def flat(node):
    out = [node]
    for k in list(node.keys()):
        v = node[k]
        if isinstance(v, CLASSES):
            out.extend(flat(v))
    return out


def ids(nodes):
    return [n.uuid if isinstance(n, AWARE) else None for n in nodes]


def fresh(env, u, old, tag):
    env.check(u is not None, tag + ': has an id')
    env.check(isinstance(u, (uuid.UUID, str)), tag + ': has an id')
    for o in old:
        env.check(not (u == o), tag + ': is a new id')


def check_copy(env, src, used, tag):
    """Copies src; used: every id in use. Returns the copy."""
    src_nodes = flat(src)
    src_ids = ids(src_nodes)
    cp = src.deepcopy()
    nodes = flat(cp)
    env.check(len(nodes) == len(src_nodes), tag + ': same shape')
    env.samelist(flat(src), src_nodes, tag + ': original nodes stay')
    for i, n in enumerate(src_nodes):
        if isinstance(n, AWARE):
            env.same(n.uuid, src_ids[i], tag + ': original id stays')
    for i, (n, s) in enumerate(zip(nodes, src_nodes)):
        env.check(type(n) is type(s) and n is not s, tag + ': same class, new object')
        if not isinstance(n, AWARE):
            continue
        if i == 0 or src.overwrite_recursiv_on_copy:
            fresh(env, n.uuid, used, tag)
            used.append(n.uuid)
        else:
            env.check(n.uuid == src_ids[i], tag + ': renewal disabled')
    return cp


def run(env, size, classes, assign=False, hist=False):
    picks = [CLASSES[c] for c in classes]
    nodes, used, par, names = [], [], [], []
    for i in range(size):
        C = picks[env.choice('cls%d' % i, len(picks))]
        n = C(name='root')
        if C in AWARE:
            fresh(env, n.uuid, used, 'new node')
            used.append(n.uuid)
        if i:
            p = env.choice('par%d' % i, i)
            key = env.keyfree('k%d' % i) if len(classes) == 1 else 'k%d' % i
            for a, b in zip(par, names):
                env.assume(a != p or not (b == key))
            u = getattr(n, 'uuid', None)
            nodes[p][key] = n
            env.same(getattr(n, 'uuid', None), u, 'added: id stays')
            par.append(p)
            names.append(key)
        nodes.append(n)
    if assign:
        w = env.choice('assign', size)
        if isinstance(nodes[w], AWARE):
            u = env.uuid('u')
            env.assume(not any(u == x for x in used if isinstance(x, uuid.UUID)))
            # not one that is made later
            env.assume(u.int < 2 ** 127)
            nodes[w].uuid = u
            env.same(nodes[w].uuid, u, 'assigned id')
            used.append(u)
    if hist and size > 1:
        # move one node to the root of the tree, or to a new place
        w = 1 + env.choice('moved', size - 1)
        n = nodes[w]
        before = ids(flat(n))
        parent = n.parent
        got = parent.detach(n.name)
        env.same(got, n, 'detached')
        env.check(ids(flat(n)) == before, 'detached: ids stay')
        if env.bool('again'):
            nodes[0]['moved'] = n
            env.check(ids(flat(n)) == before, 'moved: ids stay')
    w = env.choice('src', size)
    src = nodes[w]
    env.assume(isinstance(src, AWARE))
    before = ids(flat(src))
    e, r = env.raises(src.copy, RuntimeError)
    env.check(e is not None, 'shallow copy is refused')
    env.check(ids(flat(src)) == before, 'refused: ids stay')
    cp = check_copy(env, src, used, 'copy')
    if size < 3:
        cp2 = check_copy(env, cp, used, 'copy of the copy')
        check_copy(env, src, used, 'second copy')
        new = type(src)()
        fresh(env, new.uuid, used, 'node made afterwards')
        u = cp2.uuid
        cp['sub'] = cp2.detach(cp2.keys()[0]) if len(cp2.keys()) else Aware()
        env.same(cp2.uuid, u, 'id stays')
    env.reach('end')


def scenarios(tier):
    out = []
    q = tier == 'quick'

    def sc(name, w, **kw):
        out.append(dict(name=name, fn='run', kw=kw, weight=w, must_reach=['end'],
                        budget=150 if q else 1500))
    for size in range(1, 5 if q else 6):
        if size < 4:
            sc('mixed-%d' % size, size ** 3, size=size, classes=(0, 1, 2, 3, 4), hist=size < 3)
        else:
            for pair in ((0, 4), (1, 4), (0, 1), (2, 4)):
                sc('pair%d%d-%d' % (pair + (size,)), 20, size=size, classes=pair)
        for c in range(4):
            sc('one%d-%d' % (c, size), size ** 2, size=size, classes=(c,), assign=True,
               hist=size < 4)
    return out
