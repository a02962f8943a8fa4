"""A refused insertion or swap changes nothing."""
from node.base import AttributedNode
from node.base import BaseNode
from node.base import Node
from node.behaviors import Adopt
from node.behaviors import DefaultInit
from node.behaviors import Lifecycle
from node.behaviors import NodeChildValidate
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import Reference
from plumber import Behavior
from plumber import plumb
from plumber import plumbing
from .common import EqualNode, FalsyNode, Ref, agree, new_keys, same_snapshot, snapshot
import uuid

BOUNDS = dict(
    quick='7 classes (two of them false or equal to everything); a container of 0..3 children with arbitrary names, itself below a root; '
          'refusals for a missing name, a reference that is no child, a name in use, a node already '
          'contained, a shared id in the subtree, a value that is no node, a refusing behavior and '
          'swaps of nodes that are not there, at every place, by every operation; then (up to 2 '
          'children) one accepted insertion and one accepted swap',
    thorough='0..5 children, two refusals in a row')


class Refuse(Behavior):
    """Refuses what it is told to."""
    @plumb
    def __setitem__(_next, self, key, val):
        if val is self.__dict__.get('refused'):
            raise self.exc('refused')
        _next(self, key, val)


@plumbing(NodeChildValidate, Adopt, Refuse, Order, DefaultInit, Nodify, OdictStorage)
class Plain(object):
    pass


@plumbing(Refuse, NodeChildValidate, Lifecycle, Adopt, Order, DefaultInit, Nodify, OdictStorage)
class Outer(object):
    pass


@plumbing(NodeChildValidate, Adopt, Reference, Order, Refuse, DefaultInit, Nodify, OdictStorage)
class Ref1(object):
    pass


class Falsy(FalsyNode, Ref1):
    pass


class Equal(EqualNode, Ref1):
    pass


CLASSES = dict(Plain=Plain, Outer=Outer, Ref1=Ref1, Node=Node, AttributedNode=AttributedNode,
               Falsy=Falsy, Equal=Equal)
INSERT = ('insertbefore', 'insertafter', 'insertfirst', 'insertlast')


class Duck(object):
    name = None
    uuid = None
    parent = None
    __parent__ = None

    @property
    def __name__(self):
        return self.name


class Error(Exception):
    pass


class Stop(BaseException):
    pass


def index(node):
    if not hasattr(node, '_index'):
        return None
    return [(k, node._index[k]) for k in node._index]


def lookups(env, nodes, known, tag):
    """Lookup by id finds what it found before."""
    for n in nodes:
        if not hasattr(n, 'node'):
            continue
        for uid, found in known[id(n)]:
            env.same(n.node(uid), found, tag + ': lookup by id')


def run(env, cls, n, times=1, later=True):
    C = CLASSES[cls]
    ref = hasattr(C, 'node')
    root = C(name='root')
    cont = root['cont'] = C()
    names = new_keys(env, n)
    for k in names:
        cont[k] = C()
    for j in range(times):
        refuse(env, C, cls, ref, root, cont, 'r%d' % j)
    if not later:
        env.reach('end')
        return
    # everything still works
    before = Ref(zip(cont.keys(), cont.values()))
    key = env.keyfree('later')
    env.assume(not before.has(key))
    new = C(name=key)
    op = INSERT[env.choice('laterop', 4 if n else 2) + (0 if n else 2)]
    if op in ('insertfirst', 'insertlast'):
        getattr(cont, op)(new)
        p = 0 if op == 'insertfirst' else n
    else:
        p = n - 1
        getattr(cont, op)(new, before.values()[p])
        p += op == 'insertafter'
    before.e.insert(p, [key, new])
    agree(env, cont, before, 'later %s' % op)
    if n > 1:
        cont.swap(before.e[0][1], before.e[-1][1])
        before.e[0], before.e[-1] = before.e[-1], before.e[0]
        agree(env, cont, before, 'later swap')
    if ref:
        for m in [root, cont] + before.values():
            env.same(root.node(m.uuid), m, 'later lookup')
    env.reach('end')


def refuse(env, C, cls, ref, root, cont, tag):
    kids = list(cont.values())
    kinds = ['noname', 'notchild', 'dupname', 'nonode', 'swap']
    if cls in ('Plain', 'Outer', 'Ref1', 'Falsy', 'Equal'):
        kinds.append('behavior')
    if ref:
        kinds += ['contained', 'dupid']
    kind = kinds[env.choice(tag + 'kind', len(kinds))]
    op = INSERT[env.choice(tag + 'op', 4)] if kind not in ('notchild', 'swap') else None
    if kind == 'notchild':
        op = INSERT[env.choice(tag + 'op', 2)]
    key = env.keyfree(tag + 'key')
    has = any(k == key for k in cont.keys())
    if kind not in ('dupname', 'swap'):
        env.assume(not has)
    other = C(name='other')
    new = C(name=key)
    if env.bool(tag + 'sub'):
        new['sub'] = C()
    refnode = kids[env.choice(tag + 'ref', len(kids))] if kids else other
    exc = None
    oldname = None
    if kind == 'noname':
        new.__name__ = None
    elif kind == 'notchild':
        # no child of that name
        rk = env.keyfree(tag + 'refkey')
        env.assume(not any(k == rk for k in cont.keys()))
        refnode = C(name=rk) if not env.bool(tag + 'same') else new
        if refnode is not new and env.bool(tag + 'elsewhere'):
            other[rk] = refnode
    elif kind == 'dupname':
        env.assume(has)
    elif kind == 'nonode':
        new = Duck()
        new.name = key
        new.uuid = uuid.UUID(int=99)
    elif kind == 'contained':
        pool = [root, cont] + kids
        new = pool[env.choice(tag + 'who', len(pool))]
        # a contained node that was given a free name
        if new in kids and env.bool(tag + 'rename'):
            oldname = new.__name__
            new.__name__ = key
    elif kind == 'dupid':
        d = C()
        d.uuid = (kids[-1] if kids else root).uuid
        new['dup'] = d
    elif kind == 'behavior':
        exc = [Error, KeyError, ValueError, Stop][env.choice(tag + 'exc', 4)]
        cont.exc = exc
        cont.refused = new
    nodes = [root, cont, other] + kids + [x for x in (new, refnode) if hasattr(x, 'keys')]
    for x in list(nodes):
        nodes.extend(c for c in x.values() if not any(c is y for y in nodes))
    snaps = [(x, snapshot(x)) for x in nodes]
    known = {}
    for x in nodes:
        if hasattr(x, 'node'):
            uids = [y.uuid for y in nodes if hasattr(y, 'uuid')]
            known[id(x)] = [(u, x.node(u)) for u in uids]
    if kind == 'swap':
        m = env.choice(tag + 'swap', 4)
        stranger = C(name=key)
        env.assume(not has)
        a = kids[0] if kids else stranger
        pair = [(stranger, a), (a, stranger), (stranger, other), (a, a)][m]
        e, r = env.raises(lambda: cont.swap(*pair), Exception)
        op = 'swap'
    elif op in ('insertfirst', 'insertlast'):
        e, r = env.raises(lambda: getattr(cont, op)(new), Exception, Stop)
    else:
        env.assume(kind == 'notchild' or len(kids) > 0)
        e, r = env.raises(lambda: getattr(cont, op)(new, refnode), Exception, Stop)
    cont.__dict__.pop('refused', None)
    t = '%s %s' % (op, kind)
    env.check(e is not None, t + ': refused')
    if exc in (Error, Stop):
        env.check(type(e) is exc, t + ': the exception of the behavior')
    for x, s in snaps:
        same_snapshot(env, snapshot(x), s, t)
        agree(env, x, Ref(zip(s[2], s[3])), t)
    lookups(env, nodes, known, t)
    if oldname is not None:
        new.__name__ = oldname


def foreign(env, n):
    """A referencing container and a node without id."""
    cont = Node(name='cont')
    for k in new_keys(env, n):
        cont[k] = Node()
    kids = list(cont.values())
    new = BaseNode(name=env.keyfree('key'))
    env.assume(any(k == new.name for k in cont.keys()))
    before = snapshot(cont)
    op = INSERT[env.choice('op', 4)]
    args = (new,) if op in ('insertfirst', 'insertlast') else (new, kids[env.choice('at', n)])
    e, r = env.raises(lambda: getattr(cont, op)(*args), Exception)
    env.check(e is not None, 'refused')
    same_snapshot(env, snapshot(cont), before, 'container')
    env.same(new.parent, None, 'new node')
    env.reach('end')


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for c in CLASSES:
        for n in range(0, 4 if q else 6):
            if q and n == 3 and c not in ('Ref1', 'Plain') or q and n == 2 and c in ('AttributedNode', 'Equal'):
                continue
            out.append(dict(name='%s-%d' % (c, n), fn='run', weight=n,
                            kw=dict(cls=c, n=n, later=not q or n < 3),
                            must_reach=['end'], budget=150 if q else 900))
        if not q:
            out.append(dict(name='%s-twice' % c, fn='run', weight=20, kw=dict(cls=c, n=2, times=2),
                            must_reach=['end'], budget=1500))
    for n in (1, 2):
        out.append(dict(name='foreign-%d' % n, fn='foreign', kw=dict(n=n), must_reach=['end']))
    return out
