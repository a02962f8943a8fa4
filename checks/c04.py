"""A failed assignment leaves everything as it was."""
from node.base import BaseNode
from node.behaviors import Adopt
from node.behaviors import Alias
from node.behaviors import Attributes
from node.behaviors import Cache
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import FixedChildren
from node.behaviors import Lifecycle
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import Reference
from node.behaviors import VolatileStorageInvalidate
from node.behaviors.alias import DictAliaser
from node.behaviors.alias import PrefixAliaser
from plumber import Behavior
from plumber import plumb
from plumber import plumbing
from .common import EqualNode, FalsyNode, new_keys, same_snapshot, snapshot

BOUNDS = dict(
    quick='8 classes of containers (plain, ordered, referencing, aliased, cached, fixed '
          'children, containers and children that are false or equal to everything), 0..2 children with arbitrary keys; an exception of 9 types raised '
          'by a behavior around the storage or the storage itself, by child '
          'validation, by duplicate ids, by a refusing aliaser; by item assignment, '
          'setdefault, update and the insertion operations; new child, child of another node or of the container',
    thorough='0..4 children, two failing operations in a row')


class Custom(Exception):
    pass


class Base(BaseException):
    pass


EXC = (AttributeError, KeyError, ValueError, Base, TypeError, NotImplementedError,
       RuntimeError, IndexError, Custom)


class Fault(Behavior):
    """Raises before storing, if told to."""
    @plumb
    def __setitem__(_next, self, key, val):
        if self.__dict__.get('fault') == 'behavior':
            raise self.exc('injected')
        _next(self, key, val)


class Outer(Behavior):
    """Raises before anything else."""
    @plumb
    def __setitem__(_next, self, key, val):
        if self.__dict__.get('fault') == 'outer':
            raise self.exc('injected')
        _next(self, key, val)


class FailingStorage(Behavior):
    """At the place of the storage."""
    @plumb
    def __setitem__(_next, self, key, val):
        if self.__dict__.get('fault') == 'storage':
            raise self.exc('injected')
        _next(self, key, val)


@plumbing(Outer, NodeChildValidate, Adopt, Fault, DefaultInit, Nodify, FailingStorage, DictStorage)
class Plain(object):
    pass


@plumbing(Outer, NodeChildValidate, Adopt, Order, Fault, DefaultInit, Nodify, FailingStorage,
          OdictStorage)
class Ordered(object):
    pass


@plumbing(Outer, NodeChildValidate, Nodespaces, Adopt, Attributes, Fault, Reference, Order,
          DefaultInit, Nodify, FailingStorage, OdictStorage)
class Ref(object):
    pass


@plumbing(Outer, NodeChildValidate, Nodespaces, Lifecycle, Adopt, Attributes, Reference, Fault,
          Order, DefaultInit, Nodify, FailingStorage, OdictStorage)
class Ref2(object):
    pass


@plumbing(Outer, NodeChildValidate, Adopt, Alias, Fault, DefaultInit, Nodify, FailingStorage,
          OdictStorage)
class Aliased(object):
    pass


@plumbing(Outer, NodeChildValidate, Adopt, Cache, VolatileStorageInvalidate, Fault, DefaultInit,
          Nodify, FailingStorage, OdictStorage)
class Cached(object):
    pass


@plumbing(NodeChildValidate, Adopt, DefaultInit, Nodify, FixedChildren)
class Fixed(object):
    fixed_children_factories = (('f1', BaseNode), ('f2', BaseNode))


class Falsy(FalsyNode, Ordered):
    pass


class Equal(EqualNode, Ref):
    pass


CLASSES = dict(Plain=Plain, Ordered=Ordered, Ref=Ref, Ref2=Ref2, Aliased=Aliased,
               Cached=Cached, Fixed=Fixed, Falsy=Falsy, Equal=Equal)
INSERT = ('insertbefore', 'insertafter', 'insertfirst', 'insertlast')


def ids(node):
    if not hasattr(node, '_index'):
        return []
    return [(k, node._index[k]) for k in node._index]


def run(env, cls, n, times=1, few=False):
    C = CLASSES[cls]
    cont = C(name='cont')
    top = BaseNode(name='top')
    if cls not in ('Ref', 'Ref2', 'Fixed', 'Equal'):
        cont.__parent__ = top
    prefix = None
    if cls == 'Aliased':
        cont.aliaser = PrefixAliaser('p')
    keys = [] if cls == 'Fixed' else new_keys(env, n)
    if cls == 'Aliased':
        keys = ['p' + k for k in keys]
    for k in keys:
        cont[k] = C()
    for j in range(times):
        fail(env, C, cls, cont, 't%d' % j, few)
    env.reach('end')


def fail(env, C, cls, cont, tag, few=False):
    # the child: fresh, named, with children, or placed elsewhere
    where = env.choice(tag + 'where', 4)
    child = C()
    other = None
    if where == 3:
        # a child of the container itself
        env.assume(len(cont) > 0 and cls not in ('Ref', 'Ref2', 'Equal'))
        child = list(cont.values())[0]
    elif where >= 1:
        child.__name__ = env.keyfree(tag + 'cname')
    if cls != 'Fixed' and env.bool(tag + 'sub'):
        sk = ('p' if cls == 'Aliased' else '') + env.keyfree(tag + 'sk')
        child[sk] = C()
    if where == 2:
        other = BaseNode(name='other')
        child.__parent__ = other
    uid = getattr(child, 'uuid', None)
    kinds = ['behavior', 'storage', 'outer']
    if cls == 'Fixed':
        kinds = ['readonly']
    else:
        kinds += ['class', 'nonnode']
    if cls in ('Ref', 'Ref2', 'Equal'):
        kinds.append('dup')
    if cls == 'Aliased':
        kinds.append('alias')
    kind = kinds[env.choice(tag + 'kind', len(kinds))]
    exc = EXC[env.choice(tag + 'exc', len(EXC) if not few else 4)] \
        if kind in ('behavior', 'storage', 'outer') else None
    val = child
    expect = (exc,) if exc else None
    if kind == 'class':
        val, expect = C, (ValueError,)
    elif kind == 'nonnode':
        val, expect = object(), (ValueError,)
    elif kind == 'readonly':
        expect = (NotImplementedError,)
    elif kind == 'dup':
        expect = (ValueError,)
        env.assume(len(cont) > 0)
        # a descendant of the child has the id of a contained node
        d = C()
        d.uuid = list(cont.values())[0].uuid
        child['dup'] = d
    elif kind == 'alias':
        expect = (KeyError,)
    methods = ['setitem', 'setdefault', 'update']
    if hasattr(cont, 'insertbefore') and kind in ('behavior', 'storage', 'dup') and where in (1, 2):
        methods += INSERT
    how = methods[env.choice(tag + 'how', len(methods))]
    key = env.keyfree(tag + 'key')
    if cls == 'Aliased':
        if kind == 'alias':
            env.assume(not key.startswith('p'))
        else:
            key = 'p' + key
    if how == 'setdefault':
        for k in list(cont.keys()):
            env.assume(not (k == key))
    pre = [snapshot(x) for x in (cont, child)]
    kids = [(k, snapshot(k)) for k in list(cont.values()) + list(child.values())]
    idx = [ids(x) for x in (cont, child)]
    kidx = [ids(k) for k, s in kids]
    if exc:
        cont.fault, cont.exc = kind, exc
    refs = list(cont.values())

    def attempt():
        if how == 'setitem':
            cont[key] = val
        elif how == 'setdefault':
            cont.setdefault(key, val)
        elif how == 'update':
            cont.update([(key, val)])
        elif how in ('insertfirst', 'insertlast'):
            for k in pre[0][2]:
                env.assume(not (k == child.__name__))
            getattr(cont, how)(child)
        else:
            env.assume(len(refs) > 0)
            for k in pre[0][2]:
                env.assume(not (k == child.__name__))
            getattr(cont, how)(child, refs[env.choice(tag + 'ref', len(refs))])
    if exc is KeyError and how in ('insertbefore', 'insertafter'):
        expect = (KeyError, ValueError)
    e, r = env.raises(attempt, *expect)
    cont.__dict__.pop('fault', None)
    t = '%s %s' % (kind, how)
    env.check(e is not None, t + ': the exception reaches the caller')
    same_snapshot(env, snapshot(cont), pre[0], t + ' container')
    same_snapshot(env, snapshot(child), pre[1], t + ' child')
    for k, s in kids:
        same_snapshot(env, snapshot(k), s, t + ' grandchild or sibling')
    env.same(getattr(child, 'uuid', None), uid, t + ': uuid')
    for x, i in list(zip((cont, child), idx)) + [(k, i) for (k, s), i in zip(kids, kidx)]:
        now = ids(x)
        env.check(len(now) == len(i) and all(
            any(a[0] == b[0] and a[1] is b[1] for b in i) for a in now), t + ': id lookup')
    if how == 'setitem' and kind in ('behavior', 'storage', 'outer'):
        # and it works when nothing fails
        cont[key] = child
        env.same(cont[key], child, 'later assignment')
        env.same(child.parent, cont, 'later assignment: parent')


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for c in CLASSES:
        for n in range(0, 3 if q else 5):
            if c == 'Fixed' and n or c in ('Falsy', 'Equal') and n > 1:
                continue
            out.append(dict(name='%s-%d' % (c, n), fn='run', kw=dict(cls=c, n=n, few=q and n == 2), weight=n + 1,
                            must_reach=['end'], budget=100 if q else 900))
        if not q:
            out.append(dict(name='%s-twice' % c, fn='run', kw=dict(cls=c, n=1, times=2), weight=20,
                            must_reach=['end'], budget=1200))
    return out
