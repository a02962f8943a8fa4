"""Child validation: nodes only, unless non-node children are allowed."""
from node.base import AttributedNode
from node.base import BaseNode
from node.base import Node
from node.base import OrderedNode
from node.behaviors import Adopt
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Lifecycle
from node.behaviors import NodeChildValidate
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors.attributes import NodeAttributes
from node.interfaces import INode
from node.utils import UNSET
from plumber import plumbing
from zope.interface import alsoProvides
from zope.interface import directlyProvides
from zope.interface import implementer
import uuid
from .common import new_keys, same_snapshot, snapshot

BOUNDS = dict(
    quick='8 container classes; non-node children allowed by class, by instance or not; 0..2 '
          'children with arbitrary keys, of which one may be overwritten; 20 kinds of values (nodes of 6 '
          'classes, objects providing INode directly, node classes, classes that '
          'provide INode themselves, plain classes, instances, text, numbers, None, UNSET, falsy '
          'and container values); every assignment operation, insertions for ordered containers',
    thorough='0..4 children and two assignments in a row')


@plumbing(NodeChildValidate, Adopt, Lifecycle, DefaultInit, Nodify, DictStorage)
class Live(object):
    pass


@plumbing(NodeChildValidate, Adopt, Order, DefaultInit, Nodify, OdictStorage)
class Orderable(object):
    pass


@plumbing(NodeChildValidate, DefaultInit, Nodify, OdictStorage)
class NoAdopt(object):
    pass


class SubNode(BaseNode):
    pass


@implementer(INode)
class Foreign(object):
    """A node that is not made by the behaviors."""
    __name__ = None
    __parent__ = None


class Plain(object):
    pass


class Duck(object):
    """Looks like a node, is none."""
    __name__ = 'duck'
    __parent__ = None
    name = 'duck'
    parent = None
    uuid = uuid.UUID(int=77)


class Falsy(object):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class ProvidingClass(object):
    """A class that itself provides INode."""
    __parent__ = None


directlyProvides(ProvidingClass, INode)


def provided():
    p = Plain()
    p.__name__ = None
    p.__parent__ = None
    alsoProvides(p, INode)
    return p


CLASSES = dict(BaseNode=BaseNode, OrderedNode=OrderedNode, Node=Node,
               AttributedNode=AttributedNode, Live=Live, Orderable=Orderable,
               NoAdopt=NoAdopt, NodeAttributes=NodeAttributes)
# (is a node, make)
VALUES = [
    (True, BaseNode), (True, OrderedNode), (True, Node), (True, SubNode), (True, Foreign),
    (True, provided),
    (True, lambda: NodeAttributes('x', AttributedNode())),
    (False, lambda: BaseNode), (False, lambda: SubNode), (False, lambda: Foreign),
    (False, lambda: ProvidingClass), (False, lambda: Plain), (False, lambda: type),
    (False, Plain), (False, Duck), (False, Falsy), (False, lambda: None),
    (False, lambda: UNSET), (False, lambda: 'text'), (False, lambda: 0),
    (False, lambda: {}), (False, lambda: [BaseNode()]), (False, lambda: INode)]
INSERT = ('insertbefore', 'insertafter', 'insertfirst', 'insertlast')


def run(env, cls, n, times=1):
    C = CLASSES[cls]
    if cls == 'NodeAttributes':
        cont = C('attrs', AttributedNode('ctx'))
        allow = env.choice('allow', 2) == 0
        if not allow:
            cont.allow_non_node_childs = False
    else:
        cont = C(name='cont')
        how = env.choice('allow', 3)
        allow = how > 0
        if how == 1:
            cont.allow_non_node_childs = True
        elif how == 2:
            class Sub(C):
                allow_non_node_childs = True
            cont = Sub(name='cont')
    keys = new_keys(env, n)
    for k in keys:
        cont[k] = Foreign() if cls == 'NoAdopt' else \
            (C(name=k) if cls != 'NodeAttributes' else BaseNode())
    for j in range(times):
        step(env, cls, cont, allow, j)
    env.reach('end')


def step(env, cls, cont, allow, j):
    isnode, make = VALUES[env.choice('value%d' % j, len(VALUES))]
    if cls in ('Node', 'AttributedNode') and isnode:
        # other properties say what trees of ids do
        env.assume(make in (Node, BaseNode, SubNode))
    val = make()
    if isnode:
        pre_val = (val.__name__, val.__parent__)
    before = snapshot(cont)
    kids = [(k, snapshot(k)) for k in before[3] if hasattr(k, 'keys')]
    methods = ['setitem', 'setdefault', 'update_map', 'update_pairs', 'update_kw']
    if hasattr(cont, 'insertbefore') and (make is Duck or make in (Node, BaseNode)):
        methods += INSERT
    how = methods[env.choice('how%d' % j, len(methods))]
    key = env.keyfree('key%d' % j)
    if how == 'setdefault':
        for k in before[2]:
            env.assume(not (k == key))
    if how in INSERT:
        env.assume(make is not BaseNode or cls not in ('Node', 'AttributedNode'))
        if make is Duck:
            val.name = key
        else:
            val.__name__ = key
            pre_val = (key, None)
        for k in before[2]:
            env.assume(not (k == key))
        if how in ('insertbefore', 'insertafter'):
            env.assume(len(before[2]) > 0)
        ref = before[3][env.choice('ref%d' % j, len(before[3]))] if before[3] else None

    def put():
        if how == 'setitem':
            cont[key] = val
        elif how == 'setdefault':
            env.same(cont.setdefault(key, val), val, 'setdefault result')
        elif how == 'update_map':
            cont.update({key: val})
        elif how == 'update_pairs':
            cont.update([(key, val)])
        elif how == 'update_kw':
            for bad in ('self', '_next', 'args', 'kw'):
                env.assume(not (key == bad))
            cont.update(**{key: val})
        elif how in ('insertbefore', 'insertafter'):
            getattr(cont, how)(val, ref)
        else:
            getattr(cont, how)(val)
    e, r = env.raises(put, ValueError)
    accept = allow or isnode
    env.check((e is None) == accept, '%s: accepted exactly when allowed' % how)
    if accept:
        env.same(cont[key], val, how + ': the identical object')
        env.check(any(v is val for v in cont.values()), how + ': listed')
    else:
        same_snapshot(env, snapshot(cont), before, how + ': refused: container')
        for k, s in kids:
            same_snapshot(env, snapshot(k), s, how + ': refused: child')
        if isnode:
            env.check(val.__name__ == pre_val[0] and val.__parent__ is pre_val[1],
                      how + ': refused: value')


def attrs(env, cls):
    """Attributes of nodes take any value."""
    node = CLASSES[cls](name='n')
    isnode, make = VALUES[env.choice('value', len(VALUES))]
    val = make()
    k = env.str('k')
    node.attrs[k] = val
    env.same(node.attrs[k], val, 'attribute value')
    env.same(node.attrs.get(k, object()), val, 'attribute value by get')
    env.samelist(node.attrs.values(), [val], 'attribute values')
    e, r = env.raises(lambda: node.__setitem__(env.keyfree('c'), object()), ValueError)
    env.check(e is not None, 'the node itself still refuses')
    env.reach('end')


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for c in CLASSES:
        for n in range(0, 3 if q else 5):
            out.append(dict(name='%s-%d' % (c, n), fn='run', kw=dict(cls=c, n=n), weight=n + 1,
                            must_reach=['end'], budget=100 if q else 900))
        if not q:
            out.append(dict(name='%s-twice' % c, fn='run', kw=dict(cls=c, n=1, times=2), weight=20,
                            must_reach=['end'], budget=1200))
    for c in ('Node', 'AttributedNode'):
        out.append(dict(name='%s-attrs' % c, fn='attrs', kw=dict(cls=c), must_reach=['end']))
    return out
