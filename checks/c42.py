"""Nodes do not share anything: what is done to one leaves all others as they are."""
from node.behaviors import Adopt
from node.behaviors import Alias
from node.behaviors import AsAttrAccess
from node.behaviors import Attributes
from node.behaviors import Cache
from node.behaviors import ChildFactory
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import EventAttribute
from node.behaviors import Events
from node.behaviors import Fallback
from node.behaviors import GetattrChildren
from node.behaviors import Invalidate
from node.behaviors import Lifecycle
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import Reference
from node.behaviors import UUIDAware
from node.behaviors import UnicodeAware
from node.behaviors import FixedChildren
from node.behaviors import UnknownEvent
from node.behaviors import VolatileStorageInvalidate
from node.behaviors.alias import PrefixAliaser
from odict import odict
from node.behaviors.events import UNSET
from node.base import BaseNode, OrderedNode
from plumber import plumbing
from .common import Ref, agree

BOUNDS = dict(
    quick='9 compositions that together use every behavior, each with a twin made of the same '
          'behaviors and a subclass; nodes of 0..1 children with arbitrary keys; two of 21 '
          'operations on one node with arbitrary keys or names (children, attributes, name spaces, '
          'ids, events, subscribers, aliaser, fallback, validation, factories, invalidation); then '
          'the state of every other node and of new ones',
    thorough='three operations')


STACKS = dict(
    full=(NodeChildValidate, Nodespaces, Adopt, Attributes, Reference, Order, AsAttrAccess,
          OdictStorage),
    events=(Events, Adopt, Nodespaces, Attributes, DictStorage),
    living=(Adopt, Lifecycle, Fallback, OdictStorage),
    cached=(Cache, VolatileStorageInvalidate, Adopt, DictStorage),
    deleting=(Adopt, Cache, Invalidate, Alias, OdictStorage),
    unicode=(UnicodeAware, Adopt, UUIDAware, NodeChildValidate, DictStorage),
    getattr=(GetattrChildren, Adopt, Nodespaces, Events, OdictStorage),
    factory=(Adopt, ChildFactory, Cache, Invalidate, OdictStorage),
    fixed=(FixedChildren, Adopt, OdictStorage),
)
OPS = ('set', 'del', 'setdefault', 'pop', 'clear', 'update', 'detach', 'insert', 'attr',
       'space', 'uuid', 'register', 'bind', 'unbind', 'evattr', 'aliaser', 'fallback', 'allow',
       'factories', 'invalidate', 'invalidateall')
MADE = {}


class Made(object):
    pass


def classes(name):
    """The class, a twin with the same behaviors and a subclass."""
    if name not in MADE:
        behaviors = STACKS[name]

        def dct():
            if FixedChildren in behaviors:
                return dict(fixed_children_factories=(('x', OrderedNode), ('y', BaseNode)))
            if Events in behaviors:
                return dict(ev=EventAttribute(0), ev2=EventAttribute(), __events__=['known'],
                            ev3=EventAttribute(storage='attrs' if Attributes in behaviors
                                               else '__dict__'))
            return {}

        out = []
        for i in range(2):
            out.append(plumbing(*(behaviors[:-1] + (DefaultInit, Nodify) + behaviors[-1:]))(
                type('%s%d' % (name, i), (object,), dct())))
        out.append(type(name + 'Sub', (out[0],), {}))
        MADE[name] = out
    return MADE[name]


def operate(env, tag, op, node, has, C, key, st):
    """One operation on a node."""
    if op in ('set', 'setdefault', 'update'):
        v = C(name='v')
        env.assume(ChildFactory not in has or op != 'setdefault')
        if op == 'set':
            node[key] = v
        elif op == 'setdefault':
            node.setdefault(key, v)
        else:
            node.update([(key, v)])
    elif op in ('del', 'pop', 'detach'):
        env.raises(lambda: dict({'del': lambda: node.__delitem__(key), 'pop': lambda: node.pop(key),
                                 'detach': lambda: node.detach(key)})[op](), KeyError)
    elif op == 'clear':
        env.assume(ChildFactory not in has)
        node.clear()
    elif op == 'insert':
        env.assume(Order in has)
        env.raises(lambda: node.insertfirst(C(name='ins' + key)), KeyError)
    elif op == 'attr':
        env.assume(Attributes in has)
        node.attrs[key] = 1
    elif op == 'space':
        env.assume(Nodespaces in has)
        node['__%s__' % key] = C(name='sp')
    elif op == 'uuid':
        env.assume(Reference in has or UUIDAware in has)
        uid = env.uuid('new' + tag)
        env.assume(uid.int < 2 ** 127)
        node.uuid = uid
    elif op in ('register', 'bind', 'unbind', 'evattr'):
        env.assume(Events in has)
        if op == 'register':
            node.register_event(key)
            if env.bool('then bind' + tag):
                node.bind(**{key: lambda *a: st['calls'].append('bound')})
        elif op == 'bind':
            node.bind(**{env.pick('event' + tag, ('known', 'ev', 'ev2', 'ev3')):
                         lambda *a: st['calls'].append('bound')})
        elif op == 'unbind':
            node.unbind()
        else:
            setattr(node, env.pick('attribute' + tag, ('ev', 'ev2', 'ev3')),
                    env.int('ev' + tag, 1, 9))
    elif op == 'aliaser':
        env.assume(Alias in has)
        node.aliaser = PrefixAliaser(key)
    elif op == 'fallback':
        env.assume(Fallback in has)
        node.fallback_key = key
    elif op == 'allow':
        env.assume(NodeChildValidate in has)
        node.allow_non_node_childs = True
        node[key] = 'text'
    elif op == 'factories':
        env.assume(ChildFactory in has)
        node.factories = odict()
        node.factories[key] = Made
        node[key]
    elif op in ('invalidate', 'invalidateall'):
        env.assume(Invalidate in has or VolatileStorageInvalidate in has)
        env.assume(ChildFactory not in has)
        if op == 'invalidate':
            env.raises(lambda: node.invalidate(key), KeyError)
        else:
            node.invalidate()


def fresh(env, x, has, ref, attrs, name, uid, key, st, all_, tag):
    """The node is in the state it was left in."""
    env.same(x.name, name, tag + ': name')
    env.same(x.parent, None, tag + ': parent')
    env.eqlist(list(x), ref.keys(), tag + ': keys')
    if ChildFactory not in has:
        agree(env, x, ref, tag, probe=key)
    for k, v in ref.items():
        env.same(x[k], v, tag + ': child')
        env.same(v.parent, x, tag + ': parent of the child')
    if Attributes in has:
        env.eqlist(list(x.attrs), [k for k, v in attrs], tag + ': attributes')
    if Nodespaces in has:
        spaces = [k for k in x.nodespaces if k not in ('__children__', '__attrs__')]
        env.eqlist(spaces, [], tag + ': name spaces')
        env.same(x.nodespaces['__children__'], x, tag + ': children')
    if Reference in has or UUIDAware in has:
        if uid is not None:
            env.same(x.uuid, uid, tag + ': id')
        for y in all_:
            env.check(y is x or not (y.uuid == x.uuid), tag + ': own id')
    if Reference in has:
        env.same(x.node(x.uuid), x, tag + ': found')
        for y in all_:
            if y is not x:
                env.same(x.node(y.uuid), None, tag + ': others are not found')
    if Events in has:
        del st['calls'][:]
        if not (key == 'known' or key == 'ev'):
            e, r = env.raises(lambda: x.bind(**{key: st['probe']}), UnknownEvent)
            env.check(e is not None, tag + ': unknown event')
        if not (key == 'known'):
            x.dispatch(key, 1)
        x.dispatch('known', 1)
        env.check(st['calls'] == st['expect'].get(id(x), []), tag + ': subscribers',
                  lambda: repr(st['calls']))
        for a in ('ev', 'ev2', 'ev3'):
            x.dispatch(a, 1)
        env.check(st['calls'] == st['expect'].get(id(x), []), tag + ': attribute subscribers',
                  lambda: repr(st['calls']))
        env.eq(x.ev, 0, tag + ': event attribute')
        for v in (x.ev2, x.ev3):
            env.check(v is UNSET, tag + ': event attribute is not set')
    if Alias in has:
        env.same(x.aliaser, None, tag + ': aliaser')
    if Fallback in has:
        env.check(isinstance(x.fallback_key, dict), tag + ': no fallback')
    if NodeChildValidate in has:
        e, r = env.raises(lambda: x.__setitem__('text', 'text'), ValueError)
        env.check(e is not None, tag + ': text refused')
    if ChildFactory in has:
        env.eq(len(x.factories), 0, tag + ': factories')
        e, r = env.raises(lambda: x[key], KeyError)
        env.check((e is None) == ref.has(key), tag + ': no factory')
    if Cache in has:
        env.check(set(x.cache) <= set(ref.keys() + [key]), tag + ': cache')


def run(env, name, n, nops):
    has = STACKS[name]
    A, Twin, Sub = classes(name)
    st = dict(calls=[], expect={}, probe=lambda *a: st['calls'].append('probe'))
    node = A(name='n')
    others = [A(name='o'), Twin(name='t'), Sub(name='s')]
    key = env.keyfree('key')
    if Events in has:
        # what the call itself takes: not a name of an event
        env.assume(not (key == 'self' or key == 'ev' or key == 'ev2' or key == 'ev3'))
    refs, attrs = [], []
    k = env.keyfree('k')
    for x in [node] + others:
        ref = Ref()
        at = []
        if n and ChildFactory not in has:
            v = type(x)(name='v')
            x[k] = v
            ref.set(k, v)
        if n and Attributes in has:
            x.attrs['a'] = 1
            at = [('a', 1)]
        if n and Events in has:
            x.bind(known=lambda *a: st['calls'].append('own'))
            st['expect'][id(x)] = ['own']
        refs.append(ref)
        attrs.append(at)
    ids = [x.uuid if Reference in has or UUIDAware in has else None for x in others]
    for j in range(nops):
        op = env.pick('op%d' % j, OPS)
        kk = key if not j else env.keyfree('key%d' % j)
        # what the operation itself does, or refuses, is the matter of other properties
        env.raises(lambda: operate(env, 'op%d' % j, op, node, has, A, kk, st), Exception)
    new = [A(name='n1'), Twin(name='n2'), Sub(name='n3')]
    all_ = [node] + others + new
    for x, ref, at, uid in zip(others, refs[1:], attrs[1:], ids):
        fresh(env, x, has, ref, at, x.name, uid, key, st, all_, x.name)
    for x in new:
        fresh(env, x, has, Ref(), [], x.name, None, key, st, all_, x.name)
    env.reach('end')


def fixed(env):
    """Fixed children are made for each node anew."""
    A, Twin, Sub = classes('fixed')
    node = A(name='n')
    others = [A(name='o'), Twin(name='t'), Sub(name='s')]
    which = env.pick('which', ('x', 'y'))
    key = env.key('key')
    op = env.pick('op', ('set', 'rename', 'reparent'))
    if op == 'set':
        node[which][key] = BaseNode()
    elif op == 'rename':
        node[which].__name__ = key
    else:
        node[which].__parent__ = others[0]
    for x in others + [A(name='a'), Twin(name='b'), Sub(name='c')]:
        env.check(list(x) == ['x', 'y'], x.name + ': keys')
        for k in 'xy':
            child = x[k]
            env.check(child is not node[k], x.name + ': own child')
            env.same(x[k], child, x.name + ': the same child again')
            env.eq(child.name, k, x.name + ': name of the child')
            env.same(child.parent, x, x.name + ': parent of the child')
            env.eqlist(list(child), [], x.name + ': children of the child')
            env.check(not (key in child), x.name + ': no such child')
    env.reach('end')


def scenarios(tier):
    q = tier == 'quick'
    out = [dict(name='fixed', fn='fixed', kw={}, must_reach=['end'], budget=100)]
    for name in sorted(set(STACKS) - set(['fixed'])):
        for n in (0, 1):
            out.append(dict(name='%s-%d' % (name, n), fn='run', weight=3, must_reach=['end'],
                            kw=dict(name=name, n=n, nops=2 if q else 3),
                            budget=150 if q else 900))
    return out
