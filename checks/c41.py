"""Errors reach the caller as they are, and the node goes on working."""
from node.base import BaseNode
from node.behaviors import Adopt
from node.behaviors import Alias
from node.behaviors import AsAttrAccess
from node.behaviors import Attributes
from node.behaviors import Cache
from node.behaviors import ChildFactory
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Events
from node.behaviors import Fallback
from node.behaviors import FixedChildren
from node.behaviors import GetattrChildren
from node.behaviors import Invalidate
from node.behaviors import Lifecycle
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import Reference
from node.behaviors import Storage
from node.behaviors import UnicodeAware
from node.behaviors import VolatileStorageInvalidate
from node.behaviors.alias import PrefixAliaser
from node.behaviors.events import EventAttribute
from node.interfaces import INode
from node.serializer import NodeDecoder
from node.serializer import NodeEncoder
from node.serializer import deserializer
from node.serializer import serializer
from node.utils import AttributeAccess
from node.utils import ReverseMapping
from node.utils import UNSET
from node.utils import node_by_path
from odict import odict
from plumber import Behavior
from plumber import default
from plumber import override
from plumber import plumb
from plumber import plumbing
from zope.interface import implementer
from zope.interface.common.mapping import IEnumerableMapping
import sys
from .common import Ref, agree, apply_op, new_keys

BOUNDS = dict(
    quick='14 compositions over a back end that fails in one of its four operations, at the first '
          'to third use, before the change is made, with an error of 6 kinds that is no missing key '
          '(among them siblings and bases of KeyError and errors that are no Exception); 22 '
          'operations with an arbitrary key on 0..2 entries (0..1 where keys are aliased); the same operation and all listings '
          'after the failure; views, factories, fallbacks, aliasers, '
          'ordering, serializers, modules, event and attribute handlers that fail',
    thorough='0..3 entries')


class Failed(Exception):
    pass


class Stop(BaseException):
    pass


KINDS = (Failed, LookupError, IndexError, ValueError, OSError, Stop)
ANY = (Exception, Stop)


class Fault(object):
    """Fails on the n-th use of an operation."""

    single = False

    def __init__(self):
        self.what = None

    def arm(self, what, n, exc):
        self.what, self.n, self.exc, self.fired = what, n, exc, False

    def off(self):
        self.what = None

    def changed(self):
        """The change was made, no failure afterwards."""
        if self.single:
            self.what = None

    def hit(self, what):
        if self.what == what and not self.fired:
            self.n -= 1
            if self.n < 0:
                self.fired = True
                raise self.exc


class Store(object):
    """Association list."""

    def __init__(self, fault):
        self.fault = fault
        self.e = []

    def find(self, key):
        for i, (k, v) in enumerate(self.e):
            if k is key or k == key:
                return i

    def __getitem__(self, key):
        self.fault.hit('get')
        i = self.find(key)
        if i is None:
            raise KeyError(key)
        return self.e[i][1]

    def __setitem__(self, key, val):
        self.fault.hit('set')
        i = self.find(key)
        if i is None:
            self.e.append((key, val))
        else:
            self.e[i] = (key, val)
        self.fault.changed()

    def __delitem__(self, key):
        self.fault.hit('del')
        i = self.find(key)
        if i is None:
            raise KeyError(key)
        del self.e[i]
        self.fault.changed()

    def __iter__(self):
        self.fault.hit('iter')
        for k, v in list(self.e):
            yield k

    def keys(self):
        return list(self)


class FaultStorage(Storage):
    @default
    @property
    def storage(self):
        if '_store' not in self.__dict__:
            self.__dict__['fault'] = Fault()
            self.__dict__['_store'] = Store(self.__dict__['fault'])
        return self.__dict__['_store']


@plumbing(DefaultInit, Nodify, FaultStorage)
class Bare(object):
    pass


@plumbing(Adopt, DefaultInit, Nodify, FaultStorage)
class Adopting(object):
    pass


@plumbing(NodeChildValidate, Adopt, DefaultInit, Nodify, FaultStorage)
class Validating(object):
    pass


@plumbing(Alias, Adopt, DefaultInit, Nodify, FaultStorage)
class Aliased(object):
    pass


@plumbing(Alias, DefaultInit, Nodify, FaultStorage)
class Prefixed(object):
    aliaser = PrefixAliaser('p-')


@plumbing(Cache, Invalidate, DefaultInit, Nodify, FaultStorage)
class Cached(object):
    pass


@plumbing(Adopt, Cache, VolatileStorageInvalidate, DefaultInit, Nodify, FaultStorage)
class CachedVolatile(object):
    pass


@plumbing(Nodespaces, Attributes, Adopt, DefaultInit, Nodify, FaultStorage)
class Spaces(object):
    pass


@plumbing(Adopt, Reference, DefaultInit, Nodify, FaultStorage)
class Referenced(object):
    pass


@plumbing(Adopt, Lifecycle, DefaultInit, Nodify, FaultStorage)
class Living(object):
    pass


@plumbing(UnicodeAware, Adopt, DefaultInit, Nodify, FaultStorage)
class Uni(object):
    pass


@plumbing(Fallback, Adopt, DefaultInit, Nodify, FaultStorage)
class Back(object):
    fallback_key = 'fb'


@plumbing(GetattrChildren, AsAttrAccess, Adopt, DefaultInit, Nodify, FaultStorage)
class Attr(object):
    pass


@plumbing(Cache, Alias, NodeChildValidate, Adopt, Invalidate, Nodespaces, DefaultInit, Nodify,
          FaultStorage)
class Many(object):
    aliaser = PrefixAliaser('p-')


CLASSES = dict((c.__name__, c) for c in (
    Bare, Adopting, Validating, Aliased, Prefixed, Cached, CachedVolatile, Spaces, Referenced,
    Living, Uni, Back, Attr, Many))
PREFIX = ('Prefixed', 'Many')
LIST = ('iter', 'keys', 'values', 'items', 'len', 'bool', 'filtered', 'treerepr')
MAP = ('set', 'del', 'get', 'getd', 'in', 'setdefault', 'pop', 'popd', 'popitem',
       'update_pairs', 'clear', 'has_key', 'item', 'detach')
FAULTS = ('get', 'set', 'del', 'iter')


def run(env, op, node, key, val, tag):
    """The bare operation."""
    if op == 'set':
        node[key] = val
    elif op == 'del':
        del node[key]
    elif op == 'item':
        return node[key]
    elif op == 'detach':
        return node.detach(key)
    elif op == 'get':
        return node.get(key)
    elif op == 'getd':
        return node.get(key, val)
    elif op == 'in':
        return key in node
    elif op == 'has_key':
        return node.has_key(key)
    elif op == 'setdefault':
        return node.setdefault(key, val)
    elif op == 'pop':
        return node.pop(key)
    elif op == 'popd':
        return node.pop(key, val)
    elif op == 'popitem':
        return node.popitem()
    elif op == 'update_pairs':
        return node.update([(key, val)])
    elif op == 'clear':
        return node.clear()
    elif op == 'iter':
        return [k for k in node]
    elif op == 'keys':
        return node.keys()
    elif op == 'values':
        return node.values()
    elif op == 'items':
        return node.items()
    elif op == 'len':
        return len(node)
    elif op == 'bool':
        return [v for v in node.itervalues()] + [v for k, v in node.iteritems()]
    elif op == 'filtered':
        return node.filteredvalues(INode)
    elif op == 'treerepr':
        return node.treerepr()


def content(node, cls):
    """What the back end holds, under the keys of the node."""
    pre = 'p-' if cls in PREFIX else ''
    return Ref([(pre + k if pre else k, v) for k, v in node.storage.e])


def mapping(env, cls, n, ops, kinds):
    kinds = KINDS[:kinds]
    C = CLASSES[cls]
    node = C(name='root')
    node.storage
    fault = node.fault
    val, val2 = C(name='x'), C(name='y')
    keys = new_keys(env, n, kind='key')
    key = env.key('key')
    if cls in PREFIX:
        for k in keys + [key]:
            env.assume(k.startswith('p-') and not k.startswith('p-_'))
    if cls == 'Back':
        for k in keys + [key]:
            env.assume(not (k == 'fb'))
    for j, k in enumerate(keys):
        node[k] = C(name='old')
    if n and cls in ('Cached', 'CachedVolatile', 'Many') and env.bool('read'):
        node[keys[0]]
    op = env.pick('op', ops)
    exc = env.pick('kind', kinds)('injected')
    fault.arm(env.pick('fault', FAULTS), env.choice('nth', 3), exc)
    before = content(node, cls)
    fault.single = op != 'clear'
    e, r = env.raises(lambda: run(env, op, node, key, val, 'op'), *ANY)
    fired = fault.fired
    fault.off()
    if fired:
        env.same(e, exc, op + ': the error itself')
        if op != 'clear':
            now = content(node, cls)
            env.eqlist(now.keys(), before.keys(), op + ': back end unchanged')
            env.samelist(now.values(), before.values(), op + ': back end unchanged')
        env.reach('failed')
    else:
        env.check(e is None or isinstance(e, KeyError), op + ': no error of its own',
                  lambda: repr(e))
        return
    ref = content(node, cls)
    agree(env, node, ref, 'after the failure', full=False)
    if op in MAP:
        if op in ('item', 'detach'):
            has = ref.has(key)
            e, r = env.raises(lambda: run(env, op, node, key, val, 'again'), KeyError)
            env.check((e is None) == has, 'again: KeyError exactly when missing')
            if has:
                env.same(r, ref.get(key), 'again: result')
                if op == 'detach':
                    ref.delete(key)
        else:
            apply_op(env, op, node, ref, key, val, 'again', None, val2)
    agree(env, node, ref, 'after the second attempt', probe=key)
    if cls not in ('Bare', 'Prefixed', 'Cached'):
        for k, v in content(node, cls).items():
            env.same(v.parent, node, 'parent')
    env.reach('end')


def attributes(env, n, what):
    """Children and entries as attributes."""
    if what == 'children':
        node = Attr(name='root')
        m, get = node, node
        node.storage
        fault = node.fault
    else:
        fault = Fault()
        if what == 'store':
            m = Store(fault)
        else:
            m = Attr(name='root')
            m.storage
            fault = m.fault
        get = AttributeAccess(m) if what == 'store' else m.as_attribute_access()
    ref = Ref()
    keys = new_keys(env, n, kind='keyfree')
    name = env.keyfree('name')
    for k in keys + [name]:
        for x in dir(Attr) + ['_store', 'fault', 'context']:
            env.assume(not (k == x))
    for k in keys:
        v = Attr(name='v')
        m[k] = v
        ref.set(k, v)
    op = env.pick('op', ('get', 'default', 'has') if what == 'children' else
                  ('get', 'default', 'has', 'set', 'item', 'setitem', 'delitem'))
    exc = env.pick('kind', KINDS)('injected')
    fault.arm(dict(set='set', setitem='set', delitem='del').get(op, 'get'), 0, exc)
    v = Attr(name='v')
    call = dict(get=lambda: env.getattr(get, name), default=lambda: env.getattr(get, name, None),
                has=lambda: env.hasattr(get, name), set=lambda: env.setattr(get, name, v),
                item=lambda: get[name], setitem=lambda: get.__setitem__(name, v),
                delitem=lambda: get.__delitem__(name))[op]
    e, r = env.raises(call, *ANY)
    env.check(fault.fired, op + ': back end asked')
    env.same(e, exc, op + ': the error itself')
    fault.off()
    has = ref.has(name)
    e, r = env.raises(call, AttributeError, KeyError)
    if op in ('get', 'item', 'delitem'):
        env.check((e is None) == has, op + ': again')
        if has and op != 'delitem':
            env.same(r, ref.get(name), op + ': again')
        if op == 'delitem':
            ref.delete(name)
    elif op == 'default':
        env.same(r, ref.get(name), op + ': again')
    elif op == 'has':
        env.check(r is has, op + ': again')
    else:
        ref.set(name, v)
    got = m.e if what == 'store' else m.storage.e
    env.eqlist([x[0] for x in got], ref.keys(), 'keys')
    env.samelist([x[1] for x in got], ref.values(), 'values')
    env.reach('end')


class Sized(Store):
    def __len__(self):
        return sum(1 for k in self)

    def items(self):
        for k in self:
            yield k, self[k]


def reverse(env, n):
    fault = Fault()
    m = Sized(fault)
    keys = new_keys(env, n, kind='keyfree')
    vals = [env.str('v%d' % j) for j in range(n)]
    for k, v in zip(keys, vals):
        m[k] = v
    r = ReverseMapping(m)
    probe = env.str('probe')
    op = env.pick('op', ('item', 'get', 'default', 'in', 'keys', 'values', 'items', 'len'))
    exc = env.pick('kind', KINDS)('injected')
    d = object()

    def call():
        if op == 'item':
            return r[probe]
        if op == 'get':
            return r.get(probe)
        if op == 'default':
            return r.get(probe, d)
        if op == 'in':
            return probe in r
        if op == 'len':
            return len(r)
        return getattr(r, op)()

    exp = None
    for k, v in zip(keys, vals):
        if v == probe:
            exp = (k,)
            break
    fault.arm(env.pick('fault', ('get', 'iter')), env.choice('nth', 2), exc)
    e, x = env.raises(call, *ANY)
    if fault.fired:
        env.same(e, exc, op + ': the error itself')
        env.reach('failed')
    fault.off()
    e, x = env.raises(call, KeyError)
    if op == 'item':
        env.check((e is None) == (exp is not None), 'again: KeyError exactly when missing')
    if op in ('item', 'get', 'default') and exp is not None:
        env.eq(x, exp[0], 'again')
    elif op in ('get', 'default'):
        env.same(x, d if op == 'default' else None, 'again')
    elif op == 'in':
        env.check(x is (exp is not None), 'again')
    elif op == 'len':
        env.eq(x, n, 'again')
    env.reach('end')


@plumbing(Adopt, ChildFactory, DefaultInit, Nodify, FaultStorage)
class Made(object):
    pass


def factories(env, what, n):
    """Factories that fail."""
    exc = env.pick('kind', KINDS)('injected')
    bad = env.choice('bad', n)
    keys = new_keys(env, n, kind='keyfree')
    state = dict(fail=True)
    made = []

    def factory(j):
        def make(name=None, parent=None):
            if j == bad and state['fail']:
                raise exc
            made.append(j)
            return BaseNode(name=name, parent=parent)
        return make

    if what == 'child':
        fs = odict()
        for j, k in enumerate(keys):
            fs[k] = factory(j)
        node = Made(name='n')
        node.factories = fs
        key = keys[bad]
        node.storage
        if env.bool('storage'):
            # the storage fails, the factories do not
            state['fail'] = False
            node.fault.arm(env.pick('fault', ('get', 'set')), 0, exc)
        op = env.pick('op', ('item', 'get', 'in', 'values', 'items', 'setdefault', 'pop',
                             'detach'))
        call = dict(item=lambda: node[key], get=lambda: node.get(key), values=node.values,
                    items=node.items, setdefault=lambda: node.setdefault(key, None),
                    pop=lambda: node.pop(key, None), detach=lambda: node.detach(key),
                    **{'in': lambda: key in node})[op]
        e, r = env.raises(call, *ANY)
        if op == 'in':
            env.check(e is None or e is exc, 'in: the error itself')
            if e is None:
                env.check(r is True, 'in: key of a factory')
        else:
            env.same(e, exc, op + ': the error itself')
        env.check(not any(k is key or k == key for k, v in node.storage.e), 'nothing stored')
        if node.fault.what == 'get' and op != 'in':
            env.check(not made, 'nothing made')
        node.fault.off()
        state['fail'] = False
        del made[:]
        n -= len(node.storage.e)
        env.eqlist(list(node), keys, 'keys')
        vals = node.values()
        env.eqlist([v.name for v in vals], keys, 'children')
        for v in vals:
            env.same(v.parent, node, 'parent')
        env.samelist(node.values(), vals, 'made once')
        env.eq(len(made), n, 'each made once')
    elif what == 'fixed':
        fixed = [(k, factory(j)) for j, k in enumerate(keys)]

        @plumbing(FixedChildren, DefaultInit, Nodify)
        class Fixed(object):
            fixed_children_factories = fixed
        e, r = env.raises(lambda: Fixed(name='n'), *ANY)
        env.same(e, exc, 'the error itself')
        state['fail'] = False
        node = Fixed(name='n')
        env.eqlist(list(node), keys, 'keys')
        env.eqlist([v.name for v in node.values()], keys, 'children')
    else:
        @plumbing(Nodespaces, Attributes, DefaultInit, Nodify, OdictStorage)
        class WithAttrs(object):
            attributes_factory = staticmethod(factory(bad))
        node = WithAttrs(name='n')
        e, r = env.raises(lambda: node.attrs, *ANY)
        env.same(e, exc, 'the error itself')
        state['fail'] = False
        attrs = node.attrs
        val = attrs[keys[0]] = BaseNode()
        env.same(node.attrs, attrs, 'one mapping')
        env.same(node.attrs[keys[0]], val, 'attribute')
        env.eqlist(list(node), [], 'children')
    env.reach('end')


def fallback(env):
    """A lookup in a fallback that fails."""
    root = Back(name='root')
    fbname, sub, leaf, key = new_keys(env, 4, kind='key')
    root.fallback_key = fbname
    fb = root[fbname] = Back(name='fb')
    node = root[sub] = Back(name='s')
    target = fb[leaf] = Back(name='t')
    for x in (fb, node, target):
        x.fallback_key = None
    exc = env.pick('kind', KINDS)('injected')
    who = env.pick('who', (root, fb, node))
    who.storage
    who.fault.arm('get', 0, exc)
    op = env.pick('op', ('item', 'get', 'in'))
    call = dict(item=lambda: node[leaf], get=lambda: node.get(leaf),
                **{'in': lambda: leaf in node})[op]
    e, r = env.raises(call, *ANY)
    if who.fault.fired:
        env.same(e, exc, 'the error itself')
        env.reach('failed')
    who.fault.off()
    if op != 'in':
        env.same(node[leaf], target, 'found')
        env.same(node.get(leaf), target, 'found by get')
    env.same(node.get(key, exc), exc, 'missing key')
    e, r = env.raises(lambda: node[key], KeyError)
    env.check(e is not None, 'missing key')
    # a path of keys
    root.fault.arm('get', 0, exc)
    e, r = env.raises(lambda: node_by_path(root, [fbname, leaf]), *ANY)
    env.same(e, exc, 'path: the error itself')
    root.fault.off()
    env.same(node_by_path(root, [fbname, leaf]), target, 'path')
    env.reach('end')


@plumbing(Events, DefaultInit, Nodify, DictStorage)
class Announcing(object):
    pass


def handlers(env, n):
    """Event handlers that fail."""
    node = Announcing(name='n')
    node.register_event('ev')
    exc = env.pick('kind', KINDS)('injected')
    bad = env.choice('bad', n)
    state = dict(fail=True)
    got = []

    def handler(j):
        def handle(value):
            got.append(j)
            env.same(value, arg, 'argument')
            if j == bad and state['fail']:
                raise exc
        return handle
    arg = env.str('arg')
    for j in range(n):
        node.bind(ev=handler(j))
    e, r = env.raises(lambda: node.dispatch('ev', arg), *ANY)
    env.same(e, exc, 'the error itself')
    env.check(got == list(range(bad + 1)), 'those before were called')
    state['fail'] = False
    del got[:]
    node.dispatch('ev', arg)
    env.check(got == list(range(n)), 'every handler, once, in order', lambda: repr(got))
    env.reach('end')


class FailingAliaser(object):
    """Prefixes; fails for one key."""

    def __init__(self):
        self.bad = None

    def alias(self, key):
        if self.bad and self.bad[0] == 'alias' and key == self.bad[1]:
            raise self.bad[2]
        return 'p-' + key

    def unalias(self, key):
        if self.bad and self.bad[0] == 'unalias' and key == self.bad[1]:
            raise self.bad[2]
        if not key.startswith('p-'):
            raise KeyError(key)
        return key[2:]


@implementer(IEnumerableMapping)
class Listing(FailingAliaser):
    pass


def aliaser(env, what, n):
    node = Prefixed(name='n')
    node.storage
    al = node.aliaser = (Listing if what == 'listing' else FailingAliaser)()
    inner = new_keys(env, n, kind='keyfree')
    ref = Ref()
    for k in inner:
        v = BaseNode(name='v')
        node['p-' + k] = v
        ref.set('p-' + k, v)
    exc = env.pick('kind', KINDS)('injected')
    op = env.pick('op', ('item', 'set', 'del', 'get', 'in', 'setdefault', 'pop', 'detach') +
                  LIST[:4])
    if op in LIST:
        bad = inner[env.choice('bad', n)]
        al.bad = ('alias', bad, exc)
    else:
        bad = ref.keys()[env.choice('bad', n)]
        al.bad = ('unalias', bad, exc)
    v = BaseNode(name='v')
    e, r = env.raises(lambda: run(env, op, node, bad, v, 'op'), *ANY)
    if op == 'in':
        env.check(e is exc or (e is None and r is True), 'in: the error itself or the answer')
    else:
        env.same(e, exc, op + ': the error itself')
    al.bad = None
    agree(env, node, ref, 'unchanged')
    env.reach('end')


class FaultOdict(odict):
    fault = None

    def insertbefore(self, *a):
        self.fault.hit('before')
        super(FaultOdict, self).insertbefore(*a)

    def insertafter(self, *a):
        self.fault.hit('after')
        super(FaultOdict, self).insertafter(*a)

    def swap(self, *a):
        self.fault.hit('swap')
        super(FaultOdict, self).swap(*a)


class Refusing(Behavior):
    @plumb
    def __setitem__(_next, self, key, val):
        self.fault.hit('set')
        _next(self, key, val)


@plumbing(Order, Refusing, Adopt, DefaultInit, Nodify, OdictStorage)
class Ordered(object):
    pass


def order(env, n):
    node = Ordered(name='n')
    fault = node.fault = Fault()
    node._storage = FaultOdict()
    node._storage.fault = fault
    keys = new_keys(env, n, kind='keyfree')
    ref = Ref()
    for k in keys:
        v = node[k] = BaseNode()
        ref.set(k, v)
    name = env.keyfree('name')
    for k in keys:
        env.assume(not (k == name))
    new = BaseNode(name=name)
    exc = env.pick('kind', KINDS)('injected')
    at = env.choice('ref', n)
    rnode = node[keys[at]]
    op = env.pick('op', ('insertfirst', 'insertlast', 'insertbefore', 'insertafter', 'swap'))

    def call():
        if op in ('insertfirst', 'insertlast'):
            getattr(node, op)(new)
        elif op == 'swap':
            node.swap(node[keys[at - 1]], rnode)
        else:
            getattr(node, op)(new, rnode)
    fault.arm(env.pick('fault', ('before', 'after', 'set', 'swap')), 0, exc)
    e, r = env.raises(call, *ANY)
    if fault.fired:
        env.same(e, exc, op + ': the error itself')
        env.reach('failed')
    else:
        env.same(e, None, op + ': done')
        return
    fault.off()
    agree(env, node, ref, op + ': unchanged')
    env.same(new.parent, None, 'parent')
    e, r = env.raises(call, *ANY)
    env.same(e, None, 'again')
    env.eq(len(node), n + (op != 'swap'), 'again')
    if op != 'swap':
        env.same(node[name], new, 'again')
        env.same(new.parent, node, 'again: parent')
    env.reach('end')


def subtree(env):
    """A node of the removed subtree cannot be read."""
    root = Referenced(name='root')
    k0, k1, k2 = new_keys(env, 3, kind='keyfree')
    a = root[k0] = Referenced(name='a')
    b = a[k1] = Referenced(name='b')
    c = b[k2] = Referenced(name='c')
    c.storage
    exc = env.pick('kind', KINDS)('injected')
    who = env.pick('who', (a, b, c))
    who.fault.arm(env.pick('fault', ('get', 'iter')), 0, exc)
    op = env.pick('op', ('del', 'pop', 'detach', 'popitem', 'clear'))
    e, r = env.raises(lambda: run(env, op, root, k0, None, 'op'), *ANY)
    if who.fault.fired:
        env.same(e, exc, op + ': the error itself')
        env.samelist(root.storage.e[0], (root.storage.e[0][0], a), 'still there')
        for x in (root, a, b, c):
            env.same(root.node(x.uuid), x, 'still known')
        env.reach('failed')
    else:
        env.same(e, None, op + ': done')
        return
    who.fault.off()
    run(env, op, root, k0, None, 'again')
    env.eqlist(list(root), [], 'again: removed')
    for x in (a, b, c):
        env.same(root.node(x.uuid), None, 'again: unknown')
        env.same(a.node(x.uuid), x, 'again: known in its tree')
    env.reach('end')


class Finder(object):
    def __init__(self, exc):
        self.exc = exc

    def find_spec(self, name, path=None, target=None):
        if name.startswith('c41_broken'):
            raise self.exc


def serializing(env):
    """Serializers and modules that fail."""
    exc = env.pick('kind', KINDS)('injected')
    what = env.pick('what', ('encode', 'decode', 'module', 'submodule', 'children'))
    name, k = env.str('name'), env.key('k')
    if what in ('module', 'submodule'):
        f = Finder(exc)
        sys.meta_path.insert(0, f)
        try:
            mod = 'c41_broken' if what == 'module' else 'c41_broken.sub'
            data = dict(__node__={'class': mod + '.Cls', 'name': name})
            e, r = env.raises(lambda: NodeDecoder().decode(data), *ANY)
        finally:
            sys.meta_path.remove(f)
        env.same(e, exc, what + ': the error itself')
        env.reach('end')
        return
    if what == 'children':
        node = Bare(name=name)
        node.storage
        node[k] = Bare(name=k)
        node.fault.arm(env.pick('fault', ('get', 'iter')), 0, exc)
        e, r = env.raises(lambda: NodeEncoder().default(node), *ANY)
        env.same(e, exc, what + ': the error itself')
        node.fault.off()
        data = NodeEncoder().default(node)
        env.eq(data['__node__']['name'], name, 'again')
        env.eq(len(data['__node__']['children']), 1, 'again')
        env.reach('end')
        return
    reg = serializer.registry if what == 'encode' else deserializer.registry

    def broken(coder, node, data):
        if state['fail']:
            raise exc
        data['seen'] = True
    state = dict(fail=True)
    node = BaseNode(name=name)
    node[k] = BaseNode()
    data = NodeEncoder().default(node)

    def call():
        if what == 'encode':
            return NodeEncoder().default(node)
        return NodeDecoder().decode(data)
    reg[BaseNode] = broken
    try:
        e, r = env.raises(call, *ANY)
        env.same(e, exc, what + ': the error itself')
        state['fail'] = False
        r = call()
    finally:
        del reg[BaseNode]
    if what == 'encode':
        env.check(r['__node__']['seen'] is True, 'again')
    else:
        env.eq(r.name, name, 'again')
        env.eqlist(list(r), [k], 'again')
    env.reach('end')


@plumbing(Events, DefaultInit, Nodify, DictStorage)
class WithAttribute(object):
    attr = EventAttribute(0)
    other = EventAttribute(0)
    log = None
    fail = None

    @attr.subscriber
    def attr_changed(self, value):
        self.log.append(('decorated', value))
        if self.fail and self.fail[0] == 'decorated':
            raise self.fail[1]

    @other.subscriber
    def other_changed(self, value):
        self.log.append(('other', value))


def attribute(env):
    """Subscribers of attributes that fail."""
    node = WithAttribute(name='n')
    log = node.log = []
    exc = env.pick('kind', KINDS)('injected')

    def bound(value):
        log.append(('bound', value))
        if node.fail and node.fail[0] == 'bound':
            raise node.fail[1]
    node.bind(attr=bound)
    node.fail = (env.pick('who', ('bound', 'decorated')), exc)
    v, w, x = env.int('v', 1, 9), env.int('w', 1, 9), env.int('x', 1, 9)
    e, r = env.raises(lambda: setattr(node, 'attr', v), *ANY)
    env.same(e, exc, 'the error itself')
    env.eq(node.attr, v, 'value')
    del log[:]
    node.fail = None
    node.other = w
    env.check([i[0] for i in log] == ['other'], 'the other attribute', lambda: repr(log))
    del log[:]
    node.dispatch('attr', x)
    env.check([i[0] for i in log] == ['bound'], 'plain dispatch', lambda: repr(log))
    del log[:]
    node.attr = x
    exp = [] if x == v else ['bound', 'decorated']
    env.check(sorted(i[0] for i in log) == exp, 'again', lambda: repr(log))
    for i in log:
        env.eq(i[1], x, 'again: value')
    env.reach('end')


def scenarios(tier):
    q = tier == 'quick'
    out = []
    for cls in sorted(CLASSES):
        for name, ops in (('map', MAP), ('list', LIST)):
            for n in range(0 if name == 'map' else 1,
                           2 + (not q) if cls in PREFIX else 3 if q else 4):
                out.append(dict(
                    name='%s-%s-%d' % (cls, name, n), fn='mapping', weight=2 + 2 * n,
                    must_reach=['failed', 'end'],
                    kw=dict(cls=cls, n=n, ops=[o for o in ops if n < 2 or o != 'treerepr'], kinds=len(KINDS) if n == 1 and cls != 'Many' else 2),
                    budget=150 if q else 900))
    for what in ('children', 'store', 'node'):
        out.append(dict(name='attributes-' + what, fn='attributes', weight=2, must_reach=['end'],
                        kw=dict(n=1 if q else 2, what=what), budget=150 if q else 900))
    out.append(dict(name='reverse', fn='reverse', weight=2, must_reach=['end', 'failed'],
                    kw=dict(n=2 if q else 3), budget=150 if q else 900))
    for what in ('child', 'fixed', 'attrs'):
        out.append(dict(name='factories-' + what, fn='factories', weight=2, must_reach=['end'],
                        kw=dict(what=what, n=2 if q else 3), budget=150 if q else 900))
    out.append(dict(name='fallback', fn='fallback', weight=2, must_reach=['end', 'failed'],
                    kw=dict(), budget=150 if q else 900))
    for what in ('listing', 'plain'):
        out.append(dict(name='aliaser-' + what, fn='aliaser', weight=2, must_reach=['end'],
                        kw=dict(what=what, n=2 if q else 3), budget=150 if q else 900))
    out.append(dict(name='order', fn='order', weight=2, must_reach=['end', 'failed'],
                    kw=dict(n=2 if q else 3), budget=150 if q else 900))
    for fn in ('subtree', 'serializing', 'attribute'):
        out.append(dict(name=fn, fn=fn, weight=2, must_reach=['end'], kw=dict(),
                        budget=150 if q else 900))
    out.append(dict(name='handlers', fn='handlers', weight=1, must_reach=['end'],
                    kw=dict(n=3), budget=150 if q else 900))
    return out
