"""Attribute changes announce exactly one modification of the owner."""
from node.base import BaseNode
from node.behaviors import Adopt
from node.behaviors import Attributes
from node.behaviors import AttributesLifecycle
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Lifecycle
from node.behaviors import NodeAttributes
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import Reference
from plumber import Behavior
from plumber import default
from plumber import plumb
from plumber import plumbing
from .c18 import Failed
from .c18 import REC
from .common import ODD, Ref, agree, new_keys

BOUNDS = dict(
    quick='3 classes (mapping or attribute access, validated or not, full node); 0..2 attributes '
          'with arbitrary names; histories of 1..2 operations out of 19 with arbitrary names: every way '
          'to set, delete and read attributes, failures of the attribute storage before and '
          'after its change, of a subscriber, of a child operation, children detached, '
          'attributes of another node changed during a detach; then once more set and deleted',
    thorough='histories of 3 operations over 0..1 attributes')


class Fault(Behavior):
    fail = default(None)

    @plumb
    def __setitem__(_next, self, key, val):
        if self.fail == 'before':
            raise Failed('before')
        _next(self, key, val)
        if self.fail == 'after':
            raise Failed('after')

    @plumb
    def __delitem__(_next, self, key):
        if self.fail == 'before':
            raise Failed('before')
        _next(self, key)
        if self.fail == 'after':
            raise Failed('after')


@plumbing(AttributesLifecycle, Fault)
class LAttrs(NodeAttributes):
    pass


@plumbing(NodeChildValidate, AttributesLifecycle, Adopt, Fault, DefaultInit, Nodify, DictStorage)
class VAttrs(object):
    """Attributes that are nodes only."""


class Hook(Behavior):
    hook = default(None)

    @plumb
    def __delitem__(_next, self, key):
        _next(self, key)
        if self.hook is not None:
            fn, self.hook = self.hook, None
            fn()

    @plumb
    def __setitem__(_next, self, key, val):
        if key == 'refuse':
            raise Failed('refused')
        _next(self, key, val)


@plumbing(Nodespaces, Attributes, Lifecycle, Hook, DefaultInit, Nodify, DictStorage)
class Plain(object):
    attributes_factory = LAttrs


@plumbing(Nodespaces, Attributes, Lifecycle, Hook, DefaultInit, Nodify, DictStorage)
class Access(object):
    attributes_factory = LAttrs
    attribute_access_for_attrs = True


@plumbing(NodeChildValidate, Nodespaces, Adopt, Attributes, Lifecycle, Reference, Order, Hook,
          DefaultInit, Nodify, OdictStorage)
class Full(object):
    attributes_factory = VAttrs


CLASSES = dict(Plain=Plain, Access=Access, Full=Full)
OPS = ('set', 'del', 'pop', 'popd', 'popitem', 'clear', 'update', 'setdefault', 'read', 'list',
       'fail', 'invalid', 'subscriber', 'children', 'detach', 'faildetach', 'hook', 'other', 'get')


class State(object):
    pass


def compare(st, tag):
    env = st.env
    log = [l for l in REC.log if l[0] == 'modified']
    env.check(len(log) == len(st.exp), tag + ': number of modified events',
              lambda: '%d, expected %d' % (len(log), len(st.exp)))
    for g, e in zip(log, st.exp):
        env.same(g[1], e, tag + ': owner')
    REC.log = []
    st.exp = []


def mapping(st, node=None):
    """The attributes as a mapping."""
    return (node or st.node).nodespaces['__attrs__']


def run(env, cls, n, nops, first=None, ops=OPS):
    REC.reset()
    C = CLASSES[cls]
    st = State()
    st.env, st.cls, st.exp, st.ref, st.nops = env, cls, [], Ref(), nops
    st.root = C(name='root')
    st.node = st.root['n'] = C()
    st.other = C(name='o')
    st.child = st.node['c'] = C()
    st.node.attrs, st.other.attrs
    compare(st, 'new')
    for k in new_keys(env, n, kind='keyfree'):
        put(st, k, value(st, k))
        compare(st, 'set')
    ops = [o for o in ops if o != 'invalid' or cls == 'Full']
    for j in range(nops):
        op = first if first and not j else ops[env.choice('op%d' % j, len(ops))]
        step(env, st, op, j)
        compare(st, 'op%d %s' % (j, op))
    put(st, 'last', value(st, 'last'))
    compare(st, 'set afterwards')
    del mapping(st)['last']
    st.ref.delete('last')
    st.exp.append(st.node)
    compare(st, 'deleted afterwards')
    agree(env, mapping(st), st.ref, 'attributes')
    compare(st, 'read')
    env.reach('end')


def value(st, key):
    return BaseNode() if st.cls == 'Full' else ('v', key)


def put(st, key, val):
    mapping(st)[key] = val
    st.ref.set(key, val)
    st.exp.append(st.node)


def step(env, st, op, j):
    node, ref, cls = st.node, st.ref, st.cls
    attrs = mapping(st)
    key = None if op in ('popitem', 'clear', 'list', 'children', 'detach', 'faildetach', 'hook') \
        else env.keyfree('a%d' % j)
    val = value(st, key)
    if cls != 'Full' and op in ('set', 'setdefault', 'other', 'update'):
        val = env.pick('val%d' % j, ODD[:-1] if st.nops < 2 else (None, val))
    tag = 'op%d %s' % (j, op)
    if op == 'set':
        if cls == 'Access':
            env.assume(not any(key == r for r in ('context', '')))
            env.assume(not key.startswith('_'))
            env.setattr(node.attrs, key, val)
        else:
            node.attrs[key] = val
        ref.set(key, val)
        st.exp.append(node)
    elif op in ('del', 'pop', 'popd'):
        call = dict(zip(('del', 'pop', 'popd'), (
            lambda: attrs.__delitem__(key), lambda: attrs.pop(key),
            lambda: attrs.pop(key, None))))[op]
        e, r = env.raises(call, KeyError)
        if ref.has(key):
            ref.delete(key)
            st.exp.append(node)
    elif op == 'popitem':
        e, r = env.raises(attrs.popitem, KeyError)
        if e is None:
            ref.delete(r[0])
            st.exp.append(node)
    elif op == 'clear':
        attrs.clear()
        st.exp.extend([node] * len(ref))
        ref.e = []
    elif op == 'update':
        attrs.update([(key, val), ('u', val)])
        ref.set(key, val)
        ref.set('u', val)
        st.exp.extend([node] * 2)
    elif op == 'setdefault':
        attrs.setdefault(key, val)
        if not ref.has(key):
            ref.set(key, val)
            st.exp.append(node)
    elif op == 'read':
        env.raises(lambda: attrs[key], KeyError)
    elif op == 'get':
        attrs.get(key)
        key in attrs
    elif op == 'list':
        attrs.keys(), attrs.values(), attrs.items(), len(attrs), node.attrs, node.attributes
    elif op == 'fail':
        kind = env.pick('kind%d' % j, ('set', 'del', 'setdefault'))
        attrs.fail = env.pick('where%d' % j, ('before', 'after'))
        call = dict(zip(('set', 'del', 'setdefault'), (
            lambda: attrs.__setitem__(key, val), lambda: attrs.__delitem__(key),
            lambda: attrs.setdefault(key, val))))[kind]
        e, r = env.raises(call, Failed, KeyError)
        attrs.fail = None
        for k in ref.keys():
            if not any(k is s or k == s for s in attrs.storage):
                ref.delete(k)
        for k, s in attrs.storage.items():
            ref.set(k, s)
    elif op == 'invalid':
        e, r = env.raises(lambda: attrs.__setitem__(key, 'x'), ValueError)
        env.check(e is not None, tag + ': refused')
    elif op == 'subscriber':
        kind = env.pick('kind%d' % j, ('set', 'del', 'setdefault'))
        call = dict(zip(('set', 'del', 'setdefault'), (
            lambda: attrs.__setitem__(key, val), lambda: attrs.__delitem__(key),
            lambda: attrs.setdefault(key, val))))[kind]
        REC.fail = 'modified'
        e, r = env.raises(call, Failed, KeyError)
        REC.fail = None
        if isinstance(e, Failed):
            st.exp.append(node)
            if kind == 'del':
                ref.delete(key)
            else:
                ref.set(key, val)
    elif op == 'children':
        # child operations do not modify attributes
        node['x'] = type(node)()
        del node['x']
        node.setdefault('c')
        e, r = env.raises(lambda: node.__delitem__('missing'), KeyError)
        e, r = env.raises(lambda: node.__setitem__('refuse', type(node)()), Failed)
        env.check(e is not None, tag + ': refused')
    elif op == 'detach':
        env.same(node.detach('c'), st.child, tag)
        node['c'] = st.child
        st.root.detach('n')
        put(st, 'd%d' % j, val)
        st.root['n'] = node
    elif op == 'faildetach':
        e, r = env.raises(lambda: node.detach('missing'), KeyError)
        env.check(e is not None, tag + ': refused')

        def fail():
            raise Failed('in storage')
        node.hook = fail
        e, r = env.raises(lambda: node.detach('c'), Failed)
        env.check(e is not None, tag + ': reaches the caller')
        node['c'] = st.child = type(node)()
    elif op == 'hook':
        # while a child goes, attributes of another node change
        other = mapping(st, st.other)

        def change():
            other['h'] = val
            del other['h']
        node.hook = change
        env.same(node.detach('c'), st.child, tag)
        st.exp.extend([st.other] * 2)
        node['c'] = st.child
    elif op == 'other':
        other = mapping(st, st.other)
        other[key] = val
        st.exp.append(st.other)
        if env.bool('gone%d' % j):
            del other[key]
            st.exp.append(st.other)


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for c in CLASSES:
        for n in range(0, 3):
            if q and n == 2:
                out.append(dict(name='%s-2' % c, fn='run', weight=8, must_reach=['end'],
                                kw=dict(cls=c, n=n, nops=1), budget=150))
                continue
            for op in OPS:
                if op == 'invalid' and c != 'Full':
                    continue
                nops = 2 if q else 3 if n < 2 else 2
                if q and (n or c == 'Access') and op not in ('fail', 'subscriber', 'faildetach', 'set', 'detach'):
                    nops = 1
                out.append(dict(name='%s-%d-%s' % (c, n, op), fn='run', weight=1 + n * nops ** 2,
                                must_reach=['end'], kw=dict(cls=c, n=n, nops=nops, first=op),
                                budget=150 if q else 1500))
    return out
