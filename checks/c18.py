"""Lifecycle events: exactly one per completed change, none for a failed one."""
from node.base import BaseNode
from node.behaviors import Adopt
from node.behaviors import Attributes
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Lifecycle
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import Reference
from node.interfaces import INodeAddedEvent
from node.interfaces import INodeCreatedEvent
from node.interfaces import INodeDetachedEvent
from node.interfaces import INodeModifiedEvent
from node.interfaces import INodeRemovedEvent
from plumber import Behavior
from plumber import default
from plumber import plumb
from plumber import plumbing
from zope.interface import Interface
import zope.component
from .common import EqualNode, FalsyNode, Ref, new_keys

BOUNDS = dict(
    quick='3 classes (dict, ordered, full node with references and attributes); 0..2 children with '
          'arbitrary keys; histories of 1 (over 0..2 children) and 2 (over 0..1, the first one a change) operations out of 20 with arbitrary '
          'keys: every way to add, delete, detach and read; failures of the storage before and '
          'after its change, of validation and of a subscriber; changes made by subscribers and '
          'by a storage during a detach',
    thorough='histories of 2 operations over 2 children and of 3 over 0..1')

KINDS = (('created', INodeCreatedEvent), ('added', INodeAddedEvent),
         ('modified', INodeModifiedEvent), ('removed', INodeRemovedEvent),
         ('detached', INodeDetachedEvent))


class Failed(Exception):
    pass


class Recorder(object):
    """Subscriber of all node events."""
    def __init__(self):
        self.reset()

    def reset(self):
        self.log = []
        self.fail = None
        self.hook = None

    def add(self, kind, event):
        if kind == 'removed' or kind == 'detached':
            place = (event.oldParent, event.oldName)
        elif kind == 'added':
            place = (event.newParent, event.newName)
        else:
            place = (None, None)
        self.log.append((kind, event.object) + place)
        if self.hook is not None and self.hook[0] == kind:
            fn, self.hook = self.hook[1], None
            fn(event)
        if self.fail == kind:
            self.fail = None
            raise Failed('subscriber')


REC = Recorder()


def handler(kind):
    def handle(obj, event):
        REC.add(kind, event)
    return handle


for _kind, _iface in KINDS:
    zope.component.provideHandler(handler(_kind), [Interface, _iface])


class Fault(Behavior):
    """Storage that fails on demand, and reports changes."""
    fail = default(None)
    hook = default(None)

    @plumb
    def __setitem__(_next, self, key, val):
        if self.fail == 'before':
            raise Failed('before')
        _next(self, key, val)
        if self.fail == 'after':
            raise Failed('after')

    @plumb
    def __delitem__(_next, self, key):
        if self.fail == 'before':
            raise KeyError('before')
        _next(self, key)
        if self.hook is not None:
            fn, self.hook = self.hook, None
            fn()
        if self.fail == 'after':
            raise Failed('after')


@plumbing(Lifecycle, Adopt, Fault, DefaultInit, Nodify, DictStorage)
class Plain(object):
    pass


@plumbing(Adopt, NodeChildValidate, Lifecycle, Order, Fault, DefaultInit, Nodify, OdictStorage)
class Ordered(object):
    pass


@plumbing(NodeChildValidate, Nodespaces, Adopt, Attributes, Lifecycle, Reference, Order, Fault,
          DefaultInit, Nodify, OdictStorage)
class Full(object):
    pass


class Falsy(FalsyNode, Ordered):
    pass


class Equal(EqualNode, Ordered):
    pass


ODD = ('Falsy', 'Equal')
CLASSES = dict(Plain=Plain, Ordered=Ordered, Full=Full, Falsy=Falsy, Equal=Equal)
OPS = ('set', 'del', 'detach', 'pop', 'popd', 'popitem', 'clear', 'update', 'setdefault', 'read',
       'get', 'list', 'fail', 'invalid', 'hook', 'subscriber', 'sub_hook', 'insert', 'insertfl',
       'misc')
ORDERED_ONLY = ('insert', 'insertfl', 'invalid')


class State(object):
    def __init__(self, env, cls, node, other):
        self.env, self.cls, self.node, self.other = env, cls, node, other
        self.ref = Ref()
        self.exp = []

    def new(self, name=None):
        """A value to add."""
        if self.cls != 'Full' and self.env.bool('plain%d' % len(self.exp)):
            v = BaseNode(name)
        else:
            v = CLASSES[self.cls](name)
            self.exp.append(('created', v, None, None))
        return v

    def drop(self, kind, key):
        self.exp.append((kind, self.ref.get(key), self.node, key))
        self.ref.delete(key)

    def put(self, key, val):
        self.ref.set(key, val)
        self.exp.append(('added', val, self.node, key))


def compare(st, tag):
    env = st.env
    log = REC.log
    env.check(len(log) == len(st.exp), tag + ': number of events',
              lambda: '%s, expected %s' % ([l[0] for l in log], [l[0] for l in st.exp]))
    for g, e in zip(log, st.exp):
        env.check(g[0] == e[0], tag + ': kind of event',
                  lambda: '%s, expected %s' % ([l[0] for l in log], [l[0] for l in st.exp]))
        env.same(g[1], e[1], tag + ': object of event')
        env.same(g[2], e[2], tag + ': container of event')
        env.check(g[3] is e[3] or g[3] == e[3], tag + ': key of event')
    # subscribers see no modified events here
    REC.log = []
    st.exp = []


def run(env, cls, n, nops, first=None, ops=OPS):
    REC.reset()
    C = CLASSES[cls]
    node = C(name='n')
    st = State(env, cls, node, None)
    st.exp.append(('created', node, None, None))
    st.other = C(name='o')
    st.exp.append(('created', st.other, None, None))
    keys = new_keys(env, n, kind='keyfree')
    compare(st, 'new')
    for k in keys:
        v = st.new()
        node[k] = v
        st.put(k, v)
        compare(st, 'added')
    ops = [o for o in ops if cls != 'Plain' or o not in ORDERED_ONLY]
    for j in range(nops):
        op = first if first and not j else ops[env.choice('op%d' % j, len(ops))]
        step(env, st, op, j)
        compare(st, 'op%d %s' % (j, op))
    v = st.new()
    node['last'] = v
    st.put('last', v)
    compare(st, 'afterwards')
    node.detach('last')
    st.drop('detached', 'last')
    node['last'] = v
    st.put('last', v)
    del node['last']
    st.drop('removed', 'last')
    compare(st, 'afterwards')
    env.reach('end')


def step(env, st, op, j):
    node, ref = st.node, st.ref
    tag = 'op%d %s' % (j, op)
    key = None if op in ('popitem', 'clear', 'list', 'misc') else env.keyfree('a%d' % j)
    if op == 'set':
        v = st.new()
        node[key] = v
        st.put(key, v)
    elif op == 'update':
        v, w = st.new(), st.new()
        node.update([(key, v), ('u%d' % j, w)])
        st.put(key, v)
        st.put('u%d' % j, w)
    elif op == 'setdefault':
        v = st.new()
        node.setdefault(key, v)
        if not ref.has(key):
            st.put(key, v)
    elif op in ('del', 'pop', 'popd', 'detach'):
        call = dict(zip(('del', 'pop', 'popd', 'detach'), (
            lambda: node.__delitem__(key), lambda: node.pop(key),
            lambda: node.pop(key, None), lambda: node.detach(key))))[op]
        e, r = env.raises(call, KeyError)
        if ref.has(key):
            st.drop('detached' if op == 'detach' else 'removed', key)
    elif op == 'popitem':
        e, r = env.raises(node.popitem, KeyError)
        if e is None:
            st.drop('removed', r[0])
    elif op == 'clear':
        keys = list(node.keys())
        node.clear()
        for k in keys:
            st.drop('removed', k)
    elif op == 'read':
        env.raises(lambda: node[key], KeyError)
    elif op == 'get':
        node.get(key)
        key in node
        node.has_key(key)
    elif op == 'list':
        node.keys(), node.values(), node.items(), len(node), list(node.itervalues())
    elif op == 'misc':
        node.filteredvalues(Interface), node.path, node.root, node.acquire(Interface), bool(node)
    elif op == 'fail':
        kind = env.pick('kind%d' % j, ('set', 'del', 'detach', 'setdefault', 'clear'))
        where = env.pick('where%d' % j, ('before', 'after') if st.cls == 'Plain' else ('before',))
        v = st.new()
        node.fail = where
        call = dict(zip(('set', 'del', 'detach', 'setdefault', 'clear'), (
            lambda: node.__setitem__(key, v), lambda: node.__delitem__(key),
            lambda: node.detach(key), lambda: node.setdefault(key, v), node.clear)))[kind]
        e, r = env.raises(call, Failed, KeyError)
        node.fail = None
        # what the storage did is not the question here
        for k in ref.keys():
            if not any(k is s or k == s for s in node.storage):
                ref.delete(k)
        for k, s in node.storage.items():
            ref.set(k, s)
    elif op == 'invalid':
        e, r = env.raises(lambda: node.__setitem__(key, 'not a node'), ValueError)
        env.check(e is not None, tag + ': refused')
        e, r = env.raises(lambda: node.__setitem__(key, BaseNode), ValueError)
        env.check(e is not None, tag + ': refused')
    elif op == 'hook':
        # while a child goes, the storage changes another node
        env.assume(ref.has(key))
        v = st.new()
        kind = env.pick('kind%d' % j, ('del', 'detach'))

        def change():
            st.other['x'] = v
        node.hook = change
        (node.detach if kind == 'detach' else node.__delitem__)(key)
        st.exp.append(('added', v, st.other, 'x'))
        st.drop('detached' if kind == 'detach' else 'removed', key)
        compare(st, tag)
        st.other.detach('x')
        st.exp.append(('detached', v, st.other, 'x'))
    elif op == 'subscriber':
        # a subscriber fails; what it was told stays told
        # (an insertion is undone when a subscriber fails)
        kind = env.pick('kind%d' % j, ('removed', 'detached', 'added')[:2 + (st.cls == 'Plain')])
        v = st.new()
        REC.fail = kind
        call = dict(zip(('added', 'removed', 'detached'), (
            lambda: node.__setitem__(key, v), lambda: node.__delitem__(key),
            lambda: node.detach(key))))[kind]
        e, r = env.raises(call, Failed, KeyError)
        if kind == 'added':
            st.put(key, v)
        elif ref.has(key):
            st.drop(kind, key)
        REC.fail = None
    elif op == 'sub_hook':
        # a subscriber moves the child back
        kind = env.pick('kind%d' % j, ('removed', 'detached'))
        env.assume(ref.has(key))
        back = env.keyfree('b%d' % j)
        child = ref.get(key)

        def change(event):
            event.oldParent[back] = event.object
        REC.hook = (kind, change)
        (node.detach if kind == 'detached' else node.__delitem__)(key)
        st.drop(kind, key)
        st.put(back, child)
    elif op in ('insert', 'insertfl'):
        v = st.new(key)
        if op == 'insertfl':
            call = env.pick('which%d' % j, (node.insertfirst, node.insertlast))
            e, r = env.raises(lambda: call(v), KeyError)
        else:
            call = env.pick('which%d' % j, (node.insertbefore, node.insertafter))
            rn = env.keyfree('r%d' % j)
            rv = ref.get(rn)
            if rv is None:
                rv = BaseNode(rn)
            e, r = env.raises(lambda: call(v, rv), KeyError, ValueError)
        if e is None:
            ref.set(key, v)
            st.exp.append(('added', v, node, key))


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for c in CLASSES:
        for n in range(0, 3):
            if q and n == 2 and c not in ODD:
                out.append(dict(name='%s-2' % c, fn='run', weight=8, must_reach=['end'],
                                kw=dict(cls=c, n=n, nops=1), budget=150))
                continue
            if c in ODD and (q or n == 2):
                out.append(dict(name='%s-%d' % (c, n), fn='run', weight=4, must_reach=['end'],
                                kw=dict(cls=c, n=n, nops=1), budget=150))
                continue
            for op in OPS:
                if c == 'Plain' and op in ORDERED_ONLY or not n and op in ('hook', 'sub_hook'):
                    continue
                nops = (1 if n == 2 or c == 'Ordered' and n else 2) if q else 3 - (n == 2)
                if q and n and (op in ('read', 'get', 'list', 'misc', 'popd', 'setdefault', 'update')
                                or op == 'fail'):
                    nops = 1
                out.append(dict(name='%s-%d-%s' % (c, n, op), fn='run', weight=1 + n * nops ** 2,
                                must_reach=['end'], kw=dict(cls=c, n=n, nops=nops, first=op),
                                budget=150 if q else 1500))
    return out
