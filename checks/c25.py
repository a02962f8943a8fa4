"""The tree lock is re-entrant and always released."""
import importlib
import sys
import threading
import types
from node.base import BaseNode
from node.base import OrderedNode
from node.behaviors import Adopt
from node.behaviors import DefaultInit
from node.behaviors import GetattrChildren
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from plumber import plumbing
from .common import EqualNode, FalsyNode

BOUNDS = dict(
    quick='3 node classes; a tree of 4 nodes with arbitrary keys and a second tree; programs of up to 2 '
          'nested levels and 3 steps out of: with block, acquire, release in any order, decorated method '
          '(returning, raising one of 5 exceptions, with arbitrary arguments), a node moved to the '
          'other tree meanwhile; after every step both locks are tried from another thread through any node',
    thorough='3 levels, 4 steps')
ASSUMPTIONS = ['threading.Lock and RLock behave as their stand-in, which raises where the real one '
               'would wait for ever; threads of this check run one after another']


class WouldBlock(Exception):
    pass


class StandIn(object):
    reentrant = False

    def __init__(self):
        self.owner, self.n = None, 0

    def acquire(self, blocking=True, timeout=-1):
        me = threading.get_ident()
        if self.n and not (self.reentrant and self.owner == me):
            if blocking:
                raise WouldBlock()
            return False
        self.owner = me
        self.n += 1
        return True

    def __enter__(self):
        return self.acquire()

    def release(self):
        if not self.n or self.reentrant and self.owner != threading.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self.n -= 1

    def __exit__(self, *a):
        self.release()

    def locked(self):
        return self.n > 0


class RStandIn(StandIn):
    reentrant = True


def load():
    import node
    shim = types.ModuleType('threading')
    shim.__dict__.update({k: v for k, v in threading.__dict__.items() if not k.startswith('__')})
    shim.Lock, shim.RLock = StandIn, RStandIn
    sys.modules.pop('node.locking', None)
    sys.modules['threading'] = shim
    try:
        return importlib.import_module('node.locking')
    finally:
        sys.modules['threading'] = threading


L = load()
TreeLock = L.TreeLock


class Locked(object):
    body = None

    @L.locktree
    def method(self, *args, **kwargs):
        return self.body(args, kwargs)


@plumbing(NodeChildValidate, Nodespaces, Adopt, GetattrChildren, DefaultInit, Nodify, OdictStorage)
class GetattrNode(object):
    pass


class Base(Locked, BaseNode):
    pass


class Ordered(Locked, OrderedNode):
    pass


class Getattr(Locked, GetattrNode):
    pass


class Sub(Ordered):
    @L.locktree
    def method(self, *args, **kwargs):
        return super(Sub, self).method(*args, **kwargs)


class Falsy(FalsyNode, Base):
    pass


class Equal(EqualNode, Base):
    pass


CLASSES = dict(Base=Base, Getattr=Getattr, Sub=Sub, Falsy=Falsy, Equal=Equal)
ERRORS = (KeyError, KeyboardInterrupt, SystemExit, StopIteration, AttributeError)
ACTS = ('acquire', 'release', 'with', 'raise', 'method', 'fails', 'move')


class State(object):
    pass


def root_of(n):
    while n.__parent__ is not None:
        n = n.__parent__
    return n


def probe(st, tag):
    """Both trees from another thread."""
    env = st.env
    n = st.nodes[env.choice('p', len(st.nodes))] if st.anynode else st.nodes[-1]
    for x in (n, st.other, st.root):
        r = root_of(x)

        def enter():
            try:
                with TreeLock(x):
                    return True
            except WouldBlock:
                return False
        free = not any(h[1] is r for h in st.held)
        env.check(env.thread(enter) == free, tag + (
            ': the lock is free' if free else ': the lock is held'))


def run(env, cls, steps, depth, first, anynode=False):
    C = CLASSES[cls]
    st = State()
    st.env, st.C, st.count, st.held, st.left, st.anynode = env, C, 0, [], steps, anynode
    st.root, st.other = C(name='r'), C(name='o')
    keys = [env.keyfree('k%d' % i) for i in range(3)]
    for k in keys:
        # names of attributes
        env.assume(not k.startswith('_'))
        for bad in ('root', 'body', 'parent', 'path', 'name', 'method'):
            env.assume(not (k == bad))
    a, b, c = C(), C(), C()
    st.root[keys[0]] = a
    a[keys[1]] = b
    b[keys[2]] = c
    st.nodes = [st.root, a, b, c]
    st.a, st.moved = a, False
    probe(st, 'before')
    st.top = steps - 1
    program(st, depth, first)
    env.check(not st.held, 'all acquisitions ended')
    # the same thread and others can still lock
    with TreeLock(c):
        st.held.append((None, root_of(c)))
        probe(st, 'once more')
        st.held.pop()
    probe(st, 'in the end')
    env.reach('end')


def program(st, depth, first=None):
    """Steps; whatever was acquired here is released here."""
    env = st.env
    mine = []
    while st.left:
        st.left -= 1
        j = st.left
        acts = [x for x in ACTS if not (x == 'move' and st.moved)
                and not (x == 'release' and not mine)
                and not (x in ('with', 'raise', 'method', 'fails') and not depth)]
        acts.append('end')
        act = first if first else acts[env.choice('act%d' % j, len(acts))]
        first = None
        if act == 'end':
            break
        step(st, depth, act, j, mine)
        probe(st, act)
    while mine:
        lock, h = mine.pop()
        lock.release()
        st.held.remove(h)
        probe(st, 'release')


def step(st, depth, act, j, mine):
    env = st.env
    n = st.nodes[env.choice('n%d' % j, 2) * 3]
    h = (j, root_of(n))
    if act == 'acquire':
        if mine and env.bool('again%d' % j):
            lock, o = mine[0]      # the same lock object once more
            h = (j, o[1])
        else:
            lock = TreeLock(n)
        lock.acquire()
        st.held.append(h)
        mine.append((lock, h))
    elif act == 'release':
        lock, h = mine.pop(env.choice('which%d' % j, len(mine)))
        lock.release()
        st.held.remove(h)
    elif act == 'with':
        with TreeLock(n):
            st.held.append(h)
            probe(st, 'inside')
            program(st, depth - 1)
        st.held.remove(h)
    elif act == 'raise':
        exc = ERRORS[env.choice('exc%d' % j, len(ERRORS)) if j == st.top else j % 2]('x')
        try:
            with TreeLock(n):
                st.held.append(h)
                program(st, depth - 1)
                raise exc
            env.check(False, 'the exception reaches the caller')
        except ERRORS as e:
            env.same(e, exc, 'the exception reaches the caller unchanged')
        st.held.remove(h)
    elif act == 'method':
        arg, val, res = object(), object(), object()
        name = env.str('kw%d' % j)
        env.assume(not (name == 'self'))
        got = []

        def body(args, kwargs):
            got.append((args, kwargs))
            st.held.append(h)
            n.body = None
            probe(st, 'in the method')
            program(st, depth - 1)
            return res
        n.body = body
        if env.bool('args%d' % j):
            r = n.method(arg, 1, **{name: val})
            args, kwargs = got[0]
            env.check(len(args) == 2 and args[0] is arg and args[1] == 1, 'positional arguments')
            env.check(len(kwargs) == 1, 'keyword arguments')
            env.same(kwargs[name], val, 'keyword argument')
        else:
            res = (None, False, 0)[j % 3]
            r = n.method()
            env.check(got[0][0] == () and len(got[0][1]) == 0, 'no arguments')
        env.check(len(got) == 1, 'called once')
        env.same(r, res, 'result')
        st.held.remove(h)
    elif act == 'fails':
        exc = ERRORS[env.choice('exc%d' % j, len(ERRORS)) if j == st.top else j % 2]('x')

        def body(args, kwargs):
            n.body = None
            st.held.append(h)
            program(st, depth - 1)
            raise exc
        n.body = body
        try:
            n.method()
            env.check(False, 'the exception reaches the caller')
        except ERRORS as e:
            env.same(e, exc, 'the exception reaches the caller unchanged')
        st.held.remove(h)
    elif act == 'move':
        st.moved = True
        del st.root[st.a.__name__]
        st.other['moved'] = st.a


def scenarios(tier):
    q = tier == 'quick'
    out = []
    for c in CLASSES:
        for first in ACTS:
            if first == 'release':
                continue
            steps = 3 if c == 'Base' or first == 'method' and c == 'Sub' else 2
            out.append(dict(name='%s-%s' % (c, first), fn='run', weight=steps, must_reach=['end'],
                            kw=dict(cls=c, steps=steps if q else 4, depth=2 if q else 3, first=first),
                            budget=150 if q else 1500))
        if q and c != 'Base':
            continue
        for first in ACTS:
            if first != 'release':
                out.append(dict(name='%s-probes-%s' % (c, first), fn='run', weight=2, must_reach=['end'],
                                kw=dict(cls=c, steps=1 if q else 2, depth=1, first=first, anynode=True),
                                budget=150 if q else 1500))
    return out
