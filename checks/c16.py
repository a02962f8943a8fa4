"""Invalidation drops exactly what was asked."""
from node.behaviors import Adopt
from node.behaviors import Cache
from node.behaviors import ChildFactory
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Invalidate
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import VolatileStorageInvalidate
from node.base import BaseNode
from plumber import Behavior
from plumber import default
from plumber import override
from plumber import plumb
from plumber import plumbing
from .common import FalsyNode, Ref, new_keys

BOUNDS = dict(
    quick='7 classes: deleting and volatile storage invalidation over dict and ordered storage, '
          'with and without cache, children loaded from a child factory or from a back end; 0..3 '
          'known keys (any strings, empty ones too), each loaded or not, children falsy or not or None; 2 operations out of '
          'read, write, delete, invalidate a key, invalidate all with arbitrary keys, each '
          'followed by a full comparison; then all known children are read again',
    thorough='3 operations, up to 4 known keys')


class Kid(BaseNode):
    pass


class FalsyKid(FalsyNode, BaseNode):
    pass


class Source(Behavior):
    kid = default(Kid)
    """A back end the volatile storage is loaded from."""

    @plumb
    def __getitem__(_next, self, key):
        try:
            return _next(self, key)
        except KeyError:
            pass
        for k, v in self.source:
            if k == key:
                self[key] = r = self.kid()
                return r
        raise KeyError(key)

    @override
    def __iter__(self):
        seen = [k for k, v in self.source]
        return iter(seen + [k for k in list(self.storage) if not any(k == s for s in seen)])

    @default
    @property
    def source(self):
        return self.__dict__.setdefault('_source', [])


@plumbing(Adopt, Invalidate, DefaultInit, Nodify, OdictStorage)
class Deleting(object):
    pass


@plumbing(Cache, Adopt, Invalidate, DefaultInit, Nodify, DictStorage)
class DeletingCache(object):
    pass


@plumbing(Adopt, Order, VolatileStorageInvalidate, DefaultInit, Nodify, OdictStorage)
class Volatile(object):
    pass


@plumbing(Adopt, Cache, VolatileStorageInvalidate, DefaultInit, Nodify, DictStorage)
class VolatileCache(object):
    pass


@plumbing(ChildFactory, Adopt, VolatileStorageInvalidate, DefaultInit, Nodify, OdictStorage)
class Factory(object):
    pass


@plumbing(Source, Adopt, VolatileStorageInvalidate, DefaultInit, Nodify, OdictStorage)
class Loaded(object):
    pass


@plumbing(Cache, Source, Adopt, VolatileStorageInvalidate, DefaultInit, Nodify, DictStorage)
class LoadedCache(object):
    pass


CLASSES = dict(Deleting=Deleting, DeletingCache=DeletingCache, Volatile=Volatile,
               VolatileCache=VolatileCache, Factory=Factory, Loaded=Loaded,
               LoadedCache=LoadedCache)
LAZY = ('Factory', 'Loaded', 'LoadedCache')
OPS = ('read', 'set', 'del', 'inv', 'invall')


class State(object):
    def __init__(self):
        self.known = []       # keys that can be loaded
        self.mem = Ref()      # what is in memory

    def valid(self, key):
        return any(k is key or k == key for k in self.known) or self.mem.has(key)


def in_memory(env, node, st, tag):
    got = Ref(node.storage.items())
    env.check(len(got) == len(st.mem), tag + ': number of children in memory')
    for k, v in st.mem.items():
        env.same(got.get(k), v, tag + ': child in memory')


def listing(env, node, st, tag):
    exp = list(st.known)
    for k in st.mem.keys():
        if not any(k is x or k == x for x in exp):
            exp.append(k)
    got = list(node)
    env.check(len(got) == len(exp), tag + ': number of keys')
    for k in exp:
        env.check(any(k is g or k == g for g in got), tag + ': key')


def read(env, cls, node, st, key, tag):
    e, r = env.raises(lambda: node[key], KeyError)
    env.check((e is None) == st.valid(key), tag + ': KeyError exactly when unknown')
    if e is not None:
        return
    if st.mem.has(key):
        env.same(r, st.mem.get(key), tag + ': child in memory')
    else:
        env.check(isinstance(r, BaseNode), tag + ': loaded')
        env.check(r is None or not any(r is d for d in st.dropped), tag + ': loaded anew')
        env.eq(r.name, key, tag + ': name of the loaded child')
        env.same(r.parent, node, tag + ': parent of the loaded child')
        st.mem.set(key, r)
    env.same(node[key], r, tag + ': identical afterwards')


def run(env, cls, n, nops, first=None):
    C = CLASSES[cls]
    node, other = C(name='n'), C(name='o')
    st = State()
    st.dropped = []
    kid = node.kid = env.pick('kid', (Kid, FalsyKid))
    keys = new_keys(env, n, kind='keyfree')
    if cls in LAZY:
        st.known = list(keys)
        if cls == 'Factory':
            fs = {}
            for k in keys:
                fs[k] = kid
            node.factories = fs
        else:
            node.source.extend((k, None) for k in keys)
        for i, k in enumerate(keys):
            if env.bool('load%d' % i):
                read(env, cls, node, st, k, 'first read')
    else:
        for i, k in enumerate(keys):
            v = kid()
            node[k] = v
            st.mem.set(k, v)
            if env.bool('load%d' % i):
                read(env, cls, node, st, k, 'first read')
    keep = BaseNode()
    kept = keys[0] if keys else 'x'
    other[kept] = keep
    values = (Kid, kid, lambda: None) if n < 2 or nops < 2 else (kid,)
    for j in range(nops):
        op = first if first and not j else OPS[env.choice('op%d' % j, len(OPS))]
        tag = 'op%d %s' % (j, op)
        key = env.keyfree('a%d' % j) if op != 'invall' else None
        if op == 'read':
            read(env, cls, node, st, key, tag)
        elif op == 'set':
            # a child factory node holds children under factory keys only
            env.assume(cls != 'Factory' or st.valid(key))
            v = env.pick('v%d' % j, values)()
            node[key] = v
            if st.mem.has(key):
                st.dropped.append(st.mem.get(key))
            st.mem.set(key, v)
        elif op == 'del':
            # of what is in memory
            env.assume(st.mem.has(key) or not st.valid(key))
            e, r = env.raises(lambda: node.__delitem__(key), KeyError)
            env.check((e is None) == st.mem.has(key), tag + ': KeyError exactly when missing')
            if e is None:
                st.dropped.append(st.mem.get(key))
                st.mem.delete(key)
        elif op == 'inv':
            e, r = env.raises(lambda: node.invalidate(key), KeyError)
            env.check((e is None) == st.valid(key), tag + ': KeyError exactly for unknown keys')
            env.same(r, None, tag + ': result')
            if e is None:
                if st.mem.has(key):
                    st.dropped.append(st.mem.get(key))
                st.mem.delete(key)
        else:
            env.same(node.invalidate(), None, tag + ': result')
            st.dropped.extend(st.mem.values())
            st.mem.e = []
        in_memory(env, node, st, tag)
        listing(env, node, st, tag)
        if hasattr(node, 'cache'):
            for k, v in list(node.cache.items()):
                env.check(st.mem.has(k), tag + ': nothing dropped stays cached')
                env.same(v, st.mem.get(k), tag + ': cached child')
    for k in list(st.known) + st.mem.keys():
        read(env, cls, node, st, k, 'at the end')
    read(env, cls, node, st, env.keyfree('probe'), 'probe')
    env.samelist(other.storage.values(), [keep], 'other node')
    env.same(other[kept], keep, 'other node')
    env.reach('end')


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for c in CLASSES:
        for n in range(0, 4 if q else 5):
            for op in OPS:
                small = n == 3 and c in ('Volatile', 'Deleting', 'LoadedCache') and op in ('inv', 'invall')
                if q and n > 2 and not small:
                    continue
                if c == 'Factory' and not n and op == 'set':
                    continue
                nops = (2 if n < 2 else 1) if q else (3 if n < 3 else 2)
                out.append(dict(name='%s-%d-%s' % (c, n, op), fn='run', weight=1 + n * nops ** 2,
                                must_reach=['end'],
                                kw=dict(cls=c, n=n, nops=nops, first=op),
                                budget=150 if q else 1500))
    return out
