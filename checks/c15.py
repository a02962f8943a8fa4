"""A cached read never differs from the uncached one."""
from node.behaviors import Adopt
from node.behaviors import Cache
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Invalidate
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import VolatileStorageInvalidate
from plumber import Behavior
from plumber import default
from plumber import override
from plumber import plumbing
from .common import Ref, new_keys

BOUNDS = dict(
    quick='4 classes (a counting back end that loads a new object each time, dict and odict '
          'storage, adopting or not); 0..2 entries with arbitrary string keys, read before or '
          'not; histories of 2 (3 of read, write, delete and invalidate) operations out of 12 with arbitrary keys, '
          'failing before or after the back end changed; falsy values; two nodes of one class',
    thorough='histories of 3 operations of every kind from 0..2 entries, of 4 of the four kinds')


class Failed(Exception):
    pass


class Value(object):
    """What is loaded; one object per load."""
    def __init__(self, version):
        self.version = version

    def __bool__(self):
        return False


class Backend(Behavior):
    """Association list that counts loads and fails on demand."""

    @override
    def __getitem__(self, key):
        self.fault('read')
        for k, v in self.entries:
            if k is key or k == key:
                self.loads.append(key)
                return None if v is None else Value(v)
        raise KeyError(key)

    @override
    def __setitem__(self, key, val):
        self.fault('before')
        for i, (k, v) in enumerate(self.entries):
            if k is key or k == key:
                self.entries[i] = (k, val)
                break
        else:
            self.entries.append((key, val))
        self.fault('after')

    @override
    def __delitem__(self, key):
        self.fault('before')
        n = [e for e in self.entries if not (e[0] is key or e[0] == key)]
        if len(n) == len(self.entries):
            raise KeyError(key)
        self.entries[:] = n
        self.fault('after')

    @override
    def __iter__(self):
        return iter([k for k, v in self.entries])

    @default
    def fault(self, where):
        if self.fail == where:
            self.fail = None
            raise self.exc('injected')

    @default
    @property
    def entries(self):
        return self.__dict__.setdefault('_entries', [])

    @default
    @property
    def loads(self):
        return self.__dict__.setdefault('_loads', [])

    fail = default(None)
    exc = default(Failed)


class Reload(Behavior):
    """Invalidation of a back end that keeps everything."""
    @default
    def invalidate(self, key=None):
        if key is not None and not any(k == key for k, v in self.entries):
            raise KeyError(key)


@plumbing(Adopt, Cache, Reload, DefaultInit, Nodify, Backend)
class Loading(object):
    pass


@plumbing(Cache, Invalidate, DefaultInit, Nodify, Backend)
class Deleting(object):
    pass


@plumbing(Cache, Adopt, VolatileStorageInvalidate, DefaultInit, Nodify, OdictStorage)
class Volatile(object):
    pass


@plumbing(Adopt, Cache, VolatileStorageInvalidate, DefaultInit, Nodify, DictStorage)
class VolatileDict(object):
    pass


CLASSES = dict(Loading=Loading, Deleting=Deleting, Volatile=Volatile, VolatileDict=VolatileDict)
BACKEND = ('Loading', 'Deleting')
OPS = ('read', 'get', 'in', 'values', 'set', 'del', 'setdefault', 'pop', 'inv', 'invall',
       'failset', 'faildel', 'failread')
FOUR = ('read', 'set', 'del', 'inv')


def same_value(env, cls, got, exp, tag):
    if cls in BACKEND and exp is not None:
        env.check(isinstance(got, Value) and got.version is exp, tag,
                  lambda: 'got %r' % getattr(got, 'version', got))
    else:
        env.same(got, exp, tag)


class State(object):
    def __init__(self):
        self.ref = Ref()         # what the back end holds
        self.seen = Ref()        # objects read since the last change of the key


def read(env, cls, node, st, key, tag):
    has = st.ref.has(key)
    n = len(node.loads) if cls in BACKEND else 0
    e, r = env.raises(lambda: node[key], KeyError)
    env.check((e is None) == has, tag + ': KeyError exactly when missing')
    if not has:
        return
    same_value(env, cls, r, st.ref.get(key), tag + ': value')
    if cls in BACKEND:
        if st.seen.has(key):
            env.same(r, st.seen.get(key), tag + ': identical object')
            env.check(len(node.loads) == n, tag + ': loaded only once')
        else:
            env.check(len(node.loads) <= n + 1, tag + ': loaded once')
    st.seen.set(key, r)
    # again
    m = len(node.loads) if cls in BACKEND else 0
    env.same(node[key], r, tag + ': identical object again')
    if cls in BACKEND:
        env.check(len(node.loads) == m, tag + ': not loaded again')


def version(cls, x):
    return ('v', x)


def run(env, cls, n, nops, ops=OPS, first=None):
    C = CLASSES[cls]
    node, other = C(name='n'), C(name='o')
    ops = [o for o in ops if cls in BACKEND or not o.startswith('fail')]
    st, so = State(), State()
    keys = new_keys(env, n, kind='str')
    for i, k in enumerate(keys):
        v = None if i == 1 else version(cls, i)
        node[k] = v
        st.ref.set(k, v)
        if env.bool('read%d' % i):
            read(env, cls, node, st, k, 'first read')
    if keys:
        # another node of the class has the same key
        other[keys[0]] = ('other',)
        so.ref.set(keys[0], ('other',))
        read(env, cls, other, so, keys[0], 'other node')
    for j in range(nops):
        op = first if first and not j else ops[env.choice('op%d' % j, len(ops))]
        step(env, cls, node, st, op, j)
    for k in list(st.ref.keys()) + keys:
        read(env, cls, node, st, k, 'at the end')
    read(env, cls, node, st, env.str('probe'), 'probe')
    env.eqlist(list(node), st.ref.keys(), 'iteration')
    for k in so.ref.keys():
        read(env, cls, other, so, k, 'other node at the end')
    env.reach('end')


def step(env, cls, node, st, op, j):
    ref, seen = st.ref, st.seen
    tag = 'op%d %s' % (j, op)
    key = env.str('a%d' % j) if op not in ('values', 'invall') else None
    val = version(cls, 'o%d' % j)
    if op == 'read':
        read(env, cls, node, st, key, tag)
    elif op == 'get':
        d = object()
        r = node.get(key, d)
        if ref.has(key):
            same_value(env, cls, r, ref.get(key), tag)
            if seen.has(key) and cls in BACKEND:
                env.same(r, seen.get(key), tag + ': identical object')
            seen.set(key, r)
        else:
            env.same(r, d, tag)
    elif op == 'in':
        env.check((key in node) == ref.has(key), tag)
        seen.delete(key) if not ref.has(key) else None
    elif op == 'values':
        vals = list(node.values())
        env.check(len(vals) == len(ref), tag)
        for (k, v), r in zip(ref.items(), vals):
            same_value(env, cls, r, v, tag)
            if seen.has(k) and cls in BACKEND:
                env.same(r, seen.get(k), tag + ': identical object')
            seen.set(k, r)
    elif op == 'set':
        node[key] = val
        ref.set(key, val)
        seen.delete(key)
    elif op == 'setdefault':
        r = node.setdefault(key, val)
        if ref.has(key):
            same_value(env, cls, r, ref.get(key), tag)
        else:
            env.same(r, val, tag)
            ref.set(key, val)
            seen.delete(key)
    elif op in ('del', 'pop'):
        call = (lambda: node.__delitem__(key)) if op == 'del' else (lambda: node.pop(key))
        e, r = env.raises(call, KeyError)
        env.check((e is None) == ref.has(key), tag + ': KeyError exactly when missing')
        if e is None and op == 'pop':
            same_value(env, cls, r, ref.get(key), tag)
        ref.delete(key)
        seen.delete(key)
    elif op in ('inv', 'invall'):
        call = (lambda: node.invalidate(key)) if op == 'inv' else node.invalidate
        e, r = env.raises(call, KeyError)
        env.check((e is None) == (key is None or ref.has(key)),
                  tag + ': KeyError exactly for an unknown key')
        if op == 'invall':
            seen.e = []
            if cls != 'Loading':
                ref.e = []
        else:
            seen.delete(key)
            if cls != 'Loading':
                ref.delete(key)
    else:
        node.fail = 'read' if op == 'failread' else ('before', 'after')[env.choice('where%d' % j, 2)]
        node.exc = exc = (Failed, KeyError, AttributeError)[env.choice('exc%d' % j, 3)]
        where = node.fail
        call = dict(failset=lambda: node.__setitem__(key, val),
                    faildel=lambda: node.__delitem__(key),
                    failread=lambda: node[key])[op]
        e, r = env.raises(call, exc, KeyError)
        if op == 'failset':
            env.check(e is not None, tag + ': the exception reaches the caller')
        if where == 'after' and node.fail is None and e is not None:
            if op == 'failset':
                ref.set(key, val)
            else:
                ref.delete(key)
        if op != 'failread':
            seen.delete(key)
        elif e is None:
            same_value(env, cls, r, ref.get(key), tag)
            seen.set(key, r)
        node.fail = None


def scenarios(tier):
    out = []
    q = tier == 'quick'

    def sc(name, w, **kw):
        out.append(dict(name=name, fn='run', kw=kw, weight=w, must_reach=['end'],
                        budget=150 if q else 1500))
    for c in CLASSES:
        for n in range(0, 3):
            back = c in BACKEND
            if q:
                sc('%s-%d-one' % (c, n), 1, cls=c, n=n, nops=1)
                if n == 1:
                    for op in OPS if c == 'Loading' else ('set', 'inv', 'invall', 'del'):
                        sc('%s-%d-%s' % (c, n, op), 8, cls=c, n=n, nops=2, first=op,
                           ops=OPS if c == 'Loading' else ('read', 'set', 'del', 'pop', 'inv', 'values'))
                elif n == 0 and back:
                    sc('%s-%d-three' % (c, n), 8, cls=c, n=n, nops=3, ops=FOUR, first='set')
                elif n == 2 and c == 'Loading':
                    sc('%s-%d-two' % (c, n), 20, cls=c, n=n, nops=2, ops=('read', 'failset', 'inv'))
            else:
                for op in OPS:
                    if back or not op.startswith('fail'):
                        sc('%s-%d-%s' % (c, n, op), 8 * n, cls=c, n=n, nops=3 if n < 2 else 2, first=op)
                sc('%s-%d-four' % (c, n), 8 * n, cls=c, n=n, nops=4 if n < 2 else 3, ops=FOUR)
    return out
