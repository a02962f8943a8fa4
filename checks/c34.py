"""Cached instance properties compute once per instance; UNSET is one object."""
from node.base import AttributedNode
from node.base import BaseNode
from node.base import Node
from node.base import OrderedNode
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import GetattrChildren
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.serializer import deserialize
from node.serializer import serialize
from node.utils import UNSET
from node.utils import instance_property
from plumber import Behavior
from plumber import default
from plumber import plumbing
import copy
import pickle

BOUNDS = dict(
    quick='6 classes (plain, with __getattr__, with children as attributes, plumbed, a subclass '
          'that overrides and one that extends a property) with 3 properties each, one using '
          'another one; 2 instances; 3 reads in any order; results of 8 kinds (3 for the other classes) '
          'and computations that fail once (the plain class: twice) with any of 3 exceptions; arbitrary numbers and strings as '
          'results. UNSET compared with arbitrary strings and integers and 12 other values, and '
          'copied, pickled (every protocol) and serialized on its own, in 9 structures and in '
          'nodes',
    thorough='5 reads')


class Failed(Exception):
    pass


class Falsy(object):
    def __bool__(self):
        return False


class Never(object):
    def __eq__(self, other):
        raise Failed()

    __hash__ = None


class Log(object):
    """Computes what it was told to, counts."""
    calls = []
    results = {}
    fails = {}


def compute(obj, name):
    Log.calls.append((obj, name))
    n, exc = Log.fails.get(name, (0, None))
    if n:
        Log.fails[name] = (n - 1, exc)
        raise exc()
    return Log.results[id(obj), name]


class Plain(object):

    @instance_property
    def one(self):
        """The docs."""
        return compute(self, 'one')

    @instance_property
    def two(self):
        return compute(self, 'two')

    @instance_property
    def uses(self):
        r = compute(self, 'uses')
        self.two
        return r


class Getattr(Plain):
    def __getattr__(self, name):
        if name.startswith('o') or name.startswith('_o'):
            return 'from __getattr__'
        raise AttributeError(name)


class Over(Plain):
    @instance_property
    def one(self):
        return compute(self, 'one')


class Extends(Plain):
    @instance_property
    def two(self):
        Log.results[id(self), 'base'] = super(Extends, self).two
        return compute(self, 'two')


class Props(Behavior):

    @default
    @instance_property
    def one(self):
        """The docs."""
        return compute(self, 'one')

    @default
    @instance_property
    def two(self):
        return compute(self, 'two')

    @default
    @instance_property
    def uses(self):
        r = compute(self, 'uses')
        self.two
        return r


@plumbing(Props, DefaultInit, Nodify, DictStorage)
class Plumbed(object):
    pass


@plumbing(Props, GetattrChildren, DefaultInit, Nodify, OdictStorage)
class Kids(object):
    pass


CLASSES = dict(Plain=Plain, Getattr=Getattr, Over=Over, Extends=Extends, Plumbed=Plumbed,
               Kids=Kids)
NAMES = ('one', 'two', 'uses')
POOL = (lambda env, n: None, lambda env, n: UNSET, lambda env, n: Falsy(),
        lambda env, n: env.int(n + 'int', -1, 2 ** 70), lambda env, n: env.str(n + 'str'),
        lambda env, n: [], lambda env, n: Never(), lambda env, n: AttributeError('x'))


def props(env, cls, reads, first=None):
    C = CLASSES[cls]
    Log.calls, Log.results, Log.fails = [], {}, {}
    objs = [C(), C()]
    if cls == 'Kids':
        for o in objs:
            o['_one'] = 'child'
            o['_two'] = 'child'
    kind = env.pick('kind', range(len(POOL)) if cls == 'Plain' else (0, 1, 3))
    for i, o in enumerate(objs):
        for name in NAMES:
            # equal results are different objects
            Log.results[id(o), name] = POOL[kind](env, 'r%d%s' % (i, name)) \
                if (i, name) == (0, 'one') or kind not in (3, 4) else ('r', i, name)
    bad = env.pick('bad', (None, 'one', 'two'))
    if cls == 'Extends' and bad == 'two':
        bad = 'one'
    if bad:
        exc = env.pick('exc', (Failed, KeyError, AttributeError))
        if cls in ('Getattr', 'Kids') and exc is AttributeError:
            # the class asks __getattr__ then
            exc = Failed
        Log.fails[bad] = (1 + (env.choice('times', 2) if cls == 'Plain' else 0), exc)
    known = [set(), set()]

    def expect(i, name):
        """Calls this read makes; whether it fails."""
        if name in known[i]:
            return [], False
        calls = [name]
        if cls == 'Extends' and name == 'two':
            calls = ['two', 'two']
        if Log.fails.get(name, (0,))[0]:
            return calls, True
        if name == 'uses':
            c, f = expect(i, 'two')
            calls = calls + c
            if f:
                return calls, True
        known[i].add(name)
        return calls, False
    for j in range(reads):
        i = env.choice('i%d' % j, 2) if j else 0
        name = env.pick('name%d' % j, NAMES) if j or first is None else first
        calls, fails = expect(i, name)
        Log.calls = []
        e, r = env.raises(lambda: getattr(objs[i], name), Failed, KeyError, AttributeError)
        env.check((e is not None) == fails, 'fails exactly when the computation fails')
        env.check([c[1] for c in Log.calls] == calls, 'computed once',
                  lambda: '%r, expected %r' % ([c[1] for c in Log.calls], calls))
        env.check(all(c[0] is objs[i] for c in Log.calls), 'computed for its instance')
        if e is None:
            env.same(r, Log.results[id(objs[i]), name], 'result')
        # all results known so far
        Log.calls = []
        for k, o in enumerate(objs):
            for n in known[k]:
                env.same(getattr(o, n), Log.results[id(o), n], 'identical result')
        env.check(Log.calls == [], 'no further computation')
    if cls == 'Kids':
        env.eqlist(objs[0].keys(), ['_one', '_two'], 'children')
    env.reach('end')


# ---------------------------------------------------------------------------


class Holder(object):
    def __init__(self):
        self.value = UNSET


def values(env):
    """UNSET is no other value."""
    env.check(bool(UNSET) is False, 'falsy')
    env.check(len(UNSET) == 0, 'empty')
    env.check(str(UNSET) == '', 'text')
    env.check(repr(UNSET) == '<UNSET>', 'representation')
    env.check((not UNSET) is True, 'falsy')
    env.check(UNSET is not None, 'not None')
    kind = env.choice('kind', 3)
    if kind == 0:
        other = env.str('s')
    elif kind == 1:
        other = env.int('i', -2 ** 64, 2 ** 64)
    else:
        other = env.pick('other', (None, False, True, 0.0, '', b'', (), [], {}, object(),
                                   type(UNSET), BaseNode()))
    env.check((UNSET == other) is False, 'equals nothing else')
    env.check((other == UNSET) is False, 'nothing else equals it')
    env.check((UNSET != other) is True, 'differs from everything else')
    env.check((UNSET == UNSET) is True, 'equals itself')
    env.check((UNSET != UNSET) is False, 'does not differ from itself')
    env.check(hash(UNSET) == hash(UNSET), 'usable as key')
    env.check((UNSET in [other, None, False, 0, '']) is False, 'not in a list of others')
    env.check([other, UNSET].index(UNSET) == 1, 'found in a list')
    d = {UNSET: 1, None: 2, False: 3, '': 4}
    env.check(len(d) == 4 and d[UNSET] == 1, 'a key of its own')
    env.reach('end')


def ways(env):
    how = env.pick('how', ('copy', 'deepcopy', 'pickle'))
    if how == 'copy':
        return copy.copy, False
    if how == 'deepcopy':
        return copy.deepcopy, True
    proto = env.choice('protocol', pickle.HIGHEST_PROTOCOL + 1)
    return lambda x: pickle.loads(pickle.dumps(x, proto)), True


def copies(env):
    fn, deep = ways(env)
    env.same(fn(UNSET), UNSET, 'on its own')
    env.same(fn(fn(UNSET)), UNSET, 'twice')
    kind = env.choice('struct', 9)
    s, get = (
        (lambda: [UNSET], lambda x: x[0]),
        (lambda: (1, UNSET), lambda x: x[1]),
        (lambda: {'k': UNSET}, lambda x: x['k']),
        (lambda: {UNSET: 'v'}, lambda x: list(x)[0]),
        (lambda: [[(UNSET,)]], lambda x: x[0][0][0]),
        (Holder, lambda x: x.value),
        (lambda: [UNSET, UNSET], lambda x: x[1]),
        (lambda: {1: [None, UNSET]}, lambda x: x[1][1]),
        (lambda: set([UNSET]), lambda x: list(x)[0]),
    )[kind]
    env.same(get(fn(s())), UNSET, 'in a structure')
    env.same(get(fn(fn(s()))), UNSET, 'in a structure, twice')
    env.reach('end')


class Vals(OrderedNode):
    allow_non_node_childs = True


def nodes(env, cls):
    C = dict(Node=Node, AttributedNode=AttributedNode, Vals=Vals)[cls]
    n = C(name='n')
    k = env.keyfree('k')
    if cls == 'Vals':
        n[k] = UNSET
        n['second'] = [UNSET, None]
        env.assume(not (k == 'second'))
        get = lambda x: (x[k], x['second'][0], x['second'][1])
    else:
        n.attrs[k] = UNSET
        n.attrs['second'] = [UNSET, None]
        env.assume(not (k == 'second'))
        c = n['c'] = C()
        c.attrs['third'] = UNSET
        get = lambda x: (x.attrs[k], x.attrs['second'][0], x.attrs['second'][1])
    how = env.pick('how', ('deepcopy', 'copy', 'serialize') if cls != 'Vals' else
                   ('deepcopy', 'copy'))
    if how == 'serialize':
        r = deserialize(serialize(n))
        env.same(r['c'].attrs['third'], UNSET, 'attribute of a child')
    else:
        r = getattr(n, how)()
    a, b, c = get(r)
    env.same(a, UNSET, 'value')
    env.same(b, UNSET, 'in a list')
    env.same(c, None, 'None')
    env.reach('end')


def serialized(env):
    """On its own and in lists."""
    s = env.pick('struct', (lambda: UNSET, lambda: [UNSET], lambda: [None, UNSET, ''],
                            lambda: [[UNSET], UNSET]))
    r = deserialize(serialize(s()))

    def same(a, b):
        if isinstance(b, list):
            env.check(isinstance(a, list) and len(a) == len(b), 'list')
            for x, y in zip(a, b):
                same(x, y)
        elif b == '':
            env.check(a == '' and a is not UNSET, 'empty text')
        else:
            env.same(a, b, 'value')
    same(r, s())
    env.reach('end')


def scenarios(tier):
    q = tier == 'quick'
    out = []
    for c in CLASSES:
        for first in NAMES:
            out.append(dict(name='props-%s-%s' % (c, first), fn='props', weight=4,
                            must_reach=['end'], budget=150 if q else 1500,
                            kw=dict(cls=c, reads=3 if q else 5, first=first)))
    for fn in ('values', 'copies', 'serialized'):
        out.append(dict(name=fn, fn=fn, kw={}, weight=1, must_reach=['end'], budget=100))
    for c in ('Node', 'AttributedNode', 'Vals'):
        out.append(dict(name='nodes-%s' % c, fn='nodes', kw=dict(cls=c), weight=1,
                        must_reach=['end'], budget=100))
    return out
