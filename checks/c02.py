"""Derived mapping operations over four given primitives."""
from node.behaviors import ClonableMapping
from node.behaviors import EnumerableMapping
from node.behaviors import ExtendedReadMapping
from node.behaviors import ExtendedWriteMapping
from node.behaviors import FullMapping
from node.behaviors import IterableMapping
from node.behaviors import Mapping
from node.behaviors import ReadMapping
from node.utils import UNSET
from plumber import plumbing
from .common import ODD, agree, new_keys

BOUNDS = dict(
    quick='primitives over association lists with three key orders (insertion, reverse, '
          'last-written first); every derived operation from 0..3 entries with arbitrary '
          'keys and values of 9 kinds (None, falsy, equal to everything); pairs of operations from '
          '0..1 entries; update from 6 kinds of sources with 0..2 entries and 0..2 keywords (3 in total); '
          'primitives that fail with 7 kinds of other errors at their first to third use',
    thorough='single operations from 0..5 entries; pairs from 0..3 entries; triples from 1')


class Prim(object):
    """The four primitives; ``order``: 0 insertion, 1 reverse, 2 last written
    first. ``log`` records the writes."""
    order = 0
    fail = None

    def __init__(self):
        self.e = []
        self.log = []

    def hit(self, what):
        """Fails on the n-th use of a primitive."""
        if self.fail is not None and self.fail[0] == what:
            self.fail[1] -= 1
            if self.fail[1] < 0:
                self.fail[3] = True
                raise self.fail[2]

    def __getitem__(self, key):
        self.hit('get')
        for k, v in self.e:
            if k is key or k == key:
                return v
        raise KeyError(key)

    def __setitem__(self, key, val):
        self.hit('set')
        self.log.append(('set', key, val))
        for i, (k, v) in enumerate(self.e):
            if k is key or k == key:
                if self.order == 2:
                    del self.e[i]
                    self.e.append((k, val))
                else:
                    self.e[i] = (k, val)
                return
        self.e.append((key, val))

    def __delitem__(self, key):
        self.hit('del')
        for i, (k, v) in enumerate(self.e):
            if k is key or k == key:
                self.log.append(('del', key))
                del self.e[i]
                return
        raise KeyError(key)

    def __iter__(self):
        self.hit('iter')
        e = self.e if self.order == 0 else reversed(list(self.e))
        return iter([k for k, v in e])


@plumbing(FullMapping)
class Full(Prim):
    pass


@plumbing(Mapping, ExtendedReadMapping, ExtendedWriteMapping)
class Parts(Prim):
    pass


@plumbing(ExtendedWriteMapping, ReadMapping, IterableMapping, EnumerableMapping,
          ClonableMapping, ExtendedReadMapping)
class Parts2(Prim):
    pass


CLASSES = dict(Full=Full, Parts=Parts, Parts2=Parts2)


class Ref2(object):
    """Reference with the same primitives, the derived part written again."""

    def __init__(self, order):
        self.p = Prim()
        self.p.order = order

    def pairs(self):
        out = []
        for k in self.p:
            out.append((k, self.p[k]))
        return out

    def keys(self):
        return [k for k, v in self.pairs()]

    def values(self):
        return [v for k, v in self.pairs()]

    def items(self):
        return self.pairs()

    def has(self, key):
        return any(k is key or k == key for k in self.keys())

    def get(self, key, default=None):
        for k, v in self.pairs():
            if k is key or k == key:
                return v
        return default

    def __len__(self):
        return len(self.p.e)


OPS = ('get', 'getd', 'in', 'has_key', 'setdefault', 'setdefaultd', 'pop', 'popd',
       'popitem', 'clear', 'update_map', 'update_pairs', 'update_gen', 'update_kw',
       'update_both', 'update_none', 'update_two', 'update_self', 'set', 'del')
MUT = ('set', 'del', 'pop', 'popitem', 'clear', 'update_pairs', 'setdefaultd')


def kwok(env, k):
    for bad in ('self', '_next', 'args', 'kw', 'data', 'other'):
        env.assume(not (k == bad))


class Keyed(object):
    """Mapping by duck typing, false when empty."""

    def __init__(self, pairs):
        self.pairs = pairs

    def keys(self):
        return [k for k, v in self.pairs]

    def values(self):
        return [v for k, v in self.pairs]

    def items(self):
        return list(self.pairs)

    def __iter__(self):
        return iter(self.keys())

    def __len__(self):
        return len(self.pairs)

    def __getitem__(self, key):
        for k, v in self.pairs:
            if k is key or k == key:
                return v
        raise KeyError(key)


def op(env, name, m, ref, j, odd=False):
    key = env.str('a%d' % j)
    val, val2 = ('v', j), ('w', j)
    if odd and name in ('set', 'setdefaultd', 'update_pairs', 'update_map', 'update_kw',
                        'update_both', 'getd', 'popd'):
        val = env.pick('val%d' % j, ODD)
    tag = 'op%d %s' % (j, name)
    before = len(m.log)
    has = ref.has(key)
    exp = []
    if name == 'get':
        env.same(m.get(key), ref.get(key), tag)
    elif name == 'getd':
        d = val
        env.same(m.get(key, d), ref.get(key, d), tag)
    elif name == 'in':
        env.check((key in m) is has, tag)
    elif name == 'has_key':
        env.check(m.has_key(key) is has, tag)
    elif name in ('setdefault', 'setdefaultd'):
        a = (key,) if name == 'setdefault' else (key, val)
        d = None if name == 'setdefault' else val
        r = m.setdefault(*a)
        env.same(r, ref.get(key, d), tag + ': result')
        if not has:
            exp = [('set', key, d)]
    elif name == 'pop':
        e, r = env.raises(lambda: m.pop(key), KeyError)
        env.check((e is None) == has, tag + ': KeyError exactly when missing')
        if has:
            env.same(r, ref.get(key), tag + ': result')
            exp = [('del', key)]
    elif name == 'popd':
        d = None if val is UNSET else val
        env.same(m.pop(key, d), ref.get(key, d), tag + ': result')
        if has:
            exp = [('del', key)]
    elif name == 'popitem':
        e, r = env.raises(m.popitem, KeyError)
        env.check((e is None) == (len(ref) > 0), tag + ': KeyError exactly when empty')
        if len(ref):
            k, v = ref.items()[-1]
            env.check(r[0] == k and len(r) == 2, tag + ': key')
            env.same(r[1], v, tag + ': value')
            exp = [('del', k)]
    elif name == 'clear':
        exp = [('del', k) for k in ref.keys()]
        m.clear()
    elif name == 'set':
        m[key] = val
        exp = [('set', key, val)]
    elif name == 'del':
        e, r = env.raises(lambda: m.__delitem__(key), KeyError)
        env.check((e is None) == has, tag + ': KeyError exactly when missing')
        exp = [('del', key)] if has else []
    elif name == 'update_two':
        e, r = env.raises(lambda: m.update([(key, val)], [(key, val2)]), TypeError)
        env.check(e is not None, tag + ': TypeError')
    elif name == 'update_self':
        m.update(m)
        exp = [('set', k, v) for k, v in ref.items()]
    elif name == 'update_mix':
        what = env.pick('source%d' % j, ('map', 'keyed', 'pairs', 'tuple', 'gen', 'none'))
        n = 0 if what == 'none' else env.choice('entries%d' % j, 3)
        kws = env.choice('kws%d' % j, 4 - n if n else 3)
        k2, l, l2 = [env.str('%s%d' % (x, j)) if c else None for x, c in (
            ('b', n > 1), ('l', kws > 0), ('m', kws > 1))]
        pairs = [(key, val), (k2, val2)][:n]
        if n > 1:
            env.assume(not (key == k2))
        kw = [(l, ('l', j)), (l2, val)][:kws]
        for k, v in kw:
            kwok(env, k)
        if kws > 1:
            env.assume(not (l == l2))
        kwd = {}
        for k, v in kw:
            kwd[k] = v
        if what == 'map':
            o = Full()
            for k, v in pairs:
                o[k] = v
            args = (o,)
        else:
            args = dict(keyed=lambda: (Keyed(pairs),), pairs=lambda: (list(pairs),),
                        tuple=lambda: (tuple(pairs),), gen=lambda: ((p for p in pairs),),
                        none=lambda: ())[what]()
        env.same(m.update(*args, **kwd), None, tag + ': result')
        exp = [('set', k, v) for k, v in pairs + kw]
    else:
        k2 = env.str('b%d' % j)
        pairs = [(key, val), (k2, val2)]
        if name == 'update_map':
            o = Full()
            o.order = env.choice('o%d' % j, 2)
            for k, v in pairs:
                o[k] = v
            m.update(o)
            exp = [('set', k, o[k]) for k in list(o)]
        elif name == 'update_pairs':
            m.update(pairs)
            exp = [('set', k, v) for k, v in pairs]
        elif name == 'update_gen':
            m.update((k, v) for k, v in pairs)
            exp = [('set', k, v) for k, v in pairs]
        elif name == 'update_none':
            m.update()
        elif name == 'update_kw':
            kwok(env, key)
            m.update(**{key: val})
            exp = [('set', key, val)]
        elif name == 'update_both':
            kwok(env, k2)
            m.update([(key, val)], **{k2: val2})
            exp = [('set', k, v) for k, v in pairs]
    # the writes are exactly the expected ones, in order
    got = m.log[before:]
    if name == 'clear':
        # in any order
        got = [x for k in exp for x in got if x[1] == k[1]] if \
            len(got) == len(exp) else got
    env.check(len(got) == len(exp) and all(
        g[0] == x[0] and g[1] == x[1] and (g[0] == 'del' or g[2] is x[2])
        for g, x in zip(got, exp)), tag + ': primitive writes',
        lambda: 'got %r, expected %r' % (got, exp))
    for x in exp:
        if x[0] == 'set':
            ref.p[x[1]] = x[2]
        elif ref.has(x[1]):
            del ref.p[x[1]]


def run(env, cls, order, n, ops, oplist=None, odd=False):
    m = CLASSES[cls]()
    m.order = order
    ref = Ref2(order)
    for i, k in enumerate(new_keys(env, n, kind='str')):
        v = env.pick('p%d' % i, ODD) if n <= 1 and odd else ('p', i)
        m[k] = v
        ref.p[k] = v
    oplist = oplist or OPS
    for j in range(ops):
        op(env, oplist[env.choice('op%d' % j, len(oplist))], m, ref, j, odd)
    n0 = len(m.log)
    agree(env, m, ref, 'end', probe=env.str('probe') if not oplist or ops > 1 and n < 2 else None)
    env.eq(len(m.log), n0, 'reads do not write')
    env.reach('end')


class Failed(Exception):
    pass


class Stop(BaseException):
    pass


USES = dict(get=('get', 'in', 'has_key', 'setdefault', 'pop', 'popd', 'popitem', 'values', 'items',
                 'itervalues', 'iteritems'),
            set=('set', 'setdefault', 'update'), iter=('keys', 'values', 'items', 'iterkeys',
                                                       'itervalues', 'iteritems', 'len', 'clear',
                                                       'popitem', 'iter'))
USES['del'] = ('del', 'pop', 'popd', 'popitem', 'clear')


def failing(env, cls, what, n):
    """A primitive that fails for another reason than a missing key."""
    m, twin = CLASSES[cls](), CLASSES[cls]()
    keys = new_keys(env, n, kind='str')
    for i, k in enumerate(keys):
        m[k] = twin[k] = ('p', i)
    key, val, k2 = env.str('key'), ('v',), 'other'
    name = USES[what][env.choice('op', len(USES[what]))]
    exc = [Failed('x'), ValueError('x'), AttributeError('x'), IndexError('x'), TypeError('x'),
           NotImplementedError('x'), Stop('x')][env.choice('exc', 7)]
    count = env.choice('count', 3 if name in ('update', 'clear', 'values', 'itervalues', 'items',
                                              'iteritems') else 1)
    fns = dict(
        get=lambda m: m.get(key, val), has_key=lambda m: m.has_key(key),
        setdefault=lambda m: m.setdefault(key, val), pop=lambda m: m.pop(key),
        popd=lambda m: m.pop(key, val), popitem=lambda m: m.popitem(),
        values=lambda m: m.values(), items=lambda m: m.items(), keys=lambda m: m.keys(),
        itervalues=lambda m: list(m.itervalues()), iteritems=lambda m: list(m.iteritems()),
        iterkeys=lambda m: list(m.iterkeys()), iter=lambda m: list(m), len=lambda m: len(m),
        clear=lambda m: m.clear(), update=lambda m: m.update([(key, val), (k2, val)], third=val),
        set=lambda m: m.__setitem__(key, val))
    fns['in'] = lambda m: key in m
    fns['del'] = lambda m: m.__delitem__(key)
    m.log, twin.log = [], []
    env.raises(lambda: fns[name](twin), KeyError)
    m.fail = [what, count, exc, False]
    e, r = env.raises(lambda: fns[name](m), Exception, Stop)
    failed, m.fail = m.fail[3], None
    env.check((e is exc) == failed, '%s: the error itself arrives' % name,
              lambda: '%r, raised %r' % (e, exc))
    env.check(len(m.log) <= len(twin.log) and all(
        g[0] == x[0] and g[1] == x[1] for g, x in zip(m.log, twin.log)) or
        name == 'clear' and all(any(g[1] == x[1] for x in twin.log) for g in m.log),
        '%s: nothing else is written' % name)
    env.check(failed or len(m.log) == len(twin.log), '%s: everything is written' % name)
    env.reach('end')


def missing(env):
    """Behaviors without primitives refuse."""
    m = plumbing(FullMapping)(type('E', (object,), {}))()
    for f in (lambda: m['a'], lambda: m.__setitem__('a', 1),
              lambda: m.__delitem__('a'), lambda: list(m)):
        e, r = env.raises(f, NotImplementedError)
        env.check(e is not None, 'NotImplementedError')
    env.reach('end')


def scenarios(tier):
    out = []

    def sc(c, order, n, ops, w=1, **kw):
        out.append(dict(name='%s-o%d-pre%d-op%d%s' % (c, order, n, ops,
                                                      '-mix' if ops == 1 and 'oplist' in kw else ''),
                        fn='run', weight=w,
                        kw=dict(cls=c, order=order, n=n, ops=ops, **kw), must_reach=['end'],
                        budget=120 if tier == 'quick' else 900))
    out.append(dict(name='no-primitives', fn='missing', must_reach=['end']))
    for c in CLASSES:
        for what in USES:
            for n in (0, 2) if tier == 'quick' else (0, 1, 2, 3):
                out.append(dict(name='%s-fail-%s-%d' % (c, what, n), fn='failing', weight=2,
                                kw=dict(cls=c, what=what, n=n), must_reach=['end']))
        for order in range(3):
            if c != 'Full' and order == 0:
                continue
            for n in range(0, 4 if tier == 'quick' else 6):
                if n > 2 and c != 'Full':
                    continue
                sc(c, order, n, 1, w=n, odd=n < 2)
                if n < 2 and (order == 0 or c != 'Full') or tier != 'quick':
                    sc(c, order, n, 1, w=9, oplist=('update_mix',))
            if c == 'Full':
                for n in range(0, 2 if tier == 'quick' else 4):
                    sc(c, order, n, 2, w=n + 1, oplist=MUT)
                if tier != 'quick':
                    sc(c, order, 1, 3, w=9, oplist=MUT)
    return out
