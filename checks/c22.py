"""Event attributes hold their value and notify exactly on change."""
from node.base import AttributedNode
from node.behaviors import Attributes
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import EventAttribute
from node.behaviors import Events
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import suppress_events
from node.utils import UNSET
from plumber import plumbing

BOUNDS = dict(
    quick='4 classes (values in the instance, in a custom container, in node attributes, inherited '
          'with one attribute redefined); 4 attributes each: every default and '
          'always-dispatch combination; two objects; histories of 2 operations out of 8 (3 of assigning '
          'and deleting) with values of 7 kinds, numbers and texts arbitrary; subscribers that fail, '
          'that assign other attributes, suppressed assignments; an unrelated event after every operation; '
          'objects with a dispatch of their own that withholds, fails, dispatches or assigns elsewhere first (2 assignments)',
    thorough='histories of 3 (4) operations; 3 assignments')

LOG = []
SUBS = {}


class Failed(Exception):
    pass


def told(kind, obj, name, value):
    LOG.append((kind, obj, name, value))
    fn = SUBS.pop((kind, name), None)
    if fn is not None:
        fn(obj)


def members(storage='__dict__'):
    kw = {} if storage == '__dict__' else dict(storage=storage)

    a = EventAttribute(**kw)
    b = EventAttribute(0, **kw)
    c = EventAttribute(None, always_dispatch=True, **kw)
    d = EventAttribute('text', **kw)
    plain = EventAttribute(False, **kw)

    @a.subscriber
    def on_a(self, value):
        told('decorated', self, 'a', value)

    @b.subscriber
    def on_b(self, value):
        told('decorated', self, 'b', value)

    @c.subscriber
    def on_c(self, value):
        told('decorated', self, 'c', value)

    @c.subscriber
    def on_c2(self, value):
        told('decorated2', self, 'c', value)
    return locals()


@plumbing(Events)
class Instance(object):
    locals().update((k, v) for k, v in members().items() if k not in ('kw', 'storage'))


@plumbing(Events)
class Container(object):
    locals().update((k, v) for k, v in members('box').items() if k not in ('kw', 'storage'))

    def __init__(self):
        self.box = {}


@plumbing(Events, Nodespaces, Attributes, DefaultInit, Nodify, DictStorage)
class Attrs(object):
    locals().update((k, v) for k, v in members('attrs').items() if k not in ('kw', 'storage'))


@plumbing(Events)
class Full(AttributedNode):
    locals().update((k, v) for k, v in members('attrs').items() if k not in ('kw', 'storage'))


class Inherited(Instance):
    # another default, and subscribers of its own
    d = EventAttribute('other')

    @d.subscriber
    def on_d(self, value):
        told('decorated', self, 'd', value)


class Override(Instance):
    """Dispatches some events on its own."""
    mode = None
    peer = None
    inner = None

    def dispatch(self, event, *args, **kw):
        mode, self.__dict__['mode'] = self.mode, None
        if mode == 'withheld':
            return
        if mode == 'fails':
            raise Failed()
        if mode == 'first':
            Instance.dispatch(self, 'unrelated')
        elif mode == 'elsewhere':
            self.peer.dispatch('unrelated')
        elif mode == 'assign':
            self.peer.b = self.inner
        Instance.dispatch(self, event, *args, **kw)


CLASSES = dict(Instance=Instance, Container=Container, Attrs=Attrs, Full=Full, Inherited=Inherited)
NAMES = ('a', 'b', 'c', 'd', 'plain')
DEFAULTS = dict(a=UNSET, b=0, c=None, d='text', plain=False)
DECORATED = dict(a=['decorated'], b=['decorated'], c=['decorated', 'decorated2'], d=[], plain=[])
OPS = ('set', 'del', 'suppressed', 'failing', 'nested', 'other', 'unbind', 'class')


class State(object):
    pass


def value(env, name, st):
    kind = env.choice(name + 'kind', st.nkinds)
    return (lambda: env.int(name, -1, 2 ** 64), lambda: None, lambda: UNSET,
            lambda: env.str(name + 's'), lambda: True, lambda: 'text', lambda: [])[kind]()


def default(st, name):
    return 'other' if st.cls == 'Inherited' and name == 'd' else DEFAULTS[name]


def decorated(st, name):
    return ['decorated'] if st.cls == 'Inherited' and name == 'd' else DECORATED[name]


def differs(old, new):
    return not (old is new or bool(old == new))


def values(st, tag):
    env = st.env
    for w, obj in enumerate(st.objs):
        for name in NAMES:
            got = getattr(obj, name)
            exp = st.val[w].get(name, default(st, name))
            env.same(got, exp, tag + ': value')


def expect(st, w, name, value):
    """Who is told of a new value."""
    obj = st.objs[w]
    out = [(k, obj, name, value) for k in decorated(st, name)]
    if (w, name) not in st.unbound:
        out.append(('bound', obj, name, value))
    return out


def compare(st, exp, tag):
    env = st.env
    env.check([l[0] for l in LOG] == [e[0] for e in exp], tag + ': called subscribers',
              lambda: '%s, expected %s' % ([(l[0], l[2]) for l in LOG], [(e[0], e[2]) for e in exp]))
    for g, e in zip(LOG, exp):
        env.same(g[1], e[1], tag + ': object')
        env.check(g[2] == e[2], tag + ': attribute')
        env.same(g[3], e[3], tag + ': value told')
    del LOG[:]


def assign(st, w, name, val, tag, exp=True):
    obj = st.objs[w]
    old = st.val[w].get(name, default(st, name))
    told = differs(old, val) or name == 'c'
    setattr(obj, name, val)
    st.val[w][name] = val
    if exp:
        compare(st, expect(st, w, name, val) if told else [], tag)
    return told


def run(env, cls, nops, first=None, ops=OPS, names=NAMES, nkinds=7):
    del LOG[:]
    SUBS.clear()
    C = CLASSES[cls]
    st = State()
    st.env, st.cls, st.nkinds = env, cls, nkinds
    st.objs, st.val, st.unbound = [C(), C()], [{}, {}], set()
    for obj in st.objs:
        for name in NAMES:
            obj.bind(**{name: bound(obj, name)})
        obj.register_event('unrelated')
        obj.bind(unrelated=lambda obj=obj: told('event', obj, 'unrelated', None))
    values(st, 'new')
    compare(st, [], 'reading')
    for j in range(nops):
        op = first if first and not j else ops[env.choice('op%d' % j, len(ops))]
        w = env.choice('w%d' % j, 2) if j else 0
        step(env, st, op, j, w, env.pick('name%d' % j, names))
        values(st, 'op%d %s' % (j, op))
        compare(st, [], 'reading')
        obj = st.objs[1 - w if j else w]
        obj.dispatch('unrelated')
        compare(st, [('event', obj, 'unrelated', None)], 'op%d %s: other event' % (j, op))
    # everything works as before
    for w in (0, 1):
        for name in NAMES:
            assign(st, w, name, ('new', w), 'at the end')
            assign(st, w, name, ('new', w), 'again')
    values(st, 'at the end')
    env.reach('end')


def override(env, n):
    """Objects with a dispatch of their own."""
    del LOG[:]
    SUBS.clear()
    objs = [Override(), Override()]
    st = State()
    st.env, st.cls, st.objs, st.val, st.unbound = env, 'Override', objs, [{}, {}], set()
    for w, obj in enumerate(objs):
        obj.__dict__['peer'] = objs[1 - w]
        for name in NAMES:
            obj.bind(**{name: bound(obj, name)})
        obj.register_event('unrelated')
        obj.bind(unrelated=lambda obj=obj: told('event', obj, 'unrelated', None))
    for j in range(n):
        w = env.choice('w%d' % j, 2) if j else 0
        obj, peer = objs[w], objs[1 - w]
        name = env.pick('name%d' % j, ('a', 'c', 'd'))
        mode = env.pick('mode%d' % j, ('withheld', 'fails', 'first', 'elsewhere', 'assign', None))
        tag = 'assign %d %s' % (j, mode)
        val = env.int('v%d' % j, -1, 2 ** 64)
        old = st.val[w].get(name, DEFAULTS[name])
        changed = name == 'c' or differs(old, val)
        inner = ('inner', j)
        obj.__dict__.update(mode=mode, inner=inner)
        e, r = env.raises(lambda: setattr(obj, name, val), Failed)
        obj.__dict__['mode'] = None
        env.check((e is not None) == (changed and mode == 'fails'), tag + ': failure')
        st.val[w][name] = val
        exp = expect(st, w, name, val)
        if mode in ('withheld', 'fails'):
            exp = []
        elif mode in ('first', 'elsewhere'):
            exp.insert(0, ('event', obj if mode == 'first' else peer, 'unrelated', None))
        elif mode == 'assign' and changed:
            exp = expect(st, 1 - w, 'b', inner) + exp
            st.val[1 - w]['b'] = inner
        compare(st, exp if changed else [], tag)
        values(st, tag)
        v = objs[env.choice('other%d' % j, 2)]
        v.dispatch('unrelated')
        compare(st, [('event', v, 'unrelated', None)], tag + ': other event')
    for w in (0, 1):
        for name in NAMES:
            assign(st, w, name, ('new', w), 'at the end')
    env.reach('end')


def bound(obj, name):
    return lambda value: told('bound', obj, name, value)


def step(env, st, op, j, w, name):
    obj = st.objs[w]
    tag = 'op%d %s' % (j, op)
    if op == 'set':
        assign(st, w, name, value(env, 'v%d' % j, st), tag)
    elif op == 'del':
        e, r = env.raises(lambda: delattr(obj, name), KeyError, AttributeError)
        env.check((e is None) == (name in st.val[w]), tag + ': nothing to delete')
        st.val[w].pop(name, None)
        # whether a deletion is announced is not the question here
        del LOG[:]
    elif op == 'suppressed':
        all_ = env.bool('all%d' % j)
        hidden = all_ or env.bool('this%d' % j)
        with suppress_events() if all_ else suppress_events(name if hidden else 'something'):
            val = value(env, 'v%d' % j, st)
            if hidden:
                assign(st, w, name, val, tag, False)
                compare(st, [], tag)
            else:
                assign(st, w, name, val, tag)
    elif op == 'failing':
        # a subscriber fails, the value is set
        kind = env.pick('kind%d' % j, ('decorated', 'bound'))
        env.assume(kind == 'bound' or decorated(st, name))
        env.assume((w, name) not in st.unbound)

        def fail(obj):
            raise Failed()
        SUBS[(kind, name)] = fail
        val = ('fails', j)
        e, r = env.raises(lambda: setattr(obj, name, val), Failed)
        env.check(e is not None, tag + ': reaches the caller')
        st.val[w][name] = val
        exp = expect(st, w, name, val)
        compare(st, exp[:[e[0] for e in exp].index(kind) + 1], tag)
    elif op == 'nested':
        # the first subscriber assigns another attribute of an object
        env.assume((w, name) not in st.unbound)
        kind = (decorated(st, name) + ['bound'])[0]
        other = env.pick('other%d' % j, [n for n in NAMES if n != name])
        v = 1 - w if env.bool('obj%d' % j) else w
        val, val2 = ('outer', j), ('inner', j)

        def change(o):
            setattr(st.objs[v], other, val2)
        SUBS[(kind, name)] = change
        setattr(obj, name, val)
        st.val[w][name] = val
        st.val[v][other] = val2
        exp = expect(st, w, name, val)
        compare(st, exp[:1] + expect(st, v, other, val2) + exp[1:], tag)
    elif op == 'other':
        # another event of the same name on another dispatcher
        obj.register_event('ev%d' % j)
        obj.bind(**{'ev%d' % j: lambda x: told('event', obj, 'ev', x)})
        obj.dispatch('ev%d' % j, 1)
        compare(st, [('event', obj, 'ev', 1)], tag)
    elif op == 'unbind':
        obj.unbind(event=name)
        st.unbound.add((w, name))
    elif op == 'class':
        env.same(getattr(type(obj), name), default(st, name), tag + ': default')


def scenarios(tier):
    out = []
    q = tier == 'quick'

    def sc(name, w, **kw):
        out.append(dict(name=name, fn='run', kw=kw, weight=w, must_reach=['end'],
                        budget=150 if q else 1500))
    out.append(dict(name='override', fn='override', kw=dict(n=2 if q else 3), weight=10,
                    must_reach=['end'], budget=150 if q else 1500))
    for c in CLASSES:
        for op in OPS:
            for name in ('a', 'b', 'c', 'd', 'plain'):
                if op in ('other', 'class') and name != 'a':
                    continue
                if q and (name == 'plain' and (c not in ('Instance', 'Full') or op != 'set')
                          or c == 'Full' and op not in ('set', 'failing')
                          or c == 'Full' and name in 'bd'
                          or c == 'Inherited' and name != 'd'):
                    continue
                sc('%s-%s-%s' % (c, name, op), 4, cls=c, nops=2 if q else 3, first=op,
                   names=(name,),
                   ops=OPS if op == 'set' or not q else ('set', 'nested', 'del'), nkinds=7 if op == 'set' else 4)
            if c in ('Instance', 'Container') or not q:
                if op == 'set':
                    for name in 'abc':
                        sc('%s-%s-three' % (c, name), 20, cls=c, nops=3 if q else 4, first=op,
                           names=(name,), ops=('set', 'del'), nkinds=4)
    return out
