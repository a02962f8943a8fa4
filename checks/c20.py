"""Dispatch reaches exactly the bound subscribers."""
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Events
from node.behaviors import Nodify
from node.behaviors import UnknownEvent
from node.events import EventDispatcher
from plumber import plumbing
from .common import Ref

BOUNDS = dict(
    quick='3 classes; two dispatchers of one class; 1 declared and up to 2 registered events with '
          'arbitrary names; 5 subscribers (functions, equal bound methods, a falsy callable); '
          'histories of 3 (of 2 with first operations of every kind) operations out of 13, failing '
          'and nested dispatches and binding while dispatching included; then every event dispatched once on both',
    thorough='histories of 4 (3)')


class Failed(Exception):
    pass


@plumbing(Events)
class Declared(object):
    __events__ = ['declared']


@plumbing(Events, DefaultInit, Nodify, DictStorage)
class EventNode(object):
    __events__ = ['declared', 'second']


CLASSES = dict(Declared=Declared, EventNode=EventNode, Dispatcher=EventDispatcher)


class Subs(object):
    """The subscribers, and what they were called with."""

    def __init__(self, env):
        self.env = env
        self.log = []
        self.then = None
        self.fail = None
        subs = self

        def function(*args, **kw):
            subs.called(0, args, kw)

        def function2(*args, **kw):
            subs.called(3, args, kw)

        class Empty(object):
            def __call__(self, *args, **kw):
                subs.called(1, args, kw)

            def __len__(self):
                return 0
        self.all = [function, Empty(), None, function2, self.own]

    def method(self, *args, **kw):
        self.called(2, args, kw)

    def own(self, *args, **kw):
        self.called(4, args, kw)

    def get(self, i):
        # a new, equal object on every access
        return self.method if i == 2 else self.all[i]

    def called(self, i, args, kw):
        self.log.append((i, args, kw))
        if self.fail == i:
            self.fail = None
            raise Failed()
        if self.then is not None:
            fn, self.then = self.then, None
            fn()


class State(object):
    """What the dispatchers should do."""

    def __init__(self, env, cls):
        self.env = env
        self.subs = Subs(env)
        C = CLASSES[cls]
        declared = [] if cls == 'Dispatcher' else list(C.__events__)
        env.check(cls == 'Dispatcher' or declared == ['declared', 'second'][:len(declared)],
                  'declared events')
        self.d = [C(), C()]
        self.events = [list(declared), list(declared)]
        self.bound = [Ref(), Ref()]
        self.names = list(declared)

    def known(self, w, name):
        return any(e is name or e == name for e in self.events[w])


ARGS = ((), {}), ((1, None), {}), (('x',), dict(event='y', subscriber=2))


def dispatch(env, st, w, name, a, tag, expect=None):
    args, kw = ARGS[a]
    st.subs.log = []
    r = st.d[w].dispatch(name, *args, **(kw if a < 2 else dict(k=kw)))
    env.same(r, None, tag + ': result')
    exp = st.bound[w].get(name, []) if expect is None else expect
    compare(env, st, exp, a, tag)


def compare(env, st, exp, a, tag):
    args, kw = ARGS[a]
    log = st.subs.log
    env.check([l[0] for l in log] == list(exp), tag + ': called subscribers',
              lambda: '%r, expected %r' % ([l[0] for l in log], exp))
    for i, ga, gk in log:
        env.check(ga == args, tag + ': arguments')
        env.check(gk == (kw if a < 2 else dict(k=kw)), tag + ': keywords')


OPS = ('register', 'bind', 'bind2', 'unbind', 'unbind_e', 'unbind_s', 'unbind_es', 'dispatch',
       'fail', 'nested', 'rebind', 'unknown', 'bindother')
CORE = ('bind', 'unbind_e', 'unbind_s', 'unbind_es', 'dispatch')


def name_of(env, st, name):
    """Any event name that can be a keyword."""
    n = env.str(name)
    for bad in ('self',):
        env.assume(not (n == bad))
    return n


def bind(env, st, w, name, i, tag):
    sub = st.subs.get(i)
    e, r = env.raises(lambda: st.d[w].bind(**{name: sub}), UnknownEvent)
    known = st.known(w, name)
    env.check((e is None) == known, tag + ': refused exactly if not declared')
    if known:
        lst = st.bound[w].get(name)
        if lst is None:
            lst = []
            st.bound[w].set(name, lst)
        if i not in lst:
            lst.append(i)


def step(env, st, op, j, w, nsubs):
    tag = 'op%d %s' % (j, op)
    d, bound = st.d[w], st.bound[w]
    name = None if op in ('unbind', 'unbind_s') else name_of(env, st, 'e%d' % j)
    i = env.choice('s%d' % j, nsubs) if op not in ('register', 'unbind', 'unbind_e', 'dispatch') else None
    if op == 'register':
        env.same(d.register_event(name), None, tag + ': result')
        if not st.known(w, name):
            st.events[w].append(name)
        st.names.append(name)
    elif op == 'bind':
        bind(env, st, w, name, i, tag)
    elif op == 'bindother':
        bind(env, st, 1 - w, name, i, tag)
    elif op == 'bind2':
        # two events in one call
        other = st.names[0] if st.names else name
        env.assume(st.known(w, name) and st.known(w, other) and not (name == other))
        env.same(d.bind(**{name: st.subs.get(i), other: st.subs.get(1)}), None, tag + ': result')
        for n, s in ((name, i), (other, 1)):
            if bound.get(n) is None:
                bound.set(n, [])
            if s not in bound.get(n):
                bound.get(n).append(s)
    elif op == 'unbind':
        env.same(d.unbind(), None, tag + ': result')
        bound.e = []
    elif op == 'unbind_e':
        d.unbind(event=name)
        bound.delete(name)
    elif op == 'unbind_s':
        d.unbind(subscriber=st.subs.get(i))
        for n, lst in bound.items():
            bound.set(n, [s for s in lst if s != i])
    elif op == 'unbind_es':
        d.unbind(event=name, subscriber=st.subs.get(i))
        if bound.has(name):
            bound.set(name, [s for s in bound.get(name) if s != i])
    elif op == 'dispatch':
        dispatch(env, st, w, name, env.choice('args%d' % j, 3), tag)
    elif op == 'fail':
        # one subscriber fails, the exception reaches the caller
        lst = bound.get(name, [])
        st.subs.log = []
        st.subs.fail = i
        e, r = env.raises(lambda: d.dispatch(name), Failed)
        env.check((e is not None) == (i in lst), tag + ': the exception reaches the caller')
        st.subs.fail = None
        compare(env, st, lst[:lst.index(i) + 1] if i in lst else lst, 0, tag)
    elif op == 'nested':
        # the first subscriber dispatches another event
        env.assume(st.known(w, name))
        other = name_of(env, st, 'n%d' % j)
        env.assume(not (other == name))
        first, second = bound.get(name, []), bound.get(other, [])
        st.subs.then = lambda: d.dispatch(other)
        exp = first[:1] + second + first[1:] if first else []
        dispatch(env, st, w, name, 0, tag, exp)
        st.subs.then = None
    elif op == 'rebind':
        # the first subscriber binds and unbinds itself and another one
        lst = bound.get(name, [])
        env.assume(len(lst) > 0)

        def change():
            d.unbind(event=name, subscriber=st.subs.get(lst[0]))
            d.bind(**{name: st.subs.get(i)})
        st.subs.then = change
        dispatch(env, st, w, name, 0, tag, list(lst))
        new = lst[1:]
        bound.set(name, new if i in new else new + [i])
    elif op == 'unknown':
        env.assume(not st.known(w, name))
        bind(env, st, w, name, i, tag)
        dispatch(env, st, w, name, 0, tag)


def run(env, cls, nreg, nops, first=None, ops=OPS, pre=0, nsubs=5):
    st = State(env, cls)
    for r in range(nreg):
        name = name_of(env, st, 'reg%d' % r)
        st.d[0].register_event(name)
        if not st.known(0, name):
            st.events[0].append(name)
        st.names.append(name)
    # some subscribers are bound
    for p, subs in enumerate(pre if isinstance(pre, (list, tuple)) else
                             [range(p + 1, -1, -1) for p in range(pre)]):
        for i in subs:
            bind(env, st, 0, st.names[p], i, 'before')
    for j in range(nops):
        op = first if first and not j else ops[env.choice('op%d' % j, len(ops))]
        step(env, st, op, j, 0, nsubs)
    probe = name_of(env, st, 'probe')
    for w in (0, 1):
        for name in st.names + [probe]:
            dispatch(env, st, w, name, 1, 'at the end')
            if not w:
                # still bound
                dispatch(env, st, w, name, 2, 'at the end')
    env.reach('end')


def scenarios(tier):
    out = []
    q = tier == 'quick'

    def sc(name, w, **kw):
        out.append(dict(name=name, fn='run', kw=kw, weight=w, must_reach=['end'],
                        budget=150 if q else 1500))
    for c in CLASSES:
        for op in OPS:
            if op in ('rebind', 'nested', 'fail', 'dispatch') or op.startswith('unbind'):
                if c != 'Dispatcher':
                    sc('%s-0-%s-pre' % (c, op), 4, cls=c, nreg=0, nops=2 if q else 3, first=op,
                       pre=1, nsubs=3)
                sc('%s-2-%s-pre' % (c, op), 8, cls=c, nreg=2, nops=1 if q else 2, first=op, pre=2,
                   nsubs=3)
            if op.startswith('unbind') or op == 'rebind':
                # the same subscriber alone on several events
                sc('%s-3-%s-alone' % (c, op), 8, cls=c, nreg=3 - (c == 'Declared'),
                   nops=1 if q else 2, first=op, pre=[[0], [0, 1], [0]], nsubs=3)
            if c == 'Dispatcher' and op in ('rebind', 'bind2'):
                continue
            if op not in ('rebind', 'nested', 'bind2') or c == 'EventNode' and op == 'bind2':
                sc('%s-%s' % (c, op), 4, cls=c, nreg=c == 'Dispatcher', nops=1 if q else 2, first=op)
        if c != 'EventNode' or not q:
            sc('%s-three' % c, 20, cls=c, nreg=int(c == 'Dispatcher' or not q), nops=3 if q else 4,
               first='bind', ops=CORE, nsubs=2)
    return out
