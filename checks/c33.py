"""Nodes work the same in every thread."""
from node.behaviors import Adopt
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import EventAttribute
from node.behaviors import Events
from node.behaviors import Fallback
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import suppress_events
from plumber import Behavior
from plumber import plumb
from plumber import plumbing
from . import c17
from . import c20
from . import c21
from . import c22

BOUNDS = dict(
    quick='the programs of C17, C20, C21 and C22 with reduced bounds in a fresh thread, also when '
          'they ran in the first or another thread before; all interleavings of 2 threads (of 3 '
          'with one block each) that enter suppression blocks with selections of 3 kinds, '
          'dispatch and assign on shared or own dispatchers and leave; of 2 threads that assign '
          'event attributes, switching also between setting and dispatching and while '
          'subscribers run; of 2 threads that look up fallbacks in 2 shapes of trees with '
          'arbitrary keys, switching at every access to the fallbacks; threads switch there only, not '
          'within these steps',
    thorough='the programs with the bounds of the quick tier of C17, C20, C21, C22')


def fresh(env, mod, kw, before, twice=False):
    """A program of another property, in a fresh thread."""
    m = dict(c17=c17, c20=c20, c21=c21, c22=c22)[mod]
    if before == 'here':
        start(m)
    elif before == 'thread':
        env.thread(lambda: start(m))
    env.thread(lambda: m.run(env, **kw))
    env.reach('end')


def start(m):
    """Something, so that the data of this thread exists."""
    if m is c17:
        n = c17.FNode(name='n')
        n.get('missing')
    else:
        o = c22.Instance()
        with suppress_events():
            o.a = 1
        o.a = 2
        del c22.LOG[:]


# ---------------------------------------------------------------------------
# suppression


@plumbing(Events)
class Dispatcher(object):
    __events__ = ['one', 'two']
    attr = EventAttribute(0)


class Log(object):
    """Who is told, by thread."""

    def __init__(self, n):
        self.who = None
        self.log = [[] for i in range(n)]

    def sub(self, name):
        return lambda *args: self.log[self.who].append((name,) + args)


SELECT = ((), ('one',), ('attr', 'two'))


def suppression(env, n, shared, acts, kinds):
    log = Log(n)
    ds = [Dispatcher()]
    if not shared:
        ds += [Dispatcher() for i in range(n - 1)]
    for d in ds:
        for name in ('one', 'two', 'attr'):
            d.bind(**{name: log.sub(name)})
    values = [0]

    def actor(i):
        d = ds[0] if shared else ds[i]
        kind = env.choice('sel%d' % i, kinds) if n < 3 else i
        sel = SELECT[kind]

        def probe(active, what, tag):
            log.who = i
            log.log[i] = []
            exp = []
            for name in what:
                if name == 'attr':
                    values[0] += 1
                    d.attr = values[0]
                    env.eq(d.attr, values[0], tag + ': value')
                    exp.append(('attr', values[0]))
                else:
                    d.dispatch(name, i)
                    exp.append((name, i))
            if active:
                exp = [x for x in exp if sel and x[0] not in sel]
            env.check(log.log[i] == exp, tag + ': told',
                      lambda: '%r, expected %r' % (log.log[i], exp))

        def run(step):
            cm = suppress_events(list(sel)) if sel else suppress_events()
            step()
            if 'before' in acts:
                probe(False, ('one', 'attr'), 'before the block')
                step()
            with cm as count:
                env.eq(count, 1, 'nesting level')
                step()
                if 'inside' in acts:
                    probe(True, ('one', 'two', 'attr'), 'in the block')
                    step()
                if 'nested' in acts:
                    with suppress_events('one') as count:
                        env.eq(count, 2, 'inner nesting level')
                        step()
                    probe(True, ('one', 'attr'), 'after the inner block')
                    step()
            probe(False, ('one', 'two', 'attr'), 'after the block')
        return run
    env.threads([actor(i) for i in range(n)])
    log.who = 0
    log.log[0] = []
    ds[0].dispatch('one', 'end')
    env.check(log.log[0] == [('one', 'end')], 'at the end')
    env.reach('end')


# ---------------------------------------------------------------------------
# event attributes


class Hooked(Dispatcher):
    """Others may go on before an attribute is dispatched."""
    hook = None
    log = None
    other = EventAttribute(None, always_dispatch=True)

    @other.subscriber
    def on_other(self, value):
        self.log.append(('decorated', self, value))
        Hooked.hook()
        self.log.append(('end', self, value))

    def dispatch(self, event, *args, **kw):
        Hooked.hook()
        return super(Hooked, self).dispatch(event, *args, **kw)


def attributes(env, shared, names):
    state = {}

    def hook():
        state['step']()
    Hooked.hook = staticmethod(lambda: steps[state['who']]())
    steps = {}
    objs = [Hooked(), Hooked()]
    for o in objs:
        o.log = []
        o.bind(attr=lambda v, o=o: o.log.append(('attr', o, v)))
        o.bind(other=lambda v, o=o: o.log.append(('bound', o, v)))

    def actor(i):
        o = objs[0 if shared else i]
        mine = [env.pick('name%d' % i, names), 'other'][:2 if not shared else 1]

        def run(step):
            def mystep():
                step()
                state['who'] = i
            steps[i] = mystep
            state['who'] = i
            for j, name in enumerate(mine):
                v = ('v', i, j)
                before = len(o.log)
                setattr(o, name, v)
                new = [x for x in o.log[before:] if x[2] is v]
                exp = [('attr', o, v)] if name == 'attr' else \
                    [('decorated', o, v), ('end', o, v), ('bound', o, v)]
                env.check(new == exp, 'told', lambda: '%r, expected %r' % (new, exp))
                if not shared:
                    env.check(len(o.log) == before + len(exp), 'told nothing else')
                    env.same(getattr(o, name), v, 'value')
        return run
    try:
        env.threads([actor(0), actor(1)])
    finally:
        Hooked.hook = None
    env.reach('end')


# ---------------------------------------------------------------------------
# fallbacks


class Stepping(Behavior):
    """Others may go on when a child is read."""

    @plumb
    def __getitem__(_next, self, key):
        if FNode.hook is not None and self.steps:
            FNode.hook()
        return _next(self, key)


@plumbing(Fallback, Stepping, Adopt, DefaultInit, Nodify, OdictStorage)
class FNode(object):
    hook = None
    steps = False


def fallbacks(env, shape, deep=False):
    root = FNode(name='root')
    root.fallback_key = 'fb'
    a = root['a'] = FNode()
    fb = root['fb'] = FNode()
    fx = fb['x'] = FNode()
    x = a['x'] = FNode()
    k = env.keyfree('k')
    value = fx[k] = FNode()
    if shape == 'nested':
        a.fallback_key = 'own'
        own = a['own'] = FNode()
        l = env.keyfree('l')
        env.assume(not (k == l))
        env.assume(not (k == 'own'))
        env.assume(not (l == 'own'))
        other = own[l] = FNode()
        own.steps = True
        keys = [k, l, 'missing']
        env.assume(not (k == 'missing') and not (l == 'missing'))
        found = [value, other, None]
    else:
        b = root['b'] = FNode()
        y = b['y'] = FNode()
        keys = [k, 'missing']
        env.assume(not (k == 'missing'))
        found = [value, None]
    root.steps = True
    fx.steps = deep or shape != 'nested'
    state = {}
    steps = {}
    tops = [x, x if shape == 'nested' else y]

    def hook():
        steps[state['who']]()

    def actor(i):
        w = env.choice('key%d' % i, len(keys))
        exp = found[w] if tops[i] is x else None

        def run(step):
            def mystep():
                step()
                state['who'] = i
            steps[i] = mystep
            state['who'] = i
            e, r = env.raises(lambda: tops[i][keys[w]], KeyError)
            env.check((e is None) == (exp is not None), 'found exactly if it lies there')
            env.same(r, exp, 'what lies there')
        return run
    FNode.hook = staticmethod(hook)
    try:
        env.threads([actor(0), actor(1)])
    finally:
        FNode.hook = None
    for w, f in zip(keys, found):
        env.same(x.get(w), f, 'afterwards')
    env.reach('end')


def scenarios(tier):
    q = tier == 'quick'
    out = []

    def add(name, fn, weight, **kw):
        out.append(dict(name=name, fn=fn, kw=kw, weight=weight, must_reach=['end'],
                        budget=150 if q else 1500))
    for mod, pick in (('c17', ('all-0', 'all-00', 'all-000', 'all-001', 'plain')),
                      ('c20', None), ('c21', None), ('c22', None)):
        m = dict(c17=c17, c20=c20, c21=c21, c22=c22)[mod]
        scs = [s for s in m.scenarios('quick') if s['fn'] == 'run']
        if q:
            if pick:
                scs = [s for s in scs if s['name'] in pick]
            elif mod == 'c20':
                scs = [dict(name=c, kw=dict(cls=c, nreg=1, nops=1, pre=1)) for c in c20.CLASSES]
            elif mod == 'c21':
                scs = [s for s in scs if s['kw']['nacts'] < 3]
            else:
                scs = [dict(name=c, kw=dict(cls=c, nops=1, nkinds=3)) for c in c22.CLASSES]
        for s in scs:
            before = ['no']
            if not q or s is scs[0]:
                before = ['no', 'here', 'thread']
            for b in before:
                add('fresh-%s-%s-%s' % (mod, s['name'], b), 'fresh', 5, mod=mod, kw=s['kw'],
                    before=b)
    for shared in (True, False):
        t = 'shared' if shared else 'own'
        add('suppress-2-' + t, 'suppression', 6, n=2, shared=shared,
            acts=('before', 'inside') if q else ('before', 'inside', 'nested'), kinds=3)
        add('suppress-nested-' + t, 'suppression', 6, n=2, shared=shared,
            acts=('nested',), kinds=2)
        add('attributes-' + t, 'attributes', 4, shared=shared, names=('attr', 'other'))
    add('suppress-3', 'suppression', 6, n=3, shared=False, acts=('inside',) if not q else (),
        kinds=2)
    for shape in ('nested', 'two'):
        add('fallback-' + shape, 'fallbacks', 6, shape=shape, deep=not q)
    return out
