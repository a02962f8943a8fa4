"""Declared events belong to the class that declares them."""
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import EventAttribute
from node.behaviors import Events
from node.behaviors import Nodify
from node.behaviors import UnknownEvent
from node.events import EventDispatcher
from plumber import plumbing

BOUNDS = dict(
    quick='class hierarchies of 1..4 dispatcher classes (chains, siblings, diamond, subclasses of '
          'the shipped dispatcher and of a node class, subclasses with the behavior applied '
          'again); every class declares a list of 0..2 arbitrary names, shares a list with '
          'another one, or an event attribute; one or two events with arbitrary names registered '
          'on any instance, before or after further classes are defined; a probe event and every '
          'declared event bound on an instance of every class, and on a second instance',
    thorough='every kind of declaration on every class of every hierarchy')


@plumbing(Events, DefaultInit, Nodify, DictStorage)
class EventNode(object):
    __events__ = ['node-event']
    at = EventAttribute()


# name -> bases of the classes (indices of earlier ones), and the root
HIERARCHIES = dict(
    single=[()],
    two=[(), (0,)],
    unrelated=[(), ()],
    siblings=[(), (0,), (0,)],
    chain=[(), (0,), (1,)],
    diamond=[(), (0,), (0,), (1, 2)],
    merged=[(), (), (0, 1)],
    dispatcher=[EventDispatcher, (0,)],
    node=[EventNode, (0,)],
    node3=[EventNode, (0,), (0,)],
)
KINDS = ('none', 'attr', 'one', 'two', 'shared')


class K(object):
    """Model of a class."""

    def __init__(self, cls, own, bases):
        self.cls, self.own, self.bases = cls, own, bases

    def events(self):
        out = list(self.own)
        for b in self.bases:
            out += b.events()
        return out


def member(lst, name):
    return any(x is name or x == name for x in lst)


def declare(env, i, bases, kind, shared, again):
    """A class that declares events; returns class and names."""
    ns = {}
    own = []
    if kind == 'attr':
        ns['x%d' % (i % 2)] = EventAttribute(i)
        own = ['x%d' % (i % 2)]
    elif kind in ('one', 'two'):
        own = [env.str('c%d%d' % (i, j)) for j in range(2 if kind == 'two' else 1)]
        ns['__events__'] = list(own) if i != 1 else tuple(own)
        if i == 2:
            ns['y'] = EventAttribute(i)
            own = own + ['y']
    elif kind == 'shared':
        ns['__events__'] = shared
        ns['z%d' % i] = EventAttribute(i)
        own = list(shared) + ['z%d' % i]
    cls = type('K%d' % i, bases or (object,), ns)
    if not bases or again:
        cls = plumbing(Events)(cls)
    return cls, own


def accepts(env, inst, name, exp, tag):
    e, r = env.raises(lambda: inst.bind(**{name: len}), UnknownEvent)
    env.check((e is None) == exp, tag + ': accepted exactly if declared')
    inst.unbind()


def run(env, hierarchy, kinds, regs, again=False):
    shared = [env.str('s')]
    classes, insts, given = [], [], []
    for i, bases in enumerate(HIERARCHIES[hierarchy]):
        if isinstance(bases, type):
            own = [] if bases is EventDispatcher else ['node-event', 'at']
            k = K(bases, own, [])
        else:
            kind = kinds[i][env.choice('kind%d' % i, len(kinds[i]))]
            models = [classes[b] for b in bases]
            cls, own = declare(env, i, tuple(m.cls for m in models), kind, shared,
                               again and i == 1)
            k = K(cls, own, models)
        classes.append(k)
        insts.append(k.cls())
        given.append([])
        if len(classes) > 1 and regs > 1:
            # registered on an instance before further classes are defined
            w = env.choice('early%d' % i, 2) if i == 1 else 0
            name = env.str('r%d' % i) if i == 1 else 'early'
            insts[w].register_event(name)
            given[w].append(name)
    w = env.choice('reg', len(insts))
    name = env.str('name')
    for bad in ('self',):
        env.assume(not (name == bad))
    insts[w].register_event(name)
    given[w].append(name)
    probe = env.str('probe')
    env.assume(not (probe == 'self'))
    everything = [name, probe] + [x for g in given for x in g]
    for k in classes:
        everything += k.own
    for x in everything:
        env.assume(not (x == 'self'))
    for i, k in enumerate(classes):
        names = k.events()
        for x in everything:
            accepts(env, insts[i], x, member(names, x) or member(given[i], x), 'instance')
        second = k.cls()
        for x in everything:
            accepts(env, second, x, member(names, x), 'another instance')
    env.check(member(shared, shared[0]) and len(shared) == 1, 'the declared list stays as it is')
    env.reach('end')


def scenarios(tier):
    out = []
    q = tier == 'quick'

    def sc(name, w, **kw):
        out.append(dict(name=name, fn='run', kw=kw, weight=w, must_reach=['end'],
                        budget=150 if q else 2000))
    for h, bases in HIERARCHIES.items():
        n = len(bases)
        if n == 1:
            sc(h, 1, hierarchy=h, kinds=[KINDS], regs=1)
        elif n == 2:
            sc(h, 4, hierarchy=h, kinds=[KINDS, KINDS], regs=2 if h == 'dispatcher' else 1)
            sc(h + '-again', 4, hierarchy=h, kinds=[('one', 'attr'), ('none', 'one', 'attr')], regs=2,
               again=True)
        else:
            if q and n == 3 and h != 'node3':
                sc(h + '-lists', 9, hierarchy=h, kinds=[('one',)] * 3, regs=1)
                sc(h + '-shared', 9, hierarchy=h, kinds=[('shared', 'one')] * 2 + [('shared',)], regs=1)
            for i in range(n):
                kinds = [('none', 'attr', 'one')[j % 2:j % 2 + 1] for j in range(n)]
                kinds[i] = ('one', 'attr', 'shared')
                sc('%s-%d' % (h, i), 9, hierarchy=h, kinds=kinds if q else [KINDS] * n, regs=1)
    return out
