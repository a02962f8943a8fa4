"""Event suppression is exactly as wide as its block."""
from node.behaviors import EventAttribute
from node.behaviors import Events
from node.behaviors import suppress_events
from plumber import plumbing

BOUNDS = dict(
    quick='programs of up to 5 actions (enter a new, an older or an active block, create one, leave, leave by '
          'an exception through 1 or all blocks) with selections: all, one arbitrary name, a list or tuple '
          'of two arbitrary names, an empty list; after every action a declared event, one with '
          'an arbitrary name and (up to 2 actions) an event attribute are dispatched on two '
          'dispatchers; from 3 actions on selections are all or one name, with 5 the name is '
          'that of the second event',
    thorough='programs of up to 6 actions')


class Failed(Exception):
    pass


@plumbing(Events)
class Dispatcher(object):
    __events__ = ['declared']
    attr = EventAttribute(0)


class State(object):
    pass


def suppressed(st, name):
    for all_, names in st.stack:
        if all_ or any(n is name or n == name for n in names):
            return True
    return False


def probe(st, tag):
    """Dispatch everything and see who is told."""
    env = st.env
    hidden = [suppressed(st, n) for n in st.events]
    for w, d in enumerate(st.d):
        for name, h in zip(st.events, hidden):
            st.log = []
            if name == 'attr':
                st.n += 1
                d.attr = st.n
                env.check(d.attr == st.n, tag + ': value is set')
                exp = [(w, 'attr', (st.n,))]
            else:
                d.dispatch(name, 'x')
                exp = [(w, name, ('x',))]
            if h:
                exp = []
            env.check(len(st.log) == len(exp), tag + ': suppressed exactly if selected',
                      lambda: '%r told, expected %r' % (st.log, exp))
            env.check(st.log == exp, tag + ': subscriber and arguments')


def selection(st):
    env = st.env
    j = st.j
    if st.lists < 0:
        # everything, or the event with the arbitrary name
        kind = env.choice('sel%d' % j, 2)
        if kind:
            return suppress_events(st.events[-2]), (False, [st.events[-2]])
    else:
        kind = env.choice('sel%d' % j, (2, 4)[st.lists])
    if kind == 0:
        return suppress_events(), (True, [])
    if kind == 1:
        n = env.str('n%d' % j)
        return suppress_events(n), (False, [n])
    if kind == 2:
        n, m = env.str('n%d' % j), env.str('m%d' % j)
        lst = [n, m]
        s = suppress_events(lst if env.bool('tuple%d' % j) else tuple(lst))
        # the list may be used for something else then
        lst[:] = []
        return s, (False, [n, m])
    if kind == 3:
        return suppress_events([]), (False, [])


def block(st, level):
    env = st.env
    while st.j < st.nacts:
        st.j += 1
        acts = ['enter', 'create']
        if st.old:
            acts.append('old')
        if level:
            acts += ['leave', 'raise'] + (['raiseall'] if level > 1 else [])
        act = acts[st.first if st.j == 1 else env.choice('act%d' % st.j, len(acts))]
        tag = '%d %s' % (st.j, act)
        if act == 'create':
            st.old.append(selection(st))
            probe(st, tag)
        elif act in ('enter', 'old'):
            cm, sel = st.old[env.choice('which%d' % st.j, len(st.old))] if act == 'old' \
                else selection(st)
            st.old.append((cm, sel))
            st.old = st.old[-2:]
            try:
                with cm as count:
                    env.check(count == level + 1, tag + ': nesting level',
                              lambda: '%r, expected %d' % (count, level + 1))
                    st.stack.append(sel)
                    probe(st, tag)
                    block(st, level + 1)
            except Failed as e:
                st.stack.pop()
                probe(st, 'after exception')
                if e.args[0] > 1 and level:
                    raise Failed(e.args[0] - 1)
            else:
                st.stack.pop()
                probe(st, 'after leaving')
        elif act == 'leave':
            return
        else:
            raise Failed(1 if act == 'raise' else level)


def run(env, nacts, first, lists=1, attr=True):
    st = State()
    st.env, st.nacts, st.j, st.n, st.lists, st.first = env, nacts, 0, 0, lists, first
    st.stack, st.old, st.log = [], [], []
    st.d = [Dispatcher(), Dispatcher()]
    st.events = [env.str('e0'), 'declared']
    env.assume(not (st.events[0] == 'self') and not (st.events[0] == 'attr') and
               not (st.events[0] == 'declared'))
    if attr:
        st.events = ['attr'] + st.events

    def sub(w, name):
        return lambda *args: st.log.append((w, name, args))
    for w, d in enumerate(st.d):
        d.register_event(st.events[-2])
        for name in st.events:
            d.bind(**{name: sub(w, name)})
    probe(st, 'before')
    block(st, 0)
    env.check(st.stack == [], 'all blocks are left')
    probe(st, 'at the end')
    with suppress_events() as count:
        env.check(count == 1, 'level at the end')
    probe(st, 'at the end')
    env.reach('end')


def during(env):
    """A subscriber opens a block; the next subscriber is still told."""
    st = State()
    st.log = []
    d = Dispatcher()
    e = env.str('e')
    env.assume(not (e == 'self') and not (e == 'declared'))
    d.register_event(e)
    sel = env.pick('sel', (None, e, 'declared', [e, 'declared']))

    def first(x):
        with suppress_events() if sel is None else suppress_events(sel):
            st.log.append('in')
            d.dispatch('declared')
            if env.bool('fail'):
                raise Failed(1)
        d.dispatch('declared')

    def second(x):
        st.log.append('second')
    d.bind(**{e: first})
    d.bind(**{e: second})
    d.bind(declared=lambda: st.log.append('declared'))
    err, r = env.raises(lambda: d.dispatch(e, 1), Failed)
    inner = [] if sel is not e else ['declared']
    env.check(st.log == ['in'] + inner + ([] if err else ['declared', 'second']),
              'only the block is suppressed', lambda: repr(st.log))
    st.log = []
    d.dispatch('declared')
    env.check(st.log == ['declared'], 'afterwards')
    env.reach('end')


def scenarios(tier):
    q = tier == 'quick'
    out = [dict(name='during', fn='during', kw={}, weight=1, must_reach=['end'], budget=100)]
    for n, lists, attr in ((1, 1, True), (2, 1, True), (3, 0, False), (4, 0, False), (5, -1, False)) + \
            (() if q else ((3, 1, True), (4, 1, False), (5, 0, True), (6, -1, True))):
        for first in (0, 1):
            out.append(dict(name='acts-%d-%d%s%s' % (n, first, lists, '-attr' * attr), fn='run',
                            kw=dict(nacts=n, lists=lists, attr=attr, first=first),
                            weight=6 ** n, must_reach=['end'], budget=150 if q else 2000))
    return out
