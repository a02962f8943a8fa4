"""The mapping tester passes full mappings and reports broken operations."""
from node.base import AttributedNode
from node.base import BaseNode
from node.base import Node
from node.base import OrderedNode
from node.behaviors import DictStorage
from node.behaviors import FullMapping
from node.behaviors import OdictStorage
from node.testing import FullMappingTester
from node.testing.base import BaseTester
from node.testing.base import ContractError
from node.testing.base import ResultWriter
from node.testing.base import create_tree
from node.testing.env import MyNode
from plumber import plumbing

BOUNDS = dict(
    quick='6 correct classes (4 with name and parent, 2 without) and contexts that are given or '
          'created; 43 faults in the 20 operations: listings with up to 3 arbitrary entries, '
          'arbitrary counts, names and results, arbitrary exceptions; direct errors; contracts '
          'of up to 3 entries out of passing, failing and missing tests; up to 3 base classes',
    thorough='listings with up to 4 entries; contracts of 4')

CONTRACT = ['__setitem__', '__getitem__', 'get', '__iter__', 'keys', 'iterkeys', 'values',
            'itervalues', 'items', 'iteritems', '__contains__', 'has_key', '__len__', 'update',
            '__delitem__', 'copy', 'setdefault', 'pop', 'popitem', 'clear']


@plumbing(FullMapping, DictStorage)
class PlainDict(object):
    pass


@plumbing(FullMapping, OdictStorage)
class PlainOdict(object):
    pass


NODES = dict(BaseNode=BaseNode, OrderedNode=OrderedNode, Node=Node, AttributedNode=AttributedNode,
             MyNode=MyNode)
PLAIN = dict(PlainDict=PlainDict, PlainOdict=PlainOdict)


class Fault(Exception):
    pass


def verdicts(env, tester, failed, tag):
    """Exactly the operations in ``failed`` are reported, others in None are open."""
    res = tester.results
    env.check(list(res.keys()) == CONTRACT, tag + ': every operation, in order')
    for name in CONTRACT:
        got = res[name]
        ok = got == 'OK'
        env.check(ok or got.startswith('failed: '), tag + ': verdict or failure')
        if failed.get(name) is None and name in failed:
            continue
        env.check(ok == (not failed.get(name, False)), '%s: verdict on %s' % (tag, name),
                  lambda: got)


def correct(env, cls, given):
    node = cls in NODES
    C = NODES[cls] if node else PLAIN[cls]
    kw = {} if node and env.bool('default') else dict(node_checks=env.bool('checks') and node)
    context = None
    if given:
        if node:
            parent = C(name='parent')
            context = C(name=env.keyfree('name'), parent=parent)
        else:
            context = C()
    args = (C, context) if given else (C,)
    tester = FullMappingTester(*args, **kw)
    env.check(given == 0 or tester.context is context, 'the given context')
    env.check(type(tester.context) is C, 'class of the context')
    env.check(len(tester.results) == 0, 'nothing tested yet')
    if given and node:
        name = context.__name__
    env.same(tester.run(), None, 'result')
    verdicts(env, tester, {}, 'correct')
    if given and node:
        env.same(context.__name__, name, 'name of the context')
        env.same(context.__parent__, parent, 'parent of the context')
    env.check(len(tester.context.keys()) == 0, 'context is empty afterwards')
    env.check(tester.combined == '\n'.join('``%s``: OK' % n for n in sorted(CONTRACT)), 'combined')
    tester.direct_error = True
    tester.run()
    verdicts(env, tester, {}, 'direct errors')
    env.reach('end')


def faulty(env, what, size=3):
    """One operation of a correct class is broken."""
    state = dict(on=False)

    class Broken(OrderedNode):
        pass

    def entry(j):
        # the keys and values to list, and anything else
        kind = env.choice('entry%d' % j, 3)
        if kind < 2:
            return ('foo', 'bar')[kind]
        return env.str('key%d' % j)

    def listing(self):
        if state['on'] is not self:
            return None
        if 'keys' not in state:
            state['keys'] = [entry(j) for j in range(env.choice('size', size + 1))]
        return state['keys']

    def broken(keys):
        return not (len(keys) == 2 and any(k == 'foo' for k in keys) and any(k == 'bar' for k in keys))

    class Other(OrderedNode):
        pass

    other = Other(name='other')

    if what in ('keys', 'iterkeys', '__iter__'):
        base = getattr(OrderedNode, what)

        def op(self):
            keys = listing(self)
            return base(self) if keys is None else list(keys) if what == 'keys' else iter(list(keys))
        setattr(Broken, what, op)
    elif what in ('values', 'itervalues', 'items', 'iteritems'):
        base = getattr(OrderedNode, what)

        def op(self):
            keys = listing(self)
            if keys is None:
                return base(self)
            out = []
            for k in keys:
                v = Other(name=k)
                for name in ('foo', 'bar'):
                    if k == name:
                        v = self[name]
                out.append(v if 'values' in what else (k, v))
            return iter(out) if what.startswith('iter') else out
        setattr(Broken, what, op)
    elif what == 'item values':
        # right keys, another value below one of them
        wrong = env.pick('wrong', ('foo', 'bar'))
        iter_ = env.bool('iter')
        name = 'iteritems' if iter_ else 'items'
        base = getattr(OrderedNode, name)

        def op(self):
            out = list(base(self))
            if state['on'] is self:
                out = [(k, Other(name=k) if k == wrong else v) for k, v in out]
            return iter(out) if iter_ else out
        setattr(Broken, name, op)
        what = name
        state['keys'] = []
    elif what == '__len__':
        n = env.int('n', 0, 2 ** 31)

        def op(self):
            return n if state['on'] is self else len(self.keys())
        Broken.__len__ = op
    tester = FullMappingTester(Broken)
    state['on'] = tester.context
    tester.run()
    expected = {}
    # operations tested later may depend on it
    i = CONTRACT.index(what)
    for name in CONTRACT[i + 1:]:
        expected[name] = None
    if what == '__len__':
        expected[what] = not (n == 2)
    else:
        keys = state['keys']
        expected[what] = broken(keys)
        if len(keys) == 2 and keys[0] == keys[1] and (keys[0] == 'foo' or keys[0] == 'bar'):
            # known: one child listed twice passes
            env.finding(tester.results[what] != 'OK', 'repeated-listing',
                        'a listing that repeats one child and misses the other is reported')
    verdicts(env, tester, expected, what)
    env.reach('end')


FAULTS = dict()


def fault(op):
    def deco(fn):
        FAULTS[fn.__name__] = (op, fn)
        return fn
    return deco


@fault('__setitem__')
def set_raises(env, base, self, key, val):
    raise Fault()


@fault('__getitem__')
def get_raises(env, base, self, key):
    raise KeyError(key)


@fault('__getitem__')
def get_fails(env, base, self, key):
    raise Fault()


@fault('get')
def get_default(env, base, self, key, default=None):
    return default


@fault('get')
def get_found(env, base, self, key, default=None):
    return env.other


@fault('get')
def get_none(env, base, self, key, default=None):
    try:
        return self[key]
    except KeyError:
        return None


@fault('get')
def get_propagates(env, base, self, key, default=None):
    return self[key]


@fault('__contains__')
def contains_all(env, base, self, key):
    return True


@fault('__contains__')
def contains_none(env, base, self, key):
    return False


@fault('__contains__')
def contains_first(env, base, self, key):
    return key == 'foo'


@fault('__contains__')
def contains_last(env, base, self, key):
    return key == 'bar'


@fault('has_key')
def has_none(env, base, self, key):
    return False


@fault('has_key')
def has_first(env, base, self, key):
    return key == 'foo'


@fault('has_key')
def has_last(env, base, self, key):
    return key == 'bar'


@fault('update')
def update_nothing(env, base, self, *args, **kw):
    if len(args) > 1:
        raise TypeError()


@fault('update')
def update_no_args(env, base, self, *args, **kw):
    base(self, **kw)
    if len(args) > 1:
        raise TypeError()


@fault('update')
def update_no_kw(env, base, self, *args, **kw):
    base(self, *args)


@fault('update')
def update_any(env, base, self, *args, **kw):
    base(self, *args[:1], **kw)


@fault('update')
def update_copies(env, base, self, *args, **kw):
    base(self, *args, **kw)
    if 'baz' in self.keys():
        self['baz'] = OrderedNode()


@fault('update')
def update_copies_kw(env, base, self, *args, **kw):
    base(self, *args, **kw)
    for k in kw:
        self[k] = OrderedNode()


@fault('__delitem__')
def del_nothing(env, base, self, key):
    if key == 'blub':
        base(self, key)


@fault('__delitem__')
def del_raises(env, base, self, key):
    if key == 'blub':
        base(self, key)
    else:
        raise KeyError(key)


@fault('__delitem__')
def del_other(env, base, self, key):
    base(self, key if key == 'blub' else 'foo')


@fault('__delitem__')
def del_all(env, base, self, key):
    for k in self.keys() if key != 'blub' else [key]:
        base(self, k)


@fault('copy')
def copy_self(env, base, self):
    return self


@fault('copy')
def copy_deep(env, base, self):
    new = type(self)(name=self.name, parent=self.parent)
    for k in self.keys():
        new[k] = OrderedNode()
    return new


@fault('copy')
def copy_name(env, base, self):
    new = base(self)
    new.__name__ = env.name
    return new


@fault('copy')
def copy_parent(env, base, self):
    new = base(self)
    new.__parent__ = None
    return new


@fault('setdefault')
def setdefault_replaces(env, base, self, key, default=None):
    self[key] = default
    return default


@fault('setdefault')
def setdefault_none(env, base, self, key, default=None):
    base(self, key, default)


@fault('setdefault')
def setdefault_forgets(env, base, self, key, default=None):
    return self.get(key, default)


@fault('setdefault')
def setdefault_elsewhere(env, base, self, key, default=None):
    if key in self.keys():
        return self[key]
    self[env.name] = default
    return default


@fault('pop')
def pop_none(env, base, self, key, default=None):
    return base(self, key, default)


@fault('pop')
def pop_no_default(env, base, self, key, *args):
    return base(self, key)


@fault('pop')
def pop_keeps(env, base, self, key, *args):
    if key in self.keys():
        return self[key]
    return base(self, key, *args)


@fault('pop')
def pop_other(env, base, self, key, *args):
    base(self, key, *args)
    return args[0] if args else env.other


@fault('pop')
def pop_wrong(env, base, self, key, *args):
    if key in self.keys():
        val = self[key]
        del self[[k for k in self.keys() if k != key][0]]
        return val
    return base(self, key, *args)


@fault('popitem')
def popitem_keeps(env, base, self):
    for k in self.keys():
        return k, self[k]
    raise KeyError()


@fault('popitem')
def popitem_all(env, base, self):
    for k in self.keys():
        del self[k]


@fault('popitem')
def popitem_empty(env, base, self):
    if self.keys():
        return base(self)


@fault('clear')
def clear_nothing(env, base, self):
    pass


@fault('clear')
def clear_one(env, base, self):
    del self[self.keys()[0]]


@fault('clear')
def clear_fails(env, base, self):
    raise Fault()


class Env(object):
    pass


def broken(env, what):
    """One operation of the tested context does something else."""
    name, fn = FAULTS[what]
    base = getattr(OrderedNode, name)
    given = OrderedNode if env.bool('given') else None
    state = Env()
    state.other = OrderedNode(name='other')
    state.name = env.keyfree('name')
    active = []

    class Broken(OrderedNode):
        pass

    def op(self, *args, **kw):
        if active and active[0] is self:
            return fn(state, base, self, *args, **kw)
        return base(self, *args, **kw)
    setattr(Broken, name, op)
    expected = dict((n, None) for n in CONTRACT[CONTRACT.index(name) + 1:])
    expected[name] = True
    if what == 'copy_name':
        expected[name] = not (state.name == 'nametopcopy')
    elif what == 'setdefault_elsewhere':
        expected[name] = not (state.name == 'bar')
        env.assume(not (state.name == 'foo') and not (state.name == 'baz'))
    context = Broken()
    active.append(context)
    tester = FullMappingTester(Broken, context=context)
    if env.bool('direct'):
        tester.direct_error = True
        e, r = env.raises(tester.run, Exception)
        env.check((e is not None) == expected[name] or e is not None and expected[name] is None,
                  'the error itself')
        done = list(tester.results.keys())
        if expected[name]:
            env.check(done == CONTRACT[:CONTRACT.index(name)], 'stops at the failure')
        for n in done:
            env.check(tester.results[n] == 'OK', 'those before')
        env.reach('end')
        return
    tester.run()
    verdicts(env, tester, expected, what)
    env.reach('end')


def named(env):
    """Children that get another name."""
    name = env.keyfree('name')
    context = []

    class Broken(OrderedNode):
        def __setitem__(self, key, val):
            OrderedNode.__setitem__(self, key, val)
            if context and context[0] is self and key == 'bar':
                val.__name__ = name
    context.append(Broken())
    tester = FullMappingTester(Broken, context=context[0], node_checks=env.bool('checks'))
    tester.run()
    expected = {}
    wrong = not (name == 'bar') and tester.node_checks
    for n in ('__getitem__', 'values', 'itervalues', 'items', 'iteritems', 'setdefault'):
        expected[n] = wrong
    if wrong and name == 'foo':
        for n in ('values', 'itervalues'):
            env.finding(tester.results[n] != 'OK', 'repeated-listing',
                        'values that have one name twice and miss the other are reported')
    verdicts(env, tester, expected, 'named')
    env.reach('end')


def contract(env, n):
    """What the base class does with any contract."""
    kinds = [env.pick('kind%d' % j, ('passes', 'fails', 'stops', 'missing')) for j in range(n)]
    names = [env.keyfree('name%d' % j) for j in range(n)]
    for j in range(n):
        for i in range(j):
            env.assume(not (names[i] == names[j]))
    ran = []

    class Tester(BaseTester):
        iface_contract = names

    excs = [Fault('x'), KeyError('y')]

    def add(j, kind):
        def test(self=None):
            ran.append(j)
            if kind == 'fails':
                raise excs[0]
            if kind == 'stops':
                raise excs[1]
        return test
    context = [None, [], OrderedNode()][env.choice('context', 3)]
    tester = Tester(OrderedNode, context=context) if env.bool('kw') else Tester(OrderedNode, context)
    env.check(type(tester.context) is OrderedNode if context is None else tester.context is context,
              'context')
    env.same(tester.class_, OrderedNode, 'class')
    for name, kind in zip(names, kinds):
        if kind != 'missing':
            env.setattr(tester, 'test_' + name, add(names.index(name), kind))
    tester.direct_error = direct = env.bool('direct')
    e, r = env.raises(tester.run, Exception)
    exp, done, error = [], [], None
    for j, kind in enumerate(kinds):
        if kind == 'missing':
            error = ContractError
            break
        done.append(j)
        if kind != 'passes' and direct:
            error = type(excs[kind == 'stops'])
            break
        exp.append((names[j], 'OK' if kind == 'passes' else
                    'failed: %r' % (excs[kind == 'stops'],)))
    env.check((None if e is None else type(e)) is error, 'raised', lambda: repr(e))
    env.check(ran == done, 'tests run once each, in order')
    got = list(tester.results.items())
    env.check(len(got) == len(exp), 'results')
    for g, x in zip(got, exp):
        env.check(g[0] == x[0] and g[1] == x[1], 'result', lambda: '%r %r' % (g, x))
    env.reach('end')


def where(env, n):
    """Where the operations come from."""
    names = ['one', 'two']
    bases = []
    for j in range(n):
        ns = dict((name, j) for name in names if env.bool('has%d%s' % (j, name)))
        bases.append(type('Base%d' % j, (object,), ns))
    own = dict((name, 'own') for name in names if env.bool('own' + name))
    C = type('Tested', tuple(bases) or (object,), own)

    class Tester(BaseTester):
        iface_contract = names[::-1] if env.bool('reversed') else names
    got = Tester(C).wherefrom
    lines = []
    for name in names:
        src = [c.__name__ for c in [C] + bases if name in c.__dict__]
        lines.append('%s: %s' % (name, src[0] if src else 'function not found on object'))
    if n > 1 and got == known_wherefrom(names, C, bases):
        # known: what is found on each of several bases is strung together
        env.finding(False, 'wherefrom-bases', 'where from')
    env.check(got == '\n'.join(lines), 'where from', lambda: '%r, expected %r' % (got, lines))
    env.reach('end')


def known_wherefrom(names, C, bases):
    if all(name in C.__dict__ for name in names):
        return None
    return '\n'.join('%s: %s' % (name, C.__name__ if name in C.__dict__ else ''.join(
        b.__name__ if name in b.__dict__ else 'function not found on object' for b in bases))
        for name in names)


def tree(env):
    C = dict(NODES, Node=Node)[env.pick('cls', sorted(NODES))]
    root = create_tree(C)
    env.check(type(root) is C, 'class')
    keys = sorted(root.keys())
    env.check(keys == ['child_0', 'child_1', 'child_2'], 'children')
    for k in keys:
        env.check(type(root[k]) is C, 'class of children')
        env.check(sorted(root[k].keys()) == ['subchild_0', 'subchild_1'], 'their children')
        for s in root[k].keys():
            env.check(root[k][s].path == [None, k, s] and len(root[k][s]) == 0, 'path')
    other = create_tree(C)
    env.check(other is not root and other['child_0'] is not root['child_0'], 'another tree')
    env.reach('end')


def scenarios(tier):
    out = []
    q = tier == 'quick'

    def sc(name, fn, w=1, **kw):
        out.append(dict(name=name, fn=fn, kw=kw, weight=w, must_reach=['end'],
                        budget=150 if q else 900))
    for c in sorted(NODES) + sorted(PLAIN):
        for given in (0, 1):
            sc('correct-%s-%d' % (c, given), 'correct', cls=c, given=given)
    for what in ('keys', 'iterkeys', '__iter__', 'values', 'itervalues', 'items', 'iteritems',
                 'item values', '__len__'):
        sc('listing-' + what, 'faulty', 4, what=what, size=3 if q else 4)
    for what in sorted(FAULTS):
        sc('broken-' + what, 'broken', what=what)
    sc('named', 'named')
    for n in range(0, 4 if q else 5):
        sc('contract-%d' % n, 'contract', n, n=n)
    for n in range(0, 4):
        sc('where-%d' % n, 'where', n, n=n)
    sc('tree', 'tree')
    return out
