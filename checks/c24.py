"""C24 At most one thread at a time holds the lock of a tree."""
from node.base import BaseNode, OrderedNode
from .common import EqualNode, FalsyNode

BOUNDS = dict(
    quick='2 threads, one locked section each (through any of 4 nodes of a tree of depth 3, in any '
          'of 6 ways: with, acquire/release, decorated method, nested with, method within with, '
          'exception), lock unused, used, or used before the tree was put together; 2 threads with '
          '2 sections; 3 threads with one; roots without a name; two trees; all interleavings at reads and writes of '
          'shared attributes, module and class level containers and globals and at lock operations',
    thorough='as quick, 3 threads through any node, 2 threads with 3 sections')
ASSUMPTIONS = ['the interpreter switches threads only between reads and writes of shared state; '
               'reads and writes of one attribute or dictionary entry are atomic (GIL)',
               'threading.Lock and RLock work as documented']


def classes(api, ordered):
    base = OrderedNode if ordered else BaseNode
    mixin = dict(falsy=FalsyNode, equal=EqualNode).get(ordered, object)

    class N(*([mixin, base] if mixin is not object else [base])):
        @api.locking.locktree
        def method(self, what):
            api.enter(what)
            api.leave(what)

        @api.locking.locktree
        def failing(self, what):
            api.enter(what)
            api.leave(what)
            raise KeyError('x')
    return api.hook(N)


def tree(N, name='r'):
    r = N(name)
    r['a'] = N()
    r['a']['b'] = N()
    r['c'] = N()
    return [r, r['a'], r['a']['b'], r['c']]


def forms(api, what, nodes):
    TreeLock = api.locking.TreeLock

    def with_(n):
        with TreeLock(n):
            api.enter(what)
            api.leave(what)

    def acquire(n):
        lock = TreeLock(n)
        lock.acquire()
        api.enter(what)
        api.leave(what)
        lock.release()

    def method(n):
        n.method(what)

    def nested(n):
        with TreeLock(n):
            api.enter(what)
            with TreeLock(nodes[-1]):
                pass
            api.leave(what)

    def inner(n):
        lock = TreeLock(n)
        with lock:
            lock.acquire()
            n.method(what)
            lock.release()
            api.enter(what)
            api.leave(what)

    def failing(n):
        try:
            n.failing(what)
        except KeyError:
            pass

    def raising(n):
        try:
            with TreeLock(n):
                api.enter(what)
                api.leave(what)
                raise KeyError('x')
        except KeyError:
            pass
    return dict(locals())


def body(api, nodes, what, names, rounds):
    fs = [forms(api, what, nodes)[f] for f in names]

    def run():
        for i in range(rounds):
            f = fs[api.pick('form%d' % i, len(fs))]
            f(nodes[api.pick('node%d' % i, len(nodes))])
    return run


ALL = ['with_', 'acquire', 'method', 'nested', 'inner', 'failing']


def same(api, used, names, threads=2, rounds=1, at=(0, 1, 2, 3), ordered=True, rootname='r'):
    """All threads lock the same tree."""
    N = classes(api, ordered)
    if used == 'before':
        # locks of the parts were used before they became one tree
        nodes = tree(N, rootname)
        part = tree(N, rootname)
        with api.locking.TreeLock(nodes[3]):
            with api.locking.TreeLock(part[2]):
                pass
        nodes[1]['d'] = part[0]
        nodes = [nodes[0], part[0], part[2], nodes[3]]
    else:
        nodes = tree(N, rootname)
        if used == 'used':
            with api.locking.TreeLock(nodes[2]):
                pass
    nodes = [nodes[i] for i in at]
    return dict(threads=[body(api, nodes, 'tree', names, rounds) for t in range(threads)],
                questions=['overlap', 'stuck', 'errors'])


def shared(api, names, ordered=False):
    """Both threads use the same TreeLock object."""
    N = classes(api, ordered)
    nodes = tree(N)
    lock = api.locking.TreeLock(nodes[2])

    def one():
        with lock:
            api.enter('tree')
            api.leave('tree')

    def two():
        if api.pick('nested', 2):
            lock.acquire()
            with lock:
                pass
            api.enter('tree')
            api.leave('tree')
            lock.release()
        else:
            nodes[api.pick('node', 4)].method('tree')
    return dict(threads=[one, two], questions=['overlap', 'stuck', 'errors'])


def other(api, how, names, ordered=True):
    """Two trees."""
    N = classes(api, ordered)
    if how == 'new':
        a, b = tree(N), tree(N)
    elif how == 'used':
        a, b = tree(N), tree(N)
        with api.locking.TreeLock(a[3]):
            pass
        with api.locking.TreeLock(b[1]):
            pass
    elif how == 'copy':
        a = tree(N)
        with api.locking.TreeLock(a[3]):
            pass
        r = a[0].deepcopy()
        b = [r, r['a'], r['a']['b'], r['c']]
    else:
        # a part of a tree whose lock was used becomes a tree of its own
        a = tree(N)
        a[1]['d'] = N()
        a[1]['e'] = N()
        with api.locking.TreeLock(a[2]):
            pass
        d = a[0].detach('a')
        d.__parent__ = None     # the link stays until it is put elsewhere
        if how == 'relock':
            with api.locking.TreeLock(d):
                pass
        a, b = [a[0], a[3]], [d, a[2], d['d'], d['e']]
    return dict(threads=[body(api, a, 'one', names, 1), body(api, b, 'other', names, 1)],
                questions=['overlap', 'blocked', 'stuck', 'errors'])


def scenarios(tier):
    q = tier == 'quick'
    out = []

    def sc(name, fn, w=1, **kw):
        out.append(dict(name=name, fn=fn, kw=kw, weight=w, worker='conc.py',
                        must_reach=['all threads can end'], budget=300 if q else 3000))
    for used in ('first', 'used', 'before'):
        sc('same-' + used, 'same', 5, used=used, names=ALL)
        sc('rounds-' + used, 'same', 9, used=used, names=['with_', 'inner'], rounds=2, at=(0, 2))
        sc('three-' + used, 'same', 9, used=used, names=['with_', 'nested'], threads=3, at=(0, 2),
           ordered=False)
        if not q:
            sc('rounds-all-' + used, 'same', 9, used=used, names=ALL, rounds=2, at=(0, 2))
            sc('rounds3-' + used, 'same', 9, used=used, names=['with_', 'nested'], rounds=3, at=(1,))
            sc('three-all-' + used, 'same', 9, used=used, names=ALL, threads=3, at=(1, 2, 3))
            sc('four-' + used, 'same', 9, used=used, names=['with_', 'nested'], threads=4, at=(2,))
    for used, odd in (('first', 'falsy'), ('used', 'equal'), ('used', 'falsy'), ('before', 'equal')):
        sc('%s-%s' % (odd, used), 'same', 5, used=used, names=['with_', 'method', 'inner'], ordered=odd)
    for root in (None, '') if q else (None, '', 'a'):
        for used in ('first', 'used', 'before'):
            sc('root-%s-%s' % (root, used), 'same', 2, used=used, names=['with_', 'method'], rootname=root,
               at=(0, 1, 2))
    sc('shared', 'shared', names=ALL)
    for how in ('new', 'used', 'copy', 'detached', 'relock'):
        sc('trees-' + how, 'other', 4, how=how, names=['with_', 'method', 'nested', 'inner'])
    return out


def native_main(d):
    from vsym import conc
    conc.run_replay(d)
