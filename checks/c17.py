"""Fallback lookup finds the nearest configured subtree and always ends."""
from node.base import BaseNode
from node.behaviors import Adopt
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Fallback
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from plumber import plumbing
from .common import FalsyNode

BOUNDS = dict(
    quick='every tree of 1..5 nodes and 11 trees of 5..8 nodes, arbitrary names; fallback keys of every '
          'node of the small and of up to 3 nodes of the large trees arbitrary (existing children, '
          'the looked up branch itself, missing) or absent; plain values as leaves; nodes without '
          'the behavior in between; an arbitrary key read from every node, twice, after failed '
          'lookups and after lookups that ended with an exception of a child',
    thorough='every tree of 1..6 nodes')


@plumbing(Fallback, Adopt, DefaultInit, Nodify, DictStorage)
class FNode(object):
    pass


@plumbing(Fallback, Adopt, DefaultInit, Nodify, OdictStorage)
class Broken(object):
    """Fails on read on demand."""
    def get(self, key, default=None):
        if self.fail:
            self.fail = False
            raise ValueError('broken')
        try:
            return self[key]
        except KeyError:
            return default

    fail = False


class Falsy(FalsyNode, FNode):
    pass


class M(object):
    """Model of a node."""
    def __init__(self, name, parent, real, fb=None):
        self.name, self.parent, self.real, self.fb = name, parent, real, fb
        self.children = []

    def child(self, name):
        for c in self.children:
            if c.name is name or c.name == name:
                return c

    def chain(self):
        out, m = [], self
        while m is not None:
            out.insert(0, m)
            m = m.parent
        return out

    def names(self):
        return [m.name for m in self.chain()]


def expected(m, key):
    """The model node that reading key from m has to find."""
    c = m.child(key)
    if c is not None:
        return c
    path = m.names() + [key]
    tried = []
    pos = m
    while pos.parent is not None:
        a = pos.parent
        f = a.child(a.fb) if a.fb is not None else None
        if f is None or any(f is t for t in tried):
            pos = a
            continue
        tried.append(f)
        cur = f
        for name in path[len(f.chain()):]:
            nxt = cur.child(name)
            if nxt is None:
                break
            cur = nxt
        else:
            return cur
        # where the path ended: fallbacks in there come first
        pos = cur
    return None


def snapshot(models):
    out = []
    for m in models:
        if isinstance(m.real, (FNode, BaseNode, Broken)):
            out.append((m.real.name, m.real.parent, list(m.real.keys()),
                        list(m.real.storage.values())))
    return out


def unchanged(env, before, models, tag):
    for a, b in zip(before, snapshot(models)):
        env.same(a[0], b[0], tag + ': name')
        env.same(a[1], b[1], tag + ': parent')
        env.eqlist(b[2], a[2], tag + ': keys')
        env.samelist(b[3], a[3], tag + ': children')


def build(env, parents, fbs, plain=(), leaf=None, broken=(), falsy=()):
    models = []
    for i, p in enumerate(parents):
        C = BaseNode if i in plain else Broken if i in broken else Falsy if i in falsy else FNode
        parent = models[p] if i else None
        if i:
            name = env.keyfree('k%d' % i)
            for s in parent.children:
                env.assume(not (s.name == name))
        else:
            name = env.pick('rootname', (None, 'root'))
        real = C()
        if i == leaf:
            real = env.pick('leaf', (None, 0, 'value'))
        m = M(name, parent, real)
        if i:
            parent.real[name] = real
            parent.children.append(m)
        else:
            real.__name__ = name
        if i in fbs and i not in plain and i != leaf:
            if env.bool('has%d' % i, True):
                fb = env.keyfree('f%d' % i)
                env.assume(not (fb == ''))
                m.fb = real.fallback_key = fb
        models.append(m)
    return models


def lookup(env, models, m, key, tag):
    exp = expected(m, key)
    e, r = env.raises(lambda: m.real[key], KeyError)
    env.check((e is None) == (exp is not None), tag + ': found exactly if it lies there')
    if exp is not None:
        env.same(r, exp.real, tag + ': what lies there')
        d = object()
        env.same(m.real.get(key, d), exp.real, tag + ': get')


def run(env, parents, fbs, where=None, plain=(), leaf=None, broken=(), again=None, falsy=()):
    models = build(env, parents, fbs, plain, leaf, broken, falsy)
    nodes = [m for i, m in enumerate(models) if i != leaf and i not in plain]
    if where is None:
        m = nodes[env.choice('where', len(nodes))]
    else:
        m = models[where]
    key = env.keyfree('key')
    before = snapshot(models)
    if broken:
        for i in broken:
            models[i].real.fail = True
        e, r = env.raises(lambda: m.real[key], ValueError, KeyError)
        for i in broken:
            models[i].real.fail = False
        unchanged(env, before, models, 'after an exception')
    lookup(env, models, m, key, 'first')
    unchanged(env, before, models, 'first')
    lookup(env, models, m, key, 'again')
    if again is not None:
        m2 = models[again]
        lookup(env, models, m2, env.keyfree('key2'), 'second')
        lookup(env, models, m, key, 'after second')
    unchanged(env, before, models, 'at the end')
    env.reach('end')


LARGE = (
    # two branches of the same depth
    ('two', (0, 0, 1, 2, 0, 4, 5), (0,), 3, {}),
    ('two-mid', (0, 0, 1, 2, 0, 4), (0, 1), 2, {}),
    # a fallback inside the fallback
    ('nested', (0, 0, 1, 0, 3, 3, 5), (0, 3), 2, {}),
    ('nested-deep', (0, 0, 1, 0, 3, 4, 4), (0, 3, 4), 2, {}),
    # nearest fails, farther has it
    ('farther', (0, 0, 1, 1, 0, 4, 5), (0, 1), 2, {}),
    ('two-any', (0, 0, 1, 2, 0, 4, 5), (0, 1, 4), None, {}),
    ('long', (0, 0, 1, 2, 3, 0, 5, 6, 7), (0, 1), 4, {}),
    ('three', (0, 0, 1, 0, 3, 0, 5), (0, 3, 5), 2, dict(again=4)),
    ('values', (0, 0, 1, 0, 3, 4), (0, 1), 2, dict(leaf=5)),
    ('plain', (0, 0, 1, 0, 3, 4), (0, 1, 3), 2, dict(plain=(1, 4))),
    ('broken', (0, 0, 1, 0, 3, 4), (0, 1), 2, dict(broken=(3,))),
)


def shapes(size):
    out = [(0,)]
    for i in range(1, size):
        out = [s + (p,) for s in out for p in range(i)]
    return out


def scenarios(tier):
    out = []
    q = tier == 'quick'

    def sc(name, w, **kw):
        out.append(dict(name=name, fn='run', kw=kw, weight=w, must_reach=['end'],
                        budget=150 if q else 1500))
    for size in range(1, 6 if q else 7):
        for s in shapes(size):
            if any(a > b for a, b in zip(s, s[1:])):
                continue
            sc('all-%s' % ''.join(map(str, s)), 4 ** size, parents=s, fbs=tuple(range(size)),
               again=size - 1 if size < 4 else None)
    for size in range(1, 5):
        for s in shapes(size):
            if any(a > b for a, b in zip(s, s[1:])):
                continue
            sc('falsy-%s' % ''.join(map(str, s)), 4 ** size, parents=s, fbs=tuple(range(size)),
               falsy=tuple(range(size)))
    for name, parents, fbs, where, kw in LARGE:
        sc(name, 1000, parents=parents, fbs=fbs, where=where, **kw)
    return out
