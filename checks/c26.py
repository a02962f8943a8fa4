"""Serializing and deserializing a tree gives the same tree."""
import uuid
from node.base import BaseNode
from node.base import Node
from node.base import OrderedNode
from node.behaviors import Adopt
from node.behaviors import Attributes
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Lifecycle
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.serializer import deserialize
from node.serializer import deserializer
from node.serializer import serialize
from node.serializer import serializer
from node.utils import UNSET
from plumber import plumbing
from .common import EqualNode, FalsyNode, distinct

BOUNDS = dict(
    quick='trees of 1..4 nodes of any shape; 6 classes (plain, ordered, full,  '
          'access, lifecycle) of which one is free; arbitrary names, also none for the outermost; 0..3 '
          'attributes with arbitrary names and values of 8 kinds; alone, in lists of two trees, below a '
          'given root with a child; simple mode with and without classes',
    thorough='trees of 1..6 nodes')
ASSUMPTIONS = ['the JSON text is modelled as the data it stands for; every path is replayed with '
               'the json module itself',
               'sibling names differ; string values that look like an encoded UNSET or id are left to C27']


@plumbing(Nodespaces, Attributes, NodeChildValidate, Adopt, Order, DefaultInit, Nodify, OdictStorage)
class Full(object):
    pass


class Outer(object):
    """Plumbed classes do not know that they are nested, others do."""
    class Value(object):
        pass


@plumbing(NodeChildValidate, Nodespaces, Adopt, Attributes, DefaultInit, Nodify, DictStorage)
class Access(object):
    attribute_access_for_attrs = True


@plumbing(NodeChildValidate, Nodespaces, Adopt, Attributes, Lifecycle, DefaultInit, Nodify, OdictStorage)
class Live(object):
    pass


class Sub(OrderedNode):
    pass


class Marked(OrderedNode):
    """Has data of its own, with a registered serializer."""
    def __init__(self, name=None, parent=None, mark=None):
        super(Marked, self).__init__(name=name, parent=parent)
        self.mark = mark
        self.seen = None


@serializer(Marked)
def serialize_marked(encoder, node, data):
    data['kw'] = dict(mark=node.mark)
    data['seen'] = node.mark


@deserializer(Marked)
def deserialize_marked(decoder, node, data):
    node.seen = data['seen']


class Falsy(FalsyNode, Node):
    pass


class Equal(EqualNode, Node):
    pass


CLASSES = [BaseNode, Sub, Node, Full, Access, Live, Falsy, Equal]
NAMES = ['node.base.BaseNode', 'checks.c26.Sub', 'node.base.Node', 'checks.c26.Full',
         'checks.c26.Access', 'checks.c26.Live', 'checks.c26.Falsy', 'checks.c26.Equal']
HAS_ATTRS = (Node, Full, Access, Live, Falsy, Equal)
KINDS = ('str', 'int', 'unset', 'uuid', 'list', 'class', 'function', 'plain')


def function():
    pass


def value(env, kind, tag):
    """(value, what it is in simple mode)"""
    if kind == 'str':
        s = env.str('v' + tag)
        env.assume(not (s == '<UNSET>'))
        env.assume(not s.startswith('<UUID>:'))
        return s, s
    if kind == 'int':
        i = env.int('i' + tag, -2 ** 70, 2 ** 70)
        return i, i
    if kind == 'unset':
        return UNSET, '<UNSET>'
    if kind == 'uuid':
        u = uuid.UUID(int=2 ** 127 + 5)
        return u, '<UUID>:%s' % u
    if kind == 'list':
        s = env.str('v' + tag)
        env.assume(not (s == '<UNSET>'))
        env.assume(not s.startswith('<UUID>:'))
        return [s, UNSET, [Sub]], [s, '<UNSET>', ['checks.c26.Sub']]
    if kind == 'class':
        return Outer.Value, 'checks.c26.Outer.Value'
    if kind == 'function':
        return function, 'checks.c26.function'
    v = env.pick('p' + tag, (None, True, 1.5))
    return v, v


class Model(object):
    def __init__(self, cls, name, node):
        self.cls, self.name, self.node = cls, name, node
        self.children, self.attrs = [], []


def mapping(node):
    return node.nodespaces['__attrs__']


def build(env, tag, size, cls, nattrs, kinds, free, named, last=False):
    """A tree and its model."""
    ms = []
    for i in range(size):
        if i in free:
            c = CLASSES[env.choice('%sc%d' % (tag, i), len(CLASSES) if size < 3 else 6)]
        else:
            c = CLASSES[(cls + i) % len(CLASSES)]
        if i:
            p = ms[env.choice('%sp%d' % (tag, i), i)]
            name = env.keyfree('%sn%d' % (tag, i))
            for s in p.children:
                env.assume(not (s.name == name))
            n = p.node[name] = c()
            m = Model(c, name, n)
            p.children.append(m)
        else:
            name = env.keyfree(tag + 'n0') if named else None
            m = Model(c, name, c(name=name))
        ms.append(m)
    left = nattrs
    for m in reversed(ms) if last else ms:
        if not left or m.cls not in HAS_ATTRS:
            continue
        names = [env.keyfree('%sa%d' % (tag, left - j)) for j in range(left)]
        distinct(env, names)
        for j, a in enumerate(names):
            ks = kinds[j % len(kinds)] if isinstance(kinds[0], (list, tuple)) else kinds
            k = ks[env.choice('%sk%d' % (tag, j), len(ks))]
            v, simple = value(env, k, '%s%d' % (tag, j))
            m.node.attrs[a] = v
            m.attrs.append((a, v, simple))
        left = 0
    return ms


def same(env, node, m, parent, tag, copy=True):
    env.check(type(node) is m.cls, tag + ': class')
    if m.name is None:
        env.same(node.name, None, tag + ': name')
    else:
        env.check(isinstance(node.name, str), tag + ': type of the name')
        env.eq(node.name, m.name, tag + ': name')
    env.same(node.__parent__, parent, tag + ': parent')
    env.check((node is not m.node) == copy, tag + ': the node itself')
    env.eqlist(list(node.keys()), [c.name for c in m.children], tag + ': order of children')
    for k, c in zip(list(node.keys()), m.children):
        same(env, node[k], c, node, tag, copy)
    if m.cls in HAS_ATTRS:
        a = mapping(node) if m.attrs or '__attrs__' in node.nodespaces else {}
        env.eqlist(list(a.keys()), [x[0] for x in m.attrs], tag + ': names of attributes')
        for name, v, s in m.attrs:
            equal(env, a[name], v, tag + ': attribute')


def equal(env, got, exp, tag):
    if isinstance(exp, list):
        env.check(isinstance(got, list), tag + ': list')
        env.eq(len(got), len(exp), tag + ': items')
        for g, e in zip(got, exp):
            equal(env, g, e, tag)
    elif exp is UNSET or exp is None or isinstance(exp, (bool, type)) or callable(exp):
        env.same(got, exp, tag)
    else:
        env.check(isinstance(got, str) == isinstance(exp, str)
                  and isinstance(got, int) == isinstance(exp, int)
                  and isinstance(got, float) == isinstance(exp, float)
                  and isinstance(got, uuid.UUID) == isinstance(exp, uuid.UUID), tag + ': type')
        env.eq(got, exp, tag)


def run(env, size, cls, nattrs=0, kinds=KINDS, free=(0,), named=True, mode='one', size2=2, last=False):
    ms = build(env, '', size, cls, nattrs, kinds, free, named, last)
    m = ms[0]
    if mode == 'one':
        text = serialize(m.node)
        env.check(isinstance(text, str), 'text')
        same(env, m.node, m, None, 'original', False)
        got = deserialize(text)
        same(env, got, m, None, 'copy')
        # once more, and from the copy
        again = deserialize(serialize(got))
        same(env, again, m, None, 'copy of the copy')
        env.check(again is not got, 'new node')
        same(env, got, m, None, 'copy stays')
    elif mode == 'child':
        # a part of a tree
        for c in m.children:
            same(env, deserialize(serialize(c.node)), c, None, 'part')
        same(env, m.node, m, None, 'original', False)
    elif mode == 'root':
        root = Sub(name='root')
        x = root['x'] = Sub()
        env.assume(not (m.name == 'x'))
        got = deserialize(serialize(m.node), root=root)
        env.eqlist(list(root.keys()), ['x', m.name], 'below the root')
        env.same(root['x'], x, 'other child of the root')
        env.same(root[m.name], got, 'result')
        same(env, got, m, root, 'copy')
        same(env, m.node, m, None, 'original', False)
    elif mode in ('list', 'rootlist'):
        m2 = build(env, 'b', size2, cls + 1, 0, KINDS, (), named)[0]
        root = None
        if mode == 'rootlist':
            root = Sub(name='root')
            env.assume(not (m.name == m2.name))
        text = serialize([m.node, m2.node])
        got = deserialize(text, root=root) if root is not None else deserialize(text)
        env.check(isinstance(got, list), 'list')
        env.eq(len(got), 2, 'items')
        same(env, got[0], m, root, 'first')
        same(env, got[1], m2, root, 'second')
        if root is not None:
            env.eqlist(list(root.keys()), [m.name, m2.name], 'below the root')
            env.samelist(root.values(), got, 'below the root')
        same(env, m.node, m, None, 'original', False)
        same(env, m2.node, m2, None, 'original', False)
    elif mode in ('simple', 'class'):
        text = serialize(m.node, simple_mode=True, include_class=True) if mode == 'class' \
            else serialize(m.node, simple_mode=True)
        data = env.json(text)
        plain(env, data, m, mode == 'class')
        same(env, m.node, m, None, 'original', False)
    elif mode == 'simplelist':
        data = env.json(serialize([m.node], simple_mode=True))
        env.check(isinstance(data, list) and len(data) == 1, 'list')
        plain(env, data[0], m, False)
    env.reach('end')


def marked(env, below):
    """A registered serializer of a class, within a tree."""
    a, b = env.str('a'), env.str('b')
    n, k = env.keyfree('n'), env.keyfree('k')
    top = Marked(name=n, mark=a)
    node = top
    if below:
        node = top[k] = Sub()
    c = node[k] = Marked(mark=b)
    got = deserialize(serialize(top))
    other = got[k][k] if below else got[k]
    for x, y in ((top, got), (c, other)):
        env.check(type(y) is Marked, 'class')
        env.eq(y.name, x.name, 'name')
        env.eq(y.mark, x.mark, 'argument of the constructor')
        env.eq(y.seen, x.mark, 'registered deserializer')
    env.reach('end')


def plain(env, data, m, cls):
    env.check(isinstance(data, dict), 'simple: dictionary')
    exp = ['name']
    if cls:
        exp.append('class')
        env.eq(data['class'], NAMES[CLASSES.index(m.cls)], 'simple: class')
    if m.name is None:
        env.same(data['name'], None, 'simple: name')
    else:
        env.eq(data['name'], m.name, 'simple: name')
    if m.children:
        exp.append('children')
        env.eq(len(data['children']), len(m.children), 'simple: children')
        for d, c in zip(data['children'], m.children):
            plain(env, d, c, cls)
    if m.cls in HAS_ATTRS:
        exp.append('attrs')
        env.eqlist(list(data['attrs'].keys()), [a[0] for a in m.attrs], 'simple: names of attributes')
        for a, v, s in m.attrs:
            equal(env, data['attrs'][a], s, 'simple: attribute')
    env.eqlist(sorted(data.keys()), sorted(exp), 'simple: entries')


def scenarios(tier):
    q = tier == 'quick'
    out = []

    def sc(name, w=1, **kw):
        out.append(dict(name=name, fn='run', kw=kw, weight=w, must_reach=['end'],
                        budget=150 if q else 1500))
    sizes = (1, 2, 3, 4, 5) if q else (1, 2, 3, 4, 5, 6)
    for s in sizes:
        sc('tree-%d' % s, s, size=s, cls=0, free=tuple(range(s)) if s < 4 else (0, 1) if s == 4 else (0,))
        sc('tree-%d-unnamed' % s, s, size=s, cls=2, free=(s - 1,), named=False)
    for mode in ('child', 'root', 'list', 'rootlist', 'simple', 'class', 'simplelist'):
        sc(mode, 4, size=3, cls=1, free=(0, 1), mode=mode)
        sc(mode + '-attrs', 3, size=2, cls=2, nattrs=2, free=(), mode=mode)
    for c in (2, 3, 4, 5, 6, 7):
        sc('attrs-%d' % c, 3, size=1, cls=c, nattrs=2, free=())
        sc('attrs2-%d' % c, 4, size=3, cls=c - 1 if c > 2 else 1, nattrs=2, free=(), last=True,
           kinds=[KINDS, ('str', 'unset')])
        sc('attrs3-%d' % c, 4, size=1, cls=c, nattrs=3, free=(), kinds=('str', 'list', 'class'))
    for below in (False, True):
        out.append(dict(name='registered-%s' % below, fn='marked', kw=dict(below=below), weight=1,
                        must_reach=['end'], budget=150))
    return out
