"""Copies are independent of the original."""
from node.base import AttributedNode
from node.base import BaseNode
from node.base import Node
from node.base import OrderedNode
from node.behaviors import Adopt
from node.behaviors import Alias
from node.behaviors import Attributes
from node.behaviors import AttributesLifecycle
from node.behaviors import Cache
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Invalidate
from node.behaviors import Lifecycle
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors.alias import PrefixAliaser
from node.behaviors.attributes import NodeAttributes
from node.locking import TreeLock
from node.utils import AttributeAccess
from node.utils import UNSET
from plumber import plumbing
from .common import EqualNode, FalsyNode, Ref, agree, new_keys

BOUNDS = dict(
    quick='deep copies of any node of trees of 1..3 nodes in every shape and 10 classes (mixed in '
          'trees of 2), with values that are no nodes (strings, lists, None, UNSET, classes), '
          'attributes (also with attribute access and lifecycle) and used tree locks, names and '
          'values arbitrary strings; then 1 of 7 changes anywhere in either tree; shallow copies '
          'in 10 classes with 0..2 children under arbitrary keys, then 2 changes of children '
          '(1 with referencing nodes) on either',
    thorough='deep copies of trees of up to 4 nodes; 3 changes after shallow copies, 3 children')


class Values(BaseNode):
    allow_non_node_childs = True


@plumbing(Nodify, OdictStorage)
class Plain(object):
    pass


@plumbing(Cache, Invalidate, Adopt, DefaultInit, Nodify, DictStorage)
class Cached(object):
    pass


@plumbing(Alias, Adopt, DefaultInit, Nodify, OdictStorage)
class Aliased(object):
    aliaser = PrefixAliaser('p-')


@plumbing(AttributesLifecycle)
class LiveAttrs(NodeAttributes):
    pass


@plumbing(Nodespaces, Adopt, Lifecycle, Attributes, Order, DefaultInit, Nodify, OdictStorage)
class Live(object):
    attributes_factory = LiveAttrs


@plumbing(Nodespaces, Adopt, Attributes, DefaultInit, Nodify, DictStorage)
class Access(object):
    attribute_access_for_attrs = True


class Falsy(FalsyNode, OrderedNode):
    pass


class Equal(EqualNode, BaseNode):
    pass


CLASSES = dict(BaseNode=BaseNode, OrderedNode=OrderedNode, Node=Node,
               AttributedNode=AttributedNode, Values=Values, Plain=Plain, Cached=Cached,
               Aliased=Aliased, Live=Live, Access=Access, Falsy=Falsy, Equal=Equal)
ATTRS = (Node, AttributedNode, Live, Access)
NODES = tuple(CLASSES.values())
REFS = (Node, AttributedNode)


class Image(object):
    """What a tree contains."""

    def __init__(self, node):
        self.node = node
        self.cls = type(node)
        self.name = node.__name__
        self.parent = node.__parent__
        self.keys = list(node.keys())
        self.values = list(node.values())
        self.attrs = self.items = None
        if isinstance(node, ATTRS):
            a = attrs(node)
            self.attrs = a
            self.items = [(k, v, list(v) if isinstance(v, list) else v)
                          for k, v in a.items()]
        self.lists = [list(v) if isinstance(v, list) else v for v in self.values]
        self.kids = [Image(v) if isinstance(v, NODES) else None for v in self.values]

    def nodes(self):
        out = [self]
        for k in self.kids:
            if k is not None:
                out.extend(k.nodes())
        return out


def attrs(node):
    a = node.attrs
    if isinstance(a, AttributeAccess):
        a = object.__getattribute__(a, 'context')
    return a


def unchanged(env, img, tag):
    """The tree still is what the image says."""
    for i in img.nodes():
        now = Image(i.node)
        env.check(now.name is i.name or now.name == i.name, tag + ': name')
        env.same(now.parent, i.parent, tag + ': parent')
        env.eqlist(now.keys, i.keys, tag + ': keys')
        env.samelist(now.values, i.values, tag + ': children')
        for a, b in zip(now.lists, i.lists):
            if isinstance(a, list):
                env.samelist(a, b, tag + ': content of a value')
        if i.attrs is not None:
            env.same(now.attrs, i.attrs, tag + ': attributes')
            env.eqlist([x[0] for x in now.items], [x[0] for x in i.items], tag + ': names')
            env.samelist([x[1] for x in now.items], [x[1] for x in i.items], tag + ': values')
            for a, b in zip(now.items, i.items):
                if isinstance(a[2], list):
                    env.samelist(a[2], b[2], tag + ': content of an attribute')


def value(env, a, b, tag):
    """b is a copy of the value a."""
    env.check(type(a) is type(b), tag + ': type')
    if isinstance(a, list):
        env.check(a is not b, tag + ': new list')
        env.eqlist(b, a, tag + ': content')
    elif a is None or a is UNSET or isinstance(a, type):
        env.same(b, a, tag)
    else:
        env.eq(b, a, tag)


def copied(env, a, b, old, tag):
    """Image b shows a copy of the tree image a shows."""
    env.check(a.cls is b.cls, tag + ': class')
    env.check(not any(b.node is o for o in old), tag + ': new object')
    env.check(b.name is a.name or b.name == a.name, tag + ': name')
    env.eqlist(b.keys, a.keys, tag + ': keys')
    for i, k in enumerate(a.kids):
        if k is None:
            value(env, a.values[i], b.values[i], tag + ': value')
        else:
            env.check(b.kids[i] is not None, tag + ': child')
            if b.cls is not Plain:
                env.same(b.values[i].__parent__, b.node, tag + ': parent of a child')
            copied(env, k, b.kids[i], old, tag)
    if a.attrs is not None:
        env.check(a.attrs is not b.attrs, tag + ': own attributes')
        env.same(b.attrs.parent, b.node, tag + ': parent of the attributes')
        env.eqlist([x[0] for x in b.items], [x[0] for x in a.items], tag + ': attribute names')
        for x, y in zip(a.items, b.items):
            value(env, x[1], y[1], tag + ': attribute')


def prefixed(env, node, key):
    return 'p-' + key if isinstance(node, Aliased) else key


def deep(env, size, classes, symbolic=True):
    picks = [CLASSES[c] for c in classes]
    nodes, used = [], []
    for i in range(size):
        C = picks[env.choice('cls%d' % i, len(picks))] if i else picks[0]
        n = C()
        if C is not Plain:
            n.__name__ = env.str('name') if not i and symbolic else 'n%d' % i
        if i:
            p = env.choice('par%d' % i, i)
            key = env.keyfree('k%d' % i) if symbolic and i == 1 else 'k%d' % i
            if symbolic and i > 1:
                env.assume(not (key == used[0]))
            used.append(key)
            nodes[p][prefixed(env, nodes[p], key)] = n
        nodes.append(n)
    pool = [['x', UNSET], UNSET, None, BaseNode]
    for i, n in enumerate(nodes):
        if i and i + 1 < size:
            continue
        v = env.str('value') if not i and symbolic else 'v'
        if isinstance(n, (Plain, Values)):
            n['value'] = v
            n['list'] = pool[env.choice('other', len(pool))]
            if used and symbolic:
                env.assume(not (used[0] == 'value') and not (used[0] == 'list'))
        if isinstance(n, ATTRS) and (size == 3 or env.bool('attrs%d' % i)):
            a = attrs(n)
            a[env.str('attr') if not i and symbolic else 'attr'] = v
            a['list'] = pool[env.choice('other', 1 if size == 3 else len(pool))]
    if env.bool('lock'):
        with TreeLock(nodes[-1]):
            pass
    if any(isinstance(n, Cached) for n in nodes):
        for n in nodes:
            n.values()
    w = env.choice('src', size)
    src = nodes[w]
    before = Image(nodes[0])
    cp = src.deepcopy()
    unchanged(env, before, 'original')
    a = Image(src)
    b = Image(cp)
    copied(env, a, b, nodes, 'copy')
    env.check(not any(cp.root is n for n in nodes), 'root of the copy')
    if w and picks[0] is not Plain:
        # the parent is a copy as well, or there is none
        env.check(cp.parent is None or not any(cp.parent is n for n in nodes), 'parent')
    if isinstance(src, REFS):
        for x, y in zip(a.nodes(), b.nodes()):
            if isinstance(x.node, REFS):
                env.same(src.node(x.node.uuid), x.node, 'lookup in the original')
                env.same(cp.node(y.node.uuid), y.node, 'lookup in the copy')
    # a change in either tree
    both = [i.node for i in b.nodes()]
    mine = [i.node for i in a.nodes()]
    side = env.bool('side')
    x = env.pick('where', both if side else mine)
    img = before if side else b
    op = env.pick('change', ('add', 'del', 'replace', 'name', 'attr', 'list', 'clear'))
    C = type(x)
    new = C()
    keys = x.keys()
    nk = [k for k in keys if isinstance(x[k], NODES)]
    if op == 'add':
        x[prefixed(env, x, 'zz')] = new
        env.same(x[prefixed(env, x, 'zz')], new, 'added')
    elif op == 'del' and keys:
        del x[keys[0]]
    elif op == 'replace' and nk:
        x[nk[0]] = new
    elif op == 'name':
        x.__name__ = 'renamed'
        if C is Plain:
            x.__parent__ = new
    elif op == 'attr' and isinstance(x, ATTRS):
        attrs(x)['new'] = 1
        attrs(x)['list'] = 2
    elif op == 'list':
        for v in list(x.values()) + (list(attrs(x).values()) if isinstance(x, ATTRS) else []):
            if isinstance(v, list):
                v.append('more')
    elif op == 'clear':
        x.clear()
    if isinstance(src, REFS) and isinstance(x, REFS) and op == 'add':
        other = src if side else cp
        env.same(other.node(new.uuid), None, 'index of the other tree')
    unchanged(env, img, 'other tree after %s' % op)
    env.reach('end')


def shallow(env, cls, n, nops, first=None):
    C = CLASSES[cls]
    node = C()
    parent = None
    if cls != 'Plain':
        parent = BaseNode(name='root')
        if env.bool('named'):
            parent['n'] = node
    elif env.bool('named'):
        parent = node.__parent__ = BaseNode(name='root')
        node.__name__ = 'n'
    ref = Ref()
    keys = new_keys(env, n, kind='keyfree')
    for k in keys:
        v = C()
        node[prefixed(env, node, k)] = v
        ref.set(prefixed(env, node, k), v)
    if cls in ('Plain', 'Values') and env.bool('value'):
        for k in keys:
            env.assume(not (k == 'value'))
        v = node['value'] = ['v']
        ref.set('value', v)
    if cls == 'Cached':
        node.values()
    if env.bool('lock'):
        with TreeLock(node):
            pass
    cp = node.copy()
    env.check(type(cp) is type(node) and cp is not node, 'class')
    env.check(cp.__name__ is node.__name__ or cp.__name__ == node.__name__, 'name')
    env.same(cp.__parent__, node.__parent__, 'parent')
    if cls != 'Plain' and parent.keys():
        env.same(parent['n'], node, 'child of the parent')
    sides, refs = [node, cp], [ref, ref.copy()]
    for s, r in zip(sides, refs):
        agree(env, s, r, 'children')
    if cls != 'Plain':
        for v in ref.values():
            if isinstance(v, NODES):
                env.same(v.__parent__, node, 'parent of a child')
    for j in range(nops):
        op = first if first and not j else env.pick(
            'op%d' % j, ('set', 'del', 'pop', 'popitem', 'clear', 'setdefault', 'update', 'first'))
        w = env.choice('which%d' % j, 2)
        s, r = sides[w], refs[w]
        k = None if op in ('popitem', 'clear') else env.keyfree('o%d' % j)
        if k is not None:
            k = prefixed(env, s, k)
        v = C()
        has = k is not None and r.has(k)
        if op == 'set':
            s[k] = v
            r.set(k, v)
        elif op in ('del', 'pop'):
            e, x = env.raises(lambda: s.pop(k) if op == 'pop' else s.__delitem__(k), KeyError)
            env.check((e is None) == has, op + ': KeyError exactly when missing')
            r.delete(k)
        elif op == 'popitem':
            if len(r):
                s.popitem()
                r.delete(r.keys()[-1])
        elif op == 'clear':
            s.clear()
            r.e = []
        elif op == 'setdefault':
            s.setdefault(k, v)
            if not has:
                r.set(k, v)
        elif op == 'update':
            s.update([(k, v)])
            r.set(k, v)
        elif isinstance(s, (Node, AttributedNode, Live)) and not has:
            v.__name__ = k
            s.insertfirst(v)
            r.e.insert(0, [k, v])
        for s, r in zip(sides, refs):
            agree(env, s, r, 'after %s' % op, full=not j)
    env.reach('end')


def scenarios(tier):
    q = tier == 'quick'
    out = []
    for c in CLASSES:
        out.append(dict(name='deep-1-%s' % c, fn='deep', weight=2, must_reach=['end'],
                        kw=dict(size=1, classes=(c,)), budget=150 if q else 1500))
        if q and c == 'AttributedNode':
            continue
        out.append(dict(name='deep-2-%s' % c, fn='deep', weight=3, must_reach=['end'],
                        kw=dict(size=2, classes=(c,)), budget=150 if q else 1500))
        if c in ('BaseNode', 'Node', 'OrderedNode') or not q:
            out.append(dict(name='deep-3-%s' % c, fn='deep', weight=6, must_reach=['end'],
                            kw=dict(size=3, classes=(c,)), budget=150 if q else 1500))
        if not q:
            out.append(dict(name='deep-4-%s' % c, fn='deep', weight=9, must_reach=['end'],
                            kw=dict(size=4, classes=(c,), symbolic=False), budget=2500))
    for c in (('Values', 'Node', 'Cached'), ('Live', 'BaseNode', 'Aliased')):
        out.append(dict(name='deep-mixed-%s' % c[0], fn='deep', weight=3, must_reach=['end'],
                        kw=dict(size=2, classes=c, symbolic=False), budget=150 if q else 1500))
    for c in CLASSES:
        nops = 1 if c in ('Node', 'AttributedNode') else 2
        if q and nops == 2 and c not in ('BaseNode', 'Cached', 'OrderedNode'):
            nops = 1
        if not q:
            nops += c not in ('Node', 'AttributedNode')
        out.append(dict(name='shallow-%s' % c, fn='shallow', weight=4, must_reach=['end'],
                        kw=dict(cls=c, n=1 if q and nops == 2 else 2, nops=nops),
                        budget=150 if q else 2500))
        if c in ('BaseNode', 'Plain', 'Cached', 'Node'):
            out.append(dict(name='shallow-%s-0' % c, fn='shallow', weight=2, must_reach=['end'],
                            kw=dict(cls=c, n=0, nops=1 if c == 'Node' else 2),
                            budget=150 if q else 1500))
    return out
