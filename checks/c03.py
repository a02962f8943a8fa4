"""Linkage of nodes: name, parent, path, root, lookup by path."""
from node.base import AttributedNode
from node.base import BaseNode
from node.base import Node
from node.base import OrderedNode
from node.behaviors import Adopt
from node.behaviors import DefaultInit
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.utils import node_by_path
from plumber import plumbing
from .common import EqualNode, distinct

BOUNDS = dict(
    quick='trees of up to 4 nodes of 7 classes (two of false or all-equal nodes) in every shape, arbitrary keys '
          'and root name (not reserved for nodespaces; for lookup by path strings non-empty and '
          'without slash), one further put by '
          'each assignment or insertion operation of a new or an already placed node at every place; '
          'topmost nodes in up to 2 objects that are no nodes',
    thorough='trees of up to 5 nodes; two further puts')


@plumbing(Adopt, Order, DefaultInit, Nodify, OdictStorage)
class Orderable(object):
    pass


class Falsy(OrderedNode):
    def __bool__(self):
        return False


class Equal(EqualNode, OrderedNode):
    pass


CLASSES = dict(Falsy=Falsy, Equal=Equal, BaseNode=BaseNode, OrderedNode=OrderedNode, Node=Node,
               AttributedNode=AttributedNode, Orderable=Orderable)
PUT = ('setitem', 'setdefault', 'update_map', 'update_pairs', 'update_kw')
INSERT = ('insertbefore', 'insertafter', 'insertfirst', 'insertlast')


class Model(object):
    def __init__(self, root):
        self.children = {id(root): []}       # id(node) -> [[key, node]]
        self.nodes = [root]
        self.link = {}                       # id(node) -> (parent, key)

    def find(self, parent, key):
        for e in self.children[id(parent)]:
            if e[0] is key or e[0] == key:
                return e
        return None

    def add(self, node):
        self.children[id(node)] = []
        self.nodes.append(node)

    def put(self, parent, key, node):
        e = self.find(parent, key)
        if e is not None:
            e[1] = node
        else:
            self.children[id(parent)].append([key, node])
        self.link[id(node)] = (parent, key)

    def chain(self, node):
        """Node and its ancestors; None if a link was overwritten."""
        out = [node]
        while id(node) in self.link:
            p, k = self.link[id(node)]
            if not any(e[1] is node and (e[0] is k or e[0] == k)
                       for e in self.children[id(p)]):
                return None
            node = p
            out.append(p)
        return out

    def under(self, a, b):
        """b is a or below a"""
        while True:
            if b is a:
                return True
            if id(b) not in self.link:
                return False
            b = self.link[id(b)][0]


def check(env, m, root, rootname, tag, free=False):
    for node in m.nodes:
        chain = m.chain(node)
        if chain is None or chain[-1] is not root:
            continue
        if node is root:
            env.same(node.parent, None, tag + ': parent of root')
            names = [rootname]
        else:
            p, k = m.link[id(node)]
            env.check(node.name == k, tag + ': name')
            env.check(node.__name__ == k, tag + ': __name__')
            env.same(node.parent, p, tag + ': parent')
            env.same(node.__parent__, p, tag + ': __parent__')
            names = [rootname] + [m.link[id(n)][1] for n in reversed(chain[:-1])]
        env.eqlist(node.path, names, tag + ': path')
        env.same(node.root, root, tag + ': root')
        rel = names[1:]
        env.same(node_by_path(root, rel), node, tag + ': lookup by key list')
        if rel:
            env.same(node_by_path(root, tuple(rel)), node, tag + ': lookup by tuple')
            if free:
                continue
            s = rel[0]
            for r in rel[1:]:
                s = s + '/' + r
            env.same(node_by_path(root, s), node, tag + ': lookup by path')
            env.same(node_by_path(root, '/' + s), node, tag + ': lookup by /path')
            env.same(node_by_path(root, s + '/'), node, tag + ': lookup by path/')
            env.same(node_by_path(root, '/' + s + '/'), node, tag + ': lookup by /path/')
        else:
            for s in ('', '/', '//', [], ()):
                env.same(node_by_path(root, s), node, tag + ': lookup of root')


def run(env, cls, size, puts, free=False):
    sym = env.keyfree if free else env.key
    C = CLASSES[cls]
    order = hasattr(C, 'insertbefore')
    ref = cls in ('Node', 'AttributedNode')
    rootname = sym('rootname') if env.bool('named') else None
    root = C(name=rootname)
    m = Model(root)
    for i in range(1, size):
        p = m.nodes[env.choice('par%d' % i, len(m.nodes))]
        k = sym('k%d' % i)
        env.assume(m.find(p, k) is None)
        n = C()
        p[k] = n
        m.add(n)
        m.put(p, k, n)
    if puts == 0:
        check(env, m, root, rootname, 'built', free)
    for j in range(puts):
        t = m.nodes[env.choice('t%d' % j, len(m.nodes))]
        methods = PUT + (INSERT if order else ())
        how = methods[env.choice('how%d' % j, len(methods))]
        key = sym('a%d' % j)
        which = env.choice('w%d' % j, len(m.nodes))
        if which == 0:
            n = C()
            m.add(n)
        else:
            n = m.nodes[which]
            env.assume(not m.under(n, t))
            # a node that was replaced earlier is still linked, not contained
            env.assume(m.chain(n) is not None)
            if ref or env.bool('detach%d' % j):
                p, k = m.link[id(n)]
                r = p.detach(k)
                env.same(r, n, 'detach gives the node')
                m.children[id(p)] = [e for e in m.children[id(p)] if e[1] is not n]
                del m.link[id(n)]
        if how in INSERT:
            sib = m.children[id(t)]
            env.assume(id(n) not in m.link)      # new or detached
            env.assume(m.find(t, key) is None)
            n.__name__ = key
            if how in ('insertfirst', 'insertlast'):
                getattr(t, how)(n)
            else:
                env.assume(len(sib) > 0)
                r = sib[env.choice('ref%d' % j, len(sib))][1]
                # the reference is addressed by its name
                env.assume(m.link[id(r)][0] is t)
                getattr(t, how)(n, r)
            m.put(t, key, n)
        elif how == 'setdefault':
            e = m.find(t, key)
            r = t.setdefault(key, n)
            if e is None:
                m.put(t, key, n)
            env.same(r, n if e is None else e[1], 'setdefault result')
        else:
            if how == 'setitem':
                t[key] = n
            elif how == 'update_map':
                t.update({key: n})
            elif how == 'update_pairs':
                t.update([(key, n)])
            else:
                for bad in ('self', '_next', 'args', 'kw'):
                    env.assume(not (key == bad))
                t.update(**{key: n})
            m.put(t, key, n)
        check(env, m, root, rootname, '%s' % how, free)
    env.reach('end')


def attrs(env, cls):
    """Nodespaces are linked like children."""
    C = CLASSES[cls]
    root = C(name=env.key('rootname'))
    k = env.key('k')
    c = root[k] = C()
    a = c.attrs
    env.same(a.parent, c, 'attrs parent')
    env.eq(a.name, '__attrs__', 'attrs name')
    env.eqlist(a.path, [root.name, k, '__attrs__'], 'attrs path')
    env.same(a.root, root, 'attrs root')
    env.same(node_by_path(root, [k, '__attrs__']), a, 'attrs lookup')
    v = a[env.str('an')] = BaseNode()
    env.check(v.name == env.str('an'), 'node in attrs: name')
    env.same(v.parent, a, 'node in attrs: parent')
    env.same(v.root, root, 'node in attrs: root')
    env.eqlist(v.path, [root.name, k, '__attrs__', env.str('an')], 'node in attrs: path')
    env.reach('end')


class Stranger(object):
    """Only has a name."""
    def __init__(self, name):
        self.name = name


class Located(Stranger):
    __parent__ = None


def stranger(env, cls):
    """The topmost node lies in something that is no node."""
    C = CLASSES[cls]
    outer = [Stranger, Located][env.choice('kind', 2)](env.keyfree('outer'))
    if env.bool('twice'):
        parent = Located(env.keyfree('between'))
        parent.__parent__ = outer
        path = [outer.name, parent.name]
    else:
        parent = outer
        path = [outer.name]
    top = C(name=env.keyfree('top'), parent=parent)
    env.same(top.parent, parent, 'parent')
    env.same(top.root, outer, 'root')
    env.eqlist(top.path, path + [top.name], 'path')
    k = env.keyfree('k')
    child = top[k] = C()
    env.same(child.parent, top, 'child: parent')
    env.same(child.root, outer, 'child: root')
    env.eqlist(child.path, path + [top.name, k], 'child: path')
    env.reach('end')


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for c in CLASSES:
        out.append(dict(name='%s-stranger' % c, fn='stranger', weight=1, kw=dict(cls=c),
                        must_reach=['end']))
        for size in range(1, 5 if q else 6):
            out.append(dict(name='%s-%d' % (c, size), fn='run', weight=1,
                            kw=dict(cls=c, size=size, puts=0), must_reach=['end']))
        for size in range(1, 4 if q else 5):
            out.append(dict(name='%s-%d-put' % (c, size), fn='run', weight=size ** 2,
                            kw=dict(cls=c, size=size, puts=1), must_reach=['end'],
                            budget=100 if q else 900))
        for size in (2, 3):
            out.append(dict(name='%s-%d-put-free' % (c, size), fn='run', weight=size ** 2,
                            kw=dict(cls=c, size=size, puts=1, free=True), must_reach=['end'],
                            budget=100 if q else 900))
        if not q:
            out.append(dict(name='%s-3-put2' % c, fn='run', weight=30,
                            kw=dict(cls=c, size=3, puts=2), must_reach=['end'], budget=1500))
    for c in ('Node', 'AttributedNode'):
        out.append(dict(name='%s-attrs' % c, fn='attrs', kw=dict(cls=c), must_reach=['end']))
    return out
