"""Node attributes: one separate mapping per node."""
from node.base import AttributedNode
from node.base import BaseNode
from node.base import Node
from node.behaviors import Adopt
from node.behaviors import Attributes
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Lifecycle
from node.behaviors import AttributesLifecycle
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors.attributes import NodeAttributes
from node.utils import UNSET
from plumber import plumbing
from .common import FalsyNode, Ref, agree, apply_op

BOUNDS = dict(
    quick='6 classes (also with custom, lifecycle and falsy attributes); two nodes of one tree with '
          'children; histories of 2 mapping operations (3 sets and deletes) on the attributes '
          'of either node with arbitrary string keys and values of 6 kinds, interleaved with a '
          'change of the children under the same key; attribute access with arbitrary names '
          'not starting with a double underscore, also after the attributes were replaced',
    thorough='histories of 3 operations of every kind, 4 sets and deletes')


@plumbing(Nodespaces, Adopt, Attributes, DefaultInit, Nodify, DictStorage)
class Plain(object):
    pass


@plumbing(Nodify, OdictStorage)
class MyAttrs(object):
    def __init__(self, name=None, parent=None):
        self.__name__ = name
        self.__parent__ = parent


@plumbing(Nodespaces, Adopt, Attributes, DefaultInit, Nodify, OdictStorage)
class Custom(object):
    attributes_factory = MyAttrs


class EmptyFalse(NodeAttributes):
    """False while empty, equal to every mapping of its size."""

    def __bool__(self):
        return len(self) > 0

    __nonzero__ = __bool__

    def __eq__(self, other):
        return len(self) == len(other)

    __hash__ = object.__hash__


@plumbing(Nodespaces, Adopt, Attributes, DefaultInit, Nodify, OdictStorage)
class FalseAttrs(FalsyNode):
    attributes_factory = EmptyFalse


@plumbing(AttributesLifecycle)
class LiveAttrs(NodeAttributes):
    pass


@plumbing(Nodespaces, Adopt, Lifecycle, Attributes, DefaultInit, Nodify, OdictStorage)
class Live(object):
    attributes_factory = LiveAttrs


class Falsy(object):
    def __bool__(self):
        return False


CLASSES = dict(FalseAttrs=FalseAttrs, Plain=Plain, Custom=Custom, Live=Live, Node=Node, AttributedNode=AttributedNode)
OPS = ('set', 'del', 'get', 'setdefault', 'pop', 'popitem', 'update_map', 'update_pairs',
       'clear', 'has_key')


def check(env, nodes, refs, children, tag):
    for i, n in enumerate(nodes):
        a = n.attrs
        env.same(n.attrs, a, tag + ': one attributes mapping')
        env.same(n.attributes, a, tag + ': attributes alias')
        env.same(a.parent, n, tag + ': parent of attributes')
        env.eq(a.name, '__attrs__', tag + ': name of attributes')
        agree(env, a, refs[i], tag + ': attributes of node %d' % i)
        env.eqlist(n.keys(), children[i].keys(), tag + ': children keys')
        env.samelist(n.values(), children[i].values(), tag + ': children')
        env.check(all(n.attrs is not m.attrs for m in nodes if m is not n), tag + ': own mapping')


def run(env, cls, nops, oplist, first=None):
    C = CLASSES[cls]
    root = C(name='root')
    kid = C()
    root['kid'] = kid
    nodes = [root, kid]
    refs = [Ref(), Ref()]
    kept = [n.attrs for n in nodes] if env.bool('kept') else None
    children = [Ref([('kid', kid)]), Ref()]
    if kept is None and env.bool('early'):
        check(env, nodes, refs, children, 'new')
    pool = [None, Falsy(), UNSET, object(), 'text', BaseNode(name='v')]
    if cls == 'Custom':
        pool = pool[:-1]
    ck = None
    for j in range(nops):
        op = first if first and not j else oplist[env.choice('op%d' % j, len(oplist))]
        w = env.choice('which%d' % j, 2)
        key = env.str('k%d' % j)
        v = pool[env.choice('v%d' % j, len(pool))] if j == 0 and op == 'set' else ('v', j)
        two = op.startswith('update')
        key2 = env.str('l%d' % j) if two else None
        apply_op(env, op, nodes[w].attrs, refs[w], key, v, 'op%d' % j, key2, ('w', j))
        if j == 0 and env.bool('child'):
            # a child under the same key
            env.assume(not (key.startswith('__')))
            env.assume(not (key == 'kid'))
            c = C()
            nodes[w][key] = c
            children[w].set(key, c)
            ck = w, key
        check(env, nodes, refs, children, 'after op%d %s' % (j, op))
    if kept is not None:
        env.samelist([n.attrs for n in nodes], kept, 'the same mappings as before')
    if ck is not None:
        w, key = ck
        del nodes[w][key]
        children[w].delete(key)
        check(env, nodes, refs, children, 'child removed')
    env.reach('end')


def access(env, cls):
    """Attribute style access."""
    C = CLASSES[cls]
    node = C(name='n')
    kid = node['kid'] = C()
    if env.bool('class'):
        class Sub(C):
            attribute_access_for_attrs = True
        node = Sub(name='n')
        node['kid'] = kid
    else:
        node.attribute_access_for_attrs = True
    k, l, m = env.keyfree('k'), env.keyfree('l'), env.keyfree('m')
    pool = [None, Falsy(), UNSET, object()]
    v = pool[env.choice('v', len(pool))]
    w = object()
    ref = Ref()
    for n, x, how in ((k, v, 'a'), (l, w, 'b')):
        h = env.choice(how, 3)
        if h == 0:
            env.setattr(node.attrs, n, x)
        elif h == 1:
            node.attrs[n] = x
        else:
            node.attribute_access_for_attrs = False
            node.attrs[n] = x
            node.attribute_access_for_attrs = True
        ref.set(n, x)
    for n in (k, l, m):
        has = ref.has(n)
        e, r = env.raises(lambda: env.getattr(node.attrs, n), AttributeError)
        env.check((e is None) == has, 'AttributeError exactly when missing')
        e, i = env.raises(lambda: node.attrs[n], KeyError)
        env.check((e is None) == has, 'KeyError exactly when missing')
        env.check(env.hasattr(node.attrs, n) == has, 'hasattr')
        if has:
            env.same(r, ref.get(n), 'attribute')
            env.same(i, ref.get(n), 'item')
    if env.bool('delete'):
        e, r = env.raises(lambda: node.attrs.__delitem__(m), KeyError)
        env.check((e is None) == ref.has(m), 'delete: KeyError exactly when missing')
        ref.delete(m)
    node.attribute_access_for_attrs = False
    agree(env, node.attrs, ref, 'plain attributes')
    env.samelist(node.values(), [kid], 'children')
    agree(env, kid.attrs, Ref(), 'attributes of the child')
    env.reach('end')


def replaced(env, cls):
    """Other attributes take the place of those accessed so far."""
    C = CLASSES[cls]
    node = C(name='n')
    node.attribute_access_for_attrs = env.bool('access')
    k, l = env.keyfree('k'), env.keyfree('l')
    v, w = object(), object()
    if env.bool('before'):
        node.attrs[k] = v
    else:
        node.attrs
    new = C.attributes_factory(name='__attrs__', parent=node)
    ref = Ref()
    how = env.pick('replace', ('set', 'nodespaces', 'del', 'delset'))
    if how != 'del' and env.bool('filled'):
        new[k] = v
        ref.set(k, v)
    if how.startswith('del'):
        del node['__attrs__']
    if how == 'nodespaces':
        node.nodespaces['__attrs__'] = new
    elif how != 'del':
        node['__attrs__'] = new
    if env.bool('later'):
        node.attribute_access_for_attrs = True
    node.attrs[l] = w
    ref.set(l, w)
    for x in (k, l):
        e, r = env.raises(lambda: node.attrs[x], KeyError)
        env.check((e is None) == ref.has(x), 'found exactly if it was set on the new attributes')
        if e is None:
            env.same(r, ref.get(x), 'item')
        if node.attribute_access_for_attrs:
            e, r = env.raises(lambda: env.getattr(node.attrs, x), AttributeError)
            env.check((e is None) == ref.has(x), 'attribute')
    node.attribute_access_for_attrs = False
    if how != 'del':
        env.same(node.attrs, new, 'the new attributes')
    agree(env, node.attrs, ref, 'the new attributes')
    env.reach('end')


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for c in CLASSES:
        first = ('set', 'setdefault', 'update_map', 'update_pairs') if not q else \
            dict(FalseAttrs=('del',), Plain=('set', 'update_map'), Node=('setdefault',), AttributedNode=('set',),
                 Custom=('set',), Live=('update_pairs',))[c]
        for op in first:
            out.append(dict(name='%s-%s' % (c, op), fn='run', weight=6, must_reach=['end'],
                            kw=dict(cls=c, first=op, oplist=OPS, nops=2 if q else 3),
                            budget=150 if q else 1500))
        out.append(dict(name='%s-setdel' % c, fn='run', weight=6, must_reach=['end'],
                        kw=dict(cls=c, first='set', oplist=('set', 'del'), nops=3 if q else 4),
                        budget=150 if q else 1500))
        out.append(dict(name='%s-access' % c, fn='access', weight=3, must_reach=['end'],
                        kw=dict(cls=c), budget=150 if q else 1500))
        out.append(dict(name='%s-replaced' % c, fn='replaced', must_reach=['end'],
                        kw=dict(cls=c), budget=150 if q else 1500))
    return out
