"""Nodespaces and children never mix."""
from node.base import AttributedNode
from node.base import BaseNode
from node.base import Node
from node.behaviors import Adopt
from node.behaviors import Attributes
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from plumber import plumbing
from .common import Ref

BOUNDS = dict(
    quick='3 classes; histories of 2 set/delete/setdefault/pop/update/clear/popitem operations '
          'through the node or through its nodespaces mapping (3 for set and delete) with arbitrary '
          'string keys, then reads of an arbitrary key (not after histories of 3); one name space node set '
          '3 times on any of two nodes under any of two names',
    thorough='histories of 3 operations of every kind, 4 of set and delete')


@plumbing(Nodespaces, Adopt, Attributes, DefaultInit, Nodify, DictStorage)
class Plain(object):
    pass


class Special(BaseNode):
    """False and equal to everything."""

    def __bool__(self):
        return False

    __nonzero__ = __bool__

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = object.__hash__


CLASSES = dict(Plain=Plain, Node=Node, AttributedNode=AttributedNode)
OPS = ('set', 'del', 'nsset', 'nsdel', 'setdefault', 'pop', 'update', 'clear', 'popitem')


def reserved(key):
    """The key addresses a nodespace."""
    return bool(key.startswith('__')) and bool(key.endswith('__'))


def check(env, node, kids, spaces, tag):
    env.eqlist(node.keys(), kids.keys(), tag + ': children keys')
    env.samelist(node.values(), kids.values(), tag + ': children')
    env.eqlist(list(node), kids.keys(), tag + ': iteration')
    env.eq(len(node), len(kids), tag + ': number of children')
    for k, v in kids.items():
        env.same(node[k], v, tag + ': child')
    ns = node.nodespaces
    env.same(node.nodespaces, ns, tag + ': one nodespaces mapping')
    env.same(ns['__children__'], node, tag + ': children nodespace')
    env.same(node['__children__'], node, tag + ': children nodespace by key')
    env.eq(len(ns), len(spaces) + 1, tag + ': number of nodespaces')
    for k, (v, known) in spaces.items():
        env.same(node[k], v, tag + ': nodespace by key')
        env.same(ns[k], v, tag + ': nodespace in mapping')
        if known:
            env.check(v.__name__ == k, tag + ': name of nodespace')
            env.same(v.__parent__, node, tag + ': parent of nodespace')
            env.same(v.root, node, tag + ': root of nodespace')
    for k in ns.keys():
        env.check(k == '__children__' or spaces.has(k), tag + ': keys of nodespaces')


def run(env, cls, oplist, nops, probe=True, first=None):
    C = CLASSES[cls]
    node = C(name='node')
    kids, spaces = Ref(), Ref()
    if not probe or env.bool('early'):
        check(env, node, kids, spaces, 'new')
    for j in range(nops):
        op = first if first and not j else oplist[env.choice('op%d' % j, len(oplist))]
        tag = 'op%d %s' % (j, op)
        key = env.str('k%d' % j) if op not in ('clear', 'popitem') else None
        if op in ('nsset', 'nsdel'):
            # everything stored through the mapping is a nodespace
            env.assume(reserved(key))
        # what a node does with its own children nodespace being replaced
        # or removed is not specified
        if key is not None:
            env.assume(not (key == '__children__'))
        space = key is not None and reserved(key)
        ref = spaces if space else kids
        val = C()
        if op == 'set' or op == 'update':
            if op == 'set':
                node[key] = val
            else:
                node.update([(key, val)])
            ref.set(key, (val, True) if space else val)
        elif op == 'nsset':
            node.nodespaces[key] = val
            spaces.set(key, (val, False))
        elif op == 'setdefault':
            r = node.setdefault(key, val)
            old = ref.get(key)
            if old is None:
                ref.set(key, (val, True) if space else val)
                old = val
            elif space:
                old = old[0]
            env.same(r, old, tag + ' result')
        elif op in ('del', 'nsdel', 'pop'):
            call = dict(
                nsdel=lambda: node.nodespaces.__delitem__(key),
                pop=lambda: node.pop(key))
            call['del'] = lambda: node.__delitem__(key)
            e, r = env.raises(call[op], KeyError)
            env.check((e is None) == ref.has(key), tag + ': KeyError exactly when missing')
            if op == 'pop' and e is None:
                v = ref.get(key)
                env.same(r, v[0] if space else v, tag + ' result')
            ref.delete(key)
        elif op == 'clear':
            node.clear()
            kids.e = []
        elif op == 'popitem':
            e, r = env.raises(node.popitem, KeyError)
            env.check((e is None) == (len(kids) > 0), tag + ': KeyError exactly when empty')
            if e is None:
                env.same(r[1], kids.values()[-1], tag + ' result')
                kids.delete(kids.keys()[-1])
        check(env, node, kids, spaces, 'after ' + tag)
    if not probe:
        env.reach('end')
        return
    # reads of an arbitrary key
    probe = env.str('probe')
    env.assume(not (probe == '__children__'))
    ref = spaces if reserved(probe) else kids
    e, r = env.raises(lambda: node[probe], KeyError)
    env.check((e is None) == ref.has(probe), 'read: KeyError exactly when missing')
    d = object()
    g = node.get(probe, d)
    if e is None:
        v = ref.get(probe)
        v = v[0] if ref is spaces else v
        env.same(r, v, 'read')
        env.same(g, v, 'get')
    else:
        env.same(g, d, 'get')
    if ref is kids:
        env.check((probe in node) == kids.has(probe), 'in')
        env.check((probe in node.nodespaces) is False, 'not in nodespaces')
    # the attributes are one of the nodespaces
    has = spaces.get('__attrs__')
    if has is None or has[1]:
        a = node.attrs
        if has is not None:
            env.same(a, has[0], 'attributes are the stored nodespace')
        else:
            env.same(node['__attrs__'], a, 'attributes by key')
            env.same(node.nodespaces['__attrs__'], a, 'attributes in nodespaces')
            env.eq(a.name, '__attrs__', 'name of attributes')
            env.same(a.parent, node, 'parent of attributes')
            spaces.set('__attrs__', (a, True))
    check(env, node, kids, spaces, 'end')
    env.reach('end')


def two(env, cls):
    """Nodespaces belong to one node only."""
    C = CLASSES[cls]
    a, b = C(name='a'), C(name='b')
    k = env.str('k')
    env.assume(reserved(k))
    env.assume(not (k == '__children__'))
    v = BaseNode()
    a[k] = v
    e, r = env.raises(lambda: b[k], KeyError)
    env.check(e is not None, 'nodespace of another node')
    sub = env.key('sub')
    b[sub] = C()
    check(env, a, Ref(), Ref([(k, (v, True))]), 'a')
    check(env, b, Ref([(sub, b[sub])]), Ref(), 'b')
    check(env, b[sub], Ref(), Ref(), 'child of b')
    env.reach('end')


def again(env, cls):
    """A name space node belongs to the node, and has the name, it was last set with."""
    C = CLASSES[cls]
    nodes = [C(name='a'), C(name='b')]
    ks = [env.str('k'), env.str('l')]
    for k in ks:
        env.assume(reserved(k))
        env.assume(not (k == '__children__'))
    env.assume(not (ks[0] == ks[1]))
    v = env.pick('v', (BaseNode(), C(name='x'), Special()))
    spaces = [Ref(), Ref()]
    for j in range(3):
        w, k = env.pick('node%d' % j, (0, 1)), env.pick('key%d' % j, ks)
        if j == 1 and env.bool('deleted'):
            del nodes[last[0]][last[1]]
            spaces[last[0]].delete(last[1])
        nodes[w][k] = v
        for s in spaces:
            for x, (y, known) in s.items():
                s.set(x, (y, False))
        spaces[w].set(k, (v, True))
        last = w, k
        for n, s in zip(nodes, spaces):
            check(env, n, Ref(), s, 'set %d' % j)
    env.reach('end')


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for c in CLASSES:
        for op in OPS if not q or c != 'AttributedNode' else ('set',):
            out.append(dict(name='%s-%s' % (c, op), fn='run', weight=5, must_reach=['end'],
                            kw=dict(cls=c, oplist=OPS, first=op, nops=2 if q else 3),
                            budget=150 if q else 1500))
        out.append(dict(name='%s-setdel' % c, fn='run', weight=5, must_reach=['end'],
                        kw=dict(cls=c, oplist=('set', 'del'), nops=3 if q else 4, probe=False),
                        budget=150 if q else 1500))
        out.append(dict(name='%s-two' % c, fn='two', must_reach=['end'], kw=dict(cls=c)))
        out.append(dict(name='%s-again' % c, fn='again', must_reach=['end'], kw=dict(cls=c)))
    return out
