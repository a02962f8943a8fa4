"""Tree queries report exactly the matching nodes."""
from node.base import AttributedNode
from node.base import BaseNode
from node.base import Node
from node.base import OrderedNode
from node.behaviors import Adopt
from node.behaviors import Alias
from node.behaviors import Cache
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Fallback
from node.behaviors import Invalidate
from node.behaviors import Lifecycle
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import UUIDAware
from node.behaviors.alias import PrefixAliaser
from node.interfaces import INode
from node.utils import UNSET
from plumber import plumbing
from zope.interface import Interface
from zope.interface import alsoProvides
from zope.interface import implementer
from .common import Ref, agree, new_keys

BOUNDS = dict(
    quick='filters over 0..3 children of 9 kinds (nodes and other values; the interface provided '
          'by the class, a base class, a derived interface, the object or not) in 3 classes; '
          'acquire from chains of 0..4 ancestors of 7 kinds by interface, derived interface or '
          'class; representations of trees of up to 4 nodes and values of every shape in ordered '
          'and unordered classes mixed, with arbitrary string keys (trees of up to 3) or integer '
          'keys, 3 indents and prefixes; detach of arbitrary keys in 8 classes with 0..3 children',
    thorough='chains of 0..6 ancestors; 4 children; trees of up to 5')


class IWanted(Interface):
    pass


class IDerived(IWanted):
    pass


class IOther(Interface):
    pass


class Values(OrderedNode):
    allow_non_node_childs = True


class DictValues(BaseNode):
    allow_non_node_childs = True


@implementer(IWanted)
class Wanted(BaseNode):
    pass


class Sub(Wanted):
    pass


@implementer(IDerived)
class Derived(OrderedNode):
    pass


@implementer(IWanted)
class FalsyWanted(BaseNode):
    def __bool__(self):
        return False

    __nonzero__ = __bool__


class Falsy(BaseNode):
    def __bool__(self):
        return False

    __nonzero__ = __bool__


@implementer(IOther)
class Other(BaseNode):
    pass


@implementer(IWanted)
class NoNode(object):
    pass


class Named(BaseNode):
    """Represents itself."""

    @property
    def noderepr(self):
        return 'named'


def marked():
    n = BaseNode()
    alsoProvides(n, IWanted)
    return n


def marked_derived():
    n = Other()
    alsoProvides(n, IDerived)
    return n


# factory, provides IWanted, instance of Wanted, provides IDerived
KINDS = (
    (BaseNode, False, False, False),
    (Wanted, True, True, False),
    (Sub, True, True, False),
    (FalsyWanted, True, False, False),
    (Falsy, False, False, False),
    (marked_derived, True, False, True),
    (Derived, True, False, True),
    (marked, True, False, False),
    (Other, False, False, False),
)
PLAIN = ((NoNode, True, False, False), (lambda: None, False, False, False),
         (lambda: 'text', False, False, False), (lambda: NoNode, False, False, False))


def filtered(env, cls, n):
    node = dict(Values=Values, DictValues=DictValues, Node=Node)[cls](name='n')
    kinds = KINDS + PLAIN if cls != 'Node' else KINDS
    if n > 2:
        kinds = (KINDS[0], KINDS[3], KINDS[5]) + (PLAIN[:1] if cls != 'Node' else ())
    want, derived, every = [], [], []
    for j, k in enumerate(new_keys(env, n, kind='keyfree')):
        make, w, _, d = kinds[env.choice('kind%d' % j, len(kinds))]
        v = make()
        if n == 2 and j and env.bool('again'):
            v = every[0]
            w, d = v in want, v in derived
        node[k] = v
        every.append(v)
        if w:
            want.append(v)
        if d:
            derived.append(v)
    for iface, exp in ((IWanted, want), (IDerived, derived),
                       (INode, [v for v in every if INode.providedBy(v)])):
        for m in ('filteredvalues', 'filtereditervalues', 'filtereditems'):
            env.samelist(getattr(node, m)(iface), exp, m)
        env.check(isinstance(node.filteredvalues(iface), list), 'a list')
    if want and len(set(map(id, every))) == n and env.bool('change'):
        # at the time of asking
        gone = want[-1]
        for k in node.keys():
            if node[k] is gone:
                del node[k]
        env.samelist(node.filteredvalues(IWanted), want[:-1], 'after deletion')
    env.samelist([x for x in every if x in want], want, 'children')
    env.reach('end')


def acquire(env, n):
    kinds = [KINDS[i] for i in (0, 1, 2, 3, 4, 5, 8)]
    if n > 3:
        kinds = [KINDS[i] for i in (0, 1, 4, 5)]
    chain = []
    prev = None
    for j in range(n):
        kind = kinds[env.choice('kind%d' % j, len(kinds))]
        a = kind[0]()
        a.__name__ = 'a%d' % j
        if prev is not None:
            prev['a%d' % j] = a
        prev = a
        chain.append((a,) + kind[1:])
    # the node itself never is its own ancestor
    node = (Sub, FalsyWanted, BaseNode)[env.choice('self', 3 if n < 3 else 1)]()
    if prev is not None:
        prev['node'] = node
    child = node['child'] = BaseNode()
    other = (prev if prev is not None else node)['sibling'] = Sub()
    what = env.pick('what', (IWanted, IDerived, Wanted, BaseNode, INode, Node, IOther))

    def exp(ancestors):
        for a, w, inst, d in reversed(ancestors):
            if {IWanted: w, IDerived: d, Wanted: inst, BaseNode: isinstance(a, BaseNode),
                    INode: True, Node: False, IOther: isinstance(a, Other)}[what]:
                return a
    env.same(node.acquire(what), exp(chain), 'acquired')
    me = (node, isinstance(node, (Wanted, FalsyWanted)), isinstance(node, Wanted), False)
    env.same(child.acquire(what), exp(chain + [me]), 'acquired by the child')
    env.same(other.acquire(what), exp(chain if chain else [me]), 'acquired by the sibling')
    env.reach('end')


def text(node, indent, prefix):
    out = [prefix * indent + node.noderepr + '\n']
    keys = list(node.keys())
    if isinstance(node, (BaseNode, DictValues)):
        rest, keys = keys, []
        while rest:
            best = 0
            for i in range(1, len(rest)):
                if as_text(rest[i]) < as_text(rest[best]):
                    best = i
            keys.append(rest.pop(best))
    for k in keys:
        v = node[k]
        if isinstance(v, (BaseNode, OrderedNode)):
            out += text(v, indent + 2, prefix)
        else:
            out.append(prefix * (indent + 2) + as_text(k) + ': ' + repr(v) + '\n')
    return out


def as_text(k):
    return '%d' % k if isinstance(k, int) else k


def represent(env, size, keys):
    pool = (DictValues, Values, Named, 'v', None) if size < 3 else (DictValues, Values, 'v')
    nodes, used = [], {}
    for i in range(size):
        C = pool[env.choice('cls%d' % i, len(pool) if i else 2)]
        n = C if C in ('v', None) else C()
        if i == 0:
            n.__name__ = env.pick('name', ('root', None, 'a:b', '') if size < 3 else ('root',))
        else:
            p = env.choice('par%d' % i, i)
            env.assume(isinstance(nodes[p], (DictValues, Values)))
            if keys == 'str':
                k = env.keyfree('k%d' % i)
                for x in used.get(p, ()):
                    env.assume(not (x == k))
            elif keys == 'int':
                k = (10, 9, 100, -1)[(env.choice('first', 4 if size < 4 else 2) + i) % 4]
            else:
                k = ('b', 'a', 'c', 'B')[(env.choice('first', 4 if size < 4 else 2) + i) % 4]
            used.setdefault(p, []).append(k)
            nodes[p][k] = n
        nodes.append(n)
    for node in nodes:
        if isinstance(node, (DictValues, Values)) and (node is nodes[0] or keys != 'str'):
            env.eq(node.treerepr(), cat(text(node, 0, ' ')),
                   'representation')
    indent, prefix = env.pick('indent', ((3, '--'), (0, '_'), (1, '')) if size < 3 else ((3, '--'),))
    env.eq(nodes[0].treerepr(indent=indent, prefix=prefix), cat(text(nodes[0], indent, prefix)),
           'representation with indent and prefix')
    env.reach('end')


def cat(parts):
    r = ''
    for p in parts:
        r = r + p
    return r


@plumbing(Cache, Adopt, Invalidate, DefaultInit, Nodify, DictStorage)
class Cached(object):
    pass


@plumbing(Alias, Adopt, DefaultInit, Nodify, OdictStorage)
class Aliased(object):
    aliaser = PrefixAliaser('p-')


@plumbing(Lifecycle, Adopt, DefaultInit, Nodify, OdictStorage)
class Live(object):
    pass


@plumbing(UUIDAware, Adopt, DefaultInit, Nodify, OdictStorage)
class Aware(object):
    pass


@plumbing(Fallback, Adopt, DefaultInit, Nodify, DictStorage)
class Fall(object):
    pass


DETACH = dict(BaseNode=BaseNode, Node=Node, AttributedNode=AttributedNode, Cached=Cached,
              Aliased=Aliased, Live=Live, Aware=Aware, Values=Values)


def detach(env, cls, n):
    C = DETACH[cls]
    root = C(name='root')
    p = 'p-' if cls == 'Aliased' else ''
    node = root[p + 'n'] = C()
    ref = Ref()
    falsy = n and cls not in ('Node', 'AttributedNode') and env.bool('falsy')
    for j, k in enumerate(new_keys(env, n, kind='keyfree')):
        v = C() if not falsy else Falsy()
        if cls == 'Values' and env.bool('plain'):
            v = (None, UNSET, ['x'])[j % 3]
        node[p + k] = v
        ref.set(p + k, v)
        if isinstance(v, C):
            v[p + 'x'] = C()
    if cls == 'Cached' and env.bool('read'):
        node.values()
    for j in range(2):
        k = p + env.keyfree('d%d' % j)
        has = ref.has(k)
        v = ref.get(k)
        kids = list(v.values()) if isinstance(v, C) else None
        e, r = env.raises(lambda: node.detach(k), KeyError)
        env.check((e is None) == has, 'KeyError exactly when missing')
        if has:
            env.same(r, v, 'detached')
            if kids is not None:
                env.samelist(v.values(), kids, 'children of the detached node')
                env.eqlist(v.keys(), [p + 'x'], 'children of the detached node')
        ref.delete(k)
        agree(env, node, ref, 'after detach', full=not j)
        env.samelist(root.values(), [node], 'rest of the tree')
        if has and j == 0 and isinstance(v, C) and env.bool('again'):
            # it can be put somewhere else
            root[p + 'again'] = v
            env.same(v.parent, root, 'parent')
            env.same(root[p + 'again'], v, 'put again')
            env.same(root.detach(p + 'again'), v, 'detached again')
            env.samelist(root.values(), [node], 'rest of the tree')
    env.reach('end')


def scenarios(tier):
    q = tier == 'quick'
    out = []
    b = 150 if q else 1500

    def add(fn, weight, **kw):
        out.append(dict(name='-'.join([fn] + ['%s' % v for v in kw.values()]), fn=fn,
                        weight=weight, must_reach=['end'], kw=kw, budget=b))
    for c in ('Values', 'DictValues', 'Node'):
        add('filtered', 2, cls=c, n=2)
    add('filtered', 1, cls='Values', n=1)
    add('filtered', 1, cls='Values', n=0)
    add('filtered', 3, cls='Node', n=3)
    if not q:
        add('filtered', 5, cls='Values', n=4)
    for n in range(5 if q else 7):
        add('acquire', n, n=n)
    for size in (1, 2, 3) if q else (1, 2, 3, 4):
        add('represent', size * 2, size=size, keys='str')
    for keys in ('int', 'fix'):
        for size in (3, 4) if q else (4, 5):
            add('represent', size, size=size, keys=keys)
    for c in DETACH:
        add('detach', 3, cls=c, n=2 if c != 'Node' else 3)
    add('detach', 1, cls='Live', n=0)
    return out
