"""A node is one object: true, equal to itself only, hashable, printable."""
from node.base import AttributedNode
from node.base import BaseNode
from node.base import Node
from node.base import OrderedNode
from node.behaviors import Adopt
from node.behaviors import Alias
from node.behaviors import Attributes
from node.behaviors import Cache
from node.behaviors import ChildFactory
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Events
from node.behaviors import Fallback
from node.behaviors import GetattrChildren
from node.behaviors import Lifecycle
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors.alias import PrefixAliaser
from node.behaviors import UnicodeAware
from node.behaviors import UUIDAware
from node.behaviors import VolatileStorageInvalidate
from plumber import plumbing

BOUNDS = dict(
    quick='16 classes; 0..2 children with arbitrary keys, 0..2 attributes; names that are arbitrary '
          'strings, and 7 of other types or with special characters; two nodes with the same content, the name, parent '
          'and children of one changed; repr, str, formatting',
    thorough='0..3 children')




def plumbed(*behaviors):
    @plumbing(*behaviors)
    class Plumbed(object):
        factories = {}
        aliaser = PrefixAliaser('')
    return Plumbed


class Derived(OrderedNode):
    pass


CLASSES = dict(
    BaseNode=BaseNode, OrderedNode=OrderedNode, Node=Node, AttributedNode=AttributedNode,
    Derived=Derived,
    Minimal=plumbed(DefaultInit, Nodify, DictStorage),
    Attrs=plumbed(Nodespaces, Adopt, Attributes, DefaultInit, Nodify, OdictStorage),
    Aliased=plumbed(Adopt, Alias, DefaultInit, Nodify, OdictStorage),
    Cached=plumbed(Adopt, Cache, VolatileStorageInvalidate, DefaultInit, Nodify, OdictStorage),
    Factory=plumbed(Adopt, ChildFactory, DefaultInit, Nodify, OdictStorage),
    Eventful=plumbed(Adopt, Events, DefaultInit, Nodify, OdictStorage),
    Fallen=plumbed(Adopt, Fallback, DefaultInit, Nodify, OdictStorage),
    Getattr=plumbed(Adopt, GetattrChildren, DefaultInit, Nodify, OdictStorage),
    Living=plumbed(Lifecycle, Adopt, DefaultInit, Nodify, OdictStorage),
    Unicode=plumbed(UnicodeAware, Adopt, DefaultInit, Nodify, OdictStorage),
    Uids=plumbed(UUIDAware, Adopt, DefaultInit, Nodify, OdictStorage))


def same_object(env, a, others, tag):
    env.check(bool(a) is True, tag + ': true')
    env.check(a == a and not (a != a), tag + ': equal to itself')
    h = hash(a)
    env.check(hash(a) == h, tag + ': hash')
    env.check(a in {a: 1} and a in [a] and a in (a,), tag + ': found in containers')
    for o in others:
        env.check(not (a == o) and a != o, tag + ': differs from others')
        env.check(not any(x is o for x in {a: 1}) and o not in [a], tag + ': other in containers')
    return h


def name_of(env, kind):
    return [lambda: env.str('name'), lambda: 2 ** 64, lambda: None,
            lambda: b'\xff', lambda: ('a', None), lambda: u'\xe4 \u20ac',
            lambda: "it's", lambda: '{0} %s {name}'][kind]()


def text(env, node, name, tag):
    """repr and str work for every name and show it."""
    out = repr(node)
    env.check(isinstance(out, str), tag + ': representation is text')
    head = '<%s object \'' % type(node).__name__
    env.check(out.startswith(head + str(name) + '\' at 0x'), tag + ': name is shown',
              lambda: '%r, name %r' % (out, name))
    env.check(out.endswith('>'), tag + ': end')
    env.check(str(node) == out, tag + ': str')
    env.check('{}'.format(node) == out and '%s' % node == out, tag + ': formatted')


def run(env, cls, n, nkinds):
    C = CLASSES[cls]
    a, b = C(name='same'), C(name='same')
    parent = C(name='parent')
    keys = []
    for j in range(n):
        k = env.keyfree('key%d' % j)
        env.assume(not (k.startswith('__') and k.endswith('__')))
        env.assume(not any(k == o for o in keys))
        keys.append(k)
    others = [b, parent, None, 0, '', (), dict(), [], object(), 'same']
    h = same_object(env, a, others, 'empty')
    for k in keys:
        a[k] = C()
        b[k] = C()
    nattrs = env.choice('attrs', 3) if hasattr(C, 'attributes_factory') else 0
    for j in range(nattrs):
        a.attrs['x%d' % j] = b.attrs['x%d' % j] = j
    others += [dict(a.items()), list(a.keys())]
    env.check(same_object(env, a, others, 'filled') == h, 'hash does not depend on the children')
    same_object(env, b, [a], 'the other one')
    if hasattr(C, 'attributes_factory'):
        env.check(not (a.attrs == b.attrs) and a.attrs == a.attrs, 'attributes')
        env.check(bool(a.attrs) and isinstance(repr(a.attrs), str), 'attributes are true and shown')
    for k in keys:
        same_object(env, a[k], [a, b, b[k]], 'child')
    name = name_of(env, env.choice('kind', nkinds))
    text(env, a, 'same', 'before')
    a.__name__ = name
    text(env, a, name, 'renamed')
    a.__parent__ = parent
    env.check(same_object(env, a, others, 'moved') == h, 'hash does not depend on name and parent')
    if hasattr(C, 'attributes_factory'):
        env.check(isinstance(repr(a.attrs), str), 'attributes are shown')
    for k in list(a.keys()):
        if cls != 'Factory':
            del a[k]
    env.check(same_object(env, a, others, 'emptied') == h, 'hash of the emptied node')
    # used as keys and in sets
    d = {a: 'a', b: 'b'}
    env.check(len(d) == 2 and d[a] == 'a' and d[b] == 'b' and len({a, b, a}) == 2, 'as keys')
    env.reach('end')


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for c in sorted(CLASSES):
        for n in range(0, 3 if q else 4):
            if c == 'Factory' and n:
                continue
            out.append(dict(name='%s-%d' % (c, n), fn='run', kw=dict(cls=c, n=n, nkinds=8),
                            weight=n + 1, must_reach=['end'], budget=120 if q else 600))
    return out
