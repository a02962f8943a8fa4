"""Adapters are faithful views of the mapping they wrap."""
from node.base import BaseNode
from node.behaviors import Adopt
from node.behaviors import Alias
from node.behaviors import AsAttrAccess
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import GetattrChildren
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors.alias import PrefixAliaser
from node.utils import AttributeAccess
from node.utils import ReverseMapping
from node.utils import UNSET
from odict import odict
from plumber import plumbing
from .common import Ref, agree, new_keys

BOUNDS = dict(
    quick='attribute access to a dict, an odict, a node, a node that validates its children and '
          'an aliased node: 0..2 present entries, 3 reads, writes and deletes (by attribute or '
          'item, through one of two wrappers or on the mapping itself) with arbitrary names not '
          'starting with a double underscore (also names of methods and "context"); child '
          'access by attribute in 3 classes, every unused name, with and without default; '
          'reverse mappings of dict, odict, node and a reversed mapping with up to 3 entries of '
          'arbitrary strings, numbers and objects with their own or no equality or hash',
    thorough='4 operations; 4 entries')


class Falsy(object):
    def __bool__(self):
        return False


class Equal(object):
    """Equal to everything, not hashable."""
    __hash__ = None

    def __eq__(self, other):
        return True


class Never(object):
    """Equal to nothing, not even itself."""
    def __eq__(self, other):
        return False

    def __hash__(self):
        return 1


@plumbing(AsAttrAccess, Adopt, NodeChildValidate, DefaultInit, Nodify, OdictStorage)
class Access(object):
    pass


@plumbing(Alias, AsAttrAccess, DefaultInit, Nodify, OdictStorage)
class Aliased(object):
    aliaser = PrefixAliaser('p-')


@plumbing(AsAttrAccess, DefaultInit, Nodify, DictStorage)
class PlainDict(object):
    pass


@plumbing(GetattrChildren, DefaultInit, Nodify, OdictStorage)
class Attr(object):
    pass


@plumbing(Nodespaces, GetattrChildren, Adopt, NodeChildValidate, DefaultInit, Nodify, DictStorage)
class AttrNode(object):
    slot = None


@plumbing(GetattrChildren, Adopt)
class AttrBase(BaseNode):
    def method(self):
        pass

    @property
    def prop(self):
        return UNSET


def mapping(kind):
    if kind == 'dict':
        return PlainDict(name='n').storage
    if kind == 'odict':
        return odict()
    if kind == 'node':
        return PlainDict(name='n')
    if kind == 'valid':
        return Access(name='n')
    return Aliased(name='n')


def attraccess(env, kind, n, nops):
    m = mapping(kind)
    ref = Ref()
    v1 = AttributeAccess(m) if kind in ('dict', 'odict') else m.as_attribute_access()
    for j, k in enumerate(new_keys(env, n, kind='keyfree')):
        v = BaseNode() if kind == 'valid' else ('v', j)
        if kind == 'alias':
            env.assume(k.startswith('p-'))
        m[k] = v
        ref.set(k, v)
    v2 = AttributeAccess(m)
    pool = [BaseNode(), BaseNode()] if kind == 'valid' else \
        [None, Falsy(), UNSET, object()]
    for j in range(nops):
        tag = 'op%d' % j
        k = env.keyfree('n%d' % j)
        op = env.pick(tag, ('get', 'seta', 'seti', 'deli', 'direct'))
        v = pool[env.choice('v%d' % j, len(pool))] if op == 'seta' else pool[0]
        w = (v1, v2)[j % 2]
        has = ref.has(k)
        ok = True
        if kind == 'alias':
            # names the aliaser cannot produce
            ok = bool(k.startswith('p-'))
        if op == 'get':
            e, r = env.raises(lambda: env.getattr(w, k), AttributeError)
            env.check((e is None) == has, tag + ': AttributeError exactly when missing')
            if has:
                env.same(r, ref.get(k), tag + ': attribute')
            d = object()
            env.same(env.getattr(w, k, d), ref.get(k, d), tag + ': attribute or default')
            env.check(env.hasattr(w, k) == has, tag + ': hasattr')
            e, r = env.raises(lambda: w[k], KeyError)
            env.check((e is None) == has, tag + ': KeyError exactly when missing')
            if has:
                env.same(r, ref.get(k), tag + ': item')
        elif op in ('seta', 'seti', 'direct'):
            set_ = dict(seta=lambda: env.setattr(w, k, v), seti=lambda: w.__setitem__(k, v),
                        direct=lambda: m.__setitem__(k, v))[op]
            e, r = env.raises(set_, KeyError)
            env.check((e is None) == ok, tag + ': refused exactly by the mapping')
            if ok:
                ref.set(k, v)
            if kind == 'valid':
                env.same(v.parent, m, tag + ': adopted')
                env.eq(v.name, k, tag + ': name')
                if op == 'seta':
                    e, r = env.raises(lambda: env.setattr(w, k, 1), ValueError)
                    env.check(e is not None, tag + ': refusal of the mapping')
        else:
            e, r = env.raises(lambda: w.__delitem__(k), KeyError)
            env.check((e is None) == has, tag + ': KeyError exactly when missing')
            ref.delete(k)
        if kind in ('dict', 'odict'):
            env.eqlist(list(m), ref.keys(), tag + ': keys')
            env.samelist(m.values(), ref.values(), tag + ': values')
        else:
            env.eqlist(list(m), ref.keys(), tag + ': mapping')
            env.samelist(m.values(), ref.values(), tag + ': values')
        for x, y in ref.items():
            env.same(env.getattr(v1, x), y, tag + ': every attribute')
            env.same(v2[x], y, tag + ': every item')
    env.reach('end')


def children(env, cls, n):
    C = dict(Attr=Attr, AttrNode=AttrNode, AttrBase=AttrBase)[cls]
    node, other = C(name='n'), C(name='o')
    ref = Ref()
    for k in new_keys(env, n, kind='keyfree'):
        v = C()
        node[k] = v
        ref.set(k, v)
    name = env.keyfree('name')
    gone = env.choice('delete', n + 1)
    if gone:
        k = ref.keys()[gone - 1]
        del node[k]
        ref.delete(k)
    # attributes of the class and the instance come first
    used = list(node.__dict__) + [x for x in dir(C) if not x.startswith('__')]
    if any(name == x for x in used):
        o = env.pick('used', [x for x in used if name == x])
        if o in node.__dict__:
            env.same(env.getattr(node, name), node.__dict__[o], 'own attribute')
        elif cls == 'AttrBase' and o == 'prop':
            env.same(env.getattr(node, name), UNSET, 'own attribute')
        elif o == 'slot':
            env.same(env.getattr(node, name), None, 'own attribute')
        env.reach('used')
        return
    has = ref.has(name)
    e, r = env.raises(lambda: env.getattr(node, name), AttributeError)
    env.check((e is None) == has, 'AttributeError exactly when missing')
    if has:
        env.same(r, ref.get(name), 'child')
    d = (None, Falsy(), object())[env.choice('default', 3)]
    env.same(env.getattr(node, name, d), ref.get(name, d), 'child or default')
    env.check(env.hasattr(node, name) == has, 'hasattr')
    e, r = env.raises(lambda: env.getattr(other, name), AttributeError)
    env.check(e is not None, 'other node')
    if has:
        # attributes that are set are not children
        env.setattr(node, name, d)
        env.same(env.getattr(node, name), d, 'attribute set')
        env.same(node[name], ref.get(name), 'child of the name of an attribute')
        env.delattr(node, name)
        env.same(env.getattr(node, name), ref.get(name), 'child again')
    agree(env, node, ref, 'children', full=False)
    env.samelist(node.values(), ref.values(), 'children')
    agree(env, other, Ref(), 'other children')
    env.reach('end')


def reverse(env, kind, n, values):
    keys = new_keys(env, n, kind='keyfree')
    vals = []
    for j in range(n):
        if values == 'str':
            vals.append(env.str('v%d' % j))
        elif values == 'int':
            vals.append(env.int('v%d' % j, -5, 5))
        else:
            vals.append(env.pick('v%d' % j, (None, Falsy(), UNSET, Equal(), Never(), '')))
    if kind == 'odict':
        m = odict()
    elif kind == 'dict':
        m = {}
    elif kind == 'twice':
        m = odict()
    else:
        m = PlainDict(name='n')
    r = ReverseMapping(m)
    for k, v in zip(keys, vals):
        m[k] = v
    if kind == 'twice':
        keys, vals, back = vals, keys, r
        for i, k in enumerate(keys):
            for l in keys[:i]:
                env.assume(not (k == l))
        r = ReverseMapping(r)
        env.samelist([i[1] for i in back.items()], vals, 'reversed: keys')
    env.samelist(list(r), vals, 'iteration')
    env.samelist(r.keys(), vals, 'keys')
    env.eqlist(r.values(), keys, 'values')
    it = list(r.items())
    env.samelist([i[0] for i in it], vals, 'items keys')
    env.eqlist([i[1] for i in it], keys, 'items values')
    env.eq(len(r), n, 'len')
    if values == 'str':
        probe = env.str('probe')
    elif values == 'int':
        probe = env.int('probe', -6, 6)
    else:
        probe = env.pick('probe', (None, Falsy(), UNSET, Equal(), Never(), '', 0, object()))
    exp = None
    for k, v in zip(keys, vals):
        if v == probe:
            exp = (k,)
            break
    has = exp is not None
    e, x = env.raises(lambda: r[probe], KeyError)
    env.check((e is None) == has, 'KeyError exactly when missing')
    if has:
        env.eq(x, exp[0], 'first key')
    else:
        env.same(e.args[0], probe, 'KeyError of the value')
    d = env.pick('default', (Falsy(), object()))
    g = r.get(probe, d)
    if has:
        env.eq(g, exp[0], 'get')
        env.eq(r.get(probe), exp[0], 'get without default')
    else:
        env.same(g, d, 'get: default')
        env.same(r.get(probe), None, 'get: no default')
    env.check((probe in r) is has, 'in')
    # a view: later changes are seen
    if kind != 'twice' and values == 'str' and n:
        del m[keys[0]]
        env.samelist(list(r), vals[1:], 'iteration after deletion')
        env.eq(len(r), n - 1, 'len after deletion')
        m[keys[0]] = probe
        env.samelist(r.keys(), vals[1:] + [probe], 'keys after setting')
        env.check(probe in r, 'in after setting')
    env.reach('end')


def scenarios(tier):
    q = tier == 'quick'
    out = []
    for kind in ('dict', 'odict', 'node', 'valid', 'alias'):
        out.append(dict(name='access-%s-1' % kind, fn='attraccess', weight=5, must_reach=['end'],
                        kw=dict(kind=kind, n=1, nops=2 if q else 3), budget=150 if q else 1500))
        if kind in ('odict', 'valid'):
            n, ops = (0 if q else 1, 3) if kind == 'valid' else (2, 2 if q else 3)
            out.append(dict(name='access-%s-2' % kind, fn='attraccess', weight=8,
                            must_reach=['end'], kw=dict(kind=kind, n=n, nops=ops),
                            budget=150 if q else 1500))
    for c in ('Attr', 'AttrNode', 'AttrBase'):
        out.append(dict(name='children-%s' % c, fn='children', weight=3,
                        must_reach=['end', 'used'], kw=dict(cls=c, n=2 if q else 3),
                        budget=150 if q else 1500))
    for kind in ('odict', 'node', 'dict', 'twice'):
        for values in ('str', 'int', 'obj'):
            if kind == 'twice' and values == 'obj':
                continue
            out.append(dict(name='reverse-%s-%s' % (kind, values), fn='reverse', weight=2,
                            must_reach=['end'],
                            kw=dict(kind=kind, values=values, n=(2 if values == 'obj' or kind != 'odict' else 3) + (not q)),
                            budget=150 if q else 1500))
    return out
