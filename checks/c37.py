"""Combined behaviors keep the mapping contract, and each its own promise."""
from node.behaviors import Adopt
from node.behaviors import Alias
from node.behaviors import AsAttrAccess
from node.behaviors import Attributes
from node.behaviors import Cache
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Events
from node.behaviors import Fallback
from node.behaviors import GetattrChildren
from node.behaviors import Invalidate
from node.behaviors import Lifecycle
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import Reference
from node.behaviors import UUIDAware
from node.behaviors import UnicodeAware
from node.behaviors import VolatileStorageInvalidate
from node.behaviors.alias import PrefixAliaser
from plumber import plumbing
from .c18 import REC
from .common import Ref, agree, apply_op

BOUNDS = dict(
    quick='17 behaviors on top of the node behavior and dict or ordered storage, every pair of them in '
          'both orders; from 0..1 children with arbitrary keys every mapping operation with arbitrary '
          'keys, then all listings; place of the children, refusal of other values, unique ids, '
          'lifecycle events and attributes for the behaviors that promise them',
    thorough='also every triple of them in every order with one operation, and two operations in a '
             'row for every pair')

B = dict(NodeChildValidate=NodeChildValidate, Nodespaces=Nodespaces, Adopt=Adopt,
         Attributes=Attributes, Reference=Reference, Order=Order, Lifecycle=Lifecycle,
         Events=Events, Cache=Cache, Volatile=VolatileStorageInvalidate, Invalidate=Invalidate,
         UnicodeAware=UnicodeAware, UUIDAware=UUIDAware, Alias=Alias, Fallback=Fallback,
         Getattr=GetattrChildren, AsAttr=AsAttrAccess)
NAMES = tuple(B)
OPS = ('set', 'del', 'get', 'setdefault', 'pop', 'popd', 'popitem', 'update_map', 'update_pairs',
       'clear', 'has_key', 'detach', 'first', 'last', 'before', 'after', 'swap', 'invalidate',
       'invalidateall', 'copy', 'deepcopy')
SPECIAL = dict(first='Order', last='Order', before='Order', after='Order', swap='Order',
               invalidate='Invalidate', invalidateall='Invalidate')
MUT = ('set', 'del', 'setdefault', 'popitem')
MADE = {}


def needs(names):
    """Behaviors one cannot be used without."""
    out = list(names)
    if 'Attributes' in out and 'Nodespaces' not in out:
        out.insert(out.index('Attributes'), 'Nodespaces')
    if 'Cache' in out and 'Volatile' not in out and 'Invalidate' not in out:
        out.append('Invalidate')
    return out


def fits(names):
    if 'Volatile' in names and 'Invalidate' in names:
        # one of them
        return False
    if 'Alias' in names and ('Reference' in names or 'Lifecycle' in names or 'Volatile' in names):
        # see alias_below, alias_above and alias_volatile
        return False
    return True


def make(names, ordered):
    names = tuple(needs(names))
    C = MADE.get((names, ordered))
    if C is None:
        C = MADE[names, ordered] = plumbing(
            *([B[n] for n in names] +
              [DefaultInit, Nodify, OdictStorage if ordered else DictStorage]))(
            type('_'.join(names), (object,), {}))
    return C, names


def run(env, names, ordered, n, nops, ops=OPS, first=None):
    C, names = make(names, ordered)
    REC.reset()
    prefix = 'p-' if 'Alias' in names else ''
    node = C(name='n')
    other = C(name='o')
    if prefix:
        node.aliaser = other.aliaser = PrefixAliaser(prefix)
    ref = Ref()

    def key(name):
        return prefix + env.keyfree(name) if prefix else env.keyfree(name)

    def value():
        return C(name='v')
    extra = []
    if 'Attributes' in names:
        extra.append(lambda: node.attrs)
        node.attrs['a'] = 1
    for i in range(n):
        k, v = key('k%d' % i), value()
        if i:
            env.assume(not any(k == r for r in ref.keys()))
        node[k] = v
        ref.set(k, v)
    for j in range(nops):
        op = first if first and not j else ops[env.choice('op%d' % j, len(ops))]
        k = key('a%d' % j)
        k2 = key('b%d' % j) if op.startswith('update') else None
        if k2 is not None:
            env.assume(not (k == k2))
        v, v2 = value(), value()
        REC.log = []
        before = ref.copy()
        if op in OPS[:OPS.index('detach')]:
            apply_op(env, op, node, ref, k, v, 'op%d' % j, k2, v2)
        else:
            special(env, node, ref, names, ordered, op, k, v, 'op%d %s' % (j, op))
        promises(env, node, other, ref, before, names, 'op%d %s' % (j, op), op)
    REC.log = []
    agree(env, node, ref, 'end', probe=key('probe'))
    env.check(not REC.log, 'reads announce nothing')
    agree(env, other, Ref(), 'other node')
    if 'Attributes' in names:
        env.eqlist(node.attrs.keys(), ['a'], 'attributes')
        env.eq(node.attrs['a'], 1, 'attribute')
    if 'AsAttr' in names:
        view = node.as_attribute_access()
        for k, v in ref.items():
            env.same(env.getattr(view, k), v, 'as attribute')
    if 'UnicodeAware' in names and names[0] == 'UnicodeAware':
        for k, v in ref.items():
            env.same(node[k.encode('utf-8')], v, 'key as bytes')
    if 'Events' in names:
        events(env, node, other)
    if 'Getattr' in names:
        k, v = prefix + 'z' + env.keyfree('attr'), value()
        env.assume(not ref.has(k))
        e, r = env.raises(lambda: env.getattr(node, k), AttributeError)
        env.check(e is not None, 'no child, no attribute')
        node[k] = v
        env.same(env.getattr(node, k), v, 'child as attribute')
        ref.set(k, v)
        del node[k]
        e, r = env.raises(lambda: env.getattr(node, k), AttributeError)
        env.check(e is not None, 'deleted, no attribute')
    if 'Fallback' in names and 'Adopt' in names and not prefix:
        fallback(env, C)
    env.reach('end')


def events(env, node, other):
    got = []
    for n in (node, other):
        n.register_event('e')
        n.bind(e=lambda x, n=n: got.append((n, x)))
    node.dispatch('e', 5)
    env.check(len(got) == 1 and got[0][0] is node and got[0][1] == 5, 'dispatched once')


def fallback(env, C):
    top = C(name='t')
    top['d'], top['s'] = C(), C()
    k, v, probe = env.keyfree('fk'), C(), env.keyfree('fp')
    top['d'][k] = v
    e, r = env.raises(lambda: top['s'][probe], KeyError)
    env.check(e is not None, 'no fallback')
    top.fallback_key = 'd'
    e, r = env.raises(lambda: top['s'][probe], KeyError)
    env.check((e is None) == (probe == k), 'found in the fallback exactly if it lies there')
    if e is None:
        env.same(r, v, 'fallback')
    env.eqlist(list(top['s'].keys()), [], 'reading stores nothing')


def special(env, node, ref, names, ordered, op, key, val, tag):
    """What only nodes with certain behaviors can."""
    want = SPECIAL.get(op)
    env.assume(want is None or want in names or want == 'Invalidate' and 'Volatile' in names)
    # ordering asks the nodes for their names
    env.assume(want != 'Order' or ordered and 'Adopt' in names and 'Alias' not in names)
    if op == 'detach':
        e, r = env.raises(lambda: node.detach(key), KeyError)
        env.check((e is None) == ref.has(key), tag + ': KeyError exactly when missing')
        if e is None:
            env.same(r, ref.get(key), tag + ': result')
            ref.delete(key)
    elif op == 'swap':
        env.assume(len(ref) > 0)
        a = ref.values()[0]
        node[key] = val
        env.assume(not ref.has(key))
        ref.e.insert(0, [key, val])
        node.swap(val, a)
    elif want == 'Order':
        val.__name__ = key
        env.assume(not ref.has(key))
        kids = ref.values()
        env.assume(kids or op in ('first', 'last'))
        args = (val,) if op in ('first', 'last') else (val, kids[0])
        getattr(node, 'insert' + op)(*args)
        ref.e.insert(0 if op in ('first', 'before') else 1 if op == 'after' else len(ref),
                     [key, val])
    elif op == 'invalidate':
        e, r = env.raises(lambda: node.invalidate(key), KeyError)
        env.check((e is None) == ref.has(key), tag + ': KeyError exactly for unknown keys')
        ref.delete(key)
    elif op == 'invalidateall':
        node.invalidate()
        ref.e = []
    elif op == 'copy':
        if 'UUIDAware' in names:
            e, r = env.raises(node.copy, RuntimeError)
            env.check(e is not None, tag + ': refused')
            return
        new = node.copy()
        env.check(type(new) is type(node) and new is not node, tag + ': class')
        agree(env, new, ref, tag)
        env.check(not REC.log, tag + ': announces nothing')
        if 'Reference' in names:
            # a shallow copy has the unique ids of the original
            return
        new[key] = val
        r = ref.copy()
        r.set(key, val)
        agree(env, new, r, tag + ': changed')
        REC.log = []
    elif op == 'deepcopy':
        new = node.deepcopy()
        env.check(type(new) is type(node) and new is not node, tag + ': class')
        env.eqlist(new.keys(), ref.keys(), tag + ': keys')
        for k, v in ref.items():
            env.check(new[k] is not v and type(new[k]) is type(v), tag + ': copied child')
        env.check(not REC.log, tag + ': announces nothing')
        new[key] = val
        env.same(new[key], val, tag + ': changed')
        REC.log = []


def promises(env, node, other, ref, before, names, tag, op):
    now = ref.values()
    inval = op in ('invalidate', 'invalidateall')
    if 'Adopt' in names:
        for k, v in ref.items():
            env.same(v.parent, node, tag + ': parent of a child')
            env.check(v.name == k or 'Alias' in names and v.name == k[2:], tag + ': name of a child')
    if 'NodeChildValidate' in names:
        e, r = env.raises(lambda: node.__setitem__('p-x', 'text'), ValueError)
        env.check(e is not None, tag + ': text refused')
    if 'Reference' in names:
        for v in now:
            env.same(node.node(v.uuid), v, tag + ': found by unique id')
            env.same(v.node(node.uuid), node, tag + ': found by unique id')
        for v in before.values():
            if not any(v is x for x in now) and not (inval and 'Volatile' in names):
                # dropping from a volatile storage is no deletion
                env.same(node.node(v.uuid), None, tag + ': gone')
        env.same(other.node(node.uuid), None, tag + ': other tree')
    if 'Lifecycle' in names:
        log = [l for l in REC.log if l[0] in ('added', 'removed')]
        gone = [v for v in before.values() if not any(v is x for x in now)]
        come = [v for v in now if not any(v is x for x in before.values())]
        added = [l for l in log if l[0] == 'added']
        removed = [l for l in log if l[0] == 'removed']
        env.check(len(added) == len(come), tag + ': added events')
        for v in come:
            env.check(any(l[1] is v for l in added), tag + ': added')
        # a replaced child is not announced
        if op in ('del', 'pop', 'popd', 'popitem', 'clear') \
                or inval and 'Volatile' not in names:
            env.check(len(removed) == len(gone), tag + ': removed events')
            for v in gone:
                env.check(any(l[1] is v for l in removed), tag + ': removed')
        else:
            env.check(not removed, tag + ': no removed events')


def pair(env, first, names, ordered, n, nops, ops=OPS):
    """Together with every other behavior."""
    others = [x for x in names if x != first]
    x = others[env.choice('other', len(others))]
    both = [first, x] if env.bool('outer') else [x, first]
    env.assume(fits(needs(both)))
    run(env, both, ordered, n, nops, ops)


def triple(env, first, ordered, n):
    """With every pair of later behaviors."""
    rest = NAMES[NAMES.index(first) + 1:]
    i = env.choice('second', len(rest) - 1)
    j = i + 1 + env.choice('third', len(rest) - i - 1)
    names = [first, rest[i], rest[j]]
    a, b, c = ((0, 1, 2), (0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0))[env.choice('perm', 6)]
    names = [names[a], names[b], names[c]]
    env.assume(fits(needs(names)))
    run(env, names, ordered, n, 1)


def alias_above(env):
    """Behaviors which read the child they delete get a translated key."""
    what = env.pick('what', ('Reference', 'Lifecycle'))
    C, names = make(['Alias', what], True)
    node, ref = C(name='n'), Ref()
    node.aliaser = PrefixAliaser('p-')
    key = 'p-' + env.keyfree('k')
    v = C()
    node[key] = v
    ref.set(key, v)
    agree(env, node, ref, 'set')
    env.reach('set')
    e, r = env.raises(lambda: node.__delitem__(key), KeyError)
    env.finding(e is None, 'alias-above-delete', 'a child is deleted by its key')
    if e is None:
        ref.delete(key)
    agree(env, node, ref, 'deleted')


def alias_below(env):
    """Referencing nodes do not find what they replace under a key which is
    translated later."""
    C, names = make(['Reference', 'Alias'], True)
    node, ref = C(name='n'), Ref()
    node.aliaser = PrefixAliaser('p-')
    a, b = 'p-' + env.keyfree('a'), 'p-' + env.keyfree('b')
    v, w = C(), C()
    node[a] = v
    ref.set(a, v)
    node[b] = w
    ref.set(b, w)
    agree(env, node, ref, 'set')
    env.same(node.node(w.uuid), w, 'found by unique id')
    if a == b:
        env.finding(node.node(v.uuid) is None, 'alias-below-replace', 'the replaced child is gone')
    else:
        env.same(node.node(v.uuid), v, 'found by unique id')
    env.reach('end')


def alias_volatile(env):
    """Nodes with volatile storage drop a child by its translated key."""
    C, names = make(['Alias', 'Volatile'] if env.bool('outer') else ['Volatile', 'Alias'], True)
    node, ref = C(name='n'), Ref()
    node.aliaser = PrefixAliaser('p-')
    a, b = 'p-' + env.keyfree('a'), 'p-' + env.keyfree('b')
    v = C()
    node[a] = v
    ref.set(a, v)
    agree(env, node, ref, 'set')
    if env.bool('all'):
        node.invalidate()
        ref.e = []
    else:
        e, r = env.raises(lambda: node.invalidate(b), KeyError)
        env.check((e is None) == ref.has(b), 'KeyError exactly for unknown keys')
        if e is None:
            env.finding(len(node.keys()) == 0, 'alias-volatile', 'the child is dropped')
            ref.delete(b)
    agree(env, node, ref, 'invalidated')
    env.reach('end')


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for i, a in enumerate(NAMES):
        rest = NAMES[i:]
        if len(rest) < 2:
            continue
        for n in (0, 1):
            for ordered in (True, False):
                if q and ordered != (i % 2 == n):
                    continue
                out.append(dict(name='%s-%d-%s' % (a, n, 'odict' if ordered else 'dict'), fn='pair',
                                weight=len(rest), must_reach=['end'], budget=150 if q else 600,
                                kw=dict(first=a, names=rest, ordered=ordered, n=n, nops=1)))
    if not q:
        for i, a in enumerate(NAMES[:-2]):
            out.append(dict(name='%s-triple' % a, fn='triple', weight=40, must_reach=['end'],
                            budget=600, kw=dict(first=a, ordered=bool(i % 2), n=1)))
        for i, a in enumerate(NAMES[:-1]):
            out.append(dict(name='%s-two' % a, fn='pair', weight=40, must_reach=['end'], budget=600,
                            kw=dict(first=a, names=NAMES[i:], ordered=not i % 2, n=1, nops=2)))
    out.append(dict(name='alias_above', fn='alias_above', must_reach=['set'], budget=60))
    out.append(dict(name='alias_volatile', fn='alias_volatile', must_reach=['end'], budget=60))
    out.append(dict(name='alias_below', fn='alias_below', must_reach=['end'], budget=60))
    return out
