"""Factory children are made once, in order, and adopted."""
from node.base import BaseNode
from node.base import Node
from node.behaviors import Adopt
from node.behaviors import AsAttrAccess
from node.behaviors import Cache
from node.behaviors import ChildFactory
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import FixedChildren
from node.behaviors import Invalidate
from node.behaviors import Lifecycle
from node.behaviors import NodeChildValidate
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from odict import odict
from plumber import plumbing
from .c18 import Failed
from .common import Ref, agree, new_keys

BOUNDS = dict(
    quick='7 child-factory classes (with and without adoption, validation, cache, lifecycle, '
          'references; factories on the class or on the instance), 0..3 factories with arbitrary '
          'keys making nodes or falsy values or failing at the first call; 2 operations out of '
          'read, get, in, set, delete, setdefault, values, items with arbitrary keys on two '
          'instances; 5 fixed-children classes with 0..3 factories (also nested), 2 attempts '
          'out of 17 modifications with arbitrary keys',
    thorough='3 operations or attempts; 4 factories')


class Falsy(object):
    def __bool__(self):
        return False

    def __len__(self):
        return 0


class Kid(BaseNode):
    def __bool__(self):
        return False


@plumbing(Nodify, ChildFactory, OdictStorage)
class Simple(object):
    pass


@plumbing(ChildFactory, NodeChildValidate, Adopt, DefaultInit, Nodify, DictStorage)
class Adopting(object):
    pass


@plumbing(Adopt, ChildFactory, DefaultInit, Nodify, OdictStorage)
class Outer(object):
    pass


@plumbing(ChildFactory, Adopt, Cache, Invalidate, DefaultInit, Nodify, DictStorage)
class Cached(object):
    pass


@plumbing(Lifecycle, ChildFactory, Adopt, DefaultInit, Nodify, OdictStorage)
class Live(object):
    pass


@plumbing(ChildFactory)
class Based(BaseNode):
    pass


@plumbing(ChildFactory)
class Ref2(Node):
    pass


CLASSES = dict(Simple=Simple, Adopting=Adopting, Outer=Outer, Cached=Cached, Live=Live,
               Based=Based, Ref2=Ref2)
VALUES = ('Simple', 'Outer', 'Cached', 'Live')      # take any value
OPS = ('read', 'get', 'in', 'set', 'del', 'setdefault', 'values', 'items')


class Maker(object):
    """A factory that counts its calls."""

    def __init__(self, log, what, fails):
        self.log = log
        self.what = what
        self.fails = fails
        self.made = []

    def __call__(self):
        if self.fails:
            self.fails = False
            raise Failed()
        r = dict(kid=Kid, falsy=Falsy, ref=Node)[self.what]()
        self.made.append(r)
        self.log.append(self)
        return r


class State(object):
    def __init__(self):
        self.mem = Ref()
        self.made = 0


def read(env, cls, node, st, makers, key, how, tag):
    """One read of key, what is returned."""
    fs = Ref(makers)
    known = st.mem.has(key)
    listed = fs.has(key)
    mk = fs.get(key)
    fails = listed and not known and mk.fails
    made = len(mk.made) if listed else 0
    if how == 'get':
        d = object()
        e, r = env.raises(lambda: node.get(key, d), Failed)
        if not listed and not known:
            env.same(r, d, tag + ': default')
            return
    else:
        e, r = env.raises(lambda: node[key], Failed, KeyError)
        if not listed and not known:
            env.check(isinstance(e, KeyError), tag + ': KeyError of an unknown key')
            return
    env.check((e is not None) == fails, tag + ': fails exactly when the factory fails')
    if fails:
        env.check(isinstance(e, Failed), tag + ': exception of the factory')
        return
    if known:
        env.same(r, st.mem.get(key), tag + ': child that is there')
        if listed:
            env.eq(len(mk.made), made, tag + ': no further call')
    else:
        env.eq(len(mk.made), made + 1, tag + ': one call')
        env.same(r, mk.made[-1], tag + ': child of the factory')
        st.mem.set(key, r)
        placed(env, cls, node, key, r, tag)
    return r


def placed(env, cls, node, key, r, tag):
    if cls != 'Simple' and isinstance(r, (Kid, Node)):
        env.eq(r.name, key, tag + ': name')
        env.same(r.parent, node, tag + ': parent')
        env.eqlist(r.path, node.path + [key], tag + ': path')


def same(env, node, st, keys, tag):
    env.eqlist(list(node), keys, tag + ': iteration')
    env.eqlist(node.keys(), keys, tag + ': keys')
    env.eqlist(node.iterkeys(), keys, tag + ': iterkeys')
    env.eq(len(node), len(keys), tag + ': len')
    got = Ref(node.storage.items())
    env.check(len(got) == len(st.mem), tag + ': children stored')
    for k, v in st.mem.items():
        env.same(got.get(k), v, tag + ': stored child')


def factory(env, cls, n, nops, first=None):
    C = CLASSES[cls]
    log = []
    what = 'ref' if cls == 'Ref2' else 'kid'
    if cls in VALUES and env.bool('falsy'):
        what = 'falsy'
    keys = new_keys(env, n)
    fails = env.choice('fails', n + 1)
    makers = [(k, Maker(log, what, j + 1 == fails)) for j, k in enumerate(keys)]
    fs = odict()
    for k, m in makers:
        fs[k] = m
    if env.bool('class'):
        class D(C):
            factories = fs
        node, other = D(), D()
    else:
        node, other = C(), C()
        node.factories = fs
    if cls != 'Simple':
        node.__name__ = 'n'
    st = State()
    same(env, node, st, keys, 'new')
    env.eq(len(log), 0, 'nothing made by listing')
    for j in range(nops):
        op = first if first and not j else env.pick('op%d' % j, OPS)
        tag = 'op%d %s' % (j, op)
        if op in ('read', 'get'):
            read(env, cls, node, st, makers, env.keyfree('k%d' % j), op, tag)
        elif op == 'in':
            k = env.keyfree('k%d' % j)
            known = any(k == x for x in keys) or st.mem.has(k)
            e, r = env.raises(lambda: k in node, Failed)
            env.check(e is not None or r is known, tag)
            # the child may be made or not
            for x, m in makers:
                if x == k and m.made and not st.mem.has(k):
                    got = Ref(node.storage.items())
                    if got.has(k):
                        st.mem.set(k, m.made[-1])
        elif op in ('set', 'setdefault'):
            k = env.pick('w%d' % j, keys) if keys else env.keyfree('k%d' % j)
            v = Node() if what == 'ref' else BaseNode()
            if op == 'set':
                node[k] = v
                st.mem.set(k, v)
            else:
                known = st.mem.has(k) or any(k == x for x in keys)
                if not known:
                    env.same(node.setdefault(k, v), v, tag + ': result')
                    st.mem.set(k, v)
                elif not any(x == k and m.fails for x, m in makers):
                    r = node.setdefault(k, v)
                    env.check(r is not v, tag + ': not the default')
                    if not st.mem.has(k):
                        st.mem.set(k, r)
                        placed(env, cls, node, k, r, tag)
                    env.same(r, st.mem.get(k), tag + ': result')
            placed(env, cls, node, k, st.mem.get(k), tag)
        elif op == 'del':
            k = env.keyfree('k%d' % j)
            if st.mem.has(k):
                del node[k]
                st.mem.delete(k)
            elif not any(k == x for x in keys):
                e, r = env.raises(lambda: node.__delitem__(k), KeyError)
                env.check(e is not None, tag + ': KeyError of an unknown key')
        else:
            todo = [m for k, m in makers if not st.mem.has(k)]
            bad = [m for m in todo if m.fails]
            before = len(log)
            e, r = env.raises(getattr(node, op), Failed)
            env.check((e is None) == (not bad), tag + ': fails exactly when a factory fails')
            if bad:
                todo = todo[:todo.index(bad[0])]
            env.samelist(log[before:], todo, tag + ': made in the order of the factories')
            for k, m in makers:
                if m in todo:
                    st.mem.set(k, m.made[-1])
                    placed(env, cls, node, k, m.made[-1], tag)
            if e is None:
                if op == 'items':
                    r = list(r)
                    env.eqlist([i[0] for i in r], keys, tag + ': keys')
                    r = [i[1] for i in r]
                env.samelist(r, [st.mem.get(k) for k in keys], tag + ': children')
        same(env, node, st, keys, tag)
        for k, m in makers:
            if not st.mem.has(k):
                continue
            env.same(node[k], st.mem.get(k), tag + ': identical afterwards')
    total = len(log)
    env.eqlist(list(other.storage), [], 'nothing stored in the other instance')
    env.eqlist(C().keys(), [], 'nothing listed by a node without factories')
    if other.factories is fs:
        for k, m in makers:
            if not m.fails:
                r = other[k]
                env.same(r, m.made[-1], 'child of the other instance')
                env.same(other[k], r, 'identical child of the other instance')
                total += 1
    env.eq(len(log), total, 'one call each')
    env.reach('end')


# ---------------------------------------------------------------------------


@plumbing(Nodify, FixedChildren)
class FSimple(object):
    pass


@plumbing(NodeChildValidate, Adopt, AsAttrAccess, FixedChildren, DefaultInit, Nodify)
class FAdopt(object):
    pass


@plumbing(FixedChildren)
class FBase(BaseNode):
    pass


@plumbing(FixedChildren)
class FNode(Node):
    pass


@plumbing(Lifecycle, Adopt, FixedChildren, DefaultInit, Nodify, OdictStorage)
class FLive(object):
    pass


FIXED = dict(FSimple=FSimple, FAdopt=FAdopt, FBase=FBase, FNode=FNode, FLive=FLive)
MODS = ('set', 'setplain', 'del', 'pop', 'popd', 'popitem', 'update_pairs', 'update_kw',
        'clear', 'setdefault', 'detach', 'access', 'first', 'last', 'before', 'after', 'swap')
REFUSED = (NotImplementedError, KeyError, ValueError)


class Inner(object):
    """Makes nodes with fixed children."""

    def __init__(self, cls):
        class N(cls):
            fixed_children_factories = (('inner', Kid),)
        self.N = N

    def __call__(self):
        return self.N()


def fixed(env, cls, n, nops, first=None):
    C = FIXED[cls]
    log = []
    keys = new_keys(env, n)
    makers = [(k, Maker(log, 'kid', False)) for k in keys]
    if n and env.bool('nested'):
        makers[-1] = (keys[-1], Inner(C))
    seq = env.pick('sequence', (tuple, list, iter)) if n else tuple
    if seq is iter:
        seq = tuple

    class D(C):
        fixed_children_factories = seq(makers)
    if cls == 'FSimple':
        node, other = D(), D()
        name = None
    else:
        root = BaseNode(name='root')
        node, other = D('n', root), D(name='o')
        name = 'n'
        env.same(node.parent, root, 'parent of the node')
    env.eq(node.name, name, 'name of the node')
    ref, oref = Ref(node._children.items()), Ref(other._children.items())
    env.eqlist(ref.keys(), keys, 'fixed keys')
    made = [m for k, m in makers if isinstance(m, Maker)]
    env.samelist(log, made + made, 'made in order for each instance')
    for j, (k, m) in enumerate(makers):
        if isinstance(m, Maker):
            env.samelist(m.made, [ref.get(k), oref.get(k)], 'child of the factory')
        else:
            env.check(isinstance(ref.get(k), m.N), 'child of the factory')
        env.check(ref.get(k) is not oref.get(k), 'own child')

    def unchanged(tag):
        agree(env, node, ref, tag)
        agree(env, other, oref, tag + ' (other)', full=False)
        for k, v in ref.items():
            env.eq(v.name, k, tag + ': name')
            env.same(v.parent, node, tag + ': parent')
            env.same(v.root, node.root, tag + ': root')
            env.eqlist(v.path, node.path + [k], tag + ': path')
        for k, v in oref.items():
            env.same(v.parent, other, tag + ': parent (other)')
        env.eq(len(log), 2 * len(made), tag + ': nothing made')
    unchanged('new')
    for j in range(nops):
        op = first if first and not j else env.pick('op%d' % j, MODS)
        tag = 'op%d %s' % (j, op)
        k = env.keyfree('k%d' % j) if op not in ('popitem', 'clear') else None
        home = BaseNode(name='home')
        v = home['away'] = Kid()
        has = k is not None and ref.has(k)
        d = object()
        must = True
        if op == 'set':
            f = lambda: node.__setitem__(k, v)
        elif op == 'setplain':
            f = lambda: node.__setitem__(k, d)
        elif op == 'del':
            f = lambda: node.__delitem__(k)
        elif op == 'pop':
            f = lambda: node.pop(k)
        elif op == 'popd':
            f = lambda: node.pop(k, d)
            must = has
        elif op == 'popitem':
            f = node.popitem
        elif op == 'update_pairs':
            f = lambda: node.update([(k, v), ('zz', v)])
        elif op == 'update_kw':
            for bad in ('self', '_next', 'args', 'kw', 'data', 'other'):
                env.assume(not (k == bad))
            f = lambda: node.update(**{k: v})
        elif op == 'clear':
            f = node.clear
            must = n > 0
        elif op == 'setdefault':
            f = lambda: node.setdefault(k, v)
            must = not has
        elif op == 'detach':
            f = lambda: node.detach(k)
        elif op == 'access':
            if cls in ('FSimple', 'FLive'):
                continue
            f = lambda: node.as_attribute_access().__setitem__(k, v)
        else:
            if cls != 'FNode' or not n:
                continue
            v = home['away'] = Node()
            ref_ = env.pick('r%d' % j, ref.values())
            f = dict(first=lambda: node.insertfirst(v), last=lambda: node.insertlast(v),
                     before=lambda: node.insertbefore(v, ref_),
                     after=lambda: node.insertafter(v, ref_),
                     swap=lambda: node.swap(ref_, ref.values()[0]))[op]
        e, r = env.raises(f, *REFUSED)
        env.check((e is not None) == must, tag + ': refused')
        if e is None and op == 'setdefault':
            env.same(r, ref.get(k), tag + ': child that is there')
        if e is None and op == 'popd':
            env.same(r, d, tag + ': default')
        env.eq(v.name, 'away', tag + ': name of the refused node')
        env.same(v.parent, home, tag + ': parent of the refused node')
        env.samelist(home.values(), [v], tag + ': former container')
        unchanged('after ' + tag)
    # children of fixed nodes can be changed
    if n and isinstance(makers[0][1], Maker):
        c = ref.values()[0]
        x = c['x'] = Kid()
        env.same(x.root, node.root, 'root of a grandchild')
        env.eqlist(oref.values()[0].keys(), [], 'children of the other child')
    env.reach('end')


def scenarios(tier):
    q = tier == 'quick'
    out = []
    for cls in CLASSES:
        for n in ((2,) if q else (0, 1, 2, 3)):
            out.append(dict(name='factory-%s-%d' % (cls, n), fn='factory', weight=6,
                            must_reach=['end'], kw=dict(cls=cls, n=n, nops=2),
                            budget=150 if q else 1500))
    if q:
        out.append(dict(name='factory-0', fn='factory', weight=1, must_reach=['end'],
                        kw=dict(cls='Adopting', n=0, nops=2), budget=150))
        out.append(dict(name='factory-3', fn='factory', weight=3, must_reach=['end'],
                        kw=dict(cls='Based', n=3, nops=1), budget=150))
    else:
        for op in OPS:
            out.append(dict(name='factory-long-%s' % op, fn='factory', weight=9,
                            must_reach=['end'], kw=dict(cls='Adopting', n=2, nops=3, first=op),
                            budget=1500))
    for cls in FIXED:
        out.append(dict(name='fixed-%s-2' % cls, fn='fixed', weight=4, must_reach=['end'],
                        kw=dict(cls=cls, n=2, nops=1 if q else 2), budget=150 if q else 1500))
    for n in (0, 1, 3) if q else (0, 1, 3, 4):
        out.append(dict(name='fixed-%d' % n, fn='fixed', weight=4, must_reach=['end'],
                        kw=dict(cls='FAdopt' if n != 3 else 'FBase', n=n,
                                nops=(2 if n == 1 else 1) + (not q)),
                        budget=150 if q else 1500))
    return out
