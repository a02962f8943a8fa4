"""An aliased node is the same mapping under translated keys."""
from node.behaviors import Adopt
from node.behaviors import Alias
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors.alias import AliaserChain
from node.behaviors.alias import DictAliaser
from node.behaviors.alias import PrefixAliaser
from node.behaviors.alias import PrefixSuffixAliaser
from node.behaviors.alias import SuffixAliaser
from node.behaviors.storage import Storage
from node.utils import UNSET
from odict import odict
from plumber import default
from plumber import plumbing
from .c08 import affix, chain, mapping
from .common import Equal, EqualNode, Falsy, Ref, agree, apply_op, distinct

BOUNDS = dict(
    quick='4 node classes; no aliaser, arbitrary prefix, suffix, both, a chain, and '
          'dictionaries of 0..2 arbitrary entries (strict or not), a custom refusing aliaser; '
          '0..2 entries already in the storage under arbitrary keys; then one operation of 14 '
          'kinds (two sets or deletes) with an arbitrary key; all listings, item access and the storage compared',
    thorough='0..3 entries, two operations of every kind')


@plumbing(Alias, DefaultInit, Nodify, OdictStorage)
class Bare(object):
    pass


@plumbing(Adopt, Alias, DefaultInit, Nodify, DictStorage)
class Adopting(object):
    pass


@plumbing(Alias, Adopt, DefaultInit, Nodify, OdictStorage)
class AdoptingBelow(object):
    pass


class OwnStorage(Storage):
    @default
    @property
    def storage(self):
        try:
            return self.data
        except AttributeError:
            self.data = odict()
            return self.data


@plumbing(Alias, DefaultInit, Nodify, OwnStorage)
class Own(object):
    pass


class EqualPrefix(EqualNode, PrefixAliaser):
    """Equal to everything."""


class Refusing(Falsy):
    """Accepts keys starting with a; not enumerable; false in a boolean context."""

    def alias(self, key):
        if not key.startswith('a'):
            raise KeyError(key)
        return 'b' + key

    def unalias(self, name):
        if not name.startswith('ba'):
            raise KeyError('refused')
        return name[1:]


def refusing():
    def alias(key):
        return (True, 'b' + key) if key.startswith('a') else (False, None)

    def unalias(name):
        return (True, name.removeprefix('b')) if name.startswith('ba') else (False, None)
    return alias, unalias


CLASSES = dict(Bare=Bare, Adopting=Adopting, AdoptingBelow=AdoptingBelow, Own=Own)
KINDS = ('none', 'prefix', 'suffix', 'both', 'chain', 'dict0', 'dict1', 'dict2', 'lax1', 'lax0',
         'refusing')


def make(env, kind):
    if kind == 'none':
        return None, affix('', '')
    if kind == 'prefix':
        p = env.str('pre')
        return (EqualPrefix if env.bool('equal') else PrefixAliaser)(p), affix(p, '')
    if kind == 'suffix':
        s = env.str('suf')
        return SuffixAliaser(s), affix('', s)
    if kind == 'both':
        p, s = env.str('pre'), env.str('suf')
        return PrefixSuffixAliaser(p, s), affix(p, s)
    if kind == 'chain':
        p = env.str('pre')
        return AliaserChain([PrefixAliaser(p), SuffixAliaser('s')]), \
            chain([affix(p, ''), affix('', 's')])
    if kind == 'refusing':
        return Refusing(), refusing()
    n = int(kind[-1])
    names = [env.str('n%d' % i) for i in range(n)]
    keys = [env.str('u%d' % i) for i in range(n)]
    distinct(env, names)
    distinct(env, keys)
    strict = kind.startswith('dict')
    return DictAliaser(list(zip(names, keys)), strict=strict), mapping(list(zip(names, keys)), strict)


def outside(env, under, ref):
    """View from outside; None if iteration has to raise."""
    out = Ref()
    for k, v in under.items():
        ok, a = ref[0](k)
        if ok:
            out.e.append([a, v])
    return out


OPS = ('set', 'del', 'get', 'getd', 'in', 'setdefault', 'pop', 'popd', 'popitem',
       'update_pairs', 'clear', 'has_key', 'item')


def check(env, node, under, ref, kind, tag, full=True):
    view = outside(env, under, ref)
    if len(view) != len(under) and kind == 'refusing':
        # not a dictionary: the refusal reaches the caller
        e, r = env.raises(lambda: list(node), KeyError)
        env.check(e is not None, tag + ': refused key in iteration')
    else:
        agree(env, node, view, tag, full=full)
    st = node.storage
    env.eqlist(st.keys(), under.keys(), tag + ': storage keys')
    env.samelist(st.values(), under.values(), tag + ': storage values')
    return view


def run(env, cls, kind, n, ops):
    C = CLASSES[cls]
    al, ref = make(env, kind)
    if kind == 'none':
        node = C(name='n')
    else:
        node = C(name='n')
        node.aliaser = al
    under = Ref()
    through = env.bool('through') if n else False
    for i in range(n):
        k = env.str('k%d' % i)
        env.assume(not under.has(k))
        ok, a = ref[0](k)
        if ok:
            env.assume(ref[1](a)[1] == k)
        v = (Falsy(), Equal(), None)[i]
        if through:
            env.assume(ok)
            node[a] = v
        else:
            node.storage[k] = v
        under.set(k, v)
    # no two underlying keys look the same from outside
    view = outside(env, under, ref)
    distinct(env, view.keys())
    check(env, node, under, ref, kind, 'pre-state')
    for j, oplist in enumerate(ops):
        oplist = OPS if oplist == 'all' else oplist
        op = oplist[env.choice('op%d' % j, len(oplist))]
        step(env, node, under, ref, kind, op, j)
    env.reach('end')


def step(env, node, under, ref, kind, op, j):
    tag = 'op%d %s' % (j, op)
    view = outside(env, under, ref)
    listable = not (len(view) != len(under) and kind == 'refusing')
    if op in ('popitem', 'clear'):
        env.assume(listable)
        key, ok, uk = None, True, None
    else:
        key = env.str('a%d' % j)
        ok, uk = ref[1](key)
        if ok:
            # dictionaries that pass unlisted keys: only what is one-to-one
            lossy, back = ref[0](uk)
            env.assume(lossy and back == key)
    val = ('o', j)
    if not ok:
        d = object()
        if op == 'set':
            call = lambda: node.__setitem__(key, val)  # noqa
        elif op == 'del':
            call = lambda: node.__delitem__(key)  # noqa
        elif op == 'setdefault':
            call = lambda: node.setdefault(key, val)  # noqa
        elif op == 'pop':
            call = lambda: node.pop(key)  # noqa
        elif op == 'update_pairs':
            call = lambda: node.update([(key, val)])  # noqa
        elif op == 'item':
            call = lambda: node[key]  # noqa
        else:
            call = None
        if call is not None:
            e, r = env.raises(call, KeyError)
            env.check(e is not None, tag + ': KeyError for a key that has no translation')
        elif op == 'get':
            env.same(node.get(key), None, tag + ' untranslatable')
        elif op == 'getd':
            env.same(node.get(key, d), d, tag + ' untranslatable')
        elif op == 'popd':
            env.same(node.pop(key, d), d, tag + ' untranslatable')
        else:
            env.check(not (node.has_key(key) if op == 'has_key' else key in node),
                      tag + ' untranslatable')
    else:
        missing = key is not None and not under.has(uk)
        if op == 'item':
            e, r = env.raises(lambda: node[key], KeyError)
            env.check((e is None) == (not missing), tag + ': KeyError exactly when missing')
            if not missing:
                env.same(r, under.get(uk), tag)
        else:
            if missing and op in ('del', 'pop'):
                e, r = env.raises(lambda: node.__delitem__(key) if op == 'del' else node.pop(key),
                                  KeyError)
            else:
                e = None
                before = view.copy()
                apply_op(env, op, node, view, key, val, 'op%d' % j, None, object())
        if missing and op in ('item', 'del', 'pop'):
            env.check(e is not None, tag + ': KeyError when missing')
            env.check(e.args[0] == key, tag + ': KeyError carries the requested key')
        elif op in ('set', 'update_pairs'):
            under.set(uk, val)
        elif op == 'setdefault':
            if missing:
                under.set(uk, val)
        elif op in ('del', 'pop', 'popd'):
            under.delete(uk)
        elif op == 'popitem':
            if len(before):
                last = before.keys()[-1]
                under.delete(ref[1](last)[1])
        elif op == 'clear':
            for k in before.keys():
                under.delete(ref[1](k)[1])
    check(env, node, under, ref, kind, 'after ' + tag)


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for c in CLASSES:
        for k in KINDS:
            if q and c != 'Bare' and k not in ('prefix', 'dict1', 'none'):
                continue
            for n in range(0, 3 if q else 4):
                if q and n > 1 and (k in ('both', 'lax1') or c != 'Bare'):
                    continue
                out.append(dict(name='%s-%s-%d' % (c, k, n), fn='run', must_reach=['end'],
                                kw=dict(cls=c, kind=k, n=n, ops=['all'] if q else ['all', 'all']),
                                weight=1 + n * 2 + 3 * (k in ('chain', 'both', 'dict2')),
                                budget=150 if q else 900))
            if q and (c == 'Bare' or k == 'prefix') and k in ('none', 'prefix', 'dict2'):
                out.append(dict(name='%s-%s-sets' % (c, k), fn='run', must_reach=['end'],
                                kw=dict(cls=c, kind=k, n=0, ops=[['set'], ['set', 'del'], ['set', 'del']]),
                                weight=5, budget=150))
    return out
