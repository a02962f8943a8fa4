"""Byte string keys and values are text in a unicode aware node."""
from node.base import BaseNode
from node.behaviors import Adopt
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import UnicodeAware
from plumber import plumbing
from .common import Ref
from .common import distinct

BOUNDS = dict(
    quick='4 classes (with and without adoption, odict and dict storage, ordered); 0..1 (two classes: 2) children put under '
          'arbitrary text keys given as text or as UTF-8 bytes, then each mapping operation with a key that is text, '
          'UTF-8 bytes of any text or undecodable (7 byte strings); values: any text, UTF-8 bytes of any text, '
          'undecodable bytes, nodes, numbers, None, containers of byte strings; pairs of set/del/setdefault/pop',
    thorough='0..3 children, triples of operations')
ASSUMPTIONS = ['str.encode and bytes.decode of CPython are inverse to each other for valid text (no lone surrogates)',
               'undecodable bytes are 7 concrete examples']
BAD = (b'\xff', b'fo\xe4', b'\xc3', b'\xed\xa0\x80', b'a\x80b', b'\xf8\x88\x80\x80\x80', b'\xe4\xe4')


@plumbing(Nodify, UnicodeAware, OdictStorage)
class Values(object):
    """As in the documentation."""


@plumbing(UnicodeAware, DefaultInit, Nodify, DictStorage)
class Unordered(object):
    pass


@plumbing(UnicodeAware, Adopt, DefaultInit, Nodify, OdictStorage)
class Adopting(object):
    pass


@plumbing(UnicodeAware, Adopt, Order, DefaultInit, Nodify, OdictStorage)
class Ordered(object):
    pass


CLASSES = dict(Values=Values, Unordered=Unordered, Adopting=Adopting, Ordered=Ordered)
FORMS = ('text', 'bytes')


class Any(object):
    pass


OTHER = (None, 0, True, 1.5, [b'x'], (b'x', 'y'), {b'x': b'y'}, bytearray(b'x'), Any(), Any)


def key(env, tag, forms=FORMS):
    """(key as given, key of the child)"""
    form = forms[env.choice('f' + tag, len(forms))]
    if form == 'bad':
        k = env.pick('x' + tag, BAD)
        return k, k
    k = env.str('k' + tag)
    return (k.encode('utf-8') if form == 'bytes' else k), k


class Text(object):
    """Expected value: this text."""

    def __init__(self, s):
        self.s = s


def value(env, tag, kinds, nodes):
    kind = kinds[env.choice('v' + tag, len(kinds))]
    if kind == 'text':
        s = env.str('s' + tag)
        return s, Text(s)
    if kind == 'bytes':
        s = env.str('s' + tag)
        return s.encode('utf-8'), Text(s)
    if kind == 'bad':
        v = env.pick('y' + tag, BAD)
        return v, v
    if kind == 'node':
        v = nodes()
        return v, v
    v = OTHER[env.choice('o' + tag, len(OTHER))]
    return v, v


def same(env, got, exp, tag):
    if isinstance(exp, Text):
        env.check(isinstance(got, str), tag + ': is text')
        env.check(got == exp.s, tag + ': the text')
    else:
        env.same(got, exp, tag)


def agree(env, n, ref, tag):
    keys = list(n)
    env.check(len(keys) == len(ref), tag + ': number of children')
    for k, e in zip(keys, ref.keys()):
        env.check(isinstance(k, bytes) == isinstance(e, bytes), tag + ': keys are text')
        env.check(k == e, tag + ': key')
    env.eqlist(n.keys(), ref.keys(), tag + ': keys')
    vals = n.values()
    env.eq(len(vals), len(ref), tag + ': number of values')
    for v, e in zip(vals, ref.values()):
        same(env, v, e, tag + ': value')
        if isinstance(n, (Adopting, Ordered)) and isinstance(v, BaseNode):
            env.same(v.__parent__, n, tag + ': parent')
    for k, e in ref.items():
        # in any form
        for f in ((k,) if isinstance(k, bytes) else (k, k.encode('utf-8'))):
            e1, r = env.raises(lambda: n[f], KeyError)
            env.check(e1 is None, tag + ': found in either form')
            same(env, r, e, tag + ': child')
            env.check((f in n) is True, tag + ': in')
        if isinstance(n, (Adopting, Ordered)) and isinstance(r, BaseNode):
            env.check(isinstance(r.__name__, bytes) == isinstance(k, bytes), tag + ': the name is text')
            env.check(r.__name__ == k, tag + ': name')


OPS = ('set', 'del', 'get', 'getd', 'in', 'has_key', 'item', 'setdefault', 'pop', 'popd', 'update')
MUT = ('set', 'del', 'setdefault', 'pop')


def run(env, cls, n, ops, oplist=OPS, kinds=('node', 'bytes'), forms=FORMS):
    C = CLASSES[cls]
    m = C()
    ref = Ref()
    ks = []
    for i in range(n):
        k, eff = key(env, 'p%d' % i)
        for o in ks:
            env.assume(not (o == eff))
        ks.append(eff)
        v, ev = value(env, 'p%d' % i, kinds[:2], BaseNode)
        m[k] = v
        ref.set(eff, ev)
    for j in range(ops):
        op = oplist[env.choice('op%d' % j, len(oplist))]
        tag = '%d %s' % (j, op)
        k, eff = key(env, 'a%d' % j, forms)
        has = ref.has(eff)
        if op in ('set', 'setdefault', 'update'):
            v, ev = value(env, 'a%d' % j, kinds, BaseNode)
            if op == 'set':
                m[k] = v
            elif op == 'update':
                m.update([(k, v)])
            else:
                r = m.setdefault(k, v)
                if has:
                    same(env, r, ref.get(eff), tag + ': result')
            if op != 'setdefault' or not has:
                ref.set(eff, ev)
        elif op == 'del':
            e, r = env.raises(lambda: m.__delitem__(k), KeyError)
            env.check((e is None) == has, tag + ': KeyError exactly when missing')
            ref.delete(eff)
        elif op == 'item':
            e, r = env.raises(lambda: m[k], KeyError)
            env.check((e is None) == has, tag + ': KeyError exactly when missing')
            if has:
                same(env, r, ref.get(eff), tag + ': child')
        elif op in ('get', 'getd'):
            d = object() if op == 'getd' else None
            r = m.get(k, d) if op == 'getd' else m.get(k)
            same(env, r, ref.get(eff, d), tag)
        elif op == 'in':
            env.check((k in m) == has, tag)
        elif op == 'has_key':
            env.check(bool(m.has_key(k)) == has, tag)
        elif op == 'pop':
            e, r = env.raises(lambda: m.pop(k), KeyError)
            env.check((e is None) == has, tag + ': KeyError exactly when missing')
            if has:
                same(env, r, ref.get(eff), tag + ': result')
            ref.delete(eff)
        elif op == 'popd':
            d = object()
            r = m.pop(k, d)
            same(env, r, ref.get(eff, d), tag + ': result')
            ref.delete(eff)
        agree(env, m, ref, tag)
    env.reach('end')


def scenarios(tier):
    out = []
    q = tier == 'quick'
    allv = ('text', 'bytes', 'bad', 'node', 'other')
    forms = FORMS + ('bad',)
    for c in CLASSES:
        for n in range(0, 3 if q else 4):
            if q and n > 1 and c in ('Unordered', 'Adopting'):
                continue
            out.append(dict(name='%s-%d' % (c, n), fn='run', weight=4 + n, must_reach=['end'],
                            kw=dict(cls=c, n=n, ops=1, forms=forms,
                                    kinds=allv if n < 2 else ('node', 'bytes', 'bad')),
                            budget=120 if q else 1200))
        out.append(dict(name='%s-pairs' % c, fn='run', weight=9, must_reach=['end'],
                        kw=dict(cls=c, n=0 if q else 1, ops=2, oplist=MUT, forms=forms),
                        budget=120 if q else 1200))
        if not q:
            out.append(dict(name='%s-triples' % c, fn='run', weight=20, must_reach=['end'],
                            kw=dict(cls=c, n=0, ops=3, oplist=MUT), budget=1200))
    return out
