"""The string codec round-trips text and never touches its input."""
from node.base import OrderedNode
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Nodify
from node.utils import StrCodec
from node.utils import UNSET
from node.utils import decode
from node.utils import encode
from plumber import plumbing
from .common import distinct

BOUNDS = dict(
    quick='structures of up to 3 levels with up to 2 items each, of 8 kinds (text, list, tuple, dict, node, '
          'child tree, number, any object); arbitrary text and keys; encoded text, also mixed with '
          'undecodable bytes (7 different), soft and strict; codecs for utf-8 (3 instances), utf-16, latin-1',
    thorough='up to 3 items')
ASSUMPTIONS = ['str.encode and bytes.decode of CPython are inverse to each other for valid text (no lone '
               'surrogates); encoded symbolic text is modelled as the text with its encoding',
               'keys of a dictionary differ; undecodable bytes are 7 concrete examples']


@plumbing(DefaultInit, Nodify, DictStorage)
class Values(object):
    """Node that holds anything."""


class Any(object):
    pass


BAD = (b'\xff', b'fo\xe4', b'\xc3', b'\xed\xa0\x80', b'a\x80b', b'\xf8\x88\x80\x80\x80', b'\xe4\xe4')
KINDS = ('text', 'list', 'tuple', 'dict', 'node', 'tree', 'int', 'other')
CONTAINERS = ('list', 'tuple', 'dict', 'node')
OTHERS = (None, UNSET, True, 1.5, Any(), Any, frozenset(['x']), bytearray(b'x'), object(), range(2))


def codec(name):
    """(codec, encoding)"""
    if name == 'default':
        class Default(object):
            encode = staticmethod(encode)
            decode = staticmethod(decode)
        return Default, 'utf-8'
    if name == 'strict':
        return StrCodec(soft=False), 'utf-8'
    if name == 'soft':
        return StrCodec('utf-8', True), 'utf-8'
    return StrCodec(name), name


def build(env, kind, tag, depth, items, texts=None, mixed=()):
    """A structure."""
    if kind == 'text':
        if texts:
            return env.pick('t' + tag, texts)
        return env.str('s' + tag)
    if kind == 'bytes':
        return env.str('s' + tag).encode('utf-8')
    if kind == 'bad':
        return env.pick('x' + tag, BAD)
    if kind == 'int':
        return env.int('i' + tag, -2 ** 70, 2 ** 70)
    if kind == 'other':
        return OTHERS[env.choice('o' + tag, len(OTHERS) if len(tag) < 2 else 3)]
    if kind == 'tree':
        n = OrderedNode(name='t')
        k = env.keyfree('k' + tag)
        n[k] = OrderedNode()
        n[k][k] = OrderedNode()
        return n
    n = env.choice('n' + tag, items + 1)
    vals = []
    for i in range(n):
        ks = mixed or (KINDS if depth > 1 else ('text', 'int', 'other'))
        if depth <= 1:
            ks = [k for k in ks if k not in CONTAINERS]
        elif depth < 3:
            # each kind of container once per level
            pass
        k = ks[env.choice('k%s%d' % (tag, i), len(ks))]
        vals.append(build(env, k, '%s%d' % (tag, i), depth - 1, max(1, items - 1), texts, mixed))
    if kind == 'list':
        return vals
    if kind == 'tuple':
        return tuple(vals)
    keys = []
    for i in range(n):
        if texts:
            keys.append('key%d' % i)
        else:
            keys.append(env.keyfree('m%s%d' % (tag, i)))
    distinct(env, keys)
    if kind == 'node':
        node = Values(name='n')
        for k, v in zip(keys, vals):
            node[k] = v
        return node
    d = {}
    for k, v in zip(keys, vals):
        d[k] = v
    return d


def isnode(x):
    return isinstance(x, (Values, OrderedNode))


def children(x):
    if isinstance(x, (list, tuple)):
        return list(x)
    return list(x.items())


def snapshot(x):
    """The structure by identity."""
    if isinstance(x, (list, tuple)):
        return [x, [snapshot(i) for i in x]]
    if isinstance(x, dict) or isnode(x):
        return [x, [(k, snapshot(v)) for k, v in x.items()]]
    return x


def unchanged(env, x, snap, tag):
    if isinstance(x, (list, tuple)):
        env.check(snap[0] is x and len(snap[1]) == len(x), tag)
        for i, s in zip(x, snap[1]):
            unchanged(env, i, s, tag)
    elif isinstance(x, dict) or isnode(x):
        env.check(snap[0] is x, tag)
        items = list(x.items())
        env.check(len(items) == len(snap[1]), tag)
        for (k, v), (sk, sv) in zip(items, snap[1]):
            env.check(k is sk or k == sk, tag)
            unchanged(env, v, sv, tag)
    else:
        env.same(x, snap, tag)


def compare(env, got, x, text, tag):
    """got is x with text (and bytes) as text(it) and nodes as dictionaries."""
    if isinstance(x, (str, bytes)):
        e = text(x)
        env.check(isinstance(got, str) == isinstance(e, str)
                  and isinstance(got, bytes) == isinstance(e, bytes), tag + ': type of text')
        env.check(got == e, tag + ': text')
    elif isinstance(x, (list, tuple)):
        t = list if isinstance(x, list) else tuple
        env.check(type(got) is t, tag + ': kind of sequence')
        env.check(len(got) == len(x), tag + ': number of items')
        if t is list:
            env.check(got is not x, tag + ': a new list')
        for g, i in zip(got, x):
            compare(env, g, i, text, tag)
    elif isinstance(x, dict) or isnode(x):
        env.check(isinstance(got, dict) and not isnode(got), tag + ': dictionary')
        env.check(got is not x, tag + ': a new dictionary')
        gi, xi = list(got.items()), list(x.items())
        env.check(len(gi) == len(xi), tag + ': number of entries')
        for (gk, gv), (k, v) in zip(gi, xi):
            compare(env, gk, k, text, tag + ' key')
            compare(env, gv, v, text, tag)
    else:
        env.same(got, x, tag + ': other values')


def run(env, kind, cname, depth=2, items=2, texts=None):
    c, enc = codec(cname)
    x = build(env, kind, '', depth, items, texts)
    snap = snapshot(x)
    e = c.encode(x)
    compare(env, e, x, lambda s: s.encode(enc), 'encoded')
    unchanged(env, x, snap, 'encode leaves its input as it is')
    esnap = snapshot(e)
    d = c.decode(e)
    compare(env, d, x, lambda s: s, 'decoded')
    unchanged(env, e, esnap, 'decode leaves its input as it is')
    unchanged(env, x, snap, 'decode leaves the input as it is')
    # text stays text, encoded text stays encoded
    compare(env, c.decode(x), x, lambda s: s, 'decoded text')
    compare(env, c.encode(e), e, lambda s: s, 'encoded twice')
    unchanged(env, x, snap, 'input')
    env.reach('end')


def undecodable(env, kind, cname, depth=2, items=2):
    """Structures with bytes that are not text."""
    c, enc = codec(cname)
    mixed = ('bytes', 'bad', 'text', 'list', 'dict', 'tuple')
    x = build(env, kind, '', depth, items, None, mixed)
    bad = has_bad(x)
    strict = cname == 'strict'
    snap = snapshot(x)
    for fn, tag in ((c.decode, 'decode'), (c.encode, 'encode')):
        e, r = env.raises(lambda: fn(x), UnicodeDecodeError)
        env.check((e is not None) == (bad and strict), tag + ': UnicodeDecodeError')
        unchanged(env, x, snap, tag + ' leaves its input as it is')
        if e is None:
            def text(s):
                if isinstance(s, str):
                    return s if tag == 'decode' else s.encode(enc)
                if tag == 'encode' or has_bad(s):
                    return s
                return s.decode(enc)
            compare(env, r, x, text, tag)
    env.reach('end')


def has_bad(x):
    if isinstance(x, (list, tuple)):
        return any([has_bad(i) for i in x])
    if isinstance(x, dict) or isnode(x):
        return any([has_bad(k) or has_bad(v) for k, v in x.items()])
    return isinstance(x, bytes) and any([x is b for b in BAD])


def scenarios(tier):
    q = tier == 'quick'
    out = []

    def sc(name, w=1, fn='run', **kw):
        out.append(dict(name=name, fn=fn, kw=kw, weight=w, must_reach=['end'],
                        budget=150 if q else 1500))
    for k in KINDS:
        if k in CONTAINERS:
            sc(k + '-3', 6, kind=k, cname='default', depth=3, items=1)
            sc(k + '-2', 6, kind=k, cname='default', depth=2, items=2 if q else 3)
            sc(k + '-strict', 2, kind=k, cname='strict', depth=1)
            sc(k + '-soft', 2, kind=k, cname='soft', depth=1)
        else:
            sc(k, kind=k, cname='default')
    sc('utf-16', 1, kind='list', cname='utf-16', depth=2, items=1)
    sc('latin-1', 1, kind='dict', cname='latin-1', depth=2, items=1, texts=('', 'a', '\xe4', '\xff\x00'))
    for k in ('bytes', 'bad', 'list', 'tuple', 'dict', 'node'):
        for name in ('default', 'strict', 'soft'):
            sc('undecodable-%s-%s' % (k, name), 3, fn='undecodable', kind=k, cname=name,
               depth=2 if k in CONTAINERS else 1, items=2 if name != 'soft' else 1)
    return out
