"""Serialized values keep their type and value."""
import os
import sys
import uuid
from node.base import Node
from node.base import OrderedNode
from node.behaviors import Adopt
from node.behaviors import Attributes
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.serializer import NodeDecoder
from node.serializer import deserialize
from node.serializer import serialize
from node.utils import UNSET
from plumber import plumbing

HERE = os.path.dirname(os.path.abspath(__file__))
if HERE not in sys.path:
    sys.path.append(HERE)      # vfix and vfix_flat are top level modules
BOUNDS = dict(
    quick='values of 9 kinds: UNSET, ids, classes and functions, None, booleans, arbitrary integers '
          'below 2**80, floats, arbitrary strings, lists of up to 3 of these two levels deep; as an '
          'attribute of 2 node classes, in a list there and alone; dotted names of classes, nested '
          'classes, functions and functions of classes in a top level module, a package, its modules '
          'and a package within, each with any of them imported before or not; names of top level modules and of what does not exist',
    thorough='lists three levels deep')
ASSUMPTIONS = ['the JSON text is modelled as the data it stands for; every path is replayed with '
               'the json module itself', 'NaN is left out (it equals nothing)',
               'of the strings that start with "<UUID>:" (a known finding) 3 are tried']


@plumbing(NodeChildValidate, Nodespaces, Adopt, Attributes, DefaultInit, Nodify, DictStorage)
class Access(object):
    attribute_access_for_attrs = True


class Plain(object):
    pass


def function():
    pass


CLASSES = dict(Node=Node, Access=Access)
KINDS = ('unset', 'uuid', 'class', 'function', 'none', 'bool', 'int', 'float', 'str')
PLAIN = ('none', 'bool', 'int', 'float', 'str')
OBJECTS = (Plain, Node, OrderedNode, int, dict, uuid.UUID)


ENCODED = ('<UUID>:', '<UUID>:x', '<UUID>:12345678-1234-5678-1234-567812345678')


def leaf(env, kind, tag):
    if kind == 'unset':
        return UNSET
    if kind == 'uuid':
        return uuid.UUID(int=env.pick('u' + tag, (0, 5, 2 ** 128 - 1, 0x12345678123456781234567812345678)))
    if kind == 'class':
        return env.pick('c' + tag, OBJECTS)
    if kind == 'function':
        return env.pick('f' + tag, (function, leaf, os.path.join, os.path.commonprefix))
    if kind == 'none':
        return None
    if kind == 'bool':
        return env.pick('b' + tag, (True, False))
    if kind == 'int':
        return env.int('i' + tag, -2 ** 80, 2 ** 80)
    if kind == 'float':
        return env.pick('d' + tag, (1.5, -0.0, 0.1, 1e308, 3.0, float('inf')))
    s = env.str('s' + tag)
    if s == '<UNSET>':
        return '<UNSET>'
    if s.startswith('<UUID>:'):
        t = env.pick('t' + tag, ENCODED)
        env.assume(s == t)
        return t
    return s


def value(env, kind, tag, depth, items):
    if kind != 'list':
        return leaf(env, kind, tag)
    out = []
    for i in range(items):
        ks = KINDS + ('list',) if depth > 1 else KINDS
        k = ks[env.choice('k%s%d' % (tag, i), len(ks))]
        out.append(value(env, k, '%s%d' % (tag, i), depth - 1, items - 1))
    return out


def collides(v):
    """Strings within v that look like an encoded UNSET or id."""
    if isinstance(v, list):
        return any([collides(x) for x in v])
    return isinstance(v, str) and (v == '<UNSET>' or v.startswith('<UUID>:'))


def same(got, exp):
    if isinstance(exp, list):
        return isinstance(got, list) and len(got) == len(exp) and all(
            [same(g, e) for g, e in zip(got, exp)])
    if exp is UNSET or exp is None or isinstance(exp, (bool, type)) or callable(exp):
        return got is exp
    for t in (bool, int, float, str, uuid.UUID):
        if isinstance(got, t) != isinstance(exp, t):
            return False
    if isinstance(exp, float):
        return repr(got) == repr(exp)
    return got == exp


def judge(env, get, exp, label):
    """get: gives what came back."""
    if collides(exp):
        try:
            ok = same(get(), exp)
        except ValueError:
            ok = False       # not an id at all
        env.finding(ok, 'encoded', label)
    else:
        got = get()
        env.check(same(got, exp), label, lambda: 'got %r, expected %r' % (got, exp))


def run(env, kind, where, cls='Node', depth=1, items=2, first=None):
    if first:
        v = [value(env, first, '0', depth - 1, items - 1)]
        for i in range(1, items):
            ks = KINDS
            v.append(leaf(env, ks[env.choice('k%d' % i, len(ks))], str(i)))
    else:
        v = value(env, kind, '', depth, items)
    if where == 'alone':
        judge(env, lambda: deserialize(serialize(v)), v, 'value')
    else:
        n = CLASSES[cls](name='n')
        name = env.keyfree('name')
        n.attrs[name] = v
        text = serialize(n)

        def back():
            m = deserialize(text)
            a = m.nodespaces['__attrs__']
            env.eqlist(list(a.keys()), [name], 'names of attributes')
            return a[name]
        judge(env, back, v, 'attribute')
        env.check(same(n.nodespaces['__attrs__'][name], v), 'the original stays')
    env.reach('end')


MODULES = ('vfix_flat', 'vfix', 'vfix.deep', 'vfix.deep.mod', 'vfix.deep.er', 'vfix.other')
NAMES = ('Top', 'Top.Inner', 'Top.Inner.Most', 'function', 'Top.method', 'Top.Inner')
DROP = ('vfix.other', 'vfix.deep.er', 'vfix.deep.mod', 'vfix.deep', 'vfix', 'vfix_flat')


def forget(name):
    sys.modules.pop(name, None)
    if '.' in name:
        p, c = name.rsplit('.', 1)
        if p in sys.modules:
            sys.modules[p].__dict__.pop(c, None)


def look(dotted, module):
    ob = sys.modules[module]
    for c in dotted[len(module) + 1:].split('.'):
        ob = getattr(ob, c)
    return ob


def names(env, module, where):
    """Dotted names of objects in modules that may not be imported."""
    __import__(module)
    name = NAMES[env.choice('name', len(NAMES))]
    ob = look('%s.%s' % (module, name), module)
    if where == 'alone':
        text = serialize(ob)
    elif where == 'list':
        text = serialize([ob, [ob]])
    else:
        n = Node(name='n')
        n.attrs['a'] = ob
        text = serialize(n)
    for m in DROP:
        forget(m)
    try:
        for m in reversed(DROP):
            if m == module or env.bool('before ' + m):
                if m != module or env.bool('itself'):
                    __import__(m)
        data = deserialize(text)
        got = data if where == 'alone' else data[1][0] if where == 'list' else data.attrs['a']
        env.check(module in sys.modules, 'module is imported')
        exp = look('%s.%s' % (module, name), module)
        env.same(got, exp, 'the very object')
        if where == 'list':
            env.same(data[0], exp, 'the very object')
    finally:
        for m in DROP:
            forget(m)
    env.reach('end')


def missing(env, module, where):
    """Dotted names of what does not exist, and of modules."""
    for m in DROP:
        forget(m)
    try:
        if env.bool('before'):
            __import__(module)
        name, exc = env.pick('name', (
            ('vfix_missing', ImportError), ('vfix_missing.Cls', ImportError),
            ('vfix_missing.mod.Cls', ImportError), (module + '.missing', AttributeError),
            (module + '.missing.Cls', AttributeError), (module.split('.')[0], None),
            ('%s.%s.missing' % (module, NAMES[0]), AttributeError),
            ('%s.%s.missing' % (module, NAMES[1]), AttributeError)))
        ob = dict(__ob__=name)
        if where == 'class':
            ob = dict(__node__={'class': name, 'name': 'n'})
        elif where == 'list':
            ob = [[ob]]
        if exc is None:
            if where != 'class':
                r = NodeDecoder().decode(ob)
                env.same(r[0][0] if where == 'list' else r, sys.modules[name], 'module')
        else:
            e, r = env.raises(lambda: NodeDecoder().decode(ob), ImportError, AttributeError)
            env.check(isinstance(e, exc), 'refused', lambda: repr(e))
    finally:
        for m in DROP:
            forget(m)
    env.reach('end')


def scenarios(tier):
    q = tier == 'quick'
    out = []

    def sc(name, w=1, fn='run', **kw):
        out.append(dict(name=name, fn=fn, kw=kw, weight=w, must_reach=['end'],
                        budget=150 if q else 1500))
    for where in ('alone', 'attr'):
        for cls in ('Node', 'Access') if where == 'attr' else ('Node',):
            for kind in KINDS:
                if kind in PLAIN[:2]:
                    continue
                sc('%s-%s-%s' % (where, cls, kind), kind=kind, where=where, cls=cls)
        sc('%s-list' % where, 3, kind='list', where=where, depth=1, items=2)
        for k in KINDS + ('list',):
            sc('%s-list2-%s' % (where, k), 6, kind='list', where=where, depth=2 if q else 3,
               items=2 if q else 3, first=k)
    for m in MODULES:
        for where in ('alone', 'list', 'attr'):
            sc('name-%s-%s' % (m, where), fn='names', module=m, where=where)
        for where in ('alone', 'list', 'class'):
            sc('missing-%s-%s' % (m, where), fn='missing', module=m, where=where)
    return out
