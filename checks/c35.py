"""The library can be imported in any order."""
import importlib
import os
import sys
import node
import node.base
import node.behaviors
import node.events
import warnings
import zope.component
import zope.interface
from plumber import plumber

BOUNDS = dict(
    quick='every module of the library (all but tests and the profiling script) imported first from scratch, '
          'followed by every other one, then all the rest; afterwards a tree, events, event attributes and '
          'serialization used across the modules, with arbitrary names and values',
    thorough='every sequence of three modules')
ASSUMPTIONS = ['a fresh interpreter is represented by removing all node.* modules (the namespace package itself '
               'excepted) and the class hooks they registered']
SKIP = ('node.testing.profiling',)


def modules():
    src = os.path.dirname(os.path.dirname(os.path.abspath(node.base.__file__)))
    out = []
    for d, dirs, files in os.walk(os.path.join(src, 'node')):
        dirs[:] = sorted(x for x in dirs if x not in ('tests', '__pycache__') and
                         os.path.exists(os.path.join(d, x, '__init__.py')))
        for f in sorted(files):
            if f.endswith('.py'):
                n = os.path.relpath(os.path.join(d, f), src)[:-3].replace(os.sep, '.')
                if n.endswith('.__init__'):
                    n = n[:-9]
                if n != 'node' and n not in SKIP:
                    out.append(n)
    return out


MODULES = modules()


def public(m):
    return sorted(n for n in dir(m) if not n.startswith('_') and
                  not hasattr(getattr(m, n), '__loader__'))


def reference():
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return {n: public(importlib.import_module(n)) for n in MODULES}


REFERENCE = reference()


class Fresh(object):
    """A world in which nothing of node was imported."""

    def __enter__(self):
        self.mods = {n: m for n, m in sys.modules.items() if n.startswith('node.')}
        self.attrs = {n: getattr(node, n) for n in
                      {m.split('.')[1] for m in self.mods} if hasattr(node, n)}
        self.hooks = list(plumber.__metaclass_hooks__)
        for n in self.mods:
            del sys.modules[n]
        for n in self.attrs:
            delattr(node, n)
        plumber.__metaclass_hooks__[:] = [
            h for h in self.hooks if not h.__module__.startswith('node.')]

    def __exit__(self, *exc):
        for n in [n for n in sys.modules if n.startswith('node.')]:
            del sys.modules[n]
            if n.count('.') == 1 and hasattr(node, n[5:]):
                delattr(node, n[5:])
        sys.modules.update(self.mods)
        for n, m in self.attrs.items():
            setattr(node, n, m)
        plumber.__metaclass_hooks__[:] = self.hooks


def run(env, first, count):
    with Fresh(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        body(env, first, count)


def body(env, first, count):
    rest = list(MODULES)
    order = [first]
    rest.remove(first)
    for i in range(count - 1):
        order.append(rest.pop(env.choice('m%d' % i, len(rest))))
    got = {}
    for n in order + rest:
        e, m = env.raises(lambda: importlib.import_module(n), Exception)
        env.check(e is None, '%s can be imported after %s: %r' % (
            n, ', '.join(x for x in order if x in got) or 'nothing', e))
        got[n] = m
    for n, m in got.items():
        env.check(public(m) == REFERENCE[n], '%s offers the same names' % n)
    # one object per class: names offered in several places
    beh, ev = got['node.behaviors'], got['node.events']
    origin = {}
    for n, m in got.items():
        if n == 'node.parts':
            continue
        for name in public(m):
            o = getattr(m, name)
            mod = getattr(o, '__module__', None)
            if isinstance(mod, str) and mod.startswith('node.') and getattr(o, '__name__', None) == name:
                origin.setdefault((mod, name), []).append((n, o))
    env.check(len(origin) > 100, 'classes, functions and interfaces of the library')
    for (mod, name), places in origin.items():
        for n, o in places:
            env.same(o, places[0][1], '%s.%s is %s.%s' % (n, name, places[0][0], name))
    use(env, got, beh, ev)
    env.reach('end')


def use(env, got, beh, ev):
    base = got['node.base']
    k = env.keyfree('k')
    root = base.OrderedNode(name='root')
    root[k] = base.OrderedNode()
    env.same(root[k].parent, root, 'parent')
    env.check(got['node.interfaces'].INode.providedBy(root), 'interface')
    env.samelist(root.filteredvalues(got['node.interfaces'].INode), [root[k]], 'children')
    # events
    Attr = beh.EventAttribute(1)
    C = type(ev.EventDispatcher)('C', (ev.EventDispatcher,), dict(__events__=['e'], attr=Attr))
    c = C()
    log = []
    c.bind(e=lambda *a: log.append(a), attr=lambda *a: log.append(a))
    v = env.int('v', -9, 9)
    c.dispatch('e', v)
    c.attr = v
    exp = [(v,)]
    if not v == 1:
        exp.append((v,))
    env.check(log == exp, 'events')
    with got['node.behaviors.events'].suppress_events():
        c.dispatch('e', v)
    env.check(len(log) == len(exp), 'suppressed')
    err, r = env.raises(lambda: c.bind(nope=log.append), got['node.behaviors.events'].UnknownEvent)
    env.check(err is not None, 'unknown event')
    # lifecycle
    seen = []
    ifc = got['node.interfaces']
    plumbing = sys.modules['plumber'].plumbing

    @plumbing(beh.Lifecycle)
    class L(base.OrderedNode):
        pass
    gsm = zope.component.getGlobalSiteManager()

    def handler(obj, event):
        seen.append(event)
    req = [zope.interface.Interface, ifc.INodeAddedEvent]
    gsm.registerHandler(handler, req)
    try:
        n = L()
        n[k] = base.OrderedNode()
    finally:
        gsm.unregisterHandler(handler, req)
    env.check(len(seen) == 1 and isinstance(seen[0], ev.NodeAddedEvent), 'added event')
    # serialization
    ser = got['node.serializer']
    n = ser.deserialize(ser.serialize(root))
    env.same(type(n), base.OrderedNode, 'class of a deserialized node')
    env.eqlist(n.keys(), [k], 'deserialized')
    env.same(ser.deserialize(ser.serialize(got['node.utils'].UNSET)), got['node.utils'].UNSET, 'UNSET')


def scenarios(tier):
    q = tier == 'quick'
    return [dict(name=m, fn='run', weight=3, must_reach=['end'], kw=dict(first=m, count=2 if q else 3),
                 budget=150 if q else 1200) for m in MODULES]
