"""The debug decorator changes nothing but the log."""
from node.base import OrderedNode
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Nodify
from node.utils import debug
from node.utils import logger
from plumber import plumbing
import logging

BOUNDS = dict(
    quick='functions, methods of 2 instances, generators and functions calling each other; up to 2 '
          'positional and 2 keyword arguments with arbitrary names, arguments of 6 and results of 14 '
          'kinds, strings arbitrary; 4 kinds of exceptions; logging on and off; 2 calls (with up to 1 '
          'argument, 2 kinds and 1 exception)',
    thorough='3 calls, 3 positional arguments')


class Failed(Exception):
    pass


class Stop(BaseException):
    pass


class Handler(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.records = []

    def emit(self, record):
        self.records.append(record.getMessage())


class Mutable(object):
    """Shown differently every time."""
    shown = 0

    def __repr__(self):
        self.shown += 1
        return '{%d}' % self.shown


class Touchy(object):
    """Can be shown, nothing else."""

    def refuse(self, *args):
        raise TypeError('not asked for')

    __bool__ = __nonzero__ = __len__ = __iter__ = __eq__ = __ne__ = __getitem__ = refuse
    __hash__ = None

    def __repr__(self):
        return 'touchy'


CALLS = []
STATE = {}


def body(name, obj, args, kw):
    CALLS.append((name, obj, args, kw))
    fn = STATE.get('before')
    if fn is not None:
        STATE['before'] = None
        fn()
    exc = STATE.get('exc')
    if exc is not None:
        raise exc
    return STATE.get('result')


@debug
def function(*args, **kw):
    """Documented."""
    return body('function', None, args, kw)


@debug
def generator(*args, **kw):
    CALLS.append(('generator', None, args, kw))
    yield STATE['result']
    if STATE.get('exc') is not None:
        raise STATE['exc']


@debug
def defaults(one=1, two=2):
    return body('defaults', None, (one, two), {})


class Plain(object):
    @debug
    def method(self, *args, **kw):
        return body('method', self, args, kw)

    @classmethod
    @debug
    def clsmethod(cls, *args, **kw):
        return body('clsmethod', cls, args, kw)

    @property
    @debug
    def prop(self):
        return body('prop', self, (), {})


@plumbing(DefaultInit, Nodify, DictStorage)
class Debugged(object):
    @debug
    def method(self, *args, **kw):
        return body('method', self, args, kw)


def value(env, name, nkinds=14):
    node = OrderedNode(name='node')
    node['child'] = OrderedNode()
    return (lambda: env.str(name), lambda: None, lambda: Mutable(), Touchy, lambda: iter([1, 2]),
            lambda: '{0} {x} %s', lambda: node, lambda: b'\xff', lambda: [1, ('a', u'\xe4')],
            lambda: 2 ** 64, lambda: {'x': None}, lambda: (), lambda: ('%d', 1),
            lambda: ('%s',))[env.choice(name + 'kind', nkinds)]()


def run(env, kind, n, nargs, nkinds=14, most=14):
    handler = Handler()
    old = logger.level, list(logger.handlers), logger.propagate, logging.root.manager.disable
    on = env.bool('on')
    logger.handlers[:] = [handler]
    logger.propagate = False
    logger.setLevel(logging.DEBUG if on else logging.WARNING)
    try:
        calls(env, kind, n, nargs, nkinds, handler, on, most)
    finally:
        logger.handlers[:] = old[1]
        logger.propagate = old[2]
        logger.setLevel(old[0])
    env.reach('end')


def calls(env, kind, n, nargs, nkinds, handler, on, most):
    objs = [Plain(), Plain()] if kind != 'node' else [Debugged(name='a'), Debugged(name='b')]
    for j in range(n):
        STATE.clear()
        del CALLS[:]
        args = [value(env, 'a%d%d' % (j, i), min(nkinds, most) if not i else 2)
                for i in range(env.choice('nargs%d' % j, nargs + 1))]
        kw = {}
        if kind in ('function', 'method', 'node', 'generator') and n == 1 and env.bool('kw%d' % j):
            kw['func'] = value(env, 'k%d' % j, 3)
            kw['args'] = 1
        if kind == 'prop':
            env.assume(not args)
        if kind == 'defaults':
            env.assume(len(args) < 3)
        obj = objs[env.choice('obj%d' % j, 2)] if kind in ('method', 'node', 'prop') else None
        STATE['result'] = result = value(env, 'r%d' % j, nkinds)
        exc = (None, Failed('x'), KeyError('{}'), Stop('s'))[env.choice('exc%d' % j, 4 if n == 1 else 2)]
        STATE['exc'] = exc
        fn = dict(function=function, generator=generator, defaults=defaults, method=None, node=None,
                  clsmethod=Plain.clsmethod, prop=None, nested=function)[kind]
        if kind in ('method', 'node'):
            fn = obj.method
        elif kind == 'prop':
            fn = lambda: obj.prop
        inner = kind == 'nested'
        if inner:
            STATE['before'] = lambda: generator(2)
        e, r = env.raises(lambda: fn(*args, **kw), Failed, KeyError, Stop)
        tag = 'call %d' % j
        if kind == 'generator':
            env.check(e is None, tag + ': nothing runs before the first item')
            env.check(not CALLS, tag + ': not started')
            env.same(next(r), result, tag + ': item')
            e, r = env.raises(lambda: next(r), Failed, KeyError, Stop, StopIteration)
            if exc is None:
                env.check(isinstance(e, StopIteration), tag + ': ends')
            else:
                env.same(e, exc, tag + ': the exception itself')
        elif exc is not None:
            env.same(e, exc, tag + ': the exception itself')
        else:
            env.check(e is None, tag + ': no exception')
            env.same(r, result, tag + ': the result itself')
        env.check(len(CALLS) == 1, tag + ': called once')
        name, o, a, k = CALLS[0]
        exp = list(args)
        if kind == 'defaults':
            exp += [1, 2][len(exp):]
        env.check(o is (Plain if kind == 'clsmethod' else obj), tag + ': instance')
        env.check(len(a) == len(exp), tag + ': positional arguments')
        for x, y in zip(a, exp):
            env.same(x, y, tag + ': argument')
        env.check(sorted(k) == sorted(kw), tag + ': keywords')
        for x in kw:
            env.same(k[x], kw[x], tag + ': keyword argument')
        for x in list(a) + [result]:
            if type(x) is type(iter([])):
                env.check(list(x) == [1, 2], tag + ': an iterator')
        env.check(on or not handler.records, tag + ': nothing logged if not asked for')
    env.check(function.__doc__ == 'Documented.', 'documentation')


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for kind in ('function', 'generator', 'defaults', 'method', 'node', 'clsmethod', 'prop', 'nested'):
        deep = kind in ('function', 'method', 'generator')
        out.append(dict(name=kind, fn='run', weight=4, must_reach=['end'], budget=150 if q else 900,
                        kw=dict(kind=kind, n=1, nargs=(2 if deep else 1) if q else 3, nkinds=14, most=6 if q else 14)))
        out.append(dict(name=kind + '-again', fn='run', weight=4, must_reach=['end'],
                        budget=150 if q else 900,
                        kw=dict(kind=kind, n=2 if q else 3, nargs=1, nkinds=2 if q else 3)))
    return out
