"""Models of library modules the code under test calls."""
import collections as _rc
import json as _rj
import types
from . import sym


class JsonText(str):
    """The JSON text of a (possibly symbolic) data structure."""

    def __new__(cls, data):
        self = str.__new__(cls, '<json>')
        self.data = data
        return self


class JSONEncoder(object):
    item_separator = ', '
    key_separator = ': '

    def __init__(self, skipkeys=False, ensure_ascii=True, check_circular=True,
                 allow_nan=True, sort_keys=False, indent=None, separators=None,
                 default=None):
        self.skipkeys = skipkeys
        self.ensure_ascii = ensure_ascii
        self.check_circular = check_circular
        self.allow_nan = allow_nan
        self.sort_keys = sort_keys
        self.indent = indent
        if default is not None:
            self.default = default

    def default(self, o):
        raise TypeError('Object of type %s is not JSON serializable'
                        % type(o).__name__)

    def encode(self, o):
        return JsonText(self._enc(o, []))

    def iterencode(self, o, _one_shot=False):
        yield self.encode(o)

    def _enc(self, o, seen):
        if o is None or o is True or o is False or isinstance(o, (str, int, float)):
            return o
        if any(x is o for x in seen):
            raise ValueError('Circular reference detected')
        seen = seen + [o]
        if isinstance(o, (list, tuple)):
            return [self._enc(x, seen) for x in o]
        if isinstance(o, dict):
            d = sym.SymDict()
            items = list(o.items())
            if self.sort_keys:
                items = sorted(items)
            for k, v in items:
                if isinstance(k, str):
                    pass
                elif k is None or isinstance(k, (bool, int, float)):
                    k = _rj.loads(_rj.dumps(_rj.dumps(sym.conc(k))))
                elif self.skipkeys:
                    continue
                else:
                    raise TypeError('keys must be str, int, float, bool or None, '
                                    'not %s' % type(k).__name__)
                d[k] = self._enc(v, seen)
            return d
        return self._enc(self.default(o), seen)


def dumps(obj, cls=None, **kw):
    std = dict(skipkeys=False, ensure_ascii=True, check_circular=True,
               allow_nan=True, sort_keys=False, indent=None, separators=None,
               default=None)
    std.update(kw)
    return (cls or JSONEncoder)(**std).encode(obj)


def _copy(d, hook):
    if isinstance(d, list):
        return [_copy(x, hook) for x in d]
    if isinstance(d, dict):
        n = sym.SymDict()
        for k, v in d.items():
            n[k] = _copy(v, hook)
        return hook(n) if hook else n
    return d


def loads(s, cls=None, object_hook=None, object_pairs_hook=None, **kw):
    if isinstance(s, JsonText):
        if object_pairs_hook is not None:
            hook = lambda d: object_pairs_hook([(k, v) for k, v in d.items()])  # noqa
        else:
            hook = object_hook
        return _copy(s.data, hook)
    return _rj.loads(s, object_hook=object_hook, **kw)


class _Proxy(types.ModuleType):
    def __init__(self, name, real, **over):
        types.ModuleType.__init__(self, name)
        self.__dict__['_real'] = real
        self.__dict__.update(over)

    def __getattr__(self, name):
        return getattr(self.__dict__['_real'], name)


json = _Proxy('json', _rj, JSONEncoder=JSONEncoder, dumps=dumps, loads=loads)
collections = _Proxy('collections', _rc, OrderedDict=sym.SymOrderedDict,
                     defaultdict=sym.SymDefaultDict)
