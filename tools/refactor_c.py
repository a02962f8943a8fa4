"""A third set of behaviour preserving rewrites (testing, adapters, fallback,
cache, alias, locking): refactor_c.py COPY; then VSYM_SRC=COPY/src vsym/main.py ..."""
import sys
B = sys.argv[1] + '/src/node/'


def sub(f, pairs):
    s = open(B + f).read()
    for a, b in pairs:
        assert s.count(a) >= 1, (f, a)
        s = s.replace(a, b)
    open(B + f, 'w').write(s)


sub('testing/fullmapping.py', [
("""        for key in keys:
            if key not in expected:
                raise Exception('Expected ``{}`` as keys. Got ``{}``'.format(
                    str(keys),
                    str(expected)
                ))
        for key in expected:
            if key not in keys:
                raise Exception('Expected ``{}`` as keys. Got ``{}``'.format(
                    str(expected),
                    str(keys)
                ))
""", """        self._check_subset(keys, expected)
        self._check_subset(expected, keys)

    def _check_subset(self, part, whole):
        rest = [key for key in part if key not in whole]
        if rest:
            raise Exception('Expected ``{}`` as keys. Got ``{}``'.format(
                str(part),
                str(whole)
            ))
"""),
("""        keys = [key for key in self.context.iterkeys()]
""", """        keys = list()
        for key in self.context.iterkeys():
            keys.append(key)
"""),
("""        values = [val for val in self.context.itervalues()]
        self._check_values(values, ['foo', 'bar'])
""", """        self._check_values(list(iter(self.context.itervalues())), ['foo', 'bar'])
"""),
("""        if 'foo' not in self.context or 'bar' not in self.context:
            raise""", """        contained = [key in self.context for key in ('foo', 'bar')]
        if not all(contained):
            raise"""),
("""        try:
            self.context.pop('xxx')
            raise Exception('Expected ``KeyError`` for inexistent item.')
        except KeyError:
            pass
""", """        try:
            self.context.pop('xxx')
        except KeyError:
            pass
        else:
            raise Exception('Expected ``KeyError`` for inexistent item.')
"""),
("""        self.context['foo'] = self.class_()
        self.context['bar'] = self.class_()
        self._check_keys(self.context.keys(), ['foo', 'bar'])
""", """        for key in ('foo', 'bar'):
            self.context[key] = self.class_()
        self._check_keys(self.context.keys(), ['foo', 'bar'])
"""),
])
sub('testing/base.py', [
("""        self._results = odict()
        self.class_ = class_
        self.context = context
        if self.context is None:
            self.context = class_()
        self._results = odict()
""", """        self.class_ = class_
        self.context = class_() if context is None else context
        self._results = odict()
"""),
("""            if name in self.class_.__dict__:
                line += self.class_.__name__
            else:
                for base in self.class_.__bases__:
                    if name in base.__dict__:
                        line += base.__name__
                        break
                else:
                    line += 'function not found on object'
            res.append(line)
""", """            line += self._origin(name)
            res.append(line)
"""),
("""    def run(self):
        for name in self.iface_contract:
""", """    def _origin(self, name):
        candidates = [self.class_] + list(self.class_.__bases__)
        for candidate in candidates:
            if name in vars(candidate):
                return candidate.__name__
        return 'function not found on object'

    def run(self):
        for name in self.iface_contract:
"""),
("""            writer = self.writer(name)
            if self.direct_error:
                func()
                writer.success()
                continue
            try:
                func()
                writer.success()
            except Exception as e:
                writer.failed(e)
""", """            self._run_single(name, func)

    def _run_single(self, name, func):
        writer = self.writer(name)
        try:
            func()
        except Exception as e:
            if self.direct_error:
                raise
            writer.failed(e)
        else:
            writer.success()
"""),
])
sub('utils.py', [
("""        f_result = func(*args, **kws)
        logger.debug(u'{}: --> {}'.format(
            func_name(func),
            UNICODE_TYPE(f_result)
        ))
        return f_result
""", """        result = func(*args, **kws)
        message = u'{}: --> {}'.format(func_name(func), UNICODE_TYPE(result))
        logger.debug(message)
        return result
"""),
("""    def __getitem__(self, value):
        for key in self.context:
            if self.context[key] == value:
                return key
        raise KeyError(value)

    def get(self, value, default=None):
        try:
            return self[value]
        except KeyError:
            return default

    def __contains__(self, value):
        for key in self.context:
            val = self.context[key]
            if val == value:
                return True
        return False

    def keys(self):
        return [val for val in self]

    def __iter__(self):
        for key in self.context:
            yield self.context[key]

    def values(self):
        return [key for key in self.context]
""", """    def _find(self, value):
        context = self.context
        return [key for key in context if context[key] == value][:1]

    def __getitem__(self, value):
        found = self._find(value)
        if not found:
            raise KeyError(value)
        return found[0]

    def get(self, value, default=None):
        found = self._find(value)
        return found[0] if found else default

    def __contains__(self, value):
        return bool(self._find(value))

    def keys(self):
        return list(iter(self))

    def __iter__(self):
        context = self.context
        return (context[key] for key in context)

    def values(self):
        return list(iter(self.context))
"""),
("""        context = object.__getattribute__(self, 'context')
        try:
            return context[name]
        except KeyError:
            raise AttributeError(name)
""", """        try:
            return self[name]
        except KeyError:
            raise AttributeError(name)
"""),
("""    def __setattr__(self, name, value):
        context = object.__getattribute__(self, 'context')
        context[name] = value
""", """    def __setattr__(self, name, value):
        self[name] = value
"""),
("""    node = root
    for name in path:
        node = node[name]
    return node
""", """    return reduce(lambda node, name: node[name], path, root)
"""),
("""from node.compat import STR_TYPE
""", """from functools import reduce
from node.compat import STR_TYPE
"""),
])
sub('behaviors/fallback.py', [
("""    current = node
    for name in path[len(current.path):]:
        new_current = current.get(name, _marker)
        if new_current is _marker:
            return _to_root(current, path=path, visited=visited)
        current = new_current
    return current
""", """    for name in path[len(node.path):]:
        child = node.get(name, _marker)
        if child is _marker:
            return _to_root(node, path=path, visited=visited)
        node = child
    return node
"""),
("""        try:
            value = _next(self, key)
        except KeyError:
            with fallback_processing() as count:
                if count > 0:
                    raise
                value = _to_root(self, path=self.path + [key], visited=set())
                if value is _marker:
                    raise
        return value
""", """        try:
            return _next(self, key)
        except KeyError:
            with fallback_processing() as count:
                if count == 0:
                    path = self.path
                    path.append(key)
                    value = _to_root(self, path=path, visited=set())
                    if value is not _marker:
                        return value
            raise
"""),
])
sub('behaviors/alias.py', [
("""        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(key)
        else:
            unaliased_key = key
""", """        unaliased_key = self._unaliased(key)
"""),
("""class Alias(Behavior):
    aliaser = default(None)
""", """class Alias(Behavior):
    aliaser = default(None)

    @default
    def _unaliased(self, key):
        aliaser = self.aliaser
        return key if aliaser is None else aliaser.unalias(key)
"""),
])
sub('behaviors/common.py', [
("""        # only care about adopting if we have a node
        if not INode.providedBy(val):
            _next(self, key, val)
            return

        # save old __parent__ and __name__ to restore if something goes wrong
        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except BaseException:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """        if INode.providedBy(val):
            previous = (val.__parent__, val.__name__)
            val.__parent__, val.__name__ = self, key
            done = False
            try:
                _next(self, key, val)
                done = True
            finally:
                if not done:
                    val.__parent__, val.__name__ = previous
        else:
            _next(self, key, val)
"""),
("""        try:
            child = _next(self, key)
        except KeyError:
            child = self.factories[key]()
            self[key] = child
        return child
""", """        try:
            return _next(self, key)
        except KeyError:
            factory = self.factories[key]
        child = self[key] = factory()
        return child
"""),
])
sub('behaviors/cache.py', [
("""        cache = self.cache
        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]
""", """        cache = self.cache
        if key not in cache:
            value = _next(self, key)
            cache[key] = value
            return value
        return cache[key]
"""),
("""        try:
            del self.cache[key]
        except KeyError:
            pass
        _next(self, key, value)
""", """        self.cache.pop(key, None)
        _next(self, key, value)
"""),
])
sub('locking.py', [
("""        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result
""", """        with TreeLock(self):
            return fn(self, *args, **kwargs)
"""),
])
sub('behaviors/nodify.py', [
("""        name = self.name.encode('ascii', 'replace') \\
            if IS_PY2 and isinstance(self.name, unicode) \\
            else str(self.name)
        return '<{} object \\'{}\\' at {}>'.format(
            class_name,
            name,
            hex(id(self))[:-1]
        )
""", """        name = self.name
        if IS_PY2 and isinstance(name, unicode):
            name = name.encode('ascii', 'replace')
        return "<%s object '%s' at %s>" % (
            class_name, str(name), hex(id(self))[:-1])
"""),
])
sub('serializer.py', [
("""        module = '.'.join(components[:count])
            try:
                __import__(module)
                break
            except ImportError:
                if count == 1:
                    raise
                count -= 1
""", """        module = '.'.join(components[:count])
            try:
                __import__(module)
            except ImportError:
                if count <= 1:
                    raise
                count = count - 1
                continue
            break
"""),
] if False else [])
