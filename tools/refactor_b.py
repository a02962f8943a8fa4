"""More behaviour preserving rewrites of a copy of the source: refactor_b.py
COPY (COPY/src/node); then VSYM_SRC=COPY/src vsym/main.py ..."""
import sys
B = sys.argv[1] + '/src/node/'


def sub(f, pairs):
    s = open(B + f).read()
    for a, b in pairs:
        assert s.count(a) >= 1, (f, a)
        s = s.replace(a, b)
    open(B + f, 'w').write(s)


sub('behaviors/order.py', [
("""        keys = self.keys()
        if not keys:
            self[newnode.name] = newnode
            return
        refnode = self[keys[0]]
        self.insertbefore(newnode, refnode)
""", """        first = next(iter(self.values()), None)
        if first is None:
            self[newnode.name] = newnode
        else:
            self.insertbefore(newnode, first)
"""),
("""        keys = self.keys()
        if not keys:
            self[newnode.name] = newnode
            return
        refnode = self[keys[-1]]
        self.insertafter(newnode, refnode)
""", """        if not len(self):
            self[newnode.name] = newnode
            return
        *_, last = self.keys()
        self.insertafter(newnode, self[last])
"""),
("""        self.storage.swap(node_a.name, node_b.name)
""", """        swap = self.storage.swap
        swap(*(node.name for node in (node_a, node_b)))
"""),
("""        except KeyError:
            raise ValueError('Given reference node not child of self.')
""", """        except KeyError as error:
            raise ValueError('Given reference node not child of self.') \\
                from error
"""),
("""        if node.name is None:
            raise ValueError('Given node has no __name__ set.')
""", """        if (name := node.name) is None:
            raise ValueError('Given node has no __name__ set.')
"""),
("""        if node.name in self.storage:
            raise""", """        if name in self.storage:
            raise"""),
])
sub('behaviors/reference.py', [
("""            for iuuid in val._index:
                if iuuid in self._index:
                    raise ValueError('Node with uuid already exists')
""", """            if not set(val._index).isdisjoint(self._index):
                raise ValueError('Node with uuid already exists')
"""),
("""            index = val._index
            self._index.update(index)
            for node in index.values():
                node._index = self._index
""", """            merged = self._index
            for iuuid, node in list(val._index.items()):
                merged[iuuid] = node
                node._index = merged
"""),
("""        todel = self[key]
        iuuids = todel._to_delete() if hasattr(todel, '_to_delete') else []
        _next(self, key)
        self._release(iuuids)
""", """        child = self[key]
        try:
            collect = child._to_delete
        except AttributeError:
            collect = list
        iuuids = collect()
        _next(self, key)
        self._release(iuuids)
"""),
("""        iuuid = int(uuid) if uuid is not None else None
        if iuuid in self._index \\
                and self._index[iuuid] is not self:
            raise ValueError('Given uuid was already used for another Node')
        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]
        self._index[iuuid] = self
        self._uuid = uuid
""", """        index = self._index
        old, new = [None if u is None else u.int for u in (self._uuid, uuid)]
        if index.get(new, self) is not self:
            raise ValueError('Given uuid was already used for another Node')
        index.pop(old, None)
        index[new] = self
        self._uuid = uuid
"""),
("""        todel = [int(self.uuid)]
        for childkey in self:
            try:
                todel += self[childkey]._to_delete()
            except AttributeError:
                # Non-Node values or non referencing children are not told
                # about deletion.
                continue
        return todel
""", """        todel = [int(self.uuid)]
        for childkey in self:
            child = self[childkey]
            if hasattr(child, '_to_delete'):
                todel.extend(child._to_delete())
        return todel
"""),
("""        index = dict()
        for iuuid in iuuids:
            node = index[iuuid] = self._index.pop(iuuid)
            node._index = index""", """        released = {iuuid: self._index.pop(iuuid) for iuuid in iuuids}
        for node in released.values():
            node._index = released"""),
])
sub('behaviors/mapping.py', [
("""        try:
            return self[key]
        except KeyError:
            return default

    @default
    def __contains__""", """        try:
            value = self[key]
        except KeyError:
            value = default
        return value

    @default
    def __contains__"""),
("""        try:
            self[key]
        except KeyError:
            return False
        return True
""", """        found = True
        try:
            self[key]
        except KeyError:
            found = False
        return found
"""),
("""        return [x for x in self]
""", """        return list(iter(self))
"""),
("""        return [self[key] for key in self]
""", """        return [value for _, value in self.items()]
"""),
("""        for key in self:
            yield self[key]
""", """        for key, value in self.iteritems():
            yield value
"""),
("""        for key in self:
            yield key, self[key]
""", """        keys = iter(self)
        while True:
            try:
                key = next(keys)
            except StopIteration:
                return
            yield (key, self[key])
"""),
("""        return len(self.keys())
""", """        return sum(1 for _ in self.keys())
"""),
("""        return self.__iter__()
""", """        return iter(self)
"""),
("""        return key in self
""", """        return self.__contains__(key)
"""),
("""        for key in self.keys():
            del self[key]

""", """        keys = self.keys()
        while keys:
            del self[keys.pop(0)]

"""),
("""        if len(args) > 1:
            msg = 'At most one positional argument, not: {}.'.format(len(args))
            raise TypeError(msg)
        if args:
            data = args[0]
            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val
        for key, val in iteritems(kw):
            self[key] = val
""", """        if len(args) > 1:
            raise TypeError(
                f'At most one positional argument, not: {len(args)}.')
        sources = [*args, kw]
        for data in sources:
            pairs = iteritems(data) if hasattr(data, ITER_FUNC) else data
            for pair in pairs:
                key, val = pair
                self.__setitem__(key, val)
"""),
("""        try:
            return self[key]
        except KeyError:
            self[key] = default
            return default

    @default
    def pop""", """        try:
            result = self[key]
        except KeyError:
            result = self[key] = default
        return result

    @default
    def pop"""),
("""        try:
            val = self[key]
            del self[key]
        except KeyError:
            if default is UNSET:
                raise
            val = default
        return val
""", """        try:
            val = self[key]
            self.__delitem__(key)
            return val
        except KeyError:
            if default is not UNSET:
                return default
            raise
"""),
("""        for key in reversed(self.keys()):
            val = self[key]
            del self[key]
            return key, val
        raise KeyError('popitem(): mapping is empty')
""", """        keys = self.keys()
        if not keys:
            raise KeyError('popitem(): mapping is empty')
        last = keys[-1]
        item = (last, self[last])
        del self[last]
        return item
"""),
])
sub('behaviors/nodify.py', [
("""        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path
""", """        path = []
        for location in LocationIterator(self):
            path.insert(0, location.name)
        return path
"""),
("""        root = None
        for parent in LocationIterator(self):
            root = parent
        return root
""", """        return list(LocationIterator(self))[-1]
"""),
("""        node = self[key]
        del self[key]
        return node

    @override
    def acquire(self, interface):
        node = self.parent
        while node is not None:
            if (IInterface.providedBy(interface) and
                    interface.providedBy(node)) or \\
                    isinstance(node, interface):
                return node
            node = node.parent
""", """        detached = self[key]
        self.__delitem__(key)
        return detached

    @override
    def acquire(self, interface):
        if IInterface.providedBy(interface):
            def wanted(node):
                return interface.providedBy(node) \\
                    or isinstance(node, interface)
        else:
            def wanted(node):
                return isinstance(node, interface)
        node = self
        while (node := node.parent) is not None:
            if wanted(node):
                break
        return node
"""),
("""        for val in self.itervalues():
            if interface.providedBy(val):
                yield val
""", """        yield from filter(interface.providedBy, self.itervalues())
"""),
("""        return [val for val in self.filtereditervalues(interface)]
""", """        return list(self.filtereditervalues(interface))
"""),
("""        return str(class_name) + ': ' + name[name.find(':') + 1:]
""", """        return f"{class_name}: {name[name.find(':') + 1:]}"
"""),
("""        res = '{}{}\\n'.format(indent * prefix, self.noderepr)
""", """        res = f'{indent * prefix}{self.noderepr}\\n'
"""),
("""                res += '{}{}: {}\\n'.format(
                    (indent + 2) * prefix,
                    key,
                    repr(value)
                )
""", """                res += f'{(indent + 2) * prefix}{key}: {value!r}\\n'
"""),
("""        return '<{} object \\'{}\\' at {}>'.format(
            class_name,
            name,
            hex(id(self))[:-1]
        )
""", """        return f"<{class_name} object '{name}' at {hex(id(self))[:-1]}>"
"""),
("""        state = self.__dict__.copy()
        state.pop('_treelock', None)
        return state
""", """        state = dict(vars(self))
        if '_treelock' in state:
            del state['_treelock']
        return state
"""),
])
sub('behaviors/nodespace.py', [
("""        if self._nodespaces is None:
            self._nodespaces = odict()
            self._nodespaces['__children__'] = self
        return self._nodespaces
""", """        spaces = self._nodespaces
        if spaces is None:
            spaces = odict([('__children__', self)])
            self._nodespaces = spaces
        return spaces
"""),
("""        if key.startswith('__') and key.endswith('__'):
""", """        if all((key.startswith('__'), key.endswith('__'))):
"""),
("""        if isinstance(key, STR_TYPE) \\
          and key.startswith('__') \\
          and key.endswith('__'):
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            return self.nodespaces[key]
        return _next(self, key)
""", """        reserved = False
        if isinstance(key, STR_TYPE):
            reserved = key.startswith('__') & key.endswith('__')
        return self.nodespaces[key] if reserved else _next(self, key)
"""),
])
sub('behaviors/attributes.py', [
("""        return '<{} object \\'{}\\' at {}>'.format(
            self.__class__.__name__,
            name,
            hex(id(self))[:-1]
        )
""", """        return "<%s object '%s' at %s>" % (
            self.__class__.__name__, name, hex(id(self))[:-1])
"""),
("""        try:
            attrs = self.nodespaces['__attrs__']
        except KeyError:
            attrs = self.nodespaces['__attrs__'] = \\
                self.attributes_factory(name='__attrs__', parent=self)
        if self.attribute_access_for_attrs:
            return AttributeAccess(attrs)
        return attrs
""", """        attrs = self.nodespaces.get('__attrs__')
        if attrs is None:
            attrs = self.attributes_factory(name='__attrs__', parent=self)
            self.nodespaces.update([('__attrs__', attrs)])
        wrap = AttributeAccess if self.attribute_access_for_attrs \\
            else lambda mapping: mapping
        return wrap(attrs)
"""),
])
sub('behaviors/alias.py', [
("""        return (self.prefix or '') + key
""", """        return f'{self.prefix or ""}{key}'
"""),
("""        return prefixed_key[len(prefix):]
""", """        return prefixed_key.replace(prefix, '', 1) if prefix else prefixed_key
"""),
("""        return key + (self.suffix or '')
""", """        return '%s%s' % (key, self.suffix or '')
"""),
("""        if not suffixed_key.endswith(suffix):
""", """        if suffixed_key[len(suffixed_key) - len(suffix):] != suffix \\
                or len(suffixed_key) < len(suffix):
"""),
("""        for aliaser in self.chain:
            key = aliaser.alias(key)
        return key
""", """        return functools.reduce(lambda k, a: a.alias(k), self.chain, key)
"""),
("""        for aliaser in reversed(self.chain):
            key = aliaser.unalias(key)
        return key
""", """        return functools.reduce(
            lambda k, a: a.unalias(k), list(self.chain)[::-1], key)
"""),
("""from zope.interface.common.mapping import IFullMapping
""", """from zope.interface.common.mapping import IFullMapping
import functools
"""),
("""            return self[aliased_key]
        except KeyError as e:
            if not self.strict:
                return aliased_key
            raise e
""", """            real = self[aliased_key]
        except KeyError:
            if self.strict:
                raise
            real = aliased_key
        return real
"""),
("""        try:
            return _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)
""", """        with _reporting(key):
            return _next(self, unaliased_key)
"""),
("""        try:
            _next(self, unaliased_key, val)
        except KeyError:
            raise KeyError(key)
""", """        with _reporting(key):
            _next(self, unaliased_key, val)
"""),
("""@implementer(IAlias)
""", """@contextlib.contextmanager
def _reporting(key):
    try:
        yield
    except KeyError:
        raise KeyError(key)


@implementer(IAlias)
"""),
("""import functools
""", """import contextlib
import functools
"""),
])
sub('behaviors/storage.py', [
("""        self.storage[key] = val
""", """        self.storage.__setitem__(key, val)
"""),
("""        return self.storage.__iter__()
""", """        yield from self.storage
"""),
("""        for name in ('_storage', '_cache'):
            if name in new.__dict__:
                new.__dict__[name] = copy.copy(new.__dict__[name])
        return new
""", """        state = vars(new)
        own = {n: copy.copy(state[n]) for n in ('_storage', '_cache')
               if n in state}
        state.update(own)
        return new
"""),
])
sub('behaviors/cache.py', [
("""        if key is not None:
            del self[key]
        else:
            for key in _keys(self):
                del self[key]
""", """        if key is None:
            for name in _keys(self):
                self.__delitem__(name)
            return
        self.__delitem__(key)
"""),
("""                try:
                    del storage[key]
                except KeyError:
                    pass  # ignore, key is valid, but not on storage right now
""", """                # ignore, key is valid, but not on storage right now
                with contextlib.suppress(KeyError):
                    del storage[key]
"""),
("""import implementer
""", """import implementer
import contextlib
"""),
("""        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]
""", """        value = cache.get(key, _missing)
        if value is _missing:
            value = _next(self, key)
            cache[key] = value
        return value
"""),
("""        try:
            del self.cache[key]
        except KeyError:
            pass
""", """        with contextlib.suppress(KeyError):
            del self.cache[key]
"""),
("""@implementer(ICache)
""", """_missing = object()


@implementer(ICache)
"""),
])
sub('behaviors/fallback.py', [
("""    parent = node.__parent__
    if parent is None:
        return _marker
    if not getattr(parent, 'fallback_key', _marker) or node in visited:
        return _to_root(parent, path=path, visited=visited)
    visited.update({node})
    try:
        fallback = parent[parent.fallback_key]
    except KeyError:
        return _to_root(parent, path=path, visited=visited)
    return _to_leaf(fallback, path=path, visited=visited)
""", """    current, parent = node, node.__parent__
    while parent is not None:
        if getattr(parent, 'fallback_key', _marker) \\
                and current not in visited:
            visited |= {current}
            try:
                fallback = parent[parent.fallback_key]
            except KeyError:
                pass
            else:
                return _to_leaf(fallback, path, visited)
        current, parent = parent, parent.__parent__
    return _marker
"""),
("""    current = node
    for name in path[len(current.path):]:
        new_current = current.get(name, _marker)
        if new_current is _marker:
            return _to_root(current, path=path, visited=visited)
        current = new_current
    return current
""", """    position = len(node.path)
    while position < len(path):
        below = node.get(path[position], _marker)
        if below is _marker:
            return _to_root(node, path, visited)
        node, position = below, position + 1
    return node
"""),
("""        try:
            value = _next(self, key)
        except KeyError:
            with fallback_processing() as count:
                if count > 0:
                    raise
                value = _to_root(self, path=self.path + [key], visited=set())
                if value is _marker:
                    raise
        return value
""", """        try:
            return _next(self, key)
        except KeyError:
            with fallback_processing() as count:
                value = _marker if count > 0 else \\
                    _to_root(self, [*self.path, key], set())
            if value is _marker:
                raise
            return value
"""),
])
sub('behaviors/lifecycle.py', [
("""        objectEventNotify(self.events['created'](self))
""", """        factory = self.events['created']
        event = factory(self)
        objectEventNotify(event)
"""),
("""        if self._notify_suppress:
            return
        objectEventNotify(self.events['added'](val, newParent=self,
                                               newName=key))
""", """        if not self._notify_suppress:
            event = self.events['added'](val, newParent=self, newName=key)
            objectEventNotify(event)
"""),
("""        notify_suppress = self._notify_suppress
        self._notify_suppress = True
        try:
            node = _next(self, key)
        finally:
            self._notify_suppress = notify_suppress
        objectEventNotify(""", """        with _silent(self):
            node = _next(self, key)
        objectEventNotify("""),
("""@implementer(ILifecycle)
""", """@contextlib.contextmanager
def _silent(node):
    before = node._notify_suppress
    node._notify_suppress = True
    try:
        yield
    finally:
        node._notify_suppress = before


@implementer(ILifecycle)
"""),
("""from zope.interface import implementer
""", """from zope.interface import implementer
import contextlib
"""),
("""        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))
""", """        owner = self.__parent__
        if owner._notify_suppress is False:
            objectEventNotify(owner.events['modified'](owner))
"""),
])
sub('behaviors/events.py', [
("""        type_ = type(events)
        if type_ not in (list, tuple):
            events = [events]
        self.events = tuple(events)
""", """        self.events = (*events,) if type(events) in (list, tuple) \\
            else (events,)
"""),
("""        self.data.events.extend(self.events)
        self.data.suppress += 1
        return self.data.suppress
""", """        data = self.data
        data.events += self.events
        level = data.suppress = data.suppress + 1
        return level
"""),
("""        self.data.suppress -= 1
        for event in self.events:
            self.data.events.remove(event)
""", """        data = self.data
        for event in self.events:
            del data.events[data.events.index(event)]
        data.suppress -= 1
"""),
("""        return getattr(obj, self.storage).get(self.name, self.default)
""", """        storage = getattr(obj, self.storage)
        if self.name in storage:
            return storage[self.name]
        return self.default
"""),
("""        old_value = storage.get(self.name, self.default)
        storage[self.name] = value
        if self.always_dispatch or value != old_value:
            with _subscribers(obj, self.name, self.subscribers):
                obj.dispatch(self.name, value)
""", """        old_value = self.__get__(obj)
        storage[self.name] = value
        if not self.always_dispatch and not value != old_value:
            return
        with _subscribers(obj, self.name, self.subscribers):
            obj.dispatch(self.name, value)
"""),
("""        self.subscribers.append(func)
        return func
""", """        self.subscribers += [func]
        return func
"""),
("""            if event not in self.__events__ \\
                    and event not in self.__class__.__events__:
                raise UnknownEvent(event)
            subscribers = self.__subscribers__.setdefault(event, list())
            if subscriber not in subscribers:
                subscribers.append(subscriber)
""", """            if not any(event in known for known in (
                    self.__events__, type(self).__events__)):
                raise UnknownEvent(event)
            if event not in self.__subscribers__:
                self.__subscribers__[event] = [subscriber]
            elif subscriber not in self.__subscribers__[event]:
                self.__subscribers__[event].append(subscriber)
"""),
("""        if event is None and subscriber is None:
            self.__subscribers__ = dict()
        elif event is not None and subscriber is None:
            if event in self.__subscribers__:
                del self.__subscribers__[event]
        elif event is None and subscriber is not None:
            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)
        elif event is not None and subscriber is not None:
            subscribers = self.__subscribers__.get(event, list())
            if subscriber in subscribers:
                subscribers.remove(subscriber)
""", """        events = list(self.__subscribers__) if event is None else [event]
        for name in events:
            if name not in self.__subscribers__:
                continue
            if subscriber is None:
                self.__subscribers__.pop(name)
                continue
            self.__subscribers__[name] = [
                s for s in self.__subscribers__[name] if s != subscriber]
"""),
("""        if suppress_events.data.suppress > 0:
            if ALL_EVENTS in suppress_events.data.events:
                return
            if event in suppress_events.data.events:
                return
        for subscriber in attribute_subscribers:
            subscriber(self, *args, **kw)
""", """        suppressed = suppress_events.data.events
        if any(e is ALL_EVENTS or e == event for e in suppressed):
            return
        for subscriber in attribute_subscribers[:]:
            subscriber(self, *args, **kw)
"""),
])
sub('behaviors/common.py', [
("""        if not INode.providedBy(val):
            _next(self, key, val)
            return

        # save old __parent__ and __name__ to restore if something goes wrong
        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except BaseException:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """        isnode = INode.providedBy(val)
        before = (val.__name__, val.__parent__) if isnode else None
        if isnode:
            val.__name__, val.__parent__ = key, self
        done = False
        try:
            _next(self, key, val)
            done = True
        finally:
            if not done and before is not None:
                val.__name__, val.__parent__ = before
"""),
("""        try:
            child = _next(self, key)
        except KeyError:
            child = self.factories[key]()
            self[key] = child
        return child
""", """        try:
            return _next(self, key)
        except KeyError:
            factory = self.factories[key]
        made = factory()
        self.__setitem__(key, made)
        return made
"""),
("""        for key, factory in self.fixed_children_factories:
            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
""", """        children = self._children
        for pair in self.fixed_children_factories:
            child = pair[1]()
            setattr(child, '__parent__', self)
            setattr(child, '__name__', pair[0])
            children[pair[0]] = child
"""),
("""        try:
            return self[name]
        except KeyError:
            raise AttributeError(name)
""", """        try:
            child = self[name]
        except KeyError as error:
            raise AttributeError(name) from error
        else:
            return child
"""),
("""        if not self.allow_non_node_childs and inspect.isclass(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
        if not self.allow_non_node_childs and not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
        _next(self, key, val)
""", """        if not self.allow_non_node_childs:
            for refused, message in (
                (inspect.isclass(val),
                 'It isn\\'t allowed to use classes as values.'),
                (not INode.providedBy(val),
                 'Non-node childs are not allowed.'),
            ):
                if refused:
                    raise ValueError(message)
        _next(self, key, val)
"""),
("""        if isinstance(key, bytes):
            key = decode(key)
        if isinstance(val, bytes):
            val = decode(val)
        return _next(self, key, val)
""", """        key, val = (decode(x) if isinstance(x, bytes) else x
                    for x in (key, val))
        return _next(self, key, val)
"""),
("""        if IUUIDAware.providedBy(node):
            if override or not node.uuid:
                node.uuid = self.uuid_factory()
        if recursiv and INode.providedBy(node):
            for child in node.values():
                self.set_uuid_for(child, override, recursiv)
""", """        todo = [node]
        while todo:
            current = todo.pop(0)
            if IUUIDAware.providedBy(current) and \\
                    (override or not current.uuid):
                current.uuid = self.uuid_factory()
            if recursiv and INode.providedBy(current):
                todo.extend(current.values())
"""),
])
sub('utils.py', [
("""    while obj is not None:
        yield obj
        obj = getattr(obj, '__parent__', None)
""", """    if obj is not None:
        yield obj
        yield from LocationIterator(getattr(obj, '__parent__', None))
"""),
("""        for key in self.context:
            if self.context[key] == value:
                return key
        raise KeyError(value)
""", """        missing = object()
        found = next((key for key in self.context
                      if self.context[key] == value), missing)
        if found is missing:
            raise KeyError(value)
        return found
"""),
("""        for key in self.context:
            val = self.context[key]
            if val == value:
                return True
        return False
""", """        context = self.context
        return any(context[key] == value for key in context)
"""),
("""        return [val for val in self]
""", """        return list(self.__iter__())
"""),
("""        return [(v, k) for k, v in self.context.items()]
""", """        return [pair[::-1] for pair in self.context.items()]
"""),
("""        if name == 'context':
            # continue with ``__getattr__``
            raise AttributeError(name)
        return object.__getattribute__(self, name)
""", """        if name != 'context':
            return object.__getattribute__(self, name)
        # continue with ``__getattr__``
        raise AttributeError(name)
"""),
("""        if isinstance(arg, (list, tuple)):
            arg = arg.__class__(map(self.encode, arg))
        elif isinstance(arg, dict):
            arg = dict([self.encode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            arg = self.decode(arg)
            # If UnicodeDecodeError, binary data is expected. Return value
            # as is.
            if not isinstance(arg, bytes):
                arg = self.encode(arg)
        elif isinstance(arg, UNICODE_TYPE):
            arg = arg.encode(self._encoding)
        elif INode.providedBy(arg):
            arg = dict([self.encode(t) for t in iteritems(arg)])
        return arg
""", """        if isinstance(arg, (list, tuple)):
            return type(arg)([self.encode(a) for a in arg])
        if isinstance(arg, dict) or INode.providedBy(arg):
            return {self.encode(k): self.encode(v) for k, v in iteritems(arg)}
        if isinstance(arg, UNICODE_TYPE):
            return arg.encode(self._encoding)
        if not isinstance(arg, bytes):
            return arg
        decoded = self.decode(arg)
        # If UnicodeDecodeError, binary data is expected. Return value
        # as is.
        return decoded if isinstance(decoded, bytes) else self.encode(decoded)
"""),
("""            try:
                arg = arg.decode(self._encoding)
            except UnicodeDecodeError:
                # in soft mode we leave the string, otherwise we raise the
                # exception
                if not self._soft:
                    raise
""", """            arg = self._decoded(arg)
"""),
("""    def decode(self, arg):
""", """    def _decoded(self, data):
        try:
            return data.decode(self._encoding)
        except UnicodeDecodeError:
            # in soft mode we leave the string, otherwise we raise the
            # exception
            if self._soft:
                return data
            raise

    def decode(self, arg):
"""),
("""def instance_property(func):
""", """def _named(func):
    return f'_{func.__name__}'


def instance_property(func):
"""),
("""        attribute_name = '_{}'.format(func.__name__)
""", """        attribute_name = _named(func)
"""),
("""    if isinstance(path, STR_TYPE):
        path = path.strip('/')
        path = path.split('/') if path else []
    if not path:
        return root
    node = root
    for name in path:
        node = node[name]
    return node
""", """    if isinstance(path, STR_TYPE):
        path = path.strip('/')
        path = path.split('/') if path != '' else ()
    return functools.reduce(operator.getitem, path or (), root)
"""),
("""import logging
""", """import functools
import logging
import operator
"""),
("""    def wrapped(*args, **kws):
        logger.debug(u'{}: args={}, kws={}'.format(
            func_name(func),
            UNICODE_TYPE(args),
            UNICODE_TYPE(kws)
        ))
        f_result = func(*args, **kws)
        logger.debug(u'{}: --> {}'.format(
            func_name(func),
            UNICODE_TYPE(f_result)
        ))
        return f_result
    wrapped.__doc__ = func.__doc__
    return wrapped""", """    name = func_name(func)

    def wrapped(*args, **kws):
        logger.debug(f'{name}: args={args}, kws={kws}')
        f_result = func(*args, **kws)
        logger.debug(f'{name}: --> {f_result}')
        return f_result
    wrapped.__doc__ = func.__doc__
    return wrapped"""),
])
sub('serializer.py', [
("""    if simple_mode:
        def encoder_factory(**kw):
            kw['simple_mode'] = True
            kw['include_class'] = include_class
            return NodeEncoder(**kw)
    else:
        encoder_factory = NodeEncoder
    return json.dumps(ob, cls=encoder_factory)
""", """    factory = NodeEncoder
    if simple_mode:
        factory = functools.partial(
            NodeEncoder, simple_mode=True, include_class=include_class)
    return json.dumps(ob, cls=factory)
"""),
("""import json
""", """import functools
import json
"""),
("""            return '<UUID>:{}'.format(ob)
""", """            return f'<UUID>:{ob}'
"""),
("""            ret = dict()
            if self.simple_mode:
                data = ret
            else:
                data = ret.setdefault('__node__', dict())
            if not self.simple_mode or self.include_class:
                data['class'] = self.dotted_name(ob)
            data['name'] = ob.name
""", """            data = dict()
            ret = data if self.simple_mode else dict(__node__=data)
            if self.include_class or not self.simple_mode:
                data.update({'class': self.dotted_name(ob)})
            data.update(name=ob.name)
"""),
("""        components = name.split('.')
        # import deepest module in dotted name
        count = max(len(components) - 1, 1)
        while True:
            module = '.'.join(components[:count])
            try:
                __import__(module)
                break
            except ImportError:
                if count == 1:
                    raise
                count -= 1
        ob = sys.modules[module]
        for comp in components[count:]:
            ob = getattr(ob, comp)
        return ob
""", """        components = name.split('.')
        # import deepest module in dotted name
        for count in range(max(len(components) - 1, 1), 0, -1):
            module = '.'.join(components[:count])
            try:
                __import__(module)
            except ImportError:
                if count > 1:
                    continue
                raise
            return functools.reduce(
                getattr, components[count:], sys.modules[module])
"""),
("""            if data.startswith('<UUID>:'):
                return uuid.UUID(data[7:])
            return data
""", """            head, sep, tail = data.partition('<UUID>:')
            return uuid.UUID(tail) if sep and not head else data
"""),
("""        if '__ob__' in data:
            return self.resolve(data['__ob__'])
""", """        dotted = data.get('__ob__', self)
        if dotted is not self:
            return self.resolve(dotted)
"""),
("""            for cls, callback in deserializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(node):
                    callback(self, node, node_data)
                elif isinstance(node, cls):
                    callback(self, node, node_data)
            return node
""", """            for cls in deserializer.registry:
                if issubclass(cls, Interface):
                    matches = cls.providedBy(node) or isinstance(node, cls)
                else:
                    matches = isinstance(node, cls)
                if matches:
                    deserializer.registry[cls](self, node, node_data)
            return node
"""),
("""    children = list()
    for child in node.values():
        children.append(encoder.default(child))
    if children:
        data['children'] = children
""", """    if children := list(map(encoder.default, node.values())):
        data['children'] = children
"""),
("""    children = data.get('children')
    if not children:
        return
    for child in children:
        decoder.decode(child, parent=node)
""", """    for child in data.get('children') or ():
        decoder.decode(child, parent=node)
"""),
("""    for name, child in node_attrs.items():
        attrs[name] = encoder.default(child)
""", """    attrs.update((name, encoder.default(child))
                 for name, child in node_attrs.items())
"""),
("""    attrs = data.get('attrs')
    if not attrs:
        return
    for attr, value in attrs.items():
        node.attrs[attr] = decoder.decode(value)
""", """    if not data.get('attrs'):
        return
    node_attrs = node.attrs
    for attr in data['attrs']:
        node_attrs[attr] = decoder.decode(data['attrs'][attr])
"""),
])
sub('locking.py', [
("""        root = node.root
        self.lock = getattr(root, '_treelock', None)
        if self.lock is None:
            with _create_lock:
                self.lock = getattr(root, '_treelock', None)
                if self.lock is None:
                    self.lock = root._treelock = RLock()
""", """        self.lock = _lock_of(node.root)
"""),
("""class TreeLock(object):
""", """def _lock_of(root):
    with _create_lock:
        try:
            lock = root._treelock
        except AttributeError:
            lock = None
        if lock is None:
            lock = RLock()
            setattr(root, '_treelock', lock)
        return lock


class TreeLock(object):
"""),
("""        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result
""", """        with TreeLock(self):
            return fn(self, *args, **kwargs)
"""),
("""def locktree(fn):
""", """def locktree(fn):
"""),
])
