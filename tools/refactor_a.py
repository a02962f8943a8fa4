"""Behaviour preserving rewrites of a copy of the source: refactor_a.py COPY
(COPY/src/node); then VSYM_SRC=COPY/src vsym/main.py ..."""
import sys
B = sys.argv[1] + '/src/node/'
def sub(f, pairs):
    s=open(B+f).read()
    for a,b in pairs:
        assert s.count(a)>=1,(f,a)
        s=s.replace(a,b)
    open(B+f,'w').write(s)
sub('behaviors/order.py',[
("""        self._validateinsertion(newnode)
        keys = self.keys()
        if not keys:
            self[newnode.name] = newnode
            return
        refnode = self[keys[0]]
        self.insertbefore(newnode, refnode)
""","""        self._insert_at_end(newnode, 0, self.insertbefore)
"""),
("""        self._validateinsertion(newnode)
        keys = self.keys()
        if not keys:
            self[newnode.name] = newnode
            return
        refnode = self[keys[-1]]
        self.insertafter(newnode, refnode)
""","""        self._insert_at_end(newnode, -1, self.insertafter)

    @override
    def _insert_at_end(self, newnode, position, insert):
        self._validateinsertion(newnode)
        children = list(self)
        if children:
            insert(newnode, self[children[position]])
        else:
            self[newnode.name] = newnode
"""),
("""        self._validateinsertion(newnode)
        try:
            self.storage.insertbefore(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._adoptinserted(newnode)
""","""        self._insert(newnode, refnode, 'insertbefore')
"""),
("""        self._validateinsertion(newnode)
        try:
            self.storage.insertafter(refnode.name, newnode.name, newnode)
        except KeyError:
            raise ValueError('Given reference node not child of self.')
        self._adoptinserted(newnode)
""","""        self._insert(newnode, refnode, 'insertafter')

    @override
    def _insert(self, newnode, refnode, how):
        self._validateinsertion(newnode)
        reference = refnode.name
        if reference not in self.storage:
            raise ValueError('Given reference node not child of self.')
        getattr(self.storage, how)(reference, newnode.name, newnode)
        self._adoptinserted(newnode)
"""),
("""        if hasattr(self, 'node') and hasattr(node, 'uuid'):
            if self.node(node.uuid) is not None:
                raise KeyError('Given node already contained in tree.')
        if node.name in self.storage:
            raise KeyError('Child with name of given node already exists.')
""","""        lookup = getattr(self, 'node', None)
        if lookup is not None and hasattr(node, 'uuid') \\
                and lookup(node.uuid) is not None:
            raise KeyError('Given node already contained in tree.')
        name = node.name
        if any(name == key for key in self.storage):
            raise KeyError('Child with name of given node already exists.')
"""),
("""        name = node.name
        try:
            self[name] = node
        except BaseException:
            del self.storage[name]
            raise
""","""        name, done = node.name, False
        try:
            self[name] = node
            done = True
        finally:
            if not done:
                del self.storage[name]
"""),
])
sub('behaviors/reference.py',[
("""        return self._index.get(int(key), default)
""","""        iuuid = int(key)
        return self._index[iuuid] if iuuid in self._index else default
"""),
("""            for iuuid in val._index:
                if iuuid in self._index:
                    raise ValueError('Node with uuid already exists')
""","""            if set(val._index) & set(self._index):
                raise ValueError('Node with uuid already exists')
"""),
("""            index = val._index
            self._index.update(index)
            for node in index.values():
                node._index = self._index
""","""            self._take(val._index)

    @default
    def _take(self, other):
        for iuuid, node in list(other.items()):
            self._index[iuuid] = node
            node._index = self._index
"""),
("""        todel = [int(self.uuid)]
        for childkey in self:
            try:
                todel += self[childkey]._to_delete()
            except AttributeError:
                # Non-Node values or non referencing children are not told
                # about deletion.
                continue
        return todel
""","""        todel = [int(self.uuid)]
        for child in [self[childkey] for childkey in self]:
            child_ids = getattr(child, '_to_delete', None)
            if child_ids is not None:
                todel.extend(child_ids())
        return todel
"""),
("""        iuuid = int(uuid) if uuid is not None else None
        if iuuid in self._index \\
                and self._index[iuuid] is not self:
            raise ValueError('Given uuid was already used for another Node')
        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]
        self._index[iuuid] = self
        self._uuid = uuid
""","""        iuuid = None if uuid is None else uuid.int
        if self._index.get(iuuid, self) is not self:
            raise ValueError('Given uuid was already used for another Node')
        old = self._uuid
        self._index.pop(None if old is None else int(old), None)
        self._uuid, self._index[iuuid] = uuid, self
"""),
])
sub('behaviors/mapping.py',[
("""        try:
            self[key]
        except KeyError:
            return False
        return True
""","""        try:
            self[key]
        except KeyError:
            found = False
        else:
            found = True
        return found
"""),
("""        return [x for x in self]
""","""        return list(iter(self))
"""),
("""        return [self[key] for key in self]
""","""        return [val for _, val in self._pairs()]

    @default
    def _pairs(self):
        for key in self.keys():
            yield key, self[key]
"""),
("""        return [(key, self[key]) for key in self]
""","""        return list(self._pairs())
"""),
("""        return len(self.keys())
""","""        return sum(1 for key in self)
"""),
("""        for key in self:
            yield self[key]
""","""        return map(self.__getitem__, self)
"""),
("""        for key in self.keys():
            del self[key]
""","""        keys = self.keys()
        while keys:
            del self[keys.pop(0)]
"""),
("""        if args:
            data = args[0]
            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val
        for key, val in iteritems(kw):
            self[key] = val
""","""        sources = list(args) + [kw]
        for data in sources:
            pairs = iteritems(data) if hasattr(data, ITER_FUNC) else data
            for key, val in pairs:
                self[key] = val
"""),
("""        try:
            val = self[key]
            del self[key]
        except KeyError:
            if default is UNSET:
                raise
            val = default
        return val
""","""        try:
            val = self[key]
            del self[key]
            return val
        except KeyError:
            if default is not UNSET:
                return default
            raise
"""),
("""        for key in reversed(self.keys()):
            val = self[key]
            del self[key]
            return key, val
        raise KeyError('popitem(): mapping is empty')
""","""        keys = self.keys()
        if not keys:
            raise KeyError('popitem(): mapping is empty')
        key = keys[-1]
        val = self[key]
        del self[key]
        return key, val
"""),
])
sub('behaviors/nodify.py',[
("""        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path
""","""        path = list()
        node = self
        while node is not None:
            path.insert(0, node.name)
            node = getattr(node, '__parent__', None)
        return path
"""),
("""        root = None
        for parent in LocationIterator(self):
            root = parent
        return root
""","""        return list(LocationIterator(self))[-1]
"""),
("""        node = self[key]
        del self[key]
        return node
""","""        detached = self[key]
        self.__delitem__(key)
        return detached
"""),
("""        node = self.parent
        while node is not None:
            if (IInterface.providedBy(interface) and
                    interface.providedBy(node)) or \\
                    isinstance(node, interface):
                return node
            node = node.parent
""","""        if IInterface.providedBy(interface):
            def matches(node):
                return interface.providedBy(node)
        else:
            def matches(node):
                return isinstance(node, interface)
        node = self.parent
        while node is not None and not matches(node):
            node = node.parent
        return node
"""),
("""        for val in self.itervalues():
            if interface.providedBy(val):
                yield val
""","""        return (val for val in self.itervalues() if interface.providedBy(val))
"""),
("""        return [val for val in self.filtereditervalues(interface)]
""","""        return list(filter(interface.providedBy, self.itervalues()))
"""),
("""        return str(class_name) + ': ' + name[name.find(':') + 1:]
""","""        return '{}: {}'.format(class_name, name.split(':', 1)[-1])
"""),
("""        res = '{}{}\\n'.format(indent * prefix, self.noderepr)
        items = self.items() \\
            if IOrdered.providedBy(self) \\
            else sorted(self.items(), key=lambda x: UNICODE_TYPE(x[0]))
        for key, value in items:
            if INode.providedBy(value):
                res += value.treerepr(indent=indent + 2, prefix=prefix)
            else:
                res += '{}{}: {}\\n'.format(
                    (indent + 2) * prefix,
                    key,
                    repr(value)
                )
        return res
""","""        lines = ['%s%s\\n' % (prefix * indent, self.noderepr)]
        items = list(self.items())
        if not IOrdered.providedBy(self):
            items.sort(key=lambda item: UNICODE_TYPE(item[0]))
        inner = indent + 2
        for key, value in items:
            if not INode.providedBy(value):
                lines.append('%s%s: %r\\n' % (prefix * inner, key, value))
                continue
            lines.append(value.treerepr(inner, prefix))
        return ''.join(lines)
"""),
("""        state = self.__dict__.copy()
        state.pop('_treelock', None)
        return state
""","""        return dict((k, v) for k, v in self.__dict__.items()
                    if k != '_treelock')
"""),
])
sub('behaviors/nodespace.py',[
("""        if key.startswith('__') and key.endswith('__'):
""","""        if _reserved(key):
"""),
("""        if isinstance(key, STR_TYPE) \\
          and key.startswith('__') \\
          and key.endswith('__'):
""","""        if _reserved(key):
"""),
("""@implementer(INodespaces)
""","""def _reserved(key):
    if not isinstance(key, STR_TYPE):
        return False
    return key[:2] == '__' == key[-2:]


@implementer(INodespaces)
"""),
])
sub('behaviors/attributes.py',[
("""        try:
            attrs = self.nodespaces['__attrs__']
        except KeyError:
            attrs = self.nodespaces['__attrs__'] = \\
                self.attributes_factory(name='__attrs__', parent=self)
        if self.attribute_access_for_attrs:
            return AttributeAccess(attrs)
        return attrs
""","""        spaces = self.nodespaces
        if '__attrs__' not in spaces:
            spaces['__attrs__'] = self.attributes_factory(
                name='__attrs__', parent=self)
        attrs = spaces['__attrs__']
        return AttributeAccess(attrs) if self.attribute_access_for_attrs \\
            else attrs
"""),
])
sub('behaviors/alias.py',[
("""            return ReverseMapping(self)[key]
        except KeyError as e:
            if not self.strict:
                return key
            raise e
""","""            return next(k for k in self if self[k] == key)
        except StopIteration:
            if self.strict:
                raise KeyError(key)
            return key
"""),
("""        return (self.prefix or '') + key
""","""        return u'{}{}'.format(self.prefix, key) if self.prefix else key
"""),
("""        if not prefixed_key.startswith(prefix):
""","""        if prefixed_key[:len(prefix)] != prefix:
"""),
("""        return key + (self.suffix or '')
""","""        if not self.suffix:
            return key
        return ''.join([key, self.suffix])
"""),
("""        return suffixed_key[:len(suffixed_key) - len(suffix)]
""","""        return suffixed_key[:-len(suffix)] if suffix else suffixed_key
"""),
("""        for aliaser in reversed(self.chain):
            key = aliaser.unalias(key)
        return key
""","""        chain = list(self.chain)
        while chain:
            key = chain.pop().unalias(key)
        return key
"""),
("""        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(key)
        else:
            unaliased_key = key
""","""        unaliased_key = self._unaliased(key)
"""),
("""    @plumb
    def __iter__(_next, self):
        for key in _next(self):
            try:
                if self.aliaser is not None:
                    yield self.aliaser.alias(key)
                else:
                    yield key
            except KeyError:
                if IEnumerableMapping.providedBy(self.aliaser):
                    # an enumerable aliaser whitelists, we skip non-listed keys
                    continue
                raise
""","""    @default
    def _unaliased(self, key):
        return key if self.aliaser is None else self.aliaser.unalias(key)

    @plumb
    def __iter__(_next, self):
        aliaser = self.aliaser
        if aliaser is None:
            for key in _next(self):
                yield key
            return
        whitelist = IEnumerableMapping.providedBy(aliaser)
        for key in _next(self):
            try:
                aliased = aliaser.alias(key)
            except KeyError:
                if not whitelist:
                    raise
            else:
                yield aliased
"""),
])
sub('behaviors/storage.py',[
("""        return self.storage.__iter__()
""","""        return iter(self.storage)
"""),
("""        new = self.__class__.__new__(self.__class__)
        new.__dict__.update(self.__reduce_ex__(2)[2] or dict())
        for name in ('_storage', '_cache'):
            if name in new.__dict__:
                new.__dict__[name] = copy.copy(new.__dict__[name])
        return new
""","""        cls = type(self)
        new = cls.__new__(cls)
        state = self.__reduce_ex__(2)[2]
        for name, value in (state or dict()).items():
            if name == '_storage' or name == '_cache':
                value = copy.copy(value)
            new.__dict__[name] = value
        return new
"""),
])
sub('behaviors/cache.py',[
("""        if key is not None:
            del self[key]
        else:
            for key in _keys(self):
                del self[key]
""","""        keys = _keys(self) if key is None else [key]
        for k in keys:
            del self[k]
"""),
("""            if key in _keys(self):
                try:
                    del storage[key]
                except KeyError:
                    pass  # ignore, key is valid, but not on storage right now
            else:
                raise KeyError(key)
        else:
            for key in _keys(storage):
                del storage[key]
""","""            if key not in _keys(self):
                raise KeyError(key)
            if key in storage:
                del storage[key]
            return
        storage.clear()
"""),
("""            try:
                del cache[key]
            except KeyError:
                pass
        else:
            for cached_key in _keys(cache):
                del cache[cached_key]
        _next(self, key=key)
""","""            cache.pop(key, None)
        else:
            cache.clear()
        _next(self, key=key)
"""),
("""        cache = self.cache
        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]
""","""        if key in self.cache:
            return self.cache[key]
        value = self.cache[key] = _next(self, key)
        return value
"""),
("""        try:
            del self.cache[key]
        except KeyError:
            pass
        _next""","""        self._forget(key)
        _next"""),
("""    @plumb
    def __iter__(_next, self):
        # do not""","""    @default
    def _forget(self, key):
        cache = self.cache
        for cached in list(cache):
            if cached == key:
                del cache[cached]

    @plumb
    def __iter__(_next, self):
        # do not"""),
])
sub('behaviors/fallback.py',[
("""    parent = node.__parent__
    if parent is None:
        return _marker
    if not getattr(parent, 'fallback_key', _marker) or node in visited:
        return _to_root(parent, path=path, visited=visited)
    visited.update({node})
    try:
        fallback = parent[parent.fallback_key]
    except KeyError:
        return _to_root(parent, path=path, visited=visited)
    return _to_leaf(fallback, path=path, visited=visited)
""","""    while True:
        parent = node.__parent__
        if parent is None:
            return _marker
        key = getattr(parent, 'fallback_key', None)
        if key and node not in visited:
            visited.add(node)
            try:
                return _to_leaf(parent[key], path, visited)
            except KeyError:
                pass
        node = parent
"""),
("""    current = node
    for name in path[len(current.path):]:
        new_current = current.get(name, _marker)
        if new_current is _marker:
            return _to_root(current, path=path, visited=visited)
        current = new_current
    return current
""","""    depth = len(node.path)
    current = node
    while depth < len(path):
        child = current.get(path[depth], _marker)
        if child is _marker:
            return _to_root(current, path, visited)
        current = child
        depth += 1
    return current
"""),
])
sub('behaviors/lifecycle.py',[
("""        _next(self, key, val)
        if self._notify_suppress:
            return
        objectEventNotify(self.events['added'](val, newParent=self,
                                               newName=key))
""","""        _next(self, key, val)
        if not self._notify_suppress:
            self._announce('added', val, newParent=self, newName=key)

    @default
    def _announce(self, which, node, **kw):
        objectEventNotify(self.events[which](node, **kw))
"""),
("""        notify_suppress = self._notify_suppress
        self._notify_suppress = True
        try:
            node = _next(self, key)
        finally:
            self._notify_suppress = notify_suppress
        objectEventNotify(self.events['detached'](node, oldParent=self,
                                                  oldName=key))
        return node
""","""        before, self._notify_suppress = self._notify_suppress, True
        try:
            node = _next(self, key)
        except BaseException:
            self._notify_suppress = before
            raise
        self._notify_suppress = before
        self._announce('detached', node, oldParent=self, oldName=key)
        return node
"""),
("""        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))
""","""        owner = self.__parent__
        if owner._notify_suppress:
            return
        event = owner.events['modified'](owner)
        objectEventNotify(event)
"""),
])
sub('behaviors/events.py',[
("""        type_ = type(events)
        if type_ not in (list, tuple):
            events = [events]
        self.events = tuple(events)
""","""        if type(events) is list or type(events) is tuple:
            self.events = tuple(events)
        else:
            self.events = (events,)
"""),
("""        self.data.events.extend(self.events)
        self.data.suppress += 1
        return self.data.suppress
""","""        data = self.data
        data.suppress += 1
        data.events = data.events + list(self.events)
        return data.suppress
"""),
("""        for event in self.events:
            self.data.events.remove(event)
""","""        remaining = list(self.data.events)
        for event in self.events:
            remaining.remove(event)
        self.data.events = remaining
"""),
("""        if self.always_dispatch or value != old_value:
            with _subscribers(obj, self.name, self.subscribers):
                obj.dispatch(self.name, value)
""","""        if not self.always_dispatch and not value != old_value:
            return
        with _subscribers(obj, self.name, self.subscribers):
            obj.dispatch(self.name, value)
"""),
("""            if event not in self.__events__ \\
                    and event not in self.__class__.__events__:
                raise UnknownEvent(event)
            subscribers = self.__subscribers__.setdefault(event, list())
            if subscriber not in subscribers:
                subscribers.append(subscriber)
""","""            known = list(self.__events__) + list(type(self).__events__)
            if event not in known:
                raise UnknownEvent(event)
            if event not in self.__subscribers__:
                self.__subscribers__[event] = list()
            subscribers = self.__subscribers__[event]
            if any(bound == subscriber for bound in subscribers):
                continue
            subscribers.append(subscriber)
"""),
("""        if event is None and subscriber is None:
            self.__subscribers__ = dict()
        elif event is not None and subscriber is None:
            if event in self.__subscribers__:
                del self.__subscribers__[event]
        elif event is None and subscriber is not None:
            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)
        elif event is not None and subscriber is not None:
            subscribers = self.__subscribers__.get(event, list())
            if subscriber in subscribers:
                subscribers.remove(subscriber)
""","""        events = list(self.__subscribers__) if event is None else [event]
        for name in events:
            if subscriber is None:
                self.__subscribers__.pop(name, None)
                continue
            bound = self.__subscribers__.get(name, [])
            if subscriber in bound:
                bound.remove(subscriber)
"""),
("""        if suppress_events.data.suppress > 0:
            if ALL_EVENTS in suppress_events.data.events:
                return
            if event in suppress_events.data.events:
                return
        for subscriber in attribute_subscribers:
            subscriber(self, *args, **kw)
""","""        suppressed = suppress_events.data.events
        if ALL_EVENTS in suppressed or event in suppressed:
            return
        for subscriber in attribute_subscribers:
            subscriber(self, *args, **kw)
"""),
])
sub('behaviors/common.py',[
("""        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except BaseException:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""","""        before = (val.__name__, val.__parent__)
        val.__name__, val.__parent__ = key, self
        completed = False
        try:
            _next(self, key, val)
            completed = True
        finally:
            if not completed:
                val.__name__, val.__parent__ = before
"""),
("""        try:
            child = _next(self, key)
        except KeyError:
            child = self.factories[key]()
            self[key] = child
        return child
""","""        try:
            return _next(self, key)
        except KeyError:
            factory = self.factories[key]
            self[key] = child = factory()
            return child
"""),
("""        self._children = odict()
        for key, factory in self.fixed_children_factories:
            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
""","""        children = odict()
        for key, factory in self.fixed_children_factories:
            children[key] = child = factory()
            child.__name__, child.__parent__ = key, self
        self._children = children
"""),
("""        if not self.allow_non_node_childs and inspect.isclass(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
        if not self.allow_non_node_childs and not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
        _next(self, key, val)
""","""        if not self.allow_non_node_childs:
            if isinstance(val, type):
                raise ValueError('It isn\\'t allowed to use classes as values.')
            if not INode.providedBy(val):
                raise ValueError('Non-node childs are not allowed.')
        _next(self, key, val)
"""),
("""        if isinstance(key, bytes):
            key = decode(key)
""","""        key = decode(key) if isinstance(key, bytes) else key
"""),
("""        if recursiv and INode.providedBy(node):
            for child in node.values():
                self.set_uuid_for(child, override, recursiv)
""","""        if not recursiv or not INode.providedBy(node):
            return
        for child in list(node.itervalues()):
            self.set_uuid_for(child, override=override, recursiv=recursiv)
"""),
])
sub('utils.py',[
("""    while obj is not None:
        yield obj
        obj = getattr(obj, '__parent__', None)
""","""    current = obj
    while True:
        if current is None:
            break
        yield current
        current = getattr(current, '__parent__', None)
"""),
("""        for key in self.context:
            if self.context[key] == value:
                return key
        raise KeyError(value)
""","""        matching = (k for k, v in self.context.items() if v == value)
        for key in matching:
            return key
        raise KeyError(value)
"""),
("""        for key in self.context:
            val = self.context[key]
            if val == value:
                return True
        return False
""","""        return any(self.context[key] == value for key in self.context)
"""),
("""        return [(v, k) for k, v in self.context.items()]
""","""        return list(zip(self.keys(), self.values()))
"""),
("""            return object.__getattribute__(self, attribute_name)
        except AttributeError:
            setattr(self, attribute_name, func(self))
            return object.__getattribute__(self, attribute_name)
""","""            return object.__getattribute__(self, attribute_name)
        except AttributeError:
            value = func(self)
            setattr(self, attribute_name, value)
            return value
"""),
("""    if isinstance(path, STR_TYPE):
        path = path.strip('/')
        path = path.split('/') if path else []
    if not path:
        return root
    node = root
    for name in path:
        node = node[name]
    return node
""","""    if isinstance(path, STR_TYPE):
        stripped = path.strip('/')
        names = stripped.split('/') if stripped else []
    else:
        names = list(path)
    return reduce(lambda node, name: node[name], names, root)
"""),
("import logging\n","import logging\nfrom functools import reduce\n"),
])
sub('serializer.py',[
("""        components = name.split('.')
        # import deepest module in dotted name
        count = max(len(components) - 1, 1)
        while True:
            module = '.'.join(components[:count])
            try:
                __import__(module)
                break
            except ImportError:
                if count == 1:
                    raise
                count -= 1
        ob = sys.modules[module]
        for comp in components[count:]:
            ob = getattr(ob, comp)
        return ob
""","""        components = name.split('.')
        # import deepest module in dotted name
        for count in range(max(len(components) - 1, 1), 0, -1):
            module = '.'.join(components[:count])
            try:
                ob = importlib.import_module(module)
            except ImportError:
                if count == 1:
                    raise
            else:
                break
        for comp in components[count:]:
            ob = getattr(ob, comp)
        return ob
"""),
("import json\n","import importlib\nimport json\n"),
("""            return '<UUID>:{}'.format(ob)
""","""            return '<UUID>:%s' % ob
"""),
("""            for cls, callback in serializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(ob):
                    callback(self, ob, data)
                elif isinstance(ob, cls):
                    callback(self, ob, data)
            return ret
""","""            for cls, callback in serializer.registry.items():
                if _applies(cls, ob):
                    callback(self, ob, data)
            return ret
"""),
("""                if issubclass(cls, Interface) and cls.providedBy(node):
                    callback(self, node, node_data)
                elif isinstance(node, cls):
                    callback(self, node, node_data)
""","""                if _applies(cls, node):
                    callback(self, node, node_data)
"""),
("""class serializer(_serializer_registry):
""","""def _applies(cls, ob):
    if issubclass(cls, Interface) and cls.providedBy(ob):
        return True
    return isinstance(ob, cls)


class serializer(_serializer_registry):
"""),
("""            if data.startswith('<UUID>:'):
                return uuid.UUID(data[7:])
            return data
""","""            head, sep, tail = data.partition(':')
            if head == '<UUID>' and sep:
                return uuid.UUID(tail)
            return data
"""),
("""    children = list()
    for child in node.values():
        children.append(encoder.default(child))
    if children:
        data['children'] = children
""","""    children = [encoder.default(child) for child in node.itervalues()]
    if len(children) > 0:
        data['children'] = children
"""),
("""    children = data.get('children')
    if not children:
        return
    for child in children:
""","""    for child in data.get('children', []):
"""),
("""    attrs = data.get('attrs')
    if not attrs:
        return
    for attr, value in attrs.items():
        node.attrs[attr] = decoder.decode(value)
""","""    attrs = data.get('attrs') or dict()
    node_attrs = node.attrs
    for attr in attrs:
        node_attrs[attr] = decoder.decode(attrs[attr])
"""),
])
sub('locking.py',[
("""        root = node.root
        self.lock = getattr(root, '_treelock', None)
        if self.lock is None:
            with _create_lock:
                self.lock = getattr(root, '_treelock', None)
                if self.lock is None:
                    self.lock = root._treelock = RLock()
""","""        root = node.root
        lock = getattr(root, '_treelock', None)
        if lock is None:
            with _create_lock:
                if getattr(root, '_treelock', None) is None:
                    root._treelock = RLock()
                lock = root._treelock
        self.lock = lock
"""),
("""        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result
""","""        with TreeLock(self):
            return fn(self, *args, **kwargs)
"""),
])
