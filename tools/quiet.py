#!/usr/bin/env python3
"""Rewrites which keep the behaviour: no check may raise an alarm on them.

    quiet.py [bundle ...] [-- PNN ...]
"""
import json, os, shutil, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plant
from plant import V, at, sh, tests

B = 'behaviors/'
BUNDLES = {}

BUNDLES['helpers'] = [
    (B + 'alias.py', """        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(key)
        else:
            unaliased_key = key
        try:
            return _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)
""", """        real = _unaliased(self.aliaser, key)
        try:
            child = _next(self, real)
        except KeyError:
            raise KeyError(key)
        return child
"""),
    (B + 'alias.py', """        if self.aliaser is not None:
            unaliased_key = self.aliaser.unalias(key)
        else:
            unaliased_key = key
        try:
            _next(self, unaliased_key, val)
""", """        real = _unaliased(self.aliaser, key)
        try:
            _next(self, real, val)
"""),
    (B + 'alias.py', """@implementer(IAlias)
class Alias(Behavior):
""", """def _unaliased(aliaser, key):
    return key if aliaser is None else aliaser.unalias(key)


@implementer(IAlias)
class Alias(Behavior):
"""),
    (B + 'alias.py', """        for key in _next(self):
            try:
                if self.aliaser is not None:
                    yield self.aliaser.alias(key)
                else:
                    yield key
            except KeyError:
                if IEnumerableMapping.providedBy(self.aliaser):
                    # an enumerable aliaser whitelists, we skip non-listed keys
                    continue
                raise""", """        aliaser = self.aliaser
        whitelist = IEnumerableMapping.providedBy(aliaser)
        for key in _next(self):
            if aliaser is not None:
                try:
                    key = aliaser.alias(key)
                except KeyError:
                    if not whitelist:
                        raise
                    continue
            yield key"""),
    (B + 'mapping.py', """        try:
            self[key]
        except KeyError:
            return False
        return True
""", """        try:
            self[key]
            return True
        except KeyError:
            pass
        return False
"""),
    (B + 'mapping.py', "        return [x for x in self]\n", "        return list(iter(self))\n"),
    (B + 'mapping.py', """        return [(key, self[key]) for key in self]
""", """        pairs = []
        for key in self:
            value = self[key]
            pairs.append((key, value))
        return pairs
"""),
    (B + 'mapping.py', """        for key in reversed(self.keys()):
            val = self[key]
            del self[key]
            return key, val
        raise KeyError('popitem(): mapping is empty')
""", """        keys = self.keys()
        if not keys:
            raise KeyError('popitem(): mapping is empty')
        last = keys[-1]
        value = self[last]
        del self[last]
        return last, value
"""),
    (B + 'mapping.py', """        try:
            val = self[key]
            del self[key]
        except KeyError:
            if default is UNSET:
                raise
            val = default
        return val
""", """        try:
            found = self[key]
            self.__delitem__(key)
            return found
        except KeyError:
            if default is not UNSET:
                return default
            raise
"""),
    (B + 'nodify.py', """        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path
""", """        names = []
        node = self
        while node is not None:
            names.insert(0, node.name)
            node = getattr(node, '__parent__', None)
        return names
"""),
    (B + 'nodify.py', """        root = None
        for parent in LocationIterator(self):
            root = parent
        return root
""", """        return list(LocationIterator(self))[-1]
"""),
    (B + 'nodify.py', """        node = self.parent
        while node is not None:
            if (IInterface.providedBy(interface) and
                    interface.providedBy(node)) or \\
                    isinstance(node, interface):
                return node
            node = node.parent
""", """        for node in LocationIterator(self.parent):
            if IInterface.providedBy(interface):
                found = interface.providedBy(node)
            else:
                found = isinstance(node, interface)
            if found:
                return node
        return None
"""),
    (B + 'nodify.py', "        return [val for val in self.filtereditervalues(interface)]\n",
     "        return [val for val in self.values() if interface.providedBy(val)]\n"),
    (B + 'nodify.py', """        res = '{}{}\\n'.format(indent * prefix, self.noderepr)
""", """        lines = []
        lines.append('{}{}\\n'.format(prefix * indent, self.noderepr))
"""),
    (B + 'nodify.py', """                res += value.treerepr(indent=indent + 2, prefix=prefix)
            else:
                res += '{}{}: {}\\n'.format(
                    (indent + 2) * prefix,
                    key,
                    repr(value)
                )
        return res
""", """                lines.append(value.treerepr(indent=indent + 2, prefix=prefix))
                continue
            lines.append((indent + 2) * prefix + '{}: {!r}'.format(key, value))
            lines.append('\\n')
        return ''.join(lines)
"""),
]

BUNDLES['state'] = [
    (B + 'storage.py', """    @default
    @instance_property
    def storage(self):
        return odict()""", """    @default
    @property
    def storage(self):
        data = self.__dict__.get('_ordered')
        if data is None:
            data = self.__dict__['_ordered'] = odict()
        return data"""),
    (B + 'storage.py', "        return self.storage.__iter__()\n", "        return iter(self.storage)\n"),
    (B + 'cache.py', """        cache = self.cache
        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]
""", """        cache = self.cache
        if key in cache:
            return cache[key]
        child = cache[key] = _next(self, key)
        return child
"""),
    (B + 'cache.py', """            for cached_key in _keys(cache):
                del cache[cached_key]
        _next""", """            cache.clear()
        _next"""),
    (B + 'cache.py', """            for key in _keys(self):
                del self[key]


@implementer(IInvalidate)
class Vol""", """            keys = _keys(self)
            while keys:
                del self[keys.pop(0)]


@implementer(IInvalidate)
class Vol"""),
    (B + 'cache.py', """            if key in _keys(self):
                try:
                    del storage[key]
                except KeyError:
                    pass  # ignore, key is valid, but not on storage right now
            else:
                raise KeyError(key)
        else:
            for key in _keys(storage):
                del storage[key]
""", """            if key not in _keys(self):
                raise KeyError(key)
            if key in storage:
                del storage[key]
            return
        for key in _keys(storage):
            del storage[key]
"""),
    (B + 'common.py', """        if not INode.providedBy(val):
            _next(self, key, val)
            return

        # save old __parent__ and __name__ to restore if something goes wrong
        old_name = val.__name__
        old_parent = val.__parent__
        val.__name__ = key
        val.__parent__ = self
        try:
            _next(self, key, val)
        except Exception:
            val.__name__ = old_name
            val.__parent__ = old_parent
            raise
""", """        if INode.providedBy(val):
            before = val.__name__, val.__parent__
            val.__name__, val.__parent__ = key, self
            try:
                _next(self, key, val)
            except Exception:
                val.__name__, val.__parent__ = before
                raise
        else:
            _next(self, key, val)
"""),
    (B + 'common.py', """            child = self.factories[key]()
            self[key] = child
        return child
""", """            factory = self.factories[key]
            self[key] = child = factory()
        return child
"""),
    (B + 'common.py', """        self._children = odict()
        for key, factory in self.fixed_children_factories:
            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
""", """        children = self._fixed = odict()
        for key, factory in self.fixed_children_factories:
            children[key] = child = factory()
            child.__parent__ = self
            child.__name__ = key
"""),
    (B + 'common.py', "        return self._children[key]\n", "        return self._fixed[key]\n"),
    (B + 'common.py', "        return iter(self._children)\n", "        return iter(list(self._fixed))\n"),
    (B + 'common.py', """        if not self.allow_non_node_childs and inspect.isclass(val):
            raise ValueError('It isn\\'t allowed to use classes as values.')
        if not self.allow_non_node_childs and not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
        _next(self, key, val)
""", """        if not self.allow_non_node_childs:
            if inspect.isclass(val):
                raise ValueError('It isn\\'t allowed to use classes as values.')
            if not INode.providedBy(val):
                raise ValueError('Non-node childs are not allowed.')
        _next(self, key, val)
"""),
    (B + 'common.py', """            for child in node.values():
                # non-Node values are a dead end, no magic for them
                if not INode.providedBy(child):
                    continue
                self.set_uuid_for(child, override, recursiv)""", """            for child in [x for x in node.values() if INode.providedBy(x)]:
                self.set_uuid_for(child, override, recursiv)"""),
    (B + 'attributes.py', """        try:
            attrs = self.nodespaces['__attrs__']
        except KeyError:
            attrs = self.nodespaces['__attrs__'] = \\
                self.attributes_factory(name='__attrs__', parent=self)
        if self.attribute_access_for_attrs:
            return AttributeAccess(attrs)
        return attrs
""", """        spaces = self.nodespaces
        if '__attrs__' not in spaces:
            spaces['__attrs__'] = self.attributes_factory(name='__attrs__', parent=self)
        attrs = spaces['__attrs__']
        return AttributeAccess(attrs) if self.attribute_access_for_attrs else attrs
"""),
    (B + 'nodespace.py', """        if self._nodespaces is None:
            self._nodespaces = odict()
            self._nodespaces['__children__'] = self
        return self._nodespaces
""", """        spaces = self._nodespaces
        if spaces is None:
            spaces = self._nodespaces = odict([('__children__', self)])
        return spaces
"""),
    (B + 'nodespace.py', """        if isinstance(key, STR_TYPE) \\
          and key.startswith('__') \\
          and key.endswith('__'):
            # a reserved child key mapped to the nodespace behind
            # nodespaces[key], nodespaces is an odict
            return self.nodespaces[key]
        return _next(self, key)
""", """        if isinstance(key, STR_TYPE) and key[:2] == key[-2:] == '__':
            return self.nodespaces[key]
        return _next(self, key)
"""),
]

BUNDLES['trees'] = [
    (B + 'reference.py', """            if any(iuuid in self._index for iuuid in val._index):
                raise ValueError('Node with uuid already exists')
            added = val._index
            self._index.update(added)
            for node in added.values():
                node._index = self._index
""", """            added = val._index
            index = self._index
            if set(added) & set(index):
                raise ValueError('Node with uuid already exists')
            for iuuid, node in added.items():
                index[iuuid] = node
                node._index = index
"""),
    (B + 'reference.py', """        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]
        self._index[iuuid] = self
        self._uuid = uuid
""", """        index = self._index
        siuuid = None if self._uuid is None else int(self._uuid)
        index.pop(siuuid, None)
        index[iuuid] = self
        self._uuid = uuid
"""),
    (B + 'reference.py', """        node._index = {int(node.uuid): node}
        node._index_nodes()
        return node
""", """        node._index = dict()
        node._index[int(node.uuid)] = node
        node._index_nodes()
        return node
"""),
    (B + 'reference.py', """        return self._index.get(int(uuid))

""", """        found = self._index.get(int(uuid))
        return found

"""),
    (B + 'reference.py', """        todel = [int(self.uuid)]
        for childkey in self:
            child = self[childkey]
            # Non-Node values or non referencing children are not told about
            # deletion.
            if IReference.providedBy(child):
                todel += child._to_delete()
        return todel
""", """        todel = []
        todo = [self]
        while todo:
            node = todo.pop(0)
            todel.append(int(node.uuid))
            for childkey in node:
                child = node[childkey]
                if IReference.providedBy(child):
                    todo.append(child)
        return todel
"""),
    (B + 'order.py', """        keys = self.keys()
        if not keys:
            self._validateinsertion(newnode)
            self[newnode.name] = newnode
            return
        # first child is not necessarily a node
        self._validateinsertion(newnode)
        self.storage.insertbefore(keys[0], newnode.name, newnode)
        self._setinserted(newnode)
""", """        self._validateinsertion(newnode)
        keys = self.keys()
        if keys:
            self.storage.insertbefore(keys[0], newnode.name, newnode)
            self._setinserted(newnode)
        else:
            self[newnode.name] = newnode
"""),
    (B + 'order.py', "        self.storage.swap(node_a.name, node_b.name)\n",
     "        first, second = node_a.name, node_b.name\n        self.storage.swap(first, second)\n"),
    (B + 'fallback.py', """    current = node
    for name in path[len(current.path):]:
        new_current = current.get(name, _marker)
        if new_current is _marker:
            return _to_root(current, path=path, visited=visited)
        current = new_current
    return current
""", """    current = node
    rest = list(path[len(node.path):])
    while rest:
        below = current.get(rest.pop(0), _marker)
        if below is _marker:
            return _to_root(current, path=path, visited=visited)
        current = below
    return current
"""),
    (B + 'fallback.py', """    parent = node.__parent__
    if parent is None:
        return _marker
    if not""", """    while False:
        pass
    parent = node.__parent__
    if parent is None:
        return _marker
    if not"""),
    (B + 'lifecycle.py', """        delnode = self[key]
        _next(self, key)
        if self._notify_suppress:
            return
        objectEventNotify(self.events['removed'](delnode, oldParent=self,
                                                 oldName=key))
""", """        delnode = self[key]
        _next(self, key)
        if not self._notify_suppress:
            event = self.events['removed'](delnode, oldParent=self, oldName=key)
            objectEventNotify(event)
"""),
    (B + 'lifecycle.py', """        _next(self, key, val)
        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))
""", """        _next(self, key, val)
        owner = self.__parent__
        if owner._notify_suppress:
            return
        objectEventNotify(owner.events['modified'](owner))
"""),
    ('locking.py', """        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result
""", """        with TreeLock(self):
            return fn(self, *args, **kwargs)
"""),
    (B + 'events.py', """        for subscriber in attribute_subscribers:
            subscriber(self, *args, **kw)
        # subscribers may bind or unbind while being called
        for subscriber in list(self.__subscribers__.get(event, list())):
            subscriber(*args, **kw)""", """        for subscriber in tuple(attribute_subscribers):
            subscriber(self, *args, **kw)
        bound = self.__subscribers__.get(event)
        if not bound:
            return
        for subscriber in bound[:]:
            subscriber(*args, **kw)"""),
    (B + 'events.py', """        if event is None and subscriber is None:
            self.__subscribers__ = dict()
        elif event is not None and subscriber is None:
            if event in self.__subscribers__:
                del self.__subscribers__[event]
        elif event is None and subscriber is not None:
            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)
        elif event is not None and subscriber is not None:
            subscribers = self.__subscribers__.get(event, list())
            if subscriber in subscribers:
                subscribers.remove(subscriber)
""", """        if event is None:
            events = list(self.__subscribers__)
        else:
            events = [event]
        for name in events:
            if subscriber is None:
                self.__subscribers__.pop(name, None)
                continue
            subscribers = self.__subscribers__.get(name, [])
            if subscriber in subscribers:
                subscribers.remove(subscriber)
"""),
    (B + 'events.py', """        storage = getattr(obj, self.storage)
        old_value = storage.get(self.name, self.default)
        storage[self.name] = value
        if self.always_dispatch or value != old_value:
            with _subscribers(self.subscribers):
                obj.dispatch(self.name, value)
""", """        place = getattr(obj, self.storage)
        old_value = place.get(self.name, self.default)
        place[self.name] = value
        changed = self.always_dispatch or value != old_value
        if not changed:
            return
        with _subscribers(self.subscribers):
            obj.dispatch(self.name, value)
"""),
    (B + 'events.py', """        if suppress_events.data.suppress > 0:
            if ALL_EVENTS in suppress_events.data.events:
                return
            if event in suppress_events.data.events:
                return
""", """        quiet = suppress_events.data
        if quiet.suppress and (ALL_EVENTS in quiet.events or event in quiet.events):
            return
"""),
]

BUNDLES['data'] = [
    ('serializer.py', """    children = list()
    for child in node.values():
        children.append(encoder.default(child))
    if children:
        data['children'] = children
""", """    children = [encoder.default(child) for key, child in node.items()]
    if children:
        data['children'] = children
"""),
    ('serializer.py', """    children = data.get('children')
    if not children:
        return
    for child in children:
        decoder.decode(child, parent=node)
""", """    for child in data.get('children') or []:
        decoder.decode(child, parent=node)
"""),
    ('serializer.py', """        if ob is UNSET:
            return '<UNSET>'
        # serialize UUID
        if isinstance(ob, uuid.UUID):
            return '<UUID>:{}'.format(ob)
""", """        if isinstance(ob, uuid.UUID):
            return '<UUID>:' + str(ob)
        elif ob is UNSET:
            return '<UNSET>'
"""),
    ('serializer.py', """            ret = dict()
            if self.simple_mode:
                data = ret
            else:
                data = ret.setdefault('__node__', dict())
            if not self.simple_mode or self.include_class:
                data['class'] = self.dotted_name(ob)
            data['name'] = ob.name
""", """            data = dict()
            ret = data if self.simple_mode else dict(__node__=data)
            if self.include_class or not self.simple_mode:
                data['class'] = self.dotted_name(ob)
            data['name'] = ob.name
"""),
    ('serializer.py', """            for cls, callback in serializer.registry.items():
                if issubclass(cls, Interface) and cls.providedBy(ob):
                    callback(self, ob, data)
                elif isinstance(ob, cls):
                    callback(self, ob, data)
            return ret
""", """            for cls, callback in list(serializer.registry.items()):
                matches = cls.providedBy(ob) if issubclass(cls, Interface) else isinstance(ob, cls)
                if matches:
                    callback(self, ob, data)
            return ret
"""),
    ('serializer.py', """        if parent is not None:
            node = parent[name] = factory(**kw)
        else:
            node = factory(**kw)
            node.__name__ = name
        return node
""", """        node = factory(**kw)
        if parent is None:
            node.__name__ = name
        else:
            parent[name] = node
        return node
"""),
    ('serializer.py', """        return dict([
            (key, self.decode(it, parent=parent)) for key, it in data.items()
        ])
""", """        decoded = {}
        for key in data:
            decoded[key] = self.decode(data[key], parent=parent)
        return decoded
"""),
    ('utils.py', """        for key in self.context:
            if self.context[key] == value:
                return key
        raise KeyError(value)
""", """        context = self.context
        for key in context:
            if context[key] == value:
                break
        else:
            raise KeyError(value)
        return key
"""),
    ('utils.py', """        for key in self.context:
            val = self.context[key]
            if val == value:
                return True
        return False
""", """        return any(self.context[key] == value for key in self.context)
"""),
    ('utils.py', "        return [(v, k) for k, v in self.context.items()]\n", "        return [(self.context[k], k) for k in self.context]\n"),
    ('utils.py', """        try:
            return context[name]
        except KeyError:
            raise AttributeError(name)
""", """        try:
            found = context[name]
        except KeyError:
            found = UNSET
            missing = True
        else:
            missing = False
        if missing:
            raise AttributeError(name)
        return found
"""),
    ('utils.py', """        if isinstance(arg, (list, tuple)):
            arg = arg.__class__(map(self.decode, arg))
        elif isinstance(arg, dict):
            arg = dict([self.decode(t) for t in iteritems(arg)])
        elif isinstance(arg, bytes):
            try:
""", """        if isinstance(arg, (list, tuple)):
            arg = arg.__class__([self.decode(x) for x in arg])
        elif isinstance(arg, dict):
            result = {}
            for key, value in iteritems(arg):
                result[self.decode(key)] = self.decode(value)
            arg = result
        elif isinstance(arg, bytes):
            try:
"""),
    ('utils.py', """        attribute_name = '_{}'.format(func.__name__)
""", """        attribute_name = '_' + func.__name__
"""),
    ('utils.py', """        try:
            return object.__getattribute__(self, attribute_name)
        except AttributeError:
            setattr(self, attribute_name, func(self))
            return object.__getattribute__(self, attribute_name)
""", """        try:
            return object.__getattribute__(self, attribute_name)
        except AttributeError:
            pass
        value = func(self)
        object.__setattr__(self, attribute_name, value)
        return value
"""),
    ('utils.py', """    while obj is not None:
        yield obj
        obj = getattr(obj, '__parent__', None)
""", """    current = obj
    while True:
        if current is None:
            return
        yield current
        current = getattr(current, '__parent__', None)
"""),
    (B + 'alias.py', """        try:
            return ReverseMapping(self)[key]
        except KeyError as e:
            if not self.strict:
                return key
            raise e
""", """        for aliased_key in self:
            if self[aliased_key] == key:
                return aliased_key
        if self.strict:
            raise KeyError(key)
        return key
"""),
    (B + 'alias.py', """        prefix = self.prefix or ''
        if not prefixed_key.startswith(prefix):
            raise KeyError(u"key '{}' does not match prefix '{}'".format(
                prefixed_key,
                prefix
            ))
        return prefixed_key[len(prefix):]
""", """        prefix = self.prefix or ''
        size = len(prefix)
        if prefixed_key[:size] == prefix:
            return prefixed_key[size:]
        raise KeyError(u"key '{}' does not match prefix '{}'".format(
            prefixed_key, prefix))
"""),
    (B + 'alias.py', """        for aliaser in reversed(self.chain):
            key = aliaser.unalias(key)
        return key
""", """        for aliaser in tuple(self.chain)[::-1]:
            key = aliaser.unalias(key)
        return key
"""),
]

BUNDLES['text'] = [
    (B + 'common.py', '''@implementer(IUnicodeAware)
''', '''def _text(value):
    """Decode bytes, leave anything else.
    """
    return decode(value) if isinstance(value, bytes) else value


@implementer(IUnicodeAware)
'''),
    (B + 'common.py', '''        if isinstance(key, bytes):
            key = decode(key)
        _next(self, key)

    @plumb
    def __getitem__''', '''        _next(self, _text(key))

    @plumb
    def __getitem__'''),
    (B + 'common.py', '''        if isinstance(key, bytes):
            key = decode(key)
        return _next(self, key)
''', '''        child = _next(self, _text(key))
        return child
'''),
    (B + 'common.py', '''        if isinstance(key, bytes):
            key = decode(key)
        if isinstance(val, bytes):
            val = decode(val)
        return _next(self, key, val)
''', '''        text, value = _text(key), _text(val)
        return _next(self, text, value)
'''),
    ('utils.py', '''        elif isinstance(arg, bytes):
            try:
                arg = arg.decode(self._encoding)
            except UnicodeDecodeError:
                # in soft mode we leave the string, otherwise we raise the
                # exception
                if not self._soft:
                    raise
''', '''        elif isinstance(arg, bytes):
            try:
                text = str(arg, self._encoding)
            except UnicodeDecodeError:
                if self._soft:
                    return arg
                raise
            return text
'''),
    (B + 'lifecycle.py', '''        objectEventNotify(self.events['added'](val, newParent=self,
                                               newName=key))
''', '''        factory = self.events['added']
        event = factory(val, newParent=self, newName=key)
        objectEventNotify(event)
'''),
    (B + 'nodify.py', '''        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path
''', '''        path = list()
        for node in LocationIterator(self):
            path.insert(0, node.name)
        return path
'''),
]


def main():
    args = sys.argv[1:]
    props = []
    if '--' in args:
        props = args[args.index('--') + 1:]
        args = args[:args.index('--')]
    every = ['P%02d' % n for n in range(1, 40)]
    for name in args or sorted(BUNDLES):
        d, r = plant.copy()
        try:
            for f, old, new in BUNDLES[name]:
                p = os.path.join(r, 'src/node', f)
                t = open(p).read()
                if t.count(old) < 1:
                    print(name, 'NOT FOUND in', f, repr(old[:70]))
                    continue
                open(p, 'w').write(t.replace(old, new, 1))
            ok = tests(r)
            missing = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) - set(ok)
            if missing:
                print(name, 'TESTS FAIL', sorted(missing)[:3])
                continue
            for p in props or every:
                code, out = sh(at(r, ['bash', 'check.sh', p, 'quick']), cwd=V)
                if code:
                    print(name, p, 'EXIT', code, out.strip()[:400], flush=True)
            print(name, 'done', flush=True)
        finally:
            shutil.rmtree(d)


main()
