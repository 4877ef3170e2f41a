"""Definitions of the planted changes (see plant.py)."""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


seed('p01-pop-falsy-default', 'P01', [('behaviors/mapping.py', 'if default is UNSET:', 'if not default:')],
     'pop of a missing key with a default that is falsy',
     'pop raises KeyError although a default was given',
     '''
from node.base import OrderedNode
n = OrderedNode()
n['a'] = OrderedNode()
assert n.pop('b', None) is None
assert n.pop('b', 0) == 0
''')

seed('p01-get-falsy', 'P01', [('behaviors/mapping.py', '''        try:
            return self[key]
        except KeyError:
            return default

    @default
    def __contains__''', '''        try:
            return self[key] or default
        except KeyError:
            return default

    @default
    def __contains__''')],
     'get with a default on an entry whose value is falsy',
     'get gives the default although the key is present',
     '''
from node.base import OrderedNode
class N(OrderedNode):
    allow_non_node_childs = True
n = N()
n['a'] = 0
assert n.get('a', 5) == 0
''')

seed('p01-update-kw-first', 'P01', [('behaviors/mapping.py', '''        if args:
            data = args[0]
            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val
        for key, val in iteritems(kw):
            self[key] = val
''', '''        for key, val in iteritems(kw):
            self[key] = val
        if args:
            data = args[0]
            if hasattr(data, ITER_FUNC):
                data = iteritems(data)
            for key, val in data:
                self[key] = val
''')],
     'update with a positional mapping and keyword arguments having a key in common, or looking at the order',
     'keyword arguments no longer win over and follow the positional entries',
     '''
from node.base import OrderedNode
class N(OrderedNode):
    allow_non_node_childs = True
n = N()
n.update([('b', 1), ('a', 1)], a=2, c=3)
assert n['a'] == 2
assert list(n.keys()) == ['b', 'a', 'c']
''')

seed('p02-path-memo', 'P02', [('behaviors/nodify.py', '''        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        return path
''', '''        location = (self.__name__, self.__parent__)
        memo = self.__dict__.get('_path')
        if memo is not None and memo[0] == location[0] \\
                and memo[1] is location[1]:
            return list(memo[2])
        path = [parent.name for parent in LocationIterator(self)]
        path.reverse()
        self._path = location + (path,)
        return list(path)
''')],
     'reading the path of a node, then attaching one of its ancestors somewhere else, then reading it again',
     'the path still names the old location',
     '''
from node.base import OrderedNode
a = OrderedNode(name='a')
a['b'] = OrderedNode()
a['b']['c'] = OrderedNode()
c = a['b']['c']
assert c.path == ['a', 'b', 'c']
top = OrderedNode(name='top')
top['x'] = a
assert c.path == ['top', 'x', 'b', 'c'], c.path
''')

seed('p02-setdefault-unadopted', 'P02', [('behaviors/common.py', '''        try:
            return self[key]
        except KeyError:
            self[key] = default
            return default


@implementer(IAsAttrAccess)''', '''        if key in self:
            return self[key]
        return _next(self, key, default)


@implementer(IAsAttrAccess)'''), ('behaviors/mapping.py', '''        try:
            return self[key]
        except KeyError:
            self[key] = default
            return default
''', '''        try:
            return self[key]
        except KeyError:
            storage = getattr(self, 'storage', self)
            storage[key] = default
            return default
''')],
     'setdefault of a missing key on a node with a storage',
     'the child put in by setdefault is not adopted',
     '''
from node.base import BaseNode
n = BaseNode(name='n')
c = n.setdefault('c', BaseNode())
assert c.parent is n and c.name == 'c'
''')

seed('p03-name-lost', 'P03', [('behaviors/common.py', '''            val.__name__ = old_name
''', '''            # nodes without parent have no name either
            val.__name__ = old_name if old_parent is not None else None
''')],
     'a rejected node which has a name but no parent',
     'the rejected node loses its name',
     '''
from node.base import Node
root = Node(name='root')
root['a'] = Node()
other = Node(name='other')
other.uuid = root['a'].uuid
try:
    root['b'] = other
except ValueError:
    pass
assert other.name == 'other', other.name
''')

seed('p03-validate-memo', 'P03', [('behaviors/common.py', '''        if not self.allow_non_node_childs and not INode.providedBy(val):
            raise ValueError('Non-node childs are not allowed.')
        _next(self, key, val)
''', '''        if not self.allow_non_node_childs \\
                and type(val) not in self.valid_child_types:
            if not INode.providedBy(val):
                raise ValueError('Non-node childs are not allowed.')
            self.valid_child_types.add(type(val))
        _next(self, key, val)
'''), ('behaviors/common.py', '''    allow_non_node_childs = default(False)

    @plumb''', '''    allow_non_node_childs = default(False)
    valid_child_types = default(set())

    @plumb''')],
     'a node child whose class does not implement INode but whose instance provides it, then a non-node of that class',
     'a non-node value is accepted by a container of nodes only',
     '''
from node.base import BaseNode
from node.interfaces import INode
from zope.interface import alsoProvides
class Plain(object):
    __name__ = None
    __parent__ = None
n = BaseNode()
good = Plain()
alsoProvides(good, INode)
n['good'] = good
try:
    n['bad'] = Plain()
except ValueError:
    pass
assert 'bad' not in n
''')

seed('p04-swap-order', 'P04', [('behaviors/order.py', '''        self.storage.swap(node_a.name, node_b.name)
''', '''        storage = self.storage
        keys = list(storage.keys())
        first, second = keys.index(node_a.name), keys.index(node_b.name)
        keys[first], keys[second] = keys[second], keys[first]
        # everything before stays where it is
        for key in keys[first:]:
            value = storage[key]
            del storage[key]
            storage[key] = value
''')],
     'swapping two children with the later one given first',
     'children between or before the two change their order',
     '''
from node.base import Node
n = Node()
for k in 'abcd':
    n[k] = Node()
n.swap(n['a'], n['c'])
assert list(n.keys()) == ['c', 'b', 'a', 'd']
n.swap(n['d'], n['b'])
assert list(n.keys()) == ['c', 'd', 'a', 'b'], list(n.keys())
''')

seed('p04-insertlast-neighbour', 'P04', [('behaviors/order.py', '''        refnode = self[keys[-1]]
        self.insertafter(newnode, refnode)
''', '''        refnode = self[keys[-1]]
        if refnode.name != keys[-1]:
            refnode = self[keys[-2]]
        self.insertafter(newnode, refnode)
'''), ('behaviors/order.py', '''            self.storage.insertbefore(refnode.name, newnode.name, newnode)
''', '''            keys = self.storage.keys()
            position = max(keys.index(refnode.name), 1)
            self.storage.insertafter(
                keys[position - 1],
                newnode.name,
                newnode
            )
        except ValueError:
            raise ValueError('Given reference node not child of self.')
''')],
     'inserting before the very first child',
     'the new child is put after the first one',
     '''
from node.base import Node
n = Node()
n['a'] = Node()
n['b'] = Node()
n.insertbefore(Node(name='x'), n['b'])
assert list(n.keys()) == ['a', 'x', 'b']
n.insertbefore(Node(name='y'), n['a'])
assert list(n.keys()) == ['y', 'a', 'x', 'b'], list(n.keys())
''')

seed('p05-index-memo', 'P05', [('behaviors/reference.py', '''        return NodeIndex(self._index)
''', '''        try:
            return self._node_index
        except AttributeError:
            self._node_index = NodeIndex(self._index)
        return self._node_index
''')],
     'reading the index of a node and attaching or detaching it later',
     'the index of the node is still the one of the tree it was in before',
     '''
from node.base import Node
root = Node(name='root')
child = Node()
assert child.uuid in child.index
root['child'] = child
assert root.uuid in child.index
''')

seed('p05-detach-grandchild', 'P05', [('behaviors/reference.py', '''            self._index[uuid] = node
            node._index = self._index
            node._index_nodes()
''', '''            self._index[uuid] = node
            if node._index is not self._index:
                node._index_nodes()
                self._index.update(node._index)
''')],
     'detaching a subtree and adding a node below one of its descendants',
     'the nodes of a detached tree do not share one index',
     '''
from node.base import Node
root = Node(name='root')
root['a'] = Node()
root['a']['b'] = Node()
a = root.detach('a')
a['b']['new'] = Node()
assert a.node(a['b']['new'].uuid) is a['b']['new']
''')

seed('p05-delete-stops', 'P05', [('behaviors/reference.py', '''                todel += self[childkey]._to_delete()
            except AttributeError:''', '''                child = self[childkey]
                if not len(child):
                    todel.append(int(child.uuid))
                    continue
                todel += child._to_delete()
            except (AttributeError, TypeError):''')] , 'nothing', 'x', 'assert 0')
SEEDS.pop()

seed('p06-setter-order', 'P06', [('behaviors/reference.py', '''        if iuuid in self._index \\
                and self._index[iuuid] is not self:
            raise ValueError('Given uuid was already used for another Node')
        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]
''', '''        siuuid = int(self._uuid) if self._uuid is not None else None
        if siuuid in self._index:
            del self._index[siuuid]
        if iuuid in self._index \\
                and self._index[iuuid] is not self:
            raise ValueError('Given uuid was already used for another Node')
''')],
     'assigning a UUID in use by another node of the tree and looking up the own one afterwards',
     'the refused assignment takes the node out of the index',
     '''
from node.base import Node
root = Node(name='root')
root['a'] = Node()
root['b'] = Node()
try:
    root['a'].uuid = root['b'].uuid
except ValueError:
    pass
assert root.node(root['a'].uuid) is root['a']
''')

seed('p06-setter-stale', 'P06', [('behaviors/reference.py', '''        if siuuid in self._index:
            del self._index[siuuid]
        self._index[iuuid] = self
''', '''        if siuuid in self._index and self.__parent__ is None:
            del self._index[siuuid]
        self._index[iuuid] = self
''')],
     'assigning a free UUID to a node within a tree and looking up the old one',
     'the node is still found under its former UUID',
     '''
import uuid
from node.base import Node
root = Node(name='root')
root['a'] = Node()
old = root['a'].uuid
root['a'].uuid = uuid.uuid4()
assert root.node(old) is None
''')

seed('p07-detach-index', 'P07', [('behaviors/reference.py', '''        node._index = {int(node.uuid): node}
        node._index_nodes()
''', '''        if not len(node):
            node._index = {int(node.uuid): node}
            return node
        index = {int(node.uuid): node}
        for child in node.values():
            index[int(child.uuid)] = child
        node._index = index
        for child in node.values():
            child._index = index
''')],
     'detaching a subtree at least three levels deep, or one with plain values',
     'descendants of the detached subtree are not part of it any more',
     '''
from node.base import Node
root = Node(name='root')
root['a'] = Node()
root['a']['b'] = Node()
root['a']['b']['c'] = Node()
c = root['a']['b']['c']
a = root.detach('a')
assert a.node(c.uuid) is c
''')

seed('p07-detach-missing', 'P07', [('behaviors/nodify.py', '''        node = self[key]
        del self[key]
        return node
''', '''        node = self.get(key)
        if node is not None:
            del self[key]
        return node
''')],
     'detaching a missing key from a node without UUIDs',
     'no KeyError',
     '''
from node.base import OrderedNode
n = OrderedNode()
n['a'] = OrderedNode()
try:
    n.detach('b')
except KeyError:
    pass
else:
    raise AssertionError('no KeyError')
''')

seed('p08-deepcopy-shares-values', 'P08', [('behaviors/mapping.py', '''        return copy.deepcopy(self)
''', '''        # plain values need no copy
        memo = dict()
        for value in self.values():
            if not hasattr(value, '__parent__'):
                memo[id(value)] = value
        return copy.deepcopy(self, memo)
''')],
     'deep copying a node holding a mutable plain value directly, and changing that value',
     'copy and original share the mutable value',
     '''
from node.base import OrderedNode
class N(OrderedNode):
    allow_non_node_childs = True
n = N(name='n')
n['list'] = [1]
c = n.deepcopy()
c['list'].append(2)
assert n['list'] == [1]
''')

seed('p08-copy-name', 'P08', [('behaviors/nodify.py', '''        new = _next(self)
        new.__name__ = self.__name__
        new.__parent__ = self.__parent__
        return new
''', '''        new = _next(self)
        if self.__name__:
            new.__name__ = self.__name__
            new.__parent__ = self.__parent__
        else:
            new.__name__ = new.__parent__ = None
        return new
''')],
     'a shallow copy of a node whose name is empty but which has a parent',
     'the copy has no name and no parent',
     '''
from node.base import OrderedNode
n = OrderedNode(name='n')
n[''] = OrderedNode()
c = n[''].copy()
assert c.name == '' and c.parent is n
''')

seed('p09-uuid-not-below', 'P09', [('behaviors/common.py', '''            if override or not node.uuid:
                node.uuid = self.uuid_factory()
        if recursiv:''', '''            if override or not node.uuid:
                node.uuid = self.uuid_factory()
            recursiv = recursiv and node.overwrite_recursiv_on_copy
        if recursiv:''')],
     'a UUID aware node with recursive overwriting turned off for itself below the copied one',
     'descendants keep their UUIDs in the copy',
     '''
from node.base import OrderedNode
from node.behaviors import UUIDAware
from plumber import plumbing
@plumbing(UUIDAware)
class U(OrderedNode):
    pass
class Off(U):
    overwrite_recursiv_on_copy = False
top = U()
top['off'] = Off()
top['off']['x'] = U()
c = top.deepcopy()
assert c['off']['x'].uuid != top['off']['x'].uuid
''')

seed('p09-uuid-through-plain', 'P09', [('behaviors/common.py', '''            if override or not node.uuid:
                node.uuid = self.uuid_factory()
        if recursiv:''', '''            if override or not node.uuid:
                node.uuid = self.uuid_factory()
        else:
            return
        if recursiv:''')],
     'a UUID aware node below a node which is not UUID aware',
     'such descendants keep their UUID in the copy',
     '''
from node.base import OrderedNode
from node.behaviors import UUIDAware
from plumber import plumbing
@plumbing(UUIDAware)
class U(OrderedNode):
    pass
top = U()
top['plain'] = OrderedNode()
top['plain']['u'] = U()
c = top.deepcopy()
assert c['plain']['u'].uuid != top['plain']['u'].uuid
''')

seed('p10-none-not-cached', 'P10', [('behaviors/cache.py', '''        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]
''', '''        value = cache.get(key)
        if value is None:
            value = cache[key] = _next(self, key)
        return value
''')],
     'reading a child that is None repeatedly',
     'the backend is consulted on every read',
     '''
from node.base import OrderedNode
from node.behaviors import Cache
from plumber import plumbing
calls = []
class Backend(OrderedNode):
    allow_non_node_childs = True
    def __getitem__(self, key):
        calls.append(key)
        return super(Backend, self).__getitem__(key)
@plumbing(Cache)
class N(Backend):
    pass
n = N()
n['a'] = None
del calls[:]
n['a']
n['a']
assert len(calls) <= 1, calls
''')

seed('p10-set-keeps-cached', 'P10', [('behaviors/cache.py', '''        try:
            del self.cache[key]
        except KeyError:
            pass
        try:
            _next(self, key, value)
        finally:
            # child might have been read, and thus cached, while setting
            try:
                del self.cache[key]
            except KeyError:
                pass
''', '''        _next(self, key, value)
        if key in self.cache:
            self.cache[key] = value
''')],
     'setting a cached key while a behavior below stores something else than the given value',
     'reading gives the value that was set, not the one stored',
     '''
from node.base import OrderedNode
from node.behaviors import Cache
from plumber import plumbing
class Upper(OrderedNode):
    allow_non_node_childs = True
    def __setitem__(self, key, value):
        super(Upper, self).__setitem__(key, value.upper())
@plumbing(Cache)
class N(Upper):
    pass
n = N()
n['a'] = 'x'
assert n['a'] == 'X'
n['a'] = 'y'
assert n['a'] == 'Y', n['a']
''')

seed('p11-falsy-key', 'P11', [('behaviors/cache.py', '''        storage = self.storage
        if key is not None:''', '''        storage = self.storage
        if key:''')],
     'invalidating a key that is falsy, like the empty text or 0',
     'all children are dropped',
     '''
from node.behaviors import Adopt, DefaultInit, Nodify, OdictStorage
from node.behaviors import VolatileStorageInvalidate
from plumber import plumbing
@plumbing(VolatileStorageInvalidate, Adopt, DefaultInit, Nodify, OdictStorage)
class N(object):
    pass
n = N()
n[''] = N()
n['a'] = N()
n.invalidate(key='')
assert list(n.keys()) == ['a']
''')

seed('p11-cache-only-cached', 'P11', [('behaviors/cache.py', '''        else:
            for key in _keys(self):
                del self[key]
''', '''        else:
            cached = getattr(self, 'cache', None)
            for key in _keys(self):
                if cached and key not in cached:
                    continue
                del self[key]
''')],
     'Cache below Invalidate, with some children read and others not, and invalidation without key',
     'only cached children are dropped',
     '''
from node.base import OrderedNode
from node.behaviors import Cache, Invalidate
from plumber import plumbing
@plumbing(Invalidate)
class Plain(OrderedNode):
    cache = {'a': 1}
n = Plain()
n['a'] = Plain()
n['b'] = Plain()
n.invalidate()
assert list(n.keys()) == []
''')

seed('p12-invalidate-loads', 'P12', [('behaviors/cache.py', '''            if key in _keys(self):
                try:''', '''            if key in self:
                try:''')],
     'invalidating a key of a lazy node whose child was not created yet',
     'the factory is called without the child having been read',
     '''
from node.behaviors import Adopt, ChildFactory, DefaultInit, Nodify, OdictStorage
from node.behaviors import VolatileStorageInvalidate
from plumber import plumbing
calls = []
class C(object):
    def __init__(self):
        calls.append(1)
@plumbing(VolatileStorageInvalidate, Adopt, ChildFactory, DefaultInit, Nodify, OdictStorage)
class N(object):
    factories = {'c': C}
n = N()
n.invalidate(key='c')
assert not calls
''')

seed('p12-falsy-child', 'P12', [('behaviors/common.py', '''        try:
            child = _next(self, key)
        except KeyError:
            child = self.factories[key]()
            self[key] = child
        return child
''', '''        try:
            child = _next(self, key)
        except KeyError:
            child = None
        if not child and key in self.factories:
            child = self.factories[key]()
            self[key] = child
        elif child is None:
            raise KeyError(key)
        return child
''')],
     'a child which is falsy, created by a factory or assigned by the user',
     'the factory is called again on every read',
     '''
from node.behaviors import Adopt, ChildFactory, DefaultInit, Nodify, OdictStorage
from plumber import plumbing
@plumbing(Adopt, ChildFactory, DefaultInit, Nodify, OdictStorage)
class N(object):
    factories = {'c': list}
n = N()
assert n['c'] is n['c']
''')

seed('p13-prefix-inside', 'P13', [('behaviors/alias.py', 'return prefixed_key[len(prefix):]', "return prefixed_key.replace(prefix, '')")],
     'a key containing the prefix somewhere else',
     'unaliasing takes the prefix out everywhere',
     '''
from node.behaviors.alias import PrefixAliaser
a = PrefixAliaser('ab-')
assert a.unalias(a.alias('xab-y')) == 'xab-y'
''')

seed('p13-nonstrict-falsy', 'P13', [('behaviors/alias.py', '''        try:
            return ReverseMapping(self)[key]
        except KeyError as e:
            if not self.strict:
                return key
            raise e
''', '''        alias = ReverseMapping(self).get(key)
        if alias:
            return alias
        if not self.strict:
            return key
        raise KeyError(key)
''')],
     'a dictionary aliaser with an alias that is falsy',
     'the key is refused or passed through although it is listed',
     '''
from node.behaviors.alias import DictAliaser
a = DictAliaser([('', 'real'), ('x', 'other')])
assert a.alias('real') == ''
''')

seed('p14-iter-membership', 'P14', [('behaviors/alias.py', '''        for key in _next(self):
            try:
                if self.aliaser is not None:
                    yield self.aliaser.alias(key)
                else:
                    yield key
            except KeyError:
                if IEnumerableMapping.providedBy(self.aliaser):
                    # an enumerable aliaser whitelists, we skip non-listed keys
                    continue
                raise
''', '''        aliaser = self.aliaser
        enumerable = IEnumerableMapping.providedBy(aliaser)
        last = None
        for key in _next(self):
            try:
                last = aliaser.alias(key) if aliaser is not None else key
            except KeyError:
                # an enumerable aliaser whitelists, we skip non-listed keys
                if not enumerable:
                    raise
                if last is None:
                    continue
            yield last
''')],
     'an unlisted underlying key after a listed one',
     'the alias before the unlisted key is listed twice',
     '''
from node.base import OrderedNode
from node.behaviors import Alias
from node.behaviors.alias import DictAliaser
from plumber import plumbing
@plumbing(Alias)
class N(OrderedNode):
    aliaser = None
n = N()
for k in ('r1', 'hidden', 'r2'):
    n[k] = OrderedNode()
n.aliaser = DictAliaser([('a1', 'r1'), ('a2', 'r2')])
assert list(n) == ['a1', 'a2'], list(n)
''')

seed('p14-error-key', 'P14', [('behaviors/alias.py', '''        try:
            return _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)
''', '''        return _next(self, unaliased_key)
''')],
     'reading a missing entry through an alias different from the real key',
     'the error names the real key',
     '''
from node.base import OrderedNode
from node.behaviors import Alias
from node.behaviors.alias import PrefixAliaser
from plumber import plumbing
@plumbing(Alias)
class N(OrderedNode):
    aliaser = PrefixAliaser('p-')
try:
    N()['p-x']
except KeyError as e:
    assert e.args == ('p-x',), e.args
''')

seed('p15-added-on-failure', 'P15', [('behaviors/lifecycle.py', '''        _next(self, key, val)
        if self._notify_suppress:
            return
        objectEventNotify(self.events['added'](val, newParent=self,
                                               newName=key))
''', '''        try:
            _next(self, key, val)
        finally:
            if not self._notify_suppress:
                objectEventNotify(self.events['added'](val, newParent=self,
                                                       newName=key))
''')],
     'attaching a node which gets rejected',
     'an added event is announced for the failed edit',
     '''
import zope.component
from node.base import Node
from node.behaviors import Lifecycle
from node.interfaces import INodeAddedEvent, INode
from plumber import plumbing
@plumbing(Lifecycle)
class L(Node):
    pass
seen = []
def handler(ob, event):
    seen.append(event)
zope.component.provideHandler(handler, [INode, INodeAddedEvent])
root = L(name='root')
root['a'] = L()
dup = L()
dup.uuid = root['a'].uuid
del seen[:]
try:
    root['b'] = dup
except ValueError:
    pass
assert not seen
''')

seed('p15-suppress-tree', 'P15', [('behaviors/lifecycle.py', '''        self._notify_suppress = True
''', '''        cls = self.__class__
        suppressed = cls._notify_suppress
        cls._notify_suppress = True
        try:
            self[key]
        finally:
            cls._notify_suppress = suppressed
        self._notify_suppress = True
''')], 'nothing', 'x', 'assert 0')
SEEDS.pop()

seed('p15-detach-flag-on-node', 'P15', [('behaviors/lifecycle.py', '''        delnode = self[key]
        _next(self, key)
        if self._notify_suppress:
            return
''', '''        delnode = self[key]
        _next(self, key)
        if self._notify_suppress or \\
                getattr(self.__parent__, '_notify_suppress', False):
            return
'''), ('behaviors/lifecycle.py', '''        finally:
            self._notify_suppress = False
        objectEventNotify(self.events['detached'](node, oldParent=self,
                                                  oldName=key))
        return node
''', '''            objectEventNotify(self.events['detached'](node, oldParent=self,
                                                      oldName=key))
        finally:
            self._notify_suppress = False
        return node
''')],
     'a handler of the detached event that deletes or adds children of the container or of a child of it',
     'edits made by a handler of a detached event are not announced',
     '''
import zope.component
from node.base import OrderedNode
from node.behaviors import Lifecycle
from node.interfaces import INodeRemovedEvent, INodeDetachedEvent, INode
from plumber import plumbing
@plumbing(Lifecycle)
class L(OrderedNode):
    pass
seen = []
def removed(ob, event):
    seen.append(event.oldName)
def detached(ob, event):
    del event.oldParent['b']
zope.component.provideHandler(removed, [INode, INodeRemovedEvent])
zope.component.provideHandler(detached, [INode, INodeDetachedEvent])
root = L(name='root')
root['a'] = L()
root['b'] = L()
root.detach('a')
assert seen == ['b'], seen
''')

seed('p16-owner', 'P16', [('behaviors/lifecycle.py', '''        _next(self, key)
        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))
''', '''        _next(self, key)
        owner = getattr(self, 'context', self.__parent__)
        if owner._notify_suppress:
            return
        objectEventNotify(owner.events['modified'](owner))
''')],
     'attributes put on another node than the one they were created for, then an attribute deleted',
     'the modified event is announced for the former owner',
     '''
import zope.component
from node.base import AttributedNode
from node.behaviors import AttributesLifecycle, Lifecycle, NodeAttributes
from node.interfaces import INodeModifiedEvent, INode
from plumber import plumbing
@plumbing(AttributesLifecycle)
class A(NodeAttributes):
    pass
@plumbing(Lifecycle)
class L(AttributedNode):
    attributes_factory = A
seen = []
def handler(ob, event):
    seen.append(ob)
zope.component.provideHandler(handler, [INode, INodeModifiedEvent])
a = L(name='a')
b = L(name='b')
a.attrs['x'] = 1
attrs = a.attrs
b['__attrs__'] = attrs
del seen[:]
del b.attrs['x']
assert seen == [b], seen
''')

seed('p16-equal-value', 'P16', [('behaviors/lifecycle.py', '''        _next(self, key, val)
        if self.__parent__._notify_suppress:
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))
''', '''        known = self.keys()
        _next(self, key, val)
        if self.__parent__._notify_suppress:
            return
        if val is None and key not in known:
            # nothing was there, nothing is there
            return
        objectEventNotify(self.__parent__.events['modified'](self.__parent__))
''')],
     'a new attribute whose value is None',
     'no modified event',
     '''
import zope.component
from node.base import AttributedNode
from node.behaviors import AttributesLifecycle, Lifecycle, NodeAttributes
from node.interfaces import INodeModifiedEvent, INode
from plumber import plumbing
@plumbing(AttributesLifecycle)
class A(NodeAttributes):
    pass
@plumbing(Lifecycle)
class L(AttributedNode):
    attributes_factory = A
seen = []
def handler(ob, event):
    seen.append(ob)
zope.component.provideHandler(handler, [INode, INodeModifiedEvent])
a = L(name='a')
a.attrs['x'] = None
assert seen == [a], seen
''')

seed('p17-unbind-first', 'P17', [('behaviors/events.py', '''            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)
''', '''            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)
                    break
''')],
     'a subscriber bound to several events, unbound by subscriber only',
     'it stays bound to all but one event',
     '''
from node.events import EventDispatcher
d = EventDispatcher()
seen = []
def s(*args):
    seen.append(args)
for e in ('a', 'b', 'c'):
    d.register_event(e)
    d.bind(**{e: s})
d.unbind(subscriber=s)
for e in ('a', 'b', 'c'):
    d.dispatch(e, e)
assert not seen, seen
''')

seed('p17-unbind-event-late', 'P17', [('behaviors/events.py', '''            if event in self.__subscribers__:
                del self.__subscribers__[event]
''', '''            subscribers = self.__subscribers__.get(event, list())
            for bound in subscribers:
                subscribers.remove(bound)
''')],
     'unbinding an event with several subscribers',
     'every second subscriber stays bound',
     '''
from node.events import EventDispatcher
d = EventDispatcher()
seen = []
d.register_event('e')
d.bind(e=lambda: seen.append(1))
d.bind(e=lambda: seen.append(2))
d.unbind(event='e')
d.dispatch('e')
assert not seen, seen
''')

seed('p18-falsy-old', 'P18', [('behaviors/events.py', '''        old_value = storage.get(self.name, self.default)
''', '''        old_value = storage.get(self.name) or self.default
''')],
     'an attribute with a truthy default set to a falsy value and back to the default',
     'the second change is not announced',
     '''
from node.behaviors import EventAttribute, Events
from plumber import plumbing
@plumbing(Events)
class D(object):
    attr = EventAttribute(5)
seen = []
d = D()
d.bind(attr=seen.append)
d.attr = 0
d.attr = 5
assert seen == [0, 5], seen
''')

seed('p18-delete-suppressed-subscribers', 'P18', [('behaviors/events.py', '''        if self.always_dispatch or value != old_value:
            with _subscribers(self.subscribers):
                obj.dispatch(self.name, value)
''', '''        if value == old_value and type(value) is type(old_value) \\
                and not self.always_dispatch:
            return
        if old_value is UNSET and value is None:
            return
        with _subscribers(self.subscribers):
            obj.dispatch(self.name, value)
''')],
     'an attribute without default set to None',
     'the first assignment of None is not announced, and equal values of other types are',
     '''
from node.behaviors import EventAttribute, Events
from plumber import plumbing
@plumbing(Events)
class D(object):
    attr = EventAttribute()
seen = []
d = D()
d.bind(attr=seen.append)
d.attr = None
assert seen == [None], seen
''')

seed('p19-exit-exception', 'P19', [('behaviors/events.py', '''        self.data.suppress -= 1
        for event in self.events:
            self.data.events.remove(event)
''', '''        self.data.suppress -= 1
        if self.data.suppress:
            for event in self.events:
                self.data.events.remove(event)
        else:
            del self.data.events[-len(self.events):]
            for event in self.events:
                if event in self.data.events:
                    self.data.suppress += 1
'''
)], 'nothing', 'x', 'assert 0')
SEEDS.pop()

seed('p19-nested-same-event', 'P19', [('behaviors/events.py', '''        self.data.suppress -= 1
        for event in self.events:
            self.data.events.remove(event)
''', '''        self.data.suppress -= 1
        self.data.events[:] = [
            event for event in self.data.events if event not in self.events
        ]
''')],
     'two nested blocks suppressing the same event, and a dispatch after the inner one',
     'the event is dispatched although the outer block is still active',
     '''
from node.behaviors import suppress_events
from node.events import EventDispatcher
d = EventDispatcher()
seen = []
d.register_event('e')
d.bind(e=lambda: seen.append(1))
with suppress_events('e'):
    with suppress_events(['e', 'x']):
        d.dispatch('e')
    d.dispatch('e')
assert not seen
d.dispatch('e')
assert seen == [1]
''')

seed('p19-tuple', 'P19', [('behaviors/events.py', '''            if ALL_EVENTS in suppress_events.data.events:
                return
''', '''            if ALL_EVENTS in suppress_events.data.events[-1:]:
                return
''')],
     'a block suppressing a single event inside of one suppressing all',
     'other events are dispatched inside the inner block',
     '''
from node.behaviors import suppress_events
from node.events import EventDispatcher
d = EventDispatcher()
seen = []
d.register_event('e')
d.register_event('f')
d.bind(e=lambda: seen.append(1))
with suppress_events():
    with suppress_events('f'):
        d.dispatch('e')
assert not seen
''')

seed('p20-subscribers-global', 'P20', [('behaviors/events.py', '''    _attribute_subscribers.subscribers = subscribers
    yield
''', '''    _pending.append(subscribers)
    yield
'''), ('behaviors/events.py', '''@contextmanager
def _subscribers(subscribers):''', '''# subscribers of attributes which are about to be dispatched
_pending = list()


@contextmanager
def _subscribers(subscribers):'''), ('behaviors/events.py', '''        attribute_subscribers = _attribute_subscribers.subscribers
        _attribute_subscribers.subscribers = list()
''', '''        attribute_subscribers = _pending.pop() if _pending else list()
''')],
     'two threads assigning different attributes, switching between the announcement and the dispatch',
     'a subscriber of an attribute is called for an assignment in another thread',
     '''
import sys, threading
from node.behaviors import EventAttribute, Events
from plumber import plumbing
wrong = []
go = threading.Event()
class Slow(str):
    def __ne__(self, other):
        return True
    __hash__ = str.__hash__
@plumbing(Events)
class A(object):
    attr = EventAttribute('')
    @attr.subscriber
    def on_attr(self, value):
        if not isinstance(self, A):
            wrong.append(value)
@plumbing(Events)
class B(object):
    attr = EventAttribute('')
    @attr.subscriber
    def on_attr(self, value):
        if not isinstance(self, B):
            wrong.append(value)
def work(cls):
    ob = cls()
    for i in range(30000):
        if wrong:
            return
        ob.attr = Slow(i)
sys.setswitchinterval(1e-6)
threads = [threading.Thread(target=work, args=(c,)) for c in (A, B, A, B)]
for t in threads:
    t.start()
for t in threads:
    t.join()
assert not wrong, wrong[:3]
''')

seed('p20-visited-shared', 'P20', [('behaviors/fallback.py', '''                value = _to_root(self, path=self.path + [key], visited=set())
                if value is _marker:
                    raise
''', '''                try:
                    value = _to_root(
                        self,
                        path=self.path + [key],
                        visited=_visited
                    )
                finally:
                    _visited.clear()
                if value is _marker:
                    raise
'''), ('behaviors/fallback.py', '''_marker = dict()
''', '''_marker = dict()
_visited = set()
''')],
     'two threads falling back below the same nodes at the same time',
     'a lookup in one thread skips what a lookup in another thread has visited',
     '''
import sys, threading
from node.base import OrderedNode
from node.behaviors import Fallback
from plumber import plumbing
@plumbing(Fallback)
class F(OrderedNode):
    pass
class G(F):
    fallback_key = 'default'
root = G(name='root')
root['default'] = F()
n = root['default']
m = root['mine'] = F()
for i in range(12):
    n['s'] = F()
    n = n['s']
    m['s'] = F()
    m = m['s']
n['x'] = F()
failed = []
def work():
    for i in range(3000):
        if failed:
            return
        try:
            m['x']
        except Exception as e:
            failed.append(e)
sys.setswitchinterval(1e-6)
threads = [threading.Thread(target=work) for i in range(4)]
for t in threads:
    t.start()
for t in threads:
    t.join()
assert not failed, failed
''')

seed('p21-other-exception', 'P21', [('behaviors/fallback.py', '''    def __exit__(self, type, value, traceback):
        self.data.processing -= 1
''', '''    def __exit__(self, type, value, traceback):
        if type is None or issubclass(type, KeyError):
            self.data.processing -= 1
''')],
     'a lookup which ends with another error than KeyError',
     'no later lookup falls back any more',
     '''
from node.base import OrderedNode
from node.behaviors import Fallback
from plumber import plumbing
broken = []
@plumbing(Fallback)
class F(OrderedNode):
    pass
class G(F):
    fallback_key = 'default'
class Broken(F):
    def get(self, key, default=None):
        if broken:
            raise ValueError(key)
        return super(Broken, self).get(key, default)
root = G(name='root')
root['default'] = Broken()
root['default']['x'] = F()
root['default']['x']['leaf'] = F()
root['x'] = F()
assert root['x']['leaf'] is root['default']['x']['leaf']
broken.append(1)
try:
    root['x']['leaf']
except ValueError:
    pass
del broken[:]
assert root['x']['leaf'] is root['default']['x']['leaf']
''')

seed('p21-next-ancestor', 'P21', [('behaviors/fallback.py', '''        if new_current is _marker:
            return _to_root(current, path=path, visited=visited)
''', '''        if new_current is _marker:
            if node in visited:
                return _marker
            visited.add(node)
            return _to_root(node.__parent__, path=path, visited=visited)
''')],
     'a fallback child lacking the subpath whose own ancestors inside of the fallback tree have a fallback',
     'the search skips fallbacks',
     '''
from node.base import OrderedNode
from node.behaviors import Fallback
from plumber import plumbing
@plumbing(Fallback)
class F(OrderedNode):
    pass
class G(F):
    fallback_key = 'default'
root = G(name='root')
root['default'] = G()
root['default']['default'] = F()
root['default']['default']['x'] = F()
root['default']['default']['x']['leaf'] = F()
root['default']['x'] = F()
root['x'] = F()
# found through the fallback of the fallback tree
assert root['x']['leaf'].path == ['root', 'default', 'default', 'x', 'leaf']
''')

seed('p22-release-exception', 'P22', [('locking.py', '''        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()
        return result
''', '''        try:
            result = fn(self, *args, **kwargs)
        except Exception:
            lock.release()
            raise
        lock.release()
        return result
''')],
     'a locked method left by an exception which is no Exception, like KeyboardInterrupt or GeneratorExit',
     'the lock is never released',
     '''
import threading
from node.base import OrderedNode
from node.locking import TreeLock, locktree
class N(OrderedNode):
    @locktree
    def stop(self):
        raise KeyboardInterrupt()
n = N()
try:
    n.stop()
except KeyboardInterrupt:
    pass
got = []
def other():
    with TreeLock(n):
        got.append(1)
t = threading.Thread(target=other)
t.daemon = True
t.start()
t.join(5)
assert got
''')

seed('p23-none-attribute', 'P23', [('serializer.py', '''    for attr, value in attrs.items():
        node.attrs[attr] = decoder.decode(value)
''', '''    for attr, value in attrs.items():
        if value is not None:
            node.attrs[attr] = decoder.decode(value)
''')],
     'an attribute which is None',
     'the attribute is missing after deserialization',
     '''
from node.base import AttributedNode
from node.serializer import deserialize, serialize
n = AttributedNode(name='n')
n.attrs['none'] = None
assert list(deserialize(serialize(n)).attrs.items()) == [('none', None)]
''')

seed('p23-list-parent', 'P23', [('serializer.py', '''            return [self.decode(it, parent=parent) for it in data]
''', '''            nodes = [self.decode(it) for it in data]
            if parent is not None:
                for node in nodes:
                    parent.setdefault(node.name, node)
            return nodes
''')],
     'a list of trees deserialized with a parent which has a child of one of the names',
     'a tree is not attached',
     '''
from node.base import OrderedNode
from node.serializer import deserialize, serialize
a, b = OrderedNode(name='a'), OrderedNode(name='b')
b['c'] = OrderedNode()
root = OrderedNode(name='root')
root['b'] = OrderedNode()
res = deserialize(serialize([a, b]), root=root)
assert root['b'] is res[1]
assert 'c' in root['b']
''')

seed('p24-simple-name', 'P24', [('serializer.py', '''            data['name'] = ob.name
''', '''            if ob.name or not self.simple_mode:
                data['name'] = ob.name
''')],
     'a node with an empty name in simple mode',
     'the name is missing in the data',
     '''
import json
from node.base import OrderedNode
from node.serializer import serialize
n = OrderedNode(name='n')
n[''] = OrderedNode()
data = json.loads(serialize(n, simple_mode=True))
assert data['children'][0]['name'] == ''
''')

seed('p24-include-class-leaks', 'P24', [('serializer.py', '''        def encoder_factory(**kw):
            kw['simple_mode'] = True
            kw['include_class'] = include_class
            return NodeEncoder(**kw)
''', '''        def encoder_factory(**kw):
            if include_class != NodeEncoder.include_class:
                kw['include_class'] = include_class
            kw['simple_mode'] = True
            return NodeEncoder(**kw)
'''), ('serializer.py', '''        if 'include_class' in kw:
            self.include_class = kw.pop('include_class')
''', '''        if 'include_class' in kw:
            self.__class__.include_class = kw.pop('include_class')
''')],
     'nothing', 'x', 'assert 0')
SEEDS.pop()

seed('p24-same-child-once', 'P24', [('serializer.py', '''    for child in node.values():
        children.append(encoder.default(child))
    if children:
        data['children'] = children
''', '''    for child in node.values():
        child_data = encoder.default(child)
        if child_data not in children:
            children.append(child_data)
    if children:
        data['children'] = children
''')],
     'nodes without names of their own below a not adopting node, giving equal data',
     'only one of several nodes with equal data is listed',
     '''
import json
from node.behaviors import DefaultInit, Nodify, OdictStorage
from node.serializer import serialize
from plumber import plumbing
@plumbing(DefaultInit, Nodify, OdictStorage)
class N(object):
    pass
n = N(name='n')
n['a'] = N(name='x')
n['b'] = N(name='x')
assert len(json.loads(serialize(n))['__node__']['children']) == 2
''')

seed('p25-empty-shared', 'P25', [('utils.py', '''        if isinstance(arg, (list, tuple)):
            arg = arg.__class__(map(self.decode, arg))
''', '''        if not arg:
            # nothing to decode
            return arg if arg != b'' else u''
        if isinstance(arg, (list, tuple)):
            arg = arg.__class__(map(self.decode, arg))
''')],
     'an empty list or dictionary inside of the data, changed after decoding',
     'input and result share the container',
     '''
from node.utils import decode
data = {'a': []}
res = decode(data)
res['a'].append(1)
assert data == {'a': []}
''')

seed('p25-keys', 'P25', [('utils.py', '''        elif INode.providedBy(arg):
            arg = dict([self.encode(t) for t in iteritems(arg)])
        return arg
''', '''        elif INode.providedBy(arg):
            arg = dict([(k, self.encode(v)) for k, v in iteritems(arg)])
        return arg
''')],
     'encoding a node with text keys',
     'the keys of nodes stay text',
     '''
from node.base import OrderedNode
from node.utils import encode
n = OrderedNode()
n[u'k'] = OrderedNode()
assert encode(n) == {b'k': {}}
''')

seed('p26-attrs-memo', 'P26', [('behaviors/attributes.py', '''        try:
            attrs = self.nodespaces['__attrs__']
        except KeyError:
            attrs = self.nodespaces['__attrs__'] = \\
                self.attributes_factory(name='__attrs__', parent=self)
        if self''', '''        attrs = self.__dict__.get('_attrs')
        if attrs is None:
            try:
                attrs = self.nodespaces['__attrs__']
            except KeyError:
                attrs = self.nodespaces['__attrs__'] = \\
                    self.attributes_factory(name='__attrs__', parent=self)
            self.__dict__['_attrs'] = attrs
        if self''')],
     'reading attributes, then placing other attributes under the reserved key',
     'the former attributes are still given',
     '''
from node.base import AttributedNode
from node.behaviors import NodeAttributes
n = AttributedNode(name='n')
n.attrs['a'] = 1
other = NodeAttributes()
other['b'] = 2
n['__attrs__'] = other
assert n.attrs is other
''')

seed('p26-short-reserved', 'P26', [('behaviors/nodespace.py', '''    def __setitem__(_next, self, key, val):
        # blend in our nodespaces as children, with name __<name>__
        if key.startswith('__') and key.endswith('__'):''', '''    def __setitem__(_next, self, key, val):
        # blend in our nodespaces as children, with name __<name>__
        if key[:2] == key[-2:] == '__' and key.strip('_'):''')],
     'a reserved key consisting of underscores only',
     'it is stored as child but read as nodespace',
     '''
from node.base import OrderedNode
from node.base import AttributedNode
n = AttributedNode(name='n')
c = AttributedNode()
n['____'] = c
assert n['____'] is c
assert '____' not in list(n.keys())
''')

seed('p27-case', 'P27', [('behaviors/nodify.py', 'key=lambda x: UNICODE_TYPE(x[0])', 'key=lambda x: UNICODE_TYPE(x[0]).lower()')],
     'keys of an unordered node which differ in case only, or mixed case keys',
     'the rendering depends on the order of insertion',
     '''
from node.base import BaseNode
def tree(keys):
    n = BaseNode(name='n')
    for k in keys:
        n[k] = BaseNode()
    return n.treerepr()
assert tree(['a', 'A']) == tree(['A', 'a'])
''')

seed('p27-indent-prefix', 'P27', [('behaviors/nodify.py', '''                res += '{}{}: {}\\n'.format(
                    (indent + 2) * prefix,''', '''                res += '{}{}: {}\\n'.format(
                    indent * prefix + '  ',''')],
     'plain values rendered with another prefix than one space',
     'values are not indented like nodes',
     '''
from node.base import OrderedNode
class N(OrderedNode):
    allow_non_node_childs = True
n = N(name='n')
n['v'] = 1
assert n.treerepr(prefix='-').split('\\n')[1] == '--v: 1'
''')

seed('p28-subclass', 'P28', [('behaviors/nodify.py', 'isinstance(node, interface):', 'node.__class__ is interface:')],
     'acquiring by a base class of the class of an ancestor',
     'the ancestor is not found',
     '''
from node.base import OrderedNode
class N(OrderedNode):
    pass
n = N(name='n')
n['a'] = OrderedNode()
assert n['a'].acquire(OrderedNode) is n
''')

seed('p28-filter-class', 'P28', [('behaviors/nodify.py', '''            if interface.providedBy(val):
                yield val
''', '''            if interface.implementedBy(val.__class__):
                yield val
''')],
     'an interface provided directly by a child',
     'the child is not found by filtering',
     '''
from node.base import OrderedNode
from zope.interface import Interface, alsoProvides
class IX(Interface):
    pass
n = OrderedNode(name='n')
n['a'] = OrderedNode()
alsoProvides(n['a'], IX)
assert n.filteredvalues(IX) == [n['a']]
''')

seed('p29-keyerror', 'P29', [('behaviors/common.py', '''    @finalize
    def __delitem__(self, key):
        raise NotImplementedError('read-only')

    @finalize
    def __getitem__(self, key):''', '''    @finalize
    def __delitem__(self, key):
        raise ReadOnlyError('read-only')

    @finalize
    def __getitem__(self, key):'''), ('behaviors/common.py', '''@implementer(IFixedChildren)
''', '''class ReadOnlyError(NotImplementedError, KeyError):

    __str__ = NotImplementedError.__str__


@implementer(IFixedChildren)
''')],
     'pop of a fixed child with a default',
     'it is not refused but gives the default, as if the child were missing',
     '''
from node.behaviors import FixedChildren, Nodify
from plumber import plumbing
@plumbing(Nodify, FixedChildren)
class N(object):
    fixed_children_factories = [('a', list.__class__('C', (), {}))]
n = N()
try:
    n.pop('a', None)
except Exception:
    pass
else:
    raise AssertionError('not refused')
''')

seed('p29-shared', 'P29', [('behaviors/common.py', '''        self._children = odict()
        for key, factory in self.fixed_children_factories:
            child = factory()
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
''', '''        self._children = odict()
        created = dict()
        for key, factory in self.fixed_children_factories:
            if factory not in created:
                created[factory] = factory()
            child = created[factory]
            child.__name__ = key
            child.__parent__ = self
            self._children[key] = child
''')],
     'two keys configured with the same factory',
     'both keys hold the same child, named by the last one',
     '''
from node.behaviors import FixedChildren, Nodify
from plumber import plumbing
class C(object):
    pass
@plumbing(Nodify, FixedChildren)
class N(object):
    fixed_children_factories = [('a', C), ('b', C)]
n = N()
assert n['a'] is not n['b']
assert n['a'].__name__ == 'a'
''')

seed('p31-context-attribute', 'P31', [('utils.py', '''    def __setattr__(self, name, value):
        context = object.__getattribute__(self, 'context')
        context[name] = value
''', '''    def __setattr__(self, name, value):
        context = object.__getattribute__(self, 'context')
        if name in getattr(context, '__dict__', ()):
            setattr(context, name, value)
        else:
            context[name] = value
''')],
     'writing a name which is an attribute of the mapping object itself',
     'the attribute of the mapping is changed instead of the item',
     '''
from node.base import AttributedNode
n = AttributedNode(name='n')
n.attribute_access_for_attrs = True
n.attrs.context = 'c'
assert n.attrs['context'] == 'c'
''')

seed('p31-getattr-falsy', 'P31', [('utils.py', '''        try:
            return context[name]
        except KeyError:
            raise AttributeError(name)
''', '''        value = context.get(name)
        if value is None:
            raise AttributeError(name)
        return value
''')],
     'reading an item which is None as attribute',
     'AttributeError although the item is there',
     '''
from node.utils import AttributeAccess
assert AttributeAccess({'a': None}).a is None
''')

seed('p32-falsy-key', 'P32', [('utils.py', '''        try:
            return self[value]
        except KeyError:
            return default

    def __contains__(self, value):
        for key in self.context:
            val = self.context[key]
            if val == value:
                return True
        return False
''', '''        for key in self.context:
            if self.context[key] == value:
                return key or default
        return default

    def __contains__(self, value):
        for key in self.context:
            val = self.context[key]
            if val == value:
                return True
        return False
''')],
     'looking up a value held by a falsy key, with a default',
     'the default is given although the value is known',
     '''
from node.utils import ReverseMapping
assert ReverseMapping({0: 'a'}).get('a', 'none') == 0
''')

seed('p32-unhashable', 'P32', [('utils.py', '''        for key in self.context:
            val = self.context[key]
            if val == value:
                return True
        return False
''', '''        return value in set(self.keys())
''')],
     'testing a mapping which holds an unhashable value',
     'TypeError',
     '''
from node.utils import ReverseMapping
assert 1 in ReverseMapping({'a': [1], 'b': 1})
''')

# noticed by the existing tests, or not realistic
DROP = '''p01-get-falsy p02-setdefault-unadopted p04-swap-order p04-insertlast-neighbour p05-detach-grandchild
p07-detach-index p10-none-not-cached p10-set-keeps-cached p11-cache-only-cached p14-iter-membership p14-error-key
p17-unbind-first p17-unbind-event-late p21-other-exception p21-next-ancestor p25-keys p27-indent-prefix
p28-filter-class'''.split()
SEEDS[:] = [s for s in SEEDS if s['id'] not in DROP]

seed('p02-falsy-ancestor', 'P02', [('utils.py', 'while obj is not None:', 'while obj:')],
     'an ancestor whose class says it is false when empty or in general',
     'path and root end below an ancestor which is considered false',
     '''
import node.behaviors
from node.base import OrderedNode
class Quiet(OrderedNode):
    def __bool__(self):
        return False
root = Quiet(name='root')
root['a'] = OrderedNode()
assert root['a'].root is root
assert root['a'].path == ['root', 'a']
''')

seed('p04-falsy-name', 'P04', [('behaviors/order.py', 'if node.name is None:', 'if not node.name:')],
     'inserting a node named by the empty string or by 0',
     'a node with a name is refused as nameless',
     '''
from node.base import OrderedNode
from node.behaviors import Order
from plumber import plumbing
@plumbing(Order)
class N(OrderedNode):
    pass
n = N()
n.insertfirst(N(name='a'))
n.insertfirst(N(name=''))
assert list(n.keys()) == ['', 'a']
''')

seed('p04-swap-silent', 'P04', [('behaviors/order.py', '''        self.storage.swap(node_a.name, node_b.name)''',
'''        name_a, name_b = node_a.name, node_b.name
        if name_a in self.storage and name_b in self.storage:
            self.storage.swap(name_a, name_b)''')],
     'swapping with a node which is no child',
     'the swap is ignored silently instead of refused',
     '''
from node.base import OrderedNode
from node.behaviors import Order
from plumber import plumbing
@plumbing(Order)
class N(OrderedNode):
    pass
n = N()
n['a'] = N()
n['b'] = N()
try:
    n.swap(n['a'], N(name='c'))
except (KeyError, ValueError):
    pass
else:
    raise AssertionError('not refused')
''')

seed('p04-swap-values', 'P04', [('behaviors/order.py', '''        self.storage.swap(node_a.name, node_b.name)''',
'''        keys = self.keys()
        index_a = keys.index(node_a.name)
        index_b = keys.index(node_b.name)
        if index_a > index_b:
            node_a, node_b = node_b, node_a
            index_a, index_b = index_b, index_a
        storage = self.storage
        storage.movebefore(node_b.name, node_a.name)
        if index_b - index_a > 1:
            storage.moveafter(keys[index_b - 1], node_b.name)''')],
     'swapping children with another one between them, in one direction',
     'children end up in a wrong place',
     '''
from node.base import OrderedNode
from node.behaviors import Order
from plumber import plumbing
@plumbing(Order)
class N(OrderedNode):
    pass
n = N()
for k in 'abcde':
    n[k] = N()
n.swap(n['b'], n['d'])
assert list(n.keys()) == list('adcbe'), list(n.keys())
n.swap(n['b'], n['c'])
assert list(n.keys()) == list('adbce'), list(n.keys())
''')

seed('p05-get-falsy', 'P05', [('behaviors/reference.py', '''        return self._index.get(int(key), default)''',
'''        return self._index.get(int(key)) or default''')],
     'an indexed node whose class makes it false',
     'get on the index does not give a node item access gives',
     '''
from node.base import Node
class Quiet(Node):
    def __bool__(self):
        return False
root = Node()
root['a'] = Quiet()
a = root['a']
assert root.index.get(a.uuid) is a
''')

seed('p07-reattach-plain', 'P07', [('behaviors/reference.py', '''                # non-Node values are a dead end, no magic for them
                continue
            self._index[int(node.uuid)] = node''', '''                # non-Node values are a dead end, no magic for them
                return
            self._index[int(node.uuid)] = node''')],
     'detaching a subtree in which a plain value comes before a node',
     'nodes after the plain value cannot be found in the detached tree',
     '''
from node.base import Node
class N(Node):
    allow_non_node_childs = True
root = N()
root['a'] = N()
root['a']['x'] = 1
root['a']['y'] = N()
y = root['a']['y']
a = root.detach('a')
assert a.node(y.uuid) is y
''')

seed('p10-none', 'P10', [('behaviors/cache.py', '''        try:
            return cache[key]
        except KeyError:
            cache[key] = _next(self, key)
        return cache[key]''', '''        child = cache.get(key)
        if child is None:
            child = cache[key] = _next(self, key)
        return child''')],
     'a backend which gives None for a key, read twice',
     'the backend is consulted again for every read',
     '''
from node.behaviors import Cache, Invalidate, Nodify
from plumber import plumbing
class Base(object):
    calls = 0
    def __getitem__(self, key):
        self.calls += 1
        return None
    def __setitem__(self, key, val):
        pass
    def __delitem__(self, key):
        pass
    def __iter__(self):
        return iter(['a'])
@plumbing(Nodify, Cache, Invalidate)
class N(Base):
    pass
n = N()
n['a'], n['a'], n['a']
assert n.calls == 1, n.calls
''')

seed('p10-invalidate-key', 'P10', [('behaviors/cache.py', '''        if key is not None:
            try:
                del cache[key]
            except KeyError:
                pass
        else:''', '''        if key:
            try:
                del cache[key]
            except KeyError:
                pass
        elif key is None:''')],
     'invalidating a key which is considered false, the empty string for one',
     'the old child is served after invalidation',
     '''
from node.behaviors import Cache, Nodify
from plumber import plumbing
data = {'': 1, 'a': 1}
class Base(object):
    def __getitem__(self, key):
        return data[key]
    def __setitem__(self, key, val):
        data[key] = val
    def __delitem__(self, key):
        del data[key]
    def __iter__(self):
        return iter(data)
    def invalidate(self, key=None):
        pass
@plumbing(Nodify, Cache)
class N(Base):
    pass
n = N()
n[''], n['a']
data[''] = data['a'] = 2
n.invalidate('a')
assert n['a'] == 2
n.invalidate('')
assert n[''] == 2
''')

seed('p11-plain-kept', 'P11', [('behaviors/cache.py', '''            for key in _keys(self):
                del self[key]''', '''            for key in _keys(self):
                if INode.providedBy(self[key]):
                    del self[key]'''), ('behaviors/cache.py', '''from node.interfaces import IInvalidate
''', '''from node.interfaces import IInvalidate
from node.interfaces import INode
''')],
     'invalidating everything below a node holding plain values too',
     'plain values survive the invalidation',
     '''
from node.base import OrderedNode
from node.behaviors import Invalidate
from plumber import plumbing
@plumbing(Invalidate)
class N(OrderedNode):
    allow_non_node_childs = True
n = N()
n['a'] = 1
n['b'] = N()
n.invalidate()
assert list(n.keys()) == []
''')

seed('p14-del-key', 'P14', [('behaviors/alias.py', '''        try:
            _next(self, unaliased_key)
        except KeyError:
            raise KeyError(key)''', '''        _next(self, unaliased_key)''')],
     'deleting a missing entry through an alias',
     'the error names the key of the underlying mapping',
     '''
from node.base import OrderedNode
from node.behaviors import Alias
from node.behaviors.alias import PrefixAliaser
from plumber import plumbing
@plumbing(Alias)
class N(OrderedNode):
    aliaser = PrefixAliaser('x-')
n = N()
try:
    del n['x-a']
except KeyError as e:
    assert e.args == ('x-a',), e.args
''')

seed('p14-contains', 'P14', [('behaviors/alias.py', '''    @plumb
    def __iter__(_next, self):
        for key in _next(self):''', '''    @plumb
    def __contains__(_next, self, key):
        if IEnumerableMapping.providedBy(self.aliaser):
            # no need to ask the storage
            return key in self.aliaser
        return _next(self, key)

    @plumb
    def __iter__(_next, self):
        for key in _next(self):''')],
     'testing for an alias which is listed but has no entry',
     'the membership test disagrees with listing and item access',
     '''
from node.base import OrderedNode
from node.behaviors import Alias
from node.behaviors.alias import DictAliaser
from plumber import plumbing
@plumbing(Alias)
class N(OrderedNode):
    aliaser = DictAliaser([('a', 'real')])
n = N()
assert 'a' not in n
n['a'] = N()
assert 'a' in n
''')

seed('p17-bound-methods', 'P17', [('behaviors/events.py', '''            if subscriber not in subscribers:
                subscribers.append(subscriber)''', '''            if not any(sub is subscriber for sub in subscribers):
                subscribers.append(subscriber)''')],
     'binding a method of an object twice',
     'the method is called twice',
     '''
import node.behaviors
from node.behaviors import Events
from plumber import plumbing
@plumbing(Events)
class D(object):
    __events__ = ['e']
class S(object):
    called = 0
    def handle(self):
        self.called += 1
d = D()
s = S()
d.bind(e=s.handle)
d.bind(e=s.handle)
d.dispatch('e')
assert s.called == 1, s.called
''')

seed('p17-register-class', 'P17', [('behaviors/events.py', '''        if event not in self.__events__:
            self.__events__.append(event)''', '''        events = self.__class__.__events__
        if event not in events:
            events.append(event)
        self.__events__ = events''')],
     'an event registered on one instance, bound on another one',
     'instances share registered events',
     '''
import node.behaviors
from node.behaviors import Events, UnknownEvent
from plumber import plumbing
@plumbing(Events)
class D(object):
    pass
a = D()
b = D()
a.register_event('e')
a.bind(e=print)
try:
    b.bind(e=print)
except UnknownEvent:
    pass
else:
    raise AssertionError('not refused')
''')

seed('p17-unbind-empties', 'P17', [('behaviors/events.py', '''            subscribers = self.__subscribers__.get(event, list())
            if subscriber in subscribers:
                subscribers.remove(subscriber)''', '''            subscribers = self.__subscribers__.pop(event, list())
            if subscriber in subscribers:
                subscribers.remove(subscriber)
                self.__subscribers__[event] = subscribers''')],
     'unbinding a subscriber which is not bound to the event, while others are',
     'the other subscribers of the event are lost',
     '''
import node.behaviors
from node.behaviors import Events
from plumber import plumbing
@plumbing(Events)
class D(object):
    __events__ = ['e']
called = []
def a():
    called.append('a')
def b():
    called.append('b')
d = D()
d.bind(e=a)
d.unbind(event='e', subscriber=b)
d.dispatch('e')
assert called == ['a'], called
''')

seed('p20-processing-shared', 'P20', [('behaviors/fallback.py', '''    def __enter__(self):
        self.data.processing += 1
        return self.data.processing

    def __exit__(self, type, value, traceback):
        self.data.processing -= 1
''', '''    _level = [-1]

    def __enter__(self):
        self._level[0] += 1
        return self._level[0]

    def __exit__(self, type, value, traceback):
        self._level[0] -= 1
''')],
     'two threads in fallback lookups at the same time',
     'a lookup fails because another thread is searching',
     '''
import sys, threading
import node.behaviors
from node.base import OrderedNode
from node.behaviors import Fallback
from plumber import plumbing
@plumbing(Fallback)
class F(OrderedNode):
    pass
failed = []
def work():
    root = F(name='root')
    root.fallback_key = 'en'
    root['en'] = F()
    root['de'] = F()
    root['en']['x'] = F()
    for i in range(6000):
        if failed:
            return
        try:
            root['de']['x']
        except Exception as e:
            failed.append(e)
sys.setswitchinterval(1e-6)
threads = [threading.Thread(target=work) for i in range(4)]
for t in threads:
    t.start()
for t in threads:
    t.join()
assert not failed, failed
''')

seed('p21-nested', 'P21', [('behaviors/fallback.py', '''            return _to_root(current, path=path, visited=visited)
        current = new_current''', '''            return _to_root(node, path=path, visited=visited)
        current = new_current''')],
     'a fallback tree with a fallback of its own further down',
     'fallbacks inside of fallback trees are not followed',
     '''
import node.behaviors
from node.base import OrderedNode
from node.behaviors import Fallback
from plumber import plumbing
@plumbing(Fallback)
class F(OrderedNode):
    pass
root = F(name='root')
root.fallback_key = 'en'
root['de'] = F()
root['de']['b'] = F()
root['en'] = F()
root['en'].fallback_key = 'a'
root['en']['a'] = F()
root['en']['a']['x'] = F()
root['en']['b'] = F()
assert root['de']['b']['x'] is root['en']['a']['x']
''')

seed('p21-level', 'P21', [('behaviors/fallback.py', '''                if count > 0:
                    raise
                value''', '''                if count > len(self.path):
                    raise
                value''')],
     'lookups of missing keys while searching, deeper in the tree',
     'lookups made while searching start searches of their own',
     '''
import node.behaviors
from node.base import OrderedNode
from node.behaviors import Fallback
from plumber import plumbing
calls = []
@plumbing(Fallback)
class F(OrderedNode):
    pass
def build():
    root = F(name='root')
    root.fallback_key = 'en'
    for lang in ('en', 'de'):
        root[lang] = F()
        root[lang].fallback_key = 'x'
        for k in ('x', 'y'):
            root[lang][k] = F()
            root[lang][k].fallback_key = 'z'
    root['en']['x']['z'] = F()
    return root
import sys
count = [0]
def trace(frame, event, arg):
    if event == 'call' and frame.f_code.co_name == '_to_root':
        count[0] += 1
root = build()
sys.setprofile(trace)
try:
    root['de']['y']['q']
except KeyError as e:
    assert e.args == ('q',)
finally:
    sys.setprofile(None)
assert count[0] < 20, count
''')

seed('p21-path-names', 'P21', [('behaviors/fallback.py', '''    for name in path[len(current.path):]:''',
'''    for name in [it for it in path if it not in current.path]:''')],
     'a name which occurs twice on the way to the requested key',
     'the wrong subpath is looked up in the fallback tree',
     '''
import node.behaviors
from node.base import OrderedNode
from node.behaviors import Fallback
from plumber import plumbing
@plumbing(Fallback)
class F(OrderedNode):
    pass
root = F(name='root')
root.fallback_key = 'en'
for lang in ('en', 'de'):
    root[lang] = F()
    root[lang]['en'] = F()
root['en']['en']['x'] = F()
assert root['de']['en']['x'] is root['en']['en']['x']
''')

seed('p22-class-lock', 'P22', [('locking.py', '''        self.lock = getattr(root, '_treelock', None)
        if self.lock is None:
            # all''', '''        self.lock = getattr(type(root), '_treelock', None)
        if self.lock is None:
            # all'''), ('locking.py', '''                    self.lock = root._treelock = RLock()''',
            '''                    self.lock = type(root)._treelock = RLock()''')],
     'two trees whose roots are of the same type locked by two threads',
     'the locks of different trees block each other',
     '''
import threading
import node.behaviors
from node.base import OrderedNode
from node.locking import TreeLock
a = OrderedNode()
b = OrderedNode()
done = threading.Event()
def work():
    with TreeLock(b):
        done.set()
with TreeLock(a):
    t = threading.Thread(target=work)
    t.daemon = True
    t.start()
    assert done.wait(10)
t.join()
''')

seed('p25-nested-codec', 'P25', [('utils.py', '''        if isinstance(arg, (list, tuple)):
            arg = arg.__class__(map(self.decode, arg))''', '''        if isinstance(arg, (list, tuple)):
            arg = arg.__class__(map(decode, arg))''')],
     'a codec with an encoding of its own decoding nested lists',
     'values inside of lists are decoded with another encoding',
     '''
from node.utils import StrCodec
codec = StrCodec(encoding='latin-1')
assert codec.decode([codec.encode(u'\\xe4')]) == [u'\\xe4']
''')

seed('p25-subclass', 'P25', [('utils.py', '''        elif isinstance(arg, bytes):
            try:
                arg = arg.decode(self._encoding)
            except UnicodeDecodeError:''', '''        elif type(arg) is bytes and not arg.isalnum():
            try:
                arg = arg.decode(self._encoding)
            except UnicodeDecodeError:''')],
     'x', 'x', 'assert 0')
SEEDS.pop()

seed('p27-mixed-keys', 'P27', [('behaviors/nodify.py', 'key=lambda x: UNICODE_TYPE(x[0]))', 'key=lambda x: x[0])')],
     'an unordered node with keys of different types',
     'rendering fails',
     '''
from node.base import BaseNode
n = BaseNode()
n['a'] = BaseNode()
n[1] = BaseNode()
n.treerepr()
''')

seed('p27-prefix-below', 'P27', [('behaviors/nodify.py', '''value.treerepr(indent=indent + 2, prefix=prefix)''',
'''value.treerepr(indent + 2)''')],
     'rendering with a prefix of its own, at least two levels below the top',
     'the prefix is used for the first levels only',
     '''
from node.base import OrderedNode
n = OrderedNode(name='n')
n['a'] = OrderedNode()
assert '\\n__<' in n.treerepr(prefix='_')
''')

seed('p28-direct', 'P28', [('behaviors/nodify.py', '''                    interface.providedBy(node)) or \\''',
'''                    interface.implementedBy(type(node))) or \\''')],
     'an ancestor which provides the interface by itself, not by its class',
     'the ancestor is not found',
     '''
from node.base import OrderedNode
from zope.interface import Interface, alsoProvides
class IMark(Interface):
    pass
root = OrderedNode()
root['a'] = OrderedNode()
root['a']['b'] = OrderedNode()
alsoProvides(root, IMark)
assert root['a']['b'].acquire(IMark) is root
''')

seed('p31-class-attribute', 'P31', [('utils.py', '''        context = object.__getattribute__(self, 'context')
        context[name] = value

    def __getitem__''', '''        context = object.__getattribute__(self, 'context')
        if hasattr(type(context), name):
            setattr(context, name, value)
            return
        context[name] = value

    def __getitem__''')],
     'writing an attribute named like something of the class of the mapping',
     'the write goes to the mapping object instead of its item',
     '''
from node.base import BaseNode
class N(BaseNode):
    allow_non_node_childs = True
    title = 'nothing'
n = N()
access = n.as_attribute_access()
access.title = 'x'
assert n['title'] == 'x'
''')

seed('p24-kw-class', 'P24', [('serializer.py', '''        if 'simple_mode' in kw:
            self.simple_mode = kw.pop('simple_mode')
        if 'include_class' in kw:
            self.include_class = kw.pop('include_class')''', '''        for name in ('simple_mode', 'include_class'):
            if name in kw:
                setattr(type(self), name, kw.pop(name))''')],
     'serializing in simple mode, then in normal mode', 'the mode stays',
     '''
import node.behaviors
from node.base import OrderedNode
from node.serializer import serialize
n = OrderedNode(name='n')
a = serialize(n)
serialize(n, simple_mode=True)
assert serialize(n) == a
''')

seed('p23-attr-order', 'P23', [('serializer.py', '''    for name, child in node_attrs.items():
        attrs[name] = encoder.default(child)''', '''    for name, child in sorted(node_attrs.items(), key=lambda it: it[0]):
        attrs[name] = encoder.default(child)''')],
     'attributes set in an order which is not the alphabetical one',
     'the order of attributes is not reproduced',
     '''
import node.behaviors
from node.base import AttributedNode
from node.serializer import serialize, deserialize
n = AttributedNode(name='n')
n.attrs['b'] = 1
n.attrs['a'] = 2
assert list(deserialize(serialize(n)).attrs.keys()) == ['b', 'a']
''')

seed('p08-shallow-parent', 'P08', [('behaviors/nodify.py', '''        new.__name__ = self.__name__
        new.__parent__ = self.__parent__
        return new''', '''        new.__name__ = self.__name__
        new.__parent__ = self.__parent__
        for child in new.values():
            if INode.providedBy(child) and child.__parent__ is self:
                child.__parent__ = new
        return new''')],
     'a shallow copy, then asking a child of the original for its parent',
     'the children of the original are taken over by the copy',
     '''
from node.base import OrderedNode
n = OrderedNode(name='n')
n['a'] = OrderedNode()
c = n.copy()
assert c['a'] is n['a']
assert n['a'].__parent__ is n
''')

seed('p15-init-suppressed', 'P15', [('behaviors/lifecycle.py', '''    @plumb
    def __init__(_next, self, *args, **kw):
        _next(self, *args, **kw)''', '''    @plumb
    def __init__(_next, self, *args, **kw):
        if isinstance(kw.get('parent'), type(self)):
            kw['parent']._notify_suppress = False
        _next(self, *args, **kw)''')],
     'nothing', 'x', 'assert 0')
SEEDS.pop()

seed('p12-factory-default', 'P12', [('behaviors/common.py', '''        except KeyError:
            child = self.factories[key]()
            self[key] = child
        return child''', '''        except KeyError:
            factories = self.factories
            if key not in factories:
                raise
            child = factories[key]()
            if child is None:
                return child
            self[key] = child
        return child''')],
     'a factory giving None as value, read twice',
     'the factory is called again on every read',
     '''
from node.base import OrderedNode
from node.behaviors import ChildFactory
from odict import odict
from plumber import plumbing
calls = []
def factory():
    calls.append(1)
@plumbing(ChildFactory)
class N(OrderedNode):
    allow_non_node_childs = True
    factories = odict([('a', factory)])
n = N()
n['a'], n['a']
assert len(calls) == 1
''')

DROP = '''p04-swap-values p14-del-key p14-contains p21-nested p21-level p21-path-names p22-class-lock p27-prefix-below
p28-direct p20-visited-shared'''.split()
SEEDS[:] = [s for s in SEEDS if s['id'] not in DROP]

seed('p33-get-lookup', 'P33', [('behaviors/mapping.py', '''        try:
            return self[key]
        except KeyError:
            return default

    @default
    def __contains__''', '''        try:
            return self[key]
        except LookupError:
            return default

    @default
    def __contains__''')],
     'a storage raising an IndexError',
     'get gives the default although reading the storage failed',
     '''
from node.behaviors import DefaultInit, Nodify, OdictStorage
from plumber import plumbing
class Broken(dict):
    def __getitem__(self, key):
        raise IndexError('storage is broken')
@plumbing(DefaultInit, Nodify, OdictStorage)
class N(object):
    storage = Broken()
try:
    N().get('a')
except IndexError:
    pass
else:
    assert 0
''')

seed('p33-factory-broad', 'P33', [('behaviors/common.py', '''        except KeyError:
            child = self.factories[key]()
            self[key] = child''', '''        except Exception:
            child = self.factories[key]()
            self[key] = child''')],
     'a storage which fails while a child is read for which there is a factory',
     'the factory is called and replaces the child which could not be read',
     '''
from node.base import OrderedNode
from node.behaviors import ChildFactory, DefaultInit, Nodify, DictStorage
from plumber import plumbing
class Store(dict):
    def __getitem__(self, key):
        raise OSError('no connection')
@plumbing(ChildFactory, DefaultInit, Nodify, DictStorage)
class N(object):
    storage = Store()
    factories = {'a': OrderedNode}
try:
    N()['a']
except OSError:
    pass
else:
    assert 0
''')

seed('p33-fallback-broad', 'P33', [('behaviors/fallback.py', '''            value = _next(self, key)
        except KeyError:''', '''            value = _next(self, key)
        except (KeyError, ValueError):''')],
     'a storage raising a ValueError below a node for which there is a fallback',
     'the child of the fallback is returned instead of the error',
     '''
from node.base import BaseNode
from node.behaviors import Fallback
from plumber import plumbing
class Store(dict):
    broken = False
    def __getitem__(self, key):
        if self.broken:
            raise ValueError('corrupt')
        return dict.__getitem__(self, key)
@plumbing(Fallback)
class N(BaseNode):
    @property
    def storage(self):
        return self.__dict__.setdefault('own', Store())
root = N(name='root')
root.fallback_key = 'en'
root['en'] = N()
root['de'] = N()
root['en']['x'] = N()
root['de']['x'] = N()
root['de'].storage.broken = True
try:
    root['de']['x']
except ValueError:
    pass
else:
    assert 0
''')

seed('p33-attr-typeerror', 'P33', [('utils.py', '''        try:
            return context[name]
        except KeyError:
            raise AttributeError(name)''', '''        try:
            return context[name]
        except (KeyError, TypeError):
            raise AttributeError(name)''')],
     'reading an attribute through attribute access while the mapping fails with a TypeError',
     'the attribute is said to be missing',
     '''
import node.behaviors
from node.utils import AttributeAccess
class Broken(dict):
    def __getitem__(self, key):
        raise TypeError('bad value stored')
assert isinstance(AttributeAccess(dict(a=1)).a, int)
try:
    AttributeAccess(Broken()).a
except TypeError:
    pass
else:
    assert 0
''')

seed('p33-alias-any', 'P33', [('behaviors/alias.py', '''        try:
            _next(self, unaliased_key, val)
        except KeyError:
            raise KeyError(key)''', '''        try:
            _next(self, unaliased_key, val)
        except Exception:
            raise KeyError(key)''')],
     'setting an aliased key while the storage fails with something else than a KeyError',
     'the error is replaced by a KeyError',
     '''
from node.behaviors import Alias, DefaultInit, Nodify, DictStorage
from plumber import plumbing
class Store(dict):
    def __setitem__(self, key, val):
        raise OSError('read only')
@plumbing(Alias, DefaultInit, Nodify, DictStorage)
class N(object):
    storage = Store()
try:
    N()['a'] = 1
except OSError:
    pass
else:
    assert 0
''')

seed('p34-none-again', 'P34', [('utils.py', '''        try:
            return object.__getattribute__(self, attribute_name)
        except AttributeError:
            setattr(self, attribute_name, func(self))
            return object.__getattribute__(self, attribute_name)''', '''        try:
            value = object.__getattribute__(self, attribute_name)
        except AttributeError:
            value = None
        if value is None:
            setattr(self, attribute_name, func(self))
            value = object.__getattribute__(self, attribute_name)
        return value''')],
     'an instance property whose value is None, read twice',
     'the value is computed on every read',
     '''
import node.behaviors
from node.utils import instance_property
calls = []
class A(object):
    @instance_property
    def prop(self):
        calls.append(1)
a = A()
a.prop, a.prop
assert len(calls) == 1
''')

seed('p34-debug-disabled', 'P34', [('utils.py', '''    def wrapped(*args, **kws):
        logger.debug(''', '''    def wrapped(*args, **kws):
        if not logger.isEnabledFor(logging.DEBUG):
            return func(*args)
        logger.debug(''')],
     'a logged function called with keyword arguments while debug logging is disabled',
     'the keyword arguments are lost',
     '''
import logging
import node.behaviors
from node.utils import debug
logging.getLogger('node').setLevel(logging.WARNING)
@debug
def fn(a, b=0):
    return a, b
assert fn(1, b=2) == (1, 2)
''')

seed('p35-cache-default', 'P35', [('behaviors/cache.py', '''        cache = self.cache
        if key is not None:
            try:
                del cache[key]''', '''        cache = self.cache
        if key is None and not _keys(self):
            # nothing below, share the empty cache
            self._cache = _empty
        if key is not None:
            try:
                del cache[key]'''), ('behaviors/cache.py', '''@implementer(ICache)
class Cache(''', '''_empty = dict()


@implementer(ICache)
class Cache(''')],
     'invalidating two empty nodes completely, then reading a child of both',
     'one node serves the children of the other one',
     '''
from node.base import OrderedNode
from node.behaviors import Cache, VolatileStorageInvalidate
from plumber import plumbing
@plumbing(Cache, VolatileStorageInvalidate)
class N(OrderedNode):
    pass
a, b = N(), N()
a.invalidate()
b.invalidate()
a['x'] = OrderedNode()
b['x'] = OrderedNode()
ax, bx = a['x'], b['x']
assert a['x'] is not b['x']
''')

seed('p14-falsy-alias', 'P14', [('behaviors/alias.py', '''                if self.aliaser is not None:
                    yield self.aliaser.alias(key)
                else:''', '''                if self.aliaser is not None:
                    alias = self.aliaser.alias(key)
                    if alias:
                        yield alias
                else:''')],
     'an aliaser giving the empty text (or 0) as alias of a key',
     'the child can be read but is not listed',
     '''
from node.base import OrderedNode
from node.behaviors import Alias
from node.behaviors.alias import DictAliaser
from plumber import plumbing
@plumbing(Alias)
class N(OrderedNode):
    aliaser = DictAliaser([('', 'default')])
n = N()
n[''] = OrderedNode()
assert n.keys() == ['']
''')

seed('p14-aliaser-memo', 'P14', [('behaviors/alias.py', '''        for key in _next(self):
            try:
                if self.aliaser is not None:
                    yield self.aliaser.alias(key)''', '''        aliases = self.__dict__.setdefault('_aliases', dict())
        for key in _next(self):
            try:
                if self.aliaser is not None:
                    if key not in aliases:
                        aliases[key] = self.aliaser.alias(key)
                    yield aliases[key]''')],
     'an aliaser which changes after keys were listed',
     'the aliases listed are those of before',
     '''
from node.base import OrderedNode
from node.behaviors import Alias
from node.behaviors.alias import PrefixAliaser
from plumber import plumbing
@plumbing(Alias)
class N(OrderedNode):
    pass
n = N()
n.aliaser = PrefixAliaser('x')
n['xa'] = OrderedNode()
assert n.keys() == ['xa']
n.aliaser = PrefixAliaser('y')
assert n.keys() == ['ya']
''')

seed('p21-falsy-value', 'P21', [('behaviors/fallback.py', '''        new_current = current.get(name, _marker)
        if new_current is _marker:
            return''', '''        new_current = current.get(name, _marker)
        if not new_current:
            return''')],
     'a fallback giving a value which is false',
     'the value is not found',
     '''
from node.base import BaseNode
from node.behaviors import Fallback
from plumber import plumbing
@plumbing(Fallback)
class N(BaseNode):
    allow_non_node_childs = True
root = N(name='root')
root.fallback_key = 'en'
root['en'] = N()
root['de'] = N()
root['en']['x'] = 0
assert root['de']['x'] == 0
''')

seed('p21-failed-count', 'P21', [('behaviors/fallback.py', '''    def __exit__(self, type, value, traceback):
        self.data.processing -= 1''', '''    def __exit__(self, type, value, traceback):
        if type is None or issubclass(type, KeyError):
            self.data.processing -= 1''')],
     'a fallback lookup which fails with something else than a KeyError',
     'no fallback is found from then on',
     '''
from node.base import BaseNode
from node.behaviors import Fallback
from plumber import plumbing
@plumbing(Fallback)
class N(BaseNode):
    pass
class Broken(N):
    def get(self, key, default=None):
        raise ValueError('broken')
root = N(name='root')
root.fallback_key = 'en'
root['en'] = N()
root['de'] = N()
root['en']['x'] = N()
other = N(name='other')
other.fallback_key = 'en'
other['en'] = Broken()
other['de'] = N()
try:
    other['de']['x']
except ValueError:
    pass
assert root['de']['x'] is root['en']['x']
''')

seed('p22-moved', 'P22', [('locking.py', '''        lock = TreeLock(self)
        lock.acquire()''', '''        lock = self.__dict__.setdefault('_lock', None)
        if lock is None:
            lock = self._lock = TreeLock(self)
        lock.acquire()''')],
     'a node which is moved to another tree after a locked method of it was called',
     'its locked methods keep using the lock of the former tree',
     '''
import threading
from node.base import OrderedNode
from node.locking import TreeLock, locktree
class N(OrderedNode):
    @locktree
    def locked(self):
        return True
one, two = N(name='one'), N(name='two')
one['x'] = x = N()
x.locked()
one.detach('x')
two['x'] = x
done = []
with TreeLock(two):
    t = threading.Thread(target=lambda: done.append(x.locked()))
    t.daemon = True
    t.start()
    t.join(1)
    assert done == []
t.join(5)
assert done == [True]
''')

seed('p22-exit-error', 'P22', [('locking.py', '''    def __exit__(self, type, value, traceback):
        self.release()''', '''    def __exit__(self, type, value, traceback):
        if type is None or issubclass(type, Exception):
            self.release()''')],
     'a locked section left by a KeyboardInterrupt or SystemExit',
     'the tree stays locked',
     '''
import threading
from node.base import OrderedNode
from node.locking import TreeLock
n = OrderedNode()
try:
    with TreeLock(n):
        raise KeyboardInterrupt
except KeyboardInterrupt:
    pass
done = []
def other():
    with TreeLock(n):
        done.append(1)
t = threading.Thread(target=other)
t.daemon = True
t.start()
t.join(3)
assert done == [1]
''')

seed('p27-repeated-node', 'P27', [('behaviors/nodify.py', '''        for key, value in items:
            if INode.providedBy(value):
                res +=''', '''        rendered = []
        for key, value in items:
            if INode.providedBy(value):
                if value in rendered:
                    continue
                rendered.append(value)
                res +=''')],
     'two children which are equal to each other',
     'only the first of them is rendered',
     '''
from node.base import OrderedNode
class N(OrderedNode):
    def __eq__(self, other):
        return type(self) is type(other)
    def __ne__(self, other):
        return not self == other
    __hash__ = None
n = OrderedNode(name='n')
n['a'] = N()
n['b'] = N()
assert len(n.treerepr().splitlines()) == 3
''')

seed('p27-empty-value', 'P27', [('behaviors/nodify.py', '''            else:
                res += '{}{}: {}\\n'.format(''', '''            elif value is not None:
                res += '{}{}: {}\\n'.format(''')],
     'a value None among the children',
     'the line of the value is missing',
     '''
from node.base import OrderedNode
class N(OrderedNode):
    allow_non_node_childs = True
n = N(name='n')
n['a'] = None
assert len(n.treerepr().splitlines()) == 2
''')

seed('p28-plain-provider', 'P28', [('behaviors/nodify.py', '''        for val in self.itervalues():
            if interface.providedBy(val):''', '''        for val in self.itervalues():
            if INode.providedBy(val) and interface.providedBy(val):''')],
     'a value which is no node but provides the interface',
     'it is filtered out',
     '''
from node.base import OrderedNode
from zope.interface import Interface, implementer
class IThing(Interface):
    pass
@implementer(IThing)
class Thing(object):
    pass
class N(OrderedNode):
    allow_non_node_childs = True
n = N()
n['a'] = t = Thing()
assert n.filteredvalues(IThing) == [t]
''')

seed('p28-distinct', 'P28', [('behaviors/nodify.py', '''        return [val for val in self.filtereditervalues(interface)]''', '''        values = []
        for val in self.filtereditervalues(interface):
            if val not in values:
                values.append(val)
        return values''')],
     'children which are equal to each other',
     'only the first of them is given',
     '''
from node.base import OrderedNode
from node.interfaces import INode
class N(OrderedNode):
    def __eq__(self, other):
        return type(self) is type(other)
    def __ne__(self, other):
        return not self == other
    __hash__ = None
n = OrderedNode()
n['a'] = N()
n['b'] = N()
assert len(n.filteredvalues(INode)) == 2
''')

seed('p36-adopt-old', 'P36', [('behaviors/common.py', '''        # save old __parent__ and __name__ to restore if something goes wrong
        old_name = val.__name__
        old_parent = val.__parent__
''', '''        # save old __parent__ and __name__ to restore if something goes wrong
        val._before_adoption = val.__name__, val.__parent__
        old_name, old_parent = val._before_adoption
''')],
     'a node moved from one tree to another, the former one dropped afterwards',
     'the moved node keeps its whole former tree alive',
     '''
import gc, weakref
from node.base import OrderedNode
a, b = OrderedNode(), OrderedNode()
a['x'] = OrderedNode()
node = a.detach('x')
b['x'] = node
ref = weakref.ref(a)
del a
gc.collect()
assert b['x'] is node
assert ref() is None
''')

seed('p36-previous-value', 'P36', [('behaviors/events.py', '''        old_value = storage.get(self.name, self.default)
        storage[self.name] = value
        if self.always_dispatch or value != old_value:''', '''        self.old_value = storage.get(self.name, self.default)
        storage[self.name] = value
        if self.always_dispatch or value != self.old_value:''')],
     'an observable attribute whose value is replaced',
     'the class keeps the replaced value alive',
     '''
import gc, weakref
from node.behaviors import EventAttribute, Events
from plumber import plumbing
class Value(object):
    pass
@plumbing(Events)
class D(object):
    attr = EventAttribute(None)
d = D()
d.attr = Value()
ref = weakref.ref(d.attr)
d.attr = 1
gc.collect()
assert ref() is None
''')

seed('p36-known-uuids', 'P36', [('behaviors/common.py', '''            if override or not node.uuid:
                node.uuid = self.uuid_factory()
''', '''            if override or not node.uuid:
                new = self.uuid_factory()
                while new in _nodes_by_uuid:
                    new = self.uuid_factory()
                node.uuid = new
                _nodes_by_uuid[new] = node
'''), ('behaviors/common.py', '''@implementer(IUUIDAware)
class UUIDAware(''', '''_nodes_by_uuid = {}


@implementer(IUUIDAware)
class UUIDAware(''')],
     'a deep copy of a UUID aware node which is dropped',
     'all copies ever made stay alive',
     '''
import gc, weakref
from node.base import OrderedNode
from node.behaviors import UUIDAware
from plumber import plumbing
@plumbing(UUIDAware)
class N(OrderedNode):
    pass
n = N()
c = n.deepcopy()
assert c.uuid != n.uuid
ref = weakref.ref(c)
del c
gc.collect()
assert ref() is None
''')

seed('p36-last-call', 'P36', [('utils.py', '''        f_result = func(*args, **kws)
        logger.debug(u'{}: --> {}'.format(''', '''        f_result = wrapped.last_result = func(*args, **kws)
        logger.debug(u'{}: --> {}'.format(''')],
     'a logged function whose result is dropped after the call',
     'the result of the last call stays alive',
     '''
import gc, weakref
import node.behaviors
from node.utils import debug
class Value(object):
    pass
@debug
def fn():
    return Value()
v = fn()
ref = weakref.ref(v)
del v
gc.collect()
assert ref() is None
''')

seed('p36-unbound-kept', 'P36', [('behaviors/events.py', '''            for subscribers in self.__subscribers__.values():
                if subscriber in subscribers:
                    subscribers.remove(subscriber)''', '''            for event, subscribers in self.__subscribers__.items():
                if subscriber in subscribers:
                    kept = [sub for sub in subscribers if sub != subscriber]
                    self.__subscribers__[event] = kept
            self.__unbound__ = subscriber''')],
     'a subscriber unbound from all events',
     'the dispatcher keeps it alive',
     '''
import gc, weakref
from node.behaviors import Events
from plumber import plumbing
@plumbing(Events)
class D(object):
    __events__ = ['e']
class Sub(object):
    def __call__(self):
        pass
d, s = D(), Sub()
d.bind(e=s)
d.unbind(subscriber=s)
ref = weakref.ref(s)
del s
gc.collect()
assert ref() is None
''')

seed('p37-strip-blank', 'P37', [('utils.py', '''        path = path.strip('/')
''', '''        path = path.strip().strip('/')
''')],
     'a textual path whose first or last key starts or ends with a blank',
     'another child or none is found',
     '''
from node.base import OrderedNode
from node.utils import node_by_path
n = OrderedNode()
n['a'] = OrderedNode()
n['a']['b '] = OrderedNode()
assert node_by_path(n, 'a/b ') is n['a']['b ']
''')

seed('p37-dots', 'P37', [('utils.py', '''        path = path.split('/') if path else []
''', '''        path = [name for name in path.split('/') if name.strip('.')]
''')],
     'a key consisting of dots on a textual path',
     'the key is left out',
     '''
from node.base import OrderedNode
from node.utils import node_by_path
n = OrderedNode()
n['.'] = OrderedNode()
n['.']['b'] = OrderedNode()
assert node_by_path(n, './b') is n['.']['b']
''')

seed('p37-eats-path', 'P37', [('utils.py', '''    node = root
    for name in path:
        node = node[name]
    return node''', '''    node = root
    if not isinstance(path, list):
        path = list(path)
    while path:
        node = node[path.pop(0)]
    return node''')],
     'a path given as list which is used again',
     'the list is empty afterwards',
     '''
from node.base import OrderedNode
from node.utils import node_by_path
n = OrderedNode()
n['a'] = OrderedNode()
path = ['a']
assert node_by_path(n, path) is n['a']
assert path == ['a']
''')

seed('p37-get', 'P37', [('utils.py', '''    for name in path:
        node = node[name]
    return node''', '''    for name in path:
        found = node.get(name)
        if found is None:
            raise KeyError(name)
        node = found
    return node''')],
     'a path ending at an entry whose value is None',
     'the entry is said to be missing',
     '''
from node.base import OrderedNode
from node.utils import node_by_path
class N(OrderedNode):
    allow_non_node_childs = True
n = N()
n['a'] = N()
n['a']['b'] = None
assert node_by_path(n, 'a/b') is None
''')

seed('p38-ordered-storage', 'P38', [('behaviors/storage.py', '''@implementer(IStorage)
class Storage(''', '''@implementer(IStorage, IOrdered)
class Storage(''')],
     'a node with a storage which is not ordered',
     'it is declared to be ordered',
     '''
from node.base import BaseNode, OrderedNode
from node.interfaces import IOrdered
assert IOrdered.providedBy(OrderedNode())
assert not IOrdered.providedBy(BaseNode())
''')

seed('p38-nodify', 'P38', [('behaviors/nodify.py', '''@implementer(INodify)
class Nodify(''', '''@implementer(INode)
class Nodify(''')],
     'a node asked for the interface of the behavior making it one',
     'it provides INode only, not INodify',
     '''
import node.base
from node.base import BaseNode
from node.interfaces import INode, INodify
assert INode.providedBy(BaseNode())
assert INodify.providedBy(BaseNode())
''')

seed('p38-parent-setter', 'P38', [('behaviors/nodify.py', '''    @override
    @property
    def parent(self):
        return self.__parent__
''', '''    def _parent(self):
        return self.__parent__

    def _set_parent(self, value):
        self.__parent__ = value

    parent = override(property(_parent, _set_parent))
''')],
     'assigning the read only parent of a node',
     'the node has another parent, not knowing the node',
     '''
from node.base import OrderedNode
a, b = OrderedNode(), OrderedNode()
a['x'] = OrderedNode()
try:
    a['x'].parent = b
except AttributeError:
    pass
assert a['x'].parent is a
''')

seed('p38-empty-false', 'P38', [('behaviors/nodify.py', '''    @default
    def __nonzero__(self):
        return True

    __bool__ = default(__nonzero__)
''', '''    @default
    def __nonzero__(self):
        return bool(self.__name__ or self.__parent__ is None or len(self))

    __bool__ = default(__nonzero__)
''')],
     'an empty child whose name is an empty text',
     'the node is considered false',
     '''
from node.base import OrderedNode
n = OrderedNode()
n[''] = OrderedNode()
assert n['']
''')

seed('p11-cache-after', 'P11', [('behaviors/cache.py', '''        cache = self.cache
        if key is not None:
            try:
                del cache[key]
            except KeyError:
                pass
        else:
            for cached_key in _keys(cache):
                del cache[cached_key]
        _next(self, key=key)
''', '''        # whatever is below may have to be asked while invalidating
        _next(self, key=key)
        cache = self.cache
        if key is not None:
            try:
                del cache[key]
            except KeyError:
                pass
        else:
            for cached_key in _keys(cache):
                del cache[cached_key]
''')],
     'a cached child which vanished from the storage before its key is invalidated (refused with KeyError)',
     'the child is served from the cache from then on',
     '''
import node.behaviors
from node.base import OrderedNode
from node.behaviors import Cache, VolatileStorageInvalidate
from plumber import plumbing

@plumbing(Cache, VolatileStorageInvalidate)
class N(OrderedNode):
    pass

n = N()
n['a'] = OrderedNode()
n['a']
del n.storage['a']
try:
    n.invalidate('a')
except KeyError:
    pass
try:
    n['a']
except KeyError:
    pass
else:
    raise AssertionError('served after invalidation')
''')

seed('p13-reverse-memo', 'P13', [('behaviors/alias.py', '''            return ReverseMapping(self)[key]
''', '''            memo = self.__dict__.get('_reversed')
            if memo is None or len(memo) != len(self):
                memo = dict((real, alias) for alias, real in self.items())
                self.__dict__['_reversed'] = memo
            return memo[key]
''')],
     'a dictionary aliaser edited after use which has as many entries as before',
     'alias answers by the old dictionary, unalias by the new one',
     '''
import node.behaviors
from node.behaviors.alias import DictAliaser
d = DictAliaser([('a', 'x'), ('b', 'y')])
assert d.alias('x') == 'a'
del d['a']
d['c'] = 'x'
assert d.unalias('c') == 'x'
assert d.alias('x') == 'c'
''')

seed('p26-space-parent', 'P26', [('behaviors/nodespace.py', '''            val.__parent__ = self
            self.nodespaces[key] = val
''', '''            # the owner of attributes made elsewhere stays
            if val.__parent__ is None:
                val.__parent__ = self
            self.nodespaces[key] = val
''')],
     'a nodespace taken from one node and placed at another one',
     'it reports the former node as parent',
     '''
import node.behaviors
from node.base import AttributedNode
a, b = AttributedNode(name='a'), AttributedNode(name='b')
space = AttributedNode()
a['__x__'] = space
del a['__x__']
b['__y__'] = space
assert space.parent is b
assert space.name == '__y__'
''')

seed('p15-own-name', 'P15', [('behaviors/lifecycle.py', '''        objectEventNotify(self.events['removed'](delnode, oldParent=self,
                                                 oldName=key))
''', '''        name = getattr(delnode, '__name__', None)
        objectEventNotify(self.events['removed'](
            delnode,
            oldParent=self,
            oldName=name if name is not None else key
        ))
''')],
     'deleting a value with a name of its own, a function for instance, or an aliased child',
     'the removed event names another key',
     '''
import node.behaviors
import zope.component
from node.base import OrderedNode
from node.behaviors import Lifecycle
from node.interfaces import INodeRemovedEvent
from plumber import plumbing

@plumbing(Lifecycle)
class N(OrderedNode):
    allow_non_node_childs = True

log = []
zope.component.provideHandler(lambda ob, event: log.append(event), (None, INodeRemovedEvent))

def callback():
    pass

n = N()
n['key'] = callback
del n['key']
assert [e.oldName for e in log] == ['key'], [e.oldName for e in log]
''')

seed('p15-update-dict', 'P15', [('behaviors/mapping.py', '''            for key, val in data:
                self[key] = val
        for key, val in iteritems(kw):
            self[key] = val
''', '''            data = dict(data)
        else:
            data = dict()
        data.update(kw)
        for key, val in iteritems(data):
            self[key] = val
''')],
     'an update with several entries of the same key',
     'one added event is missing, and the node attached first knows no container',
     '''
import node.behaviors
import zope.component
from node.base import OrderedNode
from node.behaviors import Lifecycle
from node.interfaces import INodeAddedEvent
from plumber import plumbing

@plumbing(Lifecycle)
class N(OrderedNode):
    pass

log = []
zope.component.provideHandler(lambda ob, event: log.append(ob), (None, INodeAddedEvent))
n, a, b = N(), OrderedNode(), OrderedNode()
n.update([('k', a), ('k', b)])
assert len(log) == 2 and log[0] is a and log[1] is b, log
''')

seed('p23-implemented', 'P23', [('serializer.py', '''                if issubclass(cls, Interface) and cls.providedBy(ob):
                    callback(self, ob, data)
''', '''                if issubclass(cls, Interface) and cls.implementedBy(type(ob)):
                    callback(self, ob, data)
''')],
     'a serializer registered for an interface which the instance provides by itself',
     'the serializer is not called, its data are lost',
     '''
import node.behaviors
import json
from node.base import OrderedNode
from node.serializer import serialize, serializer
from zope.interface import Interface, alsoProvides

class IMark(Interface):
    pass

@serializer(IMark)
def ser(encoder, node, data):
    data['mark'] = node.mark

n = OrderedNode(name='n')
n.mark = 5
alsoProvides(n, IMark)
assert json.loads(serialize(n))['__node__'].get('mark') == 5
''')

_U = '''
import node.behaviors
from node.behaviors import Adopt, Cache, DefaultInit, Invalidate, Nodify, OdictStorage, UnicodeAware
from plumber import plumbing

@plumbing(UnicodeAware, Adopt, DefaultInit, Nodify, OdictStorage)
class U(object):
    pass

u = U()
'''

seed('p39-strict-key', 'P39', [('behaviors/common.py', '''            key = decode(key)
        if isinstance(val, bytes):
''', '''            key = key.decode('utf-8', 'replace')
        if isinstance(val, bytes):
''')],
     'keys which are no UTF-8 text',
     'different binary keys end up as one text key',
     _U + '''
u[b'\\xff'] = 1
u[b'\\xfe'] = 2
assert u.keys() == [b'\\xff', b'\\xfe'], u.keys()
''')

seed('p39-value-lost', 'P39', [('behaviors/common.py', '''            val = decode(val)
        return _next(self, key, val)
''', '''            val = decode(val) or val
        return _next(self, key, val)
''')],
     'an empty byte string as value',
     'the value stays bytes',
     _U + '''
u['a'] = b''
assert u['a'] == '', u['a']
''')

seed('p39-get-first', 'P39', [('behaviors/common.py', '''            key = decode(key)
        return _next(self, key)

    @plumb
    def __setitem__''', '''            try:
                key = decode(key)
                return _next(self, key)
            except KeyError:
                key = key.strip() if isinstance(key, str) else key
        return _next(self, key)

    @plumb
    def __setitem__''')],
     'a missing key given as bytes with blanks around the name of a child',
     'the other child is answered',
     _U + '''
u['a'] = 1
assert b' a' not in u
assert u.get(b'a ') is None
''')

seed('p39-mark', 'P39', [('utils.py', '''                arg = arg.decode(self._encoding)
            except''', '''                arg = arg.decode(
                    'utf-8-sig' if self._encoding == CHARACTER_ENCODING
                    else self._encoding
                )
            except''')],
     'encoded text starting with a zero width no-break space',
     'the first character is lost',
     _U + '''
u[b'\\xef\\xbb\\xbfx'] = 1
assert u.keys() == ['\\ufeffx'], u.keys()
assert '\\ufeffx' in u
''')

seed('p39-del-raw', 'P39', [('behaviors/common.py', '''            key = decode(key)
        _next(self, key)

    @plumb
    def __getitem__''', '''            text = decode(key)
            key = text if text in self.storage else key
        _next(self, key)

    @plumb
    def __getitem__''')],
     'deleting from a node whose storage uses other keys than the node, or none at all',
     'the entry is not found',
     '''
import node.behaviors
from node.behaviors import Alias, DefaultInit, Nodify, OdictStorage, UnicodeAware
from node.behaviors.alias import PrefixAliaser
from plumber import plumbing

@plumbing(UnicodeAware, Alias, DefaultInit, Nodify, OdictStorage)
class U(object):
    aliaser = PrefixAliaser('p')

u = U()
u[b'pa'] = 1
del u[b'pa']
assert u.keys() == []
''')

seed('p35-registered-shared', 'P35', [('behaviors/events.py', '''        inst.__events__ = list()
''', '''        # nothing declared, start with what the class has
        inst.__events__ = cls.__events__ if not cls.__events__ else list()
''')],
     'two instances of a class which declares no events, one of them registers some',
     'the other one accepts subscribers for events it has not registered',
     '''
import node.behaviors
from node.behaviors import Events
from node.behaviors.events import UnknownEvent
from plumber import plumbing

@plumbing(Events)
class D(object):
    pass

a, b = D(), D()
a.register_event('e')
try:
    b.bind(e=lambda: None)
except UnknownEvent:
    pass
else:
    raise AssertionError('bound')
''')

seed('p22-release-late', 'P22', [('locking.py', '''        lock = TreeLock(self)
        lock.acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            lock.release()''', '''        TreeLock(self).acquire()
        try:
            result = fn(self, *args, **kwargs)
        finally:
            TreeLock(self).release()''')],
     'a locked method which moves its node to another tree',
     'the lock of the tree it was called in is never released',
     '''
import threading
import node.behaviors
from node.base import OrderedNode
from node.locking import TreeLock, locktree

class N(OrderedNode):

    @locktree
    def move(self, target):
        home = self.parent
        home.detach(self.name)
        target['moved'] = self

a, b = N(name='a'), N(name='b')
n = a['n'] = N()
n.move(b)
got = []

def other():
    for root in (a, b):
        lock = TreeLock(root)
        lock.acquire()
        got.append(root.name)
        lock.release()

t = threading.Thread(target=other, daemon=True)
t.start()
t.join(10)
assert got == ['a', 'b'], got
''')

seed('p23-same-name', 'P23', [('serializer.py', '''    include_class = True

    def __init__''', '''    include_class = True
    # dotted names of node classes already seen
    dotted_names = dict()

    def __init__'''), ('serializer.py', '''            return '.'.join([ob.__module__, ob.__class__.__name__])''', '''            name = ob.__class__.__name__
            if name not in self.dotted_names:
                self.dotted_names[name] = '.'.join([ob.__module__, name])
            return self.dotted_names[name]''')],
     'two node classes of the same name in different modules, serialized in one process',
     'nodes of the second one come back as the first one',
     '''
import sys, types
import node.behaviors
from node.base import OrderedNode
from node.serializer import serialize, deserialize
made = []
for name in ('demo_one', 'demo_two'):
    m = types.ModuleType(name)
    sys.modules[name] = m
    m.Page = type('Page', (OrderedNode,), {'__module__': name})
    made.append(m.Page)
for cls in made:
    got = deserialize(serialize(cls(name='x')))
    assert type(got) is cls, (type(got), cls)
''')

seed('p23-nested-ref', 'P23', [('serializer.py', '''        components = name.split('.')
        path = components[0]
        ob = __import__(path)
''', '''        # modules are all but the last components
        components = name.rsplit('.', 4)
        path = components[0]
        ob = __import__(path, fromlist=['*']) if '.' in path \\
            else __import__(path)
''')],
     'a reference to something nested in classes several levels deep',
     'the text cannot be decoded',
     '''
import os, sys, tempfile, shutil
d = tempfile.mkdtemp()
try:
    os.mkdir(os.path.join(d, 'demo_pkg'))
    open(os.path.join(d, 'demo_pkg', '__init__.py'), 'w').close()
    with open(os.path.join(d, 'demo_pkg', 'm.py'), 'w') as f:
        f.write("""
class A(object):
    class B(object):
        class C(object):
            class D(object):
                class E(object):
                    pass
""")
    sys.path.insert(0, d)
    sys.dont_write_bytecode = True
    import node.behaviors
    from node.base import AttributedNode
    from node.serializer import serialize, deserialize
    from demo_pkg.m import A
    n = AttributedNode(name='n')
    n.attrs['ref'] = A.B.C.D.E
    assert deserialize(serialize(n)).attrs['ref'] is A.B.C.D.E
finally:
    shutil.rmtree(d)
''')
