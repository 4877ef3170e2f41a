"""P38: nodes keep what their interfaces promise.

Random compositions of behaviors, derived classes and their instances are
compared with a table telling which behavior stands for which interface; each
provided interface is verified on the instance, before and after random edits.
"""
import copy
import inspect
import uuid
from kit import *
from node import behaviors as nb
from node import events as ne
from node import interfaces as ni
from node.behaviors import alias as na
from node.locking import TreeLock
from node.utils import AttributeAccess, ReverseMapping
from zope.interface import alsoProvides, implementedBy, implementer as impl, Interface, providedBy
from zope.interface.common import mapping as zm
from zope.interface.verify import verifyObject
from zope.lifecycleevent import interfaces as zl

ANCHORS = ['src/node/interfaces.py', 'src/node/behaviors/__init__.py', 'src/node/behaviors/nodify.py',
           'src/node/behaviors/mapping.py', 'src/node/behaviors/storage.py', 'src/node/events.py', 'src/node/base.py']
RULE = ('a case is a composition of 1-7 behaviors in random order or a shipped class, classes derived from it with and without more '
        'behaviors, their instances and 5-25 edits; non-trivial: all provided interfaces verified on an instance')
QUICK, THOROUGH = 3000, 60000
MIN = {'verified': 100000, 'not-provided': 100000, 'read-only': 10000, 'true': 10000, 'order': 5000, 'derived': 1500,
       'helpers': 1500, 'compositions': 1500, 'copies': 1500, 'events': 500, 'called': 10000}
ASSUMPTIONS = ['interfaces are those named in the documentation of each behavior']


class IOwn(Interface):
    """Of a class using behaviors."""


class IMore(Interface):
    """Of an instance."""


FULL = {zm.IItemMapping, zm.IReadMapping, zm.IEnumerableMapping, zm.IWriteMapping, zm.IMapping, zm.IIterableMapping,
        zm.IClonableMapping, zm.IExtendedReadMapping, zm.IExtendedWriteMapping, zm.IFullMapping}
NODE = FULL | {ni.INode, ni.INodify}
# the interfaces behaviors stand for
TABLE = {
    'validate': ((NodeChildValidate,), {ni.INodeChildValidate}),
    'adopt': ((Adopt,), {ni.IAdopt}),
    'unicode': ((UnicodeAware,), {ni.IUnicodeAware}),
    'alias': ((Alias,), {ni.IAlias}),
    'asattr': ((AsAttrAccess,), {ni.IAsAttrAccess}),
    'factory': ((ChildFactory,), {ni.IChildFactory}),
    'getattr': ((GetattrChildren,), {ni.IGetattrChildren}),
    'nodespaces': ((Nodespaces,), {ni.INodespaces}),
    'attributes': ((Nodespaces, Attributes), {ni.INodespaces, ni.IAttributes}),
    'lifecycle': ((Lifecycle,), {ni.ILifecycle}),
    'cache': ((Cache, Invalidate), {ni.ICache, ni.IInvalidate}),
    'invalidate': ((Invalidate,), {ni.IInvalidate}),
    'volatile': ((VolatileStorageInvalidate,), {ni.IInvalidate}),
    'order': ((Order,), {ni.IOrder}),
    'uuid': ((UUIDAware,), {ni.IUUID, ni.IUUIDAware}),
    'reference': ((Reference,), {ni.IUUID, ni.IReference}),
    'fallback': ((Fallback,), {ni.IFallback}),
}
EVERY = set().union(*(x[1] for x in TABLE.values())) | NODE | {
    ni.IStorage, ni.IOrdered, ni.IFixedChildren, ni.IEvents, ni.IDefaultInit, ni.IAttributesLifecycle, ni.IRoot, ni.ILeaf,
    ni.ICallable, IOwn, IMore}
PARTIAL = {
    'ItemMapping': {zm.IItemMapping}, 'ReadMapping': {zm.IItemMapping, zm.IReadMapping}, 'WriteMapping': {zm.IWriteMapping},
    'EnumerableMapping': {zm.IItemMapping, zm.IReadMapping, zm.IEnumerableMapping},
    'Mapping': {zm.IItemMapping, zm.IReadMapping, zm.IEnumerableMapping, zm.IWriteMapping, zm.IMapping},
    'IterableMapping': {zm.IItemMapping, zm.IReadMapping, zm.IEnumerableMapping, zm.IIterableMapping},
    'ClonableMapping': {zm.IClonableMapping},
    'ExtendedReadMapping': {zm.IItemMapping, zm.IReadMapping, zm.IEnumerableMapping, zm.IIterableMapping, zm.IExtendedReadMapping},
    'ExtendedWriteMapping': {zm.IWriteMapping, zm.IExtendedWriteMapping},
    'FullMapping': FULL,
}
BASE = {ni.INodeChildValidate, ni.IAdopt, ni.IAsAttrAccess, ni.IDefaultInit, ni.IStorage} | NODE
OLD = BASE | {ni.INodespaces, ni.IAttributes, ni.IReference, ni.IUUID, ni.IOrder, ni.IOrdered}
SHIPPED = [(BaseNode, BASE), (OrderedNode, BASE | {ni.IOrdered}), (Node, OLD), (AttributedNode, OLD),
           (AbstractNode, {ni.IAdopt} | NODE)]
NAMES = sorted(TABLE)


def gen(rng, i, tier):
    r = rng.random()
    names = rng.sample(NAMES, rng.choice([1, 2, 3, 3, 4, 5, 6]))
    for one, other in (('reference', 'uuid'), ('invalidate', 'cache'), ('volatile', 'cache'), ('volatile', 'invalidate'),
                       ('order', 'factory'), ('getattr', 'factory')):
        if one in names and other in names:
            names.remove(other)
    return {'kind': 'shipped' if r < .15 else 'partial' if r < .3 else 'fixed' if r < .35 else 'own' if r < .45 else 'composed',
            'n': rng.randrange(R), 'names': names, 'dict': rng.random() < .4 and 'order' not in names, 'events': rng.random() < .2,
            'derive': [rng.randrange(R) for _ in range(rng.choice([0, 1, 1, 2]))],
            'ops': gen_ops(rng, {'set': 6, 'del': 3, 'attr': 2, 'copy': 2, 'move': 2, 'clear': 1, 'mark': 1, 'name': 2, 'lock': 1,
                                 'fail': 2, 'call': 4}, 5, 25, 4)}


def own_init(self, name=None, parent=None):
    self._pairs = []
    self.__name__ = name
    self.__parent__ = parent


def make(case):
    """(class, interfaces, whether it is a complete node)"""
    kind, n = case['kind'], case['n']
    if kind == 'shipped':
        cls, want = pick(SHIPPED, n)
        return cls, set(want), cls is not AbstractNode
    if kind == 'partial':
        name = pick(sorted(PARTIAL), n)
        cls = plumbing(getattr(nb, name))(type('Partial', (object,), {}))
        return cls, set(PARTIAL[name]), False
    if kind == 'fixed':
        cls = plumbing(FixedChildren, DefaultInit, Nodify)(type('Fixed', (object,), {
            'fixed_children_factories': (('a', OrderedNode), ('b', OrderedNode))}))
        return cls, {ni.IFixedChildren, ni.IDefaultInit} | NODE, False
    parts, want = [], set()
    for name in case['names']:
        for b in TABLE[name][0]:
            if b not in parts:
                parts.append(b)
        want |= TABLE[name][1]
    if kind == 'own':
        parts = [b for b in parts if b is not VolatileStorageInvalidate and b is not Order]
        want = want - {ni.IOrder} if VolatileStorageInvalidate not in parts and 'volatile' not in case['names'] \
            else want - {ni.IOrder, ni.IInvalidate}
        cls = plumbing(*(parts + [Nodify]))(type('Own', (UserMapping,), {'__init__': own_init}))
        return cls, want | NODE, False
    storage = DictStorage if case['dict'] else OdictStorage
    cls = plumbing(*(parts + [DefaultInit, Nodify, storage]))(impl(IOwn)(type('Composed', (object,), {})))
    want |= NODE | {ni.IDefaultInit, ni.IStorage, IOwn}
    if storage is OdictStorage:
        want.add(ni.IOrdered)
    if case['events']:
        cls = plumbing(Events)(type('Composed', (cls,), {'__events__': ['happened']}))
        want.add(ni.IEvents)
    return cls, want, True


def verify(mon, o, want, what):
    got = set(providedBy(o).flattened())
    for i in EVERY:
        if i in want:
            mon.ev('verified')
            mon.true(i in got and i.providedBy(o), 'provided', what, 'does not provide', i.__name__)
        else:
            mon.ev('not-provided')
            mon.true(i not in got and not i.providedBy(o), 'not-provided', what, 'provides', i.__name__)
    for i in want:
        try:
            verifyObject(i, o)
        except Exception as e:
            raise Violation('promise', '{} breaks {}: {}'.format(what, i.__name__, e))


def run(case, mon):
    cls, want, complete = make(case)
    mon.ev('compositions')
    classes = [(cls, want)]
    for r in case['derive']:
        c, w = classes[-1]
        mon.ev('derived')
        if r % 3 == 0 and complete:
            name = pick(['asattr', 'lifecycle', 'fallback', 'getattr'], r // 3)
            if TABLE[name][1] <= w or (name == 'getattr' and ni.IChildFactory in w):
                continue
            c = plumbing(*TABLE[name][0])(type('Plumbed', (c,), {}))
            classes.append((c, w | TABLE[name][1]))
        elif r % 3 == 1:
            c = impl(ni.ILeaf)(type('Leaf', (c,), {}))
            classes.append((c, w | {ni.ILeaf}))
        else:
            classes.append((type('Plain', (c,), {}), w))
    for c, w in classes:
        mon.eq(set(implementedBy(c).flattened()) & EVERY, w, 'implemented', 'interfaces of', case['kind'], case['names'])
    helpers(mon, case['n'])
    objs = []
    for c, w in classes:
        objs.append([c(), set(w)])
    for o, w in objs:
        if case['kind'] == 'partial':
            verify_partial(mon, o, w)
            continue
        verify(mon, o, w, type(o).__name__ + ' of ' + str(case['names']))
        readonly(mon, o)
    if not complete:
        return
    values = ni.INodeChildValidate not in want and ni.IReference not in want and ni.ILifecycle not in want \
        and not any(ni.ILifecycle in w for c, w in classes) and not any(ni.IFallback in w for c, w in classes)
    made = {}
    for op, a, b, c, d in case['ops']:
        at = a % len(objs)
        o, w = objs[at]
        k = pick(['a', 'b', 'c', '', '0', 'name', ' ', '\u00e4'], b)
        mon.note(op, at, k)
        order = made.setdefault(id(o), [])
        if ni.IChildFactory in w and op in ('del', 'clear', 'move'):
            continue
        if op == 'set':
            if ni.IReference in w and k in order:
                continue
            v = 'value' if values and c % 3 == 0 else pick(classes, c)[0]()
            ok(mon, 'set', 'set', o.__setitem__, k, v)
            if k not in order:
                order.append(k)
        elif op == 'del' and order:
            k = pick(order, c)
            ok(mon, 'del', 'del', o.__delitem__, k)
            order.remove(k)
        elif op == 'clear':
            ok(mon, 'del', 'clear', o.clear)
            del order[:]
        elif op == 'attr' and ni.IAttributes in w:
            o.attrs[k] = c
            mon.ev('called')
            got = set(providedBy(o.attrs).flattened())
            verify(mon, o.attrs, NODE | {i for i in (ni.IAdopt, ni.IDefaultInit, ni.IStorage, ni.IOrdered, ni.INodeChildValidate,
                                                     ni.IUnicodeAware) if i in got}, 'attributes')
            readonly(mon, o.attrs)
        elif op == 'copy':
            mon.ev('copies')
            try:
                new = o.copy() if c % 2 else copy.deepcopy(o)
            except Exception as e:
                # whether it can be copied is not decided here
                mon.ev('not-copied')
                continue
            verify(mon, new, w, 'copy')
        elif op == 'move' and order and len(objs) > 1 and ni.INode.providedBy(o[order[0]]):
            to = pick(objs, c)[0]
            node = o.detach(order[0])
            k = order.pop(0)
            have = made.setdefault(id(to), [])
            if to is not node and k not in have:
                ok(mon, 'set', 'move', to.__setitem__, k, node)
                have.append(k)
        elif op == 'mark':
            alsoProvides(o, IMore)
            w.add(IMore)
        elif op == 'name':
            o.__name__ = k
            o.__name__ = None
        elif op == 'lock':
            with TreeLock(o):
                pass
        elif op == 'fail':
            for fn in (lambda: o['nothing'], lambda: o.__delitem__('nothing'), lambda: o.pop('nothing')):
                outcome(fn)
        elif op == 'call':
            call(mon, o, w, order, c, d)
        verify(mon, o, w, 'after {}: {} of {}'.format(op, type(o).__name__, case['names']))
        readonly(mon, o)
        if ni.IChildFactory not in w:
            for k, v in children(o):
                readonly(mon, v)
        if ni.IChildFactory in w:
            pass
        elif ni.IOrdered in w:
            mon.ev('order')
            mon.eq(take(o), order, 'order', 'keys of an ordered container')
        else:
            mon.eq(sorted(take(o)), sorted(order), 'order', 'keys of a container')
        mon.state((tuple(case['names']), case['kind'], len(w)))


def verify_partial(mon, o, want):
    """Primitives are up to the class using the behavior."""
    got = set(providedBy(o).flattened())
    for i in EVERY:
        mon.ev('verified' if i in want else 'not-provided')
        mon.true((i in got) == (i in want), 'provided', i.__name__, 'provided by a part of the mapping:', i in got)
    for i in want:
        for name in i.names(all=True):
            if name in ('update',) and not hasattr(o, name) and zm.IExtendedWriteMapping not in want:
                continue
            mon.ev('called')
            state, got = outcome(getattr, o, name)
            mon.true(state == 'ok' and callable(got), 'promise', 'a part of the mapping lacks', name)


def readonly(mon, o):
    """Read only properties; considered true."""
    if not ni.INode.providedBy(o):
        return
    mon.ev('true')
    mon.true(bool(o) is True, 'true', 'a node is false')
    was = o.__name__, o.__parent__
    mon.eq(o.name, was[0], 'read-only', 'name')
    mon.is_(o.parent, was[1], 'read-only', 'parent')
    for name in ('name', 'parent', 'path', 'root'):
        mon.ev('read-only')
        raises(mon, AttributeError, 'read-only', 'setting ' + name, setattr, o, name, None if name != 'path' else [])
    mon.true(o.__name__ is was[0] and o.__parent__ is was[1], 'read-only', 'place was changed')
    mon.true(type(o.path) is list, 'read-only', 'path is', o.path)


def call(mon, o, w, order, c, d):
    """Optional arguments of promised methods by name."""
    mon.ev('called')
    k = pick(order, c) if order else 'nothing'
    mark = object()
    mon.is_(ok(mon, 'call', 'get', o.get, 'nothing', default=mark), mark, 'call', 'get')
    mon.is_(ok(mon, 'call', 'pop', o.pop, 'nothing', mark), mark, 'call', 'pop')
    if ni.IEvents in w:
        def fn(*args, **kw):
            got.append((args, kw))
        got = []
        ok(mon, 'call', 'bind', o.bind, happened=fn)
        ok(mon, 'call', 'dispatch', o.dispatch, 'happened', 1, x=2)
        mon.eq(got, [((1,), {'x': 2})], 'call', 'dispatch')
        ok(mon, 'call', 'unbind', o.unbind, event='happened', subscriber=fn)
        ok(mon, 'call', 'dispatch', o.dispatch, 'happened', 1, x=2)
        mon.eq(len(got), 1, 'call', 'dispatch')
        mon.ev('events')
    if ni.IInvalidate in w and d % 3 == 0 and order and ni.IChildFactory not in w:
        ok(mon, 'call', 'invalidate', o.invalidate, key=k)
        order.remove(k)
    if ni.IUUIDAware in w:
        before = o.uuid
        ok(mon, 'call', 'set_uuid_for', o.set_uuid_for, o, override=False, recursiv=False)
        mon.eq(o.uuid, before, 'call', 'uuid')
        ok(mon, 'call', 'set_uuid_for', o.set_uuid_for, o, override=True, recursiv=False)
        mon.true(o.uuid != before and isinstance(o.uuid, uuid.UUID), 'call', 'uuid', o.uuid)
    cls = type(o)
    parent = OrderedNode()
    n = ok(mon, 'call', 'constructor', cls, name='n', parent=parent)
    mon.true(n.name == 'n' and n.parent is parent, 'call', 'constructor', n.name, n.parent)


def helpers(mon, r):
    """What is no node."""
    mon.ev('helpers')
    made = [
        (na.DictAliaser([('a', 'b')]), {ni.IAliaser}), (na.PrefixAliaser('x'), {ni.IAliaser}),
        (na.SuffixAliaser('x'), {ni.IAliaser}), (na.AliaserChain([na.PrefixAliaser('x')]), {ni.IAliaser}),
        (na.PrefixSuffixAliaser('x', 'y'), {ni.IAliaser}), (ReverseMapping({'a': 1}), {zm.IEnumerableMapping}),
        (Node().index, {zm.IReadMapping}),
        (ne.NodeCreatedEvent(Node()), {ni.INodeCreatedEvent, zl.IObjectCreatedEvent}),
        (ne.NodeAddedEvent(Node()), {ni.INodeAddedEvent, zl.IObjectAddedEvent}),
        (ne.NodeModifiedEvent(Node()), {ni.INodeModifiedEvent, zl.IObjectModifiedEvent}),
        (ne.NodeRemovedEvent(Node()), {ni.INodeRemovedEvent, zl.IObjectRemovedEvent}),
        (ne.NodeDetachedEvent(Node()), {ni.INodeDetachedEvent, zl.IObjectRemovedEvent}),
    ]
    o, want = pick(made, r)
    for i in want:
        mon.true(i.providedBy(o), 'provided', type(o).__name__, 'does not provide', i.__name__)
        try:
            verifyObject(i, o)
        except Exception as e:
            raise Violation('promise', '{} breaks {}: {}'.format(type(o).__name__, i.__name__, e))
    access = AttributeAccess({})
    mon.true(ni.IAttributeAccess.implementedBy(AttributeAccess), 'provided', 'attribute access')
    access.a = 1
    mon.eq(access['a'], 1, 'promise', 'attribute access')
