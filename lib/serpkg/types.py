from node.base import AttributedNode
from node.base import BaseNode
from node.base import Node
from node.base import OrderedNode
from node.behaviors import Adopt
from node.behaviors import Attributes
from node.behaviors import ChildFactory
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import Lifecycle
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.interfaces import INode
from node.serializer import deserializer
from node.serializer import serializer
from node.utils import UNSET
from odict import odict
from plumber import plumbing
from zope.interface import Interface
from zope.interface import alsoProvides
from zope.interface import implementer
import uuid

from serpkg.deep import types as deep

CALLS = []


class Derived(OrderedNode):
    pass


class FalsyNode(AttributedNode):

    def __bool__(self):
        return False


class EqualNode(OrderedNode):
    # not hashable by this

    def __eq__(self, other):
        return INode.providedBy(other)

    def __ne__(self, other):
        return not self == other


class AccessNode(AttributedNode):
    attribute_access_for_attrs = True


@plumbing(Nodespaces, Attributes, NodeChildValidate, Adopt, Order, DefaultInit, Nodify, OdictStorage)
class OwnNode(object):
    pass


@plumbing(Lifecycle)
class LifecycleNode(AttributedNode):
    pass


class ReadyNode(AttributedNode):
    """Has children and attributes from the start."""

    def __init__(self, name=None, parent=None):
        AttributedNode.__init__(self, name, parent)
        self['first'] = AttributedNode()
        self['b'] = Derivate()
        self.attrs['first'] = [1]
        self.attrs['a'] = 'text'


class Derivate(AttributedNode):
    pass


@plumbing(ChildFactory, Nodespaces, Attributes, NodeChildValidate, Adopt, DefaultInit, Nodify, OdictStorage)
class LazyNode(object):
    """Creates its children when they are read."""
    factories = odict([('first', OrderedNode), ('b', Derived), ('a', BaseNode)])


class IMarked(Interface):
    pass


@implementer(IMarked)
class Marked(AttributedNode):
    """Serializer registered for its interface."""
    mark = None


class MarkedToo(Marked):
    """... and another one for this class."""
    extra = None


class InitNode(AttributedNode):
    """Needs arguments."""

    def __init__(self, a, b=None):
        AttributedNode.__init__(self)
        self.a = a
        self.b = b


@implementer(IMarked)
class MarkedPlain(OrderedNode):
    mark = None


class Providing(OrderedNode):
    """Instances provide the interface, the class does not implement it."""
    mark = None

    def __init__(self, name=None, parent=None):
        OrderedNode.__init__(self, name, parent)
        alsoProvides(self, IMarked)


@serializer(IMarked)
def ser_marked(encoder, node, data):
    CALLS.append(('ser', IMarked, node))
    data['mark'] = encoder.default(node.mark)


@deserializer(IMarked)
def deser_marked(decoder, node, data):
    CALLS.append(('deser', IMarked, node))
    node.mark = decoder.decode(data['mark'])


@serializer(MarkedToo)
def ser_marked_too(encoder, node, data):
    CALLS.append(('ser', MarkedToo, node))
    data['extra'] = encoder.default(node.extra)


@deserializer(MarkedToo)
def deser_marked_too(decoder, node, data):
    CALLS.append(('deser', MarkedToo, node))
    node.extra = decoder.decode(data['extra'])


@serializer(InitNode)
def ser_init(encoder, node, data):
    CALLS.append(('ser', InitNode, node))
    data['kw'] = {'a': encoder.default(node.a), 'b': encoder.default(node.b)}


# what is registered, and which instance attributes it carries
REGISTERED = [(IMarked, ('mark',)), (MarkedToo, ('extra',)), (InitNode, ('a', 'b'))]


def applies(cls, node):
    return cls.providedBy(node) if cls is IMarked else isinstance(node, cls)


TYPES = [BaseNode, OrderedNode, AttributedNode, Node, Derived, AccessNode, OwnNode, LifecycleNode, Marked, MarkedToo,
         InitNode, MarkedPlain, FalsyNode, EqualNode, Providing, ReadyNode, LazyNode, deep.Derived, deep.OwnNode, deep.BaseNode]
ATTRIBUTED = (AttributedNode, Node, OwnNode, LazyNode)
ORDERED = tuple(t for t in TYPES if t is not BaseNode)


def attrs_of(node):
    a = node.attrs
    return a if hasattr(type(a), 'items') else object.__getattribute__(a, 'context')


def image_value(v):
    if v is UNSET:
        return ['UNSET']
    if isinstance(v, uuid.UUID):
        return ['uuid', str(v)]
    if isinstance(v, type) or callable(v):
        return ['ref', v.__module__, v.__qualname__]
    if isinstance(v, dict):
        return ['dict', [[k, image_value(x)] for k, x in v.items()]]
    if isinstance(v, list):
        return ['list', [image_value(x) for x in v]]
    return [type(v).__name__, v]


def image(node):
    """What a decoded tree must agree in; JSON value."""
    if isinstance(node, list):
        return ['nodes', [image(x) for x in node]]
    if not INode.providedBy(node):
        return ['value', image_value(node)]
    out = ['node', type(node).__module__ + '.' + type(node).__qualname__, image_value(node.__name__)]
    kids = [[image_value(k), image(c), c.__name__ == k and c.__parent__ is node] for k, c in node.items()]
    if isinstance(node, ORDERED):
        out.append(kids)
    else:
        out.append(sorted(kids, key=repr))
    if isinstance(node, ATTRIBUTED):
        out.append([[k, image_value(v)] for k, v in attrs_of(node).items()])
    for cls, names in REGISTERED:
        if applies(cls, node):
            out.append([[n, image_value(getattr(node, n))] for n in names])
    return out
