"""Node classes, generators and reference helpers shared by the checks.

Only public API of the code under test is used here.
"""
import itertools
from odict import odict
from node.base import AbstractNode
from node.base import AttributedNode
from node.base import BaseNode
from node.base import Node
from node.base import OrderedNode
from node.behaviors import Adopt
from node.behaviors import Alias
from node.behaviors import AsAttrAccess
from node.behaviors import Attributes
from node.behaviors import AttributesLifecycle
from node.behaviors import Cache
from node.behaviors import ChildFactory
from node.behaviors import DefaultInit
from node.behaviors import DictStorage
from node.behaviors import EventAttribute
from node.behaviors import Events
from node.behaviors import Fallback
from node.behaviors import FixedChildren
from node.behaviors import FullMapping
from node.behaviors import GetattrChildren
from node.behaviors import Invalidate
from node.behaviors import Lifecycle
from node.behaviors import NodeAttributes
from node.behaviors import NodeChildValidate
from node.behaviors import Nodespaces
from node.behaviors import Nodify
from node.behaviors import OdictStorage
from node.behaviors import Order
from node.behaviors import Reference
from node.behaviors import Storage
from node.behaviors import UnicodeAware
from node.behaviors import UUIDAware
from node.behaviors import VolatileStorageInvalidate
from node.interfaces import INode
from node.utils import UNSET
from plumber import Behavior
from plumber import default
from plumber import finalize
from plumber import override
from plumber import plumb
from plumber import plumbing
from zope.interface import implementer
from rt import Mon, Violation, ok, outcome, raises, short  # noqa

R = 1 << 16


def gen_ops(rng, weights, lo, hi, width=4):
    """[[name, int…]…]; the meaning of the integers is taken modulo what is
    available when the operation runs, so every subsequence is valid too."""
    names = list(weights)
    w = [weights[n] for n in names]
    if rng.random() < .03:
        # a long history of mostly the same operations
        lo, hi = 3 * hi, 5 * hi
        for z in rng.choices(range(len(w)), w, k=2):
            w[z] *= 20
    return [[rng.choices(names, w)[0]] + [rng.randrange(R) for _ in range(width)]
            for _ in range(rng.randint(lo, hi))]


def pick(seq, r):
    return seq[r % len(seq)]


# ---------------------------------------------------------------------------
# compositions
# ---------------------------------------------------------------------------

class VBaseNode(BaseNode):
    allow_non_node_childs = True


class VOrderedNode(OrderedNode):
    allow_non_node_childs = True


class VNode(Node):
    allow_non_node_childs = True


class VAttributedNode(AttributedNode):
    allow_non_node_childs = True


@plumbing(DefaultInit, Nodify, DictStorage)
class PlainDictNode(object):
    pass


@plumbing(DefaultInit, Nodify, OdictStorage)
class PlainOdictNode(object):
    pass


@plumbing(Adopt, DefaultInit, Nodify, OdictStorage)
class AdoptOdictNode(object):
    pass


@plumbing(Adopt, DefaultInit, Nodify, DictStorage)
class AdoptDictNode(object):
    pass


@plumbing(FullMapping, DictStorage)
class PureDictMapping(object):
    pass


@plumbing(FullMapping, OdictStorage)
class PureOdictMapping(object):
    pass


@plumbing(FullMapping)
class UserMapping(object):
    """The four primitives hand written, everything else from the behavior."""

    def __init__(self):
        self._pairs = []

    def __getitem__(self, key):
        for k, v in self._pairs:
            if k == key:
                return v
        raise KeyError(key)

    def __setitem__(self, key, val):
        for i, (k, v) in enumerate(self._pairs):
            if k == key:
                self._pairs[i] = (k, val)
                return
        self._pairs.append((key, val))

    def __delitem__(self, key):
        for i, (k, v) in enumerate(self._pairs):
            if k == key:
                del self._pairs[i]
                return
        raise KeyError(key)

    def __iter__(self):
        return iter([k for k, v in self._pairs])


@plumbing(Nodify)
class UserNode(UserMapping):
    __name__ = None
    __parent__ = None

    def __init__(self, name=None, parent=None):
        self._pairs = []
        self.__name__ = name
        self.__parent__ = parent


class OwnStorageNode(Nodify):
    pass


@plumbing(Adopt, DefaultInit, Nodify, Storage)
class CustomStorageNode(object):
    """Storage given per instance."""

    @property
    def storage(self):
        return self.__dict__.setdefault('_own', odict())


@plumbing(Cache, Invalidate)
class CachedNode(VOrderedNode):
    pass


@plumbing(Alias)
class UnaliasedNode(VOrderedNode):
    pass


@plumbing(UnicodeAware)
class UnicodeNode(VOrderedNode):
    pass


@plumbing(Lifecycle)
class LifecycleOrderedNode(VOrderedNode):
    pass


@plumbing(Lifecycle)
class LifecycleNode(VNode):
    pass


@plumbing(Adopt, Reference, DefaultInit, Nodify, OdictStorage)
class RefNode(object):
    pass


@plumbing(Adopt, Reference, DefaultInit, Nodify, DictStorage)
class RefDictNode(object):
    pass


@plumbing(Order)
class OrderNode(OrderedNode):
    pass


@plumbing(Adopt, Order, Reference, DefaultInit, Nodify, OdictStorage)
class OrderRefNode(object):
    pass


@plumbing(Events)
class EventsNode(VOrderedNode):
    pass


@plumbing(Fallback)
class FallbackNode(VOrderedNode):
    pass


# name -> (class, ordered, any hashable key, values may be anything)
MAPPINGS = {
    'VBaseNode': (VBaseNode, False, True, True),
    'VOrderedNode': (VOrderedNode, True, True, True),
    'VNode': (VNode, True, False, True),
    'VAttributedNode': (VAttributedNode, True, False, True),
    'BaseNode': (BaseNode, False, True, False),
    'OrderedNode': (OrderedNode, True, True, False),
    'Node': (Node, True, False, False),
    'AttributedNode': (AttributedNode, True, False, False),
    'NodeAttributes': (NodeAttributes, True, True, True),
    'PlainDictNode': (PlainDictNode, False, True, True),
    'PlainOdictNode': (PlainOdictNode, True, True, True),
    'AdoptOdictNode': (AdoptOdictNode, True, True, True),
    'AdoptDictNode': (AdoptDictNode, False, True, True),
    'PureDictMapping': (PureDictMapping, False, True, True),
    'PureOdictMapping': (PureOdictMapping, True, True, True),
    'UserMapping': (UserMapping, True, True, True),
    'UserNode': (UserNode, True, True, True),
    'CustomStorageNode': (CustomStorageNode, True, True, True),
    'CachedNode': (CachedNode, True, True, True),
    'UnaliasedNode': (UnaliasedNode, True, True, True),
    'UnicodeNode': (UnicodeNode, True, True, True),
    'LifecycleOrderedNode': (LifecycleOrderedNode, True, False, True),
    'LifecycleNode': (LifecycleNode, True, False, True),
    'RefNode': (RefNode, True, True, False),
    'RefDictNode': (RefDictNode, False, True, False),
    'OrderNode': (OrderNode, True, True, False),
    'OrderRefNode': (OrderRefNode, True, True, False),
    'EventsNode': (EventsNode, True, True, True),
    'FallbackNode': (FallbackNode, True, True, True),
}

class Bury(OrderedNode):
    """Somewhere above."""


STR_KEYS = ['a', 'b', 'c', 'd', 'key', '', 'ä', '日本', 'x y', 'a/b', ':', '_p', '__x', 'y__', 'A', '0',
            'name', 'keys', 'storage', 'parent', 'long' * 20]
ANY_KEYS = STR_KEYS[:9] + [0, 1, -1, True, 2.5, None, (), ('a', 1), b'\xffb', frozenset([1])]



class Text(str):
    """A text which is no plain one."""


STYLES = {None: lambda k: k, 'text': Text, 'long': lambda k: k + '-' + 'x' * 70, 'far': lambda k: '\xfc' + k + '\u65e5',
          'blank': lambda k: ' ' + k + '\t', 'marks': lambda k: k + './%s{};', 'under': lambda k: '_' + k,
          'upper': lambda k: k.upper(), 'digits': lambda k: ''.join('%03d' % ord(c) for c in k) or '0'}


def style(rng):
    return rng.choice(sorted(STYLES, key=str)) if rng.random() < .4 else None


def styled(st, keys):
    """The keys, texts among them written in another way."""
    fn = STYLES[st]
    return [fn(k) if isinstance(k, str) else k for k in keys]


def bury(node, r, names=STR_KEYS):
    """Puts the node somewhere into a tree of other nodes (every other time)."""
    depth = (0, 0, 0, 1, 2, 4, 8)[r % 7] if INode.providedBy(node) else 0
    r //= 7
    for n in range(depth):
        up = Bury()
        name = pick(names, r + n * n)
        if name.startswith('__'):
            name = 'n'
        up['first'] = Bury()
        up[name] = node
        node = up
    return depth


def key_for(cfg_any, r, n=9):
    pool = ANY_KEYS if cfg_any else STR_KEYS
    return pool[(r % n) if n < len(pool) else r % len(pool)]


PLAIN = [None, 0, '', False, 1, 'v', 'ü', b'\xff', (), [], {}, 1.5, [1, [2]], {'k': 'v'}, UNSET, -7, 'None', True,
         set(), object]


def fresh_value(r):
    """A non-node value; containers are new objects."""
    v = PLAIN[r % len(PLAIN)]
    if isinstance(v, (list, dict, set)):
        import copy
        v = copy.deepcopy(v)
    return v


def same(a, b):
    """Identity, or equal values of the same type."""
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    try:
        return bool(a == b)
    except Exception:
        return False


def same_seq(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def ident_pairs(a, b):
    """Two lists of pairs agree: keys equal, values identical objects."""
    return len(a) == len(b) and all(x[0] == y[0] and type(x[0]) is type(y[0]) and x[1] is y[1]
                                    for x, y in zip(a, b))


# ---------------------------------------------------------------------------
# nodes with unusual, but allowed, special methods
# ---------------------------------------------------------------------------

MOODS = ('falsy', 'equal', 'both', 'unhashable')
_moody = {}


def moody(cls, mood):
    """A subclass of ``cls`` whose instances are false, equal to each other or not hashable."""
    if not mood:
        return cls
    if (cls, mood) not in _moody:
        body = {}
        if mood in ('falsy', 'both'):
            body['__bool__'] = lambda self: False
        if mood in ('equal', 'both'):
            body['__eq__'] = lambda self, other: INode.providedBy(other)
            body['__ne__'] = lambda self, other: not INode.providedBy(other)
            body['__hash__'] = lambda self: 7
        if mood == 'unhashable':
            body['__eq__'] = lambda self, other: self is other
            body['__hash__'] = None
        # importable, for pickling
        body['__module__'] = __name__
        body['__qualname__'] = '_moody%d' % len(_moody)
        _moody[cls, mood] = type(cls)(cls.__name__, (cls,), body)
        _moody[cls, mood].__name__ = cls.__name__
        globals()[body['__qualname__']] = _moody[cls, mood]
    return _moody[cls, mood]


# ---------------------------------------------------------------------------
# snapshots
# ---------------------------------------------------------------------------

def take(it, limit=5000):
    """list(it), but never endless."""
    out = list(itertools.islice(iter(it), limit + 1))
    if len(out) > limit:
        raise Violation('endless-iteration', 'more than {} entries'.format(limit))
    return out


def children(node):
    """[(key, child)] through iteration and item access."""
    return [(k, node[k]) for k in take(node)]


def walk(node):
    """node and all nodes below."""
    out = []
    todo = [node]
    while todo:
        n = todo.pop()
        out.append(n)
        if len(out) > 5000:
            raise Violation('endless-tree', 'more than 5000 nodes')
        todo.extend(c for k, c in children(n) if INode.providedBy(c))
    return out


def freeze(v):
    """Hashable/equatable image of a plain value."""
    if isinstance(v, dict):
        return ('dict', tuple((freeze(k), freeze(x)) for k, x in v.items()))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(freeze(x) for x in v))
    if isinstance(v, (set, frozenset)):
        return (type(v).__name__, tuple(sorted(map(repr, v))))
    if v is UNSET:
        return ('UNSET',)
    return (type(v).__name__, v if isinstance(v, (str, bytes, int, float, bool, type(None))) else repr(v))


def snap(node, attrs=True, uuids=False, ids=False, depth=0, top_name=True):
    """Structure of a tree as nested tuples."""
    if not INode.providedBy(node):
        return ('value', id(node) if ids else None, freeze(node))
    if depth > 300:
        raise Violation('endless-tree', 'deeper than 300')
    out = [type(node).__module__ + '.' + type(node).__name__,
           node.__name__ if top_name else None]
    if ids:
        out.append(id(node))
    if uuids and hasattr(node, 'uuid'):
        out.append(('uuid', str(node.uuid)))
    if attrs and isinstance(node, ATTRIBUTED):
        a = node.attrs
        if not hasattr(type(a), 'items'):
            a = object.__getattribute__(a, 'context')
        out.append(('attrs', tuple((k, snap(v, attrs, uuids, ids, depth + 1)) for k, v in children(a))))
    out.append(tuple((k, snap(v, attrs, uuids, ids, depth + 1)) for k, v in children(node)))
    return tuple(out)


ATTRIBUTED = (Node, AttributedNode)


def check_links(mon, root, kind='location'):
    """name/parent of everything below root, through plain attributes."""
    todo = [root]
    while todo:
        n = todo.pop()
        for k, c in children(n):
            if INode.providedBy(c):
                mon.true(c.__name__ == k and c.name == k, kind, 'name of child', k, 'is', c.__name__)
                mon.true(c.__parent__ is n and c.parent is n, kind, 'parent of child', k, 'is', c.__parent__)
                todo.append(c)
