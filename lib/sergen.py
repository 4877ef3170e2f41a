"""Random trees and attribute values for serialization."""
import uuid
from kit import *
from serpkg.types import *  # noqa
from serpkg import types as T

TEXT = ['', 'a', 'ü', '日本', 'x y', '"q"', '\\', '\n\t', '\x00', '\u2028', '<b>', '<UUID>', 'UNSET', '</script>', '0',
        'null', 'node.base', '\U0001f600', '__node', '<UNSET', 'a.b.c', 'e\u0301', ' ', ' <UNSET>', '<unset>', '<UNSET', ' <UUID>:', 'uuid:']
NUMBERS = [0, 1, -1, 2 ** 53, 10 ** 30, -10 ** 20, 0.5, -0.0, 1e300, 1e-300, 1.1]
KEYS = ['a', 'b', 'c', 'ü', 'x y', '', 'key', '__x', 'y__', 'name', 'children', 'attrs', 'class', 'kw', 'root', '.',
        'values', 'n1', 'n2', 'parent']


# accept only their kind as children
REFERENCE = (Node, AttributedNode)


def refs():
    from serpkg.deep import refs as r
    import collections
    import fractions
    import posixpath
    return [r.Referenced, r.function, r.another, r.Referenced.method, r.Referenced.Inner, r.Referenced.Inner.Inmost, r.Referenced.Inner.Inmost.method, r.Referenced.Inner.Inmost.Core.Kernel,
            r.Referenced.Inner.Inmost.Core.Kernel.Last.method, r.Falsy, int, dict,
            collections.OrderedDict, fractions.Fraction, posixpath.join, T.Marked, T.ser_init, BaseNode, OrderedNode,
            object, ValueError, uuid.UUID, uuid.uuid4]


def size(rng, n, big):
    """Usually less than n, sometimes many."""
    return rng.randrange(big) if rng.random() < .03 else rng.randrange(n)


def key(rng):
    k = rng.choice(KEYS)
    return k + rng.choice(['1', '-' * 70, '\xfc\u65e5', ' {}', '.x', '\t', '_']) if rng.random() < .15 else k


def value(rng, depth=0):
    k = rng.randrange(14 if depth < 4 else 9)
    if k == 0:
        return rng.choice([None, True, False])
    if k == 1:
        return rng.choice(NUMBERS)
    if k in (2, 3):
        return rng.choice(TEXT)
    if k == 4:
        return uuid.UUID(int=rng.getrandbits(128))
    if k == 5:
        return UNSET
    if k in (6, 7):
        return rng.choice(refs())
    if k == 8:
        return rng.choice([[], {}, 0, '', 1, uuid.UUID(int=0)])
    if k in (9, 10, 11):
        return [value(rng, depth + 1) for _ in range(size(rng, 4, 12 if depth < 2 else 4))]
    return {key(rng): value(rng, depth + 1) for _ in range(size(rng, 4, 12 if depth < 2 else 4))}


def tree(rng, types, budget, depth=0, name=None):
    """(node, …) built bottom up; budget is a list with the nodes left."""
    cls = rng.choice(types)
    if cls is InitNode:
        node = cls(value(rng, 2), value(rng, 3))
    else:
        node = cls(name=name)
    node.__name__ = name
    if isinstance(node, T.ATTRIBUTED):
        for _ in range(size(rng, 5, 25)):
            T.attrs_of(node)[key(rng)] = value(rng)
    for c, names in T.REGISTERED:
        if c is not InitNode and T.applies(c, node):
            for n in names:
                setattr(node, n, value(rng, 2))
    for _ in range(size(rng, 5 if depth < 2 else 3, 20) if depth < 6 else 0):
        if budget[0] <= 0:
            break
        budget[0] -= 1
        if isinstance(node, T.LazyNode):
            # lists the keys of its factories only
            k = rng.choice(list(node.factories))
        elif isinstance(node, (Node, AttributedNode, OwnNode)):
            k = key(rng)
        else:
            k = rng.choice([key(rng), key(rng), key(rng), rng.choice([1, 2, 0, 7, 1.5])])
        kinds = types
        if isinstance(node, REFERENCE):
            kinds = [t for t in types if issubclass(t, REFERENCE)]
        if not kinds:
            break
        node[k] = tree(rng, kinds, budget, depth + 1, k)
    return node


def nodes_of(ob):
    if isinstance(ob, list):
        return [n for x in ob for n in nodes_of(x)]
    return [ob] + [n for c in ob.values() for n in nodes_of(c)]
