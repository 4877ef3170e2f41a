"""P27: the tree rendering shows every node and value once, indented, in stable order.

After random histories on trees of mixed node types the text is compared, line
by line, with an independent renderer working on public item access only, and
with the text of an equal tree built in another order.
"""
import contextlib
import io
from kit import *

ANCHORS = ['src/node/behaviors/nodify.py']
RULE = ('a case is a tree of up to 40 nodes of mixed types with plain values and mixed key types, changed by 10-60 operations '
        'and rendered in between with different indents and prefixes; non-trivial: at least one rendering of 3 lines')
QUICK, THOROUGH = 4000, 120000
MIN = {'render': 15000, 'lines': 100000, 'subtree': 4000, 'arguments': 8000, 'rebuilt': 4000, 'values': 20000,
       'unordered': 10000, 'mixed-keys': 3000, 'deep': 500, 'printed': 500, 'moody': 5000}
ASSUMPTIONS = ['keys, names and representations of values contain no line break',
               'keys of one unordered node have different texts']


class OwnRepr(VBaseNode):

    @property
    def noderepr(self):
        return 'own ' + str(len(self))


class Falsy(VOrderedNode):

    def __bool__(self):
        return False


# class, ordered, keys may be anything
TYPES = [
    (VBaseNode, False, True), (VOrderedNode, True, True), (VNode, True, False), (VAttributedNode, True, False),
    (PlainDictNode, False, True), (PlainOdictNode, True, True), (AdoptDictNode, False, True), (UserNode, False, True),
    (CachedNode, True, True), (OwnRepr, False, True), (Falsy, True, True), (EventsNode, True, True),
    (FallbackNode, True, True), (UnicodeNode, True, True), (LifecycleOrderedNode, True, False),
]
KEYS = ['a', 'b', 'c', 'B', 'ä', '日本', 'x y', 'a:b', ':', '', 'z', '10', '9', ' lead', '{}', '{0}', '%s', 'k' * 40]
MIXED = KEYS[:9] + [0, 1, 11, 2, -1, 2.5, None, (), ('t', 1), b'b', frozenset([1]), 1.25]
VALUES = [None, 0, '', 'v', 'ü', b'\xff', (), [], {}, 1.5, [1, [2]], {'k': 'v'}, UNSET, '{}', '{0}', object, VBaseNode,
          'a: b', True, -1, 'x' * 100, '%s', '\t']
PREFIX = [' ', ' ', '', '--', '\t', 'ab', 'ü', '{}', '%s', '   ']
W = {'add': 20, 'value': 14, 'del': 6, 'replace': 3, 'clear': 1, 'chain': 2, 'render': 12, 'sub': 5, 'rebuild': 3, 'print': 1,
     'rename': 1, 'attr': 2}


def gen(rng, i, tier):
    return {'cfg': {'root': i % len(TYPES), 'mixed': rng.random() < .4, 'uniform': rng.random() < .3,
                    'mood': rng.choice((None, None, None) + MOODS)},
            'ops': gen_ops(rng, W, 10, 60)}


def is_ordered(node):
    for cls, ordered, any_ in TYPES:
        if cls in type(node).__mro__[:2]:
            return ordered
    raise AssertionError(type(node))


def lines_of(node, out, level):
    """(level, text, node or None) for everything, top down."""
    out.append((level, node.noderepr))
    keys = take(node)
    if not is_ordered(node):
        texts = sorted(str(k) for k in keys)
        keys = sorted(keys, key=lambda k: texts.index(str(k)))
    for k in keys:
        v = node[k]
        if INode.providedBy(v):
            lines_of(v, out, level + 1)
        else:
            out.append((level + 1, '%s: %s' % (str(k), repr(v))))
    return out


def rebuilt(node, turn):
    """Equal tree; children of unordered nodes inserted in another order."""
    new = type(node)(name=node.__name__)
    keys = take(node)
    if not is_ordered(node):
        keys = list(reversed(keys)) if turn % 2 else keys[turn % len(keys):] + keys[:turn % len(keys)] if keys else keys
        if turn % 3 == 0:
            # an entry which is gone again
            new['gone'] = new['gone2'] = 1
            del new['gone']
            del new['gone2']
    for k in keys:
        v = node[k]
        if INode.providedBy(v):
            sub = rebuilt(v, turn)
            new[k] = sub
            sub.__name__ = v.__name__
        else:
            new[k] = v
    return new


def run(case, mon):
    cfg = case['cfg']
    root = TYPES[cfg['root']][0](name='root')

    def nodes():
        return walk(root)

    def new(node, r):
        if isinstance(node, (VNode, VAttributedNode)):
            # indexed trees consist of indexed nodes
            return moody(pick([VNode, VAttributedNode], r // 4), cfg['mood'] if r % 4 else None)()
        return moody(TYPES[cfg['root'] if cfg['uniform'] else r // 4 % len(TYPES)][0], cfg['mood'] if r % 4 else None)()

    def key(node, r):
        any_ = [t[2] for t in TYPES if t[0] in type(node).__mro__[:2]][0]
        return pick(MIXED if any_ and cfg['mixed'] else KEYS, r)

    def compare(node, r, s):
        prefix, indent = pick(PREFIX, r // 4), pick([0, 0, 1, 2, 3, 7], s)
        before = snap(root, ids=True)
        how = r % 4
        if how == 0:
            prefix, indent = ' ', 0
            text = ok(mon, 'render', 'treerepr', node.treerepr)
        elif how == 1:
            text = ok(mon, 'render', 'treerepr', node.treerepr, indent, prefix)
        elif how == 2:
            text = ok(mon, 'render', 'treerepr', lambda: node.treerepr(prefix=prefix, indent=indent))
        else:
            prefix = ' '
            text = ok(mon, 'render', 'treerepr', lambda: node.treerepr(indent=indent))
        mon.ev('render')
        mon.ev('moody', cfg['mood'] is not None)
        mon.ev('arguments', how in (1, 2, 3))
        mon.ev('subtree', node is not root)
        mon.true(isinstance(text, str), 'render', 'type of the rendering', type(text))
        exp = lines_of(node, [], 0)
        mon.ev('lines', len(exp))
        got = text.split('\n')
        mon.eq(got.pop(), '', 'lines', 'the text ends with a line break')
        mon.eq(len(got), len(exp), 'lines', 'number of lines of', text, 'for', exp)
        for g, (level, t) in zip(got, exp):
            mon.eq(g, prefix * (indent + 2 * level) + t, 'lines', 'line in', repr(text))
        mon.true(snap(root, ids=True) == before, 'purity', 'rendering changed the tree')
        mon.eq(ok(mon, 'render', 'treerepr', node.treerepr, indent, prefix), text, 'purity', 'rendered again')
        if len(exp) >= 3:
            mon.nontrivial.add(hash(text))
        if not is_ordered(node):
            mon.ev('unordered')
        mon.state((len(exp), max(x[0] for x in exp), len({t for l, t in exp})))

    for op, a, b, c, d in case['ops']:
        all_ = nodes()
        n = pick(all_, a)
        k = key(n, b)
        mon.note(op, a, k)
        if op == 'add' and len(all_) < 40:
            if k in n and INode.providedBy(n[k]):
                continue
            if k is None and isinstance(n, LifecycleOrderedNode):
                continue
            mon.ev('mixed-keys', not isinstance(k, str))
            n[k] = new(n, c)
        elif op == 'value':
            if k is None and isinstance(n, LifecycleOrderedNode):
                continue
            if k in n and INode.providedBy(n[k]):
                continue
            mon.ev('values')
            mon.ev('mixed-keys', not isinstance(k, str))
            n[k] = pick(VALUES, c)
        elif op in ('del', 'replace'):
            keys = take(n)
            if keys:
                k = pick(keys, b)
                if op == 'del':
                    del n[k]
                elif not INode.providedBy(n[k]):
                    n[k] = pick(VALUES, c)
        elif op == 'clear':
            n.clear()
        elif op == 'rename':
            n.__name__ = pick(KEYS, b)
        elif op == 'attr':
            if isinstance(n, ATTRIBUTED):
                n.attrs['invisible%d' % (b % 3)] = c
        elif op == 'chain' and len(all_) < 40:
            mon.ev('deep')
            for j in range(8):
                if k in n:
                    break
                n[k] = new(n, c + j)
                n = n[k]
                k = pick(KEYS, d + j)
        elif op == 'render':
            compare(root, c, d)
        elif op == 'sub':
            compare(n, c, d)
        elif op == 'rebuild':
            mon.ev('rebuilt')
            other = rebuilt(n, c)
            mon.eq(other.treerepr(), n.treerepr(), 'history', 'an equal tree built in another order')
        elif op == 'print':
            mon.ev('printed')
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                n.printtree()
            mon.eq(out.getvalue(), n.treerepr() + '\n', 'render', 'printtree')
    compare(root, 0, 0)
    compare(root, case['cfg']['root'] + 1, len(case['ops']))
    other = rebuilt(root, len(case['ops']))
    mon.ev('rebuilt')
    mon.eq(other.treerepr(), root.treerepr(), 'history', 'an equal tree built in another order')


def fixed(mon):

    def names():
        # the representation of a node names its class and its name
        for cls, ordered, any_ in TYPES:
            if cls is OwnRepr:
                continue
            for name in KEYS + [None]:
                if name is not None and ':' in name:
                    continue
                t = cls(name=name).treerepr()
                mon.true(t.startswith(str(cls)) and t.endswith(str(name) + '\n'), 'names', t)
                mon.true(cls.__name__ in t, 'names', t)
    yield 'names', names

    def wide():
        import random
        rng = random.Random(5)
        for cls, ordered, any_ in TYPES:
            keys = ['k%d' % i for i in range(300)]
            rng.shuffle(keys)
            node = cls(name='w')
            for k in keys:
                node[k] = k
            got = [x.strip().split(':')[0] for x in node.treerepr().split('\n')[1:-1]]
            mon.eq(got, keys if ordered else sorted(keys), 'order', cls.__name__)
    yield 'wide', wide
