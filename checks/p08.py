"""P08: deep copies and pickles are complete, equal-shaped and disjoint.

Random trees are copied (deepcopy method, copy module, pickle protocols from 2);
the copy is compared with the original, both object graphs are checked for
shared nodes and containers, and then either side is edited at random while the
other one must not change.
"""
import copy
import pickle
from kit import *
from large import build, located, walk_pairs
from node.locking import TreeLock
from zope.interface import Interface
from zope.interface import alsoProvides

ANCHORS = ['src/node/behaviors/nodify.py', 'src/node/behaviors/mapping.py', 'src/node/behaviors/nodespace.py',
           'src/node/behaviors/storage.py', 'src/node/behaviors/attributes.py']
RULE = ('a case is a family of node classes, a random tree, a copy route and 3-25 later edits on both sides; '
        'non-trivial: the copied node has descendants, values or attributes')
QUICK, THOROUGH = 4000, 60000
MIN = {'copies': 2000, 'nodes-compared': 8000, 'later-edits': 5000, 'shallow': 800, 'route.pickle': 500,
       'route.deepcopy': 300, 'lookups': 2000, 'attrs': 500, 'moody': 500}
ASSUMPTIONS = ['pickle protocols 0 and 1 are not used: the odict dependency does not survive them', 'independence of shallow copies and copies of UUID aware nodes (P09) are not part of this property']


class IMarker(Interface):
    pass


class SubNode(VNode):
    class_attr = 1


class SubOrdered(VOrderedNode):
    pass


class AttrAccessNode(VNode):
    attribute_access_for_attrs = True


@plumbing(ChildFactory)
class LazyNode(VOrderedNode):
    factories = odict([('lazy1', SubOrdered), ('lazy2', SubOrdered)])


@plumbing(FixedChildren, DefaultInit, Nodify)
class FixedNode(object):
    fixed_children_factories = (('f1', SubOrdered), ('f2', SubOrdered))


@plumbing(Events)
class EventNode(VNode):
    counter = EventAttribute(0)
    listed = EventAttribute(None, storage='attrs')


@plumbing(Cache, Invalidate)
class CacheRefNode(VNode):
    pass


@plumbing(Nodespaces, Attributes, Adopt, DefaultInit, Nodify, DictStorage)
class UnorderedAttributed(object):
    pass


@plumbing(Attributes, Nodespaces, Adopt, DefaultInit, Nodify, OdictStorage)
class OrderedAttributed(object):
    pass


# families: classes that may be combined freely
FAMILIES = [
    [VNode], [VNode, SubNode, AttrAccessNode, VAttributedNode], [VBaseNode], [VOrderedNode, SubOrdered],
    [VBaseNode, VOrderedNode, VNode], [PlainDictNode, PlainOdictNode], [AdoptOdictNode, AdoptDictNode],
    [CachedNode, VOrderedNode], [CacheRefNode], [UnaliasedNode], [RefNode], [RefDictNode], [OrderRefNode],
    [LifecycleNode, VNode], [EventNode, VNode], [UserNode], [CustomStorageNode], [LazyNode, VOrderedNode],
    [FixedNode, VOrderedNode], [UnorderedAttributed, OrderedAttributed], [UnicodeNode, FallbackNode],
    [Node], [OrderedNode, BaseNode, Node],
]
UNORDERED = (BaseNode, PlainDictNode, AdoptDictNode, RefDictNode, UnorderedAttributed)
ROUTES = ['deepcopy', 'copy.deepcopy'] + ['pickle%d' % p for p in range(2, 6)]
BUILD = {'node': 8, 'value': 4, 'attr': 4, 'attrnode': 1, 'mark': 1, 'space': 1, 'touch': 2, 'del': 1}
EDIT = {'node': 5, 'value': 4, 'attr': 4, 'del': 4, 'delattr': 2, 'mutate': 4, 'rename': 1, 'uuid': 2, 'clear': 1,
        'event': 2, 'touch': 1, 'recopy': 1}


def gen(rng, i, tier):
    return {'cfg': {'fam': i % len(FAMILIES), 'route': ROUTES[(i // len(FAMILIES)) % len(ROUTES)],
                    'sub': rng.random() < .3, 'pick': rng.randrange(R), 'name': rng.choice([None, 'root', '', 'ä']),
                    'mood': rng.choice((None, None) + MOODS), 'style': style(rng)},
            'build': gen_ops(rng, BUILD, 2, 22, 4), 'ops': gen_ops(rng, EDIT, 3, 25, 5)}


def has_attrs(o):
    return hasattr(o, 'attrs') and not isinstance(o, AsAttr)


class AsAttr(object):
    pass


def attr_map(o):
    a = o.attrs
    return a if hasattr(type(a), 'items') else object.__getattribute__(a, 'context')


def takes_values(o):
    return getattr(o, 'allow_non_node_childs', False) or not isinstance(o, (
        BaseNode, OrderedNode, Node, AttributedNode, RefNode, RefDictNode, OrderRefNode, FixedNode))


def is_ref(o):
    return hasattr(o, 'uuid') and hasattr(o, 'node')


def all_nodes(node):
    return walk(node)


def image(node):
    """Everything visible of a tree, with identities of nodes."""
    out = []

    def one(n, depth):
        kids = children(n)
        if isinstance(n, UNORDERED):
            kids = sorted(kids, key=lambda x: repr(x[0]))
        out.append((depth, type(n), n.__name__, getattr(n, 'uuid', None), IMarker.providedBy(n),
                    getattr(n, 'counter', None) if isinstance(n, EventNode) else None,
                    tuple((repr(k), None if INode.providedBy(v) else freeze(v)) for k, v in kids)))
        if has_attrs(n):
            for k, v in children(attr_map(n)):
                out.append((depth, 'attr', k, freeze(v) if not INode.providedBy(v) else '<node>'))
                if INode.providedBy(v):
                    one(v, depth + 1)
        for k, v in kids:
            if INode.providedBy(v):
                one(v, depth + 1)
    one(node, 0)
    return out


def containers(v, acc):
    if isinstance(v, (list, dict, set)):
        acc[id(v)] = v
        for x in (v.values() if isinstance(v, dict) else v):
            containers(x, acc)
    elif isinstance(v, tuple):
        for x in v:
            containers(x, acc)


def mutable(node):
    """id -> object of all nodes, attribute mappings and mutable values."""
    acc = {}
    for n in walk(node):
        acc[id(n)] = n
        for k, v in children(n):
            if not INode.providedBy(v):
                containers(v, acc)
        if has_attrs(n):
            a = attr_map(n)
            acc[id(a)] = a
            for k, v in children(a):
                if INode.providedBy(v):
                    acc.update(mutable(v))
                else:
                    containers(v, acc)
    return acc


def compare(mon, a, b, what):
    """b is a complete disjoint copy of a."""
    ia, ib = image(a), image(b)
    mon.ev('nodes-compared', len(walk(a)))
    if ia != ib:
        diff = [(x, y) for x, y in zip(ia, ib) if x != y][:1]
        raise Violation('copy-differs', '{}: {} (lengths {} {})'.format(what, short(diff), len(ia), len(ib)))
    ma, mb = mutable(a), mutable(b)
    shared = set(ma) & set(mb)
    mon.true(not shared, 'shared-state', what, 'shares', [ma[x] for x in list(shared)[:2]])
    for n in walk(b):
        for k, c in children(n):
            if INode.providedBy(c) and adopting(n):
                mon.is_(c.__parent__, n, 'copied-parent', 'parent of copied child {!r}'.format(k))
                mon.is_(c.parent, n, 'copied-parent', 'parent of copied child {!r}'.format(k))
        if has_attrs(n):
            mon.ev('attrs')
            mon.is_(attr_map(n).__parent__, n, 'attrs-parent', 'parent of copied attributes')
            mon.is_(attr_map(n), attr_map(n), 'attrs', 'attributes of the copy')
    lookups(mon, a)
    lookups(mon, b)


def adopting(n):
    return not isinstance(n, (PlainDictNode, PlainOdictNode, UserNode))


def lookups(mon, root):
    if not is_ref(root):
        return
    top = root
    while top.__parent__ is not None and is_ref(top.__parent__):
        top = top.__parent__
    nodes = walk(top)
    for n in nodes:
        mon.ev('lookups')
        mon.is_(root.node(n.uuid), n, 'lookup', 'lookup in a tree after copying')


def apply(mon, root, fam, op, a, b, c, d, st=None):
    nodes = [n for n in walk(root)]
    n = pick(nodes, a)
    fixed = isinstance(n, FixedNode)
    key = STYLES[st]('k%d' % (b % 4)) if d % 5 or isinstance(n, (AttributedNode, Node, OrderedAttributed, UnorderedAttributed,
                                                     UnicodeNode, FallbackNode, LazyNode)) \
        else pick(ANY_KEYS, b)
    if isinstance(n, LazyNode):
        key = pick(['lazy1', 'lazy2', 'k1'], b)
    if op == 'node' and not fixed and len(nodes) < 25:
        x = fam[c % len(fam)]()
        if is_ref(n) and not is_ref(x):
            return
        n[key] = x
        if has_attrs(x) and d % 2:
            x.attrs['new'] = [1]
    elif op == 'value' and not fixed and takes_values(n) and not isinstance(n, OrderRefNode):
        n[key] = fresh_value(c)
    elif op == 'attr' and has_attrs(n):
        attr_map(n)[pick(['x', 'y', 'long name', 'ä'], b)] = fresh_value(c)
    elif op == 'attrnode' and has_attrs(n):
        x = NodeAttributes('zz', n)
        x['deep'] = fresh_value(c)
        attr_map(n)['sub'] = x
    elif op == 'delattr' and has_attrs(n) and len(attr_map(n)):
        del attr_map(n)[pick(list(attr_map(n).keys()), b)]
    elif op == 'del' and not fixed:
        if isinstance(n, LazyNode):
            n['lazy1']
            del n['lazy1']
        elif len(n):
            del n[pick(list(n.keys()), b)]
    elif op == 'clear' and not fixed and not isinstance(n, LazyNode):
        n.clear()
    elif op == 'mutate':
        acc = {}
        for k, v in children(n) + (children(attr_map(n)) if has_attrs(n) else []):
            if not INode.providedBy(v):
                containers(v, acc)
        for v in acc.values():
            if isinstance(v, list):
                v.append('mutated')
            elif isinstance(v, dict):
                v['mutated'] = 1
            else:
                v.add('mutated')
    elif op == 'rename' and n is root:
        n.__name__ = 'renamed%d' % b
    elif op == 'uuid' and hasattr(n, 'uuid'):
        import uuid
        n.uuid = uuid.UUID(int=(a << 80) + (b << 64) + (c << 48) + (d << 32) + id(n) % (1 << 32))
    elif op == 'mark':
        alsoProvides(n, IMarker)
    elif op == 'space' and hasattr(n, 'nodespaces'):
        n['__space__'] = VOrderedNode()
        n['__space__']['inner'] = 1
    elif op == 'touch':
        # fill caches and create lazy parts
        if has_attrs(n):
            n.attrs
        hasattr(n, 'nodespaces') and n.nodespaces
        take(n.values())
        n.get('missing')
    elif op == 'event' and isinstance(n, EventNode):
        n.counter = b
        n.listed = c
        n.bind(counter=SUBSCRIBERS[d % 2])


LOG = []


def sub0(value):
    LOG.append(0)


def sub1(value):
    LOG.append(1)


SUBSCRIBERS = [sub0, sub1]


def make(node, route):
    if route == 'deepcopy':
        return node.deepcopy()
    if route == 'copy.deepcopy':
        return copy.deepcopy(node)
    return pickle.loads(pickle.dumps(node, int(route[6:])))


def run(case, mon):
    cfg = case['cfg']
    fam = FAMILIES[cfg['fam']]
    if cfg['mood']:
        fam = [moody(x, cfg['mood'] if (cfg['pick'] >> n) % 4 else None) for n, x in enumerate(fam)]
        mon.ev('moody')
    root = fam[0]()
    root.__name__ = cfg['name']
    for op, a, b, c, d in case['build']:
        apply(mon, root, fam, op, a, b, c, d, cfg['style'])
    orig = root
    if cfg['sub']:
        # copying a node inside a tree
        orig = pick(walk(root), cfg['pick'])
    before = image(root)
    mine = mutable(root)
    mon.note('copy', cfg['route'], 'of', before)
    new = ok(mon, 'copy', 'copying by ' + cfg['route'], make, orig, cfg['route'])
    mon.ev('copies')
    mon.ev('route.' + ('pickle' if 'pickle' in cfg['route'] else 'deepcopy'))
    mon.true(new is not orig and type(new) is type(orig), 'type', 'type of the copy is', type(new))
    mon.eq(image(root), before, 'original-changed', 'original after copying')
    compare(mon, orig, new, 'copy by ' + cfg['route'])
    mon.true(not set(mine) & set(mutable(new)), 'shared-state', 'copy shares nodes or containers with the tree')
    if cfg['sub'] and orig is not root and adopting(orig.__parent__ if orig.__parent__ is not None else root):
        # whatever the copy reports as parent is no node of the original
        mon.true(new.__parent__ is None or id(new.__parent__) not in mine, 'shared-state',
                 'parent of the copy is a node of the original')
    mon.state(tuple(x[:1] for x in before))
    # shallow copy
    flat = ok(mon, 'shallow', 'shallow copy', orig.copy)
    mon.ev('shallow')
    mon.true(flat is not orig and type(flat) is type(orig), 'shallow', 'distinct node of the same type')
    mon.true(flat.__name__ == orig.__name__ and flat.name == orig.name, 'shallow', 'name of a shallow copy')
    mon.is_(flat.__parent__, orig.__parent__, 'shallow', 'parent of a shallow copy')
    x, y = children(orig), children(flat)
    mon.true(ident_pairs(x, y), 'shallow', 'children of a shallow copy', y, 'expected', x)
    mon.eq(image(root), before, 'original-changed', 'original after shallow copying')
    # later edits
    sides = [root, new]
    for n, (op, a, b, c, d, e) in enumerate(case['ops']):
        which = e % 2
        other = image(sides[1 - which])
        if op == 'recopy':
            again = ok(mon, 'copy', 'copying again', make, sides[which], cfg['route'])
            compare(mon, sides[which], again, 'second copy')
            mon.eq(image(sides[1 - which]), other, 'not-disjoint', 'other side after copying')
            continue
        mon.ev('later-edits')
        mon.note(op, a, b, c, d, 'on', ['original', 'copy'][which])
        apply(mon, sides[which], fam, op, a, b, c, d, cfg['style'])
        mon.eq(image(sides[1 - which]), other, 'not-disjoint', 'other side after', op)
        lookups(mon, root)
        lookups(mon, new)
    mon.true(not set(mutable(root)) & set(mutable(new)), 'shared-state', 'after later edits')
    for n in walk(root):
        if isinstance(n, EventNode):
            # subscribers bound to one side later are not called by the other
            m = n.deepcopy()
            n.unbind()
            n.bind(counter=sub0)
            m.unbind()
            m.bind(counter=sub1)
            del LOG[:]
            n.dispatch('counter', 1)
            mon.eq(LOG, [0], 'shared-subscribers', 'subscribers called')
            m.dispatch('counter', 1)
            mon.eq(LOG, [0, 1], 'shared-subscribers', 'subscribers called')
            break


def known(mon):
    def lock_breaks_copy():
        for cls in (OrderedNode, Node):
            n = cls()
            n['a'] = cls()
            with TreeLock(n['a']):
                pass
            for route in ROUTES:
                try:
                    new = make(n, route)
                except TypeError:
                    return True
                compare(mon, n, new, 'copy of a locked tree')
                with TreeLock(new):
                    pass
        return False
    return {'F20': lock_breaks_copy}


def fixed(mon):

    def large(cls, how):
        root, at = build(cls, 150, 20)
        sole = root['w75']['v3']
        if hasattr(cls, 'attrs'):
            for i in range(80):
                sole.attrs['a%d' % i] = VOrderedNode() if i % 2 else [i]
        new = {'deepcopy': lambda: root.deepcopy(), 'module': lambda: copy.deepcopy(root),
               'pickle': lambda: pickle.loads(pickle.dumps(root, 2))}[how]()
        pairs = dict(walk_pairs(new))
        mon.eq(sorted(pairs), sorted(at), 'large', 'paths')
        located(mon, pairs, 'large', root=new, ordered=False)
        mine = set(id(n) for n in at.values())
        mon.true(not any(id(n) in mine for n in pairs.values()), 'large', 'shared nodes')
        for p, n in pairs.items():
            mon.eq(n.keys(), at[p].keys(), 'large', 'keys')
            mon.is_(type(n), type(at[p]), 'large', 'type')
        if hasattr(cls, 'attrs'):
            got = new['w75']['v3'].attrs
            mon.eq(got.keys(), sole.attrs.keys(), 'large', 'attributes')
            for i in range(80):
                k = 'a%d' % i
                mon.true(got[k] is not sole.attrs[k], 'large', 'shared value', k)
                mon.true(got[k].parent is got if i % 2 else got[k] == [i], 'large', 'value', k)
        del root['w75']
        del root['d0']
        mon.eq(sorted(dict(walk_pairs(new))), sorted(pairs), 'large', 'copy after edits of the original')
        if issubclass(cls, Node):
            for p, n in pairs.items():
                mon.is_(new.node(n.uuid), n, 'large', 'index of the copy')

    for cls in (VBaseNode, VOrderedNode, VNode, Node, VAttributedNode):
        for how in ('deepcopy', 'module', 'pickle'):
            yield 'large-' + how + cls.__name__, lambda: large(cls, how)
