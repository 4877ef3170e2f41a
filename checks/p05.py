"""P05: the UUID index of a tree contains exactly the nodes of that tree.

Lockstep monitor: several reference-aware trees are edited at random; after
every edit every UUID ever seen is looked up through nodes of every tree and
compared with a walk of the reference structure."""
import uuid
from kit import *
from large import build
from forest import Forest

ANCHORS = ['src/node/behaviors/reference.py']
RULE = ('a case is a family of reference-aware node classes and 10-50 random edits of up to 20 nodes in several trees; '
        'after each edit every UUID ever used is looked up through nodes of every tree; non-trivial: ran in agreement')
QUICK, THOROUGH = 900, 25000
MIN = {'mood.falsy': 300, 'mood.equal': 300, 'mood.both': 300, 'plain-value': 100, 'refused': 80, 'lookups': 100000, 'op.attach': 3000, 'op.move': 1000, 'absent': 50000}
ASSUMPTIONS = ['a node is attached only while it is not part of another tree']


class SubNode(Node):
    pass


@plumbing(Cache, Invalidate)
class CachedRefNode(RefNode):
    pass


@plumbing(Lifecycle)
class LifeRefNode(RefNode):
    pass


class ValuesRef(VNode):
    pass


@plumbing(Fallback)
class FallbackRefNode(Node):
    fallback_key = 'k0'


class Backwards(object):
    """Aliases of all texts."""

    def alias(self, key):
        return key[::-1]

    unalias = alias


@plumbing(Adopt, Reference, Alias, DefaultInit, Nodify, OdictStorage)
class AliasRefNode(object):
    aliaser = Backwards()


@plumbing(Adopt, Reference, DefaultInit, Nodify)
class OwnRefNode(UserMapping):
    """Keeps children its own way."""

    def __init__(self, name=None, parent=None):
        self._pairs = []
        self.__name__ = name
        self.__parent__ = parent


FAULT = {'raise': None}
REFUSALS = [KeyError, ValueError, TypeError, AttributeError, RuntimeError, OSError, RecursionError, NotImplementedError]


class Refusing(Behavior):
    """A storage which may refuse."""

    @plumb
    def __setitem__(_next, self, key, val):
        if FAULT['raise'] is not None:
            raise FAULT['raise'](key)
        _next(self, key, val)

    @plumb
    def __delitem__(_next, self, key):
        if FAULT['raise'] is not None:
            raise FAULT['raise'](key)
        _next(self, key)


@plumbing(Adopt, Reference, Refusing, Order, DefaultInit, Nodify, OdictStorage)
class RefuseNode(object):
    pass


@plumbing(Reference, Adopt, Refusing, Order, DefaultInit, Nodify, OdictStorage)
class RefuseOutside(object):
    pass


FAMILIES = [[Node], [RefNode], [AttributedNode, Node, SubNode], [OrderRefNode], [RefDictNode, RefNode],
            [CachedRefNode], [LifeRefNode, LifecycleNode, Node], [ValuesRef], [VNode, VAttributedNode, RefNode], [FallbackRefNode],
            [AliasRefNode], [OwnRefNode, RefNode], [RefuseNode, Node], [RefuseOutside]]
W = {'new': 7, 'attach': 14, 'delete': 4, 'detach': 4, 'move': 6, 'replace': 2, 'insert': 4, 'clear': 1, 'popitem': 2,
     'missing': 1, 'update': 2, 'value': 4, 'sub': 4, 'refuse': 6}


def spelling(rng, i):
    st = style(rng)
    # read backwards a text is a plain one
    return None if st == 'text' and FAMILIES[i % len(FAMILIES)] == [AliasRefNode] else st


def gen(rng, i, tier):
    return {'cfg': {'fam': i % len(FAMILIES), 'keys': rng.choice([3, 6]), 'mood': rng.choice((None, None) + MOODS),
                    'style': spelling(rng, i), 'big': rng.random() < .03}, 'ops': gen_ops(rng, W, 10, 50, 5)}


class RefForest(Forest):

    def __init__(self, mon, fam):
        Forest.__init__(self, mon, fam, None, limit=20)
        self.ids = []         # model: uuid of node i
        self.strangers = [uuid.UUID(int=0), uuid.UUID(int=1), uuid.UUID(int=(1 << 128) - 1)]

    def new(self, r, name=None):
        i = Forest.new(self, r, name)
        if i is not None:
            u = self.obj[i].uuid
            self.mon.true(isinstance(u, uuid.UUID), 'uuid', 'uuid of a new node is', u)
            self.mon.true(u not in self.ids and u not in self.strangers, 'fresh-uuid', 'uuid of a new node is in use')
            self.ids.append(u)
        return i

    # A removed node keeps its former parent, that is not what is monitored
    # here; with fallback lookup it would take part in the search.
    def forget(self, j):
        if isinstance(self.obj[j], FallbackRefNode):
            self.obj[j].__parent__ = None

    def m_put(self, i, key, j, pos=None):
        old = self.kid(i, key)
        Forest.m_put(self, i, key, j, pos)
        if old is not None:
            self.forget(old)

    def m_del(self, i, key):
        j = Forest.m_del(self, i, key)
        self.forget(j)
        return j

    def check_index(self, all_nodes):
        mon = self.mon
        for i, o in enumerate(self.obj):
            mon.eq(o.uuid, self.ids[i], 'uuid', 'uuid of node', i)
        for root in self.roots():
            tree = self.subtree(root)
            exp = dict((self.ids[i], self.obj[i]) for i in tree)
            through = tree if all_nodes else [root, tree[-1], tree[len(tree) // 2]]
            for t in through:
                o = self.obj[t]
                index = o.index
                for u in self.ids[-8:] + [self.ids[i] for i in tree] + self.strangers:
                    want = exp.get(u)
                    mon.ev('lookups')
                    got = o.node(u)
                    if got is not want:
                        raise Violation('lookup', 'node() through node {} of tree {} for uuid of node {}: {} expected {}'
                                        .format(t, root, self.ids.index(u) if u in self.ids else u, short(got), short(want)))
                    mon.is_(index.get(u), want, 'index-get', 'index.get')
                    mon.eq(u in index, want is not None, 'index-contains', 'membership in index')
                    if want is None:
                        mon.ev('absent')
                        raises(mon, KeyError, 'index-item', 'index item', lambda: index[u])
                        dflt = object()
                        mon.is_(index.get(u, dflt), dflt, 'index-get', 'index.get default')
                    else:
                        mon.is_(index[u], want, 'index-item', 'index item')
                        mon.is_(o.node(int(u)), want, 'lookup', 'lookup by integer')
            mon.state((len(tree), len(self.roots())))


def edit(f, mon, op, a, b, c, d, e, nkeys):
    """One structural edit. True if op was handled."""
    n = len(f.obj)
    i, j, k = a % n, b % n, f.spell('k%d' % (c % (30 if f.big else nkeys)))
    o = f.obj[i]
    if op == 'new':
        f.new(a, pick([None, 'r'], b))
    elif op in ('attach', 'replace', 'sub', 'update'):
        if op == 'sub':
            # a fresh subtree, attached after it was built
            x = f.new(e)
            if x is None:
                return True
            for z in range(d // 3 % 3 + 1):
                y = f.new(e + z)
                if y is not None:
                    f.obj[x]['s%d' % z] = f.obj[y]
                    f.m_put(x, 's%d' % z, y)
            j = x
        if op == 'replace':
            if not f.kids[i]:
                return True
            k = pick(f.kids[i], c)[0]
        elif f.kid(i, k) is not None:
            k = 'n%d' % len(f.kids[i])
            if f.kid(i, k) is not None:
                return True
        if f.up[j] is not None or i in f.subtree(j):
            return True
        child = f.obj[j]
        if op == 'update':
            ok(mon, 'attach', 'update', o.update, [(k, child)])
        elif d % 3 == 0 and op != 'replace' and not isinstance(o, FallbackRefNode):
            # (setdefault would find a fallback)
            mon.is_(ok(mon, 'attach', 'setdefault', o.setdefault, k, child), child, 'setdefault', k)
        else:
            ok(mon, 'attach', 'set', o.__setitem__, k, child)
        f.m_put(i, k, j)
    elif op in ('delete', 'detach', 'move', 'popitem') and f.kids[i]:
        k = pick(f.kids[i], c)[0]
        x = f.kid(i, k)
        if op == 'popitem':
            k, got = ok(mon, 'delete', 'popitem', o.popitem)
            if (i, k) in f.plain:
                mon.eq(got, f.plain.pop((i, k)), 'popitem', 'plain value')
                return True
            mon.true(f.kid(i, k) is not None and f.obj[f.kid(i, k)] is got, 'popitem', k)
        elif op == 'delete' and d % 2:
            ok(mon, 'delete', 'del', o.__delitem__, k)
        elif op == 'delete' or (op == 'move' and d % 3 == 0):
            mon.is_(ok(mon, 'delete', 'pop', o.pop, k), f.obj[x], 'pop', k)
        else:
            mon.is_(ok(mon, 'delete', 'detach', o.detach, k), f.obj[x], 'detach', k)
        f.m_del(i, k)
        if op == 'move':
            k = 'm%d' % (e % nkeys)
            if j not in f.subtree(x) and f.kid(j, k) is None:
                ok(mon, 'attach', 'move', f.obj[j].__setitem__, k, f.obj[x])
                f.m_put(j, k, x)
    elif op == 'clear':
        ok(mon, 'delete', 'clear', o.clear)
        for z, x in list(f.kids[i]):
            f.m_del(i, z)
        f.plain = dict((x, v) for x, v in f.plain.items() if x[0] != i)
    elif op == 'refuse' and isinstance(o, (RefuseNode, RefuseOutside)):
        exc = pick(REFUSALS, e)
        x = f.kid(i, k)
        child = f.obj[j]
        todo = []
        if f.up[j] is None and i not in f.subtree(j):
            todo += [(o.__setitem__, k, child)] * 2
            if x is None:
                todo += [(o.setdefault, k, child), (lambda k, v: o.update({k: v}), k, child)]
        if x is not None:
            todo += [(o.__delitem__, k), (o.detach, k)]
        if not todo:
            return True
        call = pick(todo, d)
        mon.ev('refused')
        FAULT['raise'] = exc
        try:
            raises(mon, exc, 'refused', 'edit refused by the storage', call[0], *call[1:])
        finally:
            FAULT['raise'] = None
    elif op == 'missing':
        k = pick(['nokey', k], e)
        if f.kid(i, k) is None:
            fn, args = pick([(o.detach, (k,)), (o.__delitem__, (k,)), (o.pop, (k,))], d)
            raises(mon, KeyError, 'missing', 'deleting a missing key', fn, *args)
    elif op == 'insert' and hasattr(o, 'insertfirst'):
        if f.up[j] is not None or i in f.subtree(j):
            return True
        k = 'i%d' % (c % nkeys)
        if f.kid(i, k) is not None:
            return True
        f.obj[j].__name__ = k
        kids = f.kids[i]
        if kids and d % 2:
            ri = e % len(kids)
            ref = f.obj[kids[ri][1]]
            if d % 4 == 1:
                ok(mon, 'attach', 'insertbefore', o.insertbefore, f.obj[j], ref)
                f.m_put(i, k, j, ri)
            else:
                ok(mon, 'attach', 'insertafter', o.insertafter, f.obj[j], ref)
                f.m_put(i, k, j, ri + 1)
        elif d % 4 == 0:
            ok(mon, 'attach', 'insertfirst', o.insertfirst, f.obj[j])
            f.m_put(i, k, j, 0)
        else:
            ok(mon, 'attach', 'insertlast', o.insertlast, f.obj[j])
            f.m_put(i, k, j, len(kids))
    elif op == 'value' and getattr(o, 'allow_non_node_childs', False):
        # plain values next to nodes, before or after them
        mon.ev('plain-value')
        k = 'v%d' % (c % 3)
        if (i, k) not in f.plain:
            v = pick([0, None, '', 'text', (), RefNode], e)
            ok(mon, 'attach', 'setting a value', o.__setitem__, k, v)
            f.plain[i, k] = v
        if d % 4 == 0:
            del o[k]
            del f.plain[i, k]
        elif d % 4 == 1:
            mon.eq(ok(mon, 'detach', 'detach of a value', o.detach, k), f.plain.pop((i, k)), 'detach', 'plain value')
        elif d % 4 == 2 and c % 2:
            mon.eq(o.pop(k), f.plain.pop((i, k)), 'pop', 'plain value')
    else:
        return op in W
    return True


def run(case, mon):
    f = RefForest(mon, FAMILIES[case['cfg']['fam']])
    f.setup(case['cfg'])
    f.new(0, 'root')
    f.new(1)
    f.new(2)
    for op, a, b, c, d, e in case['ops']:
        mon.ev('op.' + op)
        mon.note(op, a % len(f.obj), b % len(f.obj), c, d, e)
        edit(f, mon, op, a, b, c, d, e, case['cfg']['keys'])
        f.check_index(d % 4 == 0)
        f.check_structure()
    f.check_index(True)


def fixed(mon):

    def exact(root, at, absent, what):
        for n in at.values():
            for via in (root, n):
                mon.is_(via.node(n.uuid), n, 'large', what)
                mon.true(n.uuid in via.index, 'large', what, 'in the index')
                mon.is_(via.index[n.uuid], n, 'large', what)
        for n in absent:
            mon.is_(root.node(n.uuid), None, 'large', what, 'node which is not part')
            mon.true(n.uuid not in root.index, 'large', what, 'node which is not part')

    def large(cls):
        root, at = build(cls, 150, 110)
        exact(root, at, (), 'built')
        sub = dict((p, n) for p, n in at.items() if p[:1] == ('w75',))
        rest = dict((p, n) for p, n in at.items() if p[:1] != ('w75',))
        mid = root.detach('w75')
        exact(root, rest, sub.values(), 'detached')
        exact(mid, sub, rest.values(), 'detached part')
        root['d0']['d1']['d2']['again'] = mid
        exact(root, at, (), 'attached again')
        del root['d0']['d1']['d2']['again']
        exact(root, rest, sub.values(), 'deleted')
        root['w3'] = mid
        w3 = at[('w3',)]
        del rest[('w3',)]
        exact(root, {**rest, **sub}, [w3], 'replaced')
        root['w3'] = w3
        rest[('w3',)] = w3
        exact(root, rest, sub.values(), 'replaced large')
        chain = dict((p, n) for p, n in rest.items() if p[:1] == ('d0',))
        del root['d0']
        exact(root, dict((p, n) for p, n in rest.items() if p not in chain), chain.values(), 'deleted chain')

    def given(cls):
        # any UUID, also the first and the last one
        for number in (0, 1, (1 << 128) - 1, 0):
            root = cls(name='root')
            node = cls()
            u = uuid.UUID(int=number)
            for late in (True, False):
                old = node.uuid
                if not late:
                    node.uuid = u
                root['a'] = node
                if late:
                    node.uuid = u
                for via in (root, node):
                    mon.is_(via.node(u), node, 'given', 'node by uuid', u)
                    mon.true(u in via.index and via.index[u] is node, 'given', 'index of uuid', u)
                    if old != u:
                        mon.is_(via.node(old), None, 'given', 'node by its former uuid')
                root.detach('a')
                mon.true(u not in root.index, 'given', 'index after detaching')
                mon.is_(node.node(u), node, 'given', 'node by uuid after detaching')
                node.uuid = uuid.uuid4()
                mon.is_(node.node(u), None, 'given', 'node by its former uuid')

    for cls in (Node, RefNode, OrderRefNode):
        yield 'given-' + cls.__name__, lambda: given(cls)
    for cls in (Node, RefNode, OrderRefNode, AttributedNode, CachedRefNode):
        yield 'large-' + cls.__name__, lambda: large(cls)
