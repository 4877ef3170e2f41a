"""P07: detaching and moving subtrees preserves them and splits trees cleanly.

Lockstep monitor over several trees whose nodes carry attributes and UUIDs;
every tree is compared with the reference after every operation, so an edit of
one tree that shows in another is seen at once.
"""
from kit import *
from large import build, located
from forest import Forest

ANCHORS = ['src/node/behaviors/nodify.py', 'src/node/behaviors/reference.py', 'src/node/behaviors/lifecycle.py']
RULE = ('a case is a family of node classes and 10-50 edits, most of them detaching and moving subtrees within and '
        'between trees; non-trivial: all trees agreed with the reference after each edit')
QUICK, THOROUGH = 1500, 30000
MIN = {'mood.falsy': 300, 'mood.equal': 300, 'mood.both': 300, 'op.detach': 1000, 'op.move': 5000, 'moved-subtree': 1000, 'cross-tree': 1000, 'missing': 500, 'value': 300}
ASSUMPTIONS = ['the location a node reports after it was removed is not specified',
               'no node is attached below itself or in two places']


class SubAttributed(AttributedNode):
    attribute_access_for_attrs = False


@plumbing(Cache, Invalidate)
class CachedNodeR(VNode):
    pass


class LazyChild(OrderedNode):
    pass


@plumbing(ChildFactory)
class LazyNodeR(OrderedNode):
    factories = odict()


@plumbing(Events)
class EventNode(VNode):
    pass


FAMILIES = [[Node], [VNode, SubAttributed], [VBaseNode], [VOrderedNode, BaseNode], [AdoptDictNode, AdoptOdictNode],
            [RefNode, OrderRefNode], [LifecycleNode, VNode], [LifecycleOrderedNode, VOrderedNode], [CachedNodeR, VNode],
            [CachedNode], [UnaliasedNode, VOrderedNode], [PlainOdictNode, PlainDictNode], [EventNode],
            [VOrderedNode, VNode], [UserNode]]
W = {'new': 3, 'sub': 14, 'attach': 14, 'detach': 4, 'move': 12, 'attr': 5, 'missing': 2, 'value': 2, 'setuuid': 1,
     'delete': 1}


def gen(rng, i, tier):
    return {'cfg': {'fam': i % len(FAMILIES), 'keys': rng.choice([2, 4, 7]), 'mood': rng.choice((None, None) + MOODS),
                    'style': style(rng), 'big': rng.random() < .03}, 'ops': gen_ops(rng, W, 10, 50, 5)}


class State(Forest):

    def __init__(self, mon, fam):
        Forest.__init__(self, mon, fam, None, limit=22)
        self.attrs = []
        self.values = []
        self.uuids = []

    def new(self, r, name=None):
        i = Forest.new(self, r)
        if i is not None:
            o = self.obj[i]
            o.__name__ = name
            self.attrs.append([])
            self.values.append([])
            self.uuids.append(getattr(o, 'uuid', None))
        return i

    def compare(self):
        mon = self.mon
        for i, o in enumerate(self.obj):
            exp = [(k, self.obj[j]) for k, j in self.kids[i]]
            got = children(o)
            nodes = [(k, v) for k, v in got if INode.providedBy(v)]
            vals = [(k, v) for k, v in got if not INode.providedBy(v)]
            if isinstance(o, UNORD):
                nodes.sort(key=lambda x: x[0])
                exp.sort(key=lambda x: x[0])
                vals.sort(key=lambda x: x[0])
            mon.true(ident_pairs(nodes, exp), 'structure', 'children of node', i, 'are', nodes, 'expected', exp)
            mon.true(ident_pairs(vals, sorted(self.values[i]) if isinstance(o, UNORD) else self.values[i]),
                     'structure', 'values of node', i, 'are', vals, 'expected', self.values[i])
            mon.eq(len(o), len(exp) + len(vals), 'structure', 'length of node', i)
            for k, v in exp:
                mon.true(o.get(k) is v and k in o, 'structure', 'child', k, 'of node', i)
            if hasattr(o, 'uuid'):
                mon.eq(o.uuid, self.uuids[i], 'uuid', 'uuid of node', i)
            if isinstance(o, ATTRIBUTED):
                mon.true(ident_pairs(o.attrs.items(), self.attrs[i]), 'attributes', 'attributes of node', i, 'are',
                         o.attrs.items(), 'expected', self.attrs[i])
            if self.up[i] is not None and isinstance(o, ADOPTED):
                p, k = self.up[i]
                mon.true(o.__name__ == k and o.__parent__ is self.obj[p], 'location', 'node', i, 'at', k,
                         'reports', o.__name__)
        for root in self.roots():
            tree = self.subtree(root)
            o = self.obj[root]
            if IReference_(o):
                # the split trees find exactly their own nodes
                for j in range(len(self.obj)):
                    if IReference_(self.obj[j]):
                        mon.is_(o.node(self.uuids[j]), self.obj[j] if j in tree else None, 'lookup',
                                'lookup of node', j, 'through tree', root)


def IReference_(o):
    return hasattr(o, 'uuid') and hasattr(o, 'node')


UNORD = (BaseNode, AdoptDictNode, RefDictNode, PlainDictNode)
ADOPTED = (BaseNode, OrderedNode, Node, AttributedNode, AdoptDictNode, AdoptOdictNode, RefNode, OrderRefNode)


def run(case, mon):
    fam = FAMILIES[case['cfg']['fam']]
    nkeys = case['cfg']['keys']
    f = State(mon, fam)
    f.setup(case['cfg'])
    f.new(0, 'root')
    f.new(1)
    f.new(2)

    def fits(i, j):
        return f.up[j] is None and i not in f.subtree(j) and (IReference_(f.obj[j]) or not IReference_(f.obj[i]))

    def free(i, k):
        return f.kid(i, k) is None and all(x != k for x, _ in f.values[i])

    for op, a, b, c, d, e in case['ops']:
        n = len(f.obj)
        i, j, k = a % n, b % n, f.spell('k%d' % (c % (30 if f.big else nkeys)))
        o = f.obj[i]
        mon.ev('op.' + op)
        mon.note(op, i, j, k, d, e)
        if op == 'new':
            f.new(a)
        elif op == 'sub':
            # a subtree built apart, with attributes
            x = f.new(e)
            for z in range(d % 4):
                y = f.new(e + z)
                if y is None or x is None:
                    break
                p = pick(f.subtree(x), b + z)
                s = 's%d' % z
                if fits(p, y) and free(p, s):
                    f.obj[p][s] = f.obj[y]
                    f.m_put(p, s, y)
        elif op == 'attach':
            if fits(i, j) and free(i, k):
                ok(mon, 'attach', 'set', o.__setitem__, k, f.obj[j])
                f.m_put(i, k, j)
        elif op in ('detach', 'move', 'delete'):
            # mostly children having children
            cand = [y for y in range(n) if f.up[y] is not None and (d % 4 == 0 or f.kids[y])] or \
                [y for y in range(n) if f.up[y] is not None]
            if not cand:
                continue
            x = pick(cand, c)
            i, k = f.up[x]
            o = f.obj[i]
            if op == 'delete':
                ok(mon, 'delete', 'del', o.__delitem__, k)
            else:
                mon.is_(ok(mon, 'detach', 'detach', o.detach, k), f.obj[x], 'detach', 'result of detaching', k)
            f.m_del(i, k)
            if e % 3 == 0:
                f.compare()
            if op == 'move':
                t = b % len(f.obj)
                k = f.spell('m%d' % (e % nkeys))
                if fits(t, x) and free(t, k):
                    if f.root_of(t) != f.root_of(i):
                        mon.ev('cross-tree')
                    if len(f.subtree(x)) > 1:
                        mon.ev('moved-subtree')
                    fn, args = pick([(f.obj[t].__setitem__, (k, f.obj[x])), (f.obj[t].setdefault, (k, f.obj[x])),
                                     (f.obj[t].update, ([(k, f.obj[x])],))], d)
                    ok(mon, 'attach', 'attaching a detached subtree', fn, *args)
                    f.m_put(t, k, x)
        elif op == 'attr' and isinstance(o, ATTRIBUTED):
            k = 'a%d' % (c % 3)
            now = [y for y, _ in f.attrs[i]]
            if d % 4 == 0 and k in now:
                del o.attrs[k]
                f.attrs[i] = [y for y in f.attrs[i] if y[0] != k]
            else:
                v = fresh_value(e)
                o.attrs[k] = v
                if k in now:
                    f.attrs[i][now.index(k)] = (k, v)
                else:
                    f.attrs[i].append((k, v))
        elif op == 'missing':
            if free(i, k):
                mon.ev('missing')
                raises(mon, KeyError, 'detach-missing', 'detaching a missing key', o.detach, k)
        elif op == 'value' and (getattr(o, 'allow_non_node_childs', False) or isinstance(o, UserNode)
                                or not isinstance(o, (BaseNode, OrderedNode, Node, AttributedNode, RefNode))):
            if isinstance(o, OrderRefNode):
                continue
            k = 'v%d' % (c % 3)
            mon.ev('value')
            now = [y for y, _ in f.values[i]]
            if k in now and d % 3:
                v = f.values[i][now.index(k)][1]
                mon.is_(ok(mon, 'detach', 'detaching a value', o.detach, k), v, 'detach', 'value of', k)
                f.values[i] = [y for y in f.values[i] if y[0] != k]
            elif k not in now:
                v = fresh_value(e)
                o[k] = v
                f.values[i].append((k, v))
        elif op == 'setuuid' and hasattr(o, 'uuid'):
            import uuid
            u = uuid.uuid4()
            o.uuid = u
            f.uuids[i] = u
        if e % 3 != 1:  # also edit without reading in between
            f.compare()
        mon.state(tuple(len(f.subtree(r)) for r in f.roots()))
    f.compare()


def fixed(mon):

    def large(cls):
        root, at = build(cls)
        uuids = dict((p, getattr(n, 'uuid', None)) for p, n in at.items())
        for key in ('w60', 'd0'):
            sub = dict((p, n) for p, n in at.items() if p[:1] == (key,))
            rest = dict((p, n) for p, n in at.items() if p[:1] != (key,))
            node = root.detach(key)
            mon.is_(node, at[(key,)], 'large', 'detached')
            located(mon, rest, 'large', ordered=False)
            new = cls(name='other')
            new['moved'] = node
            now = {(): new}
            now.update((('moved',) + p[1:], n) for p, n in sub.items())
            located(mon, now, 'large', ordered=not isinstance(root, BaseNode))
            mon.eq([getattr(n, 'uuid', None) for n in sub.values()], [uuids[p] for p in sub], 'large', 'uuids')
            mon.is_(new.detach('moved'), node, 'large', 'detached again')
            mon.eq(new.keys(), [], 'large', 'nothing left')
            root[key] = node
            located(mon, at, 'large', ordered=False)

    for cls in (BaseNode, OrderedNode, Node, AttributedNode, VNode):
        yield 'large-' + cls.__name__, lambda: large(cls)
