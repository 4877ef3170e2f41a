"""P28: acquire and filtering return exactly the matching nodes.

The monitor keeps the tree (parents, children in order) and which interfaces
every node was declared to provide in its own tables and searches there.
"""
import itertools
from kit import *
from zope.interface import alsoProvides
from zope.interface import classImplements
from zope.interface import directlyProvides
from zope.interface import Interface
from zope.interface import noLongerProvides

ANCHORS = ['src/node/behaviors/nodify.py']
RULE = ('a case is a tree of up to 25 nodes with nodespaces and attributes, interfaces put on and taken from instances '
        'between 15-60 moves and queries; non-trivial: a query with a match')
QUICK, THOROUGH = 4000, 120000
MIN = {'acquire': 20000, 'acquire-found': 8000, 'acquire-far': 2000, 'acquire-none': 5000, 'by-class': 5000,
       'past-falsy': 2000, 'past-empty': 1000, 'filter': 15000, 'filter-found': 5000, 'direct': 1000, 'inherited': 2000,
       'value-provides': 2000, 'moved': 2000, 'attrs': 300}
ASSUMPTIONS = ['ancestors are nodes', 'filtering is by interface']


class I0(Interface):
    pass


class I1(I0):
    pass


class I2(Interface):
    pass


class I3(I1, I2):
    pass


class IUnused(Interface):
    pass


IFACES = [I0, I1, I2, I3, IUnused, INode]
# every interface with all it extends, written down independently
UP = {I0: {I0}, I1: {I0, I1}, I2: {I2}, I3: {I0, I1, I2, I3}, IUnused: {IUnused}, INode: {INode}}


class Base(VOrderedNode):
    pass


@implementer(I0)
class A(VOrderedNode):
    pass


@implementer(I2)
class SubA(A):
    pass


@implementer(I3)
class Unordered(VBaseNode):
    pass


class Falsy(VOrderedNode):

    def __bool__(self):
        return False


@implementer(I1)
class LenFalsy(VOrderedNode):

    def __bool__(self):
        return len(self) > 3


class ComparesEqual(Base):
    """equal to everything"""

    def __eq__(self, other):
        return True

    def __ne__(self, other):
        return False

    __hash__ = object.__hash__


class NoEquality(Base):

    def __eq__(self, other):
        raise TypeError('no comparison')

    __ne__ = __eq__
    __hash__ = object.__hash__


class Indexed(VNode):
    pass


@plumbing(Attributes)
@implementer(I2)
class WithAttrs(VNode):
    pass


class FalsyIndexed(VNode):

    def __bool__(self):
        return False


@plumbing(Nodespaces, Attributes)
class Spaced(VOrderedNode):
    pass


class Mixin(object):
    pass


class Mixed(Mixin, Falsy):
    pass


CLASSES = {Base: set(), A: {I0}, SubA: {I0, I2}, Unordered: {I3}, Falsy: set(), LenFalsy: {I1}, ComparesEqual: set(),
           NoEquality: set(), Indexed: set(), WithAttrs: {I2}, FalsyIndexed: set(), Spaced: set(), Mixed: set(),
           AdoptOdictNode: set(), CachedNode: set(), EventsNode: set()}
FREE = [c for c in CLASSES]
INDEXED = [Indexed, WithAttrs, FalsyIndexed]
QUERY = IFACES + [Base, A, SubA, Falsy, Mixin, VOrderedNode, VNode, ComparesEqual, NoEquality, object, dict, WithAttrs,
                  AdoptOdictNode, (A, Falsy), (Mixin, Unordered), NodeAttributes]
W = {'add': 16, 'provide': 8, 'unprovide': 3, 'directly': 2, 'remove': 3, 'move': 4, 'acquire': 24, 'filter': 16,
     'value': 6, 'fromattrs': 2, 'chain': 2, 'root': 1}


@implementer(I0)
class Value(object):
    pass


class PlainValue(object):
    pass


def gen(rng, i, tier):
    return {'cfg': {'root': i % len(FREE), 'uniform': rng.random() < .2, 'style': style(rng)}, 'ops': gen_ops(rng, W, 15, 60)}


class Rec(object):
    """What the monitor knows about an object."""

    def __init__(self, obj, classes):
        self.obj = obj
        self.cls = classes
        self.direct = set()
        self.parent = None
        self.kids = odict()

    def provides(self, iface):
        if iface is INode and isinstance(self.obj, (Value, PlainValue)):
            return False
        if iface is INode:
            return True
        return any(iface in UP[x] for x in self.cls | self.direct if x in UP)

    def matches(self, what):
        if isinstance(what, tuple):
            return any(self.matches(w) for w in what)
        if what in UP:
            return self.provides(what)
        return what in type(self.obj).__mro__


def run(case, mon):
    cfg = case['cfg']

    def make(r, parent):
        if parent is not None and type(parent.obj) in INDEXED:
            cls = pick(INDEXED, r)
        else:
            cls = FREE[cfg['root'] if cfg['uniform'] else r % len(FREE)]
        return Rec(cls(), set(CLASSES[cls]))

    root = make(cfg['root'], None)
    root.obj.__name__ = 'root'
    if cfg['uniform']:
        root = Rec(FREE[cfg['root']](name='root'), set(CLASSES[FREE[cfg['root']]]))
    recs = [root]
    stray = []

    def acquire(rec, what, start=None):
        mon.ev('acquire')
        mon.ev('by-class', what not in UP)
        exp, dist, p = None, 0, rec.parent if start is None else start
        falsy = empty = False
        while p is not None:
            dist += 1
            if p.matches(what):
                exp = p
                break
            falsy = falsy or isinstance(p.obj, (Falsy, FalsyIndexed)) or isinstance(p.obj, LenFalsy) and len(p.kids) <= 3
            empty = empty or not p.kids
            p = p.parent
        if exp is None:
            mon.ev('acquire-none')
        else:
            mon.ev('acquire-found')
            mon.ev('acquire-far', dist > 2)
            mon.ev('past-falsy', falsy or not outcome(bool, exp.obj)[1])
            mon.ev('past-empty', empty or dist > 1)
            mon.nontrivial.add(hash((dist, str(what), len(recs), exp.obj.__name__ if exp else None)))
        got = ok(mon, 'acquire', 'acquire', (rec.obj if start is None else rec.obj.attrs).acquire, what)
        mon.is_(got, exp.obj if exp is not None else None, 'acquire', 'acquire', what, 'at distance', dist)
        mon.state((dist, exp is None, str(what), falsy))

    def filtering(rec, iface):
        mon.ev('filter')
        exp = [k.obj for k in rec.kids.values() if k.provides(iface)]
        if exp:
            mon.ev('filter-found')
            mon.ev('value-provides', any(isinstance(x, Value) for x in exp))
            mon.nontrivial.add(hash(('f', str(iface), tuple(rec.kids))))
        a = ok(mon, 'filter', 'filteredvalues', rec.obj.filteredvalues, iface)
        mon.true(isinstance(a, list), 'filter', 'filteredvalues returned', type(a))
        it = ok(mon, 'filter', 'filtereditervalues', rec.obj.filtereditervalues, iface)
        mon.is_(iter(it), it, 'filter', 'iterator form')
        b = take(it)
        mon.is_(next(it, mon), mon, 'filter', 'iterator is used up')
        c = take(rec.obj.filtereditems(iface))
        ordered = not isinstance(rec.obj, Unordered)
        for got in (a, b, c):
            mon.eq(len(got), len(exp), 'filter', 'number of values for', iface)
            if not ordered:
                got = sorted(got, key=id)
                want = sorted(exp, key=id)
            else:
                want = exp
            mon.true(all(x is y for x, y in zip(got, want)), 'filter', iface, 'gave', got, 'expected', want)
        mon.eq([id(x) for x in b], [id(x) for x in a], 'filter', 'iterator and list form')
        if not ordered:
            order = [id(v) for v in rec.obj.values()]
            pos = [order.index(id(x)) for x in a]
            mon.eq(pos, sorted(pos), 'filter', 'order of the children')

    def unchanged():
        for rec in recs:
            n = rec.obj
            mon.is_(n.parent, rec.parent.obj if rec.parent else None, 'unchanged', 'parent')
            mon.true(set(take(n)) == set(rec.kids) and all(n[k] is v.obj for k, v in rec.kids.items()), 'unchanged',
                     'children', take(n), list(rec.kids))
            for i in IFACES:
                mon.eq(i.providedBy(n), rec.provides(i), 'unchanged', 'interface', i)

    def inside(rec):
        out = [rec]
        for k in rec.kids.values():
            if isinstance(k, Rec) and k in recs:
                out.extend(inside(k))
        return out

    for op, a, b, c, d in case['ops']:
        rec = pick(recs, a)
        what = pick(QUERY, b)
        iface = pick(IFACES, c)
        mon.note(op, a, what)
        if op in ('add', 'chain') and len(recs) < 25:
            for j in range(4 if op == 'chain' else 1):
                new = make(b + j, rec)
                key = STYLES[cfg.get('style')]('k%d' % (len(recs) + 100 * (d % 3)))
                if key in rec.kids:
                    break
                rec.obj[key] = new.obj
                rec.kids[key] = new
                new.parent = rec
                recs.append(new)
                rec = new
        elif op == 'provide':
            alsoProvides(rec.obj, iface)
            rec.direct.add(iface)
            mon.ev('direct')
            mon.ev('inherited', iface is I3)
        elif op == 'directly':
            directlyProvides(rec.obj, iface)
            rec.direct = {iface}
        elif op == 'unprovide':
            if iface in rec.direct:
                # refused where the class or an extending interface still provides it
                out = outcome(noLongerProvides, rec.obj, iface)
                rec.direct.discard(iface)
                rec.direct -= {x for x in rec.direct if x in UP and iface in UP[x]}
                del out
        elif op == 'remove':
            if rec is not root:
                del rec.parent.obj[rec.obj.__name__]
                del rec.parent.kids[rec.obj.__name__]
                gone = inside(rec)
                recs = [x for x in recs if x not in gone]
        elif op == 'move':
            if rec is not root:
                gone = inside(rec)
                others = [x for x in recs if x not in gone]
                to = pick(others, b)
                if type(to.obj) in INDEXED and not all(type(x.obj) in INDEXED for x in gone):
                    continue
                if any(isinstance(x.obj, Value) or isinstance(x.obj, PlainValue) for x in gone):
                    continue
                mon.ev('moved')
                key = rec.obj.__name__
                got = rec.parent.obj.detach(key)
                mon.is_(got, rec.obj, 'detach', 'node')
                del rec.parent.kids[key]
                key = 'm%d_%d' % (c, len(to.kids))
                if key in to.kids:
                    recs = [x for x in recs if x not in gone]
                    continue
                to.obj[key] = rec.obj
                to.kids[key] = rec
                rec.parent = to
        elif op == 'value':
            key = 'v%d' % (b % 5)
            v = pick([Value, PlainValue], c)()
            r = Rec(v, {I0} if isinstance(v, Value) else set())
            if d % 2:
                directlyProvides(v, iface) if iface is not INode else None
                r.direct = {iface} if iface is not INode else set()
            rec.obj[key] = v
            rec.kids[key] = r
        elif op == 'acquire':
            acquire(rec, what)
            if d % 4 == 0:
                # from the deepest node
                deep = max(recs, key=lambda r: len(up(r)))
                acquire(deep, what)
        elif op == 'filter':
            filtering(rec, iface)
        elif op == 'fromattrs':
            if isinstance(rec.obj, (WithAttrs, Spaced)):
                mon.ev('attrs')
                acquire(rec, what, start=rec)
        elif op == 'root':
            acquire(root, what)
        if d % 16 == 0:
            unchanged()
    for rec in recs:
        for what in QUERY[len(case['ops']) % 3::3]:
            acquire(rec, what)
        for iface in IFACES[:4]:
            filtering(rec, iface)
    unchanged()


def up(rec):
    out = []
    while rec is not None:
        out.append(rec)
        rec = rec.parent
    return out


def fixed(mon):

    def lazy():
        # the iterator form is used while nothing is changed; several at once
        n = Base()
        for i in range(50):
            n['k%d' % i] = (A if i % 3 else Base)()
        its = [n.filtereditervalues(I0) for _ in range(3)]
        out = [[], [], []]
        for group in itertools.zip_longest(*its):
            for o, v in zip(out, group):
                o.append(v.__name__)
        exp = ['k%d' % i for i in range(50) if i % 3]
        mon.eq(out, [exp] * 3, 'filter', 'interleaved iterators')
    yield 'lazy', lazy

    def long_chain():
        top = A(name='top')
        n = top
        for i in range(400):
            n['c'] = Falsy() if i % 2 else LenFalsy()
            n = n['c']
        mon.is_(n.acquire(A), top, 'acquire', 'over 400 levels')
        mon.is_(n.acquire(I0), n.parent if isinstance(n.parent, LenFalsy) else n.parent.parent, 'acquire', 'nearest')
        mon.is_(n.acquire(I2), None, 'acquire', 'nothing')
    yield 'long-chain', long_chain

    def class_later():
        # interfaces of a class are looked at when asked
        class Late(VOrderedNode):
            pass
        top = Late(name='t')
        top['a'] = Base()
        mon.is_(top['a'].acquire(IUnused), None, 'acquire', 'before')
        classImplements(Late, IUnused)
        mon.is_(top['a'].acquire(IUnused), top, 'acquire', 'after')
        top['b'] = Late()
        mon.eq([x.__name__ for x in top.filteredvalues(IUnused)], ['b'], 'filter', 'after')
    yield 'class-later', class_later
