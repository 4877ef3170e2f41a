"""P03: a rejected child assignment leaves child and container as they were.

Fault injection below the adoption step: a behavior raises at a chosen
assignment; the monitor compares container, child and exception before/after.
"""
from kit import *
from node.behaviors import UnknownEvent
from zope.interface import alsoProvides
from zope.interface import directlyProvides
from zope.interface import noLongerProvides

ANCHORS = ['src/node/behaviors/common.py', 'src/node/behaviors/order.py', 'src/node/behaviors/mapping.py']
RULE = ('a case is a container class with an injectable rejection below (or a validation at) the adoption step and 8-40 '
        'assignments by every write route, some rejected; non-trivial: at least the operations ran in agreement')
QUICK, THOROUGH = 2000, 30000
MIN = {'rejected': 3000, 'accepted': 3000, 'invalid-value': 2000, 'class-value': 500, 'rejected-adopted-elsewhere': 300, 'marked': 300, 'unhashable-key': 300}
ASSUMPTIONS = ['rejections are raised before the entry is stored']


class Kind(type):
    """Makes classes."""


class Meta(object, metaclass=Kind):
    pass


class Marked(object, metaclass=Kind):
    """A class which claims to be a node itself."""
    __name__ = 'Marked'
    __parent__ = None


directlyProvides(Marked, INode)


class Boom(KeyError):
    pass


class BoomValue(UnicodeError):
    pass


class BoomPlain(Exception):
    pass


EXCS = [KeyError, ValueError, AttributeError, Boom, BoomValue, UnknownEvent, TypeError, OSError, RuntimeError, BoomPlain,
        NotImplementedError, PermissionError, IndexError, AssertionError, ZeroDivisionError, TimeoutError, EOFError]


class Reject(Behavior):
    """Raises ``reject`` when set, before delegating."""
    reject = default(None)

    @plumb
    def __setitem__(_next, self, key, val):
        if self.reject is not None:
            when, exc = self.reject
            if when in (None, key):
                raise exc
        _next(self, key, val)


class RejectLate(Behavior):
    """Same after peeking at the child (as validating behaviors do)."""
    reject = default(None)

    @plumb
    def __setitem__(_next, self, key, val):
        if self.reject is not None:
            when, exc = self.reject
            getattr(val, '__name__', None), getattr(val, '__parent__', None)
            key in self
            if when in (None, key):
                raise exc
        _next(self, key, val)


@plumbing(NodeChildValidate, Adopt, Reject, DefaultInit, Nodify, DictStorage)
class C1(object):
    pass


@plumbing(NodeChildValidate, Adopt, AsAttrAccess, RejectLate, DefaultInit, Nodify, OdictStorage)
class C2(object):
    pass


@plumbing(NodeChildValidate, Nodespaces, Adopt, Attributes, Reference, Order, Reject, DefaultInit, Nodify,
          OdictStorage)
class C3(object):
    pass


@plumbing(NodeChildValidate, Nodespaces, Adopt, Attributes, Reject, Reference, Order, DefaultInit, Nodify,
          OdictStorage)
class C4(object):
    pass


@plumbing(Lifecycle, NodeChildValidate, Adopt, Order, RejectLate, DefaultInit, Nodify, OdictStorage)
class C5(object):
    pass


@plumbing(Adopt, NodeChildValidate, Cache, Reject, DefaultInit, Invalidate, Nodify, OdictStorage)
class C6(object):
    pass


@plumbing(UnicodeAware, Adopt, Alias, Reject, DefaultInit, Nodify, OdictStorage)
class C7(object):
    pass


class Bare(object):
    """A node only where an instance says so."""
    __name__ = None
    __parent__ = None
    uuid = None
    path = []


class StrictStorage(OdictStorage):
    """Rejects by itself."""
    reject = default(None)

    @override
    def __setitem__(self, key, val):
        if self.reject is not None and self.reject[0] in (None, key):
            raise self.reject[1]
        self.storage[key] = val


@plumbing(Adopt, DefaultInit, Nodify, StrictStorage)
class C8(object):
    pass


CONTAINERS = [C1, C2, C3, C4, C5, C6, C7, C8]
# validated by NodeChildValidate
VALIDATED = [BaseNode, OrderedNode, Node, AttributedNode, C1, C2, C3, C4, C5, C6, OrderNode, CachedNode,
             LifecycleOrderedNode]
W = {'set': 6, 'reject': 10, 'invalid': 6, 'class': 2, 'adopt-elsewhere': 4, 'update': 3, 'del': 2, 'dup': 1,
     'reject-replace': 4, 'marked': 3, 'key': 3}


def gen(rng, i, tier):
    return {'cfg': {'c': rng.randrange(len(CONTAINERS)), 'v': rng.randrange(len(VALIDATED)),
                    'allow': rng.random() < .3, 'own': rng.random() < .5,
                    'mood': rng.choice((None, None) + MOODS), 'style': style(rng),
                    'bury': [rng.randrange(R), rng.randrange(R)]},
            'ops': gen_ops(rng, W, 8, 40, 5)}


def run(case, mon):
    cfg = case['cfg']
    cls = CONTAINERS[cfg['c']]
    vcls0 = VALIDATED[cfg['v']]
    vcls = type(vcls0.__name__, (vcls0,), {'allow_non_node_childs': cfg['allow']})
    mood = cfg['mood']
    box = moody(cls, mood)()
    other = cls()
    vbox = vcls()
    if not cfg['own']:
        vbox = vcls0()
        vbox.allow_non_node_childs = cfg['allow']
    validates = cls not in (C7, C8)
    keys = styled(cfg.get('style'), STR_KEYS)
    for o, r in zip((box, vbox), cfg.get('bury', ())):
        if bury(o, r, keys):
            mon.ev('inner')
    used = []

    def img(o):
        return [(k, id(v), getattr(v, '__name__', None), id(getattr(v, '__parent__', None))) for k, v in children(o)]

    def loc(n):
        return (n.__name__, n.__parent__)

    def attempt(o, k, v, route, kind, exc):
        """Assign v under k by route; must raise exc (class or instance) if given."""
        routes = [lambda: o.__setitem__(k, v), lambda: o.update({k: v}), lambda: o.update([(k, v)]),
                  lambda: o.update(**{k: v})]
        if o.get(k) is None and k not in o:
            routes.append(lambda: o.setdefault(k, v))
        if hasattr(o, 'as_attribute_access'):
            acc = o.as_attribute_access()
            routes.append(lambda: acc.__setitem__(k, v))
            routes.append(lambda: setattr(acc, k, v))
        fn = pick(routes, route)
        if exc is None:
            return ok(mon, kind, 'assigning {}'.format(short(v)), fn)
        want = exc if isinstance(exc, type) else type(exc)
        if cls is C7 and issubclass(want, KeyError):
            want = KeyError  # the alias behavior re-raises KeyError(key)
        e = raises(mon, want, kind, 'assigning {}'.format(short(v)), fn)
        if not isinstance(exc, type):
            if not (isinstance(exc, KeyError) and cls is C7):
                mon.is_(e, exc, kind, 'exception')

    def fresh(r):
        n = moody(cls if hasattr(cls, 'uuid') else pick([BaseNode, cls, OrderedNode], r // 3), mood if r // 9 % 2 else None)()
        if r % 3 == 1:
            n.__name__ = 'preset'
        return n

    for op, a, b, c, d, e in case['ops']:
        k = keys[a % 5]
        mon.note(op, k)
        before = img(box)
        if op == 'set':
            v = fresh(b)
            attempt(box, k, v, c, 'accept', None)
            mon.ev('accepted')
            mon.true(v.__name__ == k and v.__parent__ is box, 'adopted', 'name', v.__name__, 'parent', v.__parent__)
            mon.is_(box[k], v, 'stored', 'item', k)
            exp = [x for x in before if x[0] != k] if k not in [x[0] for x in before] else before
            mon.eq(len(box), len(exp) + (0 if k in [x[0] for x in before] else 1), 'stored', 'len')
        elif op in ('reject', 'reject-replace', 'adopt-elsewhere'):
            if op == 'reject-replace' and before:
                k = pick(before, b)[0]
            v = fresh(b)
            if op == 'adopt-elsewhere':
                # child has a home already
                home = pick([other, BaseNode(name='home')], c)
                if hasattr(cls, 'uuid') and home is not other:
                    home = cls()
                home['athome'] = v
                v = home['athome']
                mon.ev('rejected-adopted-elsewhere')
                if e % 2 and hasattr(v, '__setitem__'):
                    v['sub'] = type(v)()
            was = loc(v)
            exc = pick(EXCS, d // 8)('injected %d' % e)
            box.reject = (pick([None, k], e // 2), exc)
            box_before = img(box)
            try:
                if op == 'reject' and hasattr(box, 'insertfirst') and k not in [x[0] for x in before] and e % 2:
                    v.__name__ = k
                    was = loc(v)
                    if before:
                        ref = box[pick(before, c)[0]]
                        fn, args = pick([(box.insertfirst, (v,)), (box.insertlast, (v,)),
                                         (box.insertbefore, (v, ref)), (box.insertafter, (v, ref))], d)
                    else:
                        fn, args = pick([(box.insertfirst, (v,)), (box.insertlast, (v,))], d)
                    got = raises(mon, type(exc), 'reject', 'ordered insertion', fn, *args)
                    mon.is_(got, exc, 'reject', 'exception')
                    mon.ev('rejected-insert')
                else:
                    attempt(box, k, v, c, 'reject', exc)
            finally:
                box.reject = None
            mon.ev('rejected')
            now = loc(v)
            mon.true(now[0] == was[0] and now[1] is was[1], 'reverted', 'rejected child was', was, 'is', now)
            mon.eq(img(box), box_before, 'unchanged', 'container after rejection')
            mon.eq([len(box), take(box.keys())], [len(before), [x[0] for x in before]], 'unchanged', 'keys')
            if op == 'adopt-elsewhere':
                mon.is_(home['athome'], v, 'reverted', 'old home')
                home.detach('athome')
            elif d % 2:
                # it can be attached properly afterwards
                attempt(box, k, v, c, 'accept', None)
                mon.true(v.__name__ == k and v.__parent__ is box, 'adopted', 'after an earlier rejection')
        elif op == 'update':
            # a rejection within an update keeps what was there before it
            ks = [keys[5 + (b + x) % 3] for x in range(3)]
            ks = list(dict.fromkeys(ks))
            vs = [fresh(b + x) for x in range(len(ks))]
            was = [loc(v) for v in vs]
            exc = pick(EXCS, d)('in update')
            at = c % len(ks)
            if ks[at] in [x[0] for x in before]:
                continue
            if cls is C7:
                continue
            box.reject = (ks[at], exc)
            try:
                got = raises(mon, type(exc), 'reject', 'update', box.update, list(zip(ks, vs)))
            finally:
                box.reject = None
            mon.is_(got, exc, 'reject', 'exception of update')
            mon.ev('rejected')
            for x, (kk, v) in enumerate(zip(ks, vs)):
                if x < at:
                    mon.is_(box[kk], v, 'update-prefix', kk)
                    mon.true(v.__parent__ is box and v.__name__ == kk, 'update-prefix', kk)
                else:
                    mon.true(kk not in box or box[kk] is not v, 'update-suffix', kk)
                    mon.true(loc(v)[0] == was[x][0] and loc(v)[1] is was[x][1], 'reverted', 'child of a failed update')
        elif op in ('invalid', 'class'):
            vk = keys[b % 5]
            v = fresh_value(c) if op == 'invalid' else pick([BaseNode, dict, vcls, Boom, int, Node, object, type, Meta] + ([] if cfg['allow'] else [Marked]), c)
            if op == 'invalid' and isinstance(v, type):
                continue
            before = img(vbox)
            mon.ev('invalid-value' if op == 'invalid' else 'class-value')
            if cfg['allow']:
                attempt(vbox, vk, v, d, 'accept-plain', None)
                mon.is_(vbox[vk], v, 'accept-plain', 'stored value')
                mon.ev('accepted')
            else:
                attempt(vbox, vk, v, d, 'refuse', ValueError)
                mon.eq(img(vbox), before, 'unchanged', 'container after refusing', short(v))
                mon.ev('rejected')
                n = vcls0()
                attempt(vbox, 'node', n, d, 'accept', None)
                mon.is_(vbox['node'], n, 'accept', 'node')
                del vbox['node']
        elif op == 'marked' and not cfg['allow'] and not hasattr(vcls, 'uuid'):
            # whether a value is a node is not a matter of its class
            mon.ev('marked')
            before = img(vbox)
            good, bad, late = Bare(), Bare(), Bare()
            alsoProvides(good, INode)
            alsoProvides(late, INode)
            attempt(vbox, 'marked', good, d, 'accept', None)
            mon.is_(vbox['marked'], good, 'accept', 'node by declaration')
            mid = img(vbox)
            attempt(vbox, 'other', bad, c, 'refuse', ValueError)
            noLongerProvides(late, INode)
            attempt(vbox, 'late', late, b, 'refuse', ValueError)
            mon.eq(img(vbox), mid, 'unchanged', 'container after refusing')
            mon.ev('rejected', 2)
            del vbox['marked']
            mon.eq(img(vbox), before, 'unchanged', 'container after all')
        elif op == 'key' and cls is not C7:
            # the storage cannot hold such keys
            mon.ev('unhashable-key')
            v = fresh(b)
            was = loc(v)
            fn = pick([lambda: box.__setitem__([k], v), lambda: box.__setitem__({k: 1}, v), lambda: box.update([({k}, v)])], c)
            state, got = outcome(fn)
            mon.true(state == 'exc' and isinstance(got, Exception), 'reject', 'a key without hash gives', got)
            now = loc(v)
            mon.true(now[0] == was[0] and now[1] is was[1], 'reverted', 'child rejected for its key was', was, 'is', now)
            mon.eq(img(box), before, 'unchanged', 'container after rejecting a key')
            mon.ev('rejected')
        elif op == 'del' and before:
            del box[before[a % len(before)][0]]
        elif op == 'dup' and hasattr(cls, 'uuid') and before:
            v = cls()
            v.__name__ = 'dup'
            v['deep'] = cls()
            v['deep'].uuid = box[pick(before, b)[0]].uuid
            was = loc(v)
            attempt(box, 'fresh-key', v, c, 'reject', ValueError)
            mon.ev('rejected')
            mon.true(loc(v)[0] == was[0] and loc(v)[1] is was[1], 'reverted', 'duplicate was', was, 'is', loc(v))
            mon.eq(img(box), before, 'unchanged', 'container after a duplicate')
