"""P18: observable attributes keep plain attribute semantics and announce changes.

Lockstep simulation: a reference executes the same assignments with the same
reactions of subscribers, predicting values and the complete, ordered call log
(with the value each subscriber finds on the owner when it is called).
"""
from kit import *
from node.events import EventDispatcher
from node.events import suppress_events

ANCHORS = ['src/node/behaviors/events.py']
RULE = ('a case is 3-5 instances with observable attributes of all storages and 15-60 assignments, deletions, reads and '
        'bindings, with subscribers assigning, deleting and raising; non-trivial: values and call log agreed')
QUICK, THOROUGH = 5000, 120000
MIN = {'set': 40000, 'calls': 40000, 'attribute-calls': 15000, 'unchanged': 3000, 'deleted': 4000, 'nested': 3000,
       'raised': 1000, 'default': 20000, 'quiet': 1000, 'equal-not-same': 1000}
ASSUMPTIONS = ['whether subscribers registered on the attribute itself are called on deletion is left open']


class Boom(Exception):
    pass


class Eq(object):
    """Equal to every instance of the same number."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Eq) and other.n == self.n

    def __ne__(self, other):
        return not self == other

    __hash__ = None


LOG = []
HOOK = {}


def owner_sub(tag):
    def called(self, value):
        LOG.append((tag, self, value, getattr(self, tag.split(':')[0], 'missing')))
        hook = HOOK.pop(tag, None)
        if hook:
            hook()
    return called


@plumbing(Events)
class Plain(object):
    a = EventAttribute(1)
    b = EventAttribute()
    c = EventAttribute(None, always_dispatch=True)
    d = EventAttribute('x')
    d.subscriber(owner_sub('d:1'))
    d.subscriber(owner_sub('d:2'))
    e = EventAttribute(0, always_dispatch=True)
    e.subscriber(owner_sub('e:1'))


class Derived(Plain):
    f = EventAttribute(())
    f.subscriber(owner_sub('f:1'))


class Derived2(Derived):
    a = EventAttribute(2)
    a.subscriber(owner_sub('a:1'))


@plumbing(Events)
class OnAttrs(VAttributedNode):
    a = EventAttribute(1, storage='attrs')
    d = EventAttribute('x', storage='attrs')
    d.subscriber(owner_sub('d:1'))
    d.subscriber(owner_sub('d:2'))
    d.subscriber(owner_sub('d:3'))
    b = EventAttribute(storage='__dict__')
    c = EventAttribute(None, storage='attrs', always_dispatch=True)


class PlumbedBehavior(Behavior):
    d = EventAttribute('x')
    d.subscriber(owner_sub('d:1'))
    d = default(d)
    a = default(EventAttribute(1))


@plumbing(PlumbedBehavior)
class Plumbed(EventDispatcher):
    b = EventAttribute()


@plumbing(PlumbedBehavior)
class Plumbed2(EventDispatcher):
    c = EventAttribute(0)


@plumbing(Events)
class Own(object):
    """A storage of its own, shared by no one."""
    a = EventAttribute(1, storage='box')
    b = EventAttribute(storage='box')
    d = EventAttribute('x', 'box')
    d.subscriber(owner_sub('d:1'))
    e = EventAttribute(0, 'box', True)

    def __init__(self, start=()):
        self.box = odict(start)


@plumbing(Events)
class OnChildren(VOrderedNode):
    """The node itself is the storage."""
    a = EventAttribute(1, storage='me')
    d = EventAttribute('x', storage='me')
    d.subscriber(owner_sub('d:1'))

    @property
    def me(self):
        return self


# class -> {name: (default, always, attribute subscribers)}
NOSUBS = ()
PLAIN_ = {'a': (1, False, ()), 'b': (UNSET, False, ()), 'c': (None, True, ()), 'd': ('x', False, ('d:1', 'd:2')),
          'e': (0, True, ('e:1',))}
DERIVED_ = dict(PLAIN_, f=((), False, ('f:1',)))
TABLE = [
    (Plain, PLAIN_, '__dict__'),
    (Derived, DERIVED_, '__dict__'),
    (Derived2, dict(DERIVED_, a=(2, False, ('a:1',))), '__dict__'),
    (OnAttrs, {'a': (1, False, ()), 'd': ('x', False, ('d:1', 'd:2', 'd:3')), 'c': (None, True, ())}, 'attrs'),
    (Plumbed, {'d': ('x', False, ('d:1',)), 'a': (1, False, ()), 'b': (UNSET, False, ())}, '__dict__'),
    (Plumbed2, {'d': ('x', False, ('d:1',)), 'a': (1, False, ()), 'c': (0, False, ())}, '__dict__'),
    (Own, {'a': (1, False, ()), 'b': (UNSET, False, ()), 'd': ('x', False, ('d:1',)), 'e': (0, True, ('e:1',))}, 'box'),
    (OnChildren, {'a': (1, False, ()), 'd': ('x', False, ('d:1',))}, 'me'),
]
Own.e  # the class reads as the default
Own.__dict__['e'].subscriber(owner_sub('e:1'))
W = {'set': 30, 'same': 5, 'equal': 3, 'default': 3, 'del': 7, 'delunset': 3, 'bind': 8, 'unbind': 3, 'read': 4,
     'nested': 7, 'raise': 3, 'quiet': 3, 'other': 2, 'dispatch': 2}


def gen(rng, i, tier):
    return {'cfg': {'classes': [rng.randrange(R) for _ in range(rng.randint(3, 5))],
                    'bound': rng.random() < .7, 'mood': rng.choice((None, None, None) + MOODS)}, 'ops': gen_ops(rng, W, 15, 60, 6)}


NONE = object()


class Bound(object):

    def __init__(self, tag, o, name):
        self.tag, self.o, self.name = tag, o, name

    def __call__(self, *args):
        LOG.append((self.tag, None, args[0] if len(args) == 1 else args, getattr(self.o, self.name)))
        hook = HOOK.pop(self.tag, None)
        if hook:
            hook()


def run(case, mon):
    try:
        play(case, mon)
    finally:
        HOOK.clear()
        del LOG[:]


def play(case, mon):
    cfg = case['cfg']
    inst, desc, store, vals, bound, allb = [], [], [], [], [], []
    for c in cfg['classes']:
        cls, table, where = TABLE[c % len(TABLE)]
        inst.append(moody(cls, cfg['mood'] if c // len(TABLE) % 3 else None)())
        desc.append(table)
        store.append(where)
        vals.append({})
        bound.append({n: [] for n in table})
        allb.append({n: [Bound('{}{}{}'.format(n, len(inst), x), inst[-1], n) for x in range(3)] for n in table})
        if cfg['bound']:
            for n in table:
                inst[-1].bind(**{n: allb[-1][n][0]})
                bound[-1][n].append(allb[-1][n][0])

    # reference -----------------------------------------------------------
    react = {}
    exp = []

    def cur(i, n):
        return vals[i].get(n, desc[i][n][0])

    def called(tag, owner, v, i, n):
        exp.append((tag, owner, v, cur(i, n)))
        act = react.pop(tag, None)
        if act:
            act()

    def m_announce(i, n, v, withattr=True):
        if withattr:
            for tag in desc[i][n][2]:
                called(tag, inst[i], v, i, n)
        for s in list(bound[i][n]):
            called(s.tag, None, v, i, n)

    def m_set(i, n, v):
        old = cur(i, n)
        vals[i][n] = v
        if desc[i][n][1] or old != v:
            m_announce(i, n, v)
        else:
            mon.ev('unchanged')

    def m_del(i, n):
        del vals[i][n]
        m_announce(i, n, UNSET, False)

    # ---------------------------------------------------------------------

    def compare(what, deletion=False):
        got = list(LOG)
        del LOG[:]
        mon.ev('calls', len(got))
        mon.ev('attribute-calls', sum(1 for g in got if g[1] is not None))
        if deletion:
            got = [g for g in got if not (g[1] is not None and g[2] is UNSET)]
        okay = len(got) == len(exp) and all(
            g[0] == e[0] and g[1] is e[1] and g[2] is e[2] and g[3] is e[3] for g, e in zip(got, exp))
        if not okay:
            raise Violation('calls', '{}: called {} expected {}'.format(
                what, [(g[0], short(g[2], 30), short(g[3], 30)) for g in got],
                [(e[0], short(e[2], 30), short(e[3], 30)) for e in exp]))
        del exp[:]
        mon.ev('comparisons')

    def values():
        for i, o in enumerate(inst):
            for n in desc[i]:
                v = getattr(o, n)
                mon.ev('default', n not in vals[i])
                mon.is_(v, cur(i, n), 'value', 'attribute', n, 'of instance', i)
                place = getattr(o, store[i])
                mon.true((n in place) == (n in vals[i]), 'storage', n, 'in', store[i])

    def value(r):
        return [r // 12 % 3, 'x', None, UNSET, Eq(r // 12 % 2), 1.0, True, [r // 12 % 2], object(), 0, '', ()][r % 12]

    for op, a, b, c, d, x, y in case['ops']:
        i = a % len(inst)
        o = inst[i]
        n = pick(sorted(desc[i]), b)
        mon.note(op, i, n)
        if op == 'set':
            v = value(c)
            mon.ev('set')
            ok(mon, 'set', 'assignment', setattr, o, n, v)
            m_set(i, n, v)
        elif op == 'same':
            v = cur(i, n)
            mon.ev('set')
            ok(mon, 'set', 'assignment', setattr, o, n, v)
            m_set(i, n, v)
        elif op == 'equal':
            for v in (Eq(c % 2), Eq(c % 2)):
                ok(mon, 'set', 'assignment', setattr, o, n, v)
                m_set(i, n, v)
            mon.ev('equal-not-same')
        elif op == 'default':
            v = desc[i][n][0]
            ok(mon, 'set', 'assignment', setattr, o, n, v)
            m_set(i, n, v)
        elif op == 'del':
            if not vals[i]:
                continue
            n = pick(sorted(vals[i]), b)
            mon.ev('deleted')
            ok(mon, 'delete', 'deletion', delattr, o, n)
            m_del(i, n)
        elif op == 'delunset':
            if n in vals[i]:
                continue
            raises(mon, (KeyError, AttributeError), 'delete', 'deleting what is not set', delattr, o, n)
        elif op == 'bind':
            s = pick(allb[i][n], c)
            o.bind(**{n: s})
            if s not in bound[i][n]:
                bound[i][n].append(s)
        elif op == 'unbind':
            if bound[i][n]:
                s = pick(bound[i][n], c)
                o.unbind(event=n, subscriber=s)
                bound[i][n].remove(s)
        elif op == 'dispatch':
            # dispatched by hand: no assignment, so no attribute subscribers
            ok(mon, 'dispatch', 'dispatch', o.dispatch, n, 5)
            for s in list(bound[i][n]):
                called(s.tag, None, 5, i, n)
        elif op == 'nested':
            # one of the subscribers edits an attribute itself
            tags = list(desc[i][n][2]) + [s.tag for s in bound[i][n]]
            if not tags:
                continue
            tag = pick(tags, c)
            j = d % len(inst)
            m = pick(sorted(desc[j]), x)
            w = object()
            delete = y % 3 == 0 and m in vals[j] and (j, m) != (i, n)
            mon.ev('nested')
            if delete:
                HOOK[tag] = lambda: delattr(inst[j], m)
                react[tag] = lambda: m_del(j, m)
            else:
                HOOK[tag] = lambda: setattr(inst[j], m, w)
                react[tag] = lambda: m_set(j, m, w)
            if y % 2 and len(tags) > 1:
                # and another one too
                tag2 = pick(tags, c + 1)
                k = x % len(inst)
                p = pick(sorted(desc[k]), y)
                u = object()
                HOOK[tag2] = lambda: setattr(inst[k], p, u)
                react[tag2] = lambda: m_set(k, p, u)
            v = object()
            state, val = outcome(setattr, o, n, v)
            try:
                m_set(i, n, v)
                mstate = 'ok'
            except KeyError:
                mstate = 'exc'
            mon.eq(state, mstate, 'nested', 'assignment with reaction', val)
            HOOK.clear()
            react.clear()
        elif op == 'raise':
            tags = list(desc[i][n][2]) + [s.tag for s in bound[i][n]]
            if not tags:
                continue
            tag = pick(tags, c)
            mon.ev('raised')

            def boom():
                raise Boom()
            HOOK[tag] = boom
            v = object()
            raises(mon, Boom, 'raise', 'assignment', setattr, o, n, v)
            HOOK.clear()
            vals[i][n] = v
            del LOG[:]
        elif op == 'quiet':
            mon.ev('quiet')
            v = object()
            with suppress_events(n) if c % 2 else suppress_events():
                ok(mon, 'set', 'assignment', setattr, o, n, v)
                vals[i][n] = v
                if d % 3 == 0:
                    ok(mon, 'delete', 'deletion', delattr, o, n)
                    del vals[i][n]
        elif op == 'read':
            for _ in range(2):
                mon.is_(getattr(o, n), cur(i, n), 'value', 'attribute', n)
            mon.is_(getattr(type(o), n), desc[i][n][0], 'value', 'default of', n, 'on the class')
        elif op == 'other':
            # attributes which are not observable
            o.plain = c
            mon.eq(o.plain, c, 'value', 'plain attribute')
            del o.plain
        compare(op, op in ('del', 'nested'))
        if op != 'read' and x % 3 == 0:
            values()
        mon.state((type(o).__name__, tuple(sorted(vals[i])), op))
    values()


def fixed(mon):

    def decorator():
        # the decorated function stays available under its name
        calls = []

        @plumbing(Events)
        class Owner(object):
            a = EventAttribute(1)

            @a.subscriber
            def a_changed(self, value):
                calls.append((self, value))

        o = Owner()
        o.a = 2
        mon.true(len(calls) == 1 and calls[0][0] is o and calls[0][1] == 2, 'decorator', 'calls', calls)
        o.a_changed(3)
        mon.true(len(calls) == 2 and calls[1][0] is o and calls[1][1] == 3, 'decorator', 'called by hand', calls)
    yield 'decorator', decorator
