"""P17: dispatch calls exactly the bound subscribers, once each, in bind order.

Online checker: each dispatch carries a token, all subscribers log (token,
arguments); the log is compared with a reference table of bindings, also while
subscribers bind, unbind, dispatch and raise during dispatch.
"""
from kit import *
from node.behaviors.events import UnknownEvent
from node.events import EventDispatcher

ANCHORS = ['src/node/behaviors/events.py', 'src/node/events.py']
RULE = ('a case is 4-6 dispatchers out of related and unrelated classes and 15-70 bind, unbind, register and dispatch '
        'operations, some with subscribers that bind, unbind, dispatch or raise; non-trivial: every call log agreed')
QUICK, THOROUGH = 6000, 80000
MIN = {'dispatched': 40000, 'calls': 40000, 'reactive': 5000, 'unknown': 3000, 'no-subscriber': 3000, 'twice': 1500,
       'attribute': 3000}
ASSUMPTIONS = ['a subscriber bound or unbound while an event is dispatched may or may not take part in that dispatch']


class Boom(Exception):
    pass


@plumbing(Events)
class Base(object):
    __events__ = ['declared']
    attr = EventAttribute(0)


class Child(Base):
    childattr = EventAttribute(0)


class Sibling(Base):
    siblingattr = EventAttribute(0)


class GrandChild(Child):
    grandattr = EventAttribute(0)


class PlainChild(Child):
    pass


class AttrBehavior(Behavior):
    behaviorattr = default(EventAttribute(0))


@plumbing(AttrBehavior)
class Plumbed(EventDispatcher):
    own = EventAttribute(0)


@plumbing(AttrBehavior)
class PlumbedToo(EventDispatcher):
    pass


@plumbing(Events)
class NodeDispatcher(VOrderedNode):
    __events__ = ['declared', 'moved']


@plumbing(Events)
class AttributedDispatcher(VAttributedNode):
    attr = EventAttribute(0, storage='attrs')


@plumbing(Events)
class WithArguments(object):
    attr = EventAttribute(0)

    def __init__(self, x, y=None):
        self.x, self.y = x, y


class Alone(EventDispatcher):
    pass


class Mixin(object):
    pass


class Both(Mixin, Sibling):
    bothattr = EventAttribute(0)


CLASSES = [
    (Base, ['declared'], ['attr']),
    (Child, ['declared'], ['attr', 'childattr']),
    (Sibling, ['declared'], ['attr', 'siblingattr']),
    (GrandChild, ['declared'], ['attr', 'childattr', 'grandattr']),
    (PlainChild, ['declared'], ['attr', 'childattr']),
    (Plumbed, [], ['behaviorattr', 'own']),
    (PlumbedToo, [], ['behaviorattr']),
    (NodeDispatcher, ['declared', 'moved'], []),
    (AttributedDispatcher, [], ['attr']),
    (WithArguments, [], ['attr']),
    (Alone, [], []),
    (EventDispatcher, [], []),
    (Both, ['declared'], ['attr', 'siblingattr', 'bothattr']),
]
EVENTS = ['declared', 'moved', 'attr', 'childattr', 'siblingattr', 'grandattr', 'behaviorattr', 'own', 'bothattr',
          'e0', 'e1', 'e2', 'x y', 'ä', '', 'dispatch', 'e', 'e*', 'E0', 'decl*', ' e0']
W = {'bind': 20, 'rebind': 4, 'bind2': 3, 'unknown': 4, 'register': 6, 'unbind': 2, 'unbind-event': 3,
     'unbind-subscriber': 4, 'unbind-both': 6, 'unbind-nothing': 2, 'dispatch': 22, 'undispatched': 3, 'attr': 6,
     'reactive': 12, 'new': 1, 'raise': 2}


def gen(rng, i, tier):
    return {'cfg': {'classes': [rng.randrange(R) for _ in range(4)], 'few': rng.random() < .6,
                    'mood': rng.choice((None, None, None) + MOODS)},
            'ops': gen_ops(rng, W, 15, 70, 5)}


class Sub(object):
    """Callable subscriber; some are falsy."""

    def __init__(self, name, log, falsy):
        self.name = name
        self.log = log
        self.falsy = falsy
        self.react = None

    def __bool__(self):
        return not self.falsy

    def __call__(*args, **kw):
        self = args[0]
        self.log.append((self, args[1:], kw))
        if self.react is not None:
            react, self.react = self.react, None
            react()

    def method(*args, **kw):
        self = args[0]
        self.log.append((self, args[1:], kw))

    def __repr__(self):
        return self.name


def run(case, mon):
    cfg = case['cfg']
    log = []
    subs = [Sub('s%d' % i, log, i == 2) for i in range(7)]
    # what is bound, and who is behind it
    callables = [(s, s) for s in subs]
    disp, table, known, attrs, values = [], [], [], [], []

    def func(s):
        return lambda *args, **kw: s(*args, **kw)
    for i in (1, 2):
        s = Sub('f%d' % i, log, False)
        callables.append((func(s), s))
    # bound methods are equal but not identical each time
    meth = Sub('m', log, False)

    def call(i):
        i %= len(callables) + 1
        return callables[i] if i < len(callables) else (meth.method, meth)

    def new(c):
        cls, declared, a = CLASSES[c % len(CLASSES)]
        made = moody(cls, cfg['mood'] if c // len(CLASSES) % 2 else None)
        disp.append(made(1, y=2) if cls is WithArguments else made())
        table.append({})
        known.append(set(declared + a))
        attrs.append(a)
        values.append({})

    def event(i, r):
        evs = sorted(known[i])[:3 if cfg['few'] else 99]
        return pick(evs, r) if evs else None

    def want(i, e):
        return [s for f, s in table[i].get(e, [])]

    def index(i, e, f):
        for n, (g, s) in enumerate(table[i].get(e, [])):
            if g == f:
                return n
        return None

    def m_bind(i, e, f, s):
        if index(i, e, f) is None:
            table[i].setdefault(e, []).append((f, s))
            return True
        mon.ev('twice')
        return False

    def m_unbind(i, e=None, f=None):
        for ev in list(table[i]):
            if e is None or ev == e:
                table[i][ev] = [x for x in table[i][ev] if f is not None and x[0] != f]

    def dispatch(i, e, r):
        args = tuple([object(), r, None][:r % 4]) * (7 if r % 11 == 0 else 1)
        kw = {'a': object(), 'event_': 1} if r % 3 == 0 else {}
        before = list(log)
        mon.eq(len(before), 0, 'call', 'stray call', before)
        got = ok(mon, 'dispatch', 'dispatch', disp[i].dispatch, e, *args, **kw)
        mon.is_(got, None, 'dispatch', 'result')
        exp = want(i, e)
        calls = list(log)
        del log[:]
        mon.ev('dispatched')
        mon.ev('calls', len(calls))
        mon.ev('no-subscriber', not exp)
        mon.true([c[0] for c in calls] == exp, 'calls', 'event', e, 'called', [c[0] for c in calls], 'expected', exp)
        for s, a, k in calls:
            mon.true(len(a) == len(args) and all(x is y for x, y in zip(a, args)), 'arguments', a, 'expected', args)
            mon.true(set(k) == set(kw) and all(k[x] is kw[x] for x in k), 'arguments', k, 'expected', kw)

    for c in cfg['classes']:
        new(c)
    if cfg['few']:
        callables = callables[:3]
    for op, a, b, c, d, x in case['ops']:
        i = a % len(disp)
        o = disp[i]
        e = event(i, b)
        f, s = call(c)
        mon.note(op, i, e, s)
        if op == 'register':
            e = pick(EVENTS[9:], b)
            ok(mon, 'register', 'register', o.register_event, e)
            known[i].add(e)
        elif op == 'new':
            if len(disp) < 6:
                new(b)
        elif op == 'unknown':
            unk = sorted(set(EVENTS) - known[i])
            e = pick(unk, b)
            mon.ev('unknown')
            raises(mon, UnknownEvent, 'unknown', 'binding event {}'.format(e), o.bind, **{e: f})
            if d % 3 == 0:
                # still not known, still nothing bound
                mon.true(isinstance(outcome(o.bind, **{e: f})[1], ValueError), 'unknown', 'second try accepted')
        elif e is None:
            continue
        elif op == 'bind':
            ok(mon, 'bind', 'bind', o.bind, **{e: f})
            m_bind(i, e, f, s)
        elif op == 'rebind':
            if table[i].get(e):
                f, s = pick(table[i][e], c)
                if s is meth:
                    f = meth.method
                ok(mon, 'bind', 'bind again', o.bind, **{e: f})
                mon.ev('twice')
        elif op == 'bind2':
            e2 = event(i, d)
            g, t = call(x)
            if e2 != e:
                ok(mon, 'bind', 'bind two', o.bind, **{e: f, e2: g})
                m_bind(i, e, f, s)
                m_bind(i, e2, g, t)
        elif op == 'unbind':
            ok(mon, 'unbind', 'unbind everything', o.unbind)
            m_unbind(i)
        elif op == 'unbind-event':
            ok(mon, 'unbind', 'unbind event', o.unbind, **({'event': e}))
            m_unbind(i, e)
        elif op == 'unbind-subscriber':
            ok(mon, 'unbind', 'unbind subscriber', o.unbind, **({'subscriber': f}))
            m_unbind(i, None, f)
        elif op == 'unbind-both':
            if table[i].get(e) and d % 4:
                f, s = pick(table[i][e], c)
            if d % 2:
                ok(mon, 'unbind', 'unbind both', o.unbind, e, f)
            else:
                ok(mon, 'unbind', 'unbind both', o.unbind, subscriber=f, event=e)
            m_unbind(i, e, f)
        elif op == 'unbind-nothing':
            ok(mon, 'unbind', 'unbind unknown', o.unbind, event='not there')
            ok(mon, 'unbind', 'unbind unknown', o.unbind, subscriber=len)
            ok(mon, 'unbind', 'unbind unknown', o.unbind, event='not there', subscriber=f)
            ok(mon, 'unbind', 'unbind unknown', o.unbind, event=e, subscriber=len)
        elif op == 'dispatch':
            dispatch(i, e, c)
        elif op == 'undispatched':
            # same event of every other dispatcher
            for j in range(len(disp)):
                dispatch(j, e, c)
        elif op == 'attr':
            if not attrs[i]:
                continue
            e = pick(attrs[i], b)
            v = object()
            exp = want(i, e)
            ok(mon, 'attribute', 'set attribute', setattr, o, e, v)
            mon.ev('attribute')
            mon.ev('calls', len(log))
            mon.true([c_[0] for c_ in log] == exp, 'calls', 'attribute', e, 'called', [c_[0] for c_ in log],
                     'expected', exp)
            mon.true(all(c_[1] == (v,) and not c_[2] for c_ in log), 'arguments', 'of attribute subscribers')
            del log[:]
        elif op == 'raise':
            bound = [z for z in want(i, e) if isinstance(z, Sub) and z is not meth]
            if not bound:
                continue
            s = pick(bound, c)

            def boom():
                raise Boom()
            s.react = boom
            state, val = outcome(o.dispatch, e, 1)
            mon.true(state == 'exc' and type(val) is Boom, 'raise', 'exception of a subscriber became', val)
            s.react = None
            names = [z[0] for z in log]
            mon.true(all(names.count(z) == 1 for z in names) and set(map(id, names)) <= set(map(id, want(i, e))),
                     'calls', 'called', names)
            del log[:]
        elif op == 'reactive':
            bound = [z for z in want(i, e) if z is not meth]
            if not bound:
                continue
            s = pick(bound, c)
            f = [g for g, t in table[i][e] if t is s][0]
            g, t = call(d // 12)
            e2 = event(i, x)
            others = [y for y in range(len(disp)) if y != i]
            j = pick(others, x)
            how = pick(['self', 'other', 'bind', 'rebind', 'unbind-event', 'all', 'nested', 'nested-other', 'bind-other',
                        'all-other', 'subscriber', 'swap'], d)
            before = list(table[i][e])
            inner = []

            def react():
                at = len(log)
                if how == 'self':
                    o.unbind(event=e, subscriber=f)
                    m_unbind(i, e, f)
                elif how == 'other':
                    o.unbind(event=e, subscriber=g)
                    m_unbind(i, e, g)
                elif how == 'subscriber':
                    o.unbind(subscriber=g)
                    m_unbind(i, None, g)
                elif how == 'bind':
                    o.bind(**{e: g})
                    m_bind(i, e, g, t)
                elif how == 'rebind':
                    # stays bound, but at the end
                    o.unbind(event=e, subscriber=f)
                    o.bind(**{e: f})
                    m_unbind(i, e, f)
                    m_bind(i, e, f, s)
                elif how == 'swap':
                    o.unbind(event=e, subscriber=f)
                    o.bind(**{e: g})
                    m_unbind(i, e, f)
                    m_bind(i, e, g, t)
                elif how == 'unbind-event':
                    o.unbind(event=e2)
                    m_unbind(i, e2)
                elif how == 'all':
                    o.unbind()
                    m_unbind(i)
                elif how == 'nested':
                    o.dispatch(e2, 'nested')
                    inner.extend(want(i, e2))
                elif how == 'nested-other':
                    disp[j].dispatch(e, 'nested')
                    inner.extend(want(j, e))
                elif how == 'bind-other':
                    if e in known[j]:
                        disp[j].bind(**{e: g})
                        m_bind(j, e, g, t)
                elif how == 'all-other':
                    disp[j].unbind()
                    m_unbind(j)
                if how.startswith('nested'):
                    calls = log[at:]
                    del log[at:]
                    mon.true([z[0] for z in calls] == inner, 'calls', 'nested dispatch called', [z[0] for z in calls],
                             'expected', inner)
                    mon.true(all(z[1] == ('nested',) for z in calls), 'arguments', 'of nested dispatch')
            s.react = react
            ok(mon, 'dispatch', 'dispatch while ' + how, o.dispatch, e, 5)
            s.react = None
            mon.ev('reactive')
            names = [z[0] for z in log]
            mon.true(all(z[1] == (5,) for z in log), 'arguments', 'after reaction')
            del log[:]
            after = table[i].get(e, [])
            through = [t_ for h, t_ in before if any(h is h2 or h == h2 for h2, t2 in after)]
            mon.true(all(sum(z is y for z in names) == 1 for y in through), 'reactive', how, 'called', names,
                     'bound throughout', through)
            mon.true(all(sum(z is y for z in names) <= 1 for y in names), 'reactive', how, 'called twice', names)
            kept = [z for z in names if any(z is y for y in through)]
            if how != 'rebind':
                mon.true(kept == through, 'reactive', 'order', names, 'expected', through)
            union = through + [t_ for h, t_ in before] + [t_ for h, t_ in after]
            mon.true(all(any(z is y for y in union) for z in names), 'reactive', 'called', names)
        if log:
            raise Violation('call', '{} called {}'.format(op, [z[0] for z in log]))
        mon.state((tuple(sorted((k, len(v)) for k, v in table[i].items()))))
    for i in range(len(disp)):
        for e in sorted(known[i]):
            dispatch(i, e, i)
    # nothing of this is visible on new instances
    for i in range(len(disp)):
        cls, declared, at = [z for t in type(disp[i]).__mro__[:2] for z in CLASSES if z[0] is t][0]
        fresh = cls(1) if cls is WithArguments else cls()
        for e in known[i]:
            fresh.dispatch(e, 1)
            if e not in declared + at:
                raises(mon, UnknownEvent, 'unknown', 'event {} of another instance'.format(e), fresh.bind, **{e: len})
        mon.eq(log, [], 'call', 'subscribers of another instance called')


def fixed(mon):

    def many():
        d = EventDispatcher()
        d.register_event('e')
        d.register_event('other')
        log = []
        subs = [lambda *a, n=n, **kw: log.append((n, a, kw)) for n in range(300)]
        for s in subs:
            d.bind(e=s)
            d.bind(other=s)
        d.dispatch('e', 1, x=2)
        mon.eq(log, [(n, (1,), {'x': 2}) for n in range(300)], 'many', 'calls')
        for s in subs[::2]:
            d.unbind(event='e', subscriber=s)
        for s in subs[::3]:
            d.unbind(subscriber=s)
        del log[:]
        d.dispatch('e')
        mon.eq([x[0] for x in log], [n for n in range(300) if n % 2 and n % 3], 'many', 'calls')
        del log[:]
        d.dispatch('other')
        mon.eq([x[0] for x in log], [n for n in range(300) if n % 3], 'many', 'calls')
        for i in range(200):
            d.register_event('e%d' % i)
            d.bind(**{'e%d' % i: subs[i]})
        d.unbind(subscriber=subs[7])
        d.unbind(event='e8')
        del log[:]
        for i in range(200):
            d.dispatch('e%d' % i, i)
        mon.eq([x[:2] for x in log], [(i, (i,)) for i in range(200) if i not in (7, 8)], 'many', 'events')
        mon.ev('large')
    yield 'many', many
