"""P19: event suppression covers exactly its dynamic extent and its events.

The operations are executed as really nested ``with`` blocks, left normally or
by exceptions; a reference stack of active blocks tells which calls each
dispatch or assignment must make.
"""
from kit import *
from conc import in_thread
from node.events import EventDispatcher
from node.events import suppress_events

ANCHORS = ['src/node/behaviors/events.py']
RULE = ('a case is 15-70 operations: entering blocks for all, one or several events (new or reused suppression objects), '
        'leaving them normally or by exception through several levels, dispatching and assigning observable attributes '
        'of 2 dispatchers; non-trivial: every call log and level agreed with the stack of active blocks')
QUICK, THOROUGH = 6000, 150000
MIN = {'suppressed': 20000, 'delivered': 20000, 'entered': 20000, 'thrown': 2000, 'reused': 3000, 'reentered': 800,
       'created-only': 2000, 'in-subscriber': 2000, 'depth>=4': 2000}
ASSUMPTIONS = ['blocks are nested (with statements)', 'events are given as string, list or tuple']


class Boom(Exception):
    pass


class Stop(BaseException):
    pass


LOG = []


@plumbing(Events)
class Disp(object):
    __events__ = ['e0', 'e1', 'e2']
    a = EventAttribute(0, always_dispatch=True)
    b = EventAttribute(0)

    @b.subscriber
    def _b(self, value):
        LOG.append(('b:sub', self, value))


class Disp2(Disp):
    c = EventAttribute(0)

    @c.subscriber
    def _c(self, value):
        LOG.append(('c:sub', self, value))


class Plain(EventDispatcher):
    pass


NAMES = ['e0', 'e1', 'e2', 'a', 'b', 'c']
W = {'enter': 12, 'reuse': 5, 'leave': 12, 'throw': 2, 'dispatch': 16, 'set': 10, 'del': 2, 'create': 4, 'inside': 5,
     'raiseout': 1, 'all': 3}


def gen(rng, i, tier):
    return {'cfg': {}, 'ops': gen_ops(rng, W, 15, 70, 4)}


def run(case, mon):
    # suppression is bound to the thread: each case starts in a new one
    in_thread(play_case, case, mon)


def play_case(case, mon):
    del LOG[:]
    disp = [Disp(), Disp2()]
    hook = {}

    def bind(o, n, tag):
        def sub(*args):
            LOG.append((tag, o, args))
            h = hook.pop(tag, None)
            if h:
                h()
        o.bind(**{n: sub})
    bound = [{}, {}]
    for i, o in enumerate(disp):
        for n in NAMES[:5] + (['c'] if i else []):
            tags = ['{}.{}.{}'.format(i, n, x) for x in range(2)]
            for t in tags:
                bind(o, n, t)
            bound[i][n] = tags
    stack = []      # event lists of the active blocks, outermost first
    objects = []    # suppression objects with the events they were made for
    active = []     # objects currently entered
    pos = [0]
    counter = [100]
    ops = case['ops']

    def quiet(n):
        return any(ev is None or n in ev for ev in stack)

    def expected(i, n, v, attr):
        if quiet(n):
            mon.ev('suppressed')
            return []
        mon.ev('delivered')
        out = []
        if attr and n in ('b', 'c'):
            out.append((n + ':sub', disp[i], v))
        for t in bound[i][n]:
            out.append((t, disp[i], (v,)))
        return out

    def check(what, exp):
        mon.ev('comparisons')
        okay = len(LOG) == len(exp) and all(g[0] == e[0] and g[1] is e[1] and g[2] == e[2] for g, e in zip(LOG, exp))
        if not okay:
            raise Violation('calls', '{} with active blocks {}: called {} expected {}'.format(
                what, stack, [g[0] for g in LOG], [e[0] for e in exp]))
        del LOG[:]

    def make(b, c, d):
        names = NAMES
        kind = b % 6
        if kind == 0:
            return suppress_events(), None
        if kind == 1:
            n = pick(names, c)
            return suppress_events(n), [n]
        some = [pick(names, c + x * (d % 5 + 1)) for x in range(d % 4)]
        if kind == 2:
            return suppress_events(tuple(some)), some
        if kind == 3:
            return suppress_events(events=list(some)), some
        if kind == 4:
            return suppress_events(some + some), some
        evs = [pick(['other', 'e', 'e*', 'E0', '0', '', 'e0 ', '*', 'e.', '.*', 'e0,e1', 'all'], d), pick(names, c)]
        return suppress_events(evs[:1 + d // 16 % 2]), evs[:1 + d // 16 % 2]

    def block(cm, evs):
        """Executes what follows within the block."""
        mon.ev('entered')
        with cm as level:
            stack.append(evs)
            active.append(cm)
            try:
                mon.eq(level, len(stack), 'level', 'nesting level')
                if len(stack) >= 4:
                    mon.ev('depth>=4')
                play()
            finally:
                stack.pop()
                active.pop()

    def play():
        while pos[0] < len(ops):
            op, a, b, c, d = ops[pos[0]]
            pos[0] += 1
            i = a % 2
            o = disp[i]
            n = pick(sorted(bound[i]), b)
            mon.note('%d' % len(stack), op, i, n)
            if op == 'enter':
                if len(stack) > 7:
                    continue
                cm, evs = make(b, c, d)
                objects.append((cm, evs))
                block(cm, evs)
            elif op == 'reuse':
                if not objects or len(stack) > 7:
                    continue
                cm, evs = pick(objects, b)
                mon.ev('reused')
                mon.ev('reentered', cm in active)
                block(cm, evs)
            elif op == 'leave':
                if stack:
                    return
            elif op == 'throw':
                # leaves 1-3 blocks
                if stack:
                    depth = c % 3
                    mon.ev('thrown')
                    exc = pick([Boom, KeyError, Stop, StopIteration, GeneratorExit], d)()
                    exc.depth = depth
                    raise exc
            elif op == 'raiseout':
                # a subscriber fails, inside a block of its own
                if stack or quiet(n):
                    continue

                def boom():
                    with suppress_events():
                        raise Boom()
                hook['{}.{}.0'.format(i, n)] = boom
                raises(mon, Boom, 'raise', 'dispatch', o.dispatch, n, 1)
                hook.clear()
                mon.ev('thrown')
                del LOG[:]
            elif op == 'create':
                # without entering
                cm, evs = make(b, c, d)
                objects.append((cm, evs))
                mon.ev('created-only')
            elif op == 'dispatch':
                exp = expected(i, n, c, False)
                ok(mon, 'dispatch', 'dispatch', o.dispatch, n, c)
                check('dispatch of ' + n, exp)
            elif op == 'all':
                for n in sorted(bound[i]):
                    exp = expected(i, n, c, False)
                    ok(mon, 'dispatch', 'dispatch', o.dispatch, n, c)
                    check('dispatch of ' + n, exp)
            elif op == 'set':
                n = pick(['a', 'b', 'c'][:2 + i], b)
                counter[0] += 1
                exp = expected(i, n, counter[0], True)
                ok(mon, 'set', 'assignment', setattr, o, n, counter[0])
                check('assignment of ' + n, exp)
                mon.eq(getattr(o, n), counter[0], 'value', n)
            elif op == 'del':
                n = pick(['a', 'b', 'c'][:2 + i], b)
                if n not in o.__dict__:
                    continue
                exp = expected(i, n, UNSET, False)
                ok(mon, 'delete', 'deletion', delattr, o, n)
                LOG[:] = [g for g in LOG if not g[0].endswith(':sub')]
                check('deletion of ' + n, exp)
            elif op == 'inside':
                # the first subscriber opens a block and dispatches in it
                if quiet(n):
                    continue
                cm, evs = make(b, c, d)
                j, m = c % 2, pick(sorted(bound[0]), d)
                mon.ev('in-subscriber')
                exp = expected(i, n, c, False)
                stack.append(evs)
                inner = expected(j, m, 'in', False)
                stack.pop()

                def react():
                    with cm as level:
                        mon.eq(level, len(stack) + 1, 'level', 'nesting level in subscriber')
                        disp[j].dispatch(m, 'in')
                hook['{}.{}.0'.format(i, n)] = react
                ok(mon, 'dispatch', 'dispatch', o.dispatch, n, c)
                hook.clear()
                check('dispatch of {} with a block in a subscriber'.format(n), exp[:1] + inner + exp[1:])
            mon.state((len(stack), tuple(sorted(str(x) for x in stack)), op))

    def outermost():
        while pos[0] < len(ops):
            try:
                play()
            except (Boom, KeyError, Stop, StopIteration, GeneratorExit) as e:
                if not hasattr(e, 'depth'):
                    raise
    # exceptions end at the level they are meant for
    real = block

    def block(cm, evs):  # noqa
        try:
            real(cm, evs)
        except (Boom, KeyError, Stop, StopIteration, GeneratorExit) as e:
            if not hasattr(e, 'depth'):
                raise
            if e.depth > 0 and stack:
                e.depth -= 1
                raise
    outermost()
    # everything is restored
    for i, o in enumerate(disp):
        for n in sorted(bound[i]):
            ok(mon, 'dispatch', 'dispatch', o.dispatch, n, 'end')
            check('dispatch of {} at the end'.format(n), expected(i, n, 'end', False))
    with suppress_events() as level:
        mon.eq(level, 1, 'level', 'nesting level at the end')


def fixed(mon):

    def all_of(o, what):
        """Every event of the dispatcher is delivered once."""
        got = []
        for n in sorted(o.__class__.__events__):
            o.bind(**{n: lambda *args: got.append(args)})
            ok(mon, 'restored', what, o.dispatch, n, n)
            mon.eq(got, [(n,)], 'restored', 'calls of', n, what)
            del got[:]
            o.unbind(event=n)
        o.b = 1 if o.b != 1 else 2
        mon.eq(LOG, [('b:sub', o, o.b)], 'restored', 'subscribers of the attribute', what)
        del LOG[:]

    def changed():
        """The caller changes the list meanwhile."""
        for change in (lambda x: x.append('e1'), lambda x: x.clear(), lambda x: x.reverse(), lambda x: x.append('a'),
                       lambda x: x.__setitem__(0, 'e2'), lambda x: x.pop()):
            for throw in (False, True):
                some = ['e0', 'e1', 'b']
                o = Disp()
                try:
                    with suppress_events(some):
                        change(some)
                        if throw:
                            raise Boom()
                except Boom:
                    pass
                all_of(o, 'after the list was changed within the block')
                with suppress_events(['e0']) as level:
                    mon.eq(level, 1, 'level', 'level')
                    o.dispatch('e0')

    def deep(n):
        o = Disp()
        got = []
        o.bind(e0=got.append)

        def play(i):
            with suppress_events([None, 'e0', ['e0', 'a'], ('e1',)][i % 4] or ['e0', 'e2']) as level:
                mon.eq(level, i + 1, 'level', 'nesting level')
                o.dispatch('e0', i)
                if i < n:
                    play(i + 1)
                o.dispatch('e0', i)
                o.dispatch('e0', i)
                mon.eq(got, [], 'suppressed', 'calls at level', i)
        play(0)
        o.unbind()
        all_of(o, 'after deeply nested blocks')
        mon.ev('deep')

    def thrown(exc):
        o = Disp()
        for depth in (1, 2, 5):
            def play(i):
                with suppress_events('e0' if i % 2 else ALL):
                    if i == depth:
                        raise exc()
                    play(i + 1)
            state, e = outcome_any(play, 1)
            mon.true(state == 'exc' and type(e) is exc, 'thrown', 'block left by', exc, 'gives', e)
            all_of(o, 'after {}'.format(exc.__name__))

    from node.behaviors.events import ALL_EVENTS as ALL

    def outcome_any(fn, *args):
        try:
            return 'ok', fn(*args)
        except BaseException as e:
            return 'exc', e

    def in_new_thread(fn, *args):
        return lambda: in_thread(fn, *args)

    yield 'changed', in_new_thread(changed)
    yield 'deep', in_new_thread(deep, 150)
    for exc in (KeyboardInterrupt, SystemExit, GeneratorExit, MemoryError, RecursionError, StopIteration, ValueError,
                AttributeError):
        yield 'thrown-' + exc.__name__, in_new_thread(thrown, exc)
