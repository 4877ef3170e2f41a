"""P20: events, suppression and fallback work in every thread and stay thread-local.

Each thread executes a program whose call log and lookup results are known
from executing it alone; the same programs then run interleaved: preempted at
every line of the code under test in turn, with several switches, and with
random delays.
"""
import sys
import threading
from conc import *
from kit import *
from node.events import suppress_events

ANCHORS = ['src/node/behaviors/events.py', 'src/node/behaviors/fallback.py']
RULE = ('a case is two or three programs of suppression blocks, dispatches, observable assignments and fallback lookups '
        'and schedules preempting them at lines of the code under test; non-trivial: each thread gave the log and '
        'results it gives alone')
QUICK, THOROUGH = 420, 9000
THREADED = True
MIN = {'schedules': 12000, 'preempted': 10000, 'calls': 100000, 'lookups': 50000, 'delays': 100}
ASSUMPTIONS = ['preemption at line granularity', 'threads share classes, attributes, (for dispatching) dispatchers and '
               '(for lookups) a tree, each changes trees of its own only']
EXPLAIN = ('distinct_states counts distinct pairs of preempted lines of the two threads')
FILES = ('events.py', 'fallback.py')

LOG = threading.local()


class Leave(Exception):
    pass


@plumbing(Events)
class Disp(object):
    __events__ = ['e0', 'e1']
    a = EventAttribute(0)
    b = EventAttribute(0, always_dispatch=True)
    plain = EventAttribute(0)

    @a.subscriber
    def _a1(self, value):
        record('a1', self.tag, value)

    @a.subscriber
    def _a2(self, value):
        record('a2', self.tag, value)
        # triggers another attribute
        if value == 5:
            self.b = value

    @b.subscriber
    def _b1(self, value):
        record('b1', self.tag, value)


@plumbing(Fallback)
class Fb(VOrderedNode):
    pass


SHARED = None


def record(*what):
    log = getattr(LOG, 'log', None)
    if log is None:
        raise Violation('thread', 'called in a thread without program: {}'.format(what))
    log.append(what)


class Program(object):
    """Deterministic; every execution works on new objects."""

    def __init__(self, tag, ops, shared, common=None):
        self.tag = tag
        self.ops = ops
        self.shared = shared
        self.common = common

    @staticmethod
    def tree():
        root = Fb()
        root.fallback_key = 'en'
        for lang in ('en', 'de'):
            root[lang] = Fb()
            root[lang].fallback_key = 'x'
            for k in ('x', 'y'):
                root[lang][k] = Fb()
                if lang == 'en' or k == 'x':
                    for z in ('1', '2'):
                        root[lang][k][z] = Fb()
        return root

    def __call__(self):
        LOG.log = []
        disp = [Disp(), Disp()]
        for i, d in enumerate(disp):
            d.tag = '{}.{}'.format(self.tag, i)
            for n in ('e0', 'e1', 'a', 'b', 'plain'):
                d.bind(**{n: lambda *args, n=n, tag=d.tag: record('bound', n, tag, args)})
        tree = self.tree()
        it = iter(self.ops)
        self.play(it, disp, tree, 0)
        return LOG.log

    def play(self, it, disp, tree, depth):
        for op, a, b, c in it:
            d = disp[a % 2]
            n = pick(['e0', 'e1', 'a', 'b'], b)
            if op == 'enter' and depth < 4:
                cm = suppress_events() if c % 3 == 0 else suppress_events([n] if c % 2 else n)
                try:
                    with cm as level:
                        record('level', level)
                        self.play(it, disp, tree, depth + 1)
                except Leave:
                    pass
            elif op == 'leave':
                if depth:
                    if c % 3 == 0:
                        raise Leave()
                    return
            elif op == 'dispatch':
                d.dispatch(n, c)
            elif op == 'shared':
                self.shared.dispatch(pick(['e0', 'e1'], b), self.tag, c)
            elif op == 'set':
                name = pick(['a', 'b', 'plain'], b)
                setattr(d, name, c % 6)
                record('read', name, getattr(d, name))
            elif op == 'del':
                if 'plain' in d.__dict__:
                    del d.plain
                    record('read', 'plain', d.plain)
            elif op in ('lookup', 'common'):
                if op == 'common':
                    # all threads read this tree
                    tree, own = self.common, tree
                lang, k, z = pick(['en', 'de'], a), pick(['x', 'y', 'q'], b), pick(['1', '2', '3'], c)
                try:
                    got = tree[lang][k][z].path
                except KeyError as e:
                    got = ('KeyError', e.args)
                record('lookup', lang, k, z, got)
                if op == 'common':
                    tree = own
            elif op == 'get':
                record('get', tree['de'].get('nothing'), 'y' in take(tree['de']), len(tree['de']))


W = {'enter': 4, 'leave': 4, 'dispatch': 5, 'set': 7, 'shared': 4, 'lookup': 4, 'common': 4, 'get': 1, 'del': 1}


def gen(rng, i, tier):
    return {'programs': [gen_ops(rng, W, 4, 12, 3) for _ in range(2 if i % 4 else 3)],
            'schedules': [[rng.randrange(R) for _ in range(4)] for _ in range(40 if tier == 'quick' else 80)],
            'jitter': rng.randrange(R) if i % 3 == 0 else None}


def shared_dispatcher():
    d = Disp()
    d.tag = 'shared'
    for n in ('e0', 'e1'):
        for x in range(2):
            d.bind(**{n: lambda tag, v, n=n, x=x: record('shared', n, x, tag, v)})
    return d


def run(case, mon):
    shared = shared_dispatcher()
    common = Program.tree()
    programs = [Program('t%d' % i, ops, shared, common) for i, ops in enumerate(case['programs'])]
    lines, expected = [], []
    for p in programs:
        n, w = count_lines(p, FILES)
        if w.error is not None:
            raise w.error if isinstance(w.error, Violation) else Violation('alone', repr(w.error))
        lines.append(max(1, n))
        expected.append(w.result)

    def check(workers, what):
        for i, w in enumerate(workers):
            if w.error is not None:
                raise Violation('thread', '{}: thread {} failed with {!r}'.format(what, i, w.error))
            mon.ev('calls', sum(1 for x in w.result if x[0] not in ('read', 'lookup', 'get')))
            mon.ev('lookups', sum(1 for x in w.result if x[0] == 'lookup'))
            if w.result != expected[i]:
                at = [x == y for x, y in zip(w.result, expected[i])] + [False]
                at = at.index(False)
                raise Violation('thread', '{}: thread {} gave {} but alone {} (entry {})'.format(
                    what, i, w.result[at:at + 3], expected[i][at:at + 3], at))
            mon.ev('comparisons')
    for a, b, c, d in case['schedules']:
        if len(programs) == 3:
            segs = [(0, a % lines[0]), (1, b % lines[1]), (2, INF), (0, c % lines[0]), (1, INF)]
        elif d % 4 == 0:
            segs = [(0, a % lines[0]), (1, INF)]
        elif d % 4 == 1:
            segs = [(0, a % lines[0]), (1, b % lines[1]), (0, INF)]
        elif d % 4 == 2:
            segs = [(0, a % lines[0]), (1, b % lines[1]), (0, 1 + c % 3), (1, INF)]
        else:
            # ping-pong with short segments
            segs = [(0, a % lines[0])] + [(x % 2, 1 + (b * (x + 3) >> 3) % 4) for x in range(1, 12)]
        s = Schedule(programs, segs, files=FILES).run()
        mon.ev('schedules')
        mon.ev('preempted', bool(s.switches))
        mon.state(tuple(s.switches[:2]))
        check(s.workers, 'switches at {}'.format(s.switches))
    if case['jitter'] is not None:
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            j = Jitter(programs, case['jitter'], p=0.1, delay=0.0005)
            check(j.run(), 'random delays')
        finally:
            sys.setswitchinterval(old)
        mon.ev('delays', bool(j.order))
