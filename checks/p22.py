"""P22: the tree lock gives mutual exclusion per tree and is always released.

Section monitor: every locked section reports enter and exit; a section of a
tree entered while another thread is inside, a lost update of the unprotected
counter of the tree, a schedule that does not end, a lock that is not free
afterwards or one that blocks another tree is a violation.  Threads are
preempted at lines of the code under test, also while creating the lock.
"""
import sys
import threading
from conc import *
from kit import *
from node.locking import TreeLock
from node.locking import locktree

ANCHORS = ['src/node/locking.py']
RULE = ('a case is 2-3 threads with programs of locked sections and methods on nodes of two trees and schedules '
        'preempting them at lines of the code under test, each on new trees; non-trivial: exclusion, counters, results '
        'and release were as required')
QUICK, THOROUGH = 300, 6000
THREADED = True
MIN = {'schedules': 2000, 'preempted': 1500, 'blocked': 300, 'sections': 20000, 'methods': 5000, 'raised': 3000,
       'reentered': 3000, 'independent': 40, 'released': 3000, 'first-lock': 1000, 'delays': 50, 'moved': 100}
ASSUMPTIONS = ['preemption at line granularity', 'trees are not joined or split while locked',
               'a thread that does not get a free lock within 20 seconds is blocked']
EXPLAIN = 'distinct_states counts distinct pairs of lines where threads were preempted'


class Boom(Exception):
    pass


class Hard(BaseException):
    pass


class Lockable(Behavior):
    """Locked methods, and the same without lock."""

    monitor = default(None)

    @default
    def plain(self, what, prog, *args, **kw):
        return prog.method(self, what, args, kw)

    locked = default(locktree(lambda self, what, prog, *args, **kw: prog.method(self, what, args, kw)))


def method(self, what, prog, *args, **kw):
    return prog.method(self, what, args, kw)


class LockNode(VOrderedNode):
    plain = method
    locked = locktree(method)


class LockNode2(AdoptOdictNode):
    plain = method
    locked = locktree(method)


@plumbing(Lockable)
class LockNode3(VBaseNode):
    pass


class Falsy(LockNode):
    """A tree may be false."""

    def __bool__(self):
        return False


class Equal(LockNode):
    """Trees may be equal to each other."""

    def __eq__(self, other):
        return hasattr(other, 'locked')

    def __ne__(self, other):
        return not hasattr(other, 'locked')

    def __hash__(self):
        return 7


class Unhashable(LockNode2):
    """... or not hashable."""
    __hash__ = None

    def __eq__(self, other):
        return self is other


TYPES = [LockNode, LockNode2, LockNode3, Falsy, Equal, Unhashable]


class Tree(object):

    def __init__(self, r):
        cls = TYPES[r % 1009 % len(TYPES)]
        self.root = cls(name='root')
        self.nodes = [self.root]
        for i in range(4):
            n = TYPES[(r >> 2) % 997 % len(TYPES)]()
            self.nodes[(r >> (3 + i)) % len(self.nodes)]['n%d' % i] = n
            self.nodes.append(n)
        self.inside = None
        self.depth = 0
        self.count = 0
        self.total = 0


class Program(object):

    def __init__(self, ops, mon, first):
        self.ops = ops
        self.mon = mon
        self.first = first

    def bind(self, trees):
        self.trees = trees
        return self

    def enter(self, tree):
        me = threading.get_ident()
        if tree.inside is not None and tree.inside != me:
            raise Violation('exclusion', 'thread enters while another one is inside')
        tree.inside = me
        tree.depth += 1

    def leave(self, tree):
        me = threading.get_ident()
        if tree.inside != me:
            raise Violation('exclusion', 'another thread was inside at exit')
        tree.depth -= 1
        if not tree.depth:
            tree.inside = None

    def work(self, tree, node):
        """Unprotected read, modify, write; may be preempted in between."""
        v = tree.count
        node.path
        node.root
        tree.count = v + 1
        self.done[id(tree)] = self.done.get(id(tree), 0) + 1
        if tree.inside != threading.get_ident():
            raise Violation('exclusion', 'another thread came in')

    def __call__(self):
        self.done = {}
        self.results = []
        it = iter(self.ops)
        try:
            self.play(it, None)
        except (Boom, Hard):
            pass
        return self.done

    def body(self, it, tree, node, held):
        self.enter(tree)
        try:
            self.work(tree, node)
            self.play(it, tree)
            self.work(tree, node)
        finally:
            self.leave(tree)

    def play(self, it, held):
        mon = self.mon
        for op, a, b, c in it:
            # one order of trees, so that programs do not deadlock themselves
            at = 0 if held is None else self.trees.index(held)
            choices = self.trees[at:]
            tree = pick(choices, a)
            node = pick(tree.nodes, b)
            if op == 'leave':
                if held is not None:
                    if c % 4 == 0:
                        raise Boom()
                    if c % 16 == 1:
                        raise Hard()
                    return
                continue
            mon.ev('reentered', held is tree)
            mon.ev('sections')
            try:
                if op == 'with':
                    with TreeLock(node):
                        self.body(it, tree, node, held)
                elif op == 'acquire':
                    lock = TreeLock(node)
                    lock.acquire()
                    try:
                        self.body(it, tree, node, held)
                    finally:
                        lock.release()
                elif op == 'twice':
                    # the same lock object re-entered
                    lock = TreeLock(node)
                    with lock:
                        with lock:
                            self.enter(tree)
                            self.work(tree, node)
                            self.leave(tree)
                        self.body(it, tree, node, held)
                elif op == 'method':
                    mon.ev('methods')
                    token = object()
                    got = node.locked('play', self, it, tree, token=token)
                    mon.is_(got, token, 'result', 'of a locked method')
                elif op == 'fail':
                    mon.ev('methods')
                    exc = pick([Boom, KeyError, Hard, StopIteration, ValueError], c)('x')
                    try:
                        node.locked('fail', self, tree, exc=exc)
                    except BaseException as e:
                        if e is not exc:
                            raise Violation('result', 'locked method raised {!r}, not {!r}'.format(e, exc))
                    else:
                        raise Violation('result', 'exception of a locked method lost')
                    mon.ev('raised')
                elif op == 'default':
                    mon.ev('methods')
                    got = node.locked('args', self, tree, 1, [2], k=None, z=3)
                    mon.eq(got, ((1, [2]), {'k': None, 'z': 3}), 'result', 'arguments of a locked method')
            except (Boom, Hard):
                mon.ev('raised')

    def method(self, node, what, args, kw):
        if what == 'play':
            self.body(args[0], args[1], node, args[1])
            return kw['token']
        tree = args[0]
        self.enter(tree)
        try:
            self.work(tree, node)
            if what == 'fail':
                raise kw['exc']
            return args[1:], kw
        finally:
            self.leave(tree)


W = {'with': 6, 'acquire': 2, 'twice': 2, 'method': 4, 'fail': 2, 'default': 2, 'leave': 8}


def gen(rng, i, tier):
    ops = [gen_ops(rng, W, 2, 7, 3) for _ in range(2 if i % 3 else 3)]
    if i % 2:
        # everything in one tree
        for p in ops:
            for o in p:
                o[1] = 0
    return {'programs': ops, 'types': rng.randrange(R),
            'schedules': [[rng.randrange(R) for _ in range(4)] for _ in range(12 if tier == 'quick' else 30)],
            'jitter': rng.randrange(R) if i % 4 == 0 else None, 'independent': i % 3 == 0, 'moved': i % 3 == 1}


def run(case, mon):
    def trees():
        return [Tree(case['types']), Tree(case['types'] >> 4)]

    def make():
        t = trees()
        return t, [Program(ops, mon, None).bind(t) for ops in case['programs']]
    lines = []
    for x in range(len(case['programs'])):
        t, programs = make()
        n, w = count_lines(programs[x])
        finish(mon, t, [w], 'alone')
        lines.append(max(n, 1))
    for a, b, c, d in case['schedules']:
        t, programs = make()
        if d % 4 == 0:
            # while the lock is created
            mon.ev('first-lock')
            segs = [(0, 1 + a % 30), (1, 1 + b % 30), (0, 1 + c % 12), (1, INF)]
        elif d % 4 == 1:
            segs = [(0, a % lines[0]), (1, INF)]
        elif d % 4 == 2:
            segs = [(0, a % lines[0]), (1, b % lines[1]), (0, INF)]
        else:
            mon.ev('first-lock')
            segs = [(x % 2, 1 + (a * (x + 3) >> 3) % 6) for x in range(8)] + [(1, b % lines[1])]
        if len(programs) == 3:
            segs.insert(1 + c % 2, (2, c % lines[2]))
        s = Schedule(programs, segs, grace=0.008).run()
        mon.ev('schedules')
        mon.ev('preempted', bool(s.switches))
        mon.ev('blocked', s.blocked)
        mon.state(tuple(s.switches[:2]))
        finish(mon, t, s.workers, 'switches at {}'.format(s.switches))
    if case['jitter'] is not None:
        t, programs = make()
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            j = Jitter(programs, case['jitter'], p=0.2, delay=0.0005)
            finish(mon, t, j.run(), 'random delays')
        finally:
            sys.setswitchinterval(old)
        mon.ev('delays')
    if case['independent']:
        independent(case, mon)
    if case.get('moved'):
        moved(case, mon)


def finish(mon, trees, workers, what):
    for w in workers:
        if w.error is not None:
            if isinstance(w.error, Violation):
                raise Violation(w.error.kind, '{}: {}'.format(what, w.error.detail))
            raise Violation('thread', '{}: {!r}'.format(what, w.error))
    for t in trees:
        total = sum(w.result.get(id(t), 0) for w in workers)
        mon.eq(t.count, total, 'lost-update', what, 'counter of a tree')
    # free again: another thread gets it from any node
    for t in trees:
        node = t.nodes[len(workers) % len(t.nodes)]

        def target():
            with TreeLock(node):
                return True
        w = Worker(target)
        w.start()
        if not w.done.wait(20):
            raise Violation('released', '{}: the lock is still held after all threads ended'.format(what))
        if w.error is not None:
            raise Violation('released', '{}: {!r}'.format(what, w.error))
        mon.ev('released')


def independent(case, mon):
    """A thread inside one tree does not hinder threads in other trees."""
    mon.ev('independent')
    one, two = Tree(case['types']), Tree(case['types'] >> 3)
    inside, leave = threading.Event(), threading.Event()

    def holder():
        with TreeLock(one.nodes[2]):
            inside.set()
            leave.wait(60)

    def other():
        with TreeLock(two.nodes[1]):
            two.count += 1
        third = Tree(case['types'])
        prog = Program([], mon, None)
        prog.done = {}
        return third.root.locked('args', prog, third)

    def same():
        with TreeLock(one.nodes[3]):
            one.count += 1
    h, o, s = Worker(holder), Worker(other), Worker(same)
    h.start()
    inside.wait(20)
    o.start()
    try:
        if not o.done.wait(20):
            raise Violation('independent', 'a lock of one tree blocks another tree')
        s.start()
        s.done.wait(0.005)
        if one.count:
            raise Violation('exclusion', 'section entered while another thread is inside')
    finally:
        leave.set()
    for w in (h, o, s):
        if not w.done.wait(20):
            raise Violation('deadlock', 'threads do not finish')
        if w.error is not None:
            raise w.error if isinstance(w.error, Violation) else Violation('thread', repr(w.error))


def moved(case, mon):
    """Locks follow a subtree which was moved, in both directions."""
    r = case['types']
    trees = [Tree(r), Tree(r >> 3)]
    top = TYPES[r % len(TYPES)]()
    leaf = TYPES[(r >> 5) % len(TYPES)]()
    top['leaf'] = leaf
    parts = [top, leaf]
    prog = Program([], mon, None)

    def use(node, tree):
        prog.done = {}
        how = (r >> 7) % 3
        if how == 0:
            node.locked('args', prog, tree)
        elif how == 1:
            with TreeLock(node):
                prog.method(node, 'args', (tree,), {})
        else:
            with TreeLock(node):
                node.locked('args', prog, tree)

    for turn in range(1 + (r >> 9) % 3):
        tree, other = trees[turn % 2], trees[1 - turn % 2]
        home = tree.nodes[(r >> 11) % len(tree.nodes)]
        home['moved'] = top
        mon.ev('moved')
        for t, blocked in ((tree, True), (other, False)):
            for node in parts:
                if (r + turn) % 3 == 0:
                    use(node, tree)
                inside, leave = threading.Event(), threading.Event()

                def holder():
                    with TreeLock(t.nodes[(r >> 13) % len(t.nodes)]):
                        inside.set()
                        leave.wait(60)
                h, w = Worker(holder), Worker(lambda: use(node, tree))
                h.start()
                inside.wait(20)
                w.start()
                try:
                    if w.done.wait(0.004 if blocked else 20) is blocked:
                        raise Violation('exclusion' if blocked else 'independent', 'a {} node of a moved subtree was {} '
                                        'while the lock of {} tree was held'.format(
                                            'deep' if node is leaf else 'top', 'entered' if blocked else 'blocked',
                                            'its' if blocked else 'another'))
                finally:
                    leave.set()
                for x in (h, w):
                    if not x.done.wait(20):
                        raise Violation('deadlock', 'threads do not finish')
                    if x.error is not None:
                        raise x.error if isinstance(x.error, Violation) else Violation('thread', repr(x.error))
        del home['moved']


class Reporter(object):
    """What the locked methods report to."""

    def method(self, node, what, args, kw):
        if what == 'raise':
            raise Boom()
        if what == 'hard':
            raise Hard()
        if what:
            return node.locked(what[1:], self, *args, **kw)
        return node, args, kw


def fixed(mon):
    def used_for_long(cls):
        root = cls(name='root')
        node = root['a'] = cls()
        prog = Reporter()
        for n in range(120):
            target = (root, node)[n % 2]
            what = ('', 'xxx', 'raise', 'x', 'hard', '')[n % 6]
            mark = object()
            if what in ('raise', 'hard'):
                try:
                    target.locked(what, prog)
                except (Boom, Hard):
                    pass
                else:
                    raise Violation('method', 'exception of a locked method was lost')
            else:
                got = ok(mon, 'method', 'locked method', target.locked, what, prog, mark, key=n)
                mon.true(got[0] is target and got[1] == (mark,) and got[2] == {'key': n}, 'method', 'result', got)
            if n % 5 == 0:
                with TreeLock(node):
                    with TreeLock(root):
                        pass

            def other():
                with TreeLock(target):
                    pass
            w = Worker(other)
            w.start()
            if not w.done.wait(20):
                raise Violation('released', 'the lock is not free after {} uses'.format(n + 1))
            if w.error is not None:
                raise Violation('thread', repr(w.error))
            mon.ev('released')

    def moves(cls, how):
        # what is locked is released, whichever tree the node is in by then
        trees = [cls(name='one'), cls(name='two')]
        node = trees[0]['n'] = cls()
        node['deep'] = cls()

        class Mover(object):

            def method(self, ob, what, args, kw):
                home, away = args
                moved = home.detach('n')
                away['n'] = moved
                return moved

        def act(home, away):
            target = (node, node['deep'])[how % 2]
            if how < 2:
                return target.locked('', Mover(), home, away)
            with TreeLock(target):
                return Mover().method(target, '', (home, away), {})
        for turn in range(6):
            home, away = trees[turn % 2], trees[1 - turn % 2]
            mon.is_(ok(mon, 'released', 'method moving its node to another tree', act, home, away), node, 'released', 'result')
            for root in trees:
                def other():
                    with TreeLock(root):
                        pass
                w = Worker(other)
                w.start()
                if not w.done.wait(20):
                    raise Violation('released', 'the lock of a tree is not free after a node moved while it was held')
                if w.error is not None:
                    raise Violation('thread', repr(w.error))
                mon.ev('released')

    def joined(cls, order):
        """Trees which have been locked become one, and separate again."""
        def lock(n):
            with TreeLock(n):
                pass

        def tries(holder, other, blocked, what):
            inside = threading.Event()

            def enter():
                with TreeLock(other):
                    inside.set()
            with TreeLock(holder):
                w = Worker(enter)
                w.start()
                if blocked:
                    if inside.wait(.02):
                        raise Violation('exclusion', 'two threads are in one tree: ' + what)
                    mon.ev('exclusive')
                elif not inside.wait(20):
                    raise Violation('independent', 'another tree is blocked: ' + what)
            if not w.done.wait(20):
                raise Violation('released', 'the lock is not free afterwards: ' + what)
            if w.error is not None:
                raise Violation('thread', repr(w.error))
            mon.ev('released')
        root, a, b = cls(name='root'), cls(name='a'), cls(name='b')
        a['x'] = cls()
        b['y'] = cls()
        for n in ((a, b), (a['x'], b['y']), (a,), (b, root))[order % 4]:
            lock(n)
        root['a'] = a
        root['b'] = b
        all_ = [root, a, b, a['x'], b['y']]
        # whose lock is taken first in the joined tree
        first = all_[order % 5]
        pairs = [(first, n) for n in all_ if n is not first] + [(n, first) for n in all_ if n is not first]
        for x, y in pairs + [(a, b), (b['y'], a['x'])]:
            tries(x, y, True, 'locked at {} and at {}'.format(x.__name__, y.__name__))
        out = root.detach('a')
        out.__parent__ = None
        for x, y in ((root, a), (a, root), (a['x'], b), (b['y'], a['x'])):
            tries(x, y, False, 'after it was detached')
        for x, y in ((a, a['x']), (a['x'], a), (b, root)):
            tries(x, y, True, 'after one was detached')
        root['b']['again'] = a
        for x, y in ((a, root), (a['x'], b), (root, a['x'])):
            tries(x, y, True, 'after it was attached elsewhere')
    for cls in TYPES:
        for order in range(10 if cls is TYPES[0] else 3):
            yield 'joined %d: ' % order + cls.__name__, lambda: joined(cls, order)
    for cls in TYPES:
        for how in range(4):
            yield 'moves %d: ' % how + cls.__name__, lambda: moves(cls, how)
    for cls in TYPES:
        yield 'used for long: ' + cls.__name__, lambda cls=cls: used_for_long(cls)
