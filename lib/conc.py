"""Threads under control: forced preemption at every line, injected delays.

``Schedule`` runs threads in given segments of executed lines of the code under
test, one at a time: with [(0, k), (1, INF)] and all k, every interleaving with
a single preemption is forced at line level; more segments give more switches.
``Jitter`` injects random delays at lines instead.
"""
import random
import sys
import threading
import time
from rt import NODE, Violation


def in_thread(fn, *args):
    """Calls fn in a new thread, hands on result or exception."""
    out = []

    def target():
        try:
            out.append(('ok', fn(*args)))
        except BaseException as e:
            out.append(('exc', e))
    t = threading.Thread(target=target, daemon=True)
    t.start()
    t.join()
    if out[0][0] == 'exc':
        raise out[0][1]
    return out[0][1]


INF = 1 << 60


class Worker(threading.Thread):

    def __init__(self, fn, tracer=None):
        threading.Thread.__init__(self, daemon=True)
        self.fn = fn
        self.tracer = tracer
        self.error = None
        self.result = None
        self.done = threading.Event()

    def run(self):
        try:
            if self.tracer is not None:
                sys.settrace(self.tracer)
            try:
                self.result = self.fn()
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.error = e
        finally:
            self.done.set()


class Stepped(Worker):
    """Executes lines of the code under test only within its budget."""

    def __init__(self, fn, files=None):
        Worker.__init__(self, fn, self.trace)
        self.files = files
        self.budget = 0
        self.lines = 0
        self.go = threading.Event()
        self.changed = threading.Event()    # paused or done
        self.paused = False
        self.at = None

    def trace(self, frame, event, arg):
        name = frame.f_code.co_filename
        if not name.startswith(NODE) or self.files and not name.endswith(self.files):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == 'line':
            self.lines += 1
            self.budget -= 1
            if self.budget < 0:
                self.at = '{}:{}'.format(frame.f_code.co_filename[len(NODE):], frame.f_lineno)
                self.go.clear()
                self.paused = True
                self.changed.set()
                self.go.wait(60)
                self.paused = False
        return self.line

    def run(self):
        try:
            Worker.run(self)
        finally:
            self.changed.set()


class Schedule(object):
    """Runs threads along given segments [(thread, number of lines), …].

    One thread runs at a time; one that blocks (no progress within the grace
    period) is left where it is, and the next segment starts.  In the end all
    run freely.
    """

    def __init__(self, fns, segments, grace=0.03, limit=20.0, files=None):
        self.workers = [Stepped(f, files) for f in fns]
        self.segments = segments
        self.grace = grace
        self.limit = limit
        self.blocked = 0
        self.switches = []

    def step(self, w, n, grace):
        if w.done.is_set():
            return
        w.changed.clear()
        w.budget = n
        if w.ident is None:
            w.start()
        else:
            w.go.set()
        if not w.changed.wait(grace):
            self.blocked += 1
        elif not w.done.is_set():
            self.switches.append(w.at)

    def run(self):
        end = time.time() + self.limit
        for t, n in self.segments:
            # a thread on its own never needs the grace period to be short
            self.step(self.workers[t], n, self.grace)
        for w in self.workers:
            if not w.done.is_set():
                w.budget = INF
                if w.ident is None:
                    w.start()
                w.go.set()
        for w in self.workers:
            # budgets of threads resumed late are spent by now
            while not w.done.wait(0.2 if time.time() < end else 0):
                w.budget = INF
                w.go.set()
                if time.time() > end:
                    raise Violation('deadlock', 'threads do not finish: {} after switches at {}'.format(
                        [x.at for x in self.workers], self.switches))
        return self

    def errors(self):
        return [w.error for w in self.workers if w.error is not None]


def count_lines(fn, files=None):
    """Runs fn alone in a new thread: (lines executed, worker)."""
    s = Schedule([fn], [(0, INF)], grace=20.0, files=files).run()
    return s.workers[0].lines, s.workers[0]


class Jitter(object):
    """Random delays before lines of the code under test in all threads."""

    def __init__(self, fns, seed, p=0.05, delay=0.002, limit=20.0):
        self.fns = fns
        self.seed = seed
        self.p = p
        self.delay = delay
        self.limit = limit
        self.order = []

    def tracer(self, i):
        rng = random.Random('{}:{}'.format(self.seed, i))

        def line(frame, event, arg):
            if event == 'line' and rng.random() < self.p:
                self.order.append((i, frame.f_lineno))
                time.sleep(rng.random() * self.delay)
            return line

        def trace(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(NODE) else None
        return trace

    def run(self):
        barrier = threading.Barrier(len(self.fns))

        def start(fn):
            def go():
                barrier.wait(self.limit)
                return fn()
            return go
        ws = [Worker(start(f), self.tracer(i)) for i, f in enumerate(self.fns)]
        end = time.time() + self.limit
        for w in ws:
            w.start()
        for w in ws:
            w.done.wait(max(0, end - time.time()))
            if not w.done.is_set():
                raise Violation('deadlock', 'threads do not finish')
        return ws
