# Deterministic scheduler for caller threads.
#
# Tasks are real threads, but exactly one runs at any moment; the scheduler
# decides who.  A running task can lose control at any line of library code
# (SimTracer: interpreter line events, confined to the scratch copy of pyamf),
# when it blocks on a lock the library created, and when it ends.  All
# decisions come from the simulation tape.
import ast
import threading

from java.util import LinkedHashSet
from java.util.concurrent import Semaphore, TimeUnit
import SimTracer

import boot
import core
import simlock


class Abort(BaseException):
    """Unwinds parked tasks when a run is over."""


class Task(object):
    def __init__(self, sched, tid, name, fn):
        self.sched = sched
        self.tid = tid
        self.name = name
        self.fn = fn
        self.sem = Semaphore(0)
        self.done = False
        self.blocked = None
        self.hot = False        # has just been given a lock it waited for
        self.error_tb = None
        self.result = None
        self.where = 'start'
        self.thread = None

    def body(self):
        self.sem.acquireUninterruptibly()
        tr = self.sched.tracer
        try:
            if not self.sched.tracer.aborting:
                tr.arm()
                try:
                    self.result = self.fn()
                finally:
                    SimTracer.disarm()
        except Abort:
            pass
        except:
            self.error_tb = core.short_tb()
        self.done = True
        self.sched.main.release()


_stores = {}


def stores(fn):
    """Lines of a library file around assignments to attributes, items and
    globals."""
    if fn not in _stores:
        out = set()
        try:
            tree = ast.parse(open(fn).read())
        except (IOError, SyntaxError):
            tree = ast.Module(body=[])
        for n in ast.walk(tree):
            ts = getattr(n, 'targets', None) or [getattr(n, 'target', None)]
            if isinstance(n, ast.Global):
                out.add(n.lineno)
            for t in ts:
                if isinstance(t, (ast.Attribute, ast.Subscript)):
                    out.update((n.lineno, n.lineno + 1, n.lineno + 2))
        _stores[fn] = out
    return _stores[fn]


class ThreadSched(object):
    def __init__(self, sim, max_preempt=6, max_lines=400000):
        self.sim = sim
        self.tasks = []
        self.current = None
        self.main = Semaphore(0)
        self.preempt_left = max_preempt
        self.preemptions = 0
        self.preempted = False
        self.trail = []
        self.sites = None       # lines the workload executes when undisturbed
        tr = self.tracer = SimTracer()
        tr.prefix = boot.SCRATCH
        tr.skip = ['imports.py']
        tr.main = self.main
        tr.maxLines = max_lines
        tr.abort = Abort

    # -- called on task threads -------------------------------------------
    def current_id(self):
        return self.current.tid if self.current is not None else 'main'

    def block_on(self, lock):
        t = self.current
        t.blocked = lock
        self.sim.log('t%d blocks on a lock', t.tid)
        self.tracer.yieldNow()

    def lock_released(self, lock):
        woken = [t for t in self.tasks if t.blocked is lock]
        for t in woken:
            t.blocked = None
            t.hot = True
        # what one thread does after releasing a lock races with what the
        # threads that waited for it do next
        if woken and self.preempt_left > 0 and self.sim.chance(60):
            self.tracer.coldOnly = False
            self.tracer.left = self.sim.choose(60)

    # -- choosing where to preempt --------------------------------------------
    def record(self, fn):
        """Runs fn on the calling thread, remembering the lines it executes.

        Some runs then preempt at one line, chosen so that rare lines are as
        likely as those of inner loops.
        """
        tr = self.tracer
        if tr.record is None:
            tr.record = LinkedHashSet()
        tr.arm()
        try:
            return fn()
        finally:
            SimTracer.disarm()

    def choose_site(self):
        tr = self.tracer
        files = {}
        for x in tr.record or ():
            files.setdefault(x.rsplit(':', 1)[0], []).append(x)
        tr.record = None
        if not files:
            return
        fn = self.sim.pick(sorted(files))
        lines = files[fn]
        if self.sim.chance(60):
            # where state other threads can see may be half changed
            st = stores(fn)
            lines = [x for x in lines if int(x.rsplit(':', 1)[1]) in st] \
                or lines
        tr.site = self.sim.pick(lines)
        tr.siteLeft = self.sim.small(3)
        self.sites = True

    # -- controller ---------------------------------------------------------
    def spawn(self, name, fn):
        t = Task(self, len(self.tasks), name, fn)
        self.tasks.append(t)
        return t

    def _draw_gap(self):
        sim = self.sim
        tr = self.tracer
        tr.left = -1
        if self.preempt_left <= 0:
            tr.siteLeft = -1
            return
        if self.sites:
            # once there, what the next thread does is likely to matter
            if tr.siteLeft < 0:
                tr.siteLeft = sim.small(2)
            if sim.chance(70):
                return
        if self.current.hot:
            self.current.hot = False
            if sim.chance(70):
                tr.coldOnly = False
                tr.left = sim.choose(120)
                return
        k = sim.weighted([30, 30, 25, 10, 5])
        if k == 0:
            return
        tr.coldOnly = k in (1, 2)
        tr.left = sim.choose({1: 12, 2: 300, 3: 60, 4: 3000}[k])

    def run(self):
        sim = self.sim
        tr = self.tracer
        simlock._sched[0] = self
        for t in self.tasks:
            t.thread = threading.Thread(target=t.body, name=t.name)
            t.thread.setDaemon(True)
            t.thread.start()
        last = None
        try:
            while True:
                alive = [t for t in self.tasks if not t.done]
                if not alive:
                    break
                ready = [t for t in alive if t.blocked is None]
                if not ready:
                    raise core.Violation(
                        'deadlock', 'every unfinished thread waits for a '
                        'lock: %s' % ', '.join(
                            '%s (last preempted at %s)' % (t.name, t.where)
                            for t in alive))
                # 0 keeps the current thread running
                if last in ready:
                    ready.remove(last)
                    ready.insert(0, last)
                if self.preempted and len(ready) > 1:
                    t = ready[1 + sim.choose(len(ready) - 1)]
                else:
                    t = ready[sim.choose(len(ready))]
                if last is not None and t is not last:
                    at = 'end' if last.done else last.where
                    self.trail.append((at, t.where))
                    sim.log('switch t%d(%s) -> t%d(%s)', last.tid, at, t.tid,
                            t.where)
                    if self.preempted:
                        self.preemptions += 1
                        self.preempt_left -= 1
                        sim.fault('preemption')
                last = t
                self.current = t
                if len(alive) > 1:
                    self._draw_gap()
                else:
                    tr.left = -1
                sim.steps += 1
                tr.current = t.sem
                tr.where = t.where
                t.sem.release()
                if not self.main.tryAcquire(100, TimeUnit.SECONDS):
                    raise core.HarnessError('task %s does not yield' % t.name)
                t.where = tr.where
                if tr.overrun:
                    raise core.Violation(
                        'no-progress', 'more than %d library lines executed '
                        'without all threads finishing' % (tr.maxLines,))
                self.preempted = not t.done and t.blocked is None
        finally:
            tr.aborting = True
            tr.left = -1
            for t in self.tasks:
                while not t.done:
                    self.current = t
                    tr.current = t.sem
                    t.sem.release()
                    if not self.main.tryAcquire(20, TimeUnit.SECONDS):
                        break
            self.current = None
            simlock._sched[0] = None
            simlock.reset()
            for t in self.tasks:
                t.thread.join(20)
        for t in self.tasks:
            if t.error_tb is not None:
                raise core.HarnessError(t.error_tb)
