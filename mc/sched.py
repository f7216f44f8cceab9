"""A controlled scheduler for threads of the code under test: one thread runs at a time, and control passes
from one to another exactly at the points a schedule names.  A point is a line (or bytecode) event in a file
of the package.  If the running thread blocks on something a waiting thread holds, the waiting one goes on."""
import os
import sys
import threading
import types

import env

PACKAGE = os.path.join(os.path.realpath(env.REPO), 'jschon') + os.sep
BLOCKED_S = 0.5


class Schedule:
    """plan: a list of (thread, count): run `thread` until it has passed `count` points in all (None: to its end)."""

    def __init__(self, plan, jobs, grain='line', full=False, watch=None):
        self.plan, self.jobs, self.grain, self.full, self.watch = plan, jobs, grain, full, watch
        self.turn = [threading.Semaphore(0) for _ in jobs]
        self.count = [0] * len(jobs)
        self.limit = [None] * len(jobs)
        self.done = [False] * len(jobs)
        self.result = [None] * len(jobs)
        self.error = [None] * len(jobs)
        self.step = -1
        self.switches = 0
        self.end = threading.Semaphore(0)
        self.stalled = False
        self.known = {}

    def next(self, me):
        """Pass control on; called by the running thread (or to begin).  The next one, or None if none is left."""
        while True:
            self.step += 1
            if self.step >= len(self.plan):
                for t in range(len(self.jobs)):
                    if not self.done[t]:
                        self.limit[t] = None
                        return t
                return None
            t, n = self.plan[self.step]
            if self.done[t] or (n is not None and self.count[t] >= n):
                continue
            self.limit[t] = n
            return t

    def wait(self, me):
        while not self.turn[me].acquire(timeout=BLOCKED_S):
            # the thread that should be running makes no progress, or is slow: do not deadlock
            self.stalled = True
            if self.turn[me].acquire(timeout=BLOCKED_S):
                return
            self.limit = [None] * len(self.jobs)
            return

    def point(self, me):
        self.count[me] += 1
        if self.watch is not None:
            self.watch(self.count[me])
        if self.limit[me] is not None and self.count[me] >= self.limit[me]:
            self.limit[me] = None
            t = self.next(me)
            if t is not None and t != me:
                self.switches += 1
                self.turn[t].release()
                self.wait(me)
            return self.needed(me)
        return True

    def needed(self, me):
        """Whether the points of this thread still matter: it is counted throughout, or is yet to be preempted."""
        return self.full or self.limit[me] is not None or any(t == me and n is not None for t, n in self.plan[self.step + 1:])

    def tracer(self, me):
        known = self.known
        grain = self.grain
        point = self.point

        def local(frame, event, arg):
            if event == grain and not point(me):
                sys.settrace(None)
                f = frame
                while f is not None:
                    f.f_trace = None
                    f = f.f_back
                return None
            return local

        def trace(frame, event, arg):
            code = frame.f_code
            k = known.get(code)
            if k is None:
                k = known[code] = code.co_filename.startswith(PACKAGE)
            if k:
                if grain == 'line':
                    return local
                if grain == 'opcode':
                    frame.f_trace_opcodes = True
                    frame.f_trace_lines = False
                    return local
                if not point(me):
                    sys.settrace(None)
            return None
        return trace

    def body(self, me):
        self.wait(me)
        if self.needed(me):
            sys.settrace(self.tracer(me))
        try:
            self.result[me] = self.jobs[me]()
        except BaseException as e:
            self.error[me] = e
        finally:
            sys.settrace(None)
            self.done[me] = True
            t = self.next(me)
            if t is None:
                self.end.release()
            else:
                self.turn[t].release()

    def run(self):
        threads = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(len(self.jobs))]
        for t in threads:
            t.start()
        first = self.next(None)
        self.turn[first].release()
        for t in threads:
            t.join(60)
            if t.is_alive():
                raise RuntimeError('threads do not finish')
        return self


def points(job, grain='line', watch=None):
    """The number of points a job passes when it runs alone, and its result."""
    s = Schedule([(0, None)], [job], grain, True, watch).run()
    if s.error[0]:
        raise s.error[0]
    return s.count[0], s.result[0]


class Writes:
    """Finds the points at which a run has changed what the threads share: the objects given, all that is
    reachable from them without entering a metaschema, and the modules and classes of the package."""

    def __init__(self, roots, stop, shallow=()):
        self.boxes, seen, todo = list(shallow), set(), list(roots)
        for name, mod in list(sys.modules.items()):
            if name == 'jschon' or name.startswith('jschon.'):
                todo.append(vars(mod))
        while todo:
            x = todo.pop()
            if id(x) in seen or isinstance(x, stop):
                continue
            seen.add(id(x))
            if isinstance(x, type):
                if x.__module__.startswith('jschon'):
                    self.boxes.append(vars(x))
                    todo += vars(x).values()
                continue
            if isinstance(x, types.FunctionType):
                if x.__module__ and x.__module__.startswith('jschon'):
                    todo += x.__defaults__ or ()
                    todo += [c.cell_contents for c in x.__closure__ or () if c != types.CellType()]
                continue
            if isinstance(x, (dict, list, set)):
                self.boxes.append(x)
                todo += x.values() if isinstance(x, dict) else x
            elif isinstance(x, tuple):
                todo += x
            elif type(x).__module__.startswith('jschon') and hasattr(x, '__dict__'):
                self.boxes.append(vars(x))
                todo += vars(x).values()
                todo.append(type(x))
        self.last = self.look()
        self.found = []

    def look(self):
        return [(len(b), hash(tuple(map(id, b.values() if hasattr(b, 'values') else b)))) for b in self.boxes]

    def __call__(self, k):
        now = self.look()
        if now != self.last:
            self.last = now
            self.found.append(k)
