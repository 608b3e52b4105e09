"""Controlled scheduling of real threads at source-line granularity.

Exactly one thread runs at a time.  Before every line of the package the running thread
stops at a scheduling point; a schedule says at which points which other thread goes on
instead.  Without a planned switch a thread runs until it ends.
"""
import os
import sys
import threading
import time


class Deadlock(Exception):
    pass


class Run:
    """One execution of the given thunks under one schedule."""

    def __init__(self, thunks, schedule, first, prefix, where=None, atomic=()):
        self.thunks = thunks
        self.atomic = atomic  # threads that are never preempted, and have no scheduling points
        self.beat = 0
        self.plan = dict(schedule)  # step -> thread to go on with
        self.prefix = prefix
        self.n = len(thunks)
        self.locks = [threading.Lock() for _ in thunks]
        for lk in self.locks:
            lk.acquire()
        self.current = first
        self.step = 0
        self.trace = []  # running thread at each step
        self.where = where  # if a list, gets the source line at each step
        self.results = [None] * self.n
        self.done = [False] * self.n
        self.finished = threading.Event()
        self.forced = 0

    def _wake(self, t):
        self.current = t
        try:
            self.locks[t].release()
        except RuntimeError:
            pass

    def _wait(self, me):
        while self.current != me:
            self.locks[me].acquire()

    def point(self, me):
        if self.current != me:  # was taken to be blocked, and is not
            self._wait(me)
        s = self.step
        self.step = s + 1
        self.trace.append(me)
        t = self.plan.get(s)
        if t is not None and t != me and not self.done[t]:
            self._wake(t)
            self._wait(me)

    def _tracer(self, me):
        prefix, point = self.prefix, self.point

        where = self.where

        def local(frame, event, arg):
            if event == "line":
                if where is not None:
                    where.append((me, frame.f_code, frame.f_lineno))
                point(me)
            return local

        def tracer(frame, event, arg):
            if frame.f_code.co_filename.startswith(prefix):
                return local
            return None

        def heart(frame, event, arg):
            self.beat += 1

        return heart if me in self.atomic else tracer

    def _body(self, me):
        self.locks[me].acquire()
        self._wait(me)
        sys.settrace(self._tracer(me))
        try:
            r = ("ok", self.thunks[me]())
        except Exception as e:
            r = ("exc", type(e).__name__)
        finally:
            sys.settrace(None)
        self.results[me] = r
        self.done[me] = True
        if self.current != me and self.current is not None and not self.done[self.current]:
            return  # another thread already goes on
        for t in range(self.n):
            if not self.done[t]:
                self._wake(t)
                return
        self.finished.set()

    def go(self):
        ths = [threading.Thread(target=self._body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ths:
            t.start()
        self._wake(self.current)
        last, since, idle = -1, time.time(), 0
        while not self.finished.wait(0.05):
            if self.step + self.beat != last:
                last, idle = self.step + self.beat, 0
                continue
            idle += 1
            if idle > 400:
                raise Deadlock("no thread makes progress")
            # the current thread may be waiting for something another thread holds
            for k in range(1, self.n + 1):
                t = (self.current + k) % self.n
                if not self.done[t]:
                    self.forced += 1
                    self._wake(t)
                    break
        for t in ths:
            t.join()
        return self


def explore(make_thunks, bound, prefix, visit, firsts=None, part=(0, 1), visits=None, atomic=()):
    """All schedules with at most `bound` preemptions.  make_thunks() gives fresh thunks;
    visit(run, schedule, first) judges a finished run.  Returns (schedules, points).
    part=(r, k): only those whose first preemption is at a step that is r modulo k.
    atomic: threads that run to their end once they go on.
    visits=n: preemptions only before the first n executions of each source line by each thread."""
    prefix = os.path.join(prefix, "")
    runs = points = 0
    n = len(make_thunks())
    for first in firsts if firsts is not None else range(n):
        todo = [()]
        while todo:
            sch = todo.pop()
            where = [] if visits is not None else None
            r = Run(make_thunks(), sch, first, prefix, where, atomic).go()
            if sch or part[0] == 0:
                runs += 1
                points += r.step
            visit(r, sch, first)
            if len(sch) < bound and not r.forced:
                start = sch[-1][0] + 1 if sch else 0
                count = {}
                for s in range(0 if visits is not None else start, len(r.trace)):
                    if visits is not None:
                        count[where[s]] = count.get(where[s], 0) + 1
                        if s < start or count[where[s]] > visits:
                            continue
                    if not sch and s % part[1] != part[0]:
                        continue
                    for t in range(n):
                        if t != r.trace[s]:
                            # switching to a thread that has ended changes nothing
                            if t in atomic or t in r.trace[s:]:
                                todo.append(sch + ((s, t),))
    return runs, points
