"""Cooperative scheduler: two threads, one token, scheduling points inside the elli sources.

A schedule is (first thread, [k1, k2, ...]): the running thread is preempted at its k-th
scheduling point counted from the moment it got the token.  Everything else runs to completion.
"""

import sys
import threading


class Blocked(Exception):
    pass


class Run:
    def __init__(self, bodies, first, preempt, src, events=("line", "call"), wait=0.5):
        self.bodies = bodies
        self.preempt = list(preempt)
        self.src = src
        self.events = events
        self.wait = wait
        self.sems = [threading.Semaphore(0) for _ in bodies]
        self.done = [False] * len(bodies)
        self.results = [None] * len(bodies)
        self.errors = [None] * len(bodies)
        self.points = [0] * len(bodies)  # total points per thread
        self.local = 0  # points since the token was taken
        self.current = first
        self.blocked = False
        self.where = []
        self.fired = 0

    def _trace(self, tid):
        def local(frame, event, arg):
            if event in self.events:
                self.point(tid, frame)
            return local

        def glob(frame, event, arg):
            if not frame.f_code.co_filename.startswith(self.src):
                return None
            if event in self.events:
                self.point(tid, frame)
            return local if "line" in self.events else None

        return glob

    def point(self, tid, frame):
        self.points[tid] += 1
        if self.blocked:
            return
        self.local += 1
        if self.preempt and self.local == self.preempt[0]:
            other = 1 - tid
            if self.done[other]:
                return
            self.preempt.pop(0)
            self.fired += 1
            self.where.append(f"{frame.f_code.co_filename.rsplit('/', 1)[-1]}:{frame.f_lineno}")
            self.local = 0
            self.current = other
            self.sems[other].release()
            if not self.sems[tid].acquire(timeout=self.wait):
                self.blocked = True  # the other thread waits for something we hold: let both run

    def _main(self, tid):
        if not self.sems[tid].acquire(timeout=30):
            self.blocked = True
        sys.settrace(self._trace(tid))
        try:
            self.results[tid] = self.bodies[tid]()
        except BaseException as e:  # noqa: BLE001
            self.errors[tid] = e
        finally:
            sys.settrace(None)
            self.done[tid] = True
            other = 1 - tid
            self.local = 0
            if not self.done[other]:
                self.current = other
                self.sems[other].release()

    def go(self):
        ths = [threading.Thread(target=self._main, args=(i,), daemon=True) for i in range(2)]
        for t in ths:
            t.start()
        self.sems[self.current].release()
        for t in ths:
            t.join(60)
        if any(t.is_alive() for t in ths):
            raise Blocked("threads did not finish")
        return self
