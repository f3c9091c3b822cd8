"""Cooperative scheduler for real threads running georinex.

Exactly one thread runs; control changes hands only at a georinex source line
(a trace event) whose number is in the schedule, or when a thread finishes or
waits for a lock.  A schedule [[step, thread], ...] is one interleaving.
"""
from __future__ import annotations
import _thread
import random
import sys
import threading

import seam

SCHED: "Sched | None" = None


class Sched:
    def __init__(self, bodies: list, switches: list, dense=None):
        self.bodies = bodies
        self.n = len(bodies)
        self.gate = [_thread.allocate_lock() for _ in bodies]
        for g in self.gate:
            g.acquire()
        self.main = _thread.allocate_lock()
        self.main.acquire()
        self.done = [False] * self.n
        self.results: list = [None] * self.n
        self.cur = 0
        self.step = 0
        self.switches = sorted((int(s), int(t)) for s, t in switches)
        self.pos = 0
        self.dense = dense  # [period, seed]
        self.rnd = random.Random(dense[1]) if dense else None
        self.next_dense = None
        if dense:
            self.next_dense = 1 + self.rnd.randrange(2 * dense[0])
        self.made: list = []  # the switches that happened
        self.blocked = 0
        self.per = [0] * self.n
        self.log = None  # places of the lines run, if asked for

    def alive(self, t):
        for k in range(self.n):
            q = (t + k) % self.n
            if not self.done[q]:
                return q
        return None

    def go(self, t, me=None, made=True):
        """hand control to t (or the next living thread)"""
        q = self.alive(t)
        if q is None:
            self.main.release()
            return
        if q == me:
            return
        self.cur = q
        if made:
            self.made.append([self.step, q])
        self.gate[q].release()
        if me is not None:
            self.gate[me].acquire()

    def line(self):
        self.step += 1
        self.per[self.cur] += 1
        self.blocked = 0
        if self.pos < len(self.switches) and self.step >= self.switches[self.pos][0]:
            t = self.switches[self.pos][1]
            self.pos += 1
            self.go(t % self.n, self.cur)
        elif self.next_dense is not None and self.step >= self.next_dense:
            self.next_dense = self.step + 1 + self.rnd.randrange(2 * self.dense[0])
            self.go(self.rnd.randrange(self.n), self.cur)

    def trace(self, frame, event, arg):
        c = frame.f_code
        if c.co_name == "<module>" or not seam.in_pkg(c.co_filename):
            return None
        return self.local

    def local(self, frame, event, arg):
        if event == "line":
            if self.log is not None:
                self.log.append((frame.f_code.co_filename, frame.f_lineno))
            self.line()
        return self.local

    def body(self, i):
        self.gate[i].acquire()
        try:
            sys.settrace(self.trace)
            try:
                self.results[i] = (self.bodies[i](), None)
            finally:
                sys.settrace(None)
        except BaseException as e:
            self.results[i] = (None, e)
        self.done[i] = True
        self.go(i, None, made=False)

    def run(self, timeout=200.0) -> bool:
        global SCHED
        SCHED = self
        ts = [threading.Thread(target=self.body, args=(i,), daemon=True) for i in range(self.n)]
        for t in ts:
            t.start()
        self.gate[0].release()
        ok = self.main.acquire(timeout=timeout)
        SCHED = None
        if ok:
            for t in ts:
                t.join()
        return ok


def yield_blocked(lock) -> bool:
    """a thread waits for a lock of georinex: let another run; False if none can"""
    s = SCHED
    if s is None:
        return False
    s.blocked += 1
    if s.blocked > s.n:
        return False
    me = s.cur
    q = s.alive(me + 1)
    if q is None or q == me:
        return False
    s.go(q, me, made=False)
    return True
