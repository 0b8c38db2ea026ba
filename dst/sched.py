"""Line-level control of the library's execution.

Interrupter   counts the library's executed lines and raises a chosen
              exception at the chosen one (or runs a callback there).
Scheduler     runs several callers as real threads, exactly one of which is
              ever runnable; at every executed library line (or opcode) and at
              every simulated system call the scenario decides who goes on.
"""
import os
import random
import sys
import threading

from . import core

PREFIX = None


def set_prefix(repo):
    global PREFIX
    PREFIX = os.path.realpath(repo) + os.sep


def mine(fn, _c={}):
    r = _c.get(fn)
    if r is None:
        r = _c[fn] = os.path.realpath(fn).startswith(PREFIX) if not fn.startswith('<') else False
    return r


class Interrupter:
    """Trace library lines; at line number `at` call `act()` (which may raise)."""

    def __init__(self, at=None, act=None, budget=20_000_000, every=None, opcodes=False):
        self.n = 0
        self.at = at
        self.act = act
        self.budget = budget
        self.every = every
        self.where = None
        self.opcodes = opcodes
        self.hit = False

    def _global(self, frame, event, arg):
        if event == 'call' and mine(frame.f_code.co_filename):
            if self.opcodes:
                frame.f_trace_opcodes = True
                frame.f_trace_lines = False
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            n = self.n
            self.n = n + 1
            if n == self.at:
                self.hit = True
                self.where = f'{frame.f_code.co_name}:{frame.f_lineno}'
                if self.act:
                    self.act()
            elif self.every:
                self.every(n, frame)
            if n > self.budget:
                raise core.StepBudget(f'more than {self.budget} steps in {frame.f_code.co_name}')
        return self._local

    def run(self, fn, *a, **k):
        old = sys.gettrace()
        sys.settrace(self._global)
        try:
            return fn(*a, **k)
        finally:
            sys.settrace(old)


class Scheduler:
    def __init__(self, plan, budget=5_000_000):
        """plan: {'mode':'list','switch':[[step,tid],...]} or
                 {'mode':'random','seed':s,'p':0.1} ; 'opcodes': bool"""
        self.plan = plan
        self.opcodes = plan.get('opcodes', False)
        self.rng = random.Random(plan.get('seed', 0))
        self.p = plan.get('p', 0.05)
        self.list = {int(s): t for s, t in plan.get('switch', [])}
        self.step = 0
        self.budget = budget
        self.switches = []            # what actually happened: (step, tid)
        self.trace = 0                # rolling hash of the interleaving
        self.cur = None
        self.alive = []
        self.locks = {}
        self.members = {}
        self.main = core.REAL['Lock']()
        self.results = {}
        self.deadlock = False
        self.points = {'line': 0, 'io': 0, 'lock': 0}

    def is_member(self):
        return core.REAL['get_ident']() in self.members

    def blocked(self):
        """The running thread waits for a lock another one holds."""
        others = [t for t in self.alive if t != self.cur]
        self.spin = getattr(self, 'spin', 0) + 1
        if not others or self.spin > 100000:
            self.deadlock = True
            raise core.StepBudget('all callers wait for each other')
        self.step += 1
        self._switch(others[self.step % len(others)])

    def _switch(self, tid):
        me = self.cur
        if tid == me:
            return
        self.cur = tid
        self.switches.append((self.step, tid))
        self.trace = (self.trace * 1000003 ^ (self.step * 31 + tid)) & 0xffffffffffff
        self.locks[tid].release()
        self.locks[me].acquire()

    def yield_point(self, kind='line'):
        if core.REAL['get_ident']() not in self.members:
            return
        self.points[kind] = self.points.get(kind, 0) + 1
        self.step += 1
        if self.step > self.budget:
            raise core.StepBudget('schedule ran past its step budget')
        if len(self.alive) < 2:
            return
        if self.plan['mode'] == 'list':
            t = self.list.get(self.step)
            if t is not None and t in self.alive and t != self.cur:
                self._switch(t)
        else:
            p = self.p if kind == 'line' else max(self.p, .3)
            if self.rng.random() < p:
                t = self.alive[int(self.rng.random() * len(self.alive))]
                if t != self.cur:
                    self._switch(t)

    def _tracer(self, frame, event, arg):
        if event == 'call' and mine(frame.f_code.co_filename):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self._local
        return None

    def _local(self, frame, event, arg):
        if event == 'line' or event == 'opcode':
            self.yield_point('line')
        return self._local

    def run(self, fns):
        """fns: list of callables; returns list of (kind, value)."""
        n = len(fns)
        for t in range(n):
            lk = core.REAL['Lock']()
            lk.acquire()
            self.locks[t] = lk
        self.alive = list(range(n))
        self.main.acquire()
        ready = [core.REAL['Lock']() for _ in range(n)]
        for r in ready:
            r.acquire()

        def body(t):
            self.members[core.REAL['get_ident']()] = t
            ready[t].release()
            self.locks[t].acquire()
            try:
                sys.settrace(self._tracer)
                try:
                    r = ('ok', fns[t]())
                finally:
                    sys.settrace(None)
            except core.SimCrash:
                r = ('crash', None)
            except core.StepBudget as e:
                r = ('budget', str(e))
            except BaseException as e:       # noqa: the caller's own failure
                r = ('exc', e)
            self.results[t] = r
            self.alive.remove(t)
            self.members.pop(core.REAL['get_ident'](), None)
            if self.alive:
                k = self.list.get(-t - 1) if self.plan['mode'] == 'list' else None
                if k is None or k not in self.alive:
                    if self.plan['mode'] == 'list':
                        k = self.alive[0]
                    else:
                        k = self.alive[int(self.rng.random() * len(self.alive))]
                        self.list[-t - 1] = k
                self.cur = k
                self.locks[k].release()
            else:
                self.main.release()
        ths = [threading.Thread(target=body, args=(t,), daemon=True) for t in range(n)]
        for t, th in enumerate(ths):
            th.start()
            ready[t].acquire()
        first = self.list.get(0, 0) if self.plan['mode'] == 'list' else \
            int(self.rng.random() * n)
        self.first = first
        self.cur = first
        self.locks[first].release()
        self.main.acquire()
        for th in ths:
            th.join()
        return [self.results[t] for t in range(n)]

    def recorded(self):
        """The schedule that happened, as an explicit (minimisable) plan."""
        sw = [[0, self.first]] + [[s, t] for s, t in self.switches]
        sw += [[k, v] for k, v in self.list.items() if k < 0]
        return {'mode': 'list', 'switch': sw, 'opcodes': self.opcodes}
