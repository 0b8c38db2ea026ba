"""C13: timings are exact under any clock, and timing a call does not change it."""
import importlib
import inspect
import re
from collections import Counter

from .common import *
from .. import core, lib, sched

ID = 'C13'
QUICK, THOROUGH = 6000, 200000
TECH = 'simulated clock with chosen readings and jumps, nested, repeated, failing and concurrently scheduled timed calls, compared with the untimed call'
NOTE = ('Sampled executions, not a proof. Clock readings are in order (the process clock cannot run backwards). What '
        'the time report looks like is judged by its hours, minutes, seconds and nanoseconds only.')
RULE = ('one run = a set of clock readings to report, or a tree of timed calls (also one function calling itself) under a simulated clock (also as '
        'several scheduled callers, with interrupts and a failing standard output), or library calls with and '
        'without timing; distinct = distinct event log; non-trivial = at least one report was judged')
STATES = 'distinct (kind, outcome, nesting, magnitude of the time)'
NS = 10 ** 9
EDGE = [0, 1, 999, 999999999, NS, NS + 1, 59 * NS + 999999999, 60 * NS, 60 * NS + 1, 3599 * NS + 999999999, 3600 * NS,
        86399 * NS + 999999999, 86400 * NS, 100 * 3600 * NS, 99 * 3600 * NS + 7, 10 ** 17 + 1, 2 ** 53 + 1, 2 ** 63 - 1]


def scenario(rng, i, tier):
    kind = rng.choice(['clock', 'clock', 'tree', 'tree', 'threads', 'same', 'lib', 'lib'])
    w = dict(world(rng), tick=rng.choice([0, 0, 1, 7, 999999999, 61 * NS]), bufsize=8192, max_io=0)
    ops = []
    for _ in range(rng.randint(1, 6)):
        ops.append(dict(s=rng.getrandbits(32), dt=[span(rng) for _ in range(3)]))
    return dict(world=w, kind=kind, ops=ops, img=imgspec(rng, maxdim=8), stop=rng.choice([None, None, 'int', 'mem']),
                out=rng.random() < .15, pos=rng.randrange(12),
                plan=dict(mode='random', seed=rng.getrandbits(32), p=rng.choice([.1, .3, .6])))


def span(rng):
    if rng.random() < .4:
        return rng.choice(EDGE)
    return int(10 ** rng.uniform(0, 18))


FORM = re.compile(r'(\d{2,}):(\d\d):(\d\d)\.(\d{9})')


def parse(s):
    """Nanoseconds a report stands for, or None."""
    m = FORM.fullmatch(s) if isinstance(s, str) else None
    if not m or int(m[2]) > 59 or int(m[3]) > 59:
        return None
    return ((int(m[1]) * 60 + int(m[2])) * 60 + int(m[3])) * NS + int(m[4])


def execute(sc, r):
    P = importlib.import_module('pythonbmp.proctimer')
    sim = sim_of(sc)
    {'clock': clock, 'tree': tree, 'threads': tree, 'same': same, 'lib': libcalls}[sc['kind']](sc, r, P, sim)
    r.absorb(sim)


def clock(sc, r, P, sim):
    sim.tick = 0
    for o in sc['ops']:
        g = R(o['s'])
        t0 = g.choice([0, 1, sim.clock, o['dt'][1]])
        sim.clock = t0
        for dt in o['dt'] + [0]:
            if sim.clock + dt > 2 ** 64:
                continue
            d = sim.clock + dt - t0
            sim.clock_plan = [dt]
            got = call(sim, P.hhmmsselaspedtime, t0)
            r.ops += 1
            if not got.ok or parse(got.value) != d:
                r.fail('report', f'{d} ns after {t0}: the report is {got}')
            sim.clock_plan = [0]
            got = call(sim, P.elaspedtimeinseconds, t0)
            if not got.ok or not abs(got.value - d / NS) <= 1e-15 * d / NS:
                r.fail('seconds', f'{d} ns after {t0} are {d / NS} s, reported {got}')
            r.note(d, got.value)
            r.state('clock', len(str(d)), d % NS == 0)
    sim.clock_plan = None


class Oops(Exception):
    pass


VALS = [None, 0, False, '', [], (), {}, -1, 'x', [1, 2], None]


class Tape(list):
    """Standard output with the caller who wrote each piece."""

    def append(self, s):
        super().append((core.REAL['get_ident'](), s))


def tree(sc, r, P, sim):
    sim.out = Tape()
    g0 = R(sc['plan']['seed'])
    log = {}

    def make(g, depth):
        """A function taking some time, calling timed functions, returning or raising."""
        subs = [make(g, depth + 1) for _ in range(g.randint(0, 2))] if depth < 3 else []
        before, after = span(g) % 10 ** 15, span(g) % 10 ** 15
        fails = g.random() < .25
        catch = g.random() < .7
        gives = g.choice([None, 0, [1, 2], 'x', (3,)])
        pass_ = ([g.choice(VALS) for _ in range(g.randint(0, 3))],
                 {q: g.choice(VALS) for q in g.sample(['x', 'func', 'args', 'depth', 'self', 'inittime'], g.randint(0, 3))})
        me = []

        def fn(*a, **k):
            "documented"
            n = len(me)
            me.append([(a, k), sim.clock, None, None])
            sim.clock += before
            for s in subs:
                try:
                    s(*pass_[0], **pass_[1])
                except Oops:
                    if not catch:
                        me[n][2] = sim.clock
                        raise
            sim.clock += after
            me[n][2] = sim.clock
            if fails:
                raise Oops(n)
            return gives
        fn.__name__ = f'work{g.randrange(1000)}'
        timed = P.functimer(fn)
        if timed.__name__ != fn.__name__ or timed.__doc__ != fn.__doc__ or \
                str(inspect.signature(timed)) != str(inspect.signature(fn)):
            r.fail('metadata', 'a timed function has another name, description or signature')

        def run(*a, **k):
            n = len(me)
            t = sim.clock
            at = len(sim.out)
            who = core.REAL['get_ident']()
            try:
                got = ('gave', timed(*a, **k))
            except Oops as e:
                got = ('raised', e)
            now = sim.clock
            if len(me) != n + 1:
                r.fail('once', f'a timed function ran {len(me) - n} times in one call')
            if me[n][0] != (a, k):
                r.fail('arguments', f'a timed function called with {a} {k} received {me[n][0]}')
            if got[0] == 'gave':
                if fails:
                    r.fail('exception', 'a failing function, timed, returned')
                if got[1] is not gives:
                    r.fail('value', f'a timed function returned {got[1]} instead of {gives}')
                rep = [parse(m[0]) for w, s in sim.out[at:] if w == who for m in FORM.finditer(s)]
                rep = rep[-1] if rep else None
                low, high = me[n][2] - me[n][1], now - t
                if rep is None or not low <= rep <= high:
                    r.fail('duration', f'a timed call that took {low} ns (with reports {high}) says {rep} ns')
                r.ops += 1
                r.state('tree', depth, len(subs), len(str(low)), sc['kind'])
            else:
                if fails and got[1].args != (n,) and not subs:
                    r.fail('exception', 'a timed function raised another exception')
                raise got[1]
            return got[1]
        return run

    tops = [make(R(o['s']), 0) for o in sc['ops'][:3]]

    def quietly(f, *a):
        try:
            f(*a)
        except Oops:
            pass
    if sc['kind'] == 'threads' and len(tops) > 1:
        s = sched.Scheduler(sc['plan'])
        sim.sched = s
        with core.active(sim):
            res = s.run([lambda f=f, k=k: quietly(f, k) for k, f in enumerate(tops)])
        sim.sched = None
        r.inter.add(s.trace)
        r.switches += len(s.switches)
        for kind, v in res:
            if isinstance(v, Stop):
                raise v
            if kind != 'ok':
                r.fail('threads', f'a timed call failed among concurrent ones: {kind} {v!r}')
        return
    for k, f in enumerate(tops):
        got = call(sim, quietly, f, k)
        if isinstance(got.value, Stop):
            raise got.value
        if not got.ok:
            r.fail('failed', f'a timed call failed: {got}')
    # stopped, or without a standard output: at most once, and never swallowed
    runs = []
    sim.clock_plan = None

    def plain(x):
        runs.append(x)
        if x == 'bad':
            raise Oops(x)
        return x
    timed = P.functimer(plain)
    if sc['out'] and g0.random() < .4:
        sim.arm([dict(k='stdout', do=g0.choice(['EPIPE', 'EIO', 'interrupt']), n=g0.randrange(3))])
        got = call(sim, timed, 'bad')
        sim.disarm()
        if len(runs) > 1 or runs and (got.kind != 'exc' or not isinstance(got.value, Oops)):
            r.fail('exception', f'a failing timed call without a standard output ran {len(runs)} times: {got}')
    elif sc['out']:
        sim.arm([dict(k='stdout', do=g0.choice(['EPIPE', 'EIO', 'interrupt']), n=g0.randrange(4))])
        n = len(sim.fired)
        got = call(sim, timed, 5)
        sim.disarm()
        if len(runs) > 1 or got.ok and (runs != [5] or got.value != 5) or (len(sim.fired) > n) == got.ok:
            r.fail('stdout', f'a timed call without a standard output ran {len(runs)} times: {got}')
    elif sc['stop']:
        def act():
            raise core.SimInterrupt() if sc['stop'] == 'int' else MemoryError('simulated')
        got = call(sim, timed, 5, at=sc['pos'], act=act)
        if sim.last.hit:
            sim.fault_counts['line:' + sc['stop']] += 1
        if len(runs) > 1 or sim.last.hit == got.ok or got.ok and got.value != 5:
            r.fail('stopped', f'a timed call stopped after {sc["pos"]} lines ran {len(runs)} times: {got}')


def same(sc, r, P, sim):
    """One timed function calling itself, and used by several threads at once."""
    sim.out = Tape()
    runs = Counter()
    ids = iter(range(10 ** 6))

    def node(g, depth):
        return dict(id=next(ids), before=span(g) % 10 ** 15, after=span(g) % 10 ** 15, fails=g.random() < .2,
                    kids=[node(g, depth + 1) for _ in range(g.choice([0, 1, 1, 2]))] if depth < 3 else [])

    def work(o):
        runs[o['id']] += 1
        t = sim.clock
        sim.clock += o['before']
        for k in o['kids']:
            try:
                use(k)
            except Oops:
                pass
        sim.clock += o['after']
        o['took'] = sim.clock - t
        if o['fails']:
            raise Oops(o['id'])
        return o
    timed = P.functimer(work)

    def use(o):
        t, at, who = sim.clock, len(sim.out), core.REAL['get_ident']()
        try:
            got = timed(o)
        except Oops as e:
            if not o['fails'] or e.args != (o['id'],):
                r.fail('exception', f'a timed call that works (or raised {o["id"]}) raised {e!r}')
            got = None
        now = sim.clock
        if runs[o['id']] != 1:
            r.fail('once', f'a timed function ran {runs[o["id"]]} times in one call')
        r.ops += 1
        if o['fails']:
            if got is not None:
                r.fail('exception', 'a failing function, timed, returned')
            return
        if got is not o:
            r.fail('value', f'a timed call returned {got!r}')
        rep = [parse(m[0]) for w, s in sim.out[at:] if w == who for m in FORM.finditer(s)]
        rep = rep[-1] if rep else None
        if rep is None or not o['took'] <= rep <= now - t:
            r.fail('duration', f'a timed call (of a function calling itself or shared by threads) that took {o["took"]} ns '
                   f'(with reports {now - t}) says {rep} ns')
        r.state('same', len(o['kids']), len(str(rep)))
    tops = [node(R(o['s']), 0) for o in sc['ops'][:3]]
    if len(tops) > 1:
        s = sched.Scheduler(sc['plan'])
        sim.sched = s
        with core.active(sim):
            res = s.run([lambda o=o: use(o) for o in tops])
        sim.sched = None
        r.inter.add(s.trace)
        r.switches += len(s.switches)
        for kind, v in res:
            if isinstance(v, Stop):
                raise v
            if kind != 'ok':
                r.fail('threads', f'a timed call failed among concurrent ones: {kind} {v!r}')
    else:
        got = call(sim, use, tops[0])
        if isinstance(got.value, Stop):
            raise got.value
        if not got.ok:
            r.fail('failed', f'a timed call failed: {got}')


def libcalls(sc, r, P, sim):
    pool = lib.pool()
    im = mk(sc['img'])
    data = M.build(im)

    def world_():
        sim.fs.files.clear()
        sim.fs.dirs = {core.VROOT, core.VROOT + '/work'}
        sim.fs.put('in.bmp', data)
        sim.fs.put('in2.bmp', data)
        sim.rng = core.SimRandom(sc['world']['rand'], 'uniform')
        return array('B', data), array('B', data)
    for o in sc['ops'][:3]:
        g = R(o['s'])
        key = g.choice(pool['lib'])
        d = lib.args(g, key, im)
        if d is None:
            continue
        res = []
        for timed in (False, True):
            bmp, bmp2 = world_()
            f, a = call(sim, lib.invoke, key, d, bmp, bmp2).value
            if timed:
                f = P.functimer(f)
            box = {}

            def go():
                try:
                    ir = sched.Interrupter(budget=15000 + 200 * timed)
                    box['v'] = ir.run(lambda: ('gave', lib.norm(f(*a))))
                except Exception as e:
                    box['v'] = ('raised', type(e).__name__, str(e))
                except core.StepBudget:
                    pass
            call(sim, go)
            if 'v' not in box:
                break
            res.append((box['v'], bytes(bmp), bytes(bmp2), sim.fs.snapshot()))
        if len(res) == 2:
            r.ops += 1
            r.note(res[1][0])
            if res[0] != res[1]:
                r.fail('library', f'{key} with {short(d["a"])}, timed, gives {short(res[1][0])} instead of '
                       f'{short(res[0][0])} (or leaves other images or files)')
            r.state('lib', key, res[0][0][0])
