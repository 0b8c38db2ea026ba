"""C11: what a call returns depends only on its arguments."""
import decimal
import gc
import importlib
import json
import locale
import os
import random
import signal
import sys
import threading
import warnings

from .common import *
from .hist import act_of
from .. import core, lib, sched

ID = 'C11'
QUICK, THOROUGH = 8500, 300000
TECH = 'seeded histories of library calls (completed, failing, stopped at any line, hit by storage faults, results overwritten) before a call that is compared with the same call in a fresh process'
NOTE = ('Sampled histories, not a proof. Calls that draw random numbers or read the clock are not compared; calls '
        'longer than 20000 lines are left out. Which arguments a call may modify and which module tables are '
        'built-in is listed in dst/shared.json.')
RULE = ('one run = one call with arguments, executed in a fresh process and again in a process where 1 to 12 other '
        'calls (often of the same function with one argument changed) completed, failed or were stopped before; '
        'distinct = distinct event log; non-trivial = the call was compared at least twice')
STATES = 'distinct (function, depth, outcome, kinds of call before it)'
LINES = 20000

with open(os.path.join(os.path.dirname(__file__), '..', 'shared.json')) as _f:
    SHARED = json.load(_f)


def scenario(rng, i, tier):
    p = lib.pool()
    if i % 10 < 7:                               # every function in turn
        key = p['lib'][(i // 10 * 7 + i % 10) % len(p['lib'])]
    else:
        key = rng.choice(p[rng.choice(['lib', 'draw', 'mem', 'edit'])])
    d = rng.choice([4, 8, 14, 14, 32])
    n = rng.randint(1, 6 if tier == 'quick' else 12)
    same = rng.choice([.3, .7, 1])
    ops = []
    for _ in range(n):
        u = rng.random()
        f = key if u < same else rng.choice(p[rng.choice(list(p))]) if u < .97 else rng.choice(sorted(lib.RANDOM))
        ops.append(dict(f=f, s=rng.getrandbits(32), mut=f == key and rng.random() < .7, b=rng.random() < .3,
                        touch=rng.random() < .25,
                        stop=rng.choice([None] * 6 + ['int', 'mem']), pos=int(10 ** rng.uniform(0, 3)),
                        faults=[iofault(rng, crash=False)] if rng.random() < .1 else None,
                        scribble=rng.random() < .5, again=rng.random() < .4))
    return dict(world=dict(world(rng), bufsize=rng.choice([64, 8192]), max_io=0),
                imgs=[imgspec(rng, maxdim=d), imgspec(rng, maxdim=d)],
                f=key, s=rng.getrandbits(32), ops=ops)


class World:
    """Equal surroundings for every call: same files, same image, same random source."""

    def __init__(self, sc):
        self.sim = sim_of(sc)
        self.rand = sc['world']['rand']
        self.one = sc['s'] % 2
        self.imgs = [mk(s) for s in sc['imgs']]
        self.data = [M.build(im) for im in self.imgs]
        self.bmp = array('B')
        self.others = [M.build(M.rand_img(R(s['s'] + 1), im.bits, im.w, im.h))
                       for s, im in zip(sc['imgs'], self.imgs)]

    def reset(self, k):
        fs = self.sim.fs
        fs.files.clear()
        fs.dirs = {core.VROOT, core.VROOT + '/work'}
        fs.put('in.bmp', self.data[k])
        fs.put('in2.bmp', self.others[k])
        self.sim.rng = core.SimRandom(self.rand, 'uniform')
        if k or not self.one:
            return array('B', self.data[k]), array('B', self.others[k])
        self.bmp[:] = array('B', self.data[k])   # one picture, drawn on between calls
        return self.bmp, array('B', self.others[k])

    def touched(self, g):
        """The first picture with one byte of a pixel or palette entry changed, as argument and file."""
        bmp, other = self.reset(0)
        im = self.imgs[0]
        o = int.from_bytes(bmp[10:14], 'little')
        line = (len(bmp) - o) // im.h
        if im.bits < 24 and g.random() < .2:
            bmp[g.randrange(54, o)] ^= g.randint(1, 255)
        else:
            at = o + line * g.randrange(im.h) + g.randrange(max(1, im.w * im.bits // 8))
            bmp[at] ^= g.randint(1, 255) if im.w * im.bits >= 8 else 128
        self.sim.fs.put('in.bmp', bytes(bmp))
        return bmp, other


def tables():
    """Built-in tables of the library, as they are now."""
    out = {}
    for n in SHARED['tables']:
        m, _, v = n.rpartition('.')
        t = getattr(importlib.import_module(m), v, None)
        if t is not None:
            out[n] = lib.norm(t)
    return out


def ambient():
    """What the whole process shares."""
    e = dict(os.environ)
    e.pop('PATH', None)
    return dict(environment=e, recursion=sys.getrecursionlimit(), path=list(sys.path), threads=threading.active_count(),
                collector=gc.isenabled(), digits=sys.get_int_max_str_digits() if hasattr(sys, 'get_int_max_str_digits') else 0,
                switching=sys.getswitchinterval(), decimals=repr(decimal.getcontext()), hooks=(sys.excepthook, sys.displayhook),
                arguments=list(sys.argv), locale=locale.setlocale(locale.LC_ALL), warnings=len(warnings.filters),
                signals=[signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM)])


def target(w, key, d):
    """The call under observation: (outcome, image, files) or None when it is too long."""
    bmp, bmp2 = w.reset(0)
    box = {}

    def go():
        try:
            box['v'] = sched.Interrupter(budget=LINES).run(lib.perform, key, d, bmp, bmp2)
        except core.StepBudget:
            box['v'] = None
    call(w.sim, go)
    if box.get('v') is None:
        return None
    o, raw, args = box['v']
    same = [lib.norm(x) for x in args if not callable(x)] if o[0] == 'gave' else []
    return (o, bytes(bmp), w.sim.fs.snapshot(), sorted(w.sim.fs.dirs), w.sim.rng.draws, same), raw, args


def scribble(v, g, depth=0):
    """Overwrite what an earlier call handed out (its owner may)."""
    try:
        if isinstance(v, array) and len(v):
            v[g.randrange(len(v))] ^= 255
        elif isinstance(v, list):
            if v and isinstance(v[0], (list, array)) and depth < 2:
                scribble(v[0], g, depth + 1)
            elif v and isinstance(v[0], (int, float)):
                v[g.randrange(len(v))] = 1
            v.append(v[0] if v else 1)
        elif isinstance(v, dict):
            v['scribbled'] = 1
    except (TypeError, ValueError, OverflowError):
        pass


def execute(sc, r):
    w = World(sc)
    sim = w.sim
    key = sc['f']
    d = sc['desc'] if 'desc' in sc else lib.gen(R(sc['s']), key, w.imgs[0])
    if d is None:
        return
    im = w.imgs[0]
    how = f'{key} with {short(d["a"])} on a {im.bits}-bit {im.w}x{im.h} image'
    want = pristine(lambda: (lambda t: t and t[0])(target(w, key, d)))
    if want is None or want[4]:
        r.tag('not compared')
        return
    before, around = tables(), ambient()
    seen = ['first']

    def compare():
        t = target(w, key, d)
        r.ops += 1
        if t is None:
            r.fail('result', f'{how}: does not come to an end after {seen[-4:]}')
        got, raw, args = t
        if got != want:
            part = [n for n, x, y in zip(('outcome', 'image', 'files', 'directories', 'random numbers drawn',
                                          'arguments afterwards'), got, want) if x != y]
            r.fail('result', f'{how}: {part[0]} differs after {seen[-4:]}: {short(got[0])} instead of '
                   f'{short(want[0])}')
        if got[0][0] == 'gave':
            r.note(got[0])
            ok = SHARED['writers'].get(key, [0] if key.startswith('mem:') else [])
            if 'op' not in d and 'edit' not in d and 'mem' not in d:
                fresh = call(sim, lib.invoke, key, d, *w.reset(0)).value[1]
                for k, (x, y) in enumerate(zip(args, fresh)):
                    if k not in ok and not callable(x) and lib.norm(x) != lib.norm(y):
                        r.fail('argument', f'{how}: modified its argument number {k + 1}')
        now = tables()
        for n in before:
            if n in now and before[n] != now[n]:
                r.fail('table', f'{how} or {seen[-4:]} altered the built-in table {n}')
        now = ambient()
        for n in around:
            if around[n] != now[n]:
                r.fail('process', f'{how} or {seen[-4:]} altered something of the whole process: {n}')
        r.state(key, im.bits, got[0][0], tuple(sorted(set(k.split(' ')[0] for k in seen[1:]))))
        return raw

    for o in sc['ops']:
        g = R(o['s'])
        k = 1 if o['b'] else 0
        touch = o.get('touch') and not o['b']
        nd = d if touch and o['f'] == key else \
            lib.mutate(g, key, d, w.imgs[0]) if o['mut'] and not o['b'] else lib.gen(g, o['f'], w.imgs[k])
        if nd is None:
            continue
        bmp, bmp2 = w.touched(g) if touch else w.reset(k)
        sim.arm([dict(f, n=int(f['pos'] * 4)) for f in o['faults'] or []])
        fired = len(sim.fired)
        box = {}

        def go():
            box['v'] = lib.perform(o['f'], nd, bmp, bmp2)
        act = act_of(sim, o['stop']) if o['stop'] else None
        ir = Stopper(o['pos'] if o['stop'] else None, act, LINES)
        got = call(sim, ir.run, go)
        sim.disarm()
        if ir.hit:
            sim.fault_counts['line:' + o['stop']] += 1
        kind = 'stopped' if ir.hit or not got.ok else 'hit by a fault' if len(sim.fired) > fired else \
            'failed' if box['v'][0][0] == 'raised' else 'done'
        r.tag(kind)
        seen.append(f'{kind} {o["f"]}({short(nd["a"])})' + ' of the picture with one byte changed' * bool(touch))
        if o['scribble'] and box.get('v') and isinstance(box['v'][1], (list, dict, array)):
            scribble(box['v'][1], g)               # pal = getdefaultbitpal(4); pal[3] = ... is ordinary use
            seen.append('overwritten its result')
        if o['again']:
            raw = compare()
            if g.random() < .5 and isinstance(raw, (list, dict, array)):
                scribble(raw, g)
                seen.append(f'overwritten the result of {key} itself')
    compare()
    compare()
    r.absorb(sim)


class Stopper(sched.Interrupter):
    """Interrupter whose step budget counts as one more way of being stopped."""

    def __init__(self, at, act, budget):
        super().__init__(at, act, budget)

    def run(self, fn):
        try:
            return super().run(fn)
        except core.StepBudget:
            raise core.SimInterrupt from None


def shrink(sc):
    for j, o in enumerate(sc['ops']):
        for k, v in (('stop', None), ('faults', None), ('scribble', False), ('again', False), ('b', False), ('touch', False)):
            if o.get(k):
                yield dict(sc, ops=sc['ops'][:j] + [dict(o, **{k: v})] + sc['ops'][j + 1:])
