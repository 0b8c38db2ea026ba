"""C10: concurrent callers with their own images do not disturb each other."""
import os

from .common import *
from .. import core, lib, sched
from ..runner import run_one

ID = 'C10'
QUICK, THOROUGH = 4500, 150000
TECH = 'seeded scheduling of concurrent callers at every executed library line (or bytecode) and system call, against each caller run alone'
NOTE = ('Sampled interleavings, not a proof. Threads switch between executed source lines, in part of the runs between '
        'bytecodes; true parallelism (no interpreter lock) is not modelled. Calls that draw random numbers or last '
        'longer than 20000 lines are left out.')
RULE = ('one run = 2 to 4 callers, each making a sequence of library calls on its own images and files, executed '
        'under one random schedule and compared with each caller executed alone in a fresh process; distinct = '
        'distinct event log; non-trivial = at least two callers executed a call')
STATES = 'distinct (set of functions in flight together, depths, outcome kinds)'

CALL_LINES = 20000

def scenario(rng, i, tier):
    p = lib.pool()
    n = rng.choice([2, 2, 2, 3, 4])
    keys = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        keys.append(rng.choice(p[rng.choice(['lib', 'lib', 'lib', 'draw', 'mem', 'edit'])]))
    d = rng.choice([4, 8, 14])
    bits = rng.choice([None, None, 24, 8, 4, 1])
    hot = rng.random() < .3                            # everybody in one function, changing over at every turn
    if hot:
        keys, bits = [rng.choice(p['lib' if rng.random() < .3 else 'draw'])], rng.choice([24, 8, 4])
    imgs = [imgspec(rng, bits=bits, maxdim=d) for _ in range(n)]
    if rng.random() < .3:
        imgs = [dict(imgs[0], s=rng.getrandbits(32)) for _ in range(n)]
    ops = [dict(t=t, f=rng.choice(keys), s=rng.getrandbits(32), own=rng.random() < .7)
           for t in range(n) for _ in range(rng.randint(1, 3 if tier == 'quick' else 6))]
    p = rng.choice([.003, .01, .01, .03, .03, .1, .2]) if not hot else rng.choice([.1, .3, .5])
    opc = rng.random() < .15
    w = dict(world(rng), bufsize=rng.choice([64, 512, 8192]), max_io=rng.choice([0, 0, 64]))
    return dict(world=w, imgs=imgs, ops=ops, layout=rng.choice(['dir', 'dir', 'name']),
                plan=dict(mode='random', seed=rng.getrandbits(32), p=p / 4 if opc else p, opcodes=opc))


class Caller:
    def __init__(self, sc, t, sim):
        self.pre = f'c{t}/' if sc['layout'] == 'dir' else f'c{t}-'
        im = mk(sc['imgs'][t])
        self.im = im
        data = M.build(im)
        self.bmp = array('B', data)
        if sc['layout'] == 'dir':
            sim.fs.dirs.add(W + f'c{t}')
        sim.fs.put(self.pre + 'in.bmp', data)
        sim.fs.put(self.pre + 'in2.bmp', M.build(M.rand_img(R(sc['imgs'][t]['s'] + 1), im.bits, im.w, im.h)))
        self.ops = []
        for o in sc['ops']:
            if o['t'] == t:
                d = lib.gen(R(o['s']), o['f'], im)
                if d is not None:
                    self.ops.append((o, d))
        self.got = []

    def one(self, o, d):
        b = self.bmp if 'op' in d or 'mem' in d and o['own'] else self.bmp[:]
        return lib.perform(o['f'], d, b, self.bmp[:], self.pre)[0] + (bytes(b),)

    def run(self, skip=()):
        for k, (o, d) in enumerate(self.ops):
            if k in skip:
                continue
            self.got.append((k, self.one(o, d)))

    def files(self, sim):
        return {p: c for p, c in sim.fs.snapshot().items() if p.startswith(W + self.pre)}


def alone(sc, t):
    """Caller t by itself, in a process of its own: (results, files, calls to leave out)."""
    def go():
        sim = sim_of(sc)
        c = Caller(sc, t, sim)
        skip = []

        def calls():
            for k, (o, d) in enumerate(c.ops):
                ir = sched.Interrupter(budget=CALL_LINES)
                keep, files = c.bmp[:], sim.fs.snapshot()
                n = sim.rng.draws
                try:
                    v = ir.run(c.one, o, d)
                    if sim.rng.draws != n:
                        raise core.StepBudget
                except core.StepBudget:
                    skip.append(k)
                    c.bmp[:] = keep
                    for p in set(sim.fs.files) - set(files):
                        del sim.fs.files[p]
                    for p, q in files.items():
                        sim.fs.put(p, q)
                    continue
                c.got.append((k, v))
        call(sim, calls)
        return c.got, c.files(sim), skip
    return pristine(go)


def execute(sc, r):
    n = len(sc['imgs'])
    want = [alone(sc, t) for t in range(n)]
    sim = sim_of(sc)
    cs = [Caller(sc, t, sim) for t in range(n)]
    s = sched.Scheduler(sc['plan'] if 'switch' not in sc else dict(sc['plan'], mode='list', switch=sc['switch']))
    sim.sched = s
    os.environ['PATH'] = '/usr/bin:/bin'
    with core.active(sim):
        res = s.run([(lambda c=c, t=t: c.run(want[t][2])) for t, c in enumerate(cs)])
    sim.sched = None
    r.extra['plan'] = s.recorded()
    r.switches += len(s.switches)
    if s.switches:
        r.inter.add(s.trace)
    busy = sum(bool(c.got) for c in cs)
    r.ops += sum(len(c.got) for c in cs) if busy > 1 else 0
    for t, (kind, v) in enumerate(res):
        if kind != 'ok':
            r.fail('stuck' if kind == 'budget' else 'failed',
                   f'caller {t} of {n} does not finish when run with the others: {kind} {v}')
    for t, c in enumerate(cs):
        got, files, _ = want[t]
        for (k, w), (k2, g) in zip(got, c.got):
            o, d = c.ops[k]
            r.tag(g[0])
            if w != g:
                part = 'its outcome' if w[0] != g[0] else 'its result' if w[1] != g[1] else 'the image'
                r.fail(o['f'].split(':')[-1].split('.')[-1],
                       f'{o["f"]} called by one of {n} concurrent callers with {short(d["a"])} on a {c.im.bits}-bit '
                       f'{c.im.w}x{c.im.h} image: {part} differs from the same call made alone '
                       f'({short(g[1])} instead of {short(w[1])})')
        if files != c.files(sim):
            f = [p for p in set(files) | set(c.files(sim)) if files.get(p) != c.files(sim).get(p)]
            r.fail('files', f'caller {t} of {n} ({[o["f"] for o, d in c.ops]}) leaves {sorted(f)} different from when '
                   f'it runs alone')
        r.note(t, c.got, sorted(files))
    extra = [p for p in sim.fs.files if not any(p.startswith(W + c.pre) for c in cs)]
    if extra:
        r.tag('files elsewhere', len(extra))
    r.state(tuple(sorted({o['f'] for c in cs for o, d in c.ops})), tuple(c.im.bits for c in cs),
            tuple(sorted({g[0] for c in cs for k, g in c.got})))
    r.note(s.trace)
    r.absorb(sim)


def shrink(sc):
    if 'switch' not in sc:
        d = run_one(__import__(__name__, fromlist=['x']), sc)
        p = d.get('extra', {}).get('plan')
        if p:
            yield dict(sc, switch=p['switch'], plan=dict(mode='list', opcodes=p['opcodes']))
    else:
        used = {o['t'] for o in sc['ops']}
        for t in range(len(sc['imgs']) - 1, 1, -1):
            if t not in used and t == len(sc['imgs']) - 1:
                yield dict(sc, imgs=sc['imgs'][:-1])
    w = sc['world']
    for k, v in (('max_io', 0), ('bufsize', 8192)):
        if w.get(k) != v:
            yield dict(sc, world=dict(w, **{k: v}))
