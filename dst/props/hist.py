"""Histories of file edits judged step by step against the pixel-grid models (C05, C06)."""
from .common import *
from .. import edits, mem

SLOTS = ['a.bmp', 'b.bmp', 'c.bmp', 'sub/d.bmp']
MAXPIX = 2600


def make(rng, names, maxops, faulty=.3):
    bits = rng.choice([24, 24, 24, 8, 8, 4, 1]) if rng.random() < .8 else None
    d = rng.choice([6, 12, 20, 20, 28])
    pics = [dict(img=imgspec(rng, bits=bits, maxdim=d, long=.05), slot=i) for i in range(rng.randint(1, 3))]
    if len(pics) > 1 and rng.random() < .6:                  # comparable pictures
        for q in pics[1:]:
            q['img'] = dict(pics[0]['img'], s=rng.getrandbits(32))
    # swarm: a run works with a few kinds of edits
    kinds = rng.sample(names, min(len(names), rng.randint(2, 7)))
    ops = []
    for _ in range(rng.randint(1, maxops)):
        op = dict(fn=rng.choice(kinds), src=rng.randrange(4), dst=rng.randrange(4),
                  eseed=rng.getrandbits(32), mem=rng.random() < .3)
        if rng.random() < faulty:
            if rng.random() < .6:
                op['faults'] = [iofault(rng)]
            else:
                op['stop'] = dict(pos=round(rng.random(), 4), act=rng.choice(['int', 'mem', 'crash']))
            op['retry'] = rng.random() < .6
        ops.append(op)
    return dict(world=world(rng), pics=pics, ops=ops, slots=SLOTS if rng.random() < .9 else rng.sample(ODD[:-1], 4))


def act_of(sim, a):
    def f():
        if a == 'int':
            raise core.SimInterrupt()
        if a == 'mem':
            raise MemoryError('simulated')
        sim.crash()
    return f


def execute(sc, r, pick=None):
    B = runner.B
    sim = sim_of(sc)
    sim.fs.dirs.add(W + 'sub')
    oddirs(sim)
    SLOTS = sc.get('slots', globals()['SLOTS'])
    for q in sc['pics']:
        sim.fs.put(W + SLOTS[q['slot']], file_of(mk(q['img']), q['img']['s']))
    for op in sc['ops']:
        have = [s for s in SLOTS if sim.fs.get(W + s) is not None]
        if not have:
            break
        src = have[op['src'] % len(have)]
        dst = SLOTS[op['dst']]
        src2 = have[(op['src'] + 1) % len(have)]
        im = M.parse(sim.fs.get(W + src))
        im2 = M.parse(sim.fs.get(W + src2))
        e = edits.E[op['fn']]
        a = e.gen(R(op['eseed']), im)
        if e.fn == 'resizeNtimesbigger2file' and im.w * im.h * a[0] ** 2 > MAXPIX:
            continue
        if e.fn == 'reduce24bitimagebits' and im.w * im.h > 700:      # quadratic in the colours
            continue
        bad = step(sc, r, B, sim, e, src, dst, src2, im, im2, a, op)
        if bad and op.get('retry') and sim.fs.get(W + src) is not None:
            old, im = im, M.parse(sim.fs.get(W + src))
            if (im.w, im.h, im.bits) != (old.w, old.h, old.bits):     # it went through after all
                a = e.gen(R(op['eseed']), im)
                if e.fn == 'resizeNtimesbigger2file' and im.w * im.h * a[0] ** 2 > MAXPIX:
                    continue
            if not e.two or sim.fs.get(W + src2) is not None:
                im2 = M.parse(sim.fs.get(W + src2)) if e.two else None
                step(sc, r, B, sim, e, src, dst, src2, im, im2, a, dict(mem=op.get('mem')))
    r.absorb(sim)


def step(sc, r, B, sim, e, src, dst, src2, im, im2, a, op):
    """One edit; True if it was disturbed."""
    before = sim.fs.snapshot()
    if op.get('mem'):
        e = mem.live(e, im, a)
    how = f'{e.fn if isinstance(e, edits.Edit) else mem.ON[e.fn][0]}{tuple(a)} on a {im.bits}-bit {im.w}x{im.h} picture'

    def go(s, **k):
        return call(s, e.invoke, B, src, dst, a, src2, **k)
    stop = None
    if op.get('faults') or op.get('stop'):
        dry = sim_of(sc)
        dry.fs.dirs |= sim.fs.dirs
        for q, d in before.items():
            dry.fs.put(q, d)
        if op.get('stop'):
            go(dry, at=-1)
            stop = dict(at=int(op['stop']['pos'] * dry.last.n), act=act_of(sim, op['stop']['act']))
        else:
            go(dry)
            sim.arm(place(op['faults'], dry.step_counts))
    n0 = len(sim.fired)
    g = go(sim, **(stop or {}))
    hard = hard_fired(sim.fired[n0:])
    if stop and sim.last.hit:
        hard.append(dict(k='line', do=op['stop']['act']))
        sim.fault_counts['line:' + op['stop']['act']] += 1
    sim.disarm()
    if g.kind == 'crash':
        sim.restart()
    after = sim.fs.snapshot()
    p = W + dst
    r.ops += 1
    outs = edits.variants(e, im, a, im2)
    out = outs[0]
    r.note(e.fn, g.kind, after.get(p))
    r.tag(out.kind())
    r.state(e.fn, isinstance(e, edits.Edit), im.bits, out.kind(), [(f['k'], f['do']) for f in hard], g.kind, dst == src,
            im.w % 8 if im.bits < 24 else im.w % 4, min(im.w, 3), min(im.h, 3))
    others_same(r, before, after, {p} | sim.tampered, 'other-file', how)
    sim.tampered.clear()
    if sim.fs.open_handles:
        r.fail('leak', f'{how} left files open')
    now = after.get(p)
    if now == before.get(p):
        got = 'untouched'
    else:
        try:
            got = M.parse(now) if now is not None else 'broken'
        except M.BadBMP:
            got = 'broken'
    if not hard:
        if not g.ok and not out.error:
            r.fail(f'{e.fn}:failed', f'{how} failed: {g}')
        if g.ok and out.error:
            out.error, out.either = False, True
        if got == 'untouched' and not (out.refuse or out.error or out.either):
            # the destination may already have held exactly the result
            try:
                got = M.parse(now) if now is not None else got
            except M.BadBMP:
                pass
        seen = set()
        v = edits.judge(outs, im, got, seen)
        if seen:
            r.known[f'{r.pid}:{QUIRK[r.pid]}'] += 1
        if v:
            r.fail(e.fn, f'{how}: {v}')
        return False
    # disturbed: old content, the right result, or an incomplete file nothing can load
    if got == 'untouched':
        return True
    if got == 'broken':
        if now is not None:
            g = call(sim, B.loadBMP, dst)
            if loaded(g):
                r.fail('torn-loaded', f'{how}, disturbed by {hard}, left an incomplete file that loads')
            del sim.fs.files[p]
        return True
    if g.kind in ('ok', 'crash', 'exc', 'interrupt'):
        if out.error:                          # it may be refused or go through; here it got as far as writing
            out.error, out.either = False, True
        v = edits.judge(outs, im, got) if not (out.refuse or out.error) else \
            'a refused edit wrote its destination'
        if v:
            r.fail(f'{e.fn}:disturbed', f'{how}, disturbed by {hard}: {v}')
    return True


QUIRK = {'C05': 'none', 'C06': 'colorfilter-last-pixel', 'C07': '4bit-run-last-pixel'}
