"""C20: charts, solids, flowers and console pictures show exactly their data."""
from .common import *
from .hist import act_of
from .. import chart, core, draw

ID = 'C20'
QUICK, THOROUGH = 2500, 200000
TECH = 'sessions of charts and solids drawn with interrupted calls, saves, crashes and a failing console, against models of axes, plots, solids and petals'
NOTE = ('Sampled executions, not a proof. Arrow heads take their end points from the library. Faces seen edge-on are not '
        'generated; a pixel within 1e-7 of a rounding border may go either way. Negative scale starts below an axis are drawn '
        'as shipped (only beyond the far end is out of bounds).')
RULE = ('one run = one picture under 1-4 steps: axes, scatter plots with regression lines, numbered points, ten kinds of '
        'solids and surface plots, flowers, regular polygons, the same interrupted, pictures printed to a console that may '
        'fail, saves and reloads; distinct = distinct event log; non-trivial = at least one step judged')
STATES = 'distinct (function, kind of data, depth, changed or not, interrupted, outcome)'


class Mods:
    def __init__(self):
        import importlib
        m = lambda n: importlib.import_module('pythonbmp.' + n)
        self.fonts, self.solids, self.prim = m('fonts'), m('solids3D'), m('primitives2D')


def scenario(rng, i, tier):
    img = imgspec(rng, maxdim=rng.choice([14, 30, 50, 60]))
    ops = []
    for _ in range(rng.randint(1, 4)):
        k = rng.random()
        o = dict(k='print' if k < .12 else 'reload' if k < .2 else 'draw', fn=rng.choice(list(chart.OPS)), s=rng.getrandbits(32))
        if o['k'] == 'draw' and rng.random() < .25:
            o['stop'] = dict(act=rng.choice(['int', 'mem']), pos=round(rng.random(), 4))
        if o['k'] == 'print' and rng.random() < .4:
            o['faults'] = [dict(k='stdout', do=rng.choice(['EPIPE', 'EIO', 'interrupt']), pos=round(rng.random(), 4))]
        ops.append(o)
    return dict(world=world(rng), img=img, ops=ops)


def execute(sc, r):
    B, S = runner.B, Mods()
    sim = sim_of(sc)
    im = mk(sc['img'])
    bmp = mkb(sc['img'])
    head = bytes(bmp[:54])

    def now(how):
        if bytes(bmp[:54]) != head:
            r.fail('header', f'{how} changed header bytes')
        try:
            got = M.parse(bytes(bmp))
        except M.BadBMP as e:
            r.fail('header', f'{how} damaged the picture: {e}')
            raise Stop
        if got.pal != im.pal:
            r.fail('header', f'{how} changed the palette')
        return got
    for o in sc['ops']:
        g = R(o['s'])
        if o['k'] == 'reload':
            call(sim, B.saveBMP, 'a.bmp', bmp)
            got = call(sim, B.loadBMP, 'a.bmp')
            if not loaded(got) or bytes(got.value) != bytes(bmp):
                r.fail('reload', f'a saved chart does not load back: {got.kind}')
                raise Stop
            bmp = got.value
            continue
        if o['k'] == 'print':
            show(sim, r, B, bmp, im, o, sc)
            continue
        q = chart.OPS[o['fn']]
        a = o['args'] if 'args' in o else q.gen(g, im)
        if a is None:
            continue
        how = f'{q.name}{tuple(a)} on a {im.bits}-bit {im.w}x{im.h} picture'
        at = act = None
        if o.get('stop'):
            dry = sim_of(sc)
            call(dry, q.run, B, S, bmp[:], a, at=-1)
            at, act = int(o['stop']['pos'] * max(1, dry.last.n)), act_of(sim, o['stop']['act'])
        got = call(sim, q.run, B, S, bmp, a, at=at, act=act)
        r.ops += 1
        r.note(how, got.kind, bytes(bmp))
        new = now(how)
        cut = bool(at is not None and sim.last.hit and not got.ok)
        if cut:
            sim.fault_counts['line:' + o['stop']['act']] += 1
        elif not got.ok:
            r.fail('failed', f'{how} failed: {got}')
            raise Stop
        outs = chart.pens(im, lambda P: q.model(P, a), S.prim, cut)
        bad, used = chart.judge(outs, im, new, cut)
        if bad:
            x, y = bad[0]
            r.fail(q.name, f'{how}{" (interrupted)" if cut else ""}: {len(bad)} pixels wrong, ({x},{y}) is '
                   f'{new.px[y][x]:#x}, expected {outs[0].px[y][x]:#x}, was {im.px[y][x]:#x}')
            raise Stop
        if not cut and q.name == 'XYaxis':
            want = chart.info(a)
            if [list(v) for v in got.value] != want:
                r.fail('axis-info', f'{how} returns {got.value}, expected {want}')
        r.state(q.name, a[0] if q.name == 'plot3Dsolid' else len(a[0]) if isinstance(a[0], list) else 0, im.bits,
                new == im, (o.get('stop') or {}).get('act') if cut else None)
        im = new
    r.absorb(sim)


def show(sim, r, B, bmp, im, o, sc):
    """The picture printed to the console, one line per row."""
    before = bytes(bmp)
    if o.get('faults'):
        dry = sim_of(sc)
        call(dry, B.plotbmpastext, bmp[:])
        sim.arm(place(o['faults'], dry.step_counts))
    n0 = len(sim.fired)
    sim.out.clear()
    got = call(sim, B.plotbmpastext, bmp)
    fired = sim.fired[n0:]
    sim.disarm()
    r.ops += 1
    out = ''.join(sim.out)
    r.note('print', got.kind, out)
    if bytes(bmp) != before:
        r.fail('print', f'printing a {im.bits}-bit picture changed it')
    row = -(-im.w * im.bits // 32) * 4
    off = len(before) - row * im.h
    full, bare = '', ''
    for y in range(im.h):
        b = before[off + (im.h - 1 - y) * row:off + (im.h - y) * row]
        s = {1: lambda: ''.join('*' if k & (128 >> i) else ' ' for k in b for i in range(8)),
             4: lambda: ''.join(chr(97 + (k >> 4)) + chr(97 + (k & 15)) for k in b),
             8: lambda: ''.join(map(chr, b)), 24: lambda: ''}[im.bits]()
        full += s + '\n'
        bare += s[:im.w] + '\n'
    how = f'a {im.bits}-bit {im.w}x{im.h} picture'
    if fired:
        if got.ok:
            r.fail('print', f'printing {how} succeeded on a console that failed')
        if not full.startswith(out) and not bare.startswith(out):
            r.fail('print', f'{how} printed to a failing console gives {out!r}')
    elif not got.ok or out not in (full, bare):
        k = next((i for i, (p, q) in enumerate(zip(out, full)) if p != q), min(len(out), len(full)))
        r.fail('print', f'{how} printed: {got.kind}, {len(out)} characters where {len(full)} are due, first difference at {k}')
    r.state('print', im.bits, bool(fired), got.kind)
