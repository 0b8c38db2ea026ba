"""C08: interrupting a drawing or filter leaves a valid image."""
from .common import *
from .c07 import check_pixels
from .hist import act_of
from .. import draw, edits, mem

ID = 'C08'
QUICK, THOROUGH = 8000, 300000
TECH = 'Ctrl-C, failing allocation or a failing user callback at any executed library line of an in-memory operation, then save, reload and repeat'
NOTE = ('Sampled executions, not a proof. Stops land between executed source lines of the library (not inside a '
        'single statement). Which pixels an operation may touch comes from the independent models; below 8 bits '
        'region and circle operations may touch whole bytes.')
RULE = ('one run = one random image, one or more in-memory drawing, filter or transform calls, each stopped at a '
        'random executed line (or callback call), judged, saved, reloaded and repeated undisturbed against the '
        'model; distinct = distinct event log; non-trivial = at least one operation was stopped')
STATES = 'distinct (operation, depth, kind of stop, changed or not when stopped, tenth of the operation done)'

DRAW = list(draw.OPS)
MEM = list(mem.ON)


def scenario(rng, i, tier):
    d = rng.choice([5, 10, 20, 20, 30])
    m = rng.random() < .55
    kinds = rng.sample(MEM if m else DRAW, rng.randint(1, 3))
    bits = 24 if m and any(k in mem.ONLY24 for k in kinds) else None
    ops = [dict(op=rng.choice(kinds), s=rng.getrandbits(32), pos=round(rng.random(), 4),
                act=rng.choice(['int', 'int', 'mem', 'callback']))
           for _ in range(rng.randint(1, 3 if tier == 'quick' else 6))]
    return dict(world=world(rng), mem=m, img=imgspec(rng, bits=bits, maxdim=d), ops=ops)


class Tired(Exception):
    """What the user's callback raises."""


def callback(at):
    seen = [0]

    def lerp(a, b, f):
        n = seen[0]
        seen[0] += 1
        if n == at:
            raise Tired()
        return (1.0 - f) * a + f * b
    return lerp, seen


def execute(sc, r):
    B = runner.B
    import importlib
    prim = importlib.import_module('pythonbmp.primitives2D')
    sim = sim_of(sc)
    im = mk(sc['img'])
    bmp = mkb(sc['img'])
    for o in sc['ops']:
        name, ism = o['op'], sc['mem']
        q = edits.E[name] if ism else draw.OPS[name]
        if ism and name in mem.ONLY24 and im.bits != 24:
            continue
        a = o['args'] if 'args' in o else q.gen(R(o['s']), im)
        if a is None or name == 'resizeNtimesbigger2file' and im.w * im.h * a[0] ** 2 > 2600:
            continue
        cbk = o['act'] == 'callback' and name in (mem.CALLBACK if ism else draw.CALLBACK)

        def go(b, fn=None):
            if ism:
                return mem.invoke(B, name, b, a, fn)
            if fn:
                return getattr(B, q.name)(b, *a, fn)
            return q.run(B, b, a)
        how = f'{name}{tuple(a)} on a {im.bits}-bit {im.w}x{im.h} image'
        head = bytes(bmp[:54])
        dry = bmp[:]
        at = act = fn = None
        if cbk:
            fn, seen = callback(-1)
            g = call(sim, go, dry, fn)
            if not g.ok or not seen[0]:
                continue
            k = int(o['pos'] * seen[0])
            fn, seen = callback(k)
            g = call(sim, go, bmp, fn)
            hit, kind = seen[0] > k, 'callback'
        else:
            g = call(sim, go, dry, at=-1)
            n = sim.last.n
            if not n:
                continue
            kind = 'mem' if o['act'] == 'mem' else 'int'
            g = call(sim, go, bmp, at=int(o['pos'] * n), act=act_of(sim, kind))
            hit = sim.last.hit
        r.ops += 1
        sim.fault_counts['line:' + kind] += hit
        r.note(name, g.kind, hit, bytes(bmp))
        if not ism:
            outs = draw.outcomes(q, im, a, prim)
            area = lambda x, y: any((x, y) in p.touched or p.px[y][x] != im.px[y][x] or
                                    p.weak and p.weak(x, y) for p in outs)
        else:
            area = mem.ON[name][1](im, a)
        pal = name in draw.PALETTE | mem.PALETTE
        what = f'{how} stopped by {kind} at {o["pos"]:.0%}'
        try:
            got = M.parse(bytes(bmp))
        except M.BadBMP as e:
            r.fail(f'{name}:invalid', f'{what} left no valid image: {e}')
        if bytes(bmp[:54]) != head:
            r.fail(f'{name}:header', f'{what} left another header')
        if got.pal != im.pal and not pal:
            r.fail(f'{name}:palette', f'{what} changed the palette')
        bad = [(x, y) for y in range(im.h) if got.px[y] != im.px[y] for x in range(im.w)
               if got.px[y][x] != im.px[y][x] and not area(x, y)]
        if bad:
            r.fail(f'{name}:outside', f'{what} changed {len(bad)} pixels outside its area, first {bad[0]}')
        r.state(name, im.bits, kind, got == im, int(o['pos'] * 10))
        # save, reload, repeat
        g = call(sim, B.saveBMP, 'img.bmp', bmp)
        if not g.ok or bytes(sim.fs.get(W + 'img.bmp') or b'') != bytes(bmp):
            r.fail('save', f'{what}: the image can no longer be saved: {g}')
        g = call(sim, B.loadBMP, 'img.bmp')
        if not loaded(g) or bytes(g.value) != bytes(bmp):
            r.fail('reload', f'{what}: the saved image does not load: {g}')
        bmp = g.value
        g = call(sim, go, bmp)
        what = f'{how}, repeated after being stopped,'
        if not ism:
            if not g.ok:
                r.fail(f'{name}:again', f'{what} failed: {g}')
            new = check_pixels(r, f'{name}:again', what, bmp, head, draw.outcomes(q, got, a, prim))
            im = new
            continue
        outs = mem.variants(name, got, a)
        out = outs[0]
        res = g.value if name in mem.RETURNS else bmp
        if not g.ok:
            if not out.error and not out.refuse:
                r.fail(f'{name}:again', f'{what} failed: {g}')
            im = got
            continue
        if name in mem.RETURNS and bytes(bmp) != M.build(got) and M.parse(bytes(bmp)) != got:
            r.fail(f'{name}:source', f'{what} altered the image it reads')
        if out.error or out.refuse or out.either:
            im = M.parse(bytes(bmp))
            continue
        try:
            new = M.parse(bytes(res)) if res is not None else None
        except M.BadBMP:
            new = 'broken'
        v = edits.judge(outs, got, new)
        if v:
            r.fail(f'{name}:again', f'{what}: {v}')
        im = M.parse(bytes(bmp))
    r.absorb(sim)

