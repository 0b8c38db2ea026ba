"""C19: every pixel of a fractal is decided by its own point of the plane."""
from .common import *
from .hist import act_of
from .. import core, fractal as X

ID = 'C19'
QUICK, THOROUGH = 10000, 200000
TECH = 'sessions of fractals drawn into pictures with interrupted calls, interleaved point iterators, saves and reloads, against point-by-point reference rules'
NOTE = ('Sampled executions, not a proof. Iterated floating point is judged with a 1e-9 nudge of the point: where '
        'that changes the count, counts of 24 and more are not told apart. '
        'Negative powers and 24-bit pictures with two packed colours are not generated.')
RULE = ('one run = one picture under 1-3 steps: a fractal of any of the 33 kinds or a Newton fractal in a region '
        'anywhere, the same interrupted, 1-3 point iterators advanced in a seeded interleaving, saves and reloads; '
        'distinct = distinct event log; non-trivial = at least one fractal judged')
STATES = 'distinct (function, depth, number of colour factors, region inside or not, corners swapped, interrupted, outcome)'

ITER = {'multibrot': 'itermultibrot', 'mandelbrot': 'itermandelbrot', 'tricorn': 'itertricorn', 'multicorn': 'itermulticorn',
        'julia': 'iterjulia', 'multijulia': 'itermultijulia', 'lambdafractal': 'iterlamdbafractal',
        'ngonfractal': 'iterngonfractal', 'barnsleytree': 'iterbarnsleytree', 'marekdragon': 'itermarekdragon',
        'xorfractal': 'iterxorfractal', 'xordivfractal': 'iterxordivfractal', 'tetrationfractal': 'itertetration',
        'astroidfractal': 'iterastroid', 'lemniscatefractal': 'iterlemniscate'}
ITER.update({k: 'iter' + k for k in X.DRAW if k not in ITER})
POLY = [(lambda z: z * z * z - 1, lambda z: 3 * z * z), (lambda z: z ** 4 - 1, lambda z: 4 * z ** 3),
        (lambda z: z * z + 1, lambda z: 2 * z), (lambda z: z ** 5 - z, lambda z: 5 * z ** 4 - 1)]


def region(rng, w, h):
    k = rng.random()
    if k < .3:
        v = [0, 0, w, h]
    elif k < .75:
        v = [rng.randint(0, w - 1), rng.randint(0, h - 1), rng.randint(1, w), rng.randint(1, h)]
    else:
        v = [rng.randint(-6, w + 6), rng.randint(-6, h + 6), rng.randint(-6, w + 6), rng.randint(-6, h + 6)]
    if v[0] == v[2]:
        v[2] += 1
    if v[1] == v[3]:
        v[3] += 1
    return v


def factors(rng, bits):
    if bits == 24 or rng.random() < .6:
        return [round(rng.random(), 3) for _ in range(3)]
    return [rng.randrange(1 << 24) for _ in range(2)]


def scenario(rng, i, tier):
    img = imgspec(rng, maxdim=rng.choice([6, 12, 18]))
    ops = []
    for _ in range(rng.randint(1, 3)):
        k = rng.random()
        o = dict(k='iter' if k < .12 else 'newton' if k < .2 else 'reload' if k < .25 else 'draw',
                 fn=rng.choice([*X.DRAW, *X.DRAW, 'mandelbrot', 'mandelbrot', 'julia', 'multibrot']), s=rng.getrandbits(32), r=region(rng, img['w'], img['h']),
                 n=rng.choice([2, 5, 9, 14, 14, 30, 255, 300, 500]))
        if o['k'] in ('draw', 'newton') and rng.random() < .3:
            o['stop'] = dict(act=rng.choice(['int', 'mem']), pos=round(rng.random(), 4))
        ops.append(o)
    return dict(world=world(rng), img=img, ops=ops)


def newton(pair, p, n, e=0):
    f, g = POLY[pair]
    z = p + e
    for i in range(n):
        d = g(z)
        if d == 0:
            return None, None
        s = f(z) / d
        if abs(s) < 1e-8:
            return z, i
        z -= s
    return None, None


def execute(sc, r):
    import importlib
    B = runner.B
    F = importlib.import_module('pythonbmp.fractals')
    sim = sim_of(sc)
    im = mk(sc['img'])
    bmp = mkb(sc['img'])
    head = bytes(bmp[:54])

    def now(how):
        if bytes(bmp[:54]) != head:
            r.fail('header', f'{how} changed header bytes')
        try:
            got = M.parse(bytes(bmp))
        except M.BadBMP as e:
            r.fail('header', f'{how} damaged the picture: {e}')
            raise Stop
        if got.pal != im.pal:
            r.fail('header', f'{how} changed the palette')
        return got
    for o in sc['ops']:
        g = R(o['s'])
        if o['k'] == 'reload':
            call(sim, B.saveBMP, 'a.bmp', bmp)
            got = call(sim, B.loadBMP, 'a.bmp')
            if not loaded(got) or bytes(got.value) != bytes(bmp):
                r.fail('reload', f'a saved fractal does not load back: {got.kind}')
                raise Stop
            bmp = got.value
            continue
        if o['k'] == 'iter':
            iters(sim, r, F, g, o)
            continue
        x1, y1, x2, y2 = o['r']
        dom = X.domain(g, o['fn'])
        even = g.random() < .35
        if even:
            dom = X.lattice(g, o['fn'])
            x2, y2 = x1 + g.choice([-16, -8, 8, 16]), y1 + g.choice([-8, 8])
        P = X.Plane(x1, y1, x2, y2, dom)
        n = o['n']
        at = act = None
        if o['k'] == 'newton':
            n = min(n, 30)
            pair = g.randrange(len(POLY))
            fs = [factors(g, 24) for _ in range(12)]
            args = ('newtonsfractal', x1, y1, x2, y2, POLY[pair], dom, fs, n)
            how = f'newtonsfractal #{pair} in {o["r"]} of {dom}, {n} iterations, on a {im.bits}-bit {im.w}x{im.h} picture'
        else:
            par = X.params(g, o['fn'])
            fs = factors(g, im.bits)
            if even:
                par = [X.cparam(g, .8) if isinstance(v, list) else v for v in par]
            elif g.random() < .3:
                dom = X.zoom(g, o['fn'], par, dom)
                P = X.Plane(x1, y1, x2, y2, dom)
                if g.random() < .5:
                    n = g.choice([300, 400, 500])
            args = (o['fn'], x1, y1, x2, y2, *X.live(par), dom, fs, n)
            how = f'{o["fn"]}{tuple(args[1:])} on a {im.bits}-bit {im.w}x{im.h} picture'

        def go(b):
            return getattr(B, args[0])(b, *args[1:])
        if o.get('stop'):
            dry = sim_of(sc)
            call(dry, go, bmp[:], at=-1)
            at, act = int(o['stop']['pos'] * max(1, dry.last.n)), act_of(sim, o['stop']['act'])
        got = call(sim, go, bmp, at=at, act=act)
        r.ops += 1
        r.note(how, got.kind, bytes(bmp))
        new = now(how)
        cut = bool(at is not None and sim.last.hit and not got.ok)
        if cut:
            sim.fault_counts['line:' + o['stop']['act']] += 1
        inside = {(x, y) for x, y in P.pixels(im.w, im.h)}
        want, alt = {}, None
        failing = False
        if o['k'] == 'newton':
            roots = []
            for y in range(P.y1, P.y2):
                for x in range(P.x1, P.x2):
                    z, c = newton(pair, P.point(x, y), n)
                    if z is None:
                        continue
                    k = next((i for i, q in enumerate(roots) if abs(q - z) < .01), None)
                    if k is None:
                        k = len(roots)
                        roots.append(z)
                    want[x, y] = X.tint((255 - c) * 20 % 256, fs[k]) if im.bits == 24 else \
                        (1 << im.bits) - 1 - c % (1 << im.bits)

            def alt(x, y):
                out = set()
                for e in X.NUDGE:
                    z, c = newton(pair, P.point(x, y), n, e)
                    if z is None:
                        out.add(im.px[y][x])
                    else:
                        for i, q in enumerate(roots):
                            if abs(q - z) < .02:
                                out.add(X.tint((255 - c) * 20 % 256, fs[i]) if im.bits == 24 else
                                        (1 << im.bits) - 1 - c % (1 << im.bits))
                return out
            if got.ok and (not isinstance(got.value, list) or len(got.value) != len(roots)
                           or any(abs(a - b) > .03 for a, b in zip(got.value, roots))):
                r.fail('roots', f'{how}: roots {got.value}, expected {roots}')
        else:
            for x, y in inside:
                try:
                    want[x, y] = X.shade(im.bits, X.count(o['fn'], X.live(par), P.point(x, y), n), fs)
                except (OverflowError, ZeroDivisionError, ValueError):
                    failing = True

            def alt(x, y):
                return X.allowed(o['fn'], X.live(par), P.point(x, y), n, im.bits, fs)
            if not inside or P.x1 < 0 or P.y1 < 0 or P.x2 > im.w or P.y2 > im.h:
                failing = failing or outside_fails(P, o['fn'], par, n)
        if not got.ok and not cut and not failing:
            r.fail('failed', f'{how} failed: {got}')
        bad = []
        for y in range(im.h):
            for x in range(im.w):
                v = new.px[y][x]
                w = want.get((x, y), im.px[y][x])
                if v == w or (cut or not got.ok) and v == im.px[y][x]:
                    continue
                if (x, y) in inside and v in alt(x, y):
                    r.tag('rounding')
                    continue
                bad.append((x, y, v, w))
        if bad:
            x, y, v, w = bad[0]
            r.fail(args[0], f'{how}{" (interrupted)" if cut else ""}: {len(bad)} pixels wrong, ({x},{y}) is {v:#x}, '
                   f'expected {w:#x}, was {im.px[y][x]:#x}, {"inside" if (x, y) in inside else "outside"} the region')
            raise Stop
        r.tag(got.kind)
        r.state(args[0], im.bits, len(fs) if o['k'] != 'newton' else 0,
                P.x1 >= 0 and P.y1 >= 0 and P.x2 <= im.w and P.y2 <= im.h, x1 > x2 or y1 > y2,
                (o.get('stop') or {}).get('act') if cut else None, got.kind)
        im = new
    r.absorb(sim)


def outside_fails(P, fn, par, n):
    for y in range(P.y1, P.y2):
        for x in range(P.x1, P.x2):
            try:
                X.count(fn, X.live(par), P.point(x, y), n)
            except (OverflowError, ZeroDivisionError, ValueError):
                return True
    return False


def iters(sim, r, F, g, o):
    """Several point iterators advanced alternately: each yields its own points in row order."""
    its = []
    for _ in range(g.randint(1, 3)):
        fn = g.choice(list(ITER))
        x1, y1 = g.randint(-3, 3), g.randint(-3, 3)
        x2, y2 = x1 + g.choice([-1, 1]) * g.randint(1, 5), y1 + g.choice([-1, 1]) * g.randint(1, 5)
        dom, par = X.domain(g, fn), X.params(g, fn)
        P = X.Plane(x1, y1, x2, y2, dom)
        n = min(o['n'], 30)
        # the tricorn and Mandelbrot rules take no parameter, Julia one
        it = getattr(F, ITER[fn])(x1, y1, x2, y2, *X.live(par), dom, n)
        todo = [(x, y) for y in range(P.y1, P.y2) for x in range(P.x1, P.x2)]
        its.append([fn, par, P, n, it, todo, f'{ITER[fn]}({x1},{y1},{x2},{y2},{par},{dom},{n})'])
    k = 0
    while its:
        q = g.choice(its)
        fn, par, P, n, it, todo, how = q
        got = call(sim, next, it, None)
        r.ops += 1
        k += 1
        if not got.ok:
            cs = X.counts(fn, X.live(par), P.point(*todo[0]), n) if todo else {0}
            if None not in cs:
                r.fail('iterator', f'{how} failed at {todo[:1]}: {got}')
            its.remove(q)
            continue
        if got.value is None:
            if todo:
                r.fail('iterator', f'{how} ended {len(todo)} points early')
            its.remove(q)
            continue
        if not todo:
            r.fail('iterator', f'{how} yields too much: {got.value}')
            raise Stop
        x, y = todo.pop(0)
        p = P.point(x, y)
        v = got.value
        if tuple(v[:2]) != (x, y):
            r.fail('iterator', f'{how} yields {v} where point {(x, y)} is due')
            raise Stop
        try:
            ok = v[2] == X.count(fn, X.live(par), p, n)
        except (OverflowError, ZeroDivisionError, ValueError):
            ok = False
        if not ok:
            cs = X.counts(fn, X.live(par), p, n)
            if not (v[2] in cs or any(c is not None and abs(c - v[2]) < 1e-6 for c in cs)
                    or v[2] >= X.FAR and any(c is not None and c >= X.FAR for c in cs)):
                r.fail('iterator', f'{how} yields {v} at {(x, y)}, expected {sorted(map(str, cs))}')
                raise Stop
        r.note(v[0], v[1])
    r.state('iter', k)
