"""C17: every picture file the library makes by itself is well formed and as requested."""
import cmath
import math

from .common import *
from .c18 import words
from .hist import act_of
from .. import core, draw, text
from .. import fractal as X

ID = 'C17'
QUICK, THOROUGH = 3000, 200000
TECH = 'sessions of picture-making calls with crash, interruption and storage-fault points, against models of size, palette and content'
NOTE = ('Sampled executions, not a proof. When the target already existed, a disturbed save may leave a strict '
        'beginning of the new picture (finding C04:torn-save), which must be refused by loads. Attractors are compared '
        'pixel by pixel for orbits of up to 25 points. The background of an 8-bit picture may be the palette entry '
        'of that number or the one nearest to that colour.')
RULE = ('one run = 1-3 picture-making calls (new pictures, 13 text savers, 33 fractal savers, Newton, 9 attractors, Hilbert '
        'curves, snowflakes) of random size, depth and parameters onto absent or existing targets, half of them '
        'disturbed once by a storage fault, Ctrl-C, MemoryError or crash; distinct = distinct event log; non-trivial = at '
        'least one call judged')
STATES = 'distinct (function, depth, width modulo 8, target existed, disturbance, outcome, what the file became)'


def scenario(rng, i, tier):
    ops = []
    for _ in range(rng.randint(1, 3)):
        k = rng.random()
        o = dict(k='new' if k < .12 else 'text' if k < .42 else 'fractal' if k < .68 else 'attractor' if k < .82
                 else 'hilbert' if k < .88 else 'koch' if k < .95 else 'newton', s=rng.getrandbits(32),
                 dst=rng.choice(['a.bmp', 'b.bmp', 'sub/a.bmp', './a.bmp', W + 'sub/b.bmp']))
        m = rng.random()
        if m < .3:
            o['faults'] = [iofault(rng)]
        elif m < .55:
            o['stop'] = dict(act=rng.choice(['int', 'mem', 'crash']), pos=round(rng.random() ** .3, 4))
        ops.append(o)
    if rng.random() < .002:
        return dict(world=dict(world(rng), bufsize=8192, max_io=0), old=None, ops=[dict(ops[0], k='new', huge=True)])
    return dict(world=world(rng), old=rng.choice([None, None, 'picture', 'text']), ops=ops)


def hilbert(n, box):
    """Centres of the 4**n cells in curve order: u a corner, v the two edge vectors."""
    out = []

    def go(u, a, b, n):
        if n <= 0:
            out.append((round(u[0] + (a[0] + b[0]) / 2), round(u[1] + (a[1] + b[1]) / 2)))
            return
        ha, hb = (a[0] / 2, a[1] / 2), (b[0] / 2, b[1] / 2)
        add = lambda *p: (sum(q[0] for q in p), sum(q[1] for q in p))
        go(u, hb, ha, n - 1)
        go(add(u, ha), ha, hb, n - 1)
        go(add(u, ha, hb), ha, hb, n - 1)
        go(add(u, ha, b), (-hb[0], -hb[1]), (-ha[0], -ha[1]), n - 1)
    go((0, 0), box[0], box[1], n)
    return out


def snowflake(c, r, angle, n):
    """Vertices, or None when rounding one of them is uncertain."""
    t = [complex(c, c) - r * complex(math.sin(math.radians(angle) + math.radians(a)),
                                     math.cos(math.radians(angle) + math.radians(a))) for a in (0, 120, 240)]
    if any(abs(abs(k % 1) - .5) < 1e-7 for z in t for k in (z.real, z.imag)):
        return None
    t = [complex(round(z.real), round(z.imag)) for z in t]
    out = []
    for u, v in ((t[0], t[1]), (t[1], t[2]), (t[2], t[0])):
        ps = [u, v]
        for _ in range(n):
            q = []
            for a, b in zip(ps, ps[1:]):
                d = (b - a) / 3
                q += [a, a + d, (a + b) / 2 + (b - a) * (3 ** .5 / 6) * 1j, b - d]
            ps = q + [v]
        out += ps
    if any(abs(abs(k % 1) - .5) < 1e-6 for z in out for k in (z.real, z.imag)):
        return None
    return [(z.real, z.imag) for z in out]


def plan(o, im=None):
    """(function name, arguments after the file, (w, h, bits), judge(picture) -> text or None)."""
    g = R(o['s'])
    bits = g.choice([1, 4, 8, 24])
    w, h = g.randint(1, 24), g.randint(1, 20)
    wide = g.random() < (.12 if o['k'] == 'new' else .02)
    if wide:                                   # beyond one byte; new ones also beyond two-byte rows and sizes
        w, h = g.choice([255, 256, 257, g.randint(258, 400)]), g.randint(1, 4)
        if o['k'] == 'new':
            w = g.choice([w, 1023, 1024, g.randint(1000, 9000), g.randint(9000, 45000), 65535, g.randint(65536, 80000)])
        if g.random() < .5:
            w, h = h, w
    if o.get('huge'):                          # beyond three bytes
        w, h, bits = (1 << 24) + g.randrange(3), 1, 1
    col = g.randint(1, min((1 << bits) - 1, 0xffffff))
    bg = g.choice([0, 0, g.randint(1, (1 << bits) - 1)])
    pal = None if bits == 24 else text.tables()['pal'][bits]

    def blank():
        return M.Img(bits, W_, H_, pal)

    def judged(drawing):
        def judge(got):
            def go(P):
                if bg > 0:
                    P.rect(0, 0, W_ - 1, H_ - 1, bg)
                drawing(P)
            bad, _ = text.match(text.variants(blank(), go), got)
            return bad
        return judge

    def on_palette(judge):
        def j(got):
            if got.pal != (None if pal is None else [tuple(c) for c in pal]):
                return 'not the default palette'
            return judge(got)
        return j
    if o['k'] == 'new':
        W_, H_ = w, h
        if g.random() < .5:
            return 'new', (w, h, bits), (w, h, bits), on_palette(
                lambda got: None if not any(map(any, got.px)) else 'a new picture is not blank')
        f = factors(g, bits)
        return 'newpal', (w, h, bits, f), (w, h, bits), lambda got: X.pal_wrong(got.pal, bits, f) or (
            None if not any(map(any, got.px)) else 'a new picture is not blank')
    if o['k'] == 'text':
        fn = g.choice(list(text.FILES))
        lay, order, kind, dots = text.FILES[fn]
        s, scale = words(g)[:5] * (9 if wide else 1), g.choice([1, 1, 1, 2, 2, 3])
        pix, space, font = g.choice([0, 0, 1]), g.choice([0, 0, 1, 3]), g.choice(text.FONTS)
        W_, H_ = text.filesize(lay, kind, s, scale, space, font)
        a = (s, scale, pix, space, col, ('font', font), bg, bits)
        if (bg, bits) == (0, 24) and g.random() < .5:
            a = a[:-2]
        return fn, a, (W_, H_, bits), on_palette(judged(
            lambda P: text.draw_text(P, lay, order, kind, dots, scale, scale, s, scale, pix, space, col, font)))
    if o['k'] == 'hilbert':
        W_, H_ = w, h = g.randint(2, 30), g.randint(2, 30)
        n, pen, ori = g.randint(0, 3), g.choice([1, 1, 2, 3, g.randint(4, 9)]), g.randrange(2)
        if g.random() < .08:
            W_, H_ = w, h = g.randint(60, 110), g.randint(60, 110)
        x, y = w - 1, h - 1
        # the curve starts along one side or the other
        box = ((0, x), (y, 0)) if ori == 1 else ((x, 0), (0, y))
        vs = hilbert(n, box)
        return 'savehilbertcurve2file', (w, h, n, bits, col, bg, pen, ori), (w, h, bits), on_palette(judged(
            lambda P: P.lines(vs, col, pen)))
    if o['k'] == 'koch':
        r, n, pen, ang = g.randint(1, 12), g.randint(0, 2), g.choice([1, 1, 2, 3, g.randint(4, 9)]), g.choice([0, 0, 30, 45.5, 100])
        if g.random() < .1:
            r, pen = g.randint(30, 45), min(pen, 3)
        W_ = H_ = 2 * r + 2 * pen + 2
        vs = snowflake(W_ - 1 >> 1, r, ang, n)

        def flake(P):
            if pen > 1:
                for u, v in list(zip(vs, vs[1:])) + [(vs[0], vs[-1])]:
                    P.thick([round(k) for k in u], [round(k) for k in v], pen, col)
            else:
                P.poly(vs, col)
        judge = judged(flake) if vs else lambda got: None
        return 'savekochsnowflake2file', (r, n, ang, bits, col, bg, pen), (W_, W_, bits), on_palette(judge)
    if o['k'] == 'attractor':
        k = g.choice(list(X.ORBIT))
        w, h, n = g.randint(2, 20), g.randint(2, 20), g.randint(3, 25)
        par = X.orbit_args(g, k)

        def judge(got):
            try:
                pts = X.ORBIT[k][0](*par, n)
            except (OverflowError, ZeroDivisionError):
                return 'made of an orbit that cannot be computed'
            if any(got.px == c for c in X.density(pts, w, h, bits)):
                return None
            return f'is not the density of the orbit: {got.px}'[:300]
        return f'save{k}attractor2file', (w, h, bits, *par, n), (w, h, bits), on_palette(judge)
    w, h, n = g.randint(1, 14), g.randint(1, 14), g.choice([2, 5, 14, 14, 255, 400])
    if g.random() < .1:                                 # a wide or a tall one
        w, h, n = g.randint(55, 140), g.randint(1, 3), min(n, 14)
        if g.random() < .5:
            w, h = h, w
    dom = X.domain(g, 'mandelbrot')
    if o['k'] == 'newton':
        from .c19 import POLY, newton
        bits, n, pair = 24, min(n, 30), g.randrange(len(POLY))
        fs = [factors(g, 24) for _ in range(12)]

        def judge(got):
            P, roots = X.Plane(0, 0, w, h, dom), []
            for x, y in P.pixels(w, h):
                z, c = newton(pair, P.point(x, y), n)
                want = 0
                if z is not None:
                    i = next((i for i, q in enumerate(roots) if abs(q - z) < .01), len(roots))
                    if i == len(roots):
                        roots.append(z)
                    want = X.tint((255 - c) * 20 % 256, fs[i])
                if got.px[y][x] != want:
                    alts = {newton(pair, P.point(x, y), n, e) for e in X.NUDGE}
                    if len({(z if z is None else round(z.real, 3), c) for z, c in alts}) == 1:
                        return f'pixel ({x},{y}) is {got.px[y][x]:#x}, expected {want:#x}'
            return None
        return 'savenewtonsfractal2file', (w, h, ('poly', pair), dom, fs, bits, n), (w, h, bits), judge
    fn = g.choice(list(X.SAVE))
    d = X.SAVE[fn]
    dom, par, fs = X.domain(g, d), X.params(g, d), factors(g, bits)

    def judge(got):
        bad = X.pal_wrong(got.pal, bits, fs)
        P = X.Plane(0, 0, w, h, dom)
        for x, y in P.pixels(w, h):
            if bad:
                break
            v, p = got.px[y][x], P.point(x, y)
            try:
                want = X.shade(bits, X.count(d, X.live(par), p, n), fs)
            except (OverflowError, ZeroDivisionError, ValueError):
                continue
            if v != want and v not in X.allowed(d, X.live(par), p, n, bits, fs):
                bad = f'pixel ({x},{y}) is {v:#x}, expected {want:#x}'
        return bad
    return fn, (w, h, *par, dom, fs, bits, n), (w, h, bits), judge


def factors(g, bits):
    if bits == 24 or g.random() < .6:
        return [round(g.random(), 3) for _ in range(3)]
    return [g.randrange(1 << 24) for _ in range(2)]


def live(a, F):
    from .c19 import POLY
    out = []
    for v in a:
        if isinstance(v, tuple) and v[0] == 'font':
            v = getattr(F, v[1])
        elif isinstance(v, tuple) and v[0] == 'poly':
            v = POLY[v[1]]
        elif isinstance(v, list) and len(v) == 2 and all(isinstance(k, float) for k in v):
            v = complex(*v)
        out.append(v)
    return out


def execute(sc, r):
    import importlib
    B = runner.B
    F = importlib.import_module('pythonbmp.fonts')
    files = {}
    if sc['old'] == 'picture':
        files = {W + 'a.bmp': bytes(mkb(dict(bits=4, w=9, h=5, s=1))), W + 'sub/b.bmp': bytes(mkb(dict(bits=24, w=3, h=9, s=2)))}
    elif sc['old']:
        files = {W + 'a.bmp': b'notes ' * 40, W + 'b.bmp': b''}
    files[W + 'keep.bmp'] = bytes(mkb(dict(bits=8, w=3, h=3, s=3)))

    def fresh():
        s = sim_of(sc)
        s.fs.dirs.add(W + 'sub')
        for k, v in files.items():
            s.fs.put(k, v)
        return s
    for o in sc['ops']:
        fn, a, (w, h, bits), judge = plan(o)
        args = live(a, F)
        dst = o['dst']
        sim = fresh()
        p = sim.fs.norm(dst)
        how = f'{fn}{short(a)} to {dst}'

        def go(s, **k):
            if fn == 'new':
                return call(s, lambda: B.saveBMP(dst, B.newBMP(*args)), **k)
            if fn == 'newpal':
                return call(s, lambda: B.saveBMP(dst, B.newBMPwithPAL(*args)), **k)
            return call(s, getattr(B, fn), dst, *args, **k)
        before = sim.fs.snapshot()
        old = before.get(p)
        got = go(sim, **(dict(at=-1) if o.get('stop') else {}))
        n = sim.last.n if o.get('stop') else 0
        counts = dict(sim.step_counts)
        new = sim.fs.get(p)
        r.ops += 1
        r.note(fn, got.kind, new)
        others_same(r, before, sim.fs.snapshot(), {p}, 'other-file', how)
        if sim.fs.open_handles:
            r.fail('leak', f'{how} left files open')
        if not got.ok:
            if not excused(o, a, fn):
                r.fail('failed', f'{how} failed: {got}')
            if new != old:
                r.fail('failed', f'{how} failed ({got}) and changed its target')
            r.tag('cannot be made')
        else:
            try:
                im = M.parse(new if new is not None else b'')
            except M.BadBMP as e:
                r.fail('malformed', f'{how} is no picture: {e}')
                raise Stop
            if (im.w, im.h, im.bits) != (w, h, bits):
                r.fail('size', f'{how} is {im.w}x{im.h} with {im.bits} bits, expected {w}x{h} with {bits}')
                raise Stop
            bad = judge(im)
            if bad:
                r.fail('content:' + o['k'], f'{how}: {bad}')
                raise Stop
            lg = call(sim, B.loadBMP, dst)
            if not loaded(lg) or bytes(lg.value) != new:
                r.fail('reload', f'{how} does not load back as it is')
        r.absorb(sim)
        r.state(fn, bits, w % 8, old is not None, None, got.kind, 'new')
        if o.get('faults') or o.get('stop'):
            sim = fresh()
            at = act = None
            if o.get('stop'):
                at, act = int(o['stop']['pos'] * max(1, n)), act_of(sim, o['stop']['act'])
            else:
                sim.arm(place(o['faults'], counts))
            g2 = go(sim, at=at, act=act)
            hard = hard_fired(sim.fired)
            if at is not None and sim.last.hit:
                hard.append(dict(k='line', do=o['stop']['act']))
                sim.fault_counts['line:' + o['stop']['act']] += 1
            sim.disarm()
            if g2.kind == 'crash':
                sim.restart()
            elif sim.fs.open_handles:
                r.fail('leak', f'{how}, disturbed by {hard}, left files open')
            others_same(r, before, sim.fs.snapshot(), {p} | sim.tampered, 'other-file', f'{how}, disturbed by {hard}')
            now = sim.fs.get(p)
            what = 'new' if now == new else 'old' if now == old else 'torn'
            if p not in sim.tampered:
                if g2.ok and what != 'new':
                    r.fail('ack', f'{how}, disturbed by {hard}, reported success and left {len(now or b"")} of '
                           f'{len(new or b"")} bytes')
                if not hard and (g2.kind != got.kind or what != 'new'):
                    r.fail('repeat', f'{how}: a second time gave {g2.kind} {what} after {got.kind}')
                if what == 'torn':
                    if now is None or new is None or not new.startswith(now):
                        r.fail('torn-other', f'{how}, disturbed by {hard}, left neither the old file, the picture '
                               'nor a beginning of it')
                    if loaded(call(sim, B.loadBMP, dst)):
                        r.fail('torn-loaded', f'{how}, disturbed by {hard}, left an incomplete picture that loads')
            r.ops += 1
            r.note(hard, g2.kind, now)
            r.tag(f'{what}:{g2.kind}')
            r.state(fn, bits, w % 8, old is not None, [(f['k'], f['do']) for f in hard], g2.kind, what)
            r.absorb(sim)
        # the undisturbed picture stays for the next call
        if new is not None:
            files[p] = new


def excused(o, a, fn):
    """Parameters for which no picture exists."""
    if o['k'] == 'attractor':
        k = fn[4:-len('attractor2file')]
        try:
            pts = X.ORBIT[k][0](*a[3:-1], a[-1])
        except (OverflowError, ZeroDivisionError):
            return True
        c = any(True for _ in X.density(pts, a[0], a[1], a[2]))
        return not c or flat(pts, a[0], a[1])
    if o['k'] == 'fractal':
        d = X.SAVE[fn]
        w, h = a[:2]
        par, dom, n = list(a[2:-4]), a[-4], a[-1]
        P = X.Plane(0, 0, w, h, dom)
        return any(None in X.counts(d, X.live(par), P.point(x, y), n) for x, y in P.pixels(w, h))
    return False


def flat(pts, w, h):
    """Does every cell of the orbit's grid hold equally many points?"""
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    sx, sy = (max(xs) - min(xs)) / (w - 1), (max(ys) - min(ys)) / (h - 1)
    for e in (0, -1e-9, 1e-9):
        c = {}
        for x, y in pts:
            k = int((x - min(xs)) / sx + e), int((y - min(ys)) / sy + e)
            c[k] = c.get(k, 0) + 1
        if len(c) == w * h and len(set(c.values())) == 1:
            return True
    return False
