"""C09: reading iterators stay exact while the image is drawn on."""
import functools

from .common import *
from .hist import act_of
from .. import draw, edits

ID = 'C09'
QUICK, THOROUGH = 12000, 400000
TECH = 'interleavings of several image walks with drawing calls, other walks, interruptions and abandoned walks'
NOTE = ('A delivered colour is accepted if the pixel held it at any time between the start of the walk and its '
        'delivery. Generators of shapes, fractals and glyphs are held to what they yield when consumed in one go.')
RULE = ('one run = one or two images (1/4/8/24 bit), 1-5 walks over them (pixel, colour, similar-colour, edge, '
        'region, scan-line, palette-cycle, shape, fractal and glyph iterators) advanced in a random interleaving '
        'with drawing calls, one-shot queries, Ctrl-C inside a step and abandonment; distinct = distinct event '
        'log; non-trivial = at least one walk advanced')
STATES = 'distinct (iterator, depth, drawn on meanwhile or not, walks open, progress in tenths, ending)'


def order(im):
    return [(x, y) for y in range(im.h - 1, -1, -1) for x in range(im.w)]


class Hist:
    """An image and everything it has held."""

    def __init__(self, spec):
        self.bmp = mkb(spec)
        self.all = [M.parse(bytes(self.bmp))]

    now = property(lambda s: s.all[-1])

    def refresh(self):
        self.all.append(M.parse(bytes(self.bmp)))

    def colors(self, x, y, since):
        im = self.now
        if not (0 <= x < im.w and 0 <= y < im.h):
            return {-1}
        return {h.px[y][x] for h in self.all[since:]}

    def rgbs(self, x, y, since):
        im = self.now
        if not (0 <= x < im.w and 0 <= y < im.h):
            return {()}
        cs = self.colors(x, y, since)
        if im.bits == 24:
            return {(c >> 16, c >> 8 & 255, c & 255) for c in cs}
        return {tuple(h.pal[c]) for h in self.all[since:] for c in cs}


def d2(a, b):
    return sum((p - q) ** 2 for p, q in zip(a, b))


def over(a, b, t):
    """Is the distance above t?  {True}, {False} or both when it is a tie."""
    d = d2(a, b)
    if t < 0:
        return {True}
    if t == int(t):                           # the root of a square is exact
        return {d > t * t}
    return {True, False} if abs(d - t * t) < 1e-6 * max(1, d) else {d > t * t}


def neighbors(x, y, w, h, centre):
    ps = [(x, y - 1)] + ([(x, y)] if centre else []) + [(x, y + 1)]
    ps += [(x - 1, y - 1), (x - 1, y), (x - 1, y + 1), (x + 1, y - 1), (x + 1, y), (x + 1, y + 1)]
    return [p for p in ps if 0 <= p[0] < w and 0 <= p[1] < h]


# walks: gen(rng, im) -> args; start(B, bmp, a) -> iterator;
# model(h, a, since) -> (n, f) with f(j) -> set of items position j may deliver, None = nothing
def m_rgb(h, a, since):
    o = order(h.now)
    return len(o), lambda j: {(o[j], c) for c in h.rgbs(*o[j], since)}


def m_color(h, a, since):
    o = order(h.now)
    return len(o), lambda j: {(o[j], c) for c in h.colors(*o[j], since)}


def m_similar(h, a, since):
    o = order(h.now)

    def f(j):
        out = set()
        for c in h.rgbs(*o[j], since):
            d = d2(a[0], c)
            e = 0 if a[1] == int(a[1]) else 1e-6
            if d < a[1] ** 2 + e and a[1] > 0:
                out.add(o[j])
            if d >= a[1] ** 2 - e or a[1] <= 0:
                out.add(None)
        return out
    return len(o), f


def m_edge(h, a, since):
    o = order(h.now)

    def f(j):
        out = set()
        for c in h.rgbs(*o[j], since):
            open_ = True
            for u in neighbors(*o[j], h.now.w, h.now.h, False):
                v = set()
                for k in h.rgbs(*u, since):
                    v |= over(k, c, a[0])
                if True in v:
                    out.add(u)
                if False not in v:
                    open_ = False
                    break
            if open_:
                out.add(None)
        return out
    return len(o), f


def m_region(h, a, since):
    x1, x2 = sorted((a[0], a[2]))
    y1, y2 = sorted((a[1], a[3]))
    o = [(x, y) for y in range(y1, y2 + 1) for x in range(x1, x2 + 1)]
    return len(o), lambda j: {(o[j], c) for c in h.colors(*o[j], since)}


class Row:
    """A delivered scan line: equal if every pixel of the area is one it held."""

    def __init__(self, h, x1, x2, y, since):
        self.v = h, x1, x2, y, since

    def accepts(self, buf):
        h, x1, x2, y, since = self.v
        b = h.now.bits
        if not isinstance(buf, array):
            return False
        buf = bytes(buf)
        n = 8 // b if b < 8 else 1
        x0 = x1 // n * n
        if b == 24:
            px = [buf[i] | buf[i + 1] << 8 | buf[i + 2] << 16 for i in range(0, len(buf) - 2, 3)]
        elif b == 8:
            px = list(buf)
        else:
            px = [v >> (8 - b * (k + 1)) & ((1 << b) - 1) for v in buf for k in range(n)]
        need = x2 - x1 + 1
        if len(buf) < need * b // 8 or b >= 8 and len(px) != need:
            return False
        return all(c in h.colors(x0 + i, y, since) for i, c in enumerate(px) if x0 + i < h.now.w)


def m_rows(h, a, since):
    x1, x2 = sorted((a[0], a[2]))
    y1, y2 = sorted((a[1], a[3]))
    return y2 - y1 + 1, lambda j: [Row(h, x1, x2, y2 - j, since)]


def reg(rng, im, out=False):
    m = 3 if out and rng.random() < .3 else 0
    return [rng.randint(-m, im.w - 1 + m), rng.randint(-m, im.h - 1 + m),
            rng.randint(-m, im.w - 1 + m), rng.randint(-m, im.h - 1 + m)]


def similar(rng, im):
    x, y = rng.randrange(im.w), rng.randrange(im.h)
    c = list(im.rgb(x, y)) if rng.random() < .7 else [rng.randrange(256) for _ in range(3)]
    return [c, rng.choice([0, 1, 20, 80, 200, 500, 33.3]) if rng.random() < .7 else edits.exactly(rng, im, c)]


WALKS = {
    'iterimageRGB': (lambda rng, im: [rng.choice(['', 'go']), rng.choice(['', '*']), rng.choice(['', 'end'])], m_rgb),
    'iterimagecolor': (lambda rng, im: [rng.choice(['', 'go']), rng.choice(['', '*']), rng.choice(['', 'end'])],
                       m_color),
    'iterimageregionvertbyRGB': (similar, m_similar),
    'iterimagedgevert': (lambda rng, im: [rng.choice([0, 5, 50, 120, 300, 75.5]) if rng.random() < .7 else edits.exactly(rng, im)], m_edge),
    'itergetcolorfromrectregion': (lambda rng, im: reg(rng, im, True), m_region),
    'itercopyrect': (lambda rng, im: reg(rng, im), m_rows),
}

PT = lambda rng: [rng.randint(-12, 25), rng.randint(-12, 25)]
FL = lambda rng: round(rng.uniform(.5, 9), 2)
PURE = {
    'itercirclepart': lambda g: [g.randint(0, 20)],
    'itercirclepartlineedge': lambda g: [g.randint(0, 20)],
    'itercirclepartvertlineedge': lambda g: [g.randint(0, 20)],
    'iterline': lambda g: [PT(g), PT(g)],
    'iterparallelogram': lambda g: [PT(g), PT(g), PT(g)],
    'iterellipsepart': lambda g: [g.randint(1, 15), g.randint(1, 15)],
    'iterellipse': lambda g: PT(g) + [g.randint(1, 15), g.randint(1, 15)],
    'iterellipserot': lambda g: PT(g) + [g.randint(1, 9), g.randint(1, 9), g.randint(0, 360)],
    'itercircle': lambda g: PT(g) + [g.randint(0, 20)],
    'iterbeziercurve': lambda g: [[PT(g) for _ in range(4)]],
    'iterbspline': lambda g: [[PT(g) for _ in range(g.randint(4, 6))], g.random() < .5, g.random() < .5],
    'iterspirograph': lambda g: PT(g) + [g.randint(3, 20), .6, .4, 5, 360],
    'iterlissajouscurve': lambda g: PT(g) + [g.randint(3, 20), g.randint(3, 20), 3, 2, 0, 7, 360],
    'itercircleinvolute': lambda g: PT(g) + [g.randint(1, 5), 10, 360],
    'iterepicycloid': lambda g: PT(g) + [g.randint(2, 9), g.randint(1, 5), 10, 360],
    'iterhypotrochoid': lambda g: PT(g) + [g.randint(2, 9), g.randint(1, 5), 2, 10, 360],
    'iterflower': lambda g: PT(g) + [g.randint(3, 20), g.randint(1, 6), g.randint(0, 90)],
    'iterdrawvec': lambda g: [PT(g), [40, 41], 3],
    'itersquircle': lambda g: PT(g) + [g.randint(2, 20)],
    'itersuperellipse': lambda g: PT(g) + [g.randint(2, 20), g.randint(2, 20), 2.5, 2.5],
    'itergearcurve': lambda g: PT(g) + [g.randint(5, 20), g.randint(2, 9), g.randint(3, 8)],
    'itercornuspiral': lambda g: PT(g) + [g.randint(3, 20)],
    'iterheartcurve': lambda g: PT(g) + [g.randint(1, 5)],
    'itereggcurve': lambda g: PT(g) + [g.randint(5, 20), g.randint(3, 4)],
}


def frac(extra):
    return lambda g: [0, 0, g.randint(2, 7), g.randint(2, 7)] + extra(g) + [
        [-2.0, g.choice([1.0, 2.0]), -1.5, 1.5], g.randint(2, 12)]


NO, DD, CC = (lambda g: []), (lambda g: [g.choice([2, 3, 4])]), \
    (lambda g: [[round(g.uniform(-1, 1), 2), round(g.uniform(-1, 1), 2)]])
CD = lambda g: CC(g) + DD(g)
FRACT = {}
for n in 'mandelbrot tricorn'.split():
    FRACT['iter' + n] = frac(NO)
for n in ('multibrot multicircle multihyperbola multisuperellipse astroid lemniscate tetration multicorn '
          'marekdragon xorfractal xordivfractal').split():
    FRACT['iter' + n] = frac(DD)
for n in 'julia sinjulia cosjulia spiraljulia lamdbafractal barnsleytree'.split():
    FRACT['iter' + n] = frac(CC)
for n in ('multijulia multibiomorphvariant multibiomorph multibiomorphphasevariant multisinbiomorph '
          'multicosbiomorph multicoshbiomorph multisinhbiomorph multitanbiomorph multitanhbiomorph '
          'multiexpbiomorph multi2ndtetrationbiomorph multizconjugatebiomorph').split():
    FRACT['iter' + n] = frac(CD)
CAP = 400
NAMES = list(WALKS) * 6 + list(PURE) + list(FRACT) + ['itercolorcycle'] * 4 + ['glyph', 'letters', 'bits']


def scenario(rng, i, tier):
    d = rng.choice([5, 6, 10, 14])
    n = rng.choice([1, 1, 2])
    imgs = [imgspec(rng, maxdim=d) for _ in range(n)]
    kinds = [rng.choice(NAMES) for _ in range(rng.randint(1, 4))]
    ops, m = [], 0
    quiet = rng.random() < .25                   # nothing is drawn
    for _ in range(rng.randint(2, 30 if tier == 'quick' else 60)):
        k = rng.random()
        if m == 0 or k < .15 and m < 5:
            ops.append(dict(k='open', w=rng.choice(kinds), im=rng.randrange(n), s=rng.getrandbits(32)))
            m += 1
        elif k < .62:
            ops.append(dict(k='step', t=rng.randrange(m), n=rng.choice([1, 1, 2, 3, 7, 20, 60, 999])))
        elif k < .84:
            if not quiet:
                ops.append(dict(k='draw', im=rng.randrange(n), op=rng.choice(DRAW), s=rng.getrandbits(32)))
        elif k < .94:
            ops.append(dict(k='query', im=rng.randrange(n), s=rng.getrandbits(32)))
        elif k < .97:
            ops.append(dict(k='drop', t=rng.randrange(m)))
        else:
            ops.append(dict(k='stop', t=rng.randrange(m), pos=rng.randrange(40), act=rng.choice(['int', 'mem'])))
    for t in range(m):
        if rng.random() < .5:
            ops.append(dict(k='step', t=t, n=9999))
    return dict(world=world(rng), imgs=imgs, ops=ops)


DRAW = [n for n in draw.OPS]


class Walk:
    pass


def norm(v):
    if isinstance(v, array):
        return v
    if isinstance(v, (list, tuple)):
        return tuple(norm(k) for k in v)
    return v


def execute(sc, r):
    B = runner.B
    import importlib
    prim = importlib.import_module('pythonbmp.primitives2D')
    fract = importlib.import_module('pythonbmp.fractals')
    fonts = importlib.import_module('pythonbmp.fonts')
    chars = importlib.import_module('pythonbmp.chartools')
    math_ = importlib.import_module('pythonbmp.mathlib')
    sim = sim_of(sc)
    hs = [Hist(s) for s in sc['imgs']]
    ws = []

    def image_kept(h, what):
        if bytes(h.bmp) != h.raw:
            r.fail('altered', f'{what} altered the image it reads')
    for h in hs:
        h.raw = bytes(h.bmp)

    def open_(o):
        w = Walk()
        w.name, w.h = o['w'], hs[o['im'] % len(hs)]
        g = R(o['s'])
        w.dead, w.n, w.drawn, w.since = False, 0, False, None
        w.ref = w.at = None
        w.kept = []
        nm = w.name
        if nm in WALKS:
            w.a = o['args'] if 'args' in o else WALKS[nm][0](g, w.h.now)
            mk_ = lambda: getattr(B, nm)(w.h.bmp, *w.a)
        elif nm == 'itercolorcycle':
            w.a = []
            if w.h.now.bits not in (4, 8) or any(v.h is w.h and v.name == nm and not v.dead for v in ws):
                w.dead = True
                return w
            mk_ = lambda: B.itercolorcycle(w.h.bmp)
        else:
            if nm in PURE:
                w.a = PURE[nm](g)
                mk_ = lambda: getattr(prim, nm)(*w.a)
            elif nm in FRACT:
                w.a = FRACT[nm](g)
                b = [complex(*v) if isinstance(v, list) and len(v) == 2 else v for v in w.a]
                mk_ = lambda: getattr(fract, nm)(*b)
            elif nm == 'glyph':
                f = g.choice(['font8x8', 'font8x14'])
                w.a = [f, chr(g.randint(32, 126))]
                mk_ = lambda: fonts.itergetcharfromfontbuf(getattr(fonts, f), w.a[1])
            elif nm == 'letters':
                w.a = [''.join(chr(g.randint(32, 126)) for _ in range(g.randint(0, 9)))]
                mk_ = lambda: g.choice([chars.enumletters, chars.enumreverseletters])(w.a[0])
                w.state = g.getstate()
                mk0 = mk_
                mk_ = lambda: (g.setstate(w.state), mk0())[1]
            else:
                w.a = [g.randrange(256)]
                mk_ = lambda: math_.enumbits(w.a[0])

            def whole():
                out = []
                it = mk_()
                try:
                    for v in it:
                        out.append(norm(v))
                        if len(out) >= CAP:
                            return out
                except Exception as e:
                    out.append(('failed', type(e).__name__))
                return out
            got = call(sim, whole)
            if not got.ok:
                raise RuntimeError(got)
            w.ref = got.value
        got = call(sim, mk_)
        if not got.ok:
            r.fail(nm, f'{nm}{tuple(w.a)} failed to start: {got}')
        w.it = got.value
        if nm in WALKS and w.it is None and len(w.a) == 4 and not all(
                0 <= w.a[k] < (w.h.now.h if k & 1 else w.h.now.w) for k in range(4)):
            w.dead = True                      # a region that is not in the image is refused
            return w
        if nm in WALKS:
            w.states = {0}
        return w

    END = object()

    def nxt(w):
        try:
            v = next(w.it)
        except StopIteration:
            return END
        u = norm(v)
        if w.name != 'itercolorcycle' and not isinstance(v, (int, str)):
            w.kept = w.kept[-12:] + [(v, u if not isinstance(u, array) else u[:])]
        return u

    def kept(w):
        """What a walk handed out stays as it was."""
        for v, u in w.kept:
            if norm(v) != u:
                r.fail(w.name, f'{what(w)}: an item delivered earlier changed from {str(u)[:60]} to {str(norm(v))[:60]}')

    def what(w):
        return (f'{w.name}{tuple(w.a)} on a {w.h.now.bits}-bit {w.h.now.w}x{w.h.now.h} image, item {w.n}'
                + (', drawn on meanwhile' if w.drawn else ''))

    def step(w, n):
        for _ in range(n):
            if w.dead:
                return
            if w.since is None:
                w.since = len(w.h.all) - 1
            if w.name in WALKS and len(w.h.all) - w.since > (8 if w.name == 'iterimagedgevert' else 60):
                w.dead = True                  # too much has changed since for a sharp verdict
                call(sim, w.it.close)
                return
            got = call(sim, nxt, w)
            r.ops += 1
            if w.ref is not None:
                if w.n >= CAP:
                    w.dead = True
                    return
                if not got.ok:
                    v = ('failed', type(got.value).__name__)
                    w.dead = True
                else:
                    v = got.value
                want = w.ref[w.n] if w.n < len(w.ref) else END
                if v is END:
                    w.dead = True
                if v != want:
                    r.fail(w.name, f'{what(w)} is {"the end" if v is END else v}, alone it is '
                           f'{"the end" if want is END else want}')
                w.n += 1
                ending(w)
                continue
            if not got.ok:
                r.fail(w.name, f'{what(w)} failed: {got}')
            v = got.value
            if w.name == 'itercolorcycle':
                cycle(w, v)
                continue
            image_kept(w.h, what(w))
            if w.at != len(w.h.all):
                w.at = len(w.h.all)
                w.size, g = WALKS[w.name][1](w.h, w.a, w.since)
                w.f = functools.cache(g)
            size, f = w.size, w.f
            if v is END:
                w.dead = True
                ok = any(all(None in f(j) for j in range(i, size)) for i in w.states)
                if not ok:
                    r.fail(w.name, f'{what(w)}: the walk ended before it had delivered everything')
                ending(w)
                return
            new = set()
            for i in w.states:
                for j in range(i, size):
                    o = f(j)
                    if isinstance(o, list):
                        if o[0].accepts(v):
                            new.add(j + 1)
                        break
                    if v in o:
                        new.add(j + 1)
                    if None not in o:
                        break
            if not new:
                lim = f(min(min(w.states), size - 1))
                r.fail(w.name, f'{what(w)} is {str(v)[:90]}, expected '
                       + ('the end' if min(w.states) >= size else
                          'the next scan line' if isinstance(lim, list) else str(sorted(lim, key=str)[:3])))
            w.states = new
            w.n += 1
            r.note(w.name, w.n, v if not isinstance(v, array) else bytes(v))
            if w.n % 16 == 0:
                ending(w)

    def ending(w):
        r.state(w.name, w.h.now.bits, w.drawn, sum(not v.dead for v in ws), min(w.n // 10, 9), w.dead)

    def cycle(w, v):
        m = 1 << w.h.now.bits
        if v is END:
            w.dead = True
            if w.n != m:
                r.fail(w.name, f'{what(w)}: {w.n} palettes instead of {m}')
            return
        if w.n >= m:
            r.fail(w.name, f'{what(w)}: more than {m} palettes')
        if bytes(v) != bytes(w.h.bmp):
            r.fail(w.name, f'{what(w)} is not the image')
        w.h.raw = bytes(w.h.bmp)
        try:
            w.h.refresh()
        except M.BadBMP as e:
            r.fail(w.name, f'{what(w)} damaged the image: {e}')
        a, b = w.h.all[-2:]
        if a.px != b.px:
            r.fail(w.name, f'{what(w)} changed pixels')
        if b.pal != (a.pal[1:] + a.pal[:1] if w.n else a.pal):
            r.fail(w.name, f'{what(w)}: the palette is not the one before rotated by one')
        w.n += 1
        mark(w.h, w)
        ending(w)

    def mark(h, me=None):
        for v in ws:
            if v.h is h and v is not me and v.since is not None:
                v.drawn = True

    for o in sc['ops']:
        for w in ws:
            kept(w)
        if o['k'] == 'open':
            w = open_(o)
            w.h = hs[o['im'] % len(hs)]
            ws.append(w)
        elif o['k'] == 'draw':
            h = hs[o['im'] % len(hs)]
            q = draw.OPS[o['op']]
            a = q.gen(R(o['s']), h.now)
            if a is None:
                continue
            call(sim, q.run, B, h.bmp, a)
            try:
                h.refresh()
            except M.BadBMP:
                raise Stop                       # C07 reports this
            h.raw = bytes(h.bmp)
            mark(h)
        elif o['k'] == 'query':
            query(r, sim, B, prim, hs[o['im'] % len(hs)], R(o['s']))
            image_kept(hs[o['im'] % len(hs)], 'a query')
        elif not ws:
            continue
        elif o['k'] == 'step':
            step(ws[o['t'] % len(ws)], o['n'])
        elif o['k'] == 'drop':
            w = ws[o['t'] % len(ws)]
            if not w.dead:
                w.dead = True
                call(sim, w.it.close)
                image_kept(w.h, f'abandoning {w.name}')
        elif o['k'] == 'stop':
            w = ws[o['t'] % len(ws)]
            if w.dead:
                continue
            g = call(sim, nxt, w, at=o['pos'], act=act_of(sim, o['act']))
            hit = sim.last.hit
            sim.fault_counts['line:' + o['act']] += hit
            w.dead = True
            call(sim, w.it.close)
            if w.name != 'itercolorcycle':
                image_kept(w.h, f'interrupting {w.name}')
            else:
                try:
                    w.h.refresh()
                except M.BadBMP:
                    raise Stop
                if w.h.all[-1].px != w.h.all[-2].px:
                    r.fail(w.name, f'{what(w)}, interrupted, changed pixels')
                w.h.raw = bytes(w.h.bmp)
                mark(w.h)
    for w in ws:
        kept(w)
    r.absorb(sim)


def query(r, sim, B, prim, h, g):
    """One-shot readers against the current picture."""
    im = h.now
    since = len(h.all) - 1
    k = g.randrange(4)
    r.ops += 1
    if k == 0:
        v = [g.randrange(im.w), g.randrange(im.h)]
        got = call(sim, B.getneighborcolorlist, h.bmp, v)
        want = [im.rgb(*u) for u in neighbors(*v, im.w, im.h, True)]
        if not got.ok or [tuple(c) for c in got.value] != [tuple(c) for c in want]:
            r.fail('getneighborcolorlist', f'getneighborcolorlist at {v} of a {im.bits}-bit {im.w}x{im.h} image: '
                   f'{got}, expected {want}')
        return
    if k == 1:
        v = [g.randint(0, im.w - 1), g.randint(0, im.h - 1)]
        c = g.random() < .5
        got = call(sim, prim.getneighborlist, v, im.w, im.h, c)
        want = neighbors(*v, im.w, im.h, c)
        if not got.ok or [tuple(u) for u in got.value] != want:
            r.fail('getneighborlist', f'getneighborlist({v}, {im.w}, {im.h}, {c}): {got}, expected {want}')
        return
    if k == 2:
        nm, a, m = 'getimageregionbyRGB', similar(g, im), m_similar
    else:
        nm, a, m = 'getimagedgevert', [g.choice([0, 5, 50, 120, 300]) if g.random() < .7 else edits.exactly(g, im)], m_edge
    got = call(sim, getattr(B, nm), h.bmp, *a)
    how = f'{nm}{tuple(a)} on a {im.bits}-bit {im.w}x{im.h} image'
    if not got.ok:
        r.fail(nm, f'{how} failed: {got}')
    size, f = m(h, a, since)
    want, tie = [], False
    for j in range(size):
        o = f(j)
        tie |= len(o) > 1
        want += [p for p in o if p is not None]
    if not tie and [tuple(p) for p in got.value] != want:
        r.fail(nm, f'{how} gives {len(got.value)} positions {got.value[:4]}, expected {len(want)} {want[:4]}')
    r.note(nm, got.value)
