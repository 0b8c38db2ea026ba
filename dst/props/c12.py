"""C12: randomised drawing is sound for every outcome of the random source."""
import importlib

from .common import *
from .hist import act_of
from .. import core

ID = 'C12'
QUICK, THOROUGH = 6000, 200000
TECH = 'seeded random sources (uniform, extreme, edge, sticky) behind the random seam, interleaved consumers and interrupts, against a model fed with the same numbers'
NOTE = ('Sampled executions, not a proof. The model applies the transform the delivered random number selects; points '
        'exactly on the border of the area may be delivered or not. Fern drawings (100000 steps each) are a small '
        'part of the runs.')
RULE = ('one run = random drawing calls on one image, or several point generators advanced alternately, or random '
        'colour and vector helpers, under one random source of a chosen character; distinct = distinct event log; '
        'non-trivial = at least one random number was drawn')
STATES = 'distinct (call, depth, character of the random source, kind of parameters, outcome class)'
MODES = ['uniform', 'uniform', 'lo', 'hi', 'edge', 'edge', 'sticky']
NAMED = ['fern', 'tree', 'cantortree', 'sierpinskitriangle']
LIBS = {}


def transforms(g):
    """A set of four maps and three cumulative probabilities."""
    q = lambda a: round(g.uniform(-a, a), 2)
    p = sorted(round(g.random(), 3) for _ in range(3))
    if g.random() < .3:
        p = g.choice([[0, 0, 0], [1, 1, 1], [0, .5, .5], [.25, .5, .75]])
    return [[[q(.8), q(.4), q(.4), q(.8), q(2), q(2)] for _ in range(4)], p + [1]]


def ifsargs(g, w, h):
    x = sorted([g.randint(-2, w + 2), g.randint(-2, w + 2)])
    y = sorted([g.randint(-2, h + 2), g.randint(-2, h + 2)])
    if g.random() < .3:
        x.reverse()
    if g.random() < .3:
        y.reverse()
    return [g.choice(NAMED) if g.random() < .7 else transforms(g), x[0], y[0], x[1], y[1],
            g.randint(1, 9), g.randint(1, 9), g.randint(-3, 12), g.randint(-6, 6)]


def scenario(rng, i, tier):
    w = dict(world(rng), rmode=rng.choice(MODES))
    kind = rng.choices(['walks', 'draw', 'colour', 'vector', 'fern', 'onebit'], [30, 40, 15, 15, 1, 8])[0]
    ops = []
    for _ in range(1 if kind == 'fern' else rng.randint(1, 8)):
        ops.append(dict(k=rng.random(), s=rng.getrandbits(32), t=rng.randrange(3), n=rng.choice([1, 1, 2, 5, 30]),
                        stop=rng.choice([None] * 5 + ['int', 'mem']), pos=int(10 ** rng.uniform(0, 3))))
    return dict(world=w, kind=kind, img=imgspec(rng, maxdim=rng.choice([4, 10, 24])), ops=ops)


def near_int(v, got):
    """Is got the whole part of v, allowing for the last bit of rounding?"""
    return got in (int(v), int(v + 1e-9), int(v - 1e-9))


class Chaos:
    """The chaos game, fed with the numbers the simulated source handed out."""

    def __init__(self, a):
        af, p = a[0]
        self.af, self.p = af, p
        self.x1, self.x2 = sorted([a[1], a[3]])
        self.y1, self.y2 = sorted([a[2], a[4]])
        self.xs, self.ys, self.xo, self.yo = a[5:9]
        self.x, self.y = self.x1, self.y1

    def step(self, u):
        """Position of the next point as real numbers."""
        j = next((k for k in range(3) if u < self.p[k]), 3)
        a, b, c, d, e, f = self.af[j]
        self.x, self.y = a * self.x + b * self.y + e, c * self.x + d * self.y + f
        return (self.x * self.xs + self.xo + self.x1,
                self.y2 - self.y1 - self.y * self.ys + self.yo + self.y1)

    def inside(self, v):
        """True, False, or None on the border (free)."""
        c = [(int(a), int(b)) for a in (v[0] - 1e-9, v[0] + 1e-9) for b in (v[1] - 1e-9, v[1] + 1e-9)]
        st = {self.x1 < x < self.x2 and self.y1 < y < self.y2 for x, y in c}
        if st == {True}:
            return True
        if any(self.x1 <= x <= self.x2 and self.y1 <= y <= self.y2 for x, y in c):
            return None
        return False


def explain(chaos, nums, pts):
    """None when pts is what the numbers select, else what is wrong."""
    ks = {0}                                   # how many of pts may be accounted for so far
    for n, u in enumerate(nums):
        v = chaos.step(u)
        i = chaos.inside(v)
        new = set()
        for k in ks:
            if not i:
                new.add(k)
            if i is not False and k < len(pts) and near_int(v[0], pts[k][0]) and near_int(v[1], pts[k][1]):
                new.add(k + 1)
        if not new:
            k = min(ks)
            return f'step {n} leads to {v}, ' + (f'delivered {pts[k]}' if k < len(pts) else 'not delivered')
        ks = new
    return None if len(pts) in ks else f'{pts[max(ks)]} is not a point the random numbers lead to'


def params(fract, v):
    return fract.getIFSparams()[v] if isinstance(v, str) else [[tuple(k) for k in v[0]], tuple(v[1])]


def execute(sc, r):
    B = runner.B
    for n in ('fractals', 'colors', 'mathlib'):
        LIBS[n] = importlib.import_module('pythonbmp.' + n)
    sim = sim_of(sc)
    sim.rng.rec = []
    {'walks': walks, 'draw': drawing, 'colour': colour, 'vector': vector, 'fern': fern, 'onebit': onebit}[sc['kind']](sc, r, B, sim)
    r.ops += min(sim.rng.draws, 10 ** 6)
    r.absorb(sim)


def walks(sc, r, B, sim):
    F = LIBS['fractals']
    im = mk(sc['img'])
    ws = []
    for o in sc['ops'] * 3:
        g = R(o['s'])
        if len(ws) < 3 and (o['k'] < .5 or not ws):
            a = ifsargs(g, im.w + 8, im.h + 8)
            a[0] = params(F, a[0])
            n = g.choice([0, 1, 10, 60])
            got = call(sim, F.iterIFS, *a, n)
            if not got.ok:
                r.fail('iterIFS', f'iterIFS{tuple(a)} does not start: {got}')
            ws.append([got.value, Chaos(a), a, n, 0, False])
            continue
        w = ws[o['t'] % len(ws)]
        for _ in range(o['n']):
            if w[5]:
                break
            n0 = len(sim.rng.rec)
            got = call(sim, next, w[0], None)
            if not got.ok:
                r.fail('iterIFS', f'iterIFS{tuple(w[2])} failed: {got}')
            nums = sim.rng.rec[n0:]
            w[4] += len(nums)
            v = got.value
            w[5] = v is None
            r.note(v)
            bad = explain(w[1], nums, [v] if v else [])
            if bad is None and w[4] > w[3]:
                bad = f'more than {w[3]} steps'
            if bad is None and v is None and w[4] != w[3]:
                bad = f'{w[4]} steps instead of {w[3]}'
            if bad:
                r.fail('iterIFS', f'iterIFS{tuple(w[2])} after {w[4]} steps: {bad}')
            r.state('iter', sc['world']['rmode'], w[5], bool(v), min(w[4] // 8, 7), len(ws))


def color_of(g, bits):
    return g.randrange(1, 1 << (bits if bits < 24 else 24))


def picture(r, key, how, im, bmp, head, may, must, c):
    """Only points of `may` changed, all to colour c; all of `must` have it."""
    try:
        got = M.parse(bytes(bmp))
    except M.BadBMP as e:
        r.fail(key, f'{how} damaged the header or length: {e}')
    if bytes(bmp[:54]) != head or got.pal != im.pal:
        r.fail(key, f'{how} changed the header or palette')
    for y in range(im.h):
        for x in range(im.w):
            a, b = im.px[y][x], got.px[y][x]
            if (x, y) in must:
                if b != c:
                    r.fail(key, f'{how}: ({x},{y}) is {b:#x}, not the colour given')
            elif a != b and ((x, y) not in may or b != c):
                r.fail(key, f'{how}: ({x},{y}) became {b:#x}, ' + ('not the colour given' if (x, y) in may else
                       'no point of the fractal'))
    return got


def points(chaos, nums):
    """(points that must be plotted, points that may be)."""
    must, may = set(), set()
    for u in nums:
        v = chaos.step(u)
        i = chaos.inside(v)
        c = {(int(a), int(b)) for a in (v[0] - 1e-9, v[0] + 1e-9) for b in (v[1] - 1e-9, v[1] + 1e-9)}
        if i and len(c) == 1:
            must |= c
        if i is not False:
            may |= c
    return must, may | must


def drawing(sc, r, B, sim):
    F = LIBS['fractals']
    im = mk(sc['img'])
    bmp = mkb(sc['img'])
    head = bytes(bmp[:54])
    for o in sc['ops']:
        g = R(o['s'])
        a = ifsargs(g, im.w, im.h)
        a[0] = params(F, a[0])
        c = color_of(g, im.bits)
        n = g.choice([0, 1, 5, 50, 200])
        how = f'IFS{tuple(a)} of {n} steps on a {im.bits}-bit {im.w}x{im.h} image'
        state = sim.rng.base.getstate(), dict(vars(sim.rng))
        keep = bmp[:]
        n0 = len(sim.rng.rec)
        got = call(sim, B.IFS, bmp, *a, c, n, at=o['pos'] if o['stop'] else None,
                   act=act_of(sim, o['stop']) if o['stop'] else None)
        nums = sim.rng.rec[n0:]
        cut = o['stop'] and sim.last.hit
        if not got.ok and not cut:
            r.fail('IFS', f'{how} failed: {got}')
        if not cut and len(nums) != n:
            r.fail('IFS', f'{how} made {len(nums)} steps')
        must, may = points(Chaos(a), nums)
        if cut:
            sim.fault_counts['line:' + o['stop']] += 1
            must = set()
        im2 = picture(r, 'IFS', how, im, bmp, head, may, must, c)
        r.state('IFS', im.bits, sc['world']['rmode'], bool(cut), im2 == im, len(may) > 3)
        if not cut and g.random() < .4:
            # the same numbers again give the same picture
            sim.rng.base.setstate(state[0])
            sim.rng.__dict__.update({k: v for k, v in state[1].items() if k not in ('base', 'rec')})
            if '_st' not in state[1]:
                vars(sim.rng).pop('_st', None)
            if '_hi' not in state[1]:
                vars(sim.rng).pop('_hi', None)
            call(sim, B.IFS, keep, *a, c, n)
            if keep != bmp:
                r.fail('IFS', f'{how}: equal random numbers, another picture')
        im = im2
        r.note(bytes(bmp))


def colour(sc, r, B, sim):
    C = LIBS['colors']
    for k, o in enumerate(sc['ops'] * 6):
        g = R(o['s'] + k)
        rgb = [g.choice([0, 127, 128, 129, 255, g.randrange(256), g.randrange(256)]) for _ in range(3)]
        if g.random() < .2:
            rgb = g.choice([[0, 0, 0], [255, 255, 255]])
        if g.random() < .5:
            br = g.choice([0, 1, 1, 2, 3])
            got = call(sim, C.probplotRGBto1bit, rgb, br)
            top = br * sum(rgb) / 768
            how = f'probplotRGBto1bit({rgb}, {br})'
            if not got.ok or not 0 <= got.value <= round(top) or sc['world']['rmode'] == 'lo' and got.value:
                r.fail('probplotRGBto1bit', f'{how} gives {got}, at most {round(top)} is possible')
            r.state('1bit', br, got.value, sum(rgb) // 200, sc['world']['rmode'])
        else:
            got = call(sim, C.probplotRGBto4bitpal, rgb)
            how = f'probplotRGBto4bitpal({rgb})'
            v = got.value if got.ok else -1
            can = sum(b for b, c in zip((4, 2, 1), rgb) if round(c / 256) == 1)
            light = 8 if max(rgb) >= 128 else 0
            if not got.ok or not 0 <= v < 16 or v & 7 & ~can or v & 8 != light:
                r.fail('probplotRGBto4bitpal', f'{how} gives {got}: a colour part it does not have, or the wrong '
                       f'intensity')
            r.state('4bit', v, can, sc['world']['rmode'])
        r.note(got.value)


def onebit(sc, r, B, sim):
    """A 24-bit picture file reduced to black and white points, the brighter the more white."""
    g = R(sc['img']['s'])
    im = mk(dict(sc['img'], bits=24))
    flat = g.random() < .6
    if flat:                                     # one colour: the share of white can be told
        c = g.choice([0, 0x000001, 0x4040ff, 0xffffff, 0x808080, 0xc1, 0xc0, 0xc2, 0xff8040, g.randrange(1 << 24)])
        im = M.Img(24, g.randint(1, 30), g.randint(1, 30), [], None)
        im.px = [[c] * im.w for _ in range(im.h)]
    data = M.build(im)
    how = f'a {im.w}x{im.h} picture' + (f' of colour {c:#x}' if flat else '') + f' reduced to one bit, random source {sc["world"]["rmode"]}'
    par = [g.choice([0, 8, 50]), g.random() < .3, None]
    seen = []
    for k in (0, 1):
        sim.fs.put('in.bmp', data)
        sim.rng = core.SimRandom(sc['world']['rand'], sc['world']['rmode'])
        got = call(sim, B.reduce24bitimagebits, 'in.bmp', 'out.bmp', 1, *par)
        try:
            out = M.parse(sim.fs.get('out.bmp') or b'')
        except M.BadBMP as e:
            r.fail('onebit', f'{how}: {got}, no picture ({e})')
        if (out.bits, out.w, out.h) != (1, im.w, im.h) or sim.fs.get('in.bmp') != data:
            r.fail('onebit', f'{how}: a {out.bits}-bit {out.w}x{out.h} picture, or the source altered')
        if [tuple(p) for p in out.pal] != [(0, 0, 0), (255, 255, 255)]:
            r.fail('onebit', f'{how}: palette {out.pal}')
        seen.append(sim.fs.get('out.bmp'))
    if seen[0] != seen[1]:
        r.fail('onebit', f'{how}: equal random numbers, another picture')
    for y in range(im.h):
        for x in range(im.w):
            v = im.px[y][x]
            top = 2 * sum((v >> 16, v >> 8 & 255, v & 255)) / 768
            if out.px[y][x] and (round(top) < 1 or sc['world']['rmode'] == 'lo'):
                r.fail('onebit', f'{how}: ({x},{y}) of colour {v:#x} became white')
    if flat and sc['world']['rmode'] == 'uniform':
        s = sum((c >> 16, c >> 8 & 255, c & 255))
        p = sum(round(2 * u / 768) > 0 for u in range(s + 1)) / (s + 1)
        n, k = im.w * im.h, sum(map(sum, out.px))
        if abs(k - n * p) > 7 * (n * p * (1 - p)) ** .5 + 1e-9:
            r.fail('onebit', f'{how}: {k} of {n} points are white, {p:.3f} of them should be')
        r.state('onebit', s // 40, n // 100)
    r.state('onebit', flat, sc['world']['rmode'], k)
    r.note(seen)


def vector(sc, r, B, sim):
    L = LIBS['mathlib']
    for k, o in enumerate(sc['ops'] * 4):
        g = R(o['s'] + k)
        lo = g.randint(-9, 9)
        hi = lo + g.choice([0, 0, 1, 2, 9, -1, 10 ** 9])
        if g.random() < .5:
            got = call(sim, L.randomvect, lo, hi)
            base = [[0, 0, 0]]
            out = [got.value] if got.ok else None
            how = f'randomvect({lo}, {hi})'
        else:
            base = [[g.choice([g.randint(-9, 9), round(g.uniform(-9, 9), 2)]) for _ in range(3)]
                    for _ in range(g.randint(0, 4))]
            if base and g.random() < .4:                 # the same vertex again
                base.append(base[0][:] if g.random() < .7 else base[0])
            keep = [v[:] for v in base]
            got = call(sim, L.addrndtovert, base, lo, hi)
            out = got.value if got.ok else None
            how = f'addrndtovert({keep}, {lo}, {hi})'
            if base != keep:
                r.fail('addrndtovert', f'{how} modified its argument')
        if hi < lo:
            if got.ok and base:
                r.fail('vector', f'{how}: an empty range was accepted: {out}')
            continue
        if out is None or len(out) != len(base) or any(
                len(p) != len(q) or any(not lo - 1e-9 <= a - b <= hi + 1e-9 for a, b in zip(p, q))
                for p, q in zip(out, base)):
            r.fail('vector', f'{how} gives {got}')
        if hi - lo == 10 ** 9 and sim.rng.mode == 'uniform':
            off = [a - b for p, q in zip(out, base) for a, b in zip(p, q)]
            if any(abs(a - b) < 1e-3 for i, a in enumerate(off) for b in off[:i]):
                r.fail('vector', f'{how} gives {got}: one random number serves twice')
        r.state('vector', hi - lo, sc['world']['rmode'], len(base))
        r.note(out)


def fern(sc, r, B, sim):
    F = LIBS['fractals']
    g = R(sc['ops'][0]['s'])
    im = mk(sc['img'])
    x = [g.randint(-1, im.w), g.randint(-1, im.w)]
    y = [g.randint(-1, im.h), g.randint(-1, im.h)]
    if g.random() < .8:
        x = [min(max(k, 0), im.w - 1) for k in x]
        y = [min(max(k, 0), im.h - 1) for k in y]
    inside = all(0 <= k < im.w for k in x) and all(0 <= k < im.h for k in y)
    c = color_of(g, im.bits)
    how = f'fern in {x}, {y} of a {im.bits}-bit {im.w}x{im.h} image'
    tofile = g.random() < .5
    bmp = array('B', M.build(im))
    head = bytes(bmp[:54])
    if tofile:
        sim.fs.put('a.bmp', bytes(bmp))
        got = call(sim, B.fern2file, 'a.bmp', 'b.bmp', x[0], y[0], x[1], y[1], c)
        out = sim.fs.get('b.bmp')
        if sim.fs.get('a.bmp') != bytes(bmp):
            r.fail('fern', f'{how} altered its source')
        if out is None:
            if inside:
                r.fail('fern', f'{how}: no file')
            return
        bmp = array('B', out)
    else:
        got = call(sim, B.fern, bmp, x[0], y[0], x[1], y[1], c)
    if not got.ok:
        r.fail('fern', f'{how} failed: {got}')
    must, may = set(), set()
    if inside:
        ys = abs(y[1] - y[0]) // 10
        must, may = points(Chaos([F.getIFSparams()['fern'], x[0], y[0], x[1], y[1], ys, ys,
                                  abs(x[1] - x[0]) // 2, 0]), sim.rng.rec)
    picture(r, 'fern', how, im, bmp, head, may, must, c)
    r.state('fern', im.bits, inside, sc['world']['rmode'], tofile)
