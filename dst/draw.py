"""In-memory drawing operations and what each must do to the pixels.

Each Op has
  gen(rng, im)   -> JSON-able argument list
  run(B, bmp, a) -> the library call (bmp is the live image)
  model(P, a)    -> the same on a Pen over a plain pixel grid
The pen clips; lines clamp their end points to the image, as documented.  Shapes
defined by real-valued curves take their vertex list from the library's
generators (those are pure functions; see N03) and are stamped by the pen.
"""
from . import edits
from .edits import circle_points, rows_of, nearest, pack, chan


class Pen:
    def __init__(self, im, quirky=False, eps=0.0, prim=None):
        self.im, self.bits, self.w, self.h = im.copy(), im.bits, im.w, im.h
        self.px = self.im.px
        self.quirky = quirky and im.bits == 4
        self.eps, self.prim = eps, prim
        self.weak = None                 # f(x, y): pixel may hold anything
        self.pal = im.pal
        self.touched = set()

    def norm(self, c):
        b = self.bits
        return (1 if c > 0 else 0) if b == 1 else c & ((1 << b) - 1)

    def put(self, x, y, c):
        if 0 <= x < self.w and 0 <= y < self.h:
            self.px[y][x] = self.norm(c)
            self.touched.add((x, y))

    def hline(self, y, x1, x2, c):
        if not 0 <= y < self.h:
            return
        x1, x2 = min(x1, x2), max(x1, x2)
        x1, x2 = max(x1, 0), min(x2, self.w - 1)
        if x1 > x2:
            return
        if self.quirky:
            # recorded finding: a run can miss its last pixel or hit the one before
            n = (x2 - x1 + 1) >> 1
            for x in range(x1, (x1 >> 1 << 1) + 2 * n):
                self.put(x, y, c)
            if x2 & 1:
                self.put(x2 - 1, y, c)
            return
        c = self.norm(c)
        row = self.px[y]
        for x in range(x1, x2 + 1):
            row[x] = c
            self.touched.add((x, y))

    def vline(self, x, y1, y2, c):
        for y in range(max(0, min(y1, y2)), min(self.h - 1, max(y1, y2)) + 1):
            self.put(x, y, c)

    def line(self, u, v, c):
        (x1, y1), (x2, y2) = [[round(k) for k in p] for p in (u, v)]
        cl = lambda k, m: 0 if k < 0 else m if k > m else k
        x1, x2 = cl(x1, self.w - 1), cl(x2, self.w - 1)
        y1, y2 = cl(y1, self.h - 1), cl(y2, self.h - 1)
        if x1 == x2:
            self.vline(x1, y1, y2, c)
        elif y1 == y2:
            self.hline(y1, x1, x2, c)
        else:
            for x, y in bres((x1, y1), (x2, y2)):
                self.put(x, y, c)

    def lines(self, vs, c, r=1):
        for u, v in zip(vs, vs[1:]):
            if r <= 1:
                self.line(u, v, c)
            else:
                self.thick(ri(u), ri(v), r, c)

    def poly(self, vs, c):
        self.lines(vs, c)
        self.line(vs[0], vs[-1], c)

    def thick(self, u, v, r, c):
        for x, y in bres(u, v):
            self.disc(x, y, r, c)

    def disc(self, x, y, r, c):
        for dy, dx in rows_of(r).items():
            self.hline(y - dy, x - dx, x + dx, c)
            self.hline(y + dy, x - dx, x + dx, c)

    def ring(self, x, y, r, c):
        for px, py in ringpts(x, y, r):
            self.put(px, py, c)

    def stamp(self, p, r, c):
        if r <= 1:
            self.put(p[0], p[1], c)
        else:
            self.disc(p[0], p[1], r, c)

    def thickring(self, x, y, r, w, c):
        for px, py in ringpts(x, y, r):
            self.disc(px, py, w, c)

    def ell(self, x, y, b, a, c, fill=False):
        for u, v in ellpts(b, a):
            if fill:
                self.hline(y - v, x - u, x + u, c)
                self.hline(y + v, x - u, x + u, c)
            else:
                for sx in (-1, 1):
                    for sy in (-1, 1):
                        self.put(x + sx * u, y + sy * v, c)

    def fill(self, pts, c):
        """Between neighbouring boundary points of each row; only if wholly inside."""
        if not pts:
            return
        xs, ys = [p[0] for p in pts], [p[1] for p in pts]
        if min(xs) < 0 or min(ys) < 0 or max(xs) >= self.w or max(ys) >= self.h:
            return
        rows = {}
        for x, y in pts:
            rows.setdefault(y, set()).add(x)
        for y, s in rows.items():
            self.runs(y, sorted(s), c)

    def runs(self, y, s, c):
        if len(s) == 1:
            self.put(s[0], y, c)
        for a, b in zip(s, s[1:]):
            self.hline(y, a, b, c)

    def lum(self, l, fac):
        """Colour of a brightness, as value for this depth."""
        return self.rgb([int(f * l) for f in fac])

    def rgb(self, t):
        return pack(*t) if self.bits == 24 else nearest(t, self.pal)

    def rnd(self, v):
        return round(v + self.eps)

    def flo(self, v):
        return int(v + self.eps)


def ri(v):
    return [round(k) for k in v]


def bres(u, v):
    (x1, y1), (x2, y2) = u, v
    dx, dy = x2 - x1, y2 - y1
    sx, sy = (dx > 0) - (dx < 0), (dy > 0) - (dy < 0)
    n, m = abs(dx), abs(dy)
    if n == m:
        pts = [(x1 + i * sx, y1 + i * sy) for i in range(n + 1)]
    elif n > m:
        pts = [(x1 + i * sx, y1 + (i + 1) * m // n * sy) for i in range(n + 1)]
    else:
        pts = [(x1 + (i + 1) * n // m * sx, y1 + i * sy) for i in range(m + 1)]
    return pts + [(x2, y2)]


def ringpts(x, y, r):
    for row, col, _ in circle_points(r):
        for u, v in ((row, col), (col, row)):
            yield x + u, y + v
            yield x - u, y + v
            yield x + u, y - v
            yield x - u, y - v


def ellpts(b, a):
    """(dx, dy) of the first quadrant, midpoint rule; b half height, a half width."""
    row, col, p, q = b, 0, a * a, b * b
    d = 2 * p * (row - 1) * row + p + 2 * q * (1 - p)
    while row * p >= col * q:
        yield col, row
        if d >= 0:
            row -= 1
            d -= 4 * p * row
        d += 2 * q * (3 + 2 * col)
        col += 1
    d = 2 * q * (col - 1) * col + 2 * p * (row * (row - 2) + 1) + (1 - 2 * p) * q
    while row > -1:
        yield col, row
        if d >= 0:
            col += 1
            d -= 4 * q * col
        d += 2 * p * (3 + 2 * row)
        row -= 1


class Op:
    real = False                 # real-valued colours: judged with rounding slack

    def __init__(self, name, gen, run, model):
        self.name, self.gen, self.run, self.model = name, gen, run, model


# calls that take an interpolation function from the user as last argument
CALLBACK = {'gradcircle', 'graddichromiccircle', 'sphere', 'gradellipse', 'gradplotlines',
            'gradthickplotpoly', 'gradvert', 'filledgradrect', 'filleddichromaticgradrect'}
PALETTE = {'setRGBpal', 'setbmppal', 'setbmppalwithBGRlist', 'palshift'}


OPS = {}


def op(name, gen, run=None, real=False):
    def d(f):
        o = Op(name, gen, run or (lambda B, bmp, a: getattr(B, name)(bmp, *a)), f)
        o.real = real
        OPS[name] = o
        return f
    return d


# ---- generators -------------------------------------------------------------------
def color(rng, im):
    return rng.choice([rng.getrandbits(24), 0, 0xffffff]) if im.bits == 24 else \
        rng.choice([rng.randrange(1 << im.bits), rng.randrange(1 << im.bits), (1 << im.bits) - 1])


def px_(rng, m):
    """A coordinate: mostly inside, often on a border, sometimes outside."""
    k = rng.random()
    if k < .6:
        return rng.randrange(m)
    if k < .8:
        return rng.choice([0, m - 1, -1, m, m - 2])
    if k < .95:
        return rng.randint(-8, m + 8)
    return rng.choice([-1, 1]) * rng.choice([m + 40, 1000, 7 * m])


def pin(rng, im):
    return [rng.randrange(im.w), rng.randrange(im.h)]


def pt(rng, im):
    return [px_(rng, im.w), px_(rng, im.h)]


def pts(rng, im, lo, hi, real=False):
    r = [pt(rng, im) for _ in range(rng.randint(lo, hi))]
    if real and rng.random() < .4:
        r = [[x + rng.choice([0, .25, -.25, .5, .4]), y + rng.choice([0, .5, -.4])] for x, y in r]
    return r


def near(rng, im, lo, hi):
    """Points whose bounding box is small (slow shapes)."""
    x, y = pt(rng, im)
    x, y = max(-20, min(im.w + 20, x)), max(-20, min(im.h + 20, y))
    return [[x + rng.randint(-9, 9), y + rng.randint(-9, 9)] for _ in range(rng.randint(lo, hi))]


def rad(rng, im, hi=24):
    return rng.choice([1, 2, 3, rng.randint(1, 8), rng.randint(1, hi)])


def circ(rng, im, hi=24):
    if rng.random() < .5:
        m = (min(im.w, im.h) - 1) // 2
        if m >= 1:
            r = rng.randint(1, min(m, hi))
            return [rng.randint(r, im.w - 1 - r), rng.randint(r, im.h - 1 - r), r]
    x, y = pt(rng, im)
    return [x, y, rad(rng, im, hi)]


def rect(rng, im):
    return edits.rect_any(rng, im)


def fac(rng):
    return rng.choice([[1, 1, 1], [1, 0, 0], [0, .5, 1],
                       [round(rng.random(), 2) for _ in range(3)]])


def lums(rng):
    return [rng.randrange(256), rng.randrange(256)]


def cat(*gs):
    """Argument list made of pieces; a piece giving a list is spliced."""
    def g(rng, im):
        a = []
        for q in gs:
            v = q(rng, im)
            a += v if isinstance(v, list) else [v]
        return a
    return g


def one(f):
    return lambda rng, im: [f(rng, im)]


f_ = one(lambda rng, im: fac(rng))
l_ = one(lambda rng, im: lums(rng))
pen = lambda rng, im: rng.choice([1, 1, 2, 2, 3, 4]) if rng.random() < .9 else rng.randint(5, 9)


def oob(P, a):
    return edits.oob(P, a)


# ---- points -------------------------------------------------------------------------
@op('plotxybit', cat(pt, color))
def _(P, a):
    P.put(*a)


@op('intplotvecxypoint', cat(one(pt), color))
def _(P, a):
    P.put(*a[0], a[1])


@op('plotvecxypoint', cat(one(lambda rng, im: pts(rng, im, 1, 1, True)[0]), color))
def _(P, a):
    P.put(*ri(a[0]), a[1])


def g_rgb(rng, im):
    if im.bits < 24 and rng.random() < .6:
        return [list(rng.choice(im.pal))]
    return [[rng.randrange(256) for _ in range(3)]]


@op('plotRGBxybit', cat(pt, g_rgb))
def _(P, a):
    P.put(a[0], a[1], P.rgb(a[2]))


@op('plotRGBxybitvec', cat(one(pt), g_rgb))
def _(P, a):
    P.put(*a[0], P.rgb(a[1]))


@op('swapcolors', cat(one(pin), one(pin)))
def _(P, a):
    (x, y), (u, v) = a
    P.px[y][x], P.px[v][u] = P.px[v][u], P.px[y][x]


@op('plotxypointlist', cat(one(lambda rng, im: pts(rng, im, 1, 5)), pen, color))
def _(P, a):
    for p in a[0]:
        P.stamp(p, a[1], a[2])


@op('roundpen', cat(one(pt), lambda rng, im: rng.randint(0, 6), color))
def _(P, a):
    P.stamp(*a)


# ---- straight lines -------------------------------------------------------------------
@op('horiline', cat(lambda rng, im: px_(rng, im.h), lambda rng, im: px_(rng, im.w),
                    lambda rng, im: px_(rng, im.w), color))
def _(P, a):
    P.hline(*a)


@op('vertline', cat(lambda rng, im: px_(rng, im.w), lambda rng, im: px_(rng, im.h),
                    lambda rng, im: px_(rng, im.h), color))
def _(P, a):
    P.vline(*a)


@op('horilinevert', cat(one(lambda rng, im: pts(rng, im, 1, 4)), lambda rng, im: rng.randint(0, 12),
                        lambda rng, im: rng.randint(-3, 3), color))
def _(P, a):
    for x, y in a[0]:
        P.hline(y, x, x + a[1] + a[2], a[3])


@op('vertlinevert', cat(one(lambda rng, im: pts(rng, im, 1, 4)), lambda rng, im: rng.randint(0, 12),
                        lambda rng, im: rng.randint(-3, 3), color))
def _(P, a):
    for x, y in a[0]:
        P.vline(x, y, y + a[1] + a[2], a[3])


def ends(rng, im):
    if rng.random() < .25:                                    # corners and diagonals
        k = rng.randint(0, min(im.w, im.h) - 1)
        x, y = rng.randint(0, im.w - 1 - k), rng.randint(0, im.h - 1 - k)
        if rng.random() < .5:
            x, y = rng.choice([0, im.w - 1 - k]), rng.choice([0, im.h - 1 - k])
        p = [[x, y], [x + k, y + k]] if rng.random() < .5 else [[x, y + k], [x + k, y]]
        return p[::rng.choice([1, -1])]
    return [pt(rng, im), pt(rng, im)]


def flat(g):
    return lambda rng, im: sum(g(rng, im), [])


@op('line', cat(flat(ends), color))
def _(P, a):
    P.line(a[:2], a[2:4], a[4])


@op('intlinevec', cat(ends, color))
def _(P, a):
    P.line(*a)


@op('linevec', cat(lambda rng, im: pts(rng, im, 2, 2, True), color))
def _(P, a):
    P.line(*a)


@op('thickroundline', cat(lambda rng, im: near(rng, im, 2, 2), pen, color))
def _(P, a):
    P.thick(*a)


@op('plotlines', cat(one(lambda rng, im: pts(rng, im, 1, 5, True)), color,
                     lambda rng, im: rng.choice([1, 1, 1, 0])))
def _(P, a):
    P.lines(*a)


@op('plotlines:thick', cat(one(lambda rng, im: near(rng, im, 2, 4)), color,
                           lambda rng, im: rng.choice([2, 3])),
    lambda B, bmp, a: B.plotlines(bmp, *a))
def _(P, a):
    P.lines(*a)


@op('rectangle', cat(pt, pt, color))
def _(P, a):
    x1, y1, x2, y2, c = a
    P.poly([(x1, y1), (x2, y1), (x2, y2), (x1, y2)], c)


@op('plotpoly', cat(one(lambda rng, im: pts(rng, im, 2, 5, True)), color))
def _(P, a):
    P.poly(*a)


@op('plotpolylist', cat(one(lambda rng, im: [pts(rng, im, 3, 4) for _ in range(2)]), color))
def _(P, a):
    for q in a[0]:
        P.poly(q, a[1])


@op('thickplotpoly', cat(one(lambda rng, im: near(rng, im, 2, 4)), lambda rng, im: rng.choice([1, 2, 3]), color))
def _(P, a):
    P.lines(a[0], a[2], 2) if a[1] == 2 else [P.thick(u, v, a[1], a[2]) for u, v in zip(a[0], a[0][1:])]
    P.thick(a[0][0], a[0][-1], a[1], a[2])


@op('filledparallelogram', cat(lambda rng, im: [[px_(rng, im.w) % 60, px_(rng, im.h) % 60] for _ in range(3)], color))
def _(P, a):
    p, q, s, c = a
    t = [s[0] + q[0] - p[0], s[1] + q[1] - p[1]]
    for u, v in zip(bres(p, s), bres(q, t)):
        P.line(u, v, c)


@op('drawvec', cat(lambda rng, im: near(rng, im, 2, 2), lambda rng, im: rng.randint(1, 7), color,
                   lambda rng, im: rng.choice([None, None, 1, 2])))
def _(P, a):
    for u, v in P.prim.iterdrawvec(a[0], a[1], a[2]):
        if a[4] is None:
            P.line(u, v, a[3])
        else:
            P.thick(u, v, a[4], a[3])


def g_xygrid(rng, im):
    return rect(rng, im) + [[rng.randint(1, 6), rng.randint(1, 6)]]


def m_xygrid(P, r, st, c):
    if oob(P, r):
        return
    x1, y1, x2, y2 = edits.srt(r)
    for x in range(x1, x2, st[0]):
        P.vline(x, y1, y2, c)
    for y in range(y1, y2, st[1]):
        P.hline(y, x1, x2, c)


@op('xygrid', cat(g_xygrid, color))
def _(P, a):
    m_xygrid(P, a[:4], a[4], a[5])


@op('xygridvec', lambda rng, im: (lambda g: [g[:2], g[2:4], g[4], color(rng, im)])(g_xygrid(rng, im)))
def _(P, a):
    m_xygrid(P, a[0] + a[1], a[2], a[3])


# ---- rectangles ----------------------------------------------------------------------------
@op('filledrect', lambda rng, im: rect(rng, im) + (
    [pack(*rng.choice(im.pal)) if rng.random() < .7 else rng.getrandbits(24)] if im.bits == 8
    else [color(rng, im)]))
def _(P, a):
    if oob(P, a):
        return
    x1, y1, x2, y2 = edits.srt(a)
    c = nearest(chan(a[4]), P.pal) if P.bits == 8 else a[4]
    for y in range(y1, y2 + 1):
        P.hline(y, x1, x2, c)


def gradrect(P, r, p, q, d):
    x1, y1, x2, y2 = r
    for k in range(x1, x2 + 1) if d == 0 else range(y1, y2 + 1):
        t = k / ((x2 - x1 if d == 0 else y2 - y1) + 1)
        t = min(max(t, 0.0), 1.0)
        c = P.rgb([P.rnd((1.0 - t) * u + t * v) for u, v in zip(p, q)])
        if d == 0:
            P.vline(k, y1, y2, c)
        else:
            P.hline(k, x1, x2, c)


bit = lambda rng, im: rng.randint(0, 1)


@op('filledgradrect', cat(rect, l_, f_, bit), real=True)
def _(P, a):
    if not (P.bits < 8 or oob(P, a)):
        gradrect(P, edits.srt(a), *[[f * l for f in a[5]] for l in a[4]], a[6])


c24 = lambda rng, im: rng.getrandbits(24)


@op('filleddichromaticgradrect', cat(rect, c24, c24, bit), real=True)
def _(P, a):
    if not (P.bits != 24 or oob(P, a)):
        gradrect(P, edits.srt(a), chan(a[4]), chan(a[5]), a[6])


@op('fillbackgroundwithgrad', cat(l_, f_, bit), real=True)
def _(P, a):
    if P.bits >= 8:
        gradrect(P, [0, 0, P.w - 1, P.h - 1], *[[f * l for f in a[1]] for l in a[0]], a[2])


@op('fillbackgroundwithdichromaticgrad', cat(l_, c24, c24, bit), real=True)
def _(P, a):
    if P.bits == 24:
        gradrect(P, [0, 0, P.w - 1, P.h - 1], chan(a[1]), chan(a[2]), a[3])


# ---- circles and ellipses ----------------------------------------------------------------------
opt = lambda rng, im: rng.choice([None, False, True])


@op('circle', cat(circ, color, opt))
def _(P, a):
    (P.disc if a[4] else P.ring)(*a[:4])


@op('circlevec', lambda rng, im: (lambda c: [c[:2], c[2], color(rng, im), opt(rng, im)])(circ(rng, im)))
def _(P, a):
    (P.disc if a[3] else P.ring)(*a[0], *a[1:3])


@op('filledcircle', cat(circ, color))
def _(P, a):
    P.disc(*a)


@op('plotcircinsqr', cat(pt, lambda rng, im: rng.randint(2, 15), color))
def _(P, a):
    d = a[2] >> 1
    P.disc(a[0] + d, a[1] + d, d, a[3])


@op('thickcircle', cat(lambda rng, im: circ(rng, im, 9), pen, color))
def _(P, a):
    P.thickring(*a)


@op('gradthickcircle', cat(lambda rng, im: circ(rng, im, 7), pen, l_, f_), real=True)
def _(P, a):
    x, y, r, w, (l1, l2), f = a
    for i in range(w, 0, -1):
        P.thickring(x, y, r, i, P.lum(P.flo(l1 + (l2 - l1) * i / w), f))


def gcircle(P, x, y, r, l, f):
    for i in range(r - 1, 0, -1):
        t = i / r
        P.thickring(x, y, i, 2, P.lum(P.flo((1.0 - t) * l[0] + t * l[1]), f))


def dcircle(P, x, y, r, p, q):
    if P.bits == 24:
        for i in range(r - 1, 0, -1):
            t = i / r
            P.thickring(x, y, i, 2, pack(*[P.rnd((1.0 - t) * u + t * v)
                                           for u, v in zip(chan(p), chan(q))]))


@op('gradcircle', cat(lambda rng, im: circ(rng, im, 7), l_, f_), real=True)
def _(P, a):
    gcircle(P, *a)


@op('graddichromiccircle', cat(lambda rng, im: circ(rng, im, 7), c24, c24), real=True)
def _(P, a):
    dcircle(P, *a)


@op('sphere', lambda rng, im: circ(rng, im, 7) + [
    fac(rng) if rng.random() < .6 else [c24(rng, im), c24(rng, im)]], real=True)
def _(P, a):
    if len(a[3]) == 3:
        gcircle(P, *a[:3], [255, 0], a[3])
    else:
        dcircle(P, *a[:3], *a[3])


@op('orb', lambda rng, im: (lambda c: [c[0], c[1], max(2, c[2]), fac(rng)])(circ(rng, im, 7)), real=True)
def _(P, a):
    x, y, r, f = a
    j = r >> 1
    P.disc(x, y, j, P.lum(255, f))
    for i in range(r - 1, j, -1):
        P.thickring(x, y, i, 2, P.lum(P.flo(255 * (r - i) / j), f))


def gell(rng, im, hi=16):
    x, y = pt(rng, im)
    if rng.random() < .4:
        x, y = im.w // 2, im.h // 2
    return [x, y, rng.randint(1, hi), rng.randint(1, hi)]


@op('ellipse', cat(gell, color, opt))
def _(P, a):
    P.ell(*a[:5], bool(a[5]))


@op('filledellipse', cat(gell, color))
def _(P, a):
    P.ell(*a, True)


@op('gradellipse', cat(lambda rng, im: gell(rng, im, 9), l_, f_), real=True)
def _(P, a):
    x, y, b, w, l, f = a
    r = max(b, w)
    for i in range(r, 0, -1):
        t = i / r
        P.ell(x, y, b - r + i, w - r + i, P.lum(P.flo((1.0 - t) * l[0] + t * l[1]), f), True)


deg = lambda rng, im: rng.choice([0, 30, 45, 90, 180, rng.randint(-360, 720), 33.3])


@op('thickellipserot', cat(lambda rng, im: gell(rng, im, 8), deg, pen, color))
def _(P, a):
    for p in P.prim.iterellipserot(*a[:5]):
        P.disc(*p, a[5], a[6])


def g_arc(rng, im):
    c = circ(rng, im, 12)
    s = rng.choice([0, 0, 90, rng.randint(0, 300)])
    return c + [s, rng.choice([360, s + 60, rng.randint(s + 1, 360)]), color(rng, im), True,
                color(rng, im), rng.random() < .5]


@op('drawarc', g_arc)
def _(P, a):
    arc(P, *a)


def arc(P, x, y, r, s, e, c, _, fc, filled):
    v = P.prim.arcvert(x, y, r, s, e)
    for p in v:
        P.put(*p, c)
    if filled:
        P.fill(v, fc)


def g_pie(rng, im):
    big = rng.random() < .4                      # very uneven shares
    return circ(rng, im, 10) + [[[rng.choice([1, 2, 30, 100, 250, .5]) if big else rng.randint(1, 9), color(rng, im), f'{i}']
                                 for i in range(rng.randint(1, 7 if big else 4))]]


@op('piechart', g_pie)
def _(P, a):
    x, y, r, data = a
    tot = sum(d[0] for d in data)
    sa = 0
    sl = []
    big = None
    for d in data:
        p = d[0] / tot
        ea = sa + p * 360
        p *= 100
        sl.append((sa, ea, d[1], p))
        if p >= 50:
            big = d[1]
        sa = ea
    if big is not None:
        P.disc(x, y, r, big)
    for s, e, c, p in sl:
        if p < 50:
            arc(P, x, y, r, s, e, c, True, c, True)


# ---- curves, polygons, patterns ----------------------------------------------------------------
@op('beziercurve', cat(one(lambda rng, im: near(rng, im, 2, 5)), pen, color))
def _(P, a):
    for p in P.prim.iterbeziercurve(a[0]):
        P.stamp(p, a[1], a[2])


@op('bspline', cat(one(lambda rng, im: near(rng, im, 3, 5)), pen, color, lambda rng, im: rng.random() < .5,
                   lambda rng, im: rng.random() < .5))
def _(P, a):
    for p in P.prim.iterbspline(a[0], a[3], a[4]):
        P.stamp(p, a[1], a[2])


@op('squircle', cat(lambda rng, im: circ(rng, im, 15), color))
def _(P, a):
    P.poly(P.prim.squirclevert(*a[:3]), a[3])


def g_fill(rng, im):
    x, y = rng.randrange(im.w), rng.randrange(im.h)
    k = rng.choice([0, 0, 0, 3])
    cl = lambda v, m: max(-k, min(m - 1 + k, v))
    return [[[cl(x + rng.randint(-9, 9), im.w), cl(y + rng.randint(-9, 9), im.h)]
             for _ in range(rng.randint(3, 5))], color(rng, im)]


@op('plotpolyfill', g_fill)
def _(P, a):
    vs = a[0]
    px = []
    for u, v in list(zip(vs, vs[1:])) + [(vs[-1], vs[0])]:
        px += bres(u, v)
    P.fill(px, a[1])


@op('fillboundary', lambda rng, im: [[[px_(rng, im.h), sorted(px_(rng, im.w) for _ in range(rng.randint(1, 4)))]
                                      for _ in range(rng.randint(1, 4))], color(rng, im)],
    lambda B, bmp, a: B.fillboundary(bmp, {y: xs for y, xs in a[0]}, a[1]))
def _(P, a):
    for y, xs in {y: xs for y, xs in a[0]}.items():
        P.runs(y, xs, a[1])


def grads(name, gen, draw):
    @op(name, cat(gen, pen, l_, f_), real=True)
    def _(P, a):
        *q, w, l, f = a
        for i in range(w, 0, -1):
            t = i / w
            k = (l[0] + (l[1] - l[0]) * i / w) if name == 'gradthickroundline' else \
                (1.0 - t) * l[0] + t * l[1]
            draw(P, q, i, P.lum(k if name == 'gradvert' else P.flo(k), f))


grads('gradthickroundline', lambda rng, im: near(rng, im, 2, 2), lambda P, q, i, c: P.thick(*q, i, c))
grads('gradplotlines', one(lambda rng, im: near(rng, im, 2, 3)), lambda P, q, i, c: P.lines(q[0], c, i))
grads('gradthickplotpoly', one(lambda rng, im: near(rng, im, 2, 3)),
      lambda P, q, i, c: [P.thick(u, v, i, c) for u, v in list(zip(q[0], q[0][1:])) + [(q[0][0], q[0][-1])]])
grads('gradvert', one(lambda rng, im: pts(rng, im, 1, 4)), lambda P, q, i, c: [P.stamp(p, i, c) for p in q[0]])
grads('gradthickellipserot', cat(lambda rng, im: gell(rng, im, 6), deg),
      lambda P, q, i, c: [P.disc(*p, i, c) for p in P.prim.iterellipserot(*q)])


@op('fliphorzontalpixelbased', lambda rng, im: list(edits.srt(rect(rng, im))))
def _(P, a):
    if not oob(P, a):
        x1, y1, x2, y2 = a
        for row in P.px[y1:y2 + 1]:
            row[x1:x2 + 1] = row[x1:x2 + 1][::-1]


@op('fliphverticalalpixelbased', lambda rng, im: list(edits.srt(rect(rng, im))))
def _(P, a):
    if not oob(P, a):
        x1, y1, x2, y2 = a
        old = [row[x1:x2 + 1] for row in P.px[y1:y2 + 1]]
        for row, v in zip(P.px[y1:y2 + 1], old[::-1]):
            row[x1:x2 + 1] = v


# ---- pixel blocks ---------------------------------------------------------------------------
def g_copypaste(rng, im):
    x1, y1, x2, y2 = edits.rect_in(rng, im, sort=True)
    w, h = x2 - x1, y2 - y1
    u, v = rng.randint(0, im.w - 1 - w), rng.randint(0, im.h - 1 - h)
    if rng.random() < .15:
        u, v = u + rng.randint(-4, 4), v + rng.randint(-4, 4)
    r = [x1, y1, x2, y2]
    if rng.random() < .2:
        r = [x2, y1, x1, y2]
    return [r, u, v]


@op('copyrect+pasterect', g_copypaste,
    lambda B, bmp, a: B.pasterect(bmp, B.copyrect(bmp, *a[0]), a[1], a[2]))
def _(P, a):
    r, u, v = a
    x1, y1, x2, y2 = edits.srt(r)
    w, h = x2 - x1, y2 - y1
    if not (0 <= u and u + w < P.w and 0 <= v and v + h < P.h):
        return
    if P.bits < 8:                            # whole bytes, as many as fit in the width
        g = edits.Packed(P.im)
        b1, b2 = g.span(x1, x2)
        blk = [g.g[y][b1:b2] for y in range(y1, y2 + 1)]
        for i, row in enumerate(blk):
            g.g[v + i][u // g.n:u // g.n + b2 - b1] = row
        o = g.out()
        P.weak, P.im = o.mask, o.img
        P.touched |= {(x, y) for y, (p, q) in enumerate(zip(P.px, o.img.px)) for x in range(P.w) if p[x] != q[x]}
        P.px = P.im.px
        return
    blk = [P.px[y][x1:x2 + 1] for y in range(y1, y2 + 1)]
    for i, row in enumerate(blk):
        P.px[v + i][u:u + w + 1] = row


def g_copycirc(rng, im):
    m = (min(im.w, im.h) - 1) // 2
    if m < 1:
        return None
    r = rng.randint(1, m)
    x, y = rng.randint(r, im.w - 1 - r), rng.randint(r, im.h - 1 - r)
    u, v = rng.randint(r, im.w - 1 - r), rng.randint(r, im.h - 1 - r)
    if rng.random() < .15:
        u, v = u + rng.randint(-4, 4), v + rng.randint(-4, 4)
    return [x, y, r, u, v]


def circbuf(B, bmp, a):
    B.pastecirularbuf(bmp, a[3], a[4], B.copycircregion2buf(bmp, *a[:3]))


@op('copycircregion2buf+pastecirularbuf', g_copycirc, circbuf)
def _(P, a):
    x, y, r, u, v = a
    if not edits.cin(P, u, v, r):
        return
    old = [row[:] for row in P.px]
    for dy, dx in rows_of(r).items():
        for s in (-1, 1):
            P.px[v + s * dy][u - dx:u + dx] = old[y + s * dy][x - dx:x + dx]


# ---- palette ----------------------------------------------------------------------------------
def g_pal(rng, im):
    if im.bits == 24:
        return None
    return [rng.randrange(1 << im.bits)] + [rng.randrange(256) for _ in range(3)]


@op('setRGBpal', g_pal)
def _(P, a):
    P.im.pal[a[0]] = tuple(a[1:])


@op('setbmppal', lambda rng, im: None if im.bits == 24 else [
    [[rng.randrange(256) for _ in range(3)] for _ in range((1 << im.bits) - (rng.random() < .1))]])
def _(P, a):
    if len(a[0]) == 1 << P.bits:
        P.im.pal = [tuple(c) for c in a[0]]


@op('setbmppalwithBGRlist', lambda rng, im: None if im.bits == 24 else [
    [[rng.randrange(256) for _ in range(3)] for _ in range(1 << im.bits)]])
def _(P, a):
    P.im.pal = [(r, g, b) for b, g, r in a[0]]


@op('palshift', lambda rng, im: None if im.bits not in (4, 8) else [rng.choice([1, 2, rng.randint(-300, 300)])])
def _(P, a):
    k = abs(a[0]) % len(P.im.pal)
    P.im.pal = P.im.pal[k:] + P.im.pal[:k]


def outcomes(o, im, a, prim):
    """[(Pen)] acceptable outcomes: first the ideal one, then rounding variants, then quirks."""
    outs = []
    for q in ((False, True) if im.bits == 4 else (False,)):
        for eps in ((0.0, -1e-7, 1e-7) if o.real else (0.0,)):
            P = Pen(im, q, eps, prim)
            o.model(P, a)
            outs.append(P)
    return outs
