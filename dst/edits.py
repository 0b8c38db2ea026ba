"""File edits of the library and what each must do to the picture.

Each Edit has
  fn      name of the public function  fn(source, dest, *args)
  gen     gen(rng, img) -> JSON-able argument list
  model   model(img, args) -> expected outcome:
            Out(img=...)            exactly this picture is saved
            Out(img=..., mask=f)    ... except pixels where f(x, y) is true
            Out(refuse=True)        nothing is written
            Out(either=True)        nothing is written, or the source unaltered
            Out(weak=region)        same geometry; pixels outside region unaltered
            Out(error=True)         the call fails with an exception, nothing written
  group   'geom' | 'color' | 'draw'
The models work on plain pixel grids and share no code with the library.
"""
import math

from .bmpmodel import Img


class Out:
    def __init__(self, img=None, mask=None, refuse=False, either=False, weak=None, error=False,
                 resized=False, quirk=None):
        self.img, self.mask, self.refuse, self.either = img, mask, refuse, either
        self.weak, self.error, self.resized = weak, error, resized
        # {(x, y): value}: a recorded finding (known_findings.json) makes the
        # library leave this value there instead of img's
        self.quirk = quirk or {}

    def kind(self):
        return ('refuse' if self.refuse else 'either' if self.either else 'error' if self.error
                else 'weak' if self.weak else 'exact')


class Edit:
    two = False                  # takes a second source picture

    def __init__(self, fn, gen, model, group):
        self.fn, self.gen, self.model, self.group = fn, gen, model, group

    def invoke(self, B, src, dst, a, src2=None):
        f = getattr(B, self.fn)
        return f(src, src2, dst) if self.two else f(src, dst, *a)


E = {}

# Real-valued colour rules are evaluated three times, nudged by EPS, so that a
# value sitting on a rounding boundary may legitimately come out either way.
EPS = 0.0


def rnd(v):
    return round(v + EPS)


def flo(v):
    return int(v + EPS)


def variants(e, im, a, im2=None):
    """The model's outcome, and the same with reals nudged down and up."""
    global EPS
    outs = []
    for EPS in ((0.0, -1e-7, 1e-7) if e.group == 'color' or e.fn in REALS else (0.0,)):
        outs.append(e.model(im, im2) if e.two else e.model(im, a))
    EPS = 0.0
    return outs


REALS = {'resizeNtimessmaller2file', 'pixelizenxntofile', 'pixelizenxncircregion2file',
         'filledgradrect2file', 'filleddichromaticgradrect2file', 'sphere2file', 'thickencirclearea2file'}


def edit(fn, gen, group):
    def d(f):
        E[fn] = Edit(fn, gen, f, group)
        return f
    return d


# ---- argument generators --------------------------------------------------
def g_none(rng, im):
    return []


def rect_in(rng, im, minw=1, minh=1, sort=False):
    w, h = im.w, im.h
    if w < minw or h < minh:
        return None
    x1 = rng.randint(0, w - minw)
    y1 = rng.randint(0, h - minh)
    x2 = rng.randint(x1 + minw - 1, w - 1)
    y2 = rng.randint(y1 + minh - 1, h - 1)
    if rng.random() < .15:
        x1, x2 = 0, w - 1
    if rng.random() < .15:
        y1, y2 = 0, h - 1
    if not sort:
        if rng.random() < .2:
            x1, x2 = x2, x1
        if rng.random() < .2:
            y1, y2 = y2, y1
    return [x1, y1, x2, y2]


def rect_any(rng, im, **k):
    r = rect_in(rng, im, **k) or [0, 0, im.w - 1, im.h - 1]
    if rng.random() < .08:
        i = rng.randrange(4)
        r[i] = rng.choice([-1, -5, im.w if i % 2 == 0 else im.h, 1000])
    return r


def g_rect(*extra, **k):
    def g(rng, im):
        return rect_any(rng, im, **k) + [e(rng) if callable(e) else e for e in extra]
    return g


def g_args(*extra):
    return lambda rng, im: [e(rng) for e in extra]


def circ(rng, im, partial):
    """x, y, r; wholly inside the picture unless partial is drawn."""
    w, h = im.w, im.h
    if partial and rng.random() < .4:
        return [rng.randint(-6, w + 6), rng.randint(-6, h + 6), rng.randint(1, max(w, h))]
    if partial and rng.random() < .08:
        return [rng.choice([-1, 1]) * rng.randint(0, 3 * w + 9),
                rng.choice([-1, 1]) * rng.randint(0, 3 * h + 9), rng.randint(1, w + h)]
    m = (min(w, h) - 1) // 2
    if m < 1:
        return [w // 2, h // 2, 1]
    r = rng.randint(1, m)
    c = [rng.randint(r, w - 1 - r), rng.randint(r, h - 1 - r), r]
    if rng.random() < .12:
        c[rng.randrange(2)] += rng.choice([-1, 1]) * rng.randint(1, 3)
    return c


def g_circ(*extra, partial=True):
    def g(rng, im):
        return circ(rng, im, partial) + [e(rng) for e in extra]
    return g


def a_lum(rng):
    return [rng.choice([0, 255]) if rng.random() < .05 else rng.randint(0, 255) for _ in range(2)]


def a_pct(rng):
    return rng.choice([-100, -50, -10, 0, 10, 50, 100, -150, -101, 400, rng.randint(-100, 150), rng.randint(-100, 150),
                       round(rng.uniform(-12, 12), 2)])


def a_fac(rng):
    return [rng.choice([0, 1, .5, round(rng.random(), 3), round(rng.uniform(.45, .55), 3)]) for _ in range(3)]


def a_gamma(rng):
    return rng.choice([.2, .5, 1.0, 1.5, 2.2, round(rng.uniform(.2, 2.5), 2), round(rng.uniform(.95, 1.1), 3)])


def a_n(rng):
    return rng.randint(1, 4)


def a_n2(rng):
    return rng.randint(2, 5)


def a_color(rng):
    return rng.getrandbits(24)


# ---- helpers ---------------------------------------------------------------
def oob(im, a):
    x1, y1, x2, y2 = a[:4]
    return not (0 <= x1 < im.w and 0 <= x2 < im.w and 0 <= y1 < im.h and 0 <= y2 < im.h)


def srt(a):
    x1, y1, x2, y2 = a[:4]
    return min(x1, x2), min(y1, y2), max(x1, x2), max(y1, y2)


def cin(im, x, y, r):
    return x - r >= 0 and x + r < im.w and y - r >= 0 and y + r < im.h


def circle_points(r):
    """(dx, dy) of the eighth of a circle outline, by the midpoint rule."""
    row, col, q = r, 0, r * r
    d = 2 * q * (row - 1) * row + q + 2 * q * (1 - q)
    out = []
    while row >= col:
        down = d >= 0
        out.append((row, col, down))
        if down:
            row -= 1
            d -= 4 * q * row
        d += 2 * q * (3 + 2 * col)
        col += 1
    return out


def rows_of(r):
    """dy -> half width of the disc's row."""
    d = {}
    for row, col, down in circle_points(r):
        if col not in d:
            d[col] = row
        if down and row not in d:
            d[row] = col
    return d


def cols_of(r):
    """dx -> half height of the disc's column."""
    d = {}
    for row, col, down in circle_points(r):
        if col not in d:
            d[col] = row
        if row not in d:
            d[row] = col
    return d


def spans(im, x, y, r):
    """(yy, xa, xb): pixels xa <= px < xb of each row of the disc, clipped."""
    full = cin(im, x, y, r)
    for dy, dx in rows_of(r).items():
        xa, xb = x - dx, x + dx
        if not full:
            xa, xb = max(xa, 0), min(xb, im.w - 1)
        if xa > xb:
            continue
        for yy in {y - dy, y + dy}:
            if 0 <= yy < im.h:
                yield yy, xa, xb


def chan(c):
    return c >> 16, c >> 8 & 255, c & 255


def pack(r, g, b):
    return r << 16 | g << 8 | b


def clamp(v, a=0, b=255):
    return a if v < a else b if v > b else v


def mapreg(im, f, x1, y1, x2, y2):
    o = im.copy()
    for y in range(y1, y2 + 1):
        row = o.px[y]
        for x in range(x1, x2 + 1):
            row[x] = f(row[x])
    return o


# ---- whole-picture geometry --------------------------------------------------
@edit('invertbits2file', g_none, 'geom')
def _(im, a):
    m = (1 << im.bits) - 1
    return Out(mapreg(im, lambda c: c ^ m, 0, 0, im.w - 1, im.h - 1))


def vflip(im, x1, y1, x2, y2, how):
    o = im.copy()
    for i in range((y2 - y1 + 1) // 2):
        t, b = y1 + i, y2 - i
        for x in range(x1, x2 + 1):
            if how == 'F':
                o.px[t][x], o.px[b][x] = o.px[b][x], o.px[t][x]
            elif how == 'T':
                o.px[b][x] = o.px[t][x]
            else:
                o.px[t][x] = o.px[b][x]
    return o


def hflip(im, x1, y1, x2, y2, how):
    o = im.copy()
    for y in range(y1, y2 + 1):
        row = o.px[y]
        for i in range((x2 - x1 + 1) // 2):
            l, r = x1 + i, x2 - i
            if how == 'F':
                row[l], row[r] = row[r], row[l]
            elif how == 'L':
                row[r] = row[l]
            else:
                row[l] = row[r]
    return o


class Packed:
    """A 1- or 4-bit picture as the bytes that hold it: g[y][b] is a tuple of pixels.

    Below 8 bits region edits work on whole bytes.  The filling behind the last
    pixel of a row is not part of the picture, its value (None) is not judged."""

    def __init__(self, im):
        self.im, self.n = im, 8 // im.bits
        w = (im.w * im.bits + 31) // 32 * 4
        self.g = []
        for row in im.px:
            row = list(row) + [None] * (w * self.n - im.w)
            self.g.append([tuple(row[i:i + self.n]) for i in range(0, len(row), self.n)])

    def out(self):
        o, unk = self.im.copy(), set()
        for y, row in enumerate(self.g):
            flat = [v for b in row for v in b]
            for x in range(self.im.w):
                if flat[x] is None:
                    unk.add((x, y))
                else:
                    o.px[y][x] = flat[x]
        return Out(o, mask=(lambda x, y: (x, y) in unk) if unk else None)

    def span(self, x1, x2):
        """Bytes of a region whose left and right columns are x1 and x2."""
        b = x1 // self.n
        return b, b + (x2 - x1 + 1) // self.n

    def hflip(self, x1, y1, x2, y2, how):
        while x1 < x2:
            i, j = x1 // self.n, x2 // self.n
            for row in self.g[y1:y2 + 1]:
                l, r = row[i][::-1], row[j][::-1]
                if how in 'FL':
                    row[j] = l
                if how in 'FR':
                    row[i] = r
            x1 += self.n
            x2 -= self.n

    def vflip(self, b1, b2, t, b, how):
        """Bytes b1 <= b < b2 of the rows t and b."""
        t, b = self.g[t], self.g[b]
        u, v = t[b1:b2], b[b1:b2]
        if how in 'FT':
            b[b1:b2] = u
        if how in 'FB':
            t[b1:b2] = v

    def xor(self, u, v):
        return [tuple(None if None in (c, d) else c ^ d for c, d in zip(p, q)) for p, q in zip(u, v)]

    def zero(self, y, b1, b2):
        self.g[y][b1:b2] = [(0,) * self.n] * (b2 - b1)


def whole(name, v, h):
    @edit(name, g_none, 'geom')
    def _(im, a):
        o = im
        X, Y = im.w - 1, im.h - 1
        if h:
            if not sub_ok(im, 0, X, h):
                g = Packed(im)
                g.hflip(0, 0, X, Y, h)
                for i in range((Y + 1) // 2) if v else ():
                    g.vflip(0, None, i, Y - i, v)
                return g.out()
            o = hflip(o, 0, 0, X, Y, h)
        if v:
            o = vflip(o, 0, 0, X, Y, v)
        return Out(o)


def sub_ok(im, x1, x2, how):
    if im.bits >= 8:
        return True
    n = 8 // im.bits
    x1, x2 = min(x1, x2), max(x1, x2)
    if x1 % n or (x2 + 1) % n:
        return False
    return how == 'F' or (x2 - x1 + 1) // n % 2 == 0


for _n, _v, _h in (('flipvertical2file', 'F', None), ('mirrortop2file', 'T', None),
                   ('mirrorbottom2file', 'B', None), ('fliphorizontal2file', None, 'F'),
                   ('mirrorleft2file', None, 'L'), ('mirrorright2file', None, 'R'),
                   ('mirrortopleft2file', 'T', 'L'), ('mirrortopright2file', 'T', 'R'),
                   ('mirrorbottomleft2file', 'B', 'L'), ('mirrorbottomright2file', 'B', 'R')):
    whole(_n, _v, _h)


@edit('flipXY2file', g_none, 'geom')
def _(im, a):
    w, h = im.w, im.h
    if im.bits >= 8:
        px = [[im.px[h - 1 - x][w - 1 - y] for x in range(h)] for y in range(w)]
    else:
        px = [[im.px[x][y] for x in range(h)] for y in range(w)]
    return Out(Img(im.bits, h, w, im.pal, px), resized=True)


@edit('upgradeto24bitimage2file', g_none, 'color')
def _(im, a):
    px = [[pack(*im.rgb(x, y)) for x in range(im.w)] for y in range(im.h)]
    return Out(Img(24, im.w, im.h, None, px))


@edit('resizeNtimesbigger2file', g_args(a_n), 'geom')
def _(im, a):
    if im.bits != 24:
        return Out(refuse=True)
    return Out(bigger(im, a[0]), resized=True)


def bigger(im, n):
    px = [[im.px[y // n][x // n] for x in range(im.w * n)] for y in range(im.h * n)]
    return Img(im.bits, im.w * n, im.h * n, im.pal, px)


def smaller(im, n):
    """n x n boxes counted from the bottom-left corner, averaged per channel."""
    w, h = im.w // n, im.h // n
    f = 1 / n ** 2
    px = []
    for j in range(h):
        row = []
        for i in range(w):
            s = [0, 0, 0]
            for y in range(im.h - (h - j) * n, im.h - (h - j - 1) * n):
                for x in range(i * n, i * n + n):
                    for k, v in enumerate(chan(im.px[y][x])):
                        s[k] += v
            row.append(pack(*[rnd(v * f) for v in s]))
        px.append(row)
    return Img(24, w, h, None, px)


def g_shrink(rng, im):
    m = max(1, min(im.w, im.h, 5))
    return [rng.randint(1, m)]


@edit('resizeNtimessmaller2file', g_shrink, 'geom')
def _(im, a):
    if im.bits != 24:
        return Out(refuse=True)
    return Out(smaller(im, a[0]), resized=True)


@edit('pixelizenxntofile', g_shrink, 'geom')
def _(im, a):
    if im.bits != 24:
        return Out(refuse=True)
    return Out(bigger(smaller(im, a[0]), a[0]), resized=True)


@edit('eraseeverynthhoriline2file', g_args(a_n2), 'geom')
def _(im, a):
    n = a[0]
    o = im.copy()
    for y in range(im.h):
        if (y + 1) % n == 0:
            o.px[y] = [0] * im.w
    return Out(o, mask=lambda x, y: y == im.h - 1)       # last line: either way


@edit('palshift2file', lambda rng, im: [rng.choice([1, 1, 2, rng.randint(0, 40)])], 'color')
def _(im, a):
    if im.bits not in (4, 8):
        return Out(either=True)
    s = abs(a[0]) % (1 << im.bits)
    o = im.copy()
    o.pal = im.pal[s:] + im.pal[:s]
    return Out(o)


@edit('outline2file', g_none, 'geom')
def _(im, a):
    return outl(im, 0, 0, im.w - 1, im.h - 1)


def outl(im, x1, y1, x2, y2):
    if im.bits < 8:
        g = Packed(im)
        b1, b2 = g.span(x1, x2)
        for y in range(y2, y1 - 1, -1):
            g.g[y][b1:b2] = g.xor(g.g[y][b1:b2], g.g[max(y - 1, y1)][b1:b2])
        return g.out()
    o = im.copy()
    for y in range(y1, y2 + 1):
        for x in range(x1, x2 + 1):
            o.px[y][x] = im.px[y][x] ^ im.px[y - 1][x] if y > y1 else 0
    return Out(o)


# ---- rectangles ---------------------------------------------------------------
@edit('outlineregion2file', g_rect(sort=True), 'geom')
def _(im, a):
    if oob(im, a):
        return Out(either=True)
    return outl(im, *a[:4])


def regflip(name, v, h):
    @edit(name, g_rect(), 'geom')
    def _(im, a):
        if oob(im, a):
            return Out(either=True)
        r = srt(a)
        if im.bits < 8 and not sub_ok(im, r[0], r[2], h or 'F'):
            g = Packed(im)
            if h:
                g.hflip(*r, h)
            for i in range((r[3] - r[1] + 1) // 2) if v else ():
                g.vflip(*g.span(r[0], r[2]), r[1] + i, r[3] - i, v)
            return g.out()
        o = im
        if h:
            o = hflip(o, *r, h)
        if v:
            o = vflip(o, *r, v)
        return Out(o)


for _n, _v, _h in (('flipverticalregion2file', 'F', None), ('fliphorizontalregion2file', None, 'F'),
                   ('mirrorleftinregion2file', None, 'L'), ('mirrorrightinregion2file', None, 'R'),
                   ('mirrortopinregion2file', 'T', None), ('mirrorbottominregion2file', 'B', None),
                   ('mirrortopleftinregion2file', 'T', 'L'),
                   ('mirrortoprightinregion2file', 'T', 'R'),
                   ('mirrorbottomleftinregion2file', 'B', 'L'),
                   ('mirrorbottomrightinregion2file', 'B', 'R')):
    regflip(_n, _v, _h)


@edit('invertregion2file', g_rect(), 'geom')
def _(im, a):
    if oob(im, a):
        return Out(either=True)
    m = (1 << im.bits) - 1
    return Out(mapreg(im, lambda c: c ^ m, *srt(a)))


@edit('cropBMPandsave', g_rect(), 'geom')
def _(im, a):
    if oob(im, a):
        return Out(refuse=True)
    return Out(cropped(im, *srt(a)), resized=True)


def cropped(im, x1, y1, x2, y2):
    px = [im.px[y][x1:x2 + 1] for y in range(y1, y2 + 1)]
    return Img(im.bits, x2 - x1 + 1, y2 - y1 + 1, im.pal, px)


@edit('cropBMPandsaveusingrectbnd',
      lambda rng, im: (lambda r: [[[r[0], r[1]], [r[2] - 1, r[3] - 1]]])(
          rect_in(rng, im, sort=True)), 'geom')
def _(im, a):
    (x1, y1), (x2, y2) = a[0]
    b = [x1, y1, x2 + 1, y2 + 1]
    if oob(im, b):
        return Out(refuse=True)
    return Out(cropped(im, *srt(b)), resized=True)


@edit('eraseeverynthhorilineinregion2file', g_rect(a_n2), 'geom')
def _(im, a):
    if oob(im, a):
        return Out(either=True)
    r = srt(a)
    n = a[4]
    if im.bits < 8:
        g = Packed(im)
        for y in range(r[1], r[3]):
            if (y - r[1] + 1) % n == 0:
                g.zero(y, *g.span(r[0], r[2]))
        o = g.out()
        # last line: either way
        return Out(o.img, mask=lambda x, y: y == r[3] and r[0] // g.n * g.n <= x <= r[2] or o.mask and o.mask(x, y))
    o = im.copy()
    for y in range(r[1], r[3] + 1):
        if (y - r[1] + 1) % n == 0:
            for x in range(r[0], r[2] + 1):
                o.px[y][x] = 0
    return Out(o, mask=lambda x, y: y == r[3] and r[0] <= x <= r[2])


# ---- colour ---------------------------------------------------------------------
def c24(f, needs24=True):
    """Model of an adjustment of a rectangle of a true-colour picture."""
    def m(im, a):
        if im.bits != 24:
            return Out(refuse=True)
        if oob(im, a):
            return Out(either=True)
        x1, y1, x2, y2 = srt(a)
        q = {(x2, y): im.px[y][x2] for y in range(y1, y2 + 1)} if f is filt24 else None
        return Out(mapreg(im, lambda c: f(c, *a[4:]), x1, y1, x2, y2), quirk=q)
    return m


def lumfac(rgb):
    m = max(rgb) or 1
    return [v / m for v in rgb], m


def bright24(c, p):
    k = 1 + p / 100
    return pack(*[clamp(rnd(v * k)) for v in chan(c)])


def brightpal(rgb, p):
    f, m = lumfac(rgb)
    m = m * (1 + p / 100)
    return tuple(clamp(rnd(v * m)) for v in f)


def thr24(c, lr):
    lo, hi = sorted((lr[0] & 255, lr[1] & 255))
    r, g, b = chan(c)
    m = max(r, g, b)
    f = 1
    if m > 0:
        if m < lo:
            f = lo / m
        if m > hi:
            f = hi / m
    if f != 1:
        r, g, b = flo(f * r), flo(f * g), flo(f * b)
    return pack(r, g, b)


def thrpal(rgb, lr):
    f, m = lumfac(rgb)
    lo, hi = sorted(clamp(int(v)) for v in lr)
    m = lo if m < lo else hi if m > hi else m
    return tuple(rnd(v * m) for v in f)


def filt24(c, fac):
    return pack(*[rnd(v * f) for v, f in zip(chan(c), fac)])


def filtpal(rgb, fac):
    return tuple(clamp(rnd(v * f)) for v, f in zip(rgb, fac))


def gam24(c, g):
    r, gg, b = chan(c)
    m = max(r, gg, b) or 1
    f = flo((m / 255) ** g * 255) / m
    return pack(*[flo(v * f) & 255 for v in (r, gg, b)])


def gampal(rgb, g):
    f, m = lumfac(rgb)
    k = flo((m / 255) ** g * 255)
    return tuple(clamp(rnd(v * k)) for v in f)


def mono24(c):
    v = flo(sum(chan(c)) / 3)
    return pack(v, v, v)


def monopal(rgb):
    return (rnd(sum(rgb) / 3),) * 3


def wholecolor(name, f24, fpal, *gens):
    @edit(name, g_args(*gens), 'color')
    def _(im, a):
        if im.bits == 24:
            q = {(im.w - 1, y): im.px[y][im.w - 1] for y in range(im.h)} if f24 is filt24 else None
            return Out(mapreg(im, lambda c: f24(c, *a), 0, 0, im.w - 1, im.h - 1), quirk=q)
        o = im.copy()
        o.pal = [fpal(c, *a) for c in im.pal]
        return Out(o)


wholecolor('adjustbrightness2file', bright24, brightpal, a_pct)
wholecolor('thresholdadjust2file', thr24, thrpal, a_lum)
wholecolor('colorfilter2file', filt24, filtpal, a_fac)
wholecolor('gammaadj2file', gam24, gampal, a_gamma)
wholecolor('monochrome2file', mono24, monopal)

edit('adjustbrightnessinregion2file', g_rect(a_pct), 'color')(c24(bright24))
edit('adjustthresholdinregion2file', g_rect(a_lum), 'color')(c24(thr24))
edit('colorfilterinregion2file', g_rect(a_fac), 'color')(c24(filt24))
edit('gammaadjtoregion2file', g_rect(a_gamma), 'color')(c24(gam24))
edit('monofilterinregion2file', g_rect(), 'color')(c24(mono24))


def vgrad(im, x1, y1, x2, y2, lr):
    if y1 == y2:
        return Out(error=True)
    o = im.copy()
    lum = lr[1]
    d = (lr[0] - lum) / (y2 - y1)
    for y in range(y2, y1 - 1, -1):
        for x in range(x1, x2 + 1):
            o.px[y][x] = bright24(im.px[y][x], lum)
        lum += d
    return Out(o)


def hgrad(im, x1, y1, x2, y2, lr):
    if x1 == x2:
        return Out(error=True)
    o = im.copy()
    lum = lr[0]
    d = (lr[1] - lr[0]) / (x2 - x1)
    for x in range(x1, x2 + 1):
        for y in range(y1, y2 + 1):
            o.px[y][x] = bright24(im.px[y][x], lum)
        lum += d
    return Out(o, mask=lambda x, y: y == y1 and x1 <= x <= x2)    # top line: either way


@edit('verticalbrightnessgrad2file', g_args(a_lum), 'color')
def _(im, a):
    return Out(refuse=True) if im.bits != 24 else vgrad(im, 0, 0, im.w - 1, im.h - 1, a[0])


@edit('verticalbrightnessgradregion2file', g_rect(a_lum), 'color')
def _(im, a):
    return Out(refuse=True) if im.bits != 24 else Out(either=True) if oob(im, a) \
        else vgrad(im, *srt(a), a[4])


@edit('horizontalbrightnessgrad2file', g_args(a_lum), 'color')
def _(im, a):
    return Out(refuse=True) if im.bits != 24 else hgrad(im, 0, 0, im.w - 1, im.h - 1, a[0])


@edit('horizontalbrightnessgradregion2file', g_rect(a_lum), 'color')
def _(im, a):
    return Out(refuse=True) if im.bits != 24 else Out(either=True) if oob(im, a) \
        else hgrad(im, *srt(a), a[4])


# ---- discs ------------------------------------------------------------------------
def disc_color(name, f, *gens):
    @edit(name, g_circ(*gens), 'color')
    def _(im, a):
        if im.bits != 24:
            return Out(refuse=True)
        x, y, r = a[:3]
        o = im.copy()
        q = {}
        for yy, xa, xb in spans(im, x, y, r):
            for px in range(xa, xb):
                o.px[yy][px] = f(im.px[yy][px], *a[3:])
            if f is filt24 and xb > xa:
                q[xb - 1, yy] = im.px[yy][xb - 1]
        return Out(o, quirk=q)


disc_color('brightnessadjcircregion2file', bright24, a_pct)
disc_color('thresholdadjcircregion2file', thr24, a_lum)
disc_color('colorfiltercircregion2file', filt24, a_fac)
disc_color('gammacorrectcircregion2file', gam24, a_gamma)
disc_color('monochromecircregion2file', mono24)


@edit('vertbrightnessgrad2circregion2file', g_circ(a_lum, partial=False), 'color')
def _(im, a):
    if im.bits != 24:
        return Out(refuse=True)
    x, y, r, lr = a
    if not cin(im, x, y, r):
        return Out(either=True)
    o = im.copy()
    dl = (lr[1] - lr[0]) / (2 * r)
    for yy, xa, xb in spans(im, x, y, r):
        for px in range(xa, xb):
            o.px[yy][px] = bright24(im.px[yy][px], lr[0] + (yy - (y - r)) * dl)
    return Out(o)


@edit('horibrightnessgrad2circregion2file', g_circ(a_lum, partial=False), 'color')
def _(im, a):
    if im.bits != 24:
        return Out(refuse=True)
    x, y, r, lr = a
    if not cin(im, x, y, r):
        return Out(either=True)
    o = im.copy()
    dl = (lr[1] - lr[0]) / (2 * r)
    for dx, dy in cols_of(r).items():
        for px in {x - dx, x + dx}:
            for yy in range(y - dy, y + dy + 1):
                o.px[yy][px] = bright24(im.px[yy][px], lr[0] + (px - (x - r)) * dl)
    return Out(o)


@edit('invertbitsincircregion2file', g_circ(), 'geom')
def _(im, a):
    x, y, r = a
    m = (1 << im.bits) - 1
    if im.bits < 8:
        g = Packed(im)
        for yy, xa, xb in spans(im, x, y, r):
            for b in range(xa // g.n, xb // g.n):
                g.g[yy][b] = tuple(c if c is None else c ^ m for c in g.g[yy][b])
        return g.out()
    o = im.copy()
    for yy, xa, xb in spans(im, x, y, r):
        for px in range(xa, xb):
            o.px[yy][px] ^= m
    return Out(o)


def disc_flip(name, v, h):
    @edit(name, g_circ(partial=False), 'geom')
    def _(im, a):
        x, y, r = a
        if not cin(im, x, y, r) or im.bits < 8 and not v:
            return Out(either=True)
        if im.bits < 8:                       # the horizontal half is refused
            g = Packed(im)
            for dy, dx in rows_of(r).items():
                g.vflip((x - dx) // g.n, (x + dx) // g.n, y - dy, y + dy, v)
            return g.out()
        o = im.copy()
        if h:
            s = o.copy()
            for dx, dy in cols_of(r).items():
                for yy in range(y - dy, y + dy + 1):
                    if h in 'FR':
                        o.px[yy][x - dx] = s.px[yy][x + dx]
                    if h in 'FL':
                        o.px[yy][x + dx] = s.px[yy][x - dx]
        if v:
            s = o.copy()
            for dy, dx in rows_of(r).items():
                for px in range(x - dx, x + dx):
                    if v in 'FB':
                        o.px[y - dy][px] = s.px[y + dy][px]
                    if v in 'FT':
                        o.px[y + dy][px] = s.px[y - dy][px]
        return Out(o)


for _n, _v, _h in (('flipvertcircregion2file', 'F', None), ('fliphoricircregion2file', None, 'F'),
                   ('mirrortopincircregion2file', 'T', None),
                   ('mirrorbottomincircregion2file', 'B', None),
                   ('mirrorleftincircregion2file', None, 'L'),
                   ('mirrorrightincircregion2file', None, 'R'),
                   ('mirrortopleftincircregion2file', 'T', 'L'),
                   ('mirrortoprightincircregion2file', 'T', 'R'),
                   ('mirrorbottomleftincircregion2file', 'B', 'L'),
                   ('mirrorbottomrightincircregion2file', 'B', 'R')):
    disc_flip(_n, _v, _h)


@edit('eraseeverynthhorilineinccircregion2file', g_circ(a_n2, partial=False), 'geom')
def _(im, a):
    x, y, r, n = a
    if not cin(im, x, y, r):
        return Out(either=True)
    if im.bits < 8:
        g = Packed(im)
        for yy, xa, xb in spans(im, x, y, r):
            if yy % n == 0:
                g.zero(yy, xa // g.n, xb // g.n)
        return g.out()
    o = im.copy()
    for yy, xa, xb in spans(im, x, y, r):
        if yy % n == 0:
            for px in range(xa, xb):
                o.px[yy][px] = 0
    return Out(o)


@edit('flipXYcircregion2file', g_circ(partial=False), 'geom')
def _(im, a):
    x, y, r = a
    if not cin(im, x, y, r):
        return Out(either=True)
    o = im.copy()
    k = -1 if im.bits >= 8 else 1             # as flipXY: which diagonal depends on the depth
    for dy, dx in rows_of(r).items():
        for v in {-dy, dy}:
            for u in range(-dx, dx + 1):
                o.px[y + v][x + u] = im.px[y + k * u][x + v]
    return Out(o)


@edit('outlinecircregion2file', g_circ(), 'geom')
def _(im, a):
    x, y, r = a
    if im.bits < 8:
        g = Packed(im)
        for yy, xa, xb in spans(im, x, y, r):
            b1, b2 = xa // g.n, xb // g.n
            g.g[yy][b1:b2] = g.xor(g.g[yy][b1:b2], g.g[yy][b1 + 1:b2 + 1])
        return g.out()
    o = im.copy()
    for yy, xa, xb in spans(im, x, y, r):
        for px in range(xa, xb):
            o.px[yy][px] = im.px[yy][px] ^ im.px[yy][px + 1]
    return Out(o)


def g_copyc(rng, im):
    c = circ(rng, im, False)
    r = c[2]
    if im.w > 2 * r and im.h > 2 * r:
        nc = [rng.randint(r, im.w - 1 - r), rng.randint(r, im.h - 1 - r)]
    else:
        nc = [0, 0]
    if rng.random() < .1:
        nc[rng.randrange(2)] += rng.choice([-3, 3])
    return c + [nc]


@edit('copycircregion2file', g_copyc, 'geom')
def _(im, a):
    x, y, r, (nx, ny) = a
    if not cin(im, x, y, r) or not cin(im, nx, ny, r):
        return Out(either=True)
    o = im.copy()
    for dy, dx in rows_of(r).items():
        for v in {-dy, dy}:
            for u in range(-dx, dx):
                o.px[ny + v][nx + u] = im.px[y + v][x + u]
    return Out(o)


@edit('magnifyNtimescircregion2file', g_circ(a_n, partial=False), 'geom')
def _(im, a):
    x, y, r, n = a
    if im.bits != 24 or not cin(im, x, y, r):
        return Out(either=True)
    o = im.copy()
    for dy, dx in rows_of(r).items():
        for v in {-dy, dy}:
            for u in range(-dx, dx):
                o.px[y + v][x + u] = im.px[(n * y + v) // n][(n * x + u) // n]
    return Out(o)


@edit('pixelizenxncircregion2file', g_circ(a_n, partial=False), 'geom')
def _(im, a):
    x, y, r, n = a
    if im.bits != 24 or not cin(im, x, y, r):
        return Out(either=True)
    if im.w < n or im.h < n:
        return Out(error=True)
    b = bigger(smaller(im, n), n)
    o = im.copy()
    for yy, xa, xb in spans(im, x, y, r):
        for px in range(xa, min(xb, b.w)):
            if yy < b.h:
                o.px[yy][px] = b.px[yy][px]
    return Out(o)


# ---- drawing on files ------------------------------------------------------------
@edit('filledcircle2file', g_circ(a_color), 'draw')
def _(im, a):
    x, y, r, c = a
    o = im.copy()
    m = (1 << im.bits) - 1
    if im.bits == 1:
        c = 1 if c else 0
    q = {}
    for dy, dx in rows_of(r).items():
        for yy in {y - dy, y + dy}:
            if 0 <= yy < im.h:
                xa, xb = max(0, x - dx), min(im.w - 1, x + dx)
                for px in range(xa, xb + 1):
                    o.px[yy][px] = c & m
                q4(im, yy, xa, xb, c & m, q)
    return Out(o, quirk=q)


def q4(im, y, x1, x2, c, q):
    """Known finding: a 4-bit run can miss its last pixel, or hit the one before."""
    if im.bits == 4 and x1 <= x2 and not (x1 % 2 == 0 and x2 % 2 == 1):
        q[x2, y] = im.px[y][x2]
        if x1 == x2 and x1 % 2:
            q[x1 - 1, y] = c


def g_circle_draw(rng, im):
    a = circ(rng, im, True)
    return a + [rng.getrandbits(24) if im.bits == 24 else rng.randrange(1 << im.bits)]


@edit('circle2file', g_circle_draw, 'draw')
def _(im, a):
    x, y, r, c = a
    o = im.copy()
    for row, col, down in circle_points(r):
        for u, v in ((row, col), (col, row)):
            for sx in (-1, 1):
                for sy in (-1, 1):
                    px, py = x + sx * u, y + sy * v
                    if 0 <= px < im.w and 0 <= py < im.h:
                        o.px[py][px] = c
    return Out(o)


def g_rect_draw(rng, im):
    return rect_in(rng, im) + [rng.getrandbits(24) if im.bits == 24 else rng.randrange(1 << im.bits)]


@edit('rectangle2file', g_rect_draw, 'draw')
def _(im, a):
    x1, y1, x2, y2 = srt(a)
    o = im.copy()
    for x in range(x1, x2 + 1):
        o.px[y1][x] = o.px[y2][x] = a[4]
    for y in range(y1, y2 + 1):
        o.px[y][x1] = o.px[y][x2] = a[4]
    return Out(o)


@edit('filledrect2file', g_rect(a_color), 'draw')
def _(im, a):
    if oob(im, a):
        return Out(either=True)
    r = srt(a)
    c = nearest(chan(a[4]), im.pal) if im.bits == 8 else a[4] & ((1 << im.bits) - 1)
    if im.bits == 1:
        c = 1 if a[4] else 0
    q = {}
    for y in range(r[1], r[3] + 1):
        q4(im, y, r[0], r[2], c, q)
    return Out(mapreg(im, lambda _: c, *r), quirk=q)


def penned(f, im, a):
    """What the drawing model makes of it, a recorded finding as quirk."""
    from . import draw
    f = draw.OPS[f].model if isinstance(f, str) else f
    P, Q = [draw.Pen(im, quirky=q, eps=EPS) for q in (False, True)]
    f(P, a)
    f(Q, a)
    q = {(x, y): v for y, row in enumerate(Q.px) for x, v in enumerate(row) if v != P.px[y][x]}
    return Out(P.im, quirk=q)


@edit('filledgradrect2file', lambda rng, im: rect_any(rng, im) + [a_lum(rng), a_fac(rng),
                                                               rng.randint(0, 1)], 'draw')
def _(im, a):
    if im.bits < 8 or oob(im, a):
        return Out(either=True)
    r = srt(a)
    if im.bits == 8:
        return penned('filledgradrect', im, a)
    lr, fac, d = a[4:7]
    p = [f * lr[0] for f in fac]
    q = [f * lr[1] for f in fac]
    return Out(gradfill(im, r, p, q, d))


def gradfill(im, r, p, q, d):
    x1, y1, x2, y2 = r
    o = im.copy()
    for y in range(y1, y2 + 1):
        for x in range(x1, x2 + 1):
            t = x / (x2 - x1 + 1) if d == 0 else y / (y2 - y1 + 1)
            t = 0.0 if t < 0 else 1.0 if t > 1 else t
            o.px[y][x] = pack(*[rnd((1.0 - t) * u + t * v) for u, v in zip(p, q)])
    return o


@edit('filleddichromaticgradrect2file', lambda rng, im: rect_any(rng, im) + [
    a_color(rng), a_color(rng), rng.randint(0, 1)], 'draw')
def _(im, a):
    if im.bits != 24 or oob(im, a):
        return Out(either=True)
    return Out(gradfill(im, srt(a), chan(a[4]), chan(a[5]), a[6]))


@edit('sphere2file', lambda rng, im: circ(rng, im, False) + [
    a_fac(rng) if rng.random() < .6 else [a_color(rng), a_color(rng)]], 'draw')
def _(im, a):
    if im.bits != 24:
        return Out(refuse=True)
    return penned('sphere', im, a)


@edit('thickencirclearea2file', g_circ(a_fac), 'draw')
def _(im, a):
    if im.bits != 24:
        return Out(refuse=True)
    return penned('gradthickcircle', im, [*a[:3], 8, [255, 0], a[3]])


# ---- comparing, reducing, finding -----------------------------------------------
def comp(fn, op):
    @edit(fn, g_none, 'color')
    def _(im, im2):
        if im2 is None or (im.bits, im.w, im.h) != (im2.bits, im2.w, im2.h):
            return Out(refuse=True)
        return Out(Img(im.bits, im.w, im.h, im.pal,
                       [[op(a, b) for a, b in zip(p, q)] for p, q in zip(im.px, im2.px)]))
    E[fn].two = True


comp('imagediff', lambda a, b: a ^ b)
comp('showsimilarparts', lambda a, b: a & b)


def d2(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def nearest(rgb, pal):
    """First equal entry, else the first nearest one that is not black."""
    rgb = tuple(rgb)
    if rgb in pal:
        return pal.index(rgb)
    best = None
    if rgb != (0, 0, 0):
        for i, p in enumerate(pal):
            if p != (0, 0, 0) and (best is None or d2(rgb, p) < best[0]):
                best = d2(rgb, p), i
    return best[1] if best else 0


def g_reduce(rng, im):
    mono = rng.random() < .4
    return [rng.choice([4, 4, 8]), rng.choice([1, 24, 60, 100]), mono,
            [rng.choice([0, 1, .5, .25]) for _ in range(3)] if mono else None]


@edit('reduce24bitimagebits', g_reduce, 'color')
def _(im, a):
    if im.bits != 24:
        return Out(refuse=True)
    bits, thr, mono, fac = a
    n = 1 << bits
    if mono:
        pal = [tuple(rnd(f * c) for f in fac) for c in range(0, 256, 255 // (n - 1))]
    else:
        hist = {}
        for row in im.px:
            for c in row:
                hist[c] = hist.get(c, 0) + 1
        pal = [(0, 0, 0)]
        for c, k in sorted(hist.items(), key=lambda t: (-t[1], -t[0])):
            if all(d2(chan(c), p) >= thr * thr for p in pal):
                pal.append(chan(c))
            if len(pal) == n:
                break
        pal += [(0, 0, 0)] * (n - len(pal))
    return Out(Img(bits, im.w, im.h, pal, [[nearest(chan(c), pal) for c in row] for row in im.px]))


def exactly(rng, im, c=None):
    """A whole number that is exactly the distance of two colours of the picture (or of one from c)."""
    for _ in range(40):
        x, y = rng.randrange(im.w), rng.randrange(im.h)
        o = c or im.rgb(max(0, min(im.w - 1, x + rng.choice([-1, 0, 1]))), max(0, y - 1))
        d = d2(im.rgb(x, y), o)
        if d and math.isqrt(d) ** 2 == d:
            return math.isqrt(d)
    return 0


def edgebox(im, thr):
    """Bounding box of the neighbours that differ from their pixel."""
    pts = []
    for y in range(im.h - 1, -1, -1):
        for x in range(im.w):
            c = im.rgb(x, y)
            for dx, dy in ((0, -1), (0, 1), (-1, -1), (-1, 0), (-1, 1), (1, -1), (1, 0), (1, 1)):
                u, v = x + dx, y + dy
                if 0 <= u < im.w and 0 <= v < im.h and d2(im.rgb(u, v), c) > thr * thr:
                    pts.append((u, v))
                    break
    if not pts:
        return None
    xs, ys = zip(*pts)
    return min(xs), min(ys), max(xs), max(ys)


@edit('autocropimg2file', lambda rng, im: [rng.choice([0, 1, 64, 150, 300, 460]) if rng.random() < .7 else exactly(rng, im)], 'geom')
def _(im, a):
    b = edgebox(im, a[0])
    if b is None:
        return Out(error=True)
    x1, y1, x2, y2 = b
    if oob(im, [x1, y1, x2 + 1, y2 + 1]):
        return Out(refuse=True)
    return Out(cropped(im, x1, y1, x2 + 1, y2 + 1), resized=True)


def g_region(rng, im):
    y = rng.randrange(im.h)
    x = rng.randrange(im.w)
    c = list(im.rgb(x, y))
    return [rng.choice([0, 1, 1, 2, 3]), rng.getrandbits(24), c,
            rng.choice([1, 50, 120, 300]) if rng.random() < .7 else exactly(rng, im, c), rng.random() < .5]


@edit('imgregionbyRGB2file', g_region, 'draw')
def _(im, a):
    r, c, rgb, thr, only = a
    pts = [(x, y) for y in range(im.h) for x in range(im.w) if d2(im.rgb(x, y), rgb) < thr * thr]
    o = Img(im.bits, im.w, im.h, im.pal) if only else im.copy()
    c = (1 if c else 0) if im.bits == 1 else c & ((1 << im.bits) - 1)
    if r > 1 and im.bits == 4:
        return penned(lambda P, a: [P.disc(*p, r, c) for p in pts], o, a)
    for x, y in pts:
        if r <= 1:
            o.px[y][x] = c
            continue
        for dy, dx in rows_of(r).items():
            for yy in {y - dy, y + dy}:
                if 0 <= yy < im.h:
                    for xx in range(max(0, x - dx), min(im.w - 1, x + dx) + 1):
                        o.px[yy][xx] = c
    return Out(o)


# ---- judging ----------------------------------------------------------------------
def judge(outs, src, got, seen=None):
    """outs: variants(); got: parsed destination (Img), 'untouched' or 'broken'.

    None if acceptable.  Positions where only a recorded finding explains the
    value are added to seen."""
    out = outs[0]
    if out.error or out.refuse:
        if got != 'untouched':
            return 'a refused edit wrote its destination'
        return None
    if out.either:
        if got == 'untouched':
            return None
        if isinstance(got, Img):
            d = src.diff(got)
            return None if d is None else f'an out-of-range edit altered the picture: {d}'
        return 'an out-of-range edit left an unreadable file'
    if got == 'untouched':
        return 'the edit was acknowledged but its destination was not written'
    if not isinstance(got, Img):
        return 'the destination is not a readable picture'
    if out.weak:
        if (got.bits, got.w, got.h, got.pal) != (src.bits, src.w, src.h, src.pal):
            return 'geometry or palette changed'
        bad = [(x, y) for y in range(src.h) for x in range(src.w)
               if src.px[y][x] != got.px[y][x] and not out.weak(x, y)]
        return None if not bad else f'{len(bad)} pixels outside the region changed, first {bad[0]}'
    want = out.img
    for k in ('bits', 'w', 'h'):
        if getattr(want, k) != getattr(got, k):
            return f'{k}: expected {getattr(want, k)}, got {getattr(got, k)}'
    others = [o.img for o in outs[1:]]
    if want.pal != got.pal:
        for i, c in enumerate(want.pal):
            ok = [c] + [o.pal[i] for o in others]
            if any(v not in [t[k] for t in ok] for k, v in enumerate(got.pal[i])):
                return f'palette entry {i}: expected {c}, got {got.pal[i]}'
    bad = []
    for y in range(want.h):
        wr, gr = want.px[y], got.px[y]
        if wr == gr:
            continue
        for x in range(want.w):
            v = gr[x]
            if v == wr[x] or out.mask and out.mask(x, y):
                continue
            if others:
                ok = [wr[x]] + [o.px[y][x] for o in others]
                if v in ok or want.bits == 24 and all(
                        c in [chan(t)[k] for t in ok] for k, c in enumerate(chan(v))):
                    continue
            if out.quirk.get((x, y)) == v:
                if seen is not None:
                    seen.add((x, y))
                continue
            bad.append((x, y))
    if bad:
        x, y = bad[0]
        return (f'{len(bad)} of {want.w * want.h} pixels differ, first at ({x},{y}): '
                f'expected {want.px[y][x]:#x}, got {got.px[y][x]:#x}')
    return None
