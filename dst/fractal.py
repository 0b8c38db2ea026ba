"""Reference model of the escape-time, Newton and attractor pictures.

Every pixel of a fractal is a function of its own point of the plane alone:
POINT holds the rule, DRAW the drawing functions, SAVE the functions that make
a picture file.  Iterated floating point is judged with a nudge: a pixel is
right when the rule gives its value at the point or at a neighbour closer than
1e-9; where these differ, counts of FAR or more are not told apart (rounding decides them).
"""
import cmath
import math
from fractions import Fraction

FAR = 24


def escape(step, out, n, z):
    for i in range(n):
        z = step(z)
        if out(z):
            return i
    return n


def beyond(z):
    return abs(z) > 2


def _tetration(p, d, n):
    z, y = p, 0
    for i in range(d):
        try:
            z = z ** z
            y += z.imag
        except OverflowError:
            return i % n
        if abs(y) > d:
            return i % n
    return n


def _trig(f):
    def g(p, c, n, lim=50):
        z, s = p, 0
        for i in range(lim):
            z = c * f(z)
            s += z.imag
            if abs(s) > lim:
                return i % n
        return n
    return g


def _dragon(p, t, n):
    d = cmath.exp(2j * math.pi * t)
    z, s = p, 0
    for i in range(65):
        z = z * (d + z)
        s += abs(z.imag)
        if s > 65:
            return i % n
    return n


def _ngon(p, c, k, n):
    z = p
    for i in range(n):
        if z == 0:
            return i
        z = (z ** k + c) / z
        if beyond(z):
            return i
    return n


def _tree(p, d, n):
    return escape(lambda z: d * (z - ((z.real > 0) - (z.real < 0))), beyond, n, p)


def bio(f):
    def g(p, c, d, n):
        z = p
        for i in range(n):
            z = f(z, d) + c
            re, im = abs(z.real) > 5, abs(z.imag) > 5
            if re and im:
                return i
            if re or im:
                return n
        return n
    return g


def _biovar(p, c, d, n):
    z = p
    for _ in range(n):
        z = z ** d + c
        if abs(z.real) > 5 or abs(z.imag) > 5:
            return round(abs(z)) % n
    return n


ONE = {
    'brot': lambda p, d, n: escape(lambda z: z ** d + p, beyond, n, 0),
    'corn': lambda p, d, n: escape(lambda z: z.conjugate() ** d + p, beyond, n, 0j),
    'circle': lambda p, d, n: round(abs(p ** d)) % n,
    'hyperbola': lambda p, d, n: round(abs(p.real ** d - p.imag ** d)) % n,
    'superellipse': lambda p, d, n: abs(p.real ** d + p.imag ** d) % n,
    'astroid': lambda p, r, n: round(abs((p.real ** 2 + p.imag ** 2 - r * r) ** 3
                                         + 27 * p.real ** 2 * p.imag ** 2 * r * r)) % n,
    'lemniscate': lambda p, r, n: int(abs((p.real ** 2 + p.imag ** 2) ** 2
                                          - 2 * r * r * (p.real ** 2 - p.imag ** 2))) % n,
    'xor': lambda p, d, n: (int(p.real) ^ int(p.imag)) % d % n,
    'xordiv': lambda p, d, n: (int(p.real) ^ int(p.imag)) // d % n,
    'tetration': _tetration, 'sin': _trig(cmath.sin), 'cos': _trig(cmath.cos),
    'spiral': lambda p, c, n: escape(lambda z: cmath.tan(z * z + c), beyond, n, p),
    'lambda': lambda p, c, n: escape(lambda z: c * z * (1 - z), beyond, n, p),
    'tree': _tree, 'dragon': _dragon,
}
TWO = {
    'julia': lambda p, c, d, n: escape(lambda z: z ** d + c, beyond, n, p),
    'ngon': _ngon, 'biovar': _biovar,
    'bio': bio(lambda z, d: z ** d),
    'biophase': bio(lambda z, d: z ** (d + abs(cmath.phase(z)))),
    'biosin': bio(lambda z, d: cmath.sin(z) + z ** d), 'biocos': bio(lambda z, d: cmath.cos(z) + z ** d),
    'biosinh': bio(lambda z, d: cmath.sinh(z) + z ** d), 'biocosh': bio(lambda z, d: cmath.cosh(z) + z ** d),
    'biotan': bio(lambda z, d: cmath.tan(z) + z ** d), 'biotanh': bio(lambda z, d: cmath.tanh(z) + z ** d),
    'bioexp': bio(lambda z, d: cmath.exp(z) + z ** d), 'bio2nd': bio(lambda z, d: z ** z + z ** d),
    'bioconj': bio(lambda z, d: z.conjugate() ** d),
}
# drawing function -> rule, parameters: '' none (power 2), 'd' one, 'c' one with power 2, 'cd' two
DRAW = {
    'mandelbrot': ('brot', ''), 'tricorn': ('corn', ''),
    'multibrot': ('brot', 'd'), 'multicorn': ('corn', 'd'), 'multicircle': ('circle', 'd'),
    'multihyperbola': ('hyperbola', 'd'), 'multisuperellipse': ('superellipse', 'd'),
    'astroidfractal': ('astroid', 'd'), 'lemniscatefractal': ('lemniscate', 'd'), 'xorfractal': ('xor', 'd'),
    'xordivfractal': ('xordiv', 'd'), 'tetrationfractal': ('tetration', 'd'), 'sinjulia': ('sin', 'd'),
    'cosjulia': ('cos', 'd'), 'spiraljulia': ('spiral', 'd'), 'lambdafractal': ('lambda', 'd'),
    'barnsleytree': ('tree', 'd'), 'marekdragon': ('dragon', 'd'),
    'julia': ('julia', 'c'), 'multijulia': ('julia', 'cd'), 'ngonfractal': ('ngon', 'cd'),
    'multibiomorphvariant': ('biovar', 'cd'), 'multibiomorphphasevariant': ('biophase', 'cd'),
    'multibiomorph': ('bio', 'cd'), 'multisinbiomorph': ('biosin', 'cd'), 'multicosbiomorph': ('biocos', 'cd'),
    'multisinhbiomorph': ('biosinh', 'cd'), 'multicoshbiomorph': ('biocosh', 'cd'),
    'multitanbiomorph': ('biotan', 'cd'), 'multitanhbiomorph': ('biotanh', 'cd'),
    'multiexpbiomorph': ('bioexp', 'cd'), 'multi2ndtetrationbiomorph': ('bio2nd', 'cd'),
    'multizconjugatebiomorph': ('bioconj', 'cd'),
}
SAVE = {f'save{k}fractal2file': k for k in DRAW if k not in
        ('sinjulia', 'cosjulia', 'spiraljulia', 'marekdragon', 'ngonfractal', 'lambdafractal', 'astroidfractal',
         'lemniscatefractal', 'xorfractal', 'xordivfractal', 'tetrationfractal')}
SAVE.update({f'save{k}2file': k for k in ('sinjulia', 'cosjulia', 'spiraljulia', 'marekdragon', 'ngonfractal',
                                          'lambdafractal', 'astroidfractal', 'lemniscatefractal', 'xorfractal',
                                          'xordivfractal', 'tetrationfractal')})


def cparam(rng, few=.2):
    if rng.random() < .06:                               # most points escape, after many steps
        return [.25 + 10 ** rng.uniform(-4.4, -3), 0.0]
    if rng.random() < few:                               # few bits
        return [float(rng.choice([-2, -1, -.75, 0, .25, .5, 1, 1, 2, 4])), float(rng.choice([0, 0, 0, .5, -1]))]
    return [round(rng.uniform(-1.2, 1.2), 3), round(rng.uniform(-1.2, 1.2), 3)]


def params(rng, fn):
    """[parameters] of a drawing function; a complex number as a pair."""
    rule, kind = DRAW[fn]
    if kind == '':
        return []
    if kind == 'c':
        return [cparam(rng)]
    d = rng.choice([2, 2, 3, 4, 2.5])
    if kind == 'cd':
        return [round(rng.uniform(-1, 1), 3) if rule == 'ngon' else cparam(rng), rng.choice([2, 3, 4]) if rule == 'ngon' else d]
    if rule in ('xor', 'xordiv'):
        return [rng.randint(1, 40)]
    if rule == 'tetration':
        return [rng.randint(1, 30)]
    if rule in ('sin', 'cos', 'spiral', 'lambda', 'tree'):
        return [cparam(rng)]
    if rule in ('astroid', 'lemniscate'):
        return [round(rng.uniform(.2, 4), 3)]
    if rule == 'dragon':
        return [round(rng.uniform(0, 1), 4)]
    return [d]


def lattice(rng, fn):
    """Corners of a region of 8 or 16 pixels a side whose points need few bits."""
    rule = DRAW.get(fn, ('brot',))[0]
    k = 4 if rule in ('xor', 'xordiv', 'circle', 'hyperbola', 'astroid', 'lemniscate') else 1
    out = []
    for _ in range(2):
        a = rng.choice([-2, -2, -1, 0, -3, .5]) * k
        out += rng.choice([(a + 4 * k, a), (a + 2 * k, a), (a, a + 4 * k)])
    return out


class Dyadic:
    """A complex number computed without rounding; Inexact where doubles would have to round."""

    class Inexact(Exception):
        pass

    def __init__(self, re, im=0):
        self.real, self.imag = Fraction(re), Fraction(im)
        for v in (self.real, self.imag):
            d = v.denominator
            if d & (d - 1) or d.bit_length() + abs(v.numerator).bit_length() > 22:
                raise Dyadic.Inexact

    @classmethod
    def of(cls, v):
        return v if isinstance(v, cls) else cls(v.real, v.imag)

    def __add__(self, o):
        o = Dyadic.of(o)
        return Dyadic(self.real + o.real, self.imag + o.imag)

    def __mul__(self, o):
        o = Dyadic.of(o)
        return Dyadic(self.real * o.real - self.imag * o.imag, self.real * o.imag + self.imag * o.real)
    __radd__, __rmul__ = __add__, __mul__

    def __neg__(self):
        return Dyadic(-self.real, -self.imag)

    def __sub__(self, o):
        return self + -Dyadic.of(o)

    def __rsub__(self, o):
        return -self + o

    def __eq__(self, o):
        o = Dyadic.of(o)
        return (self.real, self.imag) == (o.real, o.imag)

    def __pow__(self, d):
        if d != int(d) or not 0 < d < 9:
            raise Dyadic.Inexact
        z = self
        for _ in range(int(d) - 1):
            z = z * self
        return z

    def conjugate(self):
        return Dyadic(self.real, -self.imag)

    def __abs__(self):
        q = self.real ** 2 + self.imag ** 2
        r = Fraction(math.isqrt(q.numerator), math.isqrt(q.denominator))
        return r if r * r == q else math.sqrt(q)


def exact(fn, par, p, n):
    """The count at a point where no rounding can play a part, else None."""
    try:
        rule, kind = DRAW[fn]
        if rule in ('xor', 'xordiv'):
            return count(fn, par, p, n) if Dyadic.of(p) else None
        if rule in ('circle', 'hyperbola', 'superellipse', 'astroid', 'lemniscate', 'ngon'):
            return None
        par = [Dyadic.of(v) if isinstance(v, complex) else v for v in par]
        return count(fn, par, Dyadic.of(p), n)
    except (Dyadic.Inexact, TypeError, AttributeError):
        return None


def domain(rng, fn):
    rule = DRAW.get(fn, ('brot',))[0]
    s = 20 if rule in ('xor', 'xordiv', 'circle', 'hyperbola') else 4 if rule in ('astroid', 'lemniscate') else 2
    v = [round(rng.uniform(-s, s), 3) for _ in range(4)]
    if v[0] == v[1]:
        v[0] += 1
    if v[2] == v[3]:
        v[2] += 1
    return v            # Pmax, Pmin, Qmax, Qmin in either order


def zoom(rng, fn, par, dom):
    """A small window on the border between two counts, found by bisection."""
    par, n = live(par), rng.choice([120, 120, 490])

    def c(p):
        try:
            return count(fn, par, p, n)
        except (OverflowError, ZeroDivisionError, ValueError):
            return None
    a, b = complex(dom[0], dom[2]), complex(dom[1], dom[3])
    if rng.random() < .35:                               # where points escape slowly
        d = par[-1] if DRAW[fn][1] == 'd' else 2
        if DRAW[fn][0] == 'brot' and isinstance(d, (int, float)) and d > 1:      # next to the cusp
            p = complex((d - 1) / d ** (d / (d - 1)) + 10 ** rng.uniform(-4.3, -2.5), 0)
        else:
            p, k, s = None, -1, abs(b - a) / 2
            for _ in range(90):
                q = p + complex(rng.gauss(0, s), rng.gauss(0, s)) if p is not None else \
                    complex(rng.uniform(a.real, b.real), rng.uniform(a.imag, b.imag))
                m = c(q)
                if m is not None and k < m < n:
                    p, k = q, m
                elif p is not None:
                    s *= .9
        if p is not None:
            w = 10 ** rng.uniform(-6, -2.5)
            return [p.real + w, p.real - w, p.imag + w, p.imag - w]
    if rng.random() < .4:                                # along an axis
        a, b = (complex(a.real, 0), complex(b.real, 0)) if rng.random() < .7 else (complex(0, a.imag), complex(0, b.imag))
    if rng.random() < .6:
        a = 0j
    ca, cb = c(a), c(b)
    if ca == cb or None in (ca, cb):
        return dom
    for _ in range(rng.randint(8, 26)):
        m = (a + b) / 2
        k = c(m)
        if k is None:
            return dom
        if k == ca:
            a = m
        else:
            b, cb = m, k
    w = [10 ** rng.uniform(-5, -.5) for _ in range(4)]
    if rng.random() < .5:
        w = [w[0]] * 4
    return [b.real + w[0], b.real - w[1], b.imag + w[2], b.imag - w[3]]


def live(v):
    return [complex(*a) if isinstance(a, list) else a for a in v]


def count(fn, par, p, n):
    rule, kind = DRAW[fn]
    if kind == '':
        par = [2]
    elif kind == 'c':
        par = [par[0], 2]
    return (ONE[rule] if rule in ONE else TWO[rule])(p, *par, n)


def tint(lum, f):
    r, g, b = (int(k * lum) for k in f)
    return r << 16 | g << 8 | b


def shade(bits, c, factors):
    if bits == 24:
        return tint((255 - c) * 20 % 256, factors)
    if bits == 1:
        return 1 if c % 2 > 0 else 0
    k = int(c) if len(factors) == 3 else (1 << bits) - 1 - int(c)
    return k % (1 << bits)


class Plane:
    """The points of a rectangle of pixels, corners in any order, right and lower edge not included."""

    def __init__(self, x1, y1, x2, y2, dom):
        self.x1, self.x2 = sorted((x1, x2))
        self.y1, self.y2 = sorted((y1, y2))
        self.d = dom
        self.dp = (dom[0] - dom[1]) / (self.x2 - self.x1)
        self.dq = (dom[2] - dom[3]) / (self.y2 - self.y1)

    def point(self, x, y):
        return complex(self.d[1] + (x - self.x1) * self.dp, self.d[3] + (y - self.y1) * self.dq)

    def pixels(self, w, h):
        for y in range(max(0, self.y1), min(h, self.y2)):
            for x in range(max(0, self.x1), min(w, self.x2)):
                yield x, y


NUDGE = [complex(a, b) * s for s in (1e-15, 1e-12, 1e-9) for a in (-1, 0, 1) for b in (-1, 0, 1)]


def counts(fn, par, p, n):
    """Every count rounding may give at this point (None: may fail)."""
    out = set()
    for e in NUDGE:
        try:
            out.add(count(fn, par, p + e, n))
        except (OverflowError, ZeroDivisionError, ValueError):
            out.add(None)
    return out


def allowed(fn, par, p, n, bits, factors):
    """Colours a pixel may have besides the one at exactly its point."""
    if exact(fn, par, p, n) is not None:
        return set()
    cs = counts(fn, par, p, n)
    # modular rules know no 'far'; iterated ones do
    if DRAW[fn][0] not in ('circle', 'hyperbola', 'superellipse', 'astroid', 'lemniscate', 'xor', 'xordiv'):
        if len(cs) > 1 and n > FAR:
            cs |= set(range(FAR, n + 1))
    return {shade(bits, c, factors) for c in cs if c is not None}


def mono_pal(bits, f):
    n = 1 << bits
    inc = {1: 255, 4: 17, 8: 1}[bits]
    out = []
    for k in range(n):
        j = (255 - k * inc) * 20 % 256
        out.append(tuple(round(t * j) for t in f))
    return out


def dich_pal(bits, c1, c2):
    """[(r, g, b) exact, unrounded] of the two-colour palette."""
    n = 1 << bits
    out = [None] * n
    for i in range(n):
        t = i / n
        out[(n - i) * 3 % n] = tuple(a + (b - a) * t for a, b in
                                     zip((c1 >> 16, c1 >> 8 & 255, c1 & 255), (c2 >> 16, c2 >> 8 & 255, c2 & 255)))
    return out


def pal_wrong(pal, bits, f):
    """What is wrong with the palette of a fractal picture file, or None."""
    if bits == 24:
        return None
    if len(f) == 3:
        want = mono_pal(bits, f)
        return None if pal == want else f'palette is {pal[:3]}.., expected {want[:3]}..'
    want = dich_pal(bits, *f)
    for i, (p, q) in enumerate(zip(pal, want)):
        if any(abs(a - b) > .5 + 1e-6 for a, b in zip(p, q)):
            return f'palette entry {i} is {p}, expected {q}'
    return None


# attractors: formula of the orbit from (parameters, length)
def _iter(step, s, n):
    out = []
    for _ in range(n):
        s = step(*s)
        out.append((s[0], s[1]))
    return out


sin, cos = math.sin, math.cos


def _ikeda(a, b, k, p, n):
    z, out = 0j, []
    for _ in range(n):
        z = a + b * z * cmath.exp(1j * k - 1j * p / (1 + abs(z * z)))
        out.append((z.real, z.imag))
    return out


def _n(a, b, c, d, n):
    def st(x, y):
        x = a * sin(a * y) + b * cos(b * x)
        return x, c * sin(c * x) + d * cos(d * y)
    return _iter(st, (0, 0), n)


def _mira(x, y, a, b, n):
    f = lambda t: a * t + 2 * (1 - a) * t * t * (1 + t * t) ** -2
    g, out = f(x), []
    for _ in range(n):
        z, x = x, b * y + g
        g = f(x)
        y = g - z
        out.append((x, y))
    return out


def _icon(x, y, a, b, g, o, l, d, n):
    z, out = complex(x, y), []
    for _ in range(n):
        p, c = z ** (d - 1), z.conjugate()
        z = (a * abs(z * c) + l + b * (z.real * p.real - z.imag * p.imag)) * z + (g * p).conjugate() - o * c * 1j
        out.append((z.real, z.imag))
    return out


def _duffing(a, b, w, dt, n):
    x = y = t = 0
    out = []
    for _ in range(n):
        dx, dy = y * dt, (x - x ** 3 - a * y + b * cos(w * t)) * dt
        x, y, t = x + dx, y + dy, t + dt
        out.append((x, y))
    return out


ORBIT = {
    'ikeda': (_ikeda, 4), 'gumowskimira': (_mira, 4), 'n': (_n, 4), 'duffing': (_duffing, 4),
    'symmetricicon': (_icon, 8),
    'peterdejong': (lambda a, b, c, d, n: _iter(
        lambda x, y: (sin(a * y) - cos(b * x), sin(c * x) - cos(d * y)), (0, 0), n), 4),
    'clifford': (lambda a, b, c, d, n: _iter(
        lambda x, y: (sin(a * y) + c * cos(a * x), sin(b * x) + d * cos(b * y)), (0, 0), n), 4),
    'fractaldream': (lambda a, b, c, d, n: _iter(
        lambda x, y: (sin(b * y) + c * sin(b * x), sin(a * x) + d * sin(a * y)), (.1, .1), n), 4),
    'hopalong': (lambda a, b, c, n: _iter(
        lambda x, y: (y - ((x > 0) - (x < 0)) * abs(b * x - c) ** .5, a - x), (0, 0), n), 3),
}


def orbit_args(rng, k):
    if k == 'gumowskimira':
        return [round(rng.uniform(.1, 2), 3), round(rng.uniform(.1, 2), 3), round(rng.uniform(-.9, .9), 3), 1.0]
    if k == 'symmetricicon':
        return [.01, .01, round(rng.uniform(-2.6, -2), 3), round(rng.uniform(0, .2), 3), round(rng.uniform(.1, 1), 3),
                0.0, round(rng.uniform(1, 2), 3), rng.randint(3, 6)]
    if k == 'duffing':
        return [round(rng.uniform(.1, .3), 3), round(rng.uniform(.1, .4), 3), round(rng.uniform(.5, 2), 3),
                round(rng.uniform(.01, .2), 3)]
    if k == 'ikeda':
        return [round(rng.uniform(.5, 1), 3), round(rng.uniform(.5, .9), 3), .4, 6.0]
    return [round(rng.uniform(-2, 2), 3) for _ in range(ORBIT[k][1])]


def density(pts, w, h, bits):
    """Pictures rounding may give of an orbit: cells of w-1 by h-1 equal steps, the extremes in the last or the one before."""
    if any(not math.isfinite(v) or abs(v) > 1e100 for p in pts for v in p):
        return None
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    sx, sy = (max(xs) - min(xs)) / (w - 1), (max(ys) - min(ys)) / (h - 1)
    if sx == 0 or sy == 0:
        return None
    for ex in (0, -1e-9, 1e-9):
        for ey in (0, -1e-9, 1e-9):
            g = [[0] * w for _ in range(h)]
            for x, y in pts:
                i, j = (x - min(xs)) / sx, (y - min(ys)) / sy
                g[min(h - 1, max(0, int(j + ey)))][min(w - 1, max(0, int(i + ex)))] += 1
            lo, hi = min(map(min, g)), max(map(max, g))
            if lo == hi:
                continue
            top = (1 << bits) - 1
            for e in (0, 1e-9, -1e-9):
                yield [[max(0, min(top, int((v - lo) * (top / (hi - lo)) + e))) for v in row] for row in g]
