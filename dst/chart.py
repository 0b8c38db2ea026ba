"""Charts, solids and flowers: what each must put where, on a Pen.

Every op has gen(rng, im) -> JSON-able arguments, run(B, S, bmp, a) -> the library
call, model(P, a) -> the same on a TextPen.  P.eps nudges every real value before it
is rounded, so a pixel that sits on a rounding border may go either way.
"""
from fractions import Fraction as Q
from math import atan2, cos, pi, radians, sin, sqrt

from . import draw, edits, text
from .draw import color, fac, lums, rect

OPS = {}


class Chart:
    def __init__(self, name, gen, run, model):
        self.name, self.gen, self.run, self.model = name, gen, run, model


def op(name, gen, run=None):
    def d(f):
        OPS[name] = Chart(name, gen, run or (lambda B, S, bmp, a: getattr(B, name)(bmp, *a)), f)
        return f
    return d


def pens(im, go, prim, track=False):
    outs = []
    for q in (False, True) if im.bits == 4 else (False,):
        for eps in (0.0, -1e-7, 1e-7):
            P = text.TextPen(im, q)
            P.eps, P.prim = eps, prim
            if track:
                P.hist = {}
            go(P)
            outs.append(P)
    return outs


def judge(outs, old, got, cut=False):
    """Pixels of got that no outcome explains: [(x, y)], and whether a recorded quirk was needed."""
    ideal = [p for p in outs if not p.quirky]
    quirk = [p for p in outs if p.quirky]
    bad, used = [], False
    for y in range(old.h):
        if ideal[0].px[y] == got.px[y]:
            continue
        for x in range(old.w):
            v = got.px[y][x]

            def fits(ps):
                if cut:                  # a column is written one colour channel at a time
                    may = {old.px[y][x]}.union(*(p.hist.get((x, y), ()) for p in ps))
                    return v in may or old.bits == 24 and len(may) > 1 and all(
                        c in [draw.chan(t)[k] for t in may] for k, c in enumerate(draw.chan(v)))
                return any(p.px[y][x] == v or v in p.free.get((x, y), ()) for p in ps)
            if fits(ideal):
                continue
            if quirk and fits(quirk):
                used = True
                continue
            bad.append((x, y))
    return bad, used


# ---- axes and scatter plots ---------------------------------------------------------
def num(rng):
    return rng.choice([0, 0, 1, -3, 10, 100, -120, 2.5, .5])


def g_axis(rng, im):
    if im.w < 8 or im.h < 8:
        return None
    ox, oy = rng.randint(0, im.w // 2), rng.randint(im.h // 2, im.h - 1)
    lx, ly = rng.randint(ox + 2, im.w - 1), rng.randint(0, oy - 2)
    st = [rng.randint(2, 30), rng.randint(2, 30)]
    return [[ox, oy], st, [lx, ly], [num(rng), num(rng)], [rng.choice([1, 2, 5, 10, .5, 100]), rng.choice([1, 3, 10, .25])],
            color(rng, im), color(rng, im), rng.random() < .5, color(rng, im)]


def labels(P, pts, xadj, yadj, scale, start, step, pix, space, c, font, no0, nolast, right):
    for i, (x, y) in enumerate(pts):
        if i == 0 and no0 or i == len(pts) - 1 and nolast:
            continue
        s = str(start + i * step)
        text.draw_text(P, text.H, 1, 'plain', 0, x + xadj - (8 * (len(s) - 1) if right else 0), y + yadj,
                       s, scale, pix, space, c, font)


def arrow(P, u, v, size, c):
    for a, b in P.prim.iterdrawvec(u, v, size):
        P.line(a, b, c)


@op('XYaxis', g_axis)
def m_axis(P, a):
    (ox, oy), (sx, sy), (lx, ly), start, step, c, tc, grid, gc = a
    if grid:
        draw.m_xygrid(P, [ox, oy, lx, ly], [sx, sy], gc)
    arrow(P, [ox, oy], [ox, ly], 10, c)
    arrow(P, [ox, oy], [lx, oy], 10, c)
    xs = [[x, oy] for x in range(ox, lx, sx)]
    ys = [[ox, y] for y in range(oy, ly, -sy)]
    for x, y in xs:
        P.vline(x, y, y + 3, c)
    for x, y in ys:
        P.hline(y, x - 3, x, c)
    labels(P, ys, -15, -4, 1, start[1], step[1], 0, 0, tc, 'font8x14', False, False, True)
    labels(P, xs, -4, 7, 1, start[0], step[0], 0, 0, tc, 'font8x14', False, False, False)


def info(a):
    """What XYaxis hands to the scatter plot."""
    (ox, oy), (sx, sy), (lx, ly), start, step = a[:5]
    nx, ny = len(range(ox, lx, sx)), len(range(oy, ly, -sy))
    return [[ox, oy], [sx, sy], [lx, ly], start, step, [start[0] + (nx - 1) * step[0], start[1] + (ny - 1) * step[1]]]


def screen(P, x, y, i):
    """Where data point x, y lies on the picture; None beyond the axes' ends."""
    (ox, oy), (sx, sy), (lx, ly), (vx, vy), (px, py) = i[:5]
    u, v = ox + (x - vx) / px * sx, oy - (y - vy) / py * sy
    if u + P.eps > lx + (1e-7 if P.eps <= 0 else 0) or v - P.eps < ly - (1e-7 if P.eps <= 0 else 0):
        return None
    return [u, v]


def g_scatter(rng, im):
    a = g_axis(rng, im)
    if a is None:
        return None
    i = info(a)
    (vx, vy), (px, py), (mx, my) = i[3:6]
    data = []
    for _ in range(rng.randint(2, 6)):
        x = vx + rng.uniform(-.3, 1.4) * max(mx - vx, px)
        y = vy + rng.uniform(-.3, 1.4) * max(my - vy, py)
        if rng.random() < .5:
            x, y = round(x), round(y)
        else:
            x, y = round(x, 2), round(y, 2)
        data.append([x, y, rng.choice([0, 1, 1, 2, 3, 5, 9]), color(rng, im), rng.random() < .5])
    reg = rng.random() < .6 and len({d[0] for d in data}) > 1
    if reg:                                    # line ends on a rounding border could go either way
        m, b = regression(data)
        (ox, oy), (sx, sy), (lx, ly) = i[:3]
        for x in (Q(vx), Q(mx), (Q(my) - b) / m if m else Q(vx)):
            u = ox + (x - Q(vx)) / Q(px) * sx
            v = oy - (x * m + b - Q(vy)) / Q(py) * sy
            if tie([[float(u), float(v)]]) or abs(v - ly) < 1e-6 and x != (Q(my) - b) / (m or 1):
                reg = False
    return [data, i, reg, color(rng, im)]


def regression(data):
    X, Y = [Q(d[0]) for d in data], [Q(d[1]) for d in data]
    n = len(data)
    m = (n * sum(p * q for p, q in zip(X, Y)) - sum(X) * sum(Y)) / (n * sum(p * p for p in X) - sum(X) ** 2)
    return m, sum(Y) / n - m * sum(X) / n


@op('XYscatterplot', g_scatter)
def _(P, a):
    data, i, reg, c = a
    for x, y, r, col, fill in data:
        w = screen(P, x, y, i)
        if w is None:
            continue
        w = [P.rnd(k) for k in w]
        if r > 1:
            (P.disc if fill else P.ring)(*w, min(r, 5), col)
        else:
            P.put(*w, col)
    if reg:
        m, b = regression(data)
        xs = [Q(i[3][0]), Q(i[5][0])]
        top = Q(i[5][1])
        ends = []
        for x in xs:
            w = screen(P, float(x), float(x * m + b), i)
            ends.append(w)
        if ends == [None, None]:
            return
        for k in (0, 1):
            if ends[k] is None:
                ends[k] = screen(P, float((top - b) / m), float(top), i)
        if None in ends:
            return
        P.line([P.rnd(k) for k in ends[0]], [P.rnd(k) for k in ends[1]], c)


def g_numbers(rng, im):
    pts, seen = [], set()
    for _ in range(rng.randint(1, 4)):
        p = draw.pt(rng, im)
        if tuple(p) not in seen:
            seen.add(tuple(p))
            pts.append(p)
    return [pts, rng.randint(-9, 9), rng.randint(-9, 9), rng.choice([1, 1, 2]) if im.bits != 8 else 1, num(rng), rng.choice([1, -1, 7, .5, 11]),
            rng.choice([0, 0, 1]), rng.choice([0, 0, 2]), color(rng, im), rng.choice(text.FONTS),
            rng.random() < .3, rng.random() < .3, rng.random() < .5]


def r_numbers(B, S, bmp, a):
    return B.numbervert(bmp, *a[:9], getattr(S.fonts, a[9]), *a[10:])


@op('numbervert', g_numbers, r_numbers)
def _(P, a):
    labels(P, *a)


# ---- solids ---------------------------------------------------------------------------
def tie(vs):
    """Does a coordinate sit on a rounding border (either way would be right)?"""
    return any(abs(k % 1 - .5) < 1e-6 for v in vs for k in v)


def add(p, q):
    return [i + j for i, j in zip(p, q)]


def ngon(r, n, deg, whole=False):
    out = []
    for k in range(n):
        t = radians(deg + 360 * k / n)
        v = [-r * sin(t), -r * cos(t)]
        out.append([round(i) for i in v] if whole else v)
    return out


SIDES = {'tetrahedra': ((2, 1, 0), (2, 3, 1), (0, 3, 2), (3, 0, 1)),
         'cube': ((1, 2, 3, 0), (5, 6, 7, 4), (0, 3, 6, 5), (4, 7, 2, 1), (4, 1, 0, 5), (2, 7, 6, 3)),
         'hexahedra': ((2, 3, 1), (0, 3, 2), (3, 0, 1), (1, 4, 2), (2, 4, 0), (1, 0, 4)),
         'octahedra': ((1, 2, 0), (4, 1, 0), (3, 4, 0), (2, 3, 0), (2, 1, 5), (1, 4, 5), (4, 3, 5), (3, 2, 5))}
WAVE = [lambda x, y: 0, lambda x, y: x / 2 - y / 3, lambda x, y: (x * x + y * y) / 30, lambda x, y: 3 * sin(x / 3) + 2 * cos(y / 4)]


def tetra(x):
    return [[0, 0, 0], [x / 2, sqrt(x * x / 2), 0], [x, 0, 0], [x / 2, x / 2, sqrt(.375 * x * x)]]


def faces(kind, a):
    """The faces of a solid as lists of points, in drawing order."""
    if kind in SIDES:
        x = a[0]
        h = x / 2
        vs = {'tetrahedra': lambda: tetra(x),
              'cube': lambda: [[0, 0, 0], [0, x, 0], [x, x, 0], [x, 0, 0], [0, x, x], [0, 0, x], [x, 0, x], [x, x, x]],
              'hexahedra': lambda: tetra(x) + [[h, h, -sqrt(.375 * x * x)]],
              'octahedra': lambda: [[h, h, h], [0, 0, 0], [x, 0, 0], [x, x, 0], [0, x, 0], [h, h, -h]]}[kind]()
        return [[vs[i] for i in s] for s in SIDES[kind]]
    if kind == 'decahed':
        x = a[0]
        p = ngon(x, 5, 0, True)
        z = sqrt((p[0][0] - p[1][0]) ** 2 + (p[0][1] - p[1][1]) ** 2 - x * x)
        vs = [[0, 0, -z]] + [q + [0] for q in p] + [[0, 0, z]]
        return [[vs[i] for i in s] for s in ((1, 2, 0), (5, 1, 0), (3, 4, 0), (2, 3, 0), (4, 5, 0),
                                             (2, 1, 6), (1, 5, 6), (4, 3, 6), (3, 2, 6), (5, 4, 6))]
    if kind == 'icosahed':
        x = a[0]
        p, q = ngon(x, 5, 0), ngon(x, 5, 36)
        z = sqrt((p[0][0] - p[1][0]) ** 2 + (p[0][1] - p[1][1]) ** 2 - x * x)
        z1 = 2 * x - z
        vs = [[0, 0, -z]] + [k + [0] for k in p] + [k + [z1 - z] for k in q] + [[0, 0, z1]]
        return [[vs[i] for i in s] for s in (
            (1, 2, 0), (5, 1, 0), (3, 4, 0), (2, 3, 0), (4, 5, 0), (2, 1, 6), (1, 5, 10), (4, 3, 8), (3, 2, 7), (5, 4, 9),
            (6, 7, 2), (7, 8, 3), (8, 9, 4), (9, 10, 5), (10, 6, 1), (7, 6, 11), (9, 8, 11), (8, 7, 11), (10, 9, 11), (6, 10, 11))]
    if kind == 'sphere':
        c, r, st = a
        n = len(range(0, 360, st))
        level = [[add(c, [r * sin(radians(f)) * cos(radians(t)), r * sin(radians(f)) * sin(radians(t)), r * cos(radians(f))])
                  for t in range(0, 360, st)] for f in range(st, 180, st)]
        north, south = add(c, [0, 0, r]), add(c, [0, 0, -r])
        fs = []
        for i in range(n):
            j = (i + 1) % n
            fs += [[north, level[0][j], level[0][i]], [south, level[-1][i], level[-1][j]]]
        for a_, b_ in zip(level, level[1:]):
            for i in range(n):
                j = (i + 1) % n
                fs.append([b_[j], b_[i], a_[i], a_[j]])
        return fs
    if kind in ('cylinder', 'cone'):
        c, r, zl, st = a
        ring = lambda z: [add(c, [r * cos(radians(t)), r * sin(radians(t)), z]) for t in range(0, 360, st)]
        n = len(range(0, 360, st))
        lo, hi = ring(-zl / 2), ring(zl / 2)
        # one more point than a full turn, as shipped: the seam is covered twice
        k = [i % n for i in range(n + 2)]
        if 360 % st:
            return None
        if kind == 'cylinder':
            side = [[lo[k[i]], hi[k[i]], hi[k[i - 1]], lo[k[i - 1]]] for i in range(2, n + 2)]
            return [[lo[i] for i in reversed(k)]] + side + [[hi[i] for i in k]]
        top = add(c, [0, 0, -zl / 2])
        return [[top, hi[k[i]], hi[k[i - 1]]] for i in range(2, n + 2)] + [[hi[i] for i in k]]
    x1, y1, x2, y2, st, f = a
    f = WAVE[f]
    xs, ys = range(x1, x2, st), range(y1, y2, st)
    P = lambda x, y: [x, y, f(x, y)]
    return [[P(u, q), P(v, q), P(v, p), P(u, p)] for p, q in zip(ys, ys[1:]) for u, v in zip(xs, xs[1:])]


def g_solid(rng, im):
    kind = rng.choice(list(SIDES) + ['decahed', 'icosahed', 'sphere', 'cylinder', 'cone', 'surf'])
    s = rng.choice([3, 6, 9, 14])
    c = [0, 0, 0] if rng.random() < .5 else [rng.randint(-5, 5) for _ in range(3)]
    a = [s]
    if kind == 'sphere':
        a = [c, s, rng.choice([30, 45, 60])]
    elif kind in ('cylinder', 'cone'):
        a = [c, s, rng.choice([4, 8, 13]), rng.choice([30, 45, 60, 90])]
    elif kind == 'surf':
        x, y = rng.randint(-9, 0), rng.randint(-9, 0)
        st = rng.choice([2, 3, 4])
        a = [x, y, x + rng.randint(2, 5) * st + rng.choice([0, 0, 1]), y + rng.randint(2, 4) * st + rng.choice([0, 0, 1]), st,
             rng.randrange(len(WAVE))]
    rot = [rng.choice([0, 30, 45, 90, rng.randint(0, 359)]) for _ in range(3)]
    disp = [rng.randint(-4, 4), rng.randint(-4, 4), rng.choice([60, 100, -80])]
    d = rng.choice([60, 100, 150])
    tr = [im.w // 2 + rng.randint(-6, 6), im.h // 2 + rng.randint(-6, 6)]
    if rng.random() < .15:
        tr = draw.pt(rng, im)
    g = [kind, a, rng.random() < .75, fac(rng), rng.random() < .6, color(rng, im), rot, disp, d, tr]
    fs = faces(kind, a)
    if fs is None:
        return None
    for f in fs:                        # faces seen edge-on may count as either side
        q = [place(v, rot, disp) for v in f]
        if any(abs(p[2]) < 20 for p in q) or abs(facing(q)) < 1e-3 * max(1, sum(abs(k) for p in q[:3] for k in p)):
            return None
        if tie(flat(q, d, tr)):
            return None
    return g


def flat(q, d, tr):
    return [[-d * x / z + tr[0], -d * y / z + tr[1]] for x, y, z in q]


def place(p, rot, disp):
    (sr, cr), (sp, cp), (sy, cy) = [(sin(radians(t)), cos(radians(t))) for t in rot]
    x, y, z = p
    x1, z1 = -cy * x - sy * z, -sy * x + cy * z
    y1 = cr * y - sr * x1
    return add([cr * x1 + sr * y, sp * z1 + cp * y1, cp * z1 - sp * y1], disp)


def cross(p, q):
    return [p[1] * q[2] - p[2] * q[1], p[2] * q[0] - p[0] * q[2], p[0] * q[1] - p[1] * q[0]]


def sub(p, q):
    return [i - j for i, j in zip(p, q)]


def dot(p, q):
    return sum(i * j for i, j in zip(p, q))


def facing(q):
    """Negative for a face turned to the eye in the origin."""
    return -dot(q[0], cross(q[1], q[2]))


def shade(P, n, f):
    m = sqrt(dot(n, n))
    lum = 127 if n == [0, 0, 0] else int(n[2] / m * 128 + P.eps) + 127
    return P.rgb([int(k * lum + P.eps) for k in f])


def lib_solid(S, kind, a):
    s = S.solids
    if kind in SIDES:
        return [getattr(s, kind + 'vert' if kind != 'tetrahedra' else 'tetrahedravert')(a[0]) if kind == 'cube' else
                getattr(s, {'tetrahedra': 'tetrahedravert', 'hexahedra': 'hexahedravert', 'octahedra': 'octahedravert'}[kind])(a[0]),
                s.getshapesidedict()[kind]]
    if kind in ('decahed', 'icosahed'):
        return getattr(s, kind + 'vertandsurface')(a[0])
    if kind == 'surf':
        return s.surfplot3Dvertandsurface(*a[:5], WAVE[a[5]])
    return getattr(s, kind + 'vertandsurface')(*a)


def r_solid(B, S, bmp, a):
    kind, b, solid, f, outl, oc, rot, disp, d, tr = a
    B.plot3Dsolid(bmp, lib_solid(S, kind, b), solid, f, outl, oc, S.solids.rotvec3D(*rot), disp, d, tr)


@op('plot3Dsolid', g_solid, r_solid)
def _(P, a):
    kind, b, solid, f, outl, oc, rot, disp, d, tr = a
    show = []
    for face in faces(kind, b):
        q = [place(v, rot, disp) for v in face]
        if facing(q) > 0:
            continue
        n = cross(sub(q[1], q[0]), sub(q[2], q[0]))
        show.append(([[P.rnd(k) for k in v] for v in flat(q, d, tr)], n))
    if solid:
        for vs, n in show:
            fill(P, vs, shade(P, n, f))
    if outl:
        for vs, n in show:
            P.poly(vs, oc)


def fill(P, vs, c):
    px = []
    for u, v in list(zip(vs, vs[1:])) + [(vs[-1], vs[0])]:
        px += draw.bres(u, v)
    P.fill(px, c)


# ---- flowers -------------------------------------------------------------------------
def g_flower(rng, im):
    x, y = draw.pt(rng, im)
    if rng.random() < .7:
        x, y = im.w // 2, im.h // 2
    return [max(-30, min(80, x)), max(-30, min(80, y)), rng.randint(1, 14), rng.randint(1, 5),
            rng.choice([0, 45, 90, rng.randint(-180, 360), 12.5]), lums(rng), fac(rng)]


@op('plotflower', g_flower)
def m_flower(P, a):
    cx, cy, r, n, rot, l, f = a
    for k in range(360 * n):
        t = radians(k / n)
        m = cos(n / 2 * t) ** 2 * r
        t += radians(rot)
        x, y = [int(v + P.eps) for v in (cx - m * sin(t), cy - m * cos(t))]
        q = abs(int(l[0] + (l[1] - l[0]) * (sqrt((x - cx) ** 2 + (y - cy) ** 2) / r) + P.eps))
        q = min(q, 255)
        c = draw.pack(*[int(i * q + P.eps) for i in f])
        if P.bits != 24:
            c = (1 << P.bits) - 1 - c % (1 << P.bits)
        P.put(x, y, c)


def g_fflower(rng, im):
    a = g_flower(rng, im)
    a[2] = rng.randint(2, 7)
    a[3] = rng.randint(1, 3)
    return a


@op('plotfilledflower', g_fflower)
def _(P, a):
    for r in range(a[2], 2, -1):
        m_flower(P, a[:2] + [r] + a[3:])


# ---- regular polygons ------------------------------------------------------------------
def g_ngon(rng, im):
    x, y = draw.pt(rng, im)
    a = [max(-30, min(80, x)), max(-30, min(80, y)), rng.randint(1, 20), rng.choice([3, 4, 5, 6, 7, 8, 9, 11, 12, 13]),
         rng.choice([0, 30, 45, 17.5, rng.randint(-90, 360)]), color(rng, im)]
    return None if tie(ngon(*a[2:5])) else a


@op('regular polygon', g_ngon, lambda B, S, bmp, a: B.plotpoly(bmp, S.prim.regpolygonvert(*a[:5]), a[5]))
def _(P, a):
    x, y, r, n, rot, c = a
    P.poly([[P.rnd(x + u), P.rnd(y + v)] for u, v in ngon(r, n, rot)], c)
