"""C21: colour statistics of a picture, and palettes made from them, are exact."""
from .common import *
from .hist import act_of
from .. import core, draw, edits, text

ID = 'C21'
QUICK, THOROUGH = 5000, 300000
TECH = 'sessions of drawing, colour statistics, palette changes and raw block transfers with interrupted calls, crashes and reloads, against a pixel-and-palette model'
NOTE = ('Sampled executions, not a proof. A palette made from a picture is judged for 24-bit sources (the values of '
        'shallower pictures are palette numbers, not colours). Two-colour palettes are not set on 24-bit pictures.')
RULE = ('one run = one picture under 2-6 steps: drawing, colour histograms, palettes from histograms, one-colour, two-colour '
        'and adjusted palettes, named colours, raw image bytes, the same interrupted, saves and reloads; distinct = distinct '
        'event log; non-trivial = at least one step judged')
STATES = 'distinct (function, depth, argument class, interrupted, outcome)'
STEPS = ['hist', 'hist', 'newpal', 'newpal', 'srcpal', 'srcpal', 'mono', 'inv', 'duo', 'names', 'bright', 'bytes', 'blit', 'blit', 'facts',
         'facts', 'draw', 'draw', 'reload']


def scenario(rng, i, tier):
    img = imgspec(rng, maxdim=rng.choice([6, 12, 24, 40]))
    ops = []
    for _ in range(rng.randint(2, 6 if tier == 'quick' else 12)):
        o = dict(k=rng.choice(STEPS), s=rng.getrandbits(32))
        if rng.random() < .25:
            o['stop'] = dict(act=rng.choice(['int', 'mem']), pos=round(rng.random(), 4))
        ops.append(o)
    few = rng.random() < .6
    if rng.random() < .02:                           # thousands of colours
        img = dict(bits=24, w=rng.randint(50, 110), h=rng.randint(50, 110), s=rng.getrandbits(32), style='noise')
        few = False
        ops = [o for o in ops if o['k'] not in ('srcpal', 'draw')] + [dict(k='hist', s=rng.getrandbits(32))]
    return dict(world=world(rng), img=img, few=few, ops=ops)


def counts(im):
    d = {}
    for row in im.px:
        for c in row:
            d[c] = d.get(c, 0) + 1
    return d


def ordered(d):
    return [list(t) for t in sorted(((n, c) for c, n in d.items()), reverse=True)]


def chosen(hist, n, far):
    """The palette a histogram gives: black, then colours at least far from all chosen before."""
    pal = [(0, 0, 0)]
    edge = False
    for _, c in hist:
        if len(pal) == n:
            break
        rgb = draw.chan(c)
        ds = [edits.d2(rgb, p) ** .5 for p in pal]
        edge = edge or any(abs(d - far) < 1e-9 and d != far for d in ds)
        if all(d >= far for d in ds):
            pal.append(tuple(rgb))
    return pal + [(0, 0, 0)] * (n - len(pal)), edge


def ramp(bits, fac, mult=None, shift=0):
    n = 1 << bits
    out = []
    for i in range(n):
        c = i * 255 // (n - 1)
        if mult is not None:
            c = ((255 - c) * mult + shift) % 256
        out.append(tuple(round(f * c) for f in fac))
    return out


def duo(c1, c2, n):
    p = [None] * n
    for i in range(n):
        t = i / n
        p[(n - i) * 3 % n] = tuple(round((1.0 - t) * a + t * b) for a, b in zip(draw.chan(c1), draw.chan(c2)))
    return p


def execute(sc, r):
    B = runner.B
    sim = sim_of(sc)
    im = mk(sc['img'])
    if sc.get('few'):                           # pictures with repeated colours
        g = R(sc['img']['s'])
        cs = [draw.color(g, im) for _ in range(4)]
        im.px = [[g.choice(cs) for _ in row] for row in im.px]
        im.px = [[c & ((1 << im.bits) - 1) for c in row] for row in im.px]
    st = dict(im=im, bmp=array('B', file_of(im, sc['img']['s'])))
    for o in sc['ops']:
        g = R(o['s'])
        bmp, im = st['bmp'], st['im']
        how = f'{o["k"]} of a {im.bits}-bit {im.w}x{im.h} picture'
        cut = [False]

        def do(fn, *bufs):
            """The call, interrupted when the scenario says so; bufs are copied for the dry run."""
            at = act = None
            if o.get('stop'):
                dry = sim_of(sc)
                call(dry, fn, *[b[:] if isinstance(b, array) else dict(b) for b in bufs], at=-1)
                at, act = int(o['stop']['pos'] * max(1, dry.last.n)), act_of(sim, o['stop']['act'])
            got = call(sim, fn, *bufs, at=at, act=act)
            r.ops += 1
            cut[0] = bool(at is not None and sim.last.hit and not got.ok)
            if cut[0]:
                sim.fault_counts['line:' + o['stop']['act']] += 1
            elif not got.ok:
                r.fail('failed', f'{how} failed: {got}')
                raise Stop
            r.note(o['k'], got.kind, *[bytes(b) for b in bufs if isinstance(b, array)])
            return got

        def newpal(buf, old, want, what):
            """buf has palette want and is otherwise as the picture old was."""
            try:
                new = M.parse(bytes(buf))
            except M.BadBMP as e:
                r.fail('palette', f'{what} damaged the picture: {e}')
                raise Stop
            if bytes(buf[:54]) not in (M.build(old)[:54], file_of(old, sc['img']['s'])[:54]) or new.px != old.px or (new.w, new.h) != (old.w, old.h):
                r.fail('palette', f'{what} changed pixels or header')
            if old.bits < 24:
                ok = all(all(a in (x, y) for a, x, y in zip(p, w, q)) for p, w, q in zip(new.pal, want, old.pal)) \
                    if cut[0] else new.pal == want
                if not ok:
                    i = next(i for i, (p, q) in enumerate(zip(new.pal, want)) if p != q)
                    r.fail('palette', f'{what}: entry {i} is {new.pal[i]}, expected {want[i]}')
                    raise Stop
            return new
        before = bytes(bmp)
        k = o['k']
        if k == 'hist':
            got = do(B.colorhistogram, bmp)
            if not cut[0] and [list(v) for v in got.value] != ordered(counts(im)):
                r.fail('histogram', f'{how} is {short(got.value)}, expected {short(ordered(counts(im)))}')
            if g.random() < .5:                 # one more pixel, and again
                x, y, c = g.randrange(im.w), g.randrange(im.h), draw.color(g, im) & ((1 << im.bits) - 1)
                call(sim, B.plotxybit, bmp, x, y, c)
                im.px[y][x] = c
                before = bytes(bmp)
                got = do(B.colorhistogram, bmp)
                if not cut[0] and [list(v) for v in got.value] != ordered(counts(im)):
                    r.fail('histogram', f'{how} with ({x},{y}) now {c:#x} is {short(got.value)}, expected {short(ordered(counts(im)))}')
        elif k == 'newpal':
            h = ordered({g.getrandbits(24): g.randint(1, 9) for _ in range(g.choice([0, 1, 3, 30, 300]))})
            n, far = g.choice([2, 16, 256, 5]), g.choice([0, 1, 20, 100, 200])
            want, edge = chosen(h, n, far)
            keep = repr(h)
            got = do(lambda: B.makenewpalfromcolorhist(h, n, far))
            if not cut[0] and not edge and [tuple(c) for c in got.value] != want:
                r.fail('from-histogram', f'palette of {n} colours {far} apart from {short(h)} is {short(got.value)}, expected {short(want)}')
            if repr(h) != keep:
                r.fail('from-histogram', 'making a palette changed the histogram')
        elif k == 'srcpal':
            bits, far = g.choice([1, 4, 4, 8]), g.choice([0, 1, 20, 100])
            tgt = mk(imgspec(g, bits=bits, maxdim=9))
            nb = array('B', M.build(tgt))
            if im.bits != 24:
                continue
            want, edge = chosen(ordered(counts(im)), 1 << bits, far)
            got = do(lambda a, b: B.setnewpalfromsourcebmp(a, b, far), bmp, nb)
            if not edge:
                newpal(nb, tgt, want, f'the palette of {how} for {bits} bits')
                if not cut[0] and [tuple(c) for c in got.value] != want:
                    r.fail('from-picture', f'{how} returns {short(got.value)}, expected {short(want)}')
            k = f'srcpal{bits}'
        elif k in ('mono', 'inv', 'duo'):
            if im.bits == 24:
                continue
            f = draw.fac(g)
            if k == 'mono':
                want, fn = ramp(im.bits, f), lambda b: B.setBMP2monochrome(b, f)
            elif k == 'inv':
                m, s = g.choice([1, 20, 3, 7]), g.choice([0, 0, 5, 200])
                want, fn = ramp(im.bits, f, m, s), lambda b: B.setBMP2invshiftedmonochrome(b, f, m, s)
            else:
                c1, c2 = g.getrandbits(24), g.getrandbits(24)
                want, fn = duo(c1, c2, 1 << im.bits), lambda b: B.setBMP2dichromaticpal(b, c1, c2)
            got = do(fn, bmp)
            new = newpal(bmp, im, want, f'{how} with {f}')
            if not cut[0]:
                v = [tuple(c)[:3] for c in got.value]
                if v != want and v != [c[::-1] for c in want]:
                    r.fail('palette', f'{how} returns {short(got.value)}, expected {short(want)}')
            st['im'] = new
        elif k == 'names':
            names = {f'c{i}': g.choice([g.getrandbits(24), 0, 0xffffff, edits.pack(*g.choice(im.pal)) if im.bits < 24 else 5])
                     for i in range(g.randint(1, 6))}
            live = dict(names)
            do(lambda a, b: B.adjustcolordicttopal(a, b), bmp, live)
            for n, c in names.items():
                want = c if im.bits == 24 else nearest_any(draw.chan(c), im.pal)
                want = [want] if im.bits == 24 else want
                if live.get(n) not in want and not (cut[0] and live.get(n) == c):
                    r.fail('names', f'{how}: colour {c:#x} becomes {live.get(n)}, expected one of {want}')
            if set(live) != set(names):
                r.fail('names', f'{how} changed the names')
        elif k == 'bright':
            if im.bits == 24:
                continue
            p = g.choice([0, 10, -10, 50, -50, 100, -100, 300, -33.3])
            got = do(lambda b: B.RGBpalbrightnessadjust(b, p), bmp)
            if not cut[0]:
                for c, v in zip(im.pal, got.value):
                    if len(v) != 3 or any(abs(min(255, max(0, a * (1 + p / 100))) - b) > 1.001 for a, b in zip(c, v)):
                        r.fail('brightness', f'{how} by {p}%: {c} becomes {list(v)}')
                        break
                if len(got.value) != len(im.pal):
                    r.fail('brightness', f'{how} by {p}%: {len(got.value)} entries')
        elif k == 'bytes':
            got = do(B.getBMPimgbytes, bmp)
            off = len(before) - (len(before) - hdsz(im))
            if not cut[0]:
                if bytes(got.value) != before[off:]:
                    r.fail('bytes', f'{how}: the image bytes are wrong')
                buf = got.value
                buf.reverse()
                if bytes(bmp) != before:
                    r.fail('bytes', f'{how}: the bytes handed out are the picture itself')
                o.pop('stop', None)
                do(lambda b: B.setBMPimgbytes(b, buf), bmp)
                if bytes(bmp) != before[:off] + before[off:][::-1]:
                    r.fail('bytes', f'{how}: putting image bytes back gives another picture')
                st['im'] = M.parse(bytes(bmp))
                before = bytes(bmp)
        elif k == 'blit':
            off = hdsz(im)
            n = len(before) - off
            s, m = g.choice([0, n, -1, g.randint(0, n), g.randint(-5, n + 5)]), g.choice([0, 1, n, g.randint(0, n), g.randint(0, 12)])
            got = do(lambda b: B.BMPbitBLTget(b, s, m), bmp)
            want = before[off + s:off + s + m] if s >= 0 and s + m <= n and m > 0 else b''
            if not cut[0] and bytes(got.value) != want:
                r.fail('blit', f'{how}: {m} bytes from {s} are {bytes(got.value)[:9]!r}.. ({len(got.value)}), expected {want[:9]!r}.. ({len(want)})')
            data = bytes(g.randrange(256) for _ in range(m))
            do(lambda b: B.BMPbitBLTput(b, s, array('B', data)), bmp)
            want = before
            if s >= 0 and s + m <= n:
                want = before[:off + s] + data + before[off + s + m:]
            if bytes(bmp) != want and not (cut[0] and bytes(bmp) == before):
                r.fail('blit', f'{how}: putting {m} bytes at {s} changed something else')
                raise Stop
            st['im'] = M.parse(bytes(bmp))
            before = bytes(bmp)
        elif k == 'facts':
            pts = [[draw.px_(g, im.w), draw.px_(g, im.h)] for _ in range(g.randint(0, 3))]
            got = do(lambda b: (B.getmaxcolors(b), B.isdefaultpal(b) if im.bits < 24 else None, list(B.centercoord(b)),
                                B.listinBMPrecbnd(b, pts), bytes(B.getBGRpalbuf(b)), bytes(B.CopyBMPxydim2newBMP(b, nb))), bmp) \
                if (nb := g.choice([1, 4, 8, 24])) else None
            if not cut[0]:
                std = text.tables()['pal'].get(im.bits) if im.bits < 24 else None
                want = (1 << im.bits, None if im.bits == 24 else im.pal == std, [(im.w - 1) // 2, (im.h - 1) // 2],
                        all(0 <= x < im.w and 0 <= y < im.h for x, y in pts), before[54:hdsz(im)])
                if got.value[:5] != want:
                    r.fail('facts', f'{how} reports {got.value[:5]}, it is {want}')
                try:
                    new = M.parse(got.value[5])
                except M.BadBMP as e:
                    r.fail('facts', f'{how}: an empty picture of its size is {e}')
                    raise Stop
                if (new.w, new.h, new.bits) != (im.w, im.h, nb) or any(map(any, new.px)) or \
                        nb < 24 and new.pal != text.tables()['pal'][nb]:
                    r.fail('facts', f'{how}: an empty {nb}-bit picture of its size is {new.w}x{new.h} {new.bits}-bit or not empty')
        elif k == 'draw':
            q = draw.OPS[g.choice(list(draw.OPS))]
            a = q.gen(g, im)
            if a is not None:
                call(sim, q.run, B, bmp, a)
                st['im'] = M.parse(bytes(bmp))
                before = bytes(bmp)
        else:
            call(sim, B.saveBMP, 'a.bmp', bmp)
            got = call(sim, B.loadBMP, 'a.bmp')
            if not loaded(got) or bytes(got.value) != bytes(bmp):
                r.fail('reload', f'the picture does not load back: {got.kind}')
                raise Stop
            st['bmp'] = got.value
        if k not in ('mono', 'inv', 'duo', 'draw') and bytes(bmp) != before:
            r.fail('altered', f'{how} altered the picture it reads')
            raise Stop
        r.state(k, im.bits, bool(o.get('stop')), cut[0])
    r.absorb(sim)


def hdsz(im):
    return 54 + (4 << im.bits if im.bits < 24 else 0)


def nearest_any(rgb, pal):
    """Acceptable entries: an equal one, else any of the nearest that are not black."""
    k = edits.nearest(rgb, pal)
    if tuple(rgb) in pal or tuple(rgb) == (0, 0, 0):
        return [k]
    d = edits.d2(rgb, pal[k])
    return [i for i, p in enumerate(pal) if p != (0, 0, 0) and edits.d2(rgb, p) == d] or [k]
