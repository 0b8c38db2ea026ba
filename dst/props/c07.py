"""C07: an image under drawing is a faithful pixel store at every depth."""
from .common import *
from . import hist
from .. import draw, edits

ID = 'C07'
QUICK, THOROUGH = 9000, 400000
TECH = 'drawing sessions with saves, storage faults, crashes and reloads, judged per step against a pixel-grid model'
NOTE = ('Sampled executions, not a proof. Real library; the model has its own clipping pen, lines, circles, '
        'ellipses, fills and palette matching, and takes only the vertex lists of real-valued curves from the '
        'library. Copying blocks below 8 bits to another byte alignment is judged for its surroundings only. '
        'Pad bits of a row are not judged.')
RULE = ('one run = one image (1/4/8/24 bit, 1..40 pixels a side) under 1-7 steps: drawing calls with arguments '
        'on, across and beyond the border, reads of pixels, palette and size, saves under storage faults and '
        'crashes, reloads; or (15%) a history of drawing edits on files; distinct = distinct event log; '
        'non-trivial = at least one step executed')
STATES = 'distinct (drawing call, depth, width modulo 8, changed or not, exact or surroundings-only)'

NAMES = list(draw.OPS)
FILES = [n for n, e in edits.E.items() if e.group == 'draw']


def scenario(rng, i, tier):
    if rng.random() < .15:
        sc = hist.make(rng, FILES, 4 if tier == 'quick' else 8, faulty=.2)
        return dict(sc, kind='files')
    d = rng.choice([5, 10, 20, 20, 33, 40])
    kinds = rng.sample(NAMES, rng.randint(1, 6))
    ops = []
    for _ in range(rng.randint(1, 7 if tier == 'quick' else 16)):
        k = rng.random()
        if k < .74:
            ops.append(dict(k='draw', op=rng.choice(kinds), s=rng.getrandbits(32)))
        elif k < .86:
            ops.append(dict(k='read', s=rng.getrandbits(32)))
        elif k < .94:
            o = dict(k='save')
            if rng.random() < .5:
                o['faults'] = [iofault(rng)]
            ops.append(o)
        else:
            ops.append(dict(k='reload'))
    return dict(kind='mem', world=world(rng), img=imgspec(rng, maxdim=d), ops=ops)


def check_pixels(r, key, how, bmp, head, outs):
    """The live image against the acceptable outcomes; returns the parsed image."""
    try:
        got = M.parse(bytes(bmp))
    except M.BadBMP as e:
        r.fail(key, f'{how} damaged the header or length: {e}')
        raise Stop
    if bytes(bmp[:54]) != head:
        r.fail(key, f'{how} changed header bytes')
    ideal = [p for p in outs if not p.quirky]
    quirk = [p for p in outs if p.quirky]
    want = ideal[0].im
    if got.pal != want.pal:
        r.fail(key, f'{how}: {want.diff(got)}')
    weak = ideal[0].weak
    bad, used = [], False
    for y in range(want.h):
        wr, gr = want.px[y], got.px[y]
        if wr == gr:
            continue
        for x in range(want.w):
            v = gr[x]
            if v == wr[x] or weak and weak(x, y):
                continue
            alts = [p.px[y][x] for p in ideal]
            if v in alts or want.bits == 24 and all(
                    c in [draw.chan(t)[k] for t in alts] for k, c in enumerate(draw.chan(v))):
                continue
            if any(p.px[y][x] == v for p in quirk):
                used = True
                continue
            bad.append((x, y))
    if bad:
        x, y = bad[0]
        r.fail(key, f'{how}: {len(bad)} of {want.w * want.h} pixels wrong, first ({x},{y}) is '
               f'{got.px[y][x]:#x}, expected {want.px[y][x]:#x}')
    if used and r.pid == 'C07':                # a finding of C07; other properties only pass over it
        r.known['C07:4bit-run-last-pixel'] += 1
    return got


def execute(sc, r):
    if sc['kind'] == 'files':
        return hist.execute(sc, r)
    B = runner.B
    import importlib
    prim = importlib.import_module('pythonbmp.primitives2D')
    sim = sim_of(sc)
    im = mk(sc['img'])
    bmp = mkb(sc['img'])
    head = bytes(bmp[:54])
    saved = None                       # what a reload must give
    for o in sc['ops']:
        if o['k'] == 'draw':
            q = draw.OPS[o['op']]
            a = o['args'] if 'args' in o else q.gen(R(o['s']), im)
            if a is None:
                continue
            how = f'{q.name}{tuple(a)} on a {im.bits}-bit {im.w}x{im.h} image'
            outs = draw.outcomes(q, im, a, prim)
            g = call(sim, q.run, B, bmp, a)
            r.ops += 1
            r.note(q.name, g.kind, bytes(bmp))
            if not g.ok:
                r.fail(q.name, f'{how} failed: {g}')
                raise Stop
            new = check_pixels(r, q.name, how, bmp, head, outs)
            r.state(q.name, im.bits, im.w % 8, new == im, bool(outs[0].weak))
            r.tag('weak' if outs[0].weak else 'exact')
            im = new
            r.note(M.build(im))
        elif o['k'] == 'read':
            read(r, sim, B, bmp, im, R(o['s']))
        elif o['k'] == 'save':
            n0 = len(sim.fired)
            if o.get('faults'):
                dry = sim_of(sc)
                call(dry, B.saveBMP, 'img.bmp', bmp[:])
                sim.arm(place(o['faults'], dry.step_counts))
            g = call(sim, B.saveBMP, 'img.bmp', bmp)
            bad = hard_fired(sim.fired[n0:])
            sim.disarm()
            r.note('save', g.kind, sim.fs.get(W + 'img.bmp'))
            r.ops += 1
            if g.kind == 'crash':                     # memory is gone; what is on disk is loaded again
                sim.restart()
                g = call(sim, B.loadBMP, 'img.bmp') if sim.fs.get(W + 'img.bmp') is not None else None
                if g and loaded(g):
                    d = bytes(g.value)
                    if d != bytes(bmp) and (saved is None or d != saved):
                        r.fail('crash', 'after a crash during a save a reload gives neither the old nor the new image')
                    bmp = g.value
                    saved = d
                else:
                    saved = None
                    bmp = mkb(sc['img'])
                im = M.parse(bytes(bmp))
                head = bytes(bmp[:54])
                continue
            if g.ok and not bad:
                saved = bytes(bmp)
            elif not g.ok and not bad:
                r.fail('save', f'save failed: {g}')
            else:
                saved = None
        elif o['k'] == 'reload' and saved is not None:
            g = call(sim, B.loadBMP, 'img.bmp')
            r.ops += 1
            if not loaded(g) or bytes(g.value) != saved:
                r.fail('reload', 'a reload does not give the saved image')
                raise Stop
            bmp = g.value
            im = M.parse(bytes(bmp))
            head = bytes(bmp[:54])
    r.absorb(sim)


def read(r, sim, B, bmp, im, rng):
    """Read pixels, dimensions and palette back."""
    before = bytes(bmp)
    pts = [(rng.randrange(im.w), rng.randrange(im.h)) for _ in range(6)]
    pts += [(0, 0), (im.w - 1, im.h - 1), (draw.px_(rng, im.w), draw.px_(rng, im.h))]

    def look():
        return ([(B.getxybit(bmp, x, y), B.getxybitvec(bmp, (x, y)), list(B.getRGBxybit(bmp, x, y)),
                  list(B.getRGBxybitvec(bmp, (x, y))), bool(B.isinBMPrectbnd(bmp, x, y))) for x, y in pts],
                (B.getmaxx(bmp), B.getmaxy(bmp), list(B.getmaxxy(bmp)), list(B.getmaxxyandbits(bmp)),
                 list(B.bottomrightcoord(bmp))),
                [list(p) for p in B.getallRGBpal(bmp)] if im.bits < 24 else None)
    g = call(sim, look)
    r.ops += 1
    if not g.ok:
        r.fail('read', f'reading failed: {g}')
        raise Stop
    got, dims, pal = g.value
    for (x, y), v in zip(pts, got):
        if 0 <= x < im.w and 0 <= y < im.h:
            c, rgb = im.px[y][x], list(im.rgb(x, y))
            want = (c, c, rgb, rgb, True)
        else:
            want = (-1, -1, [], [], False)
        if v != want:
            r.fail('read', f'pixel ({x},{y}) of a {im.bits}-bit {im.w}x{im.h} image reads {v}, it holds {want}')
    m = dims[3]
    if dims[:3] != (im.w, im.h, [im.w, im.h]) or dims[4] != [im.w - 1, im.h - 1] or str(im.w) not in str(m):
        r.fail('read', f'dimensions of a {im.w}x{im.h} image read as {dims}')
    if pal is not None and [tuple(p) for p in pal] != im.pal:
        r.fail('read', 'the palette reads differently from what it holds')
    x1, y1, x2, y2 = edits.rect_in(rng, im, sort=True)
    want = M.Img(im.bits, x2 - x1 + 1, y2 - y1 + 1, im.pal, [row[x1:x2 + 1] for row in im.px[y1:y2 + 1]])
    free = None
    if im.bits < 8:                           # whole bytes, as many as fit in the width
        g, new = edits.Packed(im), edits.Packed(M.Img(im.bits, want.w, want.h, im.pal))
        b1, b2 = g.span(x1, x2)
        for y in range(y1, y2 + 1):
            new.g[y - y1][:b2 - b1] = g.g[y][b1:b2]
        o = new.out()
        want, free = o.img, o.mask
    g = call(sim, lambda: B.convertselection2BMP(B.copyrect(bmp, x1, y1, x2, y2)))
    try:
        sel = M.parse(bytes(g.value))
    except (TypeError, M.BadBMP):
        sel = None
    if not sel or (sel.w, sel.h, sel.bits) != (want.w, want.h, im.bits) or any(
            sel.px[y][x] != want.px[y][x] and not (free and free(x, y)) for y in range(want.h) for x in range(want.w)):
        r.fail('read', f'the selection {(x1, y1, x2, y2)} of a {im.bits}-bit {im.w}x{im.h} image as a bitmap is wrong')
    if bytes(bmp) != before:
        r.fail('read', 'reading changed the image')
    r.note('read', got)
