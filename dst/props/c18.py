"""C18: text drawn into an image is exactly the font's glyphs, placed and clipped."""
from .common import *
from .hist import act_of
from .. import core, draw, text

ID = 'C18'
QUICK, THOROUGH = 7000, 300000
TECH = 'sessions of text and other drawing with interrupted calls, saves and reloads, judged against a layout model with its own glyph tables'
NOTE = ('Sampled executions, not a proof. Characters beyond the fonts\' 256 are not generated. A magnified cell across '
        'the border may be left out or clipped. The slant of unmagnified italics follows the parity of the row, as shipped.')
RULE = ('one run = one image under 1-5 steps: texts in all 20 styles, single glyphs in 17, other drawing, '
        'interrupted texts, saves and reloads; distinct = distinct event log; non-trivial = at least one text judged')
STATES = 'distinct (function, depth, magnification, spacing, kind of colour, clipped or not, outcome)'


NOLIST = {'plotreversestring', 'plotreversestringasdots', 'plotrotated8bitpattern', 'plotrotated8bitpatternasdots'}


def words(rng):
    k = rng.random()
    if k < .3:
        return ''.join(chr(rng.randrange(256)) for _ in range(rng.randint(1, 3)))
    s = ''.join(rng.choice('AbgjQ0~|W mX\x7f\xff') for _ in range(rng.randint(1, 4)))
    if k < .5:
        s += rng.choice(['\n', '\t', '\nZ', '\t.', '\n\n!', '\tM', '\n\tW'])
    elif k < .6:
        s = rng.choice(['A\tb', '\tW', '\tmQ', 'X\n\tW', 'g\t\tZ', 'b\nQ\nW'])
    return s if k < .97 else ''


def targs(rng, im, name=None):
    name = name or rng.choice(list(text.STRINGS) * 3 + list(text.GLYPHS))
    scale = rng.choice([1, 1, 1, 2, 2, 3, 4])
    pix = rng.choice([0, 0, 0, 1, 1, 2, scale])
    col = draw.color(rng, im)
    if rng.random() < .2 and name not in NOLIST:
        col = [draw.color(rng, im) for _ in range(rng.randint(1, 4))]
    x, y = draw.pt(rng, im)
    if rng.random() < .6:
        x, y = rng.randint(0, 6), rng.randint(0, 6) if 'sideway' not in name else im.h - 1 - rng.randint(0, 6)
    font = rng.choice(text.FONTS)
    if name in text.GLYPHS:
        c = chr(rng.randrange(256))
        return dict(f=name, x=x, y=y, c=c, font=font, scale=scale, pix=pix, col=col,
                    pat=[rng.randrange(256) for _ in range(rng.randint(1, 9))] if rng.random() < .5 else None)
    return dict(f=name, x=x, y=y, t=words(rng), scale=scale, pix=pix, space=rng.choice([0, 0, 1, 2, 3, -1]), col=col, font=font)


def scenario(rng, i, tier):
    img = imgspec(rng, maxdim=rng.choice([12, 24, 40, 60, 90]))
    ops = []
    for _ in range(rng.randint(1, 5 if tier == 'quick' else 10)):
        k = rng.random()
        o = dict(k='text' if k < .7 else 'draw' if k < .8 else 'cut' if k < .9 else 'reload' if k < .95 else 'ascii',
                 s=rng.getrandbits(32))
        if o['k'] == 'cut':
            o.update(act=rng.choice(['int', 'mem']), pos=round(rng.random(), 4))
        ops.append(o)
    return dict(world=world(rng), img=img, ops=ops)


def model(P, a):
    if a['f'] in text.GLYPHS:
        kind, dots = text.GLYPHS[a['f']]
        text.draw_glyph(P, kind, dots, a['x'], a['y'], a['pat'] or text.glyph(a['font'], a['c']), a['scale'], a['pix'], a['col'])
    else:
        lay, order, kind, dots = text.STRINGS[a['f']]
        text.draw_text(P, lay, order, kind, dots, a['x'], a['y'], a['t'], a['scale'], a['pix'], a['space'], a['col'], a['font'])


def go(B, F, bmp, a):
    f = getattr(B, a['f'])
    font = getattr(F, a['font'])
    if a['f'] in text.GLYPHS:
        return f(bmp, a['x'], a['y'], a['pat'] or F.getcharfont(font, a['c']), a['scale'], a['pix'], a['col'])
    return f(bmp, a['x'], a['y'], a['t'], a['scale'], a['pix'], a['space'], a['col'], font)


def execute(sc, r):
    import importlib
    B = runner.B
    F = importlib.import_module('pythonbmp.fonts')
    T = importlib.import_module('pythonbmp.textgraphics')
    prim = importlib.import_module('pythonbmp.primitives2D')
    sim = sim_of(sc)
    im = mk(sc['img'])
    bmp = mkb(sc['img'])
    head = bytes(bmp[:54])

    def now(how):
        if bytes(bmp[:54]) != head:
            r.fail('header', f'{how} changed header bytes')
        try:
            got = M.parse(bytes(bmp))
        except M.BadBMP as e:
            r.fail('header', f'{how} damaged the picture: {e}')
            raise Stop
        if got.pal != im.pal:
            r.fail('header', f'{how} changed the palette')
        return got
    for o in sc['ops']:
        g = R(o['s'])
        if o['k'] in ('text', 'cut'):
            a = o.get('args') or targs(g, im)
            how = f'{a} on a {im.bits}-bit {im.w}x{im.h} image'
            outs = text.variants(im, lambda P: model(P, a))
            at = act = None
            if o['k'] == 'cut':
                dry = sim_of(sc)
                call(dry, go, B, F, bmp[:], a, at=-1)
                at, act = int(o['pos'] * max(1, dry.last.n)), act_of(sim, o['act'])
            got = call(sim, go, B, F, bmp, a, at=at, act=act)
            r.ops += 1
            r.note(a, got.kind, bytes(bmp))
            new = now(how)
            if at is not None and sim.last.hit and not got.ok:
                sim.fault_counts['line:' + o['act']] += 1
                # each pixel is as before or as some moment of drawing leaves it
                for P in outs:
                    P.may = text.TextPen(im, P.quirky, P.mirror, P.idx)
                    P.may.hist = {}
                    model(P.may, a)
                for y in range(im.h):
                    for x in range(im.w):
                        v = new.px[y][x]
                        if v != im.px[y][x] and not any(v in P.may.hist.get((x, y), ()) or v in P.may.free.get((x, y), ())
                                                        for P in outs):
                            r.fail('interrupted', f'{how}, stopped half-way, left ({x},{y}) {v:#x}, which was '
                                   f'{im.px[y][x]:#x} and is not drawn so')
                r.state(a['f'], im.bits, 'cut')
            else:
                if not got.ok:
                    r.fail('failed', f'{how} failed: {got}')
                    raise Stop
                bad, used = text.match(outs, new)
                if bad:
                    r.fail(a['f'], f'{how}: {bad}')
                    raise Stop
                for u in used:
                    r.known['C18:' + {'mirror': 'mirrored-text-loses-column', 'idx': '8bit-magnified-colour'}[u]] += 1
                r.state(a['f'], im.bits, a['scale'], a['pix'] > 0, type(a['col']).__name__, bool(outs[0].free),
                        new == im)
            im = new
        elif o['k'] == 'draw':
            q = draw.OPS[g.choice([n for n in draw.OPS if n not in draw.PALETTE])]
            a = q.gen(g, im)
            if a is not None:
                call(sim, q.run, B, bmp, a)
                im = now(f'{q.name}{tuple(a)}')
        elif o['k'] == 'reload':
            call(sim, B.saveBMP, 'a.bmp', bmp)
            got = call(sim, B.loadBMP, 'a.bmp')
            if not loaded(got) or bytes(got.value) != bytes(bmp):
                r.fail('reload', f'saved text does not load back: {got.kind}')
                raise Stop
            bmp = got.value
        else:
            font, c = g.choice(text.FONTS), chr(g.randrange(256))
            rows = text.glyph(font, c)
            one, zero = g.choice([('*', ' '), ('#', '.'), ('<>', '  '), ('1', '')])
            got = call(sim, lambda: T.plot8bitpatternastext(F.getcharfont(getattr(F, font), c), one, zero))
            want = ''.join(''.join(one if b & (128 >> i) else zero for i in range(8)) + '\n' for b in rows)
            if not got.ok or got.value != want:
                r.fail('ascii', f'glyph {c!r} of {font} as text is {got}')
            sim.out.clear()
            got = call(sim, T.plotbitsastext, rows[0])
            if not got.ok or ''.join(sim.out) != ''.join('*' if rows[0] & (128 >> i) else ' ' for i in range(8)):
                r.fail('ascii', f'bits {rows[0]} as text are {"".join(sim.out)!r}')
            r.ops += 1
    r.absorb(sim)
