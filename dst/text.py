"""Text layout model: glyphs of the built-in fonts stamped on a Pen.

The glyph and palette tables are this framework's own copies (tables.json).
"""
import base64
import json
import os
import zlib

from .draw import Pen
from .edits import nearest, chan

_T = None


def tables():
    global _T
    if _T is None:
        from . import core
        op = core.REAL.get('open', open)
        with op(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'tables.json')) as f:
            d = json.load(f)
        _T = {k: zlib.decompress(base64.b64decode(v)) for k, v in d.items()}
        p = json.loads(_T.pop('palettes'))
        _T = dict(fonts=_T, pal={int(b): [tuple(c) for c in v] for b, v in p.items()})
    return _T


FONTS = ['font8x8', 'font8x8thin', 'font8x14', 'font8x14thin', 'font8x8sanserif', 'font8x14sanserif']


def glyph(font, c):
    t = tables()['fonts'][font]
    h = t[0]
    return list(t[1 + ord(c) * h:1 + ord(c) * h + h])


class TextPen(Pen):
    """A pen whose magnified cells have the recorded peculiarities as switches."""

    def __init__(self, im, quirky=False, mirror=False, idx=False, undo=None):
        super().__init__(im, quirky)
        self.mirror, self.idx = mirror, idx      # recorded findings in force
        self.free = {}                           # pixel -> colours it may hold besides
        self.used = set()
        self.hist = None                         # pixel -> every colour it ever had

    def put(self, x, y, c):
        super().put(x, y, c)
        self.free.pop((x, y), None)
        if self.hist is not None:
            self.hist.setdefault((x, y), set()).add(self.norm(c))

    def hline(self, y, x1, x2, c):
        if self.hist is not None or self.free:
            for x in range(max(0, min(x1, x2)), min(self.w - 1, max(x1, x2)) + 1):
                if 0 <= y < self.h:
                    self.free.pop((x, y), None)
                    if self.hist is not None:
                        self.hist.setdefault((x, y), set()).add(self.norm(c))
        super().hline(y, x1, x2, c)

    def cell(self, x, y, scale, inc, c, dots):
        if scale == 1 or inc <= 0:
            self.put(x, y, c)
        elif dots:
            d = inc >> 1
            self.disc(x + d, y + d, d, c)
        else:
            self.rect(x, y, x + inc, y + inc, c)

    def rect(self, x1, y1, x2, y2, c):
        if self.bits == 8 and self.idx:
            c = nearest(chan(c), self.pal)
            self.used.add('idx')
        if 0 <= x1 <= x2 < self.w and 0 <= y1 <= y2 < self.h:
            for y in range(y1, y2 + 1):
                self.hline(y, x1, x2, c)
            return
        # a cell across the border is left out; clipping it would be as good
        for y in range(max(0, y1), min(self.h - 1, y2) + 1):
            for x in range(max(0, x1), min(self.w - 1, x2) + 1):
                self.free.setdefault((x, y), set()).add(self.norm(c))


def rev(b, drop):
    r = int(f'{b:08b}'[::-1], 2)
    return r & 0x7f if drop else r


def draw_glyph(P, kind, dots, x, y, rows, scale, pix, color):
    """kind: plain, mirror, down (upside down), side; with 'i' in front: italic."""
    inc = scale - 1 - pix
    it = kind[0] == 'i'
    k = kind[1:] if it else kind
    cols = [color] if isinstance(color, int) else color
    half = scale >> 1
    rows = list(rows)
    if k == 'mirror':
        if P.mirror and any(b & 1 for b in rows):
            P.used.add('mirror')
        rows = [rev(b, P.mirror) for b in rows]
    elif k == 'down':
        rows.reverse()
    if it and k in ('plain', 'mirror'):
        x += half * len(rows) if scale > 1 else len(rows) >> 1
    for j, b in enumerate(rows):
        c = cols[j % len(cols)]
        for i in range(8):
            if b & (128 >> i):
                if k == 'side':
                    P.cell(x, y - i * scale, scale, inc, c, dots)
                else:
                    P.cell(x + i * scale, y, scale, inc, c, dots)
        if k == 'side':
            x += scale
            if it:
                y += half
                if x % 2 == 0 and scale == 1:
                    y -= 1
        else:
            y += scale
            if it:
                x -= half
                if y % 2 == 0 and scale == 1:
                    x -= 1


def draw_text(P, layout, order, kind, dots, x, y, s, scale, pix, space, color, font):
    space = space or 1
    h = tables()['fonts'][font][0]
    xs, ys = scale * 8 + space, h * scale + space
    ox, oy = x, y
    for c in (s if order > 0 else s[::-1]):
        if c == '\n':
            if layout == 'h':
                x, y = ox, y + ys
            elif layout == 'side':
                x, y = x + ys, oy
            else:
                x, y = x + xs, oy
        elif c == '\t':
            if layout == 'h':
                x += 4 * xs
            elif layout == 'side':
                y -= 4 * xs
            else:
                y += 4 * ys
        else:
            draw_glyph(P, kind, dots, x, y, glyph(font, c), scale, pix, color)
            if layout == 'h':
                x += xs
            elif layout == 'side':
                y -= xs
            else:
                y += ys


H, S, V = 'h', 'side', 'vert'
STRINGS = {
    'plotstring': (H, 1, 'plain', 0), 'plotstringasdots': (H, 1, 'plain', 1),
    'plotitalicstring': (H, 1, 'iplain', 0), 'plotitalicstringasdots': (H, 1, 'iplain', 1),
    'plotreversestring': (H, -1, 'mirror', 0), 'plotreversestringasdots': (H, -1, 'mirror', 1),
    'plotreverseditalicstring': (H, -1, 'imirror', 0), 'plotreverseditalicstringasdots': (H, -1, 'imirror', 1),
    'plotstringupsidedown': (H, -1, 'down', 0), 'plotstringupsidedownasdots': (H, 1, 'down', 1),
    'plotupsidedownitalicstring': (H, -1, 'idown', 0), 'plotupsidedownitalicstringasdots': (H, -1, 'idown', 1),
    'plotstringsideway': (S, 1, 'side', 0), 'plotstringsidewayasdots': (S, 1, 'side', 1),
    'plotitalicstringsideway': (S, 1, 'iside', 0), 'plotitalicstringsidewayasdots': (S, 1, 'iside', 1),
    'plotstringvertical': (V, 1, 'plain', 0), 'plotstringverticalasdots': (V, 1, 'plain', 1),
    'plotitalicstringvertical': (V, 1, 'iplain', 0), 'plotitalicstringverticalasdots': (V, 1, 'iplain', 1),
}
GLYPHS = {
    'plot8bitpattern': ('plain', 0), 'plot8bitpatternasdots': ('plain', 1),
    'plotitalic8bitpattern': ('iplain', 0), 'plotitalic8bitpatternasdots': ('iplain', 1),
    'plotrotated8bitpattern': ('mirror', 0), 'plotrotated8bitpatternasdots': ('mirror', 1),
    'plotreverseditalic8bitpattern': ('imirror', 0), 'plotreverseditalic8bitpatternasdots': ('imirror', 1),
    'plot8bitpatternupsidedown': ('down', 0), 'plot8bitpatternupsidedownasdots': ('down', 1),
    'plotupsidedownitalic8bitpattern': ('idown', 0), 'plotupsidedownitalic8bitpatternasdots': ('idown', 1),
    'plotitalic8bitpatternupdsidedownasdots': ('idown', 1),
    'plot8bitpatternsideway': ('side', 0), 'plot8bitpatternsidewaywithdots': ('side', 1),
    'plotitalic8bitpatternsideway': ('iside', 0), 'plotitalic8bitpatternsidewayasdots': ('iside', 1),
}
FILES = {
    'plotstring2file': (H, 1, 'plain', 0), 'plotstringasdots2file': (H, 1, 'plain', 1),
    'plotitalicstring2file': (H, 1, 'iplain', 0), 'plotitalicstringasdots2file': (H, 1, 'iplain', 1),
    'plotreversedstring2file': (H, -1, 'mirror', 0), 'plotreversedstringasdots2file': (H, -1, 'mirror', 1),
    'plotreverseditalicstring2file': (H, -1, 'imirror', 0),
    'plotupsidedownstring2file': (H, -1, 'down', 0), 'plotupsidedownstringasdots2file': (H, -1, 'down', 1),
    'plotverticalstring2file': (V, 1, 'plain', 0), 'plotverticalstringasdots2file': (V, 1, 'plain', 1),
    'plotverticalitalicstring2file': (V, 1, 'iplain', 0), 'plotverticalitalicstringasdots2file': (V, 1, 'iplain', 1),
}


def filesize(layout, kind, s, scale, space, font):
    """Width and height a text file needs."""
    space = space or 1
    h = tables()['fonts'][font][0]
    lines = s.replace('\t', '    ').split('\n')
    n, m = max(map(len, lines)), len(lines)
    if layout == V:
        n, m = m, n
    w = n * (scale * 8 + space) + 2 * scale
    if kind[0] == 'i':
        w += h * (scale >> 1) if scale > 1 else h >> 1
    return w, m * (h * scale + space) + 2 * scale


def variants(im, go, bits=None):
    """Pens after go(P): first the ideal one, then with recorded findings, then 4-bit runs."""
    outs = []
    for q in (False, True) if im.bits == 4 else (False,):
        for mirror in (False, True):
            for idx in (False, True) if im.bits == 8 else (False,):
                P = TextPen(im, q, mirror, idx)
                go(P)
                outs.append(P)
    return outs


def match(outs, got):
    """(None, findings used) when got is one of the outcomes, else (text, None)."""
    first = None
    for P in sorted(outs, key=lambda p: (len(p.used), p.quirky)):
        bad = [(x, y) for y in range(P.h) if P.px[y] != got.px[y] or P.free
               for x in range(P.w) if got.px[y][x] != P.px[y][x] and got.px[y][x] not in P.free.get((x, y), ())
               and not (P.quirky and P.px[y][x] != got.px[y][x] and got.px[y][x] == outs[0].px[y][x])]
        if not bad:
            return None, P.used
        if first is None:
            x, y = bad[0]
            first = (f'{len(bad)} of {P.w * P.h} pixels wrong, first ({x},{y}) is {got.px[y][x]:#x}, '
                     f'expected {P.px[y][x]:#x}')
    return first, None
