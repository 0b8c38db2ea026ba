"""File-to-file functions of the library without a pixel model of their own."""
from . import edits
from .edits import Edit, rect_any


class Plain(Edit):
    pass


X = {}


def x(fn, gen):
    X[fn] = Plain(fn, gen, None, 'extra')


x('fern2file', lambda rng, im: rect_any(rng, im) + [rng.getrandbits(24)])


def g_red1(rng, im):
    return [1, 24, False, None]


class Red1(Plain):
    def invoke(self, B, src, dst, a, src2=None):
        return B.reduce24bitimagebits(src, dst, *a)


X['reduce24bitimagebits:1'] = Red1('reduce24bitimagebits:1', g_red1, None, 'extra')


def every():
    return dict(edits.E, **X)
