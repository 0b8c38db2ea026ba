"""The in-memory functions behind the file edits: same models, live image instead of files.

ON[edit] = (function, area)   area(im, a) -> f(x, y): pixels the call is asked to change
RETURNS: functions that hand back a new image and leave theirs alone.
"""
from . import edits

everything = lambda im, a: (lambda x, y: True)
nothing = lambda im, a: (lambda x, y: False)


def rect(im, a):
    x1, y1, x2, y2 = edits.srt(a)
    n = max(1, 8 // im.bits)
    x1, x2 = x1 // n * n, x2 // n * n + n - 1
    return lambda x, y: x1 <= x <= x2 and y1 <= y <= y2


def near(x, y, r):
    return lambda px, py: (px - x) ** 2 + (py - y) ** 2 <= r ** 2


def disc(slack=1):
    def f(im, a):
        x, y, r = a[0], a[1], a[2] + slack
        n = 8 // im.bits
        if n > 1:                              # rounded outwards to whole bytes
            return lambda px, py: y - r <= py <= y + r and (x - r) // n * n <= px < ((x + r) // n + 1) * n
        return near(x, y, r)
    return f


def strip(n):
    return n.replace('2file', '').replace('ntofile', 'nxn')


ON = {}
for n in ('invertbits2file invertimagebits,flipvertical2file flipvertical,mirrortop2file mirrortop,'
          'mirrorbottom2file mirrorbottom,fliphorizontal2file fliphorizontal,mirrorleft2file mirrorleft,'
          'mirrorright2file mirrorright,mirrortopleft2file mirrortopleft,mirrortopright2file mirrortopright,'
          'mirrorbottomleft2file mirrorbottomleft,mirrorbottomright2file mirrorbottomright,'
          'eraseeverynthhoriline2file eraseeverynthhorizontalline,outline2file outline,'
          'palshift2file palshift,adjustbrightness2file brightnesseadjto24bitimage,'
          'thresholdadjust2file thresholdadjto24bitimage,colorfilter2file colorfilterto24bitimage,'
          'gammaadj2file gammaadjto24bitimage,monochrome2file monofilterto24bitimage,'
          'verticalbrightnessgrad2file verticalbrightnessgradto24bitimage,'
          'horizontalbrightnessgrad2file horizontalbrightnessgradto24bitimage').split(','):
    k, v = n.split()
    ON[k] = (v, everything)
for n in ('flipXY2file flipXY,upgradeto24bitimage2file upgradeto24bitimage,'
          'resizeNtimesbigger2file resizeNtimesbigger,resizeNtimessmaller2file resizeNtimessmaller,'
          'pixelizenxntofile pixelizenxn,cropBMPandsave crop').split(','):
    k, v = n.split()
    ON[k] = (v, nothing)
RETURNS = {k for k, (v, a) in ON.items() if a is nothing}
for n in ('outlineregion flipverticalregion fliphorizontalregion mirrorleftinregion mirrorrightinregion '
          'mirrortopinregion mirrorbottominregion mirrortopleftinregion mirrortoprightinregion '
          'mirrorbottomleftinregion mirrorbottomrightinregion invertregion eraseeverynthhorilineinregion '
          'filledrect filledgradrect filleddichromaticgradrect').split():
    ON[n + '2file'] = (n, rect)
for n in ('adjustbrightnessinregion2file brightnesseadjto24bitregion,'
          'adjustthresholdinregion2file thresholdadjto24bitregion,'
          'colorfilterinregion2file colorfilterto24bitregion,gammaadjtoregion2file gammaadjto24bitregion,'
          'monofilterinregion2file monofilterto24bitregion,'
          'verticalbrightnessgradregion2file verticalbrightnessgradto24bitregion,'
          'horizontalbrightnessgradregion2file horizontalbrightnessgradto24bitregion').split(','):
    k, v = n.split()
    ON[k] = (v, rect)
for n in ('brightnessadjcircregion thresholdadjcircregion colorfiltercircregion gammacorrectcircregion '
          'vertbrightnessgrad2circregion horibrightnessgrad2circregion invertbitsincircregion '
          'flipvertcircregion fliphoricircregion mirrortopincircregion mirrorbottomincircregion '
          'mirrorleftincircregion mirrorrightincircregion mirrortopleftincircregion '
          'mirrortoprightincircregion mirrorbottomleftincircregion mirrorbottomrightincircregion '
          'flipXYcircregion outlinecircregion magnifyNtimescircregion filledcircle circle').split():
    ON[n + '2file'] = (n, disc())
ON['monochromecircregion2file'] = ('monocircle', disc())
ON['eraseeverynthhorilineinccircregion2file'] = ('eraseeverynthhorizontallineinccircregion', disc())
ON['pixelizenxncircregion2file'] = (
    'pixelizenxncircregion', lambda im, a: near(a[0], a[1], a[2] + 1 + 2 * a[3]))
ON['sphere2file'] = ('sphere', disc(3))
ON['thickencirclearea2file'] = ('thickencirclearea', disc(11))
ON['copycircregion2file'] = ('copycircregion', lambda im, a: disc()(im, list(a[3]) + [a[2]]))

# only ever called on 24-bit images by their file edits
ONLY24 = {k for k, (v, a) in ON.items() if '24bit' in v and v != 'upgradeto24bitimage'} | {
    'monochromecircregion2file', 'brightnessadjcircregion2file', 'thresholdadjcircregion2file',
    'colorfiltercircregion2file', 'gammacorrectcircregion2file', 'vertbrightnessgrad2circregion2file',
    'horibrightnessgrad2circregion2file', 'sphere2file', 'thickencirclearea2file',
    'resizeNtimessmaller2file', 'pixelizenxntofile', 'magnifyNtimescircregion2file',
    'pixelizenxncircregion2file'}
PALETTE = {'palshift2file'}

CALLBACK = {'filledgradrect2file', 'filleddichromaticgradrect2file', 'sphere2file'}


def invoke(B, name, bmp, a, fn=None):
    f = getattr(B, ON[name][0])
    return f(bmp, *a) if fn is None else f(bmp, *a, fn)


class Live:
    """The in-memory function behind a file edit, between a load and a save."""
    two = False

    def __init__(self, e):
        self.fn, self.gen, self.group, self.e = e.fn, e.gen, e.group, e

    def model(self, im, a):
        if self.fn == 'resizeNtimesbigger2file':        # the file edit is for 24 bits only
            return edits.Out(edits.bigger(im, a[0]), resized=True)
        return self.e.model(im, a)

    def invoke(self, B, src, dst, a, src2=None):
        bmp = B.loadBMP(src)
        got = invoke(B, self.fn, bmp, a)
        B.saveBMP(dst, got if self.fn in RETURNS else bmp)


def live(e, im, a):
    """The same edit in memory where the function accepts the picture, else the file edit."""
    if e.fn not in ON or e.fn in ONLY24 and im.bits != 24:
        return e
    o = Live(e).model(im, a)
    return e if o.refuse or o.error or o.either else Live(e)


def variants(name, im, a):
    return edits.variants(Live(edits.E[name]), im, a)
