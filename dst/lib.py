"""Every public function of the library, callable with generated arguments.

calls() maps 'module.function' to the function.  args(rng, key, ctx) gives a
JSON-able description of one argument list; build(desc, ctx) turns it into live
objects.  Where another module already has a careful generator (drawing calls,
file edits) that one is used; otherwise arguments follow the parameter's name
and annotation.  Arguments need not be valid: users of this module compare one
execution of a call with another, so a refusal or an exception is a result too.
"""
import importlib
import inspect
import json
import os
from array import array

from . import draw, edits, extra, mem

SKIP_MODULES = {'__init__', 'conditionaltools'}
# decorators, clock readers, helpers whose result is the environment, loops a plain argument cannot bound
SKIP = {'BITMAPlib.ensurePaintWrapperInPath', 'proctimer.functimer', 'proctimer.elaspedtimeinseconds',
        'proctimer.hhmmsselaspedtime', 'BITMAPlib.fern2file', 'BITMAPlib.fern', 'BITMAPlib.fractalbyfn2file',
        'BITMAPlib._pdbytes'}
_calls = {}


def calls():
    if _calls:
        return _calls
    import pythonbmp
    here = os.path.dirname(pythonbmp.__file__)
    public = set(json.loads(open(os.path.join(os.path.dirname(__file__), 'data', 'public.json')).read()))
    for f in sorted(os.listdir(here)):
        if not f.endswith('.py') or f[:-3] in SKIP_MODULES or f.startswith('paramchecks'):
            continue
        m = importlib.import_module('pythonbmp.' + f[:-3])
        for n, g in vars(m).items():
            if not callable(g) or inspect.isclass(g) or getattr(g, '__module__', None) != m.__name__ or \
                    not inspect.isfunction(inspect.unwrap(g)):      # also wrapped (cached) functions
                continue
            g0 = inspect.unwrap(g)
            k = f'{f[:-3]}.{n}'
            if k in SKIP or k not in public:     # helpers come and go; what users call stays
                continue
            _calls[k] = (g, list(inspect.signature(g0).parameters.values()))
    return _calls


def signature(key):
    return calls()[key][1]


WORDS = ['', 'A', 'Hi', 'BMP', 'a b', 'x\ny', 'Tab\there', 'Zz9', '~', 'gj']
TEXT = {'str2plot', 'text', 'st'}
FONTS = ['font8x8', 'font8x14']


def num(rng):
    return rng.choice([rng.randint(-9, 30), round(rng.uniform(-9, 30), 3)])


def pt(rng):
    return [rng.randint(-4, 24), rng.randint(-4, 24)]


def fl(rng, a=.1, b=3.0):
    return round(rng.uniform(a, b), 3)


def pts3(rng, n):
    return [[fl(rng, -9, 9) for _ in range(3)] for _ in range(n)]


def colorcnt(im):
    return (1 << im.bits) - 1


def one(rng, p, fn, im):
    """Description of one argument from parameter name and annotation."""
    n = p.name
    a = p.annotation
    s = str(a)
    if n in OVER.get(fn, {}):
        return OVER[fn][n](rng)
    if n == 'r' and 'circ' in fn and fn not in draw.OPS:
        return rng.randint(1, 3)
    if n == 'buf' and fn in ('pasterect', 'convertselection2BMP'):
        return {'$': 'rect', 'v': [rng.randint(0, 3), rng.randint(0, 3), rng.randint(0, 7), rng.randint(0, 7)]}
    if n == 'trans' and 'horitrans' in fn:
        return rng.choice('FLR')
    if n == 'trans' and 'verttrans' in fn:
        return rng.choice('FTB')
    if n == 'func' and fn.startswith(('_use', '_fn')) and fn not in OVER:
        return {'$': 'fn', 'v': 'inv0' if 'byref' in fn else 'inv'}
    if n.startswith('int_erase'):
        return rng.randint(0, 1) if 'Nth' in n else rng.randint(1, 3)
    if n in ('bmp', 'sourceBMP', 'sourcebmp', 'arr') and (a is array or n == 'bmp'):
        return {'$': 'bmp'}
    if n in ('destBMP', 'newbmp'):
        return {'$': 'bmp2'}
    if n in ('ExistingBMPfile', 'Existing24BMPfile', 'inputfile1', 'filename') :
        return 'in.bmp'
    if n == 'inputfile2':
        return 'in2.bmp'
    if n in ('NewBMPfile', 'file', 'diff_file'):
        return 'out.bmp'
    if n == 'NewDir':
        return 'outdir'
    if n in ('fontbuf', 'charbuf'):
        return {'$': 'font', 'v': rng.choice(FONTS)}
    if n in ('buf', 'arraybuf', 'rbuf', 'gbuf', 'bbuf', 'bgrpalbuf', 'bitpattern', 'blist', 'unpackedbuf', 'pallist'):
        if n == 'pallist' or n in ('bgrpallist', 'bgrapallist'):
            return [[rng.randrange(256) for _ in range(3)] for _ in range(1 << min(im.bits, 8))]
        m = 1024 if n == 'bgrpalbuf' else rng.choice([3, 6, 8, 12])
        top = 2 if n == 'blist' else 16 if n == 'unpackedbuf' else 256
        v = [rng.randrange(top) for _ in range(m)]
        return v if n in ('bitpattern', 'blist', 'unpackedbuf') else {'$': 'array', 'v': v}
    if n in ('bgrpallist', 'bgrapallist'):
        return [[rng.randrange(256) for _ in range(4 if n == 'bgrapallist' else 3)]
                for _ in range(1 << min(im.bits, 8))]
    if n in TEXT:
        return rng.choice(WORDS)
    if n in ('onechar', 'zerochar', 'waitmsg', 'rowprocind', 'finishmsg'):
        return rng.choice(['', '*', 'ok'])
    if n == 'character':
        return chr(rng.randint(32, 126))
    if n == 'charcodestr':
        return chr(rng.randint(32, 126))
    if n == 'trans':
        return rng.choice(['L', 'R', 'T', 'B', 'F', 'mirror', 'flip'])
    if n == 'orderfunc':
        return {'$': 'fn', 'v': rng.choice(['chartools.enumletters', 'chartools.enumreverseletters'])}
    if n == 'fontrenderfunc':
        return {'$': 'fn', 'v': 'BITMAPlib.plot8bitpattern'}
    if n == 'swapfunc':
        return {'$': 'fn', 'v': 'bufferflip.flip24bitbuf'}
    if 'Callable' in s or n in ('fn', 'func', 'f', 'fnxy', 'fprime') and 'float' not in s:
        if s.startswith('list'):
            return [{'$': 'poly'}, {'$': 'dpoly'}]
        return {'$': 'fn', 'v': {'fnxy': 'saddle', 'fprime': 'dpoly', 'f': 'poly'}.get(n, 'first')}
    if n in ('RGBfactors', 'rgbfactors'):
        return [fl(rng, 0, 1) for _ in range(3)]
    if n == 'RGBfactorslist':
        return [[fl(rng, 0, 1) for _ in range(3)] for _ in range(8)]
    if n in ('rgb', 'RGB'):
        return [rng.randrange(256) for _ in range(3)]
    if n == 'pal':
        return [[rng.randrange(256) for _ in range(3)] for _ in range(rng.choice([2, 16]))]
    if n == 'rgblist':
        return [[rng.randrange(256) for _ in range(3)] for _ in range(4)]
    if n == 'lumrange':
        return sorted([rng.randrange(256), rng.randrange(256)])
    if n in ('domain', 'mandelparam'):
        return [fl(rng, -2, -.5), fl(rng, .5, 2), fl(rng, -2, -.5), fl(rng, .5, 2)]
    if n in ('bits', 'bitdepth', 'colorbits', 'newbits'):
        return rng.choice([1, 4, 8, 24])
    if n in ('color', 'c1', 'c2', 'fillcolor', 'outlinecolor', 'edgecolor', 'gridcolor', 'textcolor',
             'backgroundcolor', 'reglinecolor'):
        return rng.choice([rng.randint(0, colorcnt(im)), rng.randint(0, 0xffffff)])
    if n in ('percentadj',):
        return fl(rng, -2, 3)
    if n == 'gamma':
        return fl(rng, .2, 3)
    if n in ('direction',):
        return rng.randrange(4)
    if n in ('maxiter',):
        return rng.randint(2, 14)
    if n in ('n',) and a is int:
        return rng.randint(1, 5)
    if n in ('scale',):
        return rng.randint(1, 2)
    if n in ('pixspace', 'spacebetweenchar'):
        return rng.choice([0, 0, 1])
    if n in ('turns', 'order', 'mult', 'intmagfactor', 'intpixsize', 'penradius', 'edgeradius', 'linelen'):
        return rng.randint(1, 3)
    if n in ('r', 'steps', 'step', 'petals', 'sides', 'dx', 'dy', 's', 'xbins', 'ybins', 'pbins', 'qbins') and (
            a is int or a is float and n in ('r', 'petals')):
        return rng.randint(2, 10)
    if n in ('delta', 'deganglestep') :
        return rng.choice([5.0, 10, 30, 45.5])
    if n == 'lim' and a is float:
        return rng.choice([90, 360.0])
    if n in ('x', 'y', 'cx', 'cy', 'x1', 'x2', 'y1', 'y2', 'xmax', 'ymax', 'maxx', 'maxy', 'mx', 'my', 'xlim',
             'ylim', 'xmin', 'ymin', 'minx', 'miny', 'headsize'):
        if a is float:
            return fl(rng, -2, 9)
        top = (im.w if 'x' in n else im.h) + 2
        return rng.randint(-1 if rng.random() < .2 else 0, max(1, top - (0 if rng.random() < .2 else 3)))
    if a is bool:
        return rng.random() < .5
    if a is str:
        return rng.choice(WORDS)
    if 'complex' in s and 'list' in s or 'Complex' in s:
        return [{'$': 'complex', 'v': [fl(rng, -3, 3), fl(rng, -3, 3)]} for _ in range(rng.choice([2, 4, 8]))]
    if a is complex:
        return {'$': 'complex', 'v': [fl(rng, -1, 1), fl(rng, -1, 1)]}
    if a is int:
        return rng.choice([rng.randint(0, 9), rng.randint(0, 255), rng.randint(-3, 20)])
    if a is float:
        return fl(rng)
    if n in ('c',) and 'complex' in s:
        return {'$': 'complex', 'v': [fl(rng, -1, 1), fl(rng, -1, 1)]}
    if s.startswith('list[list[list') or n == 'sides' and 'list' in s:
        return [[0, 1, 2], [1, 2, 3], [0, 2, 3]]
    if 'list[list' in s or n in ('vertlist', 'vlist', 'xylist', 'pntlist', 'XYdata', 'point', 'polylist'):
        k = 3 if 'Number, ' in s and s.count('Number') == 3 else 2
        if n == 'point':
            return pt(rng)
        if n == 'polylist':
            return [[pt(rng) for _ in range(4)] for _ in range(2)]
        if k == 3:
            return pts3(rng, 4)
        return [pt(rng) for _ in range(rng.choice([2, 3, 4, 5]))]
    if s.count('float') == 3 or s.count('Number') == 3:
        return [fl(rng, -9, 9) for _ in range(3)]
    if s.count('float') == 2 or s.count('Number') == 2 or s == 'list[int, int]':
        return [num(rng), num(rng)] if 'int' not in s else pt(rng)
    if n in ('u', 'v', 'p1', 'p2', 'p3', 'newxy', 'newxycenterpoint') and a is list:
        return pt(rng)
    if s.startswith('list[int]'):
        return [rng.randrange(256) for _ in range(4)]
    if s.startswith('list'):
        return [num(rng) for _ in range(4)]
    if 'Number' in s or n in ('a', 'b', 'val', 'value', 'd', 'x', 'y'):
        return num(rng)
    if 'dict' in s:
        return {'$': 'dict', 'v': [[rng.randrange(99), rng.randrange(99)] for _ in range(4)]}
    return rng.randint(0, 9)


cst = lambda v: (lambda rng: v)
ri = lambda a, b: (lambda rng: rng.randint(a, b))
pick = lambda *v: (lambda rng: rng.choice(v))
cx = lambda rng: {'$': 'complex', 'v': [fl(rng, -1, 1), fl(rng, -1, 1)]}
solid = lambda rng: {'$': 'solid', 'v': rng.choice(['tetrahedravert', 'cubevert', 'octahedravert']), 'x': 8}
pie = lambda rng: [[rng.randint(1, 20), rng.randrange(1 << 24)] for _ in range(rng.randint(2, 4))]
ifs = lambda rng: {'$': 'const', 'v': rng.choice(['fractals.getIFSparams'])}
OVER = {
    'makenewpalfromcolorhist': {'chist': lambda rng: [[rng.randint(1, 9), rng.randrange(1 << 24)]
                                                      for _ in range(6)], 'colors': pick(2, 4, 16)},
    'piechart': {'dataandcolorlist': pie}, 'genpiechartdata': {'dlist': pie}, 'getdatalisttotal': {'dlist': pie},
    '_setmeta': {'bmpmeta': lambda rng: rng.choice([[54 + 4 * 6 * 3, 54, 4, 6, 24][:5], [1078 + 32, 1078, 8, 4, 8],
                                                     [118 + 16, 118, 8, 4, 4], [62 + 16, 62, 9, 4, 1]])},
    'fillboundary': {'bndfilldic': lambda rng: {'$': 'dict', 'v': [[rng.randint(0, 9), [rng.randint(0, 9),
                                                                   rng.randint(9, 19)]] for _ in range(3)]}},
    'fft': {'v': lambda rng: [num(rng) for _ in range(8)]}, 'ifft': {'v': lambda rng: [num(rng) for _ in range(8)]},
    'fftfn': {'a': lambda rng: num(rng)}, 'ifftfn': {'a': lambda rng: num(rng)},
    'applyfft': {'fn': cst({'$': 'fn', 'v': 'mathlib.fftfn'}), 'v': lambda rng: [num(rng) for _ in range(8)]},
    'tetration': {'x': lambda rng: fl(rng, .2, 1.6), 'n': ri(1, 4)},
    'hilbertvert': {'l': cst([]), 'u': pt, 'v': lambda rng: [8, 0, 0, 8], 'n': ri(0, 3)},
    'iterngonfractal': {'c': cx}, 'countdist': {'distlist': lambda rng: [[1, num(rng)] for _ in range(4)]},
    'distancetable': {'vertlist': lambda rng: [pt(rng) for _ in range(4)]},
    'dict2descorderlist': {'d': lambda rng: {'$': 'dict', 'v': [[rng.randrange(9), rng.randrange(9)]
                                                                for _ in range(5)]}},
    'adjustcolordicttopal': {'colordict': lambda rng: {'$': 'dict', 'v': [['a', 255], ['b', 65280]]}},
    'plot3d': {'sides': lambda rng: {'$': 'sides', 'v': solid(rng)}},
    'plotpolyfillist': {'sides': lambda rng: {'$': 'sides', 'v': solid(rng)}},
    'plot3Dsolid': {'vertandsides': solid, 'rotvect': lambda rng: {'$': 'rot', 'v': [30, 40, 50]},
                    'transvect3D': cst([0, 0, 40]), 'd': cst(30), 'transvect': cst([10, 10])},
    'perspective': {'vlist': lambda rng: pts3(rng, 4), 'rotvec': lambda rng: {'$': 'rot', 'v': [10, 20, 30]},
                    'dispvec': cst([0, 0, 40]), 'd': cst(20)},
    'gensides': {'pointlists': lambda rng: [pts3(rng, 4), [pt(rng) for _ in range(4)]],
                 'transvect': cst([5, 5]), 'sides': cst([[0, 1, 2], [2, 1, 3], [0, 3, 1]])},
    'zlevelcoords': {'verlist': lambda rng: [[rng.randint(0, 5), rng.randint(0, 5), rng.randint(0, 2)]
                                             for _ in range(6)]},
    'genspheresurfaces': {'zlevelcoord': lambda rng: {'$': 'zl', 'v': 4}},
    'XYaxis': {'origin': cst([5, 20]), 'steps': cst([5, 5]), 'xylimits': cst([25, 3]), 'xyvalstarts': cst([0, 0]),
               'xysteps': pick([1, 1], [2, 5])},
    'XYscatterplot': {'XYdata': lambda rng: [[rng.randint(0, 4), rng.randint(0, 4), rng.randint(0, 4),
                                              True, 15] for _ in range(3)],
                      'XYcoordinfo': cst([[5, 20], [5, 5], [25, 3], [0, 0], [1, 1], [4, 3]])},
    'userdef2Dcooordsys2screenxy': {'lstcooordinfo': cst([[5, 20], [5, 5], [25, 3], [0, 0], [1, 1], [4, 3]])},
    'numbervert': {'vlist': lambda rng: [[rng.randint(0, 20), rng.randint(0, 20)] for _ in range(3)],
                   'xadj': ri(-3, 3), 'yadj': ri(-3, 3), 'scale': cst(1)},
    'plotattractor': {'v': lambda rng: [[fl(rng), fl(rng)] for _ in range(9)]},
    'plotattractorcomplex': {'v': lambda rng: [cx(rng) for _ in range(9)]},
    'IFS': {'IFStransparam': ifs}, 'iterIFS': {'IFStransparam': ifs, 'maxiter': ri(5, 50)},
    'koch': {'u': pt, 'v': pt}, 'mirror': {'pt': num},
    'initmatrix': {'i': ri(1, 4), 'j': ri(1, 4)},
    'newBMP': {'x': ri(1, 30), 'y': ri(1, 20)}, '_getbmflsz': {'x': ri(1, 30), 'y': ri(1, 20)},
    'newtonmethod': {'x0': cx, 'f': cst({'$': 'fn', 'v': 'poly'}), 'fprime': cst({'$': 'fn', 'v': 'dpoly'})},
    'surfplot3Dvertandsurface': {'x1': cst(0), 'y1': cst(0), 'x2': ri(4, 9), 'y2': ri(4, 9), 'step': ri(1, 4)},
    'pastecirularbuf': {'circbuf': lambda rng: {'$': 'circbuf', 'v': 3}},
    'horizontalbulkswap': {'swapfunc': cst({'$': 'fn', 'v': 'swap6'})},
    'roundpen': {'point': pt},
    'setbmppal': {},
    '_sethdsz': {'hdsize': pick(54, 1078, 118, 62)}, '_setflsz': {'size': ri(60, 500)},
    'BMPbitBLTput': {'offset': ri(0, 20)}, 'BMPbitBLTget': {'offset': ri(0, 20), 'bufsize': ri(0, 12)},
    'writeint': {'offset': ri(0, 4), 'cnt': ri(1, 4)}, 'readint': {'offset': ri(0, 4), 'cnt': ri(1, 4)},
    'int2buf': {'cnt': ri(1, 4)}, 'getRGBpal': {'c': ri(0, 1)},
    'itercolorcycle': {}, 'plot8bitpatternwithfn': {'fn': cst({'$': 'fn', 'v': 'penfn'})},
    'kochsnowflakevert': {}, 'savekochsnowflake2file': {'n': ri(0, 3)},
    'getIFSparams': {},
    'pixelizenxn': {'n': ri(2, 5)},
    '_usefndirsv': {'func': cst({'$': 'fn', 'v': 'BITMAPlib.itercolorcycle'})},
    'plotmultifractal': {'func': pick(*({'$': 'fn', 'v': 'fractals.' + k} for k in (
        'itermultibrot', 'itermulticorn', 'itermulticircle', 'iterlemniscate'))), 'd': pick(2, 3, 2.5)},
    'plotmultifractalcomplexpar': {'func': pick(*({'$': 'fn', 'v': 'fractals.' + k} for k in (
        'itermultijulia', 'itermultibiomorph', 'itermultisinbiomorph'))), 'd': pick(2, 3), 'c': cx},
    'savefractal2file': {'f': pick({'$': 'fn', 'v': 'BITMAPlib.mandelbrot'}, {'$': 'fn', 'v': 'BITMAPlib.tricorn'})},
    'savemultifractal2file': {'f': cst({'$': 'fn', 'v': 'BITMAPlib.multibrot'}), 'd': pick(2, 3)},
    'savefractalwithparam2file': {'f': cst({'$': 'fn', 'v': 'BITMAPlib.julia'}), 'p': cx},
    'savefractalwith2param2file': {'f': cst({'$': 'fn', 'v': 'BITMAPlib.multijulia'}), 'p1': cx, 'p2': pick(2, 3)},
    'savenewtonsfractal2file': {'d': cst([{'$': 'poly'}, {'$': 'dpoly'}]), 'bitdepth': cst(24),
                                'rgbfactors': cst([[1.0, .5, .2], [.2, 1.0, .3], [.3, .1, 1.0], [1.0] * 3] * 2)},
    'savetetrationfractal2file': {'d': ri(1, 4)}, 'tetrationfractal': {'d': ri(1, 4)}, 'xordivfractal': {'d': ri(1, 4)},
    'itertetration': {'d': ri(1, 4)}, 'iterxordivfractal': {'d': ri(1, 4)}, 'xordiv': {'d': ri(1, 4)},
    'verttrans': {'trans': pick('F', 'T', 'B')}, 'horitrans': {'trans': pick('F', 'L', 'R')},
    'resizesmaller24bitbuf': {'buf': lambda rng: [[rng.randrange(256) for _ in range(12)] for _ in range(2)]},
    'interpolateRGB': {'f': cst({'$': 'fn', 'v': 'mathlib.lerp'}), 'v': lambda rng: fl(rng, 0, 1)},
    'biomorphfunc': {'f': cst({'$': 'fn', 'v': 'ipow'}), 'z': cx, 'c': cx, 'd': pick(2, 3)},
    'newton': {'P': fl, 'Q': fl, 'd': cst([{'$': 'poly'}, {'$': 'dpoly'}])},
    'adddimz': {'vlist2D': lambda rng: [pt(rng) for _ in range(3)]},
    'countdist': {'distlist': lambda rng: [[0, 1, rng.randint(1, 4)] for _ in range(6)]},
    'diracos': {'dcos': lambda rng: [fl(rng, -1, 1) for _ in range(3)]},
    'histogram2D': {'v': lambda rng: [[fl(rng), fl(rng)] for _ in range(6)], 'xbins': cst(4), 'ybins': cst(4)},
    'intsetminmaxvec': {'vlist': lambda rng: [num(rng) for _ in range(4)]},
    'setmaxvec': {'vlist': lambda rng: [num(rng) for _ in range(4)]},
    'setminmaxvec': {'vlist': lambda rng: [num(rng) for _ in range(4)]},
    'invsmoothstep': {'x': lambda rng: fl(rng, 0, 1)},
    'conevertandsurface': {'deganglestep': pick(10, 30, 45), 'r': ri(2, 9), 'zlen': ri(2, 9)},
    'plotfilledflower': {'r': ri(1, 4), 'petals': ri(1, 3)}, 'plotflower': {'r': ri(1, 5), 'petals': ri(1, 4)},
    'thickencirclearea': {'r': ri(1, 3)},
    'setnewpalfromsourcebmp': {'similaritythreshold': pick(1, 3.5)},
    'setBMP2dichromaticpal': {'c1': ri(0, 255), 'c2': lambda rng: rng.randrange(1 << 24)},
}
SYM = dict(a=lambda g: fl(g, -2.6, -2), b=lambda g: fl(g, 0, .2), g=lambda g: fl(g, .1, 1), o=cst(0.0), l=lambda g: fl(g, 1, 2),
           d=ri(3, 6), ox=cst(0.01), oy=cst(0.01))
DUF = dict(a=lambda g: fl(g, .1, .3), b=lambda g: fl(g, .1, .3), c=lambda g: fl(g, .1, 1), d=lambda g: fl(g, 0, .1))
ATT = dict(x=ri(6, 20), y=ri(6, 20), n=ri(20, 200))
for k in ('clifford', 'duffing', 'fractaldream', 'hopalong', 'peterdejong', 'symmetricicon'):
    for n in (k + 'attractor', f'save{k}attractor2file'):
        OVER[n] = dict(ATT, **(SYM if k == 'symmetricicon' else DUF if k == 'duffing' else {}))
    OVER[k + 'attractorlist'] = dict(n=ri(20, 200))
for k in ('plotrotated8bitpatternwithfn plotrotateditalic8bitpatternwithfn plotitalic8bitpatternwithfn '
          'plotitalic8bitpatternupsidedownwithfn plot8bitpatternupsidedownwithfn '
          'plot8bitpatternsidewaywithfn plotitalic8bitpatternsidewaywithfn').split():
    OVER[k] = OVER['plot8bitpatternwithfn']
for k in 'plotstringsidewayfn plotstringverticalwithfn'.split():
    OVER[k] = {'fn': cst({'$': 'fn', 'v': 'BITMAPlib.plot8bitpattern'})}


def args(rng, key, im):
    """[argument descriptions] for one call on an image like im, or None."""
    fn = key.split('.')[1]
    if fn in draw.OPS and key.startswith('BITMAPlib.') and rng.random() < .8:
        a = draw.OPS[fn].gen(rng, im)
        return None if a is None else {'op': fn, 'a': a}
    ed = extra.every().get(fn)
    if ed and key.startswith('BITMAPlib.') and rng.random() < .8:
        a = ed.gen(rng, im)
        if a is None or fn == 'resizeNtimesbigger2file' and a and isinstance(a[0], int) and a[0] > 4:
            return None
        return {'edit': fn, 'a': a}
    out = []
    for p in signature(key):
        if p.default is not p.empty and (rng.random() < .5 or p.name in ('tol', 'tmp')) and not (
                p.annotation is int and (p.default or 0) > 500):
            break
        if p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD):
            break
        v = one(rng, p, fn, im)
        if p.annotation is int and isinstance(p.default, int) and p.default > 500:
            v = rng.randint(3, 40)
        out.append(v)
    return {'a': out}


def mutate(rng, key, desc, im):
    """The same call with one argument drawn anew (where the signature allows)."""
    d2 = gen(rng, key, im)
    if d2 is None or set(d2) != set(desc) or len(d2['a']) != len(desc['a']) or not desc['a']:
        return d2
    k = rng.randrange(len(desc['a']))
    a = list(desc['a'])
    a[k] = nudge(rng, a[k]) if rng.random() < .3 else d2['a'][k]
    return dict(desc, a=a)


def nudge(rng, v):
    """Almost the same value (a number slightly off, one element of a list changed)."""
    if isinstance(v, float):
        return round(v + rng.choice([-1, 1]) * rng.choice([.001, .01, .04, .3]), 6)
    if isinstance(v, int) and not isinstance(v, bool):
        return v + rng.choice([-1, 1, 256, 2])
    if isinstance(v, list) and v:
        k = rng.randrange(len(v))
        return v[:k] + [nudge(rng, v[k])] + v[k + 1:]
    if isinstance(v, str) and v:
        k = rng.randrange(len(v))
        return v[:k] + rng.choice('aZ .') + v[k + 1:]
    return v


def first(*a):
    return a[0] if a else None


def poly(z):
    return z * z * z - 1


def dpoly(z):
    return 3 * z * z


def saddle(x, y):
    return x * y / 10


def swap6(bmp, a, b, c, d, r):
    bmp[a:b:r], bmp[c:d:r] = bmp[c:d:r], bmp[a:b:r]


def inv(buf, *a):
    return array('B', [255 - k for k in buf])


def inv0(buf, *a):
    for k in range(len(buf)):
        buf[k] ^= 255


def ipow(z, d, c):
    return z ** d + c


def penfn(bmp, *a):
    import pythonbmp.BITMAPlib as B
    B.plotxybit(bmp, int(a[0]), int(a[1]), 1)


LOCAL = dict(first=first, poly=poly, dpoly=dpoly, saddle=saddle, penfn=penfn, ipow=ipow, swap6=swap6, inv=inv, inv0=inv0)


FILES = ('in.bmp', 'in2.bmp', 'out.bmp', 'outdir')


def build(v, bmp, bmp2, pre=''):
    if isinstance(v, list):
        return [build(k, bmp, bmp2, pre) for k in v]
    if v in FILES if isinstance(v, str) else False:
        return pre + v
    if not isinstance(v, dict):
        return v
    t = v['$']
    if t == 'bmp':
        return bmp
    if t == 'bmp2':
        return bmp2
    if t == 'array':
        return array('B', v['v'])
    if t == 'complex':
        return complex(*v['v'])
    if t == 'dict':
        return {k: w for k, w in v['v']}
    if t == 'font':
        return getattr(importlib.import_module('pythonbmp.fonts'), v['v'])
    if t in ('poly', 'dpoly'):
        return LOCAL[t]
    S = importlib.import_module('pythonbmp.solids3D')
    if t == 'fn':
        if v['v'] in LOCAL:
            return LOCAL[v['v']]
        m, n = v['v'].split('.')
        return getattr(importlib.import_module('pythonbmp.' + m), n)
    if t == 'const':
        m, n = v['v'].split('.')
        f = getattr(importlib.import_module('pythonbmp.' + m), n)
        return list(f().values())[0] if callable(f) else f
    if t == 'solid':
        d = S.getshapesidedict()
        return [getattr(S, v['v'])(v['x']), d[{'tetrahedravert': 'tetrahedra', 'cubevert': 'cube',
                                               'octahedravert': 'octahedra'}[v['v']]]]
    if t == 'rot':
        return S.rotvec3D(*v['v'])
    if t == 'sides':
        sd = build(v['v'], bmp, bmp2)
        return S.gensides(S.perspective(sd[0], S.rotvec3D(20, 30, 40), [0, 0, 40], 30), [10, 10], sd[1])
    if t == 'zl':
        return S.zlevelcoords(S.spherevert([0, 0, 0], v['v'], 45))
    if t == 'rect':
        b = importlib.import_module('pythonbmp.BITMAPlib').copyrect(bmp, *v['v'])
        return b if b is not None else array('B', [24, 0, 0, 0, 0, 4, 0, 9, 9, 9, 0])
    if t == 'circbuf':
        B = importlib.import_module('pythonbmp.BITMAPlib')
        return B.copycircregion2buf(bmp, 4, 4, v['v'])
    raise ValueError(t)


def invoke(key, desc, bmp, bmp2=None, pre=''):
    """(callable, argument objects)."""
    import pythonbmp.BITMAPlib as B
    f = calls()[key][0]
    if 'op' in desc:
        o = draw.OPS[desc['op']]
        return (lambda b, *a: o.run(B, b, list(a))), [bmp] + desc['a']
    if 'edit' in desc:
        e = extra.every()[desc['edit']]
        return (lambda s, d, s2, *a: e.invoke(B, s, d, list(a), s2)), [
            pre + desc.get('src', 'in.bmp'), pre + 'out.bmp', pre + 'in2.bmp'] + desc['a']
    return f, [build(v, bmp, bmp2, pre) for v in desc['a']]


def norm(v, depth=0):
    """A comparable rendering of any returned value (consumes generators)."""
    if isinstance(v, (bool, int, str, bytes, type(None))):
        return v
    if isinstance(v, (float, complex)):
        return repr(v)
    if isinstance(v, array):
        return ('array', v.typecode, v.tobytes())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(norm(k, depth + 1) for k in v)
    if isinstance(v, (dict,)):
        return ('dict',) + tuple((norm(k), norm(w)) for k, w in v.items())
    if isinstance(v, (set, frozenset)):
        return ('set',) + tuple(sorted(map(repr, v)))
    if inspect.isgenerator(v) or hasattr(v, '__next__'):
        out = []
        try:
            for k in v:
                out.append(norm(k, depth + 1))
                if len(out) >= 150:
                    break
        except Exception as e:
            out.append(('raised', type(e).__name__))
        return ('iter',) + tuple(out)
    if callable(v):
        return ('fn', getattr(v, '__name__', '?'))
    return ('obj', type(v).__name__, str(v)[:80] if isinstance(v, (range, slice, bytearray)) else '')


# ---- every kind of call under one name: library function, 'edit:...', 'mem:...' ----------
RANDOM = {'BITMAPlib.IFS', 'colors.probplotRGBto1bit', 'colors.probplotRGBto4bitpal', 'fractals.iterIFS',
          'mathlib.addrndtovert', 'mathlib.randomvect'}
_pool = {}


def pool():
    if not _pool:
        _pool.update(lib=[k for k in calls() if k not in RANDOM], edit=['edit:' + k for k in edits.E],
                     mem=['mem:' + k for k in mem.ON],
                     draw=['BITMAPlib.' + k for k in draw.OPS if 'BITMAPlib.' + k in calls()])
    return _pool


def gen(g, key, im):
    """Description of one call of key on an image like im, or None."""
    if key.startswith('edit:'):
        a = edits.E[key[5:]].gen(g, im)
        if a is None or key == 'edit:resizeNtimesbigger2file' and a[0] > 4:
            return None
        return {'edit': key[5:], 'a': a}
    if key.startswith('mem:'):
        n = key[4:]
        if n in mem.ONLY24 and im.bits != 24:
            return None
        a = edits.E[n].gen(g, im)
        if a is None or n == 'resizeNtimesbigger2file' and a[0] > 4:
            return None
        return {'mem': n, 'a': a}
    return args(g, key, im)


def perform(key, d, bmp, bmp2, pre=''):
    """Make the call; ((outcome, comparable value), raw value, argument objects)."""
    import pythonbmp.BITMAPlib as B
    v, a = None, []
    try:
        if 'mem' in d:
            a = [bmp] + build(d['a'], bmp, bmp2, pre)
            v = mem.invoke(B, d['mem'], bmp, a[1:])
        else:
            f, a = invoke(key if ':' not in key else 'BITMAPlib.saveBMP', d, bmp, bmp2, pre)
            v = f(*a)
        w = 'its argument' if v is bmp else norm(v)
    except Exception as e:
        e.__traceback__ = None
        return ('raised', type(e).__name__), None, a
    return ('gave', w), v, a
