"""Shared pieces of the property modules: worlds, pictures, faults."""
import os
import pickle
import random
from array import array

from .. import core, runner
from .. import bmpmodel as M
from ..runner import call, Stop   # noqa: re-exported

R = random.Random
W = core.VROOT + '/work/'

REAL = ['pythonbmp (all modules, unmodified, from /repo working tree)', 'io.Buffered*/TextIOWrapper of CPython']
STUB = ['disk and file descriptors (in-memory model with fault injection)', 'clock', 'random source',
        'standard output', 'child processes']
ASSUME = ['the disk model: bytes accepted by a raw write survive a crash; nothing else does',
          'runs are sampled from seeded distributions; absence of a violation is evidence, not proof']


def world(rng):
    """Swarm knobs of the simulated machine."""
    return dict(bufsize=rng.choice([1, 2, 7, 16, 64, 100, 512, 4096, 8192, 8192]),
                max_io=rng.choice([0, 0, 0, 0, 1, 3, 13, 64]),
                rand=rng.getrandbits(32), tick=rng.choice([0, 1, 1000, 10 ** 6, 10 ** 9]))


def sim_of(sc):
    w = sc.get('world') or {}
    s = core.Sim(bufsize=w.get('bufsize', 8192), max_io=w.get('max_io', 0),
                 rand=(w.get('rand', 0), w.get('rmode', 'uniform')), tick=w.get('tick', 1000))
    s.fs.dirorder = w.get('dirorder')
    return s


def imgspec(rng, bits=None, maxdim=20, long=None, **k):
    """A small picture; now and then a strip longer than a byte can count."""
    b = bits if bits is not None else rng.choice([24, 24, 8, 8, 4, 4, 1])
    if rng.random() < (long if long is not None else .03 if maxdim > 6 else .01):
        n, m = rng.choice([255, 256, 257, 260, rng.randint(258, 600), rng.randint(258, 600), rng.randint(60, 140),
                           rng.randint(60, 140)]), rng.randint(1, min(maxdim, 6))
        if rng.random() < .08:
            n, m = rng.randint(1000, 2100), rng.randint(1, 2)
        w, h = (n, m) if rng.random() < .5 else (m, n)
        return dict(bits=b, w=w, h=h, s=rng.getrandbits(32))
    if rng.random() < .05:                              # next to nothing
        return dict(bits=b, w=rng.randint(1, 3), h=rng.randint(1, 2), s=rng.getrandbits(32))
    im = M.rand_img(R(rng.getrandbits(32)), b, maxdim=maxdim, **k)
    return dict(bits=b, w=im.w, h=im.h, s=rng.getrandbits(32))


ODD = ['UPPER.BMP', 'Ünï cödé.bmp', ' led by a space.bmp', 'two  spaces .bmp', 'in.bmp ', '-in.bmp', 'a%20%s.bmp', '~in.bmp', '$HOME.bmp',
       'noext', 'in.bmp.bmp', 'in.jpg', 'a\\b.bmp', 'sub dir/in.bmp', 'sub dir/IN.bmp', '{0}.bmp', 'in[1].bmp', 'in*.bmp',
       '日本.bmp', '.bmp', '.hid', 'x' * 200 + '.bmp', 'Sub Dir.d/pic.v1.2.bmp', "it's.bmp", 'new\nline.bmp', '#in.bmp']


def oddname(rng, plain, p=.12):
    """Now and then a name of an unusual form."""
    return rng.choice(ODD) if rng.random() < p else plain


def oddirs(sim):
    sim.fs.dirs |= {W + 'sub dir', W + 'Sub Dir.d'}


def mk(spec):
    return M.rand_img(R(spec['s']), spec['bits'], spec['w'], spec['h'], style=spec.get('style'))


def file_of(im, s):
    """The file of a picture: as the library writes it or, one in seven, as another program may."""
    return M.build(im, foreign=s % 7 == 0, reserved=s >> 5 & 0xffffffff if s % 14 == 0 else 0,
                   junkpad=s >> 9 & 255 if s % 7 == 0 and s % 3 else 0, alpha=255 if s % 21 == 0 else 0)


def mkb(spec):
    return array('B', file_of(mk(spec), spec['s']))


HARD = ['EIO', 'ENOSPC', 'EDQUOT', 'EACCES', 'EROFS']


def iofault(rng, crash=True, soft=True):
    """A storage fault at a relative position of an operation (pos of all such calls)."""
    k = rng.choice(['write', 'write', 'read', 'openr', 'openw', 'close', 'stat', 'stdout'])
    do = {
        'write': ['EIO', 'ENOSPC', 'EDQUOT', 'short', 'crash', 'crash'],
        'read': ['EIO', 'short', 'short', 'crash'],
        'openr': ['EACCES', 'EMFILE', 'ENOENT', 'EIO', 'crash'],
        'openw': ['EACCES', 'ENOSPC', 'EROFS', 'EMFILE', 'crash', 'crash-after', 'crash-after'],
        'close': ['EIO', 'ENOSPC', 'crash'],
        'stat': ['EACCES', 'EIO', 'vanish', 'crash'],
        'stdout': ['EPIPE', 'EIO', 'crash', 'interrupt'],
    }[k]
    do = [d for d in do if (crash or 'crash' not in d) and (soft or d not in ('short', 'vanish'))]
    f = dict(k=k, do=rng.choice(do), pos=round(rng.random(), 4), frac=round(rng.random(), 3))
    if k == 'close' and rng.random() < .5:
        f.pop('frac')
    if rng.random() < .25:
        f['frac'] = rng.choice([0.0, 1.0])
    return f


def place(faults, counts):
    """Turn relative positions into call numbers, given how many calls a clean run makes."""
    out = []
    for f in faults or []:
        n = counts.get(f['k'], 0)
        if n:
            out.append(dict(f, n=min(n - 1, int(f['pos'] * n))))
    return out


def hard_fired(fired):
    """Faults that a correct library cannot hide (a short transfer can be resumed)."""
    return [f for f in fired if f['do'] != 'short']


def readable(sim, path):
    """Parsed picture, 'untouched' (no such file), or 'broken'."""
    d = sim.fs.get(path)
    if d is None:
        return 'untouched'
    try:
        return M.parse(d)
    except M.BadBMP:
        return 'broken'


def loaded(g):
    """Did this load hand back an image?"""
    return g.ok and g.value is not None and len(g.value) > 0


def others_same(r, before, after, allow, key, what):
    """Every file except those in allow is as it was."""
    for p in set(before) | set(after):
        if p in allow:
            continue
        if before.get(p) != after.get(p):
            kind = 'created' if p not in before else 'deleted' if p not in after else 'altered'
            r.fail(key, f'{what}: {kind} {p}')


def short(sc_args):
    s = repr(sc_args)
    return s if len(s) < 120 else s[:117] + '...'


def pristine(fn):
    """fn() in a process of its own, forked from the untouched state of this one."""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            core.REAL['os.close'](rfd)
            data = pickle.dumps(('ok', fn()))
        except BaseException as e:              # noqa: reported by the parent
            data = pickle.dumps(('failed', repr(e)))
        try:
            while data:
                data = data[core.REAL['os.write'](wfd, data):]
        finally:
            os._exit(0)
    core.REAL['os.close'](wfd)
    buf = b''
    while True:
        b = core.REAL['os.read'](rfd, 1 << 16)
        if not b:
            break
        buf += b
    core.REAL['os.close'](rfd)
    os.waitpid(pid, 0)
    k, v = pickle.loads(buf) if buf else ('failed', 'died')
    if k != 'ok':
        raise RuntimeError(f'in a fresh process: {v}')
    return v
