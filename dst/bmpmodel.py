"""Independent BMP codec and pixel-grid model (shares no code with pythonbmp)."""
import struct

HDR = {1: 62, 4: 118, 8: 1078, 24: 54}


class BadBMP(Exception):
    pass


def stride(w, bits):
    return (w * bits + 31) // 32 * 4


class Img:
    """px[y][x] with y=0 the top row; palette index, or 0xRRGGBB at 24 bits."""
    __slots__ = ('bits', 'w', 'h', 'pal', 'px')

    def __init__(self, bits, w, h, pal=None, px=None):
        self.bits, self.w, self.h = bits, w, h
        self.pal = None if bits == 24 else [tuple(c) for c in pal]
        self.px = px if px is not None else [[0] * w for _ in range(h)]

    def copy(self):
        return Img(self.bits, self.w, self.h, self.pal, [r[:] for r in self.px])

    def rgb(self, x, y):
        c = self.px[y][x]
        if self.bits == 24:
            return (c >> 16, c >> 8 & 255, c & 255)
        return self.pal[c]

    def __eq__(self, o):
        return isinstance(o, Img) and self.bits == o.bits and self.w == o.w and \
            self.h == o.h and self.pal == o.pal and self.px == o.px

    def diff(self, o):
        """Short description of the first difference with o."""
        if o is None:
            return 'no image'
        for k in ('bits', 'w', 'h'):
            if getattr(self, k) != getattr(o, k):
                return f'{k}: expected {getattr(self, k)}, got {getattr(o, k)}'
        if self.pal != o.pal:
            i = next(i for i, (a, b) in enumerate(zip(self.pal, o.pal)) if a != b)
            return f'palette entry {i}: expected {self.pal[i]}, got {o.pal[i]}'
        bad = [(x, y) for y in range(self.h) for x in range(self.w)
               if self.px[y][x] != o.px[y][x]]
        if bad:
            x, y = bad[0]
            return (f'{len(bad)} of {self.w * self.h} pixels differ, first at ({x},{y}): '
                    f'expected {self.px[y][x]:#x}, got {o.px[y][x]:#x}')
        return None


def parse(data):
    """Strict reader for the uncompressed bottom-up BMPs this library writes."""
    data = bytes(data)
    if len(data) < 54 or data[:2] != b'BM':
        raise BadBMP('no BM header')
    fsize, = struct.unpack_from('<I', data, 2)
    off, hs, w, h = struct.unpack_from('<IIII', data, 10)
    bits, = struct.unpack_from('<H', data, 28)
    comp, = struct.unpack_from('<I', data, 30)
    if bits not in HDR:
        raise BadBMP(f'bit depth {bits}')
    if off != HDR[bits] or hs != 40 or comp != 0:
        raise BadBMP(f'offset {off}, info size {hs}, compression {comp}')
    if not (0 < w < 1 << 31 and 0 < h < 1 << 31):
        raise BadBMP(f'dimensions {w}x{h}')
    st = stride(w, bits)
    if fsize != off + st * h:
        raise BadBMP(f'declared size {fsize}, geometry needs {off + st * h}')
    if len(data) != fsize:
        raise BadBMP(f'file has {len(data)} bytes, header declares {fsize}')
    pal = None
    if bits < 24:
        pal = [(data[i + 2], data[i + 1], data[i]) for i in range(54, 54 + (4 << bits), 4)]
    px = []
    for y in range(h):
        s = off + (h - 1 - y) * st
        row = data[s:s + st]
        if w > 1 << 20 and not any(row):
            px.append([0] * w)
        elif bits == 24:
            px.append([row[i] | row[i + 1] << 8 | row[i + 2] << 16 for i in range(0, w * 3, 3)])
        elif bits == 8:
            px.append(list(row[:w]))
        elif bits == 4:
            px.append([row[x >> 1] >> 4 if x & 1 == 0 else row[x >> 1] & 15 for x in range(w)])
        else:
            px.append([row[x >> 3] >> (7 - (x & 7)) & 1 for x in range(w)])
    return Img(bits, w, h, pal, px)


def build(img, foreign=False, junkpad=0, reserved=0, alpha=0):
    """Encode.  foreign: as other programs write it (planes, image size, ppm set); reserved: the four bytes they may use; alpha: fourth byte of palette entries."""
    b, w, h = img.bits, img.w, img.h
    st = stride(w, b)
    off = HDR[b]
    n = off + st * h
    hd = bytearray(54)
    struct.pack_into('<2sIHHI', hd, 0, b'BM', n, reserved & 0xffff, reserved >> 16, off)
    struct.pack_into('<IIIHHI', hd, 14, 40, w, h, 1 if foreign else 0, b, 0)
    if foreign:
        struct.pack_into('<IIIII', hd, 34, st * h, 2835, 2835, 0, 0)
    out = hd
    if b < 24:
        for r, g, bl in img.pal:
            out += bytes((bl, g, r, alpha))
    for y in range(h - 1, -1, -1):
        row = img.px[y]
        if b == 24:
            rb = bytearray()
            for c in row:
                rb += bytes((c & 255, c >> 8 & 255, c >> 16))
        elif b == 8:
            rb = bytearray(row)
        elif b == 4:
            rb = bytearray((w + 1) // 2)
            for x, c in enumerate(row):
                rb[x >> 1] |= c << (4 if x & 1 == 0 else 0)
        else:
            rb = bytearray((w + 7) // 8)
            for x, c in enumerate(row):
                rb[x >> 3] |= c << (7 - (x & 7))
        rb += bytes([junkpad]) * (st - len(rb))
        out += rb
    return bytes(out)


def rand_img(rng, bits=None, w=None, h=None, maxdim=20, style=None):
    """A small image: noise, blocks or gradient, random or structured palette."""
    bits = bits if bits is not None else rng.choice([24, 24, 8, 8, 4, 1])
    w = w or rng.choice([rng.randint(1, maxdim), rng.randint(4, maxdim), rng.choice([8, 16, 7, 9])])
    h = h or rng.choice([rng.randint(1, maxdim), rng.randint(4, maxdim), rng.choice([8, 5])])
    m = (1 << bits) - 1
    pal = None
    if bits < 24:
        k = rng.random()
        if k < .6:
            pal = [(rng.randrange(256), rng.randrange(256), rng.randrange(256))
                   for _ in range(1 << bits)]
        elif k < .8:
            n = 1 << bits
            pal = [(i * 255 // (n - 1), 255 - i * 255 // (n - 1), i * 37 & 255) for i in range(n)]
        elif k < .9:
            n = rng.choice([1, 2, 2, 4, 5])                      # few colours, over and over
            pal = [(rng.randrange(256), rng.randrange(256), rng.randrange(256)) for _ in range(n)]
            pal = (pal * (1 << bits))[:1 << bits]
        else:
            n = 1 << bits
            pal = [(i * 255 // (n - 1),) * 3 for i in range(n)]
    style = style or rng.choice(['noise', 'noise', 'blocks', 'grad', 'few'])
    if style == 'noise':
        px = [[rng.getrandbits(24) & m for _ in range(w)] for _ in range(h)]
    elif style == 'few':
        cs = [rng.getrandbits(24) & m for _ in range(rng.randint(1, 4))]
        px = [[rng.choice(cs) for _ in range(w)] for _ in range(h)]
    elif style == 'blocks':
        bw, bh = rng.randint(1, 5), rng.randint(1, 5)
        d = {}
        px = [[d.setdefault((x // bw, y // bh), rng.getrandbits(24) & m) for x in range(w)]
              for y in range(h)]
    else:
        px = [[(x * 40503 + y * 65599 + x * y * 257) & m for x in range(w)] for y in range(h)]
    return Img(bits, w, h, pal, px)
