"""C02: a torn, truncated or foreign file is never taken for an image."""
from .common import *
from .. import edits, sched

ID = 'C02'
TECH = 'torn saves, cuts, foreign files and reader/writer schedules'
NOTE = ('Real library over a simulated disk; a reader racing a save runs as real threads released one at a time. Mixtures of two complete pictures of one size during an overwrite are not judged (no reader can tell them).')
QUICK, THOROUGH = 4000, 150000
RULE = ('one run = one file made incomplete in one way (save killed or failing at a chosen point and '
        'bytes-per-write, file cut at any length, other content, cut while being read, read while another '
        'thread saves it under a seeded schedule) or left complete (own and other programs\' layouts), then '
        'loaded and used as the source of a random file edit; distinct = distinct event log; non-trivial = '
        'the file was loaded at least once')
STATES = 'distinct (way of damage, bit depth, bytes present relative to header/palette/pixels, outcome)'
REAL = REAL + ['reader and writer run as real threads, one released at a time']


def scenario(rng, i, tier):
    kind = rng.choice(['torn', 'torn', 'cut', 'cut', 'alien', 'whole', 'whole', 'reading', 'race', 'race',
                       'race'])
    sc = dict(world=world(rng), kind=kind, img=imgspec(rng, maxdim=rng.choice([6, 20, 50])),
              edit=rng.choice(sorted(edits.E)), eseed=rng.getrandbits(32), pos=round(rng.random(), 4),
              frac=round(rng.random(), 3), seen=rng.choice([None, None, 'load', 'edit']))
    if kind == 'torn':
        sc['fault'] = dict(k=rng.choice(['write', 'write', 'write', 'close', 'openw']),
                           do=rng.choice(['crash', 'ENOSPC', 'EIO']), pos=sc['pos'], frac=sc['frac'])
        if sc['fault']['k'] == 'openw':
            sc['fault']['do'] = 'crash-after'
        sc['old'] = imgspec(rng) if rng.random() < .5 else None
    elif kind == 'cut':
        sc['edge'] = rng.choice([None, None, 0, 1, 2, 3, 5, 6, 9, 10, 11, 14, 26, 30, 53, 54, 55, -1, -2, -3])
        sc['foreign'] = rng.random() < .4
    elif kind == 'alien':
        sc['alien'] = rng.choice(['empty', 'png', 'text', 'bm-text', 'bm-short', 'random', 'sister', 'sister', 'code', 'code', 'swap', 'lower', 'one-byte', 'declared',
                                  'zero'])
    elif kind == 'reading':
        sc['faults'] = [dict(k='read', do=rng.choice(['truncate', 'truncate', 'EIO', 'short']),
                             pos=sc['pos'], frac=sc['frac'])]
    elif kind == 'race':
        sc['old'] = imgspec(rng, bits=sc['img']['bits']) if rng.random() < .5 else None
        sc['plan'] = dict(mode='random', seed=rng.getrandbits(32), p=rng.choice([.02, .1, .4]))
        sc['world']['bufsize'] = rng.choice([1, 16, 64, 512])
    return sc


def refused(r, sim, B, path, sc, how):
    """Loading path must not deliver an image; editing it must write nothing."""
    n = len(sim.out)
    g = call(sim, B.loadBMP, path)
    r.ops += 1
    r.tag(f'refuse:{g.kind}')
    if loaded(g):
        d = sim.fs.get(path) or b''
        r.fail('accepted', f'{how}: a file of {len(d)} bytes was loaded as an image of {len(g.value)} bytes')
    if g.ok and 'not' not in ''.join(sim.out[n:]).lower():
        r.fail('silent', f'{how}: the load did not report that the file is no bitmap')
    if sim.fs.open_handles:
        r.fail('leak', f'{how}: the refused load left the file open')
    e = edits.E[sc['edit']]
    a = e.gen(R(sc['eseed']), mk(sc['img']))
    before = sim.fs.snapshot()
    g = call(sim, getattr(B, e.fn), path, 'out.bmp', *a)
    r.tag(f'edit-refused:{g.kind}')
    if sim.fs.snapshot() != before:
        r.fail('edited', f'{how}: {e.fn} on it wrote a file')


def accepted(r, sim, B, path, want, how):
    g = call(sim, B.loadBMP, path)
    r.ops += 1
    r.tag(f'accept:{g.kind}')
    if not loaded(g):
        r.fail('rejected', f'{how}: a complete bitmap of {len(want)} bytes was not loaded: {g}')
    if bytes(g.value) != want:
        r.fail('changed', f'{how}: the loaded image is not the file')


def execute(sc, r):
    B = runner.B
    sim = sim_of(sc)
    p = W + 'pic.bmp'
    im = mk(sc['img'])
    data = file_of(im, sc['img']['s'])
    hdr = M.HDR[im.bits]
    kind = sc['kind']
    bmp = mkb(sc['img'])

    if sc.get('seen') and kind != 'race':          # the same name held a picture of that size, and it was read
        rg = R(sc['eseed'] + 1)
        was = M.build(M.rand_img(rg, im.bits, im.w, im.h))
        sim.fs.put(p, was)
        if sc['seen'] == 'load':
            accepted(r, sim, B, p, was, 'the first picture')
        else:
            call(sim, B.flipvertical2file, p, W + 'seen.bmp')
        if rg.random() < .5:
            sim.fs.files.pop(p, None)

    def zone(n):
        return 'none' if n == 0 else 'hdr' if n < 54 else 'pal' if n < hdr else 'px' if n < len(data) else 'all'
    if kind == 'torn':
        old = mk(sc['old']) if sc.get('old') else None
        if old is not None:
            sim.fs.put(p, M.build(old))
        dry = sim_of(sc)
        call(dry, B.saveBMP, p, bmp)
        sim.arm(place([sc['fault']], dry.step_counts))
        g = call(sim, B.saveBMP, p, bmp)
        sim.disarm()
        if g.kind == 'crash':
            sim.restart()
        have = sim.fs.get(p)
        r.state(kind, im.bits, sc['fault']['k'], sc['fault']['do'], g.kind,
                zone(len(have)) if have is not None else 'absent')
        r.ops += 1
        if have is None:
            g = call(sim, B.loadBMP, p)
            if loaded(g):
                r.fail('ghost', 'a file that does not exist was loaded')
        elif have == data or old is not None and have == M.build(old):
            accepted(r, sim, B, p, have, 'a save that was cut off after its data')
        else:
            refused(r, sim, B, p, sc, f'after a save was cut off by {sc["fault"]["do"]}')
    elif kind == 'cut':
        if sc['foreign']:
            data = M.build(im, foreign=True)
        n = int(sc['pos'] * len(data))
        if sc.get('edge') is not None:
            n = sc['edge'] if sc['edge'] >= 0 else len(data) + sc['edge']
        n = max(0, min(n, len(data) - 1))
        sim.fs.put(p, data[:n])
        r.state(kind, im.bits, zone(n), n if n < 60 else n - len(data))
        refused(r, sim, B, p, sc, f'cut at byte {n} of {len(data)}')
    elif kind == 'alien':
        rng = R(sc['eseed'])
        c = {'empty': b'', 'png': b'\x89PNG\r\n\x1a\n' + data[8:], 'text': b'hello\n' * 30,
             'bm-text': b'BMW is a car\n', 'bm-short': b'BM', 'swap': b'MB' + data[2:],
             'lower': b'bm' + data[2:], 'zero': bytes(len(data)), 'one-byte': b'BN' + data[2:],
             'declared': data[:2] + (len(data) + 1).to_bytes(4, 'little') + data[6:],
             'sister': rng.choice([b'BA', b'CI', b'CP', b'IC', b'PT', b'Bm', b'bM', b'DD', b'B\0', b'\0M', b'MZ', b'BZ']) + data[2:],
             'code': bytes([rng.choice([66, rng.randrange(256)]), rng.choice([77, rng.randrange(256)])]) + data[2:],
             'random': bytes(rng.randrange(256) for _ in range(rng.randint(1, 200)))}[sc['alien']]
        if c[:2] == b'BM' and sc['alien'] in ('random', 'code'):
            c = b'XX' + c[2:]
        sim.fs.put(p, c)
        r.state(kind, sc['alien'], len(c))
        refused(r, sim, B, p, sc, f'content {sc["alien"]}')
    elif kind == 'whole':
        rng = R(sc['eseed'])
        v = rng.choice(['own', 'foreign', 'junkpad', 'reserved', 'trailing'])
        if v != 'own':
            data = M.build(im, foreign=True, junkpad=rng.randrange(256) if v == 'junkpad' else 0)
        if v == 'reserved':
            data = data[:6] + bytes(rng.randrange(1, 256) for _ in range(4)) + data[10:]
        tail = bytes(rng.randint(1, 50)) if v == 'trailing' else b''
        sim.fs.put(p, data + tail)
        r.state(kind, im.bits, v)
        accepted(r, sim, B, p, data, f'{v} layout')
    elif kind == 'reading':
        sim.fs.put(p, data)
        dry = sim_of(sc)
        dry.fs.put(p, data)
        call(dry, B.loadBMP, p)
        sim.arm(place(sc['faults'], dry.step_counts))
        g = call(sim, B.loadBMP, p)
        fired = sim.fired[:]
        sim.disarm()
        r.ops += 1
        r.state(kind, im.bits, [f['do'] for f in fired], g.kind, loaded(g), zone(len(sim.fs.get(p))))
        if loaded(g) and bytes(g.value) != data:
            r.fail('accepted', f'cut while being read: {len(g.value)} of {len(data)} bytes loaded as an image')
        if not loaded(g) and not hard_fired(fired):
            r.fail('rejected', f'a complete bitmap was not loaded: {g}')
    elif kind == 'race':
        old = None
        if sc.get('old'):
            old = M.build(mk(sc['old']))
            sim.fs.put(p, old)
        sch = sched.Scheduler(sc['plan'])
        sim.sched = sch
        got = []

        def reader():
            for _ in range(3):
                got.append(B.loadBMP(p))

        with core.active(sim):
            res = sch.run([reader, lambda: B.saveBMP(p, bmp)])
        sim.sched = None
        r.inter.add(sch.trace)
        r.switches += len(sch.switches)
        r.note(sch.trace)
        r.ops += 1 + len(got)
        for kind_, v in res:
            if kind_ == 'budget':
                r.fail('no-progress', v)
        if res[1][0] != 'ok' or sim.fs.get(p) != data:
            r.fail('race:save', f'the save failed next to a reader: {res[1]}')
        if res[0][0] != 'ok':
            # a reader may meet the file half-made, but then it must only report that
            r.fail('race:reader', f'a load next to a save failed with {res[0][1]!r}')
        for g in got:
            r.tag('race:' + ('none' if g is None or not len(g) else 'new' if bytes(g) == data else
                             'old' if bytes(g) == old else 'mixed'))
            if g is None or not len(g):
                continue
            b = bytes(g)
            if b == data or b == old:
                continue
            # whole-size mixtures of two complete pictures cannot be told apart from a picture
            if len(b) == int.from_bytes(b[2:6], 'little') and old is not None and \
                    all(x in (data[j:j + 1], old[j:j + 1]) for j, x in
                        ((j, b[j:j + 1]) for j in range(len(b)))):
                continue
            r.fail('race:accepted', f'a load next to a save delivered {len(b)} bytes that are neither the '
                   'old nor the new picture')
        r.state(kind, im.bits, old is not None, len(got))
    r.absorb(sim)
