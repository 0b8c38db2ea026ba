"""C01: acknowledged saves and loads are byte-exact under every I/O behaviour."""
from .common import *

ID = 'C01'
TECH = 'disks, short transfers, I/O faults and crashes'
NOTE = ('Real library and real CPython buffered I/O over a simulated raw disk; trusts the disk model and the independent BMP encoder.')
QUICK, THOROUGH = 6000, 200000
RULE = ('one run = a swarm-configured disk (buffer size, longest transfer) and 1-6 saves/loads of random '
        'pictures (1/4/8/24 bit, 1..40 pixels a side, sometimes beyond one I/O buffer), 60% with short '
        'transfers, hard errors, bad permissions or a crash placed inside the call; distinct = distinct '
        'event log; non-trivial = at least one save or load was executed')
STATES = 'distinct (operation, bit depth, fault kind fired, outcome, old file present)'


def scenario(rng, i, tier):
    ops = []
    for _ in range(rng.randint(1, 6)):
        k = rng.choice(['save', 'save', 'load', 'foreign'])
        op = dict(op=k, path=oddname(rng, rng.choice(['a.bmp', 'b.bmp', 'sub/c.bmp', 'd.bmp'])))
        if ops and rng.random() < .3:
            op['path'] = rng.choice(ops)['path']
        if k != 'load':
            op['img'] = imgspec(rng, maxdim=rng.choice([8, 20, 40, 90]))
            if rng.random() < .01:                     # beyond 64 K
                op['img'].update(w=rng.randint(150, 220), h=rng.randint(150, 200))
        if rng.random() < .6:
            op['faults'] = [iofault(rng) for _ in range(rng.choice([1, 1, 1, 2]))]
        if rng.random() < .1:
            op['noperm'] = 1
        ops.append(op)
    return dict(world=world(rng), ops=ops)


def execute(sc, r):
    B = runner.B
    sim = sim_of(sc)
    sim.fs.dirs.add(W + 'sub')
    oddirs(sim)
    for op in sc['ops']:
        p = W + op['path']
        before = sim.fs.snapshot()
        if op['op'] == 'foreign':
            im = mk(op['img'])
            sim.fs.put(p, M.build(im, foreign=True, junkpad=op['img']['s'] & 255))
            continue
        if op.get('noperm'):
            sim.fs.noperm.add(p)
        bmp = mkb(op['img']) if op['op'] == 'save' else None
        keep = bytes(bmp) if bmp is not None else None

        def go(s):
            if bmp is not None:
                return call(s, B.saveBMP, op['path'], bmp)
            return call(s, B.loadBMP, op['path'])
        if op.get('faults'):
            dry = sim_of(sc)
            dry.fs.dirs.add(W + 'sub')
            oddirs(dry)
            for q, d in before.items():
                dry.fs.put(q, d)
            go(dry)
            sim.arm(place(op['faults'], dry.step_counts))
        n0 = len(sim.fired)
        g = go(sim)
        fired = sim.fired[n0:]
        sim.disarm()
        hard = hard_fired(fired)
        r.ops += 1
        r.note(op['op'], g.kind)
        r.tag(f'{op["op"]}:{g.kind}')
        r.state(op['op'], op.get('img', {}).get('bits'), [(f['k'], f['do']) for f in fired], g.kind,
                p in before, p in sim.fs.noperm)
        if g.kind == 'crash':
            sim.restart()
        after = sim.fs.snapshot()
        if op['op'] == 'save':
            others_same(r, before, after, {p}, 'save:other-file', 'saving changed another file')
            if bytes(bmp) != keep:
                r.fail('save:source', 'saving altered the image being saved')
            if g.ok:
                if after.get(p) != keep:
                    r.fail('save:ack', f'acknowledged save of {len(keep)} bytes left '
                           f'{len(after.get(p) or b"")} bytes, fired {fired}')
            elif not hard and p not in sim.fs.noperm:
                r.fail('save:refused', f'a save failed although storage works: {g}')
        else:
            gone = {f for f in before if f in sim.tampered}
            others_same(r, before, after, gone, 'load:writes', 'loading changed a file')
            want = before.get(p)
            if loaded(g):
                if bytes(g.value) != want:
                    r.fail('load:ack', f'load returned {len(g.value)} bytes that are not the file\'s '
                           f'{len(want or b"")}, fired {fired}')
            elif not hard and want is not None:
                try:
                    M.parse(want)
                except M.BadBMP:
                    pass
                else:
                    r.fail('load:refused', f'a load of a complete bitmap failed although storage works: {g}')
        if g.kind != 'crash' and sim.fs.open_handles:
            r.fail('leak', f'{op["op"]} ({g.kind}) left files open: '
                   f'{[h._path for h in sim.fs.open_handles.values()]}')
        sim.fs.noperm.clear()
        sim.tampered.clear()
    r.absorb(sim)
