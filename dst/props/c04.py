"""C04: editing a picture in place never loses the picture."""
import posixpath

from .common import *
from .. import extra
from .c03 import undisturbed
from .hist import act_of, MAXPIX

ID = 'C04'
QUICK, THOROUGH = 4000, 200000
TECH = 'histories of in-place edits with crash, interruption and storage-fault points'
NOTE = ('One known finding: the final save truncates the file and rewrites it, so a disturbance inside that save '
        'leaves a beginning of the new picture. Only exactly that is tolerated (strict prefix of the complete new '
        'picture, disturbance after the truncation, source fully read and result computed before it).')
RULE = ('one run = one picture edited in place 1-4 times (every file-to-file function, the same file named in '
        'different ways, sometimes out-of-range arguments), most edits disturbed once by a Ctrl-C, MemoryError or '
        'crash at a library line or a storage fault or crash at a system call; distinct = distinct event log; '
        'non-trivial = at least one edit executed')
STATES = 'distinct (edit, depth, naming, disturbance, outcome, what the file became)'
NAMES = ['in.bmp', './in.bmp', 'sub/../in.bmp', W + 'in.bmp']


def scenario(rng, i, tier):
    names = sorted(n for n in extra.every() if n != 'fern2file')
    big = rng.random() < .6
    im = imgspec(rng, bits=rng.choice([24, 24, 8, 4, 1]), maxdim=24 if big else 6)
    if big:
        im['w'], im['h'] = rng.randint(10, 22), rng.randint(10, 22)
    ops = []
    for _ in range(rng.randint(1, 4)):
        op = dict(fn=rng.choice(names), eseed=rng.getrandbits(32), name=rng.choice(NAMES))
        k = rng.random()
        if k < .45:
            op['faults'] = [iofault(rng)]
        elif k < .9:
            op['stop'] = dict(act=rng.choice(['int', 'mem', 'crash']), pos=round(rng.random(), 4),
                              near=rng.choice([None, None, None, -20, -8, -3, -1, 0, 1, 2, 5]))
        ops.append(op)
    return dict(world=world(rng), img=im, ops=ops, base=oddname(rng, 'in.bmp'))


def execute(sc, r):
    B = runner.B
    base = sc.get('base', 'in.bmp')
    p = posixpath.normpath(W + base)
    state = file_of(mk(sc['img']), sc['img']['s'])
    other = M.build(mk(dict(sc['img'], s=sc['img']['s'] ^ 1)))

    def setup():
        sim = sim_of(sc)
        sim.fs.dirs.add(W + 'sub')
        oddirs(sim)
        sim.fs.put(base, state)
        sim.fs.put('in2.bmp', other)
        sim.fs.put('sub/in.bmp', b'bystander')
        sim.fs.put('in', b'bystander 2')
        return sim
    for op in sc['ops']:
        im = M.parse(state)
        e = extra.every()[op['fn']]
        a = e.gen(R(op['eseed']), im)
        if op['fn'] == 'resizeNtimesbigger2file' and im.w * im.h * a[0] ** 2 > MAXPIX:
            continue
        dst = op['name'].replace('in.bmp', base)
        how = f'{op["fn"]}{tuple(a)} in place on a {im.bits}-bit {im.w}x{im.h} picture'

        def go(s, **k):
            return call(s, e.invoke, B, base, dst, a, 'in2.bmp', **k)
        sim = setup()
        g, n, counts, marks, late, over = undisturbed(sim, setup, go, p, dst, len(state), base)
        new = sim.fs.get(p)
        before = setup().fs.snapshot()
        r.ops += 1
        r.note(op['fn'], g.kind, new)
        others_same(r, before, sim.fs.snapshot(), {p}, 'other-file', how)
        if g.kind == 'exc' and new != state:
            r.fail('failed-edit', f'{how} failed with {g.value!r} and changed the picture')
        if new is None:
            r.fail('gone', f'{how} removed the picture')
        try:
            M.parse(new)
        except M.BadBMP as x:
            r.fail('bad', f'{how} left a file that is no picture: {x}')
        if late:
            r.fail('early', f'{how} overwrote the picture before it had read it ({late[0]})')
        if over:
            r.fail('early', f'{how} overwrote the picture before its result was computed ({over})')
        r.state(op['fn'], im.bits, dst, g.kind, new == state)
        if not (op.get('faults') or op.get('stop')):
            state = new
            continue
        sim = setup()
        stop = {}
        if op.get('stop'):
            at = int(op['stop']['pos'] * n)
            if op['stop'].get('near') is not None and marks:
                at = max(0, marks[0] + op['stop']['near'])
            do = act_of(sim, op['stop']['act'])

            def act(sim=sim, do=do):
                sim.at_stop = [w for _, w, q in sim.fs.mutations if q == p]
                do()
            stop = dict(at=at, act=act)
        else:
            sim.arm(place(op['faults'], counts))
        g = go(sim, **stop)
        hard = hard_fired(sim.fired)
        if stop and sim.last.hit:
            hard.append(dict(k='line', do=op['stop']['act']))
            sim.fault_counts['line:' + op['stop']['act']] += 1
        sim.disarm()
        if g.kind == 'crash':
            sim.restart()
        elif sim.fs.open_handles:
            r.fail('leak', f'{how}, disturbed by {hard}, left files open')
        others_same(r, before, sim.fs.snapshot(), {p} | sim.tampered, 'other-file', f'{how}, disturbed by {hard}')
        now = sim.fs.get(p)
        what = 'old' if now == state else 'new' if now == new else 'torn'
        r.ops += 1
        r.note(hard, g.kind, now)
        r.tag(f'{what}:{g.kind}')
        r.state(op['fn'], im.bits, [(f['k'], f['do']) for f in hard], g.kind, what)
        r.absorb(sim)
        if p in sim.tampered:
            continue                                   # another program removed the picture
        if what == 'torn':
            if not hard:
                r.fail('short-io', f'{how}: short transfers changed the result')
            if g.ok:
                r.fail('ack', f'{how} was acknowledged and lost the picture ({hard})')
            if not marks:
                r.fail('lost', f'{how} is refused, yet disturbed by {hard} it lost the picture')
            if now is None or not new.startswith(now):
                r.fail('lost', f'{how}, disturbed by {hard}: the file is neither the old nor the new picture')
            muts = [w for _, w, q in sim.fs.mutations if q == p]
            if muts[:1] != ['truncate'] or 'truncate' in muts[1:] or 'unlink' in muts:
                r.fail('lost', f'{how}, disturbed by {hard}: lost the picture by {muts}')
            if op.get('stop') and not sim.at_stop:
                r.fail('lost', f'{how}, stopped before it saved, lost the picture')
            r.violate('torn-save', f'{how}, disturbed by {hard} while saving: {len(now)} of {len(new)} bytes '
                      'are left and neither the old nor the new picture')
            if loaded(call(sim, B.loadBMP, base)):
                r.fail('torn-loaded', f'{how}, disturbed by {hard}, left an incomplete file that loads')
            continue                                   # go on with the picture restored
        state = now
