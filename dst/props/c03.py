"""C03: a file edit changes only its output, and only once it has a result."""
import posixpath

from .common import *
from .. import extra, edits
from .hist import act_of

ID = 'C03'
QUICK, THOROUGH = 5000, 200000
TECH = 'crash, interruption and storage-fault points of every file edit'
NOTE = ('The result an edit must deliver is taken from the same edit undisturbed (C05/C06 judge it). "Computed '
        'completely" is observed: nothing of the source is read and no more library lines are executed after '
        'the first change of the output than three reference edits execute on the same picture, plus 60.')
RULE = ('one run = one file edit (every file-to-file function) with valid, out-of-range or ill-typed arguments on '
        'a good, torn, foreign or missing source, an output that is absent, a picture or other data, and '
        'bystander files; executed undisturbed, then again with 1-3 single disturbances (Ctrl-C, MemoryError or '
        'crash at a library line, storage fault or crash at a system call), each from the same start; distinct '
        '= distinct event log; non-trivial = at least one edit executed')
STATES = 'distinct (edit, depth, source kind, output kind, disturbance, outcome, what the output became)'

BAD = [None, 'x', [], -1, 120, 1.5, [[1], [2]]]


def scenario(rng, i, tier):
    fn = rng.choice(sorted(n for n in extra.every() if n != 'fern2file'))
    if rng.random() < .003:
        fn = 'fern2file'                      # 100000 steps a call
    big = rng.random() < .6
    im = imgspec(rng, bits=rng.choice([24, 24, 8, 4, 1]), maxdim=24 if big else 6)
    if big:
        im['w'], im['h'] = rng.randint(12, 24), rng.randint(12, 24)
    sc = dict(world=world(rng), fn=fn, img=im, img2=dict(im, s=rng.getrandbits(32)),
              eseed=rng.getrandbits(32),
              src=rng.choice(['good'] * 8 + ['torn', 'alien', 'missing']),
              dst=rng.choice(['absent', 'picture', 'picture', 'other', 'same']),
              where=oddname(rng, rng.choice(['out.bmp', 'out.bmp', 'sub/o.bmp', '/simfs/work/sub/o.bmp', './x.bmp'])),
              name=oddname(rng, 'in.bmp'),
              old=imgspec(rng), hits=[])
    if extra.every()[fn].two and rng.random() < .4:
        sc['src2'] = rng.choice(['torn', 'alien', 'missing'])
    if rng.random() < .25:
        sc['bad'] = [rng.randrange(8), rng.randrange(len(BAD))]
    for _ in range(1 if fn == 'fern2file' else rng.choice([1, 1, 2, 3])):
        if rng.random() < .5:
            sc['hits'].append(dict(faults=[iofault(rng)]))
        else:
            near = rng.random()
            sc['hits'].append(dict(stop=dict(act=rng.choice(['int', 'mem', 'crash']), pos=round(rng.random(), 4),
                                             near=rng.choice([None, None, -8, -3, -1, 0, 1, 2, 5]))))
    if posixpath.normpath(W + sc['name']) == posixpath.normpath(W + sc['where']):
        sc['where'] = 'out.bmp'
    return sc


def execute(sc, r):
    B = runner.B
    im = mk(sc['img'])
    e = extra.every()[sc['fn']]
    a = e.gen(R(sc['eseed']), im)
    if sc.get('bad') and a:
        a = list(a)
        a[sc['bad'][0] % len(a)] = BAD[sc['bad'][1]]
    if sc['fn'] in ('resizeNtimesbigger2file',) and isinstance(a[0], int) and a[0] > 9:
        a[0] = 9
    if sc['fn'] == 'imgregionbyRGB2file' and isinstance(a[0], int):
        a[0] = min(a[0], 30)
    dst, src = sc['where'], sc.get('name', 'in.bmp')
    data = file_of(im, sc['img']['s'])

    def setup():
        sim = sim_of(sc)
        sim.fs.dirs.add(W + 'sub')
        oddirs(sim)
        if sc['src'] == 'good':
            sim.fs.put(src, data)
        elif sc['src'] == 'torn':
            sim.fs.put(src, data[:len(data) * 2 // 3])
        elif sc['src'] == 'alien':
            sim.fs.put(src, b'GIF89a' + data[6:])
        d2 = M.build(mk(sc['img2']))
        d2 = {'torn': d2[:len(d2) * 2 // 3], 'alien': b'GIF89a' + d2[6:], 'missing': None}.get(sc.get('src2'), d2)
        if d2 is not None:
            sim.fs.put('in2.bmp', d2)
        sim.fs.put('sub/in.bmp', b'bystander')
        sim.fs.put('out', b'bystander 2')
        old = {'absent': None, 'picture': M.build(mk(sc['old'])), 'other': b'notes, not a picture\n' * 5,
               'same': None}[sc['dst']]
        if sc['dst'] == 'same':
            old = ref.get('new')
        if old is not None:
            sim.fs.put(dst, old)
        return sim

    def go(s, **k):
        return call(s, e.invoke, B, src, dst, a, 'in2.bmp', **k)
    ref = {}
    if sc['dst'] == 'same':
        sim = setup()
        go(sim)
        ref['new'] = sim.fs.get(dst)
    how = f'{sc["fn"]}{tuple(a)} on a {sc["src"]} {im.bits}-bit {im.w}x{im.h} picture' + \
        (f' and a {sc["src2"]} one' if sc.get('src2') else '')
    # undisturbed
    sim = setup()
    p = sim.fs.norm(dst)
    before = sim.fs.snapshot()
    ru = undisturbed(sim, setup, go, p, dst, len(data), src)
    g, n, counts, marks, late, over = ru
    r.ops += 1
    after = sim.fs.snapshot()
    others_same(r, before, after, {p}, 'other-file', how)
    new = after.get(p)
    old = before.get(p)
    wrote = bool(marks)
    r.note(g.kind, new, n)
    r.tag(f'clean:{sc["src"]}:{g.kind}:{"wrote" if wrote else "kept"}')
    r.state(sc['fn'], im.bits, sc['src'], sc['dst'], bool(sc.get('bad')), g.kind, wrote)
    if sim.fs.open_handles:
        r.fail('leak', f'{how} left files open')
    if g.kind not in ('ok', 'exc'):
        r.fail('odd', f'{how} ended with {g}')
    # an ill-typed argument is refused by delivering the picture unaltered (and may fail in the report)
    copied = bool(sc.get('bad')) and new == data
    if g.kind == 'exc' and (wrote or new != old) and not copied:
        r.fail('failed-edit-wrote', f'{how} failed with {g.value!r} but changed its output')
    if (sc['src'] != 'good' or sc.get('src2')) and (wrote or new != old):
        r.fail('no-source-wrote', f'{how} wrote its output without a source picture')
    if 'missing' in (sc['src'], sc.get('src2')) and (not g.ok or 'not' not in ''.join(sim.out).lower()):
        r.fail('silent', f'{how} did not report the missing source: {g}')
    if wrote:
        if late:
            r.fail('early-output', f'{how} changed its output before it had read its source ({late[0]})')
        try:
            M.parse(new)
        except M.BadBMP as x:
            if not sc.get('bad'):
                r.fail('bad-output', f'{how} wrote an output that is no picture: {x}')
        if over:
            r.fail('early-output', f'{how} went on computing after it began to change its output ({over})')
    # disturbed
    for hit in sc['hits']:
        sim = setup()
        before = sim.fs.snapshot()
        marks2 = []
        sim.on_mutation = lambda path, what: marks2.append(1) if path == p else None
        stop = {}
        if 'stop' in hit:
            s = hit['stop']
            at = int(s['pos'] * n)
            if s.get('near') is not None and marks:
                at = max(0, marks[0] + s['near'])
            stop = dict(at=at, act=act_of(sim, s['act']))
        else:
            sim.arm(place(hit['faults'], counts))
        g = go(sim, **stop)
        hard = hard_fired(sim.fired)
        if stop and sim.last.hit:
            hard.append(dict(k='line', do=hit['stop']['act']))
            sim.fault_counts['line:' + hit['stop']['act']] += 1
        sim.disarm()
        if g.kind == 'crash':
            sim.restart()
        elif sim.fs.open_handles:
            r.fail('leak', f'{how}, disturbed by {hard}, left files open')
        after = sim.fs.snapshot()
        others_same(r, before, after, {p} | sim.tampered, 'other-file', f'{how}, disturbed by {hard}')
        now = after.get(p)
        r.ops += 1
        what = 'old' if now == old else 'new' if now == new else 'torn'
        r.note(hard, g.kind, now)
        r.tag(f'disturbed:{what}')
        r.state(sc['fn'], im.bits, sc['dst'], [(f['k'], f['do']) for f in hard], g.kind, what)
        if g.ok and wrote and what == 'old' and old != new and not hard:
            r.fail('lost', f'{how} was acknowledged but not written')
        if not wrote and now != old:
            r.fail('refused-wrote', f'{how} is refused, but disturbed by {hard} it changed its output')
        if what == 'torn':
            if not hard:
                r.fail('short-io', f'{how}: short transfers changed the result')
            if g.ok:
                r.fail('ack', f'{how} was acknowledged with an incomplete output ({hard})')
            if now is None or new is None or not new.startswith(now):
                r.fail('torn-other', f'{how}, disturbed by {hard}: the output is neither the old content nor '
                       'the new picture nor an incomplete beginning of it')
            gl = call(sim, B.loadBMP, dst)
            if loaded(gl):
                r.fail('torn-loaded', f'{how}, disturbed by {hard}, left an incomplete output that loads')
        r.absorb(sim)


def undisturbed(sim, setup, go, p, dst, size, src='in.bmp'):
    """The reference run, with where in it the output first changed and what came after."""
    B = runner.B
    marks, late = [], []
    sim.on_mutation = lambda path, what: marks.append(sim_line(sim)) if path == p and not marks else None

    def ev(kind, path):
        if marks and kind in ('read', 'openr', 'seek'):
            late.append((kind, path))
    sim.on_event = ev
    g, n = lines(sim, go)
    sim.on_event = sim.on_mutation = None
    counts = dict(sim.step_counts)
    over = None
    if marks:
        base = []
        for fn in ('invertbits2file', 'flipvertical2file', 'thresholdadjust2file'):
            s2 = setup()
            m2 = []
            s2.on_mutation = lambda path, what: m2.append(sim_line(s2)) if path == p and not m2 else None
            g2, n2 = lines(s2, lambda s, **k: call(s, getattr(B, fn), src, dst,
                                                   *([[0, 255]] if 'thr' in fn else []), **k))
            if g2.ok and m2:
                base.append(n2 - m2[0])
        # the output may be bigger than the source (magnified): allow the lines in proportion
        new = sim.fs.get(p) or b''
        tail = n - marks[0]
        if base and tail > min(base) * max(1, len(new) / max(1, size)) + 60:
            over = f'{tail} steps, {min(base)} for a plain edit'
    return g, n, counts, marks, late, over


def sim_line(sim):
    ir = getattr(sim, 'ir', None)
    return ir.n if ir else 0


def lines(sim, go):
    """Run counting library lines, with the counter visible to hooks."""
    from .. import sched
    run = sched.Interrupter.run

    def hooked(self, fn, *a, **k):
        sim.ir = self
        return run(self, fn, *a, **k)
    sched.Interrupter.run = hooked
    try:
        g = go(sim, at=-1)
    finally:
        sched.Interrupter.run = run
    return g, sim.last.n
