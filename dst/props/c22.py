"""C22: every shipped sample program draws one complete picture and then shows it."""
import errno
import io
import runpy
import subprocess
import sys
import zlib

from .common import *
from .hist import act_of
from .. import core

ID = 'C22'
QUICK, THOROUGH = 1100, 30000
TECH = 'shipped programs run whole under a simulated disk, clock, random source, directory and viewer, one after another in one process, with faults, crashes and interrupts, each compared with the same program alone in an undisturbed process'
NOTE = ('Sampled executions, not a proof. What a picture should look like is not judged here (C05 to C12 and C17 to C21 do), only '
        'that it is complete, shown, and independent of the surroundings. Programs that take more than 0.4 s are run undisturbed '
        'and without the comparison in quick runs, the ten slowest (over 4 s) in thorough runs only.')
RULE = ('one run = one to four sample programs run in one process under a simulated machine, maybe disturbed; distinct = distinct '
        'event log; non-trivial = at least one program was judged')
STATES = 'distinct (program, what ran before, disturbance, viewer, outcome)'
RT = core.VROOT + '/samples'
DIRS = [W[:-1], W[:-1], core.VROOT + '/my pictures', core.VROOT, RT, 'own']
COST = {}                 # seconds a program took when this list was made


def root():
    return os.path.join(runner.REPO, 'samples')


def programs():
    out = []
    for d, _, fs in os.walk(root()):
        out += [os.path.relpath(os.path.join(d, f), root()) for f in fs if f.endswith('.py')]
    if not COST:
        with core.REAL.get('open', open)(os.path.join(runner.HERE, 'dst', 'data', 'samples.txt')) as f:
            for l in f:
                t, _, p = l.rstrip('\n').partition(' ')
                COST[p] = float(t)
    return sorted(out)


def cost(p):
    return COST.get(p, 9)


def scenario(rng, i, tier):
    ps = programs()
    w = dict(world(rng), dirorder=rng.choice([None, rng.getrandbits(16)]))
    once = [p for p in ps if tier != 'quick' or cost(p) < 4 or cost(p) == 9]
    if i < len(once):                   # each at least once; the slow ones first
        p = sorted(once, key=lambda p: (-cost(p), p))[i]
        w['bufsize'] = max(w['bufsize'], 16)
        w['max_io'] = rng.choice([0, 0, 1000, 4095])
        return dict(world=w, seq=[step(rng, p, 0)], cwd=rng.choice(DIRS), old=rng.random() < .5,
                    ref=tier != 'quick' or cost(p) < .4)
    top = rng.choice([.06, .06, .06, .12, .12, .4] if tier == 'quick' else [.06, .12, .4, 9])
    pool = [p for p in ps if cost(p) < top] or ps
    w['max_io'] = rng.choice([0, 0, 700, 4095, 4097]) if top > .1 else rng.choice([0, 0, 61, 512, 4095])
    w['bufsize'] = max(w['bufsize'], 512 if top > .2 else 16)
    n = rng.choice([1, 1, 2, 2, 3, 4]) if top < .2 else rng.choice([1, 2])
    seq = []
    for k in range(n):
        p = rng.choice(pool)
        if k and rng.random() < .2:
            p = rng.choice(seq)['p']
        seq.append(step(rng, p, .5 if top < .2 else .15))
    return dict(world=w, seq=seq, cwd=rng.choice(DIRS), old=rng.random() < .5, ref=True)


def step(rng, p, disturb):
    o = dict(p=p, rand=rng.getrandbits(32), viewer=rng.choice(['ok', 'ok', 'launch', 'launch', 'fail', 'absent']))
    z = rng.random()
    if z < disturb * .4:
        o['stop'] = dict(act=rng.choice(['int', 'int', 'mem', 'crash']), pos=round(rng.random(), 4))
    elif z < disturb:
        o['faults'] = [iofault(rng)]
    return o


def shrink(sc):
    yield from runner.generic_shrink(sc)
    if sc['cwd'] != W[:-1]:
        yield dict(sc, cwd=W[:-1])
    if sc['old']:
        yield dict(sc, old=False)


def assets():
    out = {}
    for d, _, fs in os.walk(os.path.join(root(), 'assets')):
        for f in fs:
            p = os.path.join(d, f)
            with core.REAL['open'](p, 'rb') as h:
                out[RT + p[len(root()):]] = h.read()
    return out


def disk(sim):
    for p in programs():
        d = RT + '/' + p
        while d != RT:
            d = d.rsplit('/', 1)[0]
            sim.fs.dirs.add(d)
    for p, data in assets().items():
        d = p.rsplit('/', 1)[0]
        while d != RT:
            sim.fs.dirs.add(d)
            d = d.rsplit('/', 1)[0]
        sim.fs.put(p, data)
    sim.fs.dirs.add(DIRS[2])


def start(sim, p, viewer):
    """Run one program the way `python3 program` does."""
    path = os.path.join(root(), p)
    with core.REAL['open'](path, encoding='utf-8') as f:
        code = compile(f.read(), path, 'exec')
    views = []

    def spawn(nm, *a, **k):
        argv = a[0] if a else k.get('args')
        argv = argv.split() if isinstance(argv, str) else [os.fspath(x) for x in argv]
        sim.event('spawn', argv[0])
        v = dict(argv=argv, file=None, held=len(sim.fs.open_handles), data=None, launched=[])
        views.append(v)
        if len(argv) == 2:
            v['file'] = sim.fs.norm(argv[1])
            v['data'] = sim.fs.get(v['file'])
        did = viewer
        if did == 'launch':
            launch(sim, argv, v)
            did = 'ok'
        if did == 'absent':
            sim.fault_counts['spawn:absent'] += 1
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), argv[0])
        if did == 'fail':
            sim.fault_counts['spawn:fail'] += 1
        rc = 1 if did == 'fail' else 0
        if nm == 'call':
            return rc
        if rc and (nm in ('check_output', 'check_call') or k.get('check')):
            raise subprocess.CalledProcessError(rc, argv)
        return {'check_call': 0, 'check_output': b'', 'Popen': (b'', rc)}.get(nm, subprocess.CompletedProcess(argv, rc, b'', None))

    def run():
        old = sim.spawn, sys.argv
        sim.spawn, sys.argv = spawn, [RT + '/' + p]
        try:
            exec(code, {'__name__': '__main__', '__file__': RT + '/' + p, '__builtins__': __builtins__})
        finally:
            sim.spawn, sys.argv = old
    return run, views


def launch(sim, argv, v):
    """The shipped launcher as the viewer."""
    def child(nm, *a, **k):
        c = a[0] if a else k.get('args')
        c = [c] if isinstance(c, str) else [os.fspath(x) for x in c]
        if c[0] in ('toolbox', 'getprop'):
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), c[0])
        v['launched'].append(c)
        return b'' if nm == 'check_output' else 0 if nm in ('call', 'check_call') else \
            (b'', 0) if nm == 'Popen' else subprocess.CompletedProcess(c, 0, b'', None)
    old = sys.argv, sys.platform, sys.stderr, sim.spawn
    hide = {k: sys.modules.pop(k) for k in ('doctest', 'py.test', 'unittest') if k in sys.modules}
    sys.argv, sys.platform, sys.stderr, sim.spawn = argv, 'linux', io.StringIO(), child
    try:
        runpy.run_path(os.path.join(runner.REPO, 'mspaint.py'), run_name='__main__')
    except SystemExit:
        pass
    finally:
        sys.argv, sys.platform, sys.stderr, sim.spawn = old
        sys.modules.update(hide)


def new(sc, o, plain=False):
    sim = core.Sim() if plain else sim_of(sc)
    disk(sim)
    sim.fs.cwd = RT + '/' + os.path.dirname(o['p']) if sc['cwd'] == 'own' else sc['cwd']
    return sim


def alone(sc, o):
    """What the program writes in a process and on a machine of its own."""
    sim = new(sc, o, True)
    sim.rng = core.SimRandom(o['rand'], 'uniform')
    run, views = start(sim, o['p'], 'ok')
    old = []                            # earlier versions, saved on the way

    def seen(path, what):
        d = sim.fs.get(path)
        if what == 'truncate':
            old.append((path, last.get(path)))
        last[path] = d
    last = {}
    sim.on_mutation = seen
    g = call(sim, run)
    return dict(old=old, kind=g.kind, what=repr(g.value)[:200], files={p: sim.fs.get(p) for p in sorted({m[2] for m in sim.fs.mutations})},
                views=[v['file'] for v in views])


def execute(sc, r):
    sim = sim_of(sc)
    disk(sim)
    asset = sim.fs.snapshot()
    want = [pristine(lambda o=o: alone(sc, o)) if sc['ref'] else None for o in sc['seq']]
    if sc['old']:
        for k, w in enumerate(want):
            for p in (w or {}).get('files', ()):
                if p not in asset:
                    sim.fs.put(p, b'an older file of another kind' * (k + 1) if k % 2 else mkb(dict(bits=8, w=30, h=20, s=k)).tobytes())
    for o, w in zip(sc['seq'], want):
        one(sc, o, w, r, sim, asset)
    r.absorb(sim)


def one(sc, o, w, r, sim, asset):
    p = o['p']
    sim.fs.cwd = RT + '/' + os.path.dirname(p) if sc['cwd'] == 'own' else sc['cwd']
    cwd = sim.fs.cwd
    at = act = None
    if o.get('stop') or o.get('faults'):
        def lines():
            dry = new(sc, o)
            dry.rng = core.SimRandom(o['rand'], 'uniform')
            run, _ = start(dry, p, 'ok')
            call(dry, run, at=-1 if o.get('stop') else None)
            return dry.last.n if o.get('stop') else 0, dict(dry.step_counts)
        n, counts = pristine(lines)
        if o.get('stop'):
            at = int(o['stop']['pos'] * max(1, n))
            act = act_of(sim, o['stop']['act'])
        else:
            sim.arm(place(o['faults'], counts))
    sim.rng = core.SimRandom(o['rand'], 'uniform')
    sim.fired.clear()
    before = sim.fs.snapshot()
    mark = len(sim.fs.mutations)
    run, views = start(sim, p, o['viewer'])
    g = call(sim, run, at=at, act=act)
    hit = bool(at is not None and sim.last.hit)
    fired = list(sim.fired)
    sim.disarm()
    if hit:
        sim.fault_counts['line:' + o['stop']['act']] += 1
    crashed = sim.crashed
    if crashed:
        sim.restart()
    hard = hit or bool(hard_fired(fired))
    after = sim.fs.snapshot()
    wrote = sorted({m[2] for m in sim.fs.mutations[mark:]} | {q for q in set(before) | set(after) if before.get(q) != after.get(q)})
    r.ops += 1
    how = f'{p} in {cwd}, viewer {o["viewer"]}, {fired or (o.get("stop") if hit else None) or "undisturbed"}'
    gone = o['viewer'] == 'absent' and bool(views)
    # other files
    others_same(r, before, after, set(wrote) - set(asset) | set(sim.tampered) | (set((w or {}).get('files', ())) if w else set()), 'files', how)
    if w and w['kind'] != 'ok':
        r.fail('fails-alone', f'{p} in {cwd}: {w["what"]}')
    if w:
        extra = [q for q in wrote if q not in w['files'] and q not in sim.tampered]
        if extra:
            r.fail('files', f'{how}: wrote {extra[:3]} besides {list(w["files"])[:3]}')
    # what was shown
    if len(views) > 1:
        r.fail('shown-twice', f'{how}: {[v["argv"] for v in views]}')
    for v in views:
        if v['argv'][0] != 'mspaint' or v['file'] is None:
            r.fail('command', f'{how}: ran {v["argv"]}')
        if hard and v['file'] not in wrote:
            continue                            # the edit has reported that it could not do its work
        if v['file'] not in wrote:
            r.fail('shown-other', f'{how}: shows {v["file"]}, wrote {wrote}')
        if v['held']:
            r.fail('shown-early', f'{how}: {v["held"]} file(s) still open when the viewer starts')
        if v['data'] != after.get(v['file']):
            r.fail('shown-early', f'{how}: {v["file"]} changes after the viewer started')
        good(r, how + ', shown', v['data'])
        if w and v['data'] != w['files'].get(v['file']):
            r.fail('picture', f'{how}: shows a picture that differs from the one drawn by the program alone')
        if o['viewer'] == 'launch' and not hard and [c for c in v['launched']] != [['xdg-open', v['file']]]:
            r.fail('launcher', f'{how}: the launcher ran {v["launched"]} for {v["file"]}')
    if not hard:
        if not (g.ok or gone and g.kind == 'exc' and isinstance(g.value, FileNotFoundError)):
            r.fail('failed', f'{how}: {g}')
        if not wrote:
            r.fail('no-picture', f'{how}: ended without a picture')
        if len(wrote) == 1 and not views:
            r.fail('not-shown', f'{how}: wrote {wrote} and started no viewer')
        if len(wrote) > 1 and views:
            r.fail('several', f'{how}: wrote {wrote[:4]}')
        if sim.fs.open_handles:
            r.fail('left-open', f'{how}: files are left open')
    # what is on disk
    for q in wrote:
        d = after.get(q)
        if not hard or g.ok:
            if q in sim.tampered:
                continue
            good(r, f'{how}: {q}', d)
            if w and d != w['files'].get(q):
                r.fail('picture', f'{how}: {q} differs from what the program alone draws')
        elif w and d is not None and d != before.get(q) and q in w['files'] and not w['files'][q].startswith(d) and \
                not any(f == q and v is not None and v.startswith(d) for f, v in w['old']):
            r.fail('torn', f'{how}: {q} is neither the old file nor a beginning of the new picture')
    r.state(p, len(sim.fired), o['viewer'], [f['k'] + f['do'] for f in fired], o['stop']['act'] if hit else None, g.kind)
    r.tag(g.kind)
    r.note(p, g.kind, wrote, [zlib.crc32(after[q]) if q in after else None for q in wrote], [v['argv'] for v in views])
    # the next program starts with the shipped pictures
    for q in asset:
        if after.get(q) != asset[q]:
            sim.fs.put(q, asset[q])
    sim.tampered.clear()


def good(r, how, data):
    try:
        M.parse(data if data is not None else b'')
    except M.BadBMP as e:
        r.fail('incomplete', f'{how}: not a complete picture ({e})')
