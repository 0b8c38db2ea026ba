"""C15: putting the paint wrapper on PATH is idempotent and loses nothing."""
import sys

from .common import *
from .hist import act_of
from .. import core, sched

ID = 'C15'
QUICK, THOROUGH = 6000, 200000
TECH = 'histories of saves (also interrupted, failing and concurrently scheduled ones) over generated PATH values and platforms, judged against the list of entries before'
NOTE = ('Sampled executions, not a proof. An unset or empty PATH may gain an empty entry beside the wrapper directory. '
        'The environment is changed by nobody else while saves of several callers overlap.')
RULE = ('one run = a PATH value, a platform\'s separator and 1 to 6 saves, refusals, failures, interruptions, overlapping '
        'saves and user changes of PATH; distinct = distinct event log; non-trivial = at least one save made')
STATES = 'distinct (shape of PATH, wrapper present, platform, kind of operation, disturbance, outcome)'
HERE = None


def here():
    global HERE
    if HERE is None:
        HERE = os.path.dirname(os.path.dirname(os.path.abspath(runner.B.__file__)))
    return HERE


def pathvalue(rng, sep):
    """A PATH in terms of symbolic entries ('@' stands for the wrapper directory)."""
    if rng.random() < .12:
        return rng.choice([None, ''])
    if sep == ';':
        usual = ['C:\\Windows', 'C:\\Windows\\System32', 'C:\\Program Files\\Git\\cmd', '/usr/bin', '"C:\\a b"']
    else:
        usual = ['/usr/bin', '/bin', '/usr/local/bin', '/opt/a b/bin', '~/.local/bin', './bin', '/home/u/venv/bin', '/usr/sbin',
                 '/snap/bin', '/usr/games']
    odd = ['', '', '.', '@x', 'x@', '@/bin', '@/', '/x@', '@^', '@-', '@up', ' ', '$HOME/bin', 'ünï', '@ ', ' @']
    out = []
    for _ in range(rng.choice([1, 1, 2, 3, 4, 8, 40])):
        k = rng.random()
        out.append('@' if k < .12 else rng.choice(odd) if k < .35 else rng.choice(usual) if k < .9
                   else rng.choice(out or usual))
    return out


def real(v, sep):
    if not v:
        return v
    h = here()
    m = {'@x': h + 'x', 'x@': 'x' + h, '@/bin': h + '/bin', '@/': h + '/', '/x@': '/x' + h, '@^': os.path.dirname(h),
         '@-': h[:-1], '@up': h.upper(), '@ ': h + ' ', ' @': ' ' + h, '@': h}
    return sep.join(m.get(e, e) for e in v)


def scenario(rng, i, tier):
    sep = rng.choice([':', ':', ':', ';'])
    ops = []
    for _ in range(rng.randint(1, 6)):
        k = rng.choice(['save'] * 5 + ['direct', 'empty', 'load', 'edit', 'text', 'user', 'threads', 'cwd'])
        o = dict(o=k, name=rng.choice(['a.bmp', 'b.bmp', 'no/such.bmp', 'd/c.bmp']), s=rng.getrandbits(32))
        if k in ('save', 'edit', 'text', 'direct'):
            z = rng.random()
            if z < .25:
                o['faults'] = [iofault(rng)]
            elif z < .5:
                o['stop'] = dict(act=rng.choice(['int', 'mem', 'crash']), pos=round(rng.random(), 4))
            elif z < .6:
                o['faults'] = [dict(k='getcwd', do='ENOENT', pos=0)]
        if k == 'user':
            o['path'] = pathvalue(rng, sep)
        if k == 'threads':
            o['plan'] = dict(mode='random', seed=rng.getrandbits(32), p=rng.choice([.1, .3, .6]))
            o['n'] = rng.choice([2, 2, 3])
        ops.append(o)
    return dict(world=dict(world(rng), bufsize=8192, max_io=0), sep=sep, path=pathvalue(rng, sep), ops=ops,
                img=imgspec(rng, maxdim=5))


def entries(p, sep):
    return p.split(sep) if p else []


def execute(sc, r):
    B = runner.B
    sep = sc['sep']
    saved_env = dict(os.environ)
    mods = [m for n, m in list(sys.modules.items()) if n.startswith('pythonbmp') and getattr(m, 'pathsep', None) == ':']
    old = os.pathsep
    try:
        os.pathsep = os.path.pathsep = sep
        for m in mods:
            m.pathsep = sep
        body(sc, r, B, sep)
    finally:
        os.pathsep = os.path.pathsep = old
        for m in mods:
            m.pathsep = old
        for k in list(os.environ):
            if k not in saved_env:
                del os.environ[k]
        for k, v in saved_env.items():
            if os.environ.get(k) != v:
                os.environ[k] = v


def setpath(v):
    if v is None:
        os.environ.pop('PATH', None)
    else:
        os.environ['PATH'] = v


def shape(p, sep):
    e = entries(p, sep)
    h = here()
    return (p is None, min(len(e), 5), e.count(h), bool(e) and e[0] == h, '' in e, len(set(e)) < len(e), sep,
            h in (p or '') and h not in e)


def body(sc, r, B, sep):
    im = mk(sc['img'])
    data = M.build(im)

    def new(src=None):
        s = sim_of(sc)
        s.keepenv = True
        s.fs.dirs.add(W + 'd')
        if src is not None:
            s.fs.dirs = set(src.fs.dirs)
            for p, q in src.fs.snapshot().items():
                s.fs.put(p, q)
        else:
            s.fs.put('in.bmp', data)
        return s
    sim = new()
    setpath(real(sc['path'], sep))
    for o in sc['ops']:
        k = o['o']
        if k == 'user':
            setpath(real(o['path'], sep))
            continue
        if k == 'cwd':
            sim.fs.cwd = core.VROOT + '/work' if sim.fs.cwd.endswith('/d') else W + 'd'
            continue
        p0 = os.environ.get('PATH')
        env0 = {a: b for a, b in os.environ.items() if a != 'PATH'}
        src = W + 'in.bmp'
        name = W + o['name']

        def go(s, **kw):
            if k == 'save':
                return call(s, B.saveBMP, name, array('B', data), **kw)
            if k == 'direct':
                return call(s, B.ensurePaintWrapperInPath, **kw)
            if k == 'empty':
                return call(s, B.saveBMP, name, array('B'), **kw)
            if k == 'load':
                return call(s, B.loadBMP, src, **kw)
            if k == 'edit':
                return call(s, B.flipvertical2file, src, name, **kw)
            if k == 'text':
                return call(s, B.plotstring2file, name, 'Hi', 1, 0, 0, 1, __import__(
                    'pythonbmp.fonts', fromlist=['x']).font8x8, **kw)
        if k == 'threads':
            s = sched.Scheduler(o['plan'])
            sim.sched = s
            with core.active(sim):
                res = s.run([lambda j=j: B.saveBMP(W + f't{j}.bmp', array('B', data)) for j in range(o['n'])])
            sim.sched = None
            r.inter.add(s.trace)
            r.switches += len(s.switches)
            ok = all(a == 'ok' for a, _ in res)
            if not ok:
                r.fail('threads', f'overlapping saves failed: {res}')
            kind, dist, hit = 'ok', 'threads', False
        else:
            at = act = None
            if o.get('stop') or o.get('faults'):
                dry = new(sim)
                go(dry, at=-1)
                setpath(p0)
                if o.get('stop'):
                    at = int(o['stop']['pos'] * max(1, dry.last.n))
                    act = act_of(sim, o['stop']['act'])
                else:
                    sim.arm([dict(f, n=0) for f in o['faults'] if f['k'] == 'getcwd']
                            + place([f for f in o['faults'] if f['k'] != 'getcwd'], dry.step_counts))
            n0, w0 = len(sim.fired), sim.call_counts['openw']
            g = go(sim, at=at, act=act)
            hit = bool(at is not None and sim.last.hit)
            fired = sim.fired[n0:]
            sim.disarm()
            if hit:
                sim.fault_counts['line:' + o['stop']['act']] += 1
            if g.kind == 'crash':
                sim.restart()
            kind = g.kind
            dist = (o.get('stop') or {}).get('act') or [f['k'] + f['do'] for f in fired]
            ok = g.ok and (sim.call_counts['openw'] > w0 or k == 'direct')
            if fired and not hit and all(f['k'] in ('getcwd',) for f in fired) and not ok and g.kind != 'crash':
                if name.startswith(W + 'no') is False:
                    r.fail('lookup', f'a save failed because a look at the directory failed: {g}')
            if not g.ok and not hard_fired(fired) and not hit and not name.startswith(W + 'no'):
                r.fail('failed', f'{k} with PATH {short(p0)} failed: {g}')
        r.ops += 1
        p1 = os.environ.get('PATH')
        env1 = {a: b for a, b in os.environ.items() if a != 'PATH'}
        how = f'{k} ({kind}) with PATH {short(p0)} (separator {sep!r}, wrapper in {here()})'
        if env1 != env0:
            r.fail('other-variable', f'{how} changed {sorted(set(env0.items()) ^ set(env1.items()))[:2]}')
        judge(r, p0, p1, sep, must=ok and k != 'load' and k != 'empty', how=how)
        r.state(shape(p0, sep), k, dist, kind)
        r.note(p1, kind)
    r.absorb(sim)


def judge(r, p0, p1, sep, must, how):
    h = here()
    a, b = entries(p0, sep), entries(p1, sep)
    if p1 == p0:
        if must and h not in a and h + '/' not in a:
            r.fail('absent', f'{how}: the wrapper directory is not on PATH')
        return
    if h in a:
        r.fail('repeated', f'{how}: already there, yet PATH became {short(p1)}')
    if b.count(h) != 1:
        r.fail('count', f'{how}: PATH holds the wrapper directory {b.count(h)} times: {short(p1)}')
    if b[0] != h:
        r.fail('position', f'{how}: the wrapper directory is not in front: {short(p1)}')
    rest = b[1:]
    if p0 in (None, '') and rest in ([], [''], os.defpath.split(sep)):
        return
    if rest != a:
        r.fail('lost', f'{how}: the other entries became {short(rest)}')
