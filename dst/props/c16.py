"""C16: the viewer launcher opens the right file, once."""
import errno
import fnmatch
import io
import runpy
import subprocess
import sys
import urllib.parse
import zlib

from .common import *
from .hist import act_of
from .. import core

ID = 'C16'
QUICK, THOROUGH = 8000, 200000
TECH = 'the launcher run as a program over simulated directory trees, clocks, platforms and child processes that succeed, fail or are missing, with crash and interrupt points'
NOTE = ('Sampled executions, not a proof. Symbolic links, patterns with ** and modification times closer than a '
        'millisecond are not generated. Child processes are stand-ins that record what they were asked to open.')
RULE = ('one run = a directory tree with modification times, a platform, commands that work, fail or are absent, and one '
        'start of the launcher, maybe interrupted; distinct = distinct event log; non-trivial = a launcher start was judged')
STATES = 'distinct (platform, kind of argument, candidates, outcomes of the commands, disturbance, outcome)'
NAMES = ['a.bmp', 'b.bmp', 'new.bmp', 'out put.bmp', 'x.BMP', 'note.txt', 'a.bmp.bak', '.h.bmp', 'ünï.bmp', 'bmp', 'c#1.bmp',
         'd%20e.bmp', 'q?.bmp', '-e.bmp', 'line\nbreak.bmp', "it's.bmp", 'semi;colon.bmp']
DIRS = ['', '', 'sub', 'sub/deep', 'other dir', '.hidden', 'x.bmp']
ARGS = ['*.bmp', 'a*', 'n?w.bmp', '[ab].bmp', 'sub/*.bmp', 'deep/*', 'none.bmp', '*.png', 'new.bmp', '*', 'sub/deep/a.bmp']


def scenario(rng, i, tier):
    tree = []
    for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
        tree.append([rng.choice(DIRS), rng.choice(NAMES), rng.choice([rng.randint(0, 9), rng.randint(0, 10 ** 6)]) * 1000
                     + rng.randint(0, 2)])
    plat = rng.choice(['linux', 'linux', 'darwin', 'win32', 'android', 'android'])
    base = core.VROOT + '/work'
    if plat == 'android':
        base = rng.choice([base, '/storage/emulated/0/pics', '/data/media/0', '/mnt/shell/emulated/0/d', '/sdcard/pics'])
    k = rng.random()
    arg = None if k < .35 else rng.choice(ARGS) if k < .6 else '@' + str(rng.randrange(50))
    res = lambda ok: 'ok' if rng.random() < ok else rng.choice(['absent', 'fail', 'noexec'])
    out = dict(world=dict(world(rng), bufsize=8192, max_io=0, dirorder=rng.getrandbits(16)), tree=tree, plat=plat, base=base,
               arg=arg, form=rng.choice(['rel', 'rel', 'abs', 'dot', 'up']), extra=rng.random() < .1,
               dirs=[d for d in ('latest.bmp', 'sub/latest.bmp') if rng.random() < .15],
               noread=rng.choice([None] * 7 + ['sub', '.hidden']),
               probe=rng.choice(['absent', 'absent', 'fail', 'noexec', 'other', 'empty']),
               scan=res(.8), view=res(.8))
    z = rng.random()
    if z < .2:
        out['stop'] = dict(act=rng.choice(['int', 'mem', 'crash']), pos=round(rng.random(), 4))
    elif z < .4:
        out['faults'] = [rng.choice([dict(k='stat', do=rng.choice(['EACCES', 'EIO', 'vanish', 'crash']), pos=round(rng.random(), 4)),
                                     dict(k='stdout', do=rng.choice(['EPIPE', 'interrupt', 'crash']), pos=round(rng.random(), 4))])]
    return out


def alias(p):
    """The globally readable form of a path on the internal card."""
    for pre in ('/data/media/0', '/storage/emulated/0', '/mnt/shell/emulated/0'):
        if p.startswith(pre + '/'):
            return '/sdcard' + p[len(pre):]
    return p


def execute(sc, r):
    base = sc['base']
    cwd = base

    def new():
        s = sim_of(sc)
        fs = s.fs
        fs.roots = (core.VROOT, '/storage/emulated', '/data/media', '/mnt/shell', '/sdcard')
        for d in (base, '/sdcard', alias(base + '/')[:-1]):
            while d not in ('', '/'):
                fs.dirs.add(d)
                d = d.rsplit('/', 1)[0]
        fs.cwd = base
        fs.dirmtime = 2_000_000_000 * 10 ** 9
        for d, n, t in sc['tree']:
            put(s, (d + '/' if d else '') + n, t)
        for d in sc['dirs']:
            mkdirs(fs, base + '/' + d)
        if sc['noread']:
            fs.noread.add(base + '/' + sc['noread'])
        s.spawn = lambda nm, *a, **k: spawn(sc, s, nm, *a, **k)
        return s

    def mkdirs(fs, d):
        while len(d) > len(base):
            fs.dirs.add(d)
            d = d.rsplit('/', 1)[0]

    def put(s, rel, t):
        p = base + '/' + rel
        if p in s.fs.files or p in s.fs.dirs:
            return
        if any(p.startswith(f + '/') for f in s.fs.files):
            return
        mkdirs(s.fs, p.rsplit('/', 1)[0])
        s.fs.put(p, b'' if zlib.crc32(rel.encode()) % 4 == 0 else b'content of ' + rel.encode(), mtime=1_000_000_000 * 10 ** 9 + t * 10 ** 6)
        ino, g = s.fs.files[p], R(f'{t}{rel}')          # read and copied later, in any order
        ino.times = [ino.mtime + g.randint(0, 10 ** 6) * 10 ** 6 for _ in 'ac']
        if alias(p) != p:
            q = alias(p)
            d = q.rsplit('/', 1)[0]
            while len(d) > 7:
                s.fs.dirs.add(d)
                d = d.rsplit('/', 1)[0]
            s.fs.files[q] = s.fs.files[p]

    sim = new()
    files = {p: i.mtime for p, i in sim.fs.files.items() if p.startswith(base + '/')}
    arg = sc['arg']
    if arg and arg[0] == '@':                # a file of the tree
        if files:
            p = sorted(files)[int(arg[1:]) % len(files)]
            rel = p[len(base) + 1:]
            arg = {'rel': rel, 'abs': p, 'dot': './' + rel, 'up': 'sub/../' + rel if base + '/sub' in sim.fs.dirs else rel}[sc['form']]
        else:
            arg = 'gone.bmp'
    argv = ['mspaint.py'] + ([arg] if arg is not None else []) + (['b.bmp'] if arg is not None and sc['extra'] else [])

    def run(s):
        old = sys.argv, sys.platform, sys.stderr
        hide = {k: sys.modules.pop(k) for k in ('doctest', 'py.test', 'unittest') if k in sys.modules}
        sys.argv, sys.stderr = argv, io.StringIO()
        sys.platform = 'linux' if sc['plat'] == 'android' else sc['plat']
        try:
            runpy.run_path(os.path.join(runner.REPO, 'mspaint.py'), run_name='__main__')
        finally:
            sys.argv, sys.platform, sys.stderr = old
            sys.modules.update(hide)
    at = act = None
    if sc.get('stop') or sc.get('faults'):
        dry = new()
        call(dry, run, dry, at=-1)
        if sc.get('stop'):
            at = int(sc['stop']['pos'] * max(1, dry.last.n))
            act = act_of(sim, sc['stop']['act'])
        else:
            sim.arm(place(sc['faults'], dry.step_counts))
    before = sim.fs.snapshot()
    dirs = set(sim.fs.dirs)
    modes = {p: i.mode for p, i in sim.fs.files.items()}
    g = call(sim, run, sim, at=at, act=act)
    hit = bool(at is not None and sim.last.hit)
    fired = list(sim.fired)
    sim.disarm()
    if hit:
        sim.fault_counts['line:' + sc['stop']['act']] += 1
    r.ops += 1
    success = g.ok or g.kind == 'exit' and not g.value
    disturbed = bool(fired) or hit
    # what should have been opened
    def readable(p):
        return not sc['noread'] or not p.startswith(base + '/' + sc['noread'] + '/')
    norm = sim.fs.norm(arg) if arg else None
    if arg is not None and (norm in before or norm in dirs):
        want = {norm}
    else:
        pat = (arg or '*.bmp').split('/')
        cand = {p: t for p, t in files.items() if readable(p)
                and len(p[len(cwd) + 1:].split('/')) >= len(pat)
                and all(fnmatch.fnmatchcase(x, y) for x, y in zip(p[len(cwd) + 1:].split('/')[-len(pat):], pat))}
        want = {p for p, t in cand.items() if t == max(cand.values())}
        if sim.tampered:
            left = {p: t for p, t in cand.items() if p not in sim.tampered}
            want |= {p for p, t in left.items() if t == max(left.values())}
    how = (f'{argv[1:]} on {sc["plat"]} in {cwd} with {[p[len(base) + 1:] for p in sorted(files, key=files.get)]} '
           f'(oldest first), probe {sc["probe"]}, viewer {sc["view"]}, {fired or sc.get("stop") or "undisturbed"}')
    views = [s for s in sim.spawned if s['what'] == 'view']
    done = [s for s in views if s['did'] == 'ok']
    if len(done) > 1 or any(s['did'] == 'ok' for s in views[:-1]):
        r.fail('twice', f'{how}: opened {[s["argv"] for s in views]}')
    odd = [s for s in sim.spawned if s['what'] == 'odd']
    if odd:
        r.fail('command', f'{how}: ran {odd[0]["argv"]}')
    for s in sim.spawned:
        if s['what'] in ('view', 'scan') and not ({alias(p) for p in want} & {s['file'], alias(s['file'] or '')}):
            r.fail('wrong-file', f'{how}: opened {s["file"]!r} instead of {sorted(want)}')
    if success and not done and not (sim.tampered and not want):
        r.fail('nothing-opened', f'{how}: ended well without opening anything')
    if not want and (success or views):
        r.fail('nothing-to-open', f'{how}: no complaint')
    if want and not disturbed and sc['view'] == 'ok' and (sc['scan'] == 'ok' or sc['plat'] != 'android') and not success:
        r.fail('failed', f'{how}: failed: {g}')
    after = sim.fs.snapshot()
    others_same(r, before, after, set(sim.tampered), 'files', how)
    if sim.fs.dirs != dirs:
        r.fail('files', f'{how}: created or removed directories')
    for p, i in sim.fs.files.items():
        if i.mode != modes.get(p) and (sc['plat'] != 'android' or alias(p) not in {alias(x) for x in want}):
            r.fail('mode', f'{how}: changed the mode of {p}')
    kind = 'none' if arg is None else 'given' if norm in before else 'pattern'
    r.state(sc['plat'], kind, min(len(want), 3), sc['probe'], sc['scan'], sc['view'], [f['k'] + f['do'] for f in fired],
            (sc.get('stop') or {}).get('act') if hit else None, g.kind)
    r.tag(g.kind)
    r.note(g.kind, [s['argv'] for s in sim.spawned])
    r.absorb(sim)


def spawn(sc, sim, nm, *a, **k):
    """A child process: recorded, never run."""
    argv = a[0] if a else k.get('args')
    argv = [argv] if isinstance(argv, str) else [os.fspath(x) for x in argv]
    sim.event('spawn', argv[0])
    rec = dict(argv=argv, what='odd', did='ok', file=None)
    out = b''
    name = argv[0]
    plat = sc['plat']
    if name == 'toolbox' or name == 'getprop':
        rec['what'] = 'probe'
        rec['did'] = 'ok' if plat == 'android' or sc['probe'] in ('other', 'empty') else sc['probe']
        out = b'Android\n' if plat == 'android' else b'' if sc['probe'] == 'empty' else b'Acme Corp\n'
    elif plat == 'android' and name == 'am' and argv[1:2] in (['broadcast'], ['start']):
        rec['what'] = 'scan' if argv[1] == 'broadcast' else 'view'
        rec['did'] = sc['scan'] if argv[1] == 'broadcast' else sc['view']
        if '-d' in argv[:-1]:
            u = urllib.parse.urlsplit(argv[argv.index('-d') + 1])
            if u.scheme == 'file' and not u.query and not u.fragment:
                rec['file'] = urllib.parse.unquote(u.path)
    elif plat == 'win32' and [x.lower() for x in argv[:-1]] == ['cmd.exe', '/c', 'start', '', 'mspaint.exe'] or \
            plat == 'win32' and len(argv) == 2 and argv[0] == 'mspaint.exe' or \
            plat == 'darwin' and argv[:-1] == ['open'] or plat == 'linux' and argv[:-1] == ['xdg-open']:
        rec.update(what='view', did=sc['view'], file=argv[-1])
    sim.spawned.append(rec)
    sim.log.append(('spawn', argv))
    did = rec['did']
    if did != 'ok':
        sim.fault_counts[f'spawn:{rec["what"]}-{did}'] += 1
    if did == 'absent':
        raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), name)
    if did == 'noexec':
        raise PermissionError(errno.EACCES, os.strerror(errno.EACCES), name)
    rc = 1 if did == 'fail' else 0
    if k.get('encoding') or k.get('text') or k.get('universal_newlines') or k.get('errors'):
        out = out.decode(k.get('encoding') or 'utf-8')
    if nm == 'Popen':
        return out, rc
    if nm == 'call':
        return rc
    if rc and (nm in ('check_output', 'check_call') or k.get('check')):
        raise subprocess.CalledProcessError(rc, argv, out)
    if nm == 'check_output':
        return out
    if nm == 'check_call':
        return 0
    return subprocess.CompletedProcess(argv, rc, out, None)
