"""C14: colour-cycling to a directory delivers the whole ordered cycle or nothing."""
import posixpath

from .common import *
from .hist import act_of
from .. import core

ID = 'C14'
QUICK, THOROUGH = 6000, 200000
TECH = 'histories of cycle exports with crash, interruption and storage-fault points at every call and line of the sequence, judged against the model\'s frames'
NOTE = ('Sampled executions, not a proof. The picture is exported below the simulated disk; exporting over the source '
        'file itself is not exercised. A frame being written when something fails may be left incomplete.')
RULE = ('one run = one picture (usable or not), a directory in some state, and 1 to 3 exports in a row, most hit by a '
        'fault, crash or interrupt, restarted and repeated; distinct = distinct event log; non-trivial = at least '
        'one export made')
STATES = 'distinct (depth, directory state, overwriting, kind of disturbance, frames written by sixteenth, outcome)'
DIRS = ['cyc', './cyc', 'cyc/', 'a/cyc', W + 'cyc', 'a/../cyc', 'no/cyc', 'file', 'spaced dir', 'a', 'Ünï %s', '~cyc', 'UP', 'cyc.bmp', "it's{0}", '日本']


def scenario(rng, i, tier):
    bits = rng.choice([4, 4, 4, 4, 8, 1, 24])
    big = bits == 8
    w = dict(world(rng))
    if big:
        w.update(bufsize=rng.choice([512, 8192]), max_io=0)
    elif w['max_io'] and w['bufsize'] < 16:
        w.update(bufsize=16)
    ops = []
    for _ in range(rng.randint(1, 3)):
        o = dict(dir=rng.choice(DIRS[:7]) if rng.random() < .8 else rng.choice(DIRS), over=rng.random() < .5)
        k = rng.random()
        if k < .4:
            o['faults'] = [iofault(rng)]
            if rng.random() < .15:
                o['faults'] = [dict(k='mkdir', do=rng.choice(['EACCES', 'ENOSPC', 'EROFS', 'crash']), pos=0, frac=.5)]
        elif k < .75:
            o['stop'] = dict(act=rng.choice(['int', 'mem', 'crash']), pos=round(rng.random() ** 2, 4))
        ops.append(o)
    return dict(world=w, img=imgspec(rng, bits=bits, maxdim=5), ops=ops, src=oddname(rng, rng.choice(['in.bmp', './in.bmp', 'a/in.bmp']), .08),
                same=rng.random() < .8, state=rng.choice(['ok'] * 9 + ['missing', 'cut', 'junk']),
                have=rng.choice(['no', 'no', 'empty', 'other', 'frames']))


def execute(sc, r):
    B = runner.B
    im = mk(sc['img'])
    data = M.build(im)
    src = posixpath.normpath(W + sc['src'])
    bystander = {W + 'a/other.bmp': b'someone else', W + 'file': b'no directory'}
    ok_src = sc['state'] == 'ok' and im.bits in (4, 8)
    content = {'ok': data, 'missing': None, 'cut': data[:-1], 'junk': b'no picture'}[sc['state']]
    m = 1 << im.bits if im.bits in (4, 8) else 0
    frames = []
    for k in range(m):
        f = im.copy()
        f.pal = im.pal[k:] + im.pal[:k]
        frames.append(M.build(f))

    def fresh(files=None, dirs=None):
        sim = sim_of(sc)
        sim.fs.dirs |= {W + 'a'} if dirs is None else dirs
        oddirs(sim)
        for p, d in (files or {}).items():
            sim.fs.put(p, d)
        return sim
    sim = fresh(dict(bystander, **({src: content} if content is not None else {})))
    first = sc['ops'][0]['dir'] if sc['ops'] else 'cyc'
    d0 = sim.fs.norm(first)
    if sc['have'] != 'no' and first not in ('file', 'a', 'no/cyc'):
        sim.fs.dirs.add(d0)
        if sc['have'] == 'other':
            sim.fs.put(d0 + '/keep.txt', b'keep me')
            sim.fs.put(d0 + '/300.bmp', b'keep me too')
        elif sc['have'] == 'frames':
            for k in range(5):
                sim.fs.put(f'{d0}/{k}.bmp', b'old %d' % k)
    for o in sc['ops']:
        name = first if sc['same'] else o['dir']
        d = sim.fs.norm(name)
        fs = sim.fs
        before = fs.snapshot()
        dirs = set(fs.dirs)
        existed = d in dirs or d in before
        parent = d.rsplit('/', 1)[0] in dirs

        def go(s, **k):
            return call(s, B.colorcycle2dir, sc['src'], name, *([True] if o['over'] else []), **k)
        at = act = None
        if o.get('faults') or o.get('stop'):
            dry = fresh(before, dirs)
            g = go(dry, at=-1)
            if o.get('stop'):
                at = int(o['stop']['pos'] * max(1, dry.last.n))
                act = act_of(sim, o['stop']['act'])
            else:
                sim.arm(place(o['faults'], dry.step_counts))
        n0 = len(sim.fired)
        g = go(sim, at=at, act=act)
        fired = sim.fired[n0:]
        sim.disarm()
        hard = hard_fired(fired)
        r.ops += 1
        hit = bool(at is not None and sim.last.hit)
        if hit:
            sim.fault_counts['line:' + o['stop']['act']] += 1
        leaks = [h._path for h in fs.open_handles.values()]
        if g.kind == 'crash':
            sim.restart()
        elif leaks and not hit:
            r.fail('leak', f'the export ({g.kind}) left files open: {leaks[:3]}')
        after = fs.snapshot()
        gone = {p for p in sim.tampered}
        how = (f'exporting a {im.bits}-bit {im.w}x{im.h} picture ({sc["state"]}) to {name!r}, directory '
               f'{"existing" if existed else "new"}, overwrite={o["over"]}, {fired or o.get("stop") or "undisturbed"}')
        written = {p for p in set(before) | set(after) if before.get(p) != after.get(p)} - gone
        new_dirs = fs.dirs - dirs
        if dirs - fs.dirs:
            r.fail('directory-lost', f'{how}: a directory disappeared')
        ours = [f'{d}/{k}.bmp' for k in range(m)]
        stray = written - set(ours)
        if stray:
            r.fail('stray', f'{how}: changed {sorted(stray)[:3]}')
        if new_dirs - {d}:
            r.fail('stray', f'{how}: created {sorted(new_dirs)[:3]}')
        undisturbed = not hard and not hit
        if g.ok and not written and not new_dirs and any(f['k'] == 'stat' for f in hard):
            r.tag('source judged missing')      # a failed look at the source refuses the export
        elif not ok_src:
            if written or new_dirs:
                r.fail('unusable', f'{how}: a source that cannot be cycled created {sorted(written | new_dirs)[:2]}')
        elif existed and (not o['over'] or d in before):
            if written:
                r.fail('existing', f'{how}: wrote into an existing directory')
            if g.ok:
                r.fail('existing', f'{how}: not refused')
        elif not parent:
            if written or new_dirs:
                r.fail('no-parent', f'{how}: created {sorted(written | new_dirs)[:2]}')
            if g.ok:
                r.fail('no-parent', f'{how}: reported success')
        else:
            n = 0
            while n < m and after.get(ours[n]) == frames[n]:
                n += 1
            if g.ok or undisturbed:
                if not g.ok:
                    r.fail('refused', f'{how}: failed although nothing is wrong: {g}')
                if n < m and ok_src and src not in gone:
                    r.fail('incomplete', f'{how}: succeeded, but frame {n} of {m} is '
                           + ('missing' if after.get(ours[n]) is None else f'wrong ({why(frames[n], after[ours[n]])})'))
            else:
                # a beginning of the sequence, at most one frame torn, the rest as before
                if n < m and written and after.get(ours[n]) != before.get(ours[n]):
                    q = after.get(ours[n])
                    lg = call(fresh({W + 'x.bmp': q}), B.loadBMP, 'x.bmp') if q is not None else None
                    if lg is None:
                        r.fail('torn', f'{how}: frame {n} disappeared')
                    if loaded(lg):
                        r.fail('torn', f'{how}: frame {n} is not the picture of the cycle, yet it loads')
                    rest = ours[n + 1:]
                else:
                    rest = ours[n:]
                for p in rest:
                    if after.get(p) != before.get(p):
                        r.fail('order', f'{how}: {p} was written although frame {n} is not complete')
            r.state(im.bits, existed, sc['have'], o['over'], [(f['k'], f['do']) for f in fired],
                    (o.get('stop') or {}).get('act'), n * 16 // m, g.kind)
        r.tag(g.kind)
        r.note(g.kind, sorted(after.items()))
        sim.tampered.clear()
        if gone:
            break
    r.absorb(sim)


def why(a, b):
    try:
        return M.parse(a).diff(M.parse(b))
    except M.BadBMP as e:
        return str(e)
