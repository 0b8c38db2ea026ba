"""Runs simulated executions, minimises failures, writes replays and evidence."""
import gc
import hashlib
import importlib
import json
import os
import pickle
import random
import resource
import select
import signal
import struct
import sys
import tempfile
import time
import traceback
from collections import Counter

from . import bmpmodel, core, sched

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WALL = 40                       # seconds one simulated run may take
LINE_BUDGET = 40_000_000        # library lines of a run that hit WALL
B = None                        # the library's main module


class Stop(Exception):
    """Ends a scenario early (after a violation that makes the rest moot)."""


class Result:
    """What one simulated run observed."""

    def __init__(self, pid):
        self.pid = pid
        self.violations = []
        self.known = Counter()
        self.states = set()
        self.tags = Counter()
        self.faults = Counter()
        self.probes = Counter()
        self.calls = Counter()
        self.simns = 0
        self.ops = 0
        self.switches = 0
        self.inter = set()
        self.extra = {}
        self.h = hashlib.blake2b(digest_size=8)

    def violate(self, key, what):
        k = f'{self.pid}:{key}'
        if len(self.violations) < 9 and all(k != v for v, _ in self.violations):
            self.violations.append((k, str(what)[:400]))
        self.note('violate', key, what)

    def fail(self, key, what):
        self.violate(key, what)
        raise Stop

    def note(self, *a):
        self.h.update(repr(a).encode())

    def state(self, *a):
        """A distinct situation reached (coverage measure)."""
        self.states.add(hash_small(a))

    def tag(self, t, n=1):
        self.tags[t] += n

    def absorb(self, sim):
        self.faults.update(sim.fault_counts)
        self.probes.update(sim.probes)
        self.calls.update(sim.call_counts)
        self.simns += sim.clock - sim.clock0
        self.note(sim.log)
        if sim.moved and self.pid in ('C01', 'C03', 'C11'):
            self.violate('working-directory', f'a call left the process in another directory: {sim.moved[0]}')
        if sim.escapes:
            self.violate('escape', f'the library touched something outside the simulated world: '
                                   f'{sim.escapes[:3]}')

    def pack(self):
        return dict(violations=self.violations, known=dict(self.known), states=self.states,
                    tags=self.tags, faults=self.faults, probes=self.probes, calls=self.calls,
                    simns=self.simns, ops=self.ops, inter=self.inter, switches=self.switches,
                    extra=self.extra, digest=self.h.hexdigest())


def hash_small(a):
    return struct.unpack('<Q', hashlib.blake2b(repr(a).encode(), digest_size=8).digest())[0]


# ---- one call of the library inside the simulated world --------------------
class Got:
    __slots__ = ('kind', 'value')

    def __init__(self, kind, value=None):
        self.kind, self.value = kind, value

    ok = property(lambda s: s.kind == 'ok')

    def __repr__(self):
        return f'{self.kind}:{self.value!r}'


def call(sim, fn, *a, at=None, act=None, opcodes=False, **k):
    """Run fn in sim; optionally stop it before library line number `at`."""
    ir = None
    here = sim.fs.cwd
    if not sim.keepenv:
        os.environ['PATH'] = '/usr/bin:/bin'      # saving extends it: same start for every call
    try:
        with core.active(sim):
            try:
                if at is not None:
                    ir = sched.Interrupter(at, act, opcodes=opcodes)
                    v = ir.run(fn, *a, **k)
                else:
                    v = fn(*a, **k)
                g = Got('ok', v)
            except core.SimCrash:
                g = Got('crash')
            except core.SimInterrupt:
                g = Got('interrupt')
            except core.StepBudget:
                raise
            except SystemExit as e:
                g = Got('exit', e.code)
            except BaseException as e:          # noqa: the library's own failure
                e.__traceback__ = None
                e.__context__ = None
                g = Got('exc', e)
    finally:
        sim.last = ir
    if sim.fs.cwd != here:
        sim.moved.append(sim.fs.cwd)
    if ir is not None and ir.hit:
        # no code can close a bare descriptor when stopped on the very line that would
        for fd in [fd for fd, h in sim.fs.open_handles.items() if h.bare]:
            sim.fs.open_handles.pop(fd)
    return g


def count_lines(sim, fn, *a, mark=None, **k):
    """Run fn counting library lines; returns (Got, lines)."""
    g = call(sim, fn, *a, at=-1, **k)
    return g, sim.last.n


# ---- executing scenarios in throw-away processes ----------------------------
def load():
    global B
    if B is None:
        B = core.load_library(REPO)
        sched.set_prefix(REPO)
    return B


def prop(pid):
    return importlib.import_module('dst.props.' + pid.lower())


ODD = (TypeError, ValueError, IndexError, KeyError, AttributeError, ZeroDivisionError, struct.error)


def run_here(mod, sc):
    r = Result(mod.ID)
    try:
        mod.execute(sc, r)
        for k in r.known:
            if k not in known_keys(mod.ID):      # only listed findings are tolerated
                r.violate(k.split(':', 1)[1], 'behaviour of a finding that is not listed')
    except Stop:
        pass
    except core.StepBudget as e:
        r.violate('no-progress', f'a call does not come to an end: {e}')
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        deep = [f for f in tb if sched.mine(f.filename)]
        if deep and sched.mine(tb[-1].filename):
            r.violate('unexpected-failure', f'{e!r} raised at {deep[-1].name} where the call must work')
        elif isinstance(e, bmpmodel.BadBMP):
            r.violate('malformed-picture', f'a picture that comes out of a call is no picture: {e} '
                      f'({os.path.basename(tb[-2].filename)}:{tb[-2].lineno})')
        elif isinstance(e, ODD) and os.path.basename(tb[-1].filename) not in ('core.py', 'sched.py', 'runner.py'):
            # what the library handed over is not of the kind that the oracle reads
            r.violate('odd-result', f'a result that cannot be judged: {e!r} in {tb[-1].name} '
                      f'({os.path.basename(tb[-1].filename)}:{tb[-1].lineno})')
        else:
            d = r.pack()
            d['harness'] = traceback.format_exc()
            return d
    return r.pack()


def child(mod, sc, wfd, budget):
    """Body of a forked child; never returns."""
    try:
        signal.alarm(0)
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setpgid(0, 0)
        if budget:
            ir = sched.Interrupter(budget=LINE_BUDGET)
            try:
                d = ir.run(run_here, mod, sc)
            except core.StepBudget as e:
                d = Result(mod.ID)
                d.violate('no-progress', f'a call does not come to an end: {e}')
                d = d.pack()
        else:
            d = run_here(mod, sc)
        data = pickle.dumps(d)
    except BaseException:
        data = pickle.dumps({'harness': traceback.format_exc()})
    try:
        p = struct.pack('<Q', len(data)) + data
        while p:
            p = p[core.REAL['os.write'](wfd, p):]
    finally:
        os._exit(0)


def spawn(mod, sc, budget=False, wall=WALL):
    """Run one scenario in its own process; returns the packed result."""
    rfd, wfd = os.pipe()
    pid = core.REAL['os.fork']() if 'os.fork' in core.REAL else os.fork()
    if pid == 0:
        core.REAL['os.close'](rfd)
        child(mod, sc, wfd, budget)
    core.REAL['os.close'](wfd)
    end = core.REAL['monotonic']() + wall
    buf = b''
    timed = False
    while True:
        left = end - core.REAL['monotonic']()
        if left <= 0:
            timed = True
            break
        r, _, _ = select.select([rfd], [], [], left)
        if not r:
            timed = True
            break
        d = core.REAL['os.read'](rfd, 1 << 16)
        if not d:
            break
        buf += d
    core.REAL['os.close'](rfd)
    if timed:
        try:
            core.REAL['os.kill'](pid, signal.SIGKILL)
        except OSError:
            pass
    _, st = os.waitpid(pid, 0)
    if timed:
        return None
    if len(buf) < 8 or len(buf) < 8 + struct.unpack('<Q', buf[:8])[0]:
        return {'harness': f'the run died (status {st})'}
    return pickle.loads(buf[8:])


def run_one(mod, sc):
    d = spawn(mod, sc)
    if d is None:                              # slow or stuck: decide by counting steps
        d = spawn(mod, sc, budget=True, wall=300)
        if d is None:
            r = Result(mod.ID)
            r.violate('no-progress', 'a call does not come to an end (stuck inside one step)')
            d = r.pack()
    return d


def scenario(mod, seed, i, tier):
    rng = core.REAL['Random'](f'{mod.ID}:{seed}:{i}') if 'Random' in core.REAL else \
        random.Random(f'{mod.ID}:{seed}:{i}')
    sc = mod.scenario(rng, i, tier)
    return json.loads(json.dumps(sc))


# ---- known findings -----------------------------------------------------------
def findings():
    with core.REAL.get('open', open)(os.path.join(HERE, 'known_findings.json')) as f:
        return json.load(f)


def known_keys(pid):
    return {f['key']: f for f in findings()['known'] if f['property'] == pid}


# ---- a check --------------------------------------------------------------------
def worker(mod, seed, tier, idx, out, deadline, flag):
    agg = dict(n=0, digests={}, viol=[], harness=[], states=set(), inter=set(), tags=Counter(),
               faults=Counter(), probes=Counter(), calls=Counter(), known=Counter(), simns=0, ops=0,
               switches=0, nontrivial=set(), slow=0.0)
    kk = known_keys(mod.ID)
    for i in idx:
        if core.REAL['monotonic']() > deadline or os.path.exists(flag):
            break
        sc = scenario(mod, seed, i, tier)
        t = core.REAL['monotonic']()
        d = run_one(mod, sc)
        agg['slow'] = max(agg['slow'], core.REAL['monotonic']() - t)
        if 'harness' in d:
            agg['harness'].append((i, d['harness']))
            if len(agg['harness']) > 3:
                break
            continue
        agg['n'] += 1
        agg['digests'][i] = d['digest']
        for k in ('states', 'inter'):
            agg[k] |= d[k]
        for k in ('tags', 'faults', 'probes', 'calls'):
            agg[k].update(d[k])
        agg['known'].update(d['known'])
        for k in ('simns', 'ops', 'switches'):
            agg[k] += d[k]
        if d['ops']:
            agg['nontrivial'].add(d['digest'])
        for key, what in d['violations']:
            if key in kk:
                agg['known'][key] += 1
            else:
                agg['viol'].append((i, key, what))
        if agg['viol']:
            with core.REAL['open'](flag, 'w'):
                pass
            break
    with core.REAL['open'](out, 'wb') as f:
        pickle.dump(agg, f)


def sweep(mod, seed, tier, runs, jobs, wall):
    tmp = tempfile.mkdtemp(prefix='dst-')
    flag = os.path.join(tmp, 'stop')
    deadline = core.REAL['monotonic']() + wall
    pids = []
    gc.collect()
    gc.freeze()
    for w in range(jobs):
        out = os.path.join(tmp, f'{w}.pkl')
        pid = os.fork()
        if pid == 0:
            try:
                worker(mod, seed, tier, range(w, runs, jobs), out, deadline, flag)
            except BaseException:
                with core.REAL['open'](out, 'wb') as f:
                    pickle.dump({'crash': traceback.format_exc()}, f)
            finally:
                os._exit(0)
        pids.append((pid, out))
    res = []
    for pid, out in pids:
        os.waitpid(pid, 0)
        try:
            with core.REAL['open'](out, 'rb') as f:
                res.append(pickle.load(f))
        except Exception as e:
            res.append({'crash': f'worker left no result: {e!r}'})
    for f in os.listdir(tmp):
        os.remove(os.path.join(tmp, f))
    os.rmdir(tmp)
    return res


def same_failure(mod, sc, key):
    d = run_one(mod, sc)
    if d and 'harness' not in d:
        for k, what in d['violations']:
            if k == key:
                return d, what
    return None


def ddmin(mod, sc, key, seconds=60):
    """Shrink the scenario while the same violation persists."""
    end = core.REAL['monotonic']() + seconds
    tries = 0
    best = sc

    def ok(c):
        nonlocal tries
        tries += 1
        return core.REAL['monotonic']() < end and same_failure(mod, c, key) is not None
    changed = True
    while changed and core.REAL['monotonic']() < end:
        changed = False
        for field in [f for f, v in best.items() if isinstance(v, list)]:
            n = max(1, len(best[field]) // 2)
            while best[field] and core.REAL['monotonic']() < end:
                i, hit = 0, False
                while i < len(best[field]):
                    c = dict(best)
                    c[field] = best[field][:i] + best[field][i + n:]
                    if ok(c):
                        best, hit, changed = c, True, True
                    else:
                        i += n
                if n == 1 and not hit:
                    break
                n = max(1, n // 2)
                if n == 1 and not best[field]:
                    break
        for c in getattr(mod, 'shrink', generic_shrink)(best):
            if core.REAL['monotonic']() > end:
                break
            c = json.loads(json.dumps(c))
            if c != best and ok(c):
                best, changed = c, True
                break
    return best, tries


def generic_shrink(sc):
    """Simpler worlds, fewer faults, smaller pictures."""
    w = sc.get('world')
    if w:
        for k, v in (('max_io', 0), ('bufsize', 8192), ('dirorder', None)):
            if w.get(k, v) != v:
                yield dict(sc, world=dict(w, **{k: v}))
    for field in [f for f, v in sc.items() if isinstance(v, list)]:
        for j, op in enumerate(sc[field]):
            if not isinstance(op, dict):
                continue
            for k in ('faults', 'fault', 'stop'):
                if op.get(k):
                    o = {x: y for x, y in op.items() if x != k}
                    yield dict(sc, **{field: sc[field][:j] + [o] + sc[field][j + 1:]})
            im = op.get('img')
            if isinstance(im, dict):
                for d in ('w', 'h'):
                    for nv in (1, im[d] // 2, im[d] - 1):
                        if 0 < nv < im[d]:
                            o = dict(op, img=dict(im, **{d: nv}))
                            yield dict(sc, **{field: sc[field][:j] + [o] + sc[field][j + 1:]})
    im = sc.get('img')
    if isinstance(im, dict):
        for d in ('w', 'h'):
            for nv in (1, im[d] // 2, im[d] - 1):
                if 0 < nv < im[d]:
                    yield dict(sc, img=dict(im, **{d: nv}))


def report(mod, seed, tier, i, key, what):
    sc = scenario(mod, seed, i, tier)
    if key.endswith(':no-progress') and tier == 'quick':     # every attempt costs a minute
        small, tries = sc, 0
    else:
        small, tries = ddmin(mod, sc, key, 45 if tier == 'quick' else 120)
    got = same_failure(mod, small, key)
    if got is None:
        small = sc
        got = same_failure(mod, small, key)
    d, what = got if got else ({'digest': None}, what)
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    body = dict(property=mod.ID, seed=seed, index=i, tier=tier, key=key, violation=what,
                scenario=small, original=sc, digest=d['digest'], minimise_runs=tries)
    name = f'{mod.ID}-{hash_small([key, small]):016x}.json'
    path = os.path.join(HERE, 'replays', name)
    with core.REAL['open'](path, 'w') as f:
        json.dump(body, f, indent=1)
    return path, what, body


def probe_findings(mod):
    """Re-execute the recorded input of every known finding of this property."""
    out = []
    for f in findings()['known']:
        if f['property'] != mod.ID:
            continue
        d = run_one(mod, f['scenario'])
        keys = [k for k, _ in d.get('violations', [])] + list(d.get('known', {}))
        out.append((f, f['key'] in keys, d))
    return out


def check(pid, tier='quick', seed=None, runs=None, jobs=None, wall=None, quiet=False):
    t0 = time.monotonic()
    seed = int(os.environ.get('VERIF_SEED', '1')) if seed is None else seed
    load()
    mod = prop(pid)
    runs = runs or (mod.QUICK if tier == 'quick' else mod.THOROUGH)
    jobs = jobs or min(8, os.cpu_count() or 1)
    wall = wall or (90 if tier == 'quick' else 3000)
    print(f'{pid} {tier}: seed {seed}, {runs} simulated runs, {jobs} workers', flush=True)
    errors = []
    viol = []
    kk = known_keys(pid)
    for f, hit, d in probe_findings(mod):
        if 'harness' in d:
            errors.append(d['harness'])
        if hit:
            print(f'KNOWN-FINDING: property={pid} {f["what"]}', flush=True)
        for k, w in d.get('violations', []):
            if k not in kk:
                viol.append((f['scenario'], k, w))
    ts = time.monotonic()
    res = sweep(mod, seed, tier, runs, jobs, wall)
    ts = time.monotonic() - ts
    tot = dict(n=0, states=set(), inter=set(), tags=Counter(), faults=Counter(), probes=Counter(),
               calls=Counter(), known=Counter(), simns=0, ops=0, switches=0, nontrivial=set())
    found = []
    digests = {}
    slow = 0
    for r in res:
        if 'crash' in r:
            errors.append(r['crash'])
            continue
        errors += [f'run {i}: {h}' for i, h in r['harness']]
        found += r['viol']
        digests.update(r['digests'])
        slow = max(slow, r['slow'])
        for k in ('states', 'inter', 'nontrivial'):
            tot[k] |= r[k]
        for k in ('tags', 'faults', 'probes', 'calls', 'known'):
            tot[k].update(r[k])
        for k in ('n', 'simns', 'ops', 'switches'):
            tot[k] += r[k]
    # repeat a sample of the runs: one seed must be one execution
    mism = []
    if not found:
        for i in list(digests)[:: max(1, len(digests) // 6)][:6]:
            d = run_one(mod, scenario(mod, seed, i, tier))
            if d.get('digest') != digests[i]:
                mism.append(i)
    rc = 0
    reported = 0
    if found:
        found.sort()
        seen = set()
        for i, key, what in found:
            if key in seen or len(seen) >= 3:
                continue
            seen.add(key)
            path, what, body = report(mod, seed, tier, i, key, what)
            print(f'VIOLATION property={pid} replay={path}')
            print(f'  seed={seed} run={i} {key}: {what}', flush=True)
            reported += 1
        rc = 1
    for sc, key, what in viol:
        os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
        path = os.path.join(HERE, 'replays', f'{pid}-{hash_small([key, sc]):016x}.json')
        with core.REAL['open'](path, 'w') as f:
            json.dump(dict(property=pid, seed=seed, index=-1, tier=tier, key=key, violation=what,
                           scenario=sc, digest=None), f, indent=1)
        print(f'VIOLATION property={pid} replay={path}\n  {key}: {what}', flush=True)
        reported += 1
        rc = 1
    if errors and rc == 0:
        print('ERROR of the check, no verdict:\n' + errors[0], file=sys.stderr, flush=True)
        rc = 2
    if mism and rc == 0:
        print(f'ERROR of the check: runs {mism} did not repeat exactly', file=sys.stderr)
        rc = 2
    if tot['n'] == 0 and rc == 0:
        rc = 2
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=dict(
        evaluations=tot['n'], distinct_nontrivial=len(tot['nontrivial']), rule=mod.RULE,
        samples=[scenario(mod, seed, i, tier) for i in (0, 1, 2)],
        simulated_runs=tot['n'], library_operations=tot['ops'],
        runs_per_hour=round(tot['n'] / max(ts, .001) * 3600),
        simulated_seconds=round(tot['simns'] / 1e9, 3),
        faults_injected=dict(sorted(tot['faults'].items())),
        rare_conditions=dict(sorted(tot['probes'].items())),
        simulated_calls=dict(sorted(tot['calls'].items())),
        outcomes=dict(sorted(tot['tags'].items())),
        distinct_states=len(tot['states']), states_measure=mod.STATES,
        distinct_interleavings=len(tot['inter']), context_switches=tot['switches'],
        known_findings_seen=dict(tot['known']), slowest_run_s=round(slow, 2),
        repeated_for_determinism=6 if not found else 0, determinism_mismatches=len(mism),
        real_components=mod.REAL, stubbed_components=mod.STUB),
        assumptions=mod.ASSUME, wall_s=round(time.monotonic() - t0, 2), violations=reported)
    evdir = os.environ.get('VERIF_EVIDENCE', os.path.join(HERE, 'evidence'))
    os.makedirs(evdir, exist_ok=True)
    with core.REAL['open'](os.path.join(evdir, f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print(f'{pid}: {tot["n"]} runs, {tot["ops"]} operations, {sum(tot["faults"].values())} faults, '
          f'{len(tot["states"])} states, {len(tot["inter"])} interleavings, '
          f'{ev["wall_s"]} s, slowest {slow:.2f} s, exit {rc}', flush=True)
    return rc


def replay(path):
    load()
    with core.REAL['open'](path) as f:
        body = json.load(f)
    mod = prop(body['property'])
    d = run_one(mod, body['scenario'])
    if 'harness' in d:
        print(d['harness'], file=sys.stderr)
        return 2
    for k, what in d['violations']:
        same = 'exactly' if d['digest'] == body.get('digest') else 'with a different trace'
        if k == body['key']:
            print(f'VIOLATION property={body["property"]} replay={path}')
            print(f'  {k}: {what}\n  reproduced {same}')
            return 1
    print(f'not reproduced; now: {d["violations"]}')
    return 0


def digests(pid, seed, n):
    """Event-log digests of n runs (for the determinism self-test)."""
    load()
    mod = prop(pid)
    out = {}
    for i in range(n):
        d = run_one(mod, scenario(mod, seed, i, 'quick'))
        out[i] = d.get('digest') or d.get('harness')
    return out
