#!/usr/bin/env python3
"""Deterministic simulation of pythonbmp: entry point of every check.

  check.py run C01 [--tier quick|thorough] [--seed N] [--runs N] [--jobs N] [--wall S]
  check.py replay FILE
  check.py selftest [C01 ...] [--runs N]      same seed, same execution?
  check.py digests C01 SEED N                 (used by selftest)
"""
import os
import sys

if os.environ.get('PYTHONHASHSEED') is None or sys.flags.dont_write_bytecode == 0:
    os.environ.setdefault('PYTHONHASHSEED', '0')
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def opt(name, default=None, conv=str):
    if name in sys.argv:
        i = sys.argv.index(name)
        v = conv(sys.argv[i + 1])
        del sys.argv[i:i + 2]
        return v
    return default


def selftest(ids, n):
    import json
    import subprocess
    from concurrent.futures import ThreadPoolExecutor
    bad = 0

    def one(job):
        pid, seed, hs = job
        env = dict(os.environ, PYTHONHASHSEED=str(hs), PYTHONDONTWRITEBYTECODE='1')
        return json.loads(subprocess.run(
            [sys.executable, '-B', __file__, 'digests', pid, str(seed), str(n)],
            env=env, stdout=subprocess.PIPE, check=True).stdout)
    jobs = [(p, s, h) for p in ids for s in (1, 2, 3) for h in (0, 0, 12345)]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    for k in range(0, len(jobs), 3):
        a, b, c = res[k:k + 3]
        d = [i for i in a if not a[i] == b[i] == c[i]]
        if d:
            bad += 1
            print(f'{jobs[k][0]} seed {jobs[k][1]}: runs {d} differ between processes')
    print(f'selftest: {len(jobs) * n} runs of {len(ids)} checks, {bad} batches differ')
    return 1 if bad else 0


def main():
    tier = opt('--tier', os.environ.get('VERIF_TIER', 'quick'))
    seed = opt('--seed', None, int)
    runs = opt('--runs', None, int)
    jobs = opt('--jobs', None, int)
    wall = opt('--wall', None, float)
    cmd = sys.argv[1] if len(sys.argv) > 1 else ''
    from dst import core
    core.install()
    from dst import runner
    if cmd == 'run':
        return runner.check(sys.argv[2].upper(), tier, seed, runs, jobs, wall)
    if cmd == 'replay':
        return runner.replay(sys.argv[2])
    if cmd == 'digests':
        import json
        print(json.dumps(runner.digests(sys.argv[2], int(sys.argv[3]), int(sys.argv[4]))))
        return 0
    if cmd == 'selftest':
        ids = sys.argv[2:] or [f[:-3].upper() for f in sorted(os.listdir(HERE + '/dst/props'))
                               if f.startswith('c') and f.endswith('.py') and f != 'common.py']
        return selftest(ids, runs or 20)
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
