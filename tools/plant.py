#!/usr/bin/env python3
"""Try out planted bugs in a scratch copy of /repo and keep the ones that count.

  plant.py FILE [ID ...]     FILE holds BUGS = [dict(id=, property=, edits=[(file, old, new)],
                             demo=..., needs=..., breaks=...)]; keeps /verif/seeded/<id>/
  plant.py --caught [ID ...] run the checks against the kept bugs (--all: every check)
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

V = '/verif'
BASE = '8a472d6'      # the repository as first given


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def copy():
    d = tempfile.mkdtemp(prefix='plant')
    sh(f'cp -a /repo {d}/repo')
    return d, d + '/repo'


def stable(repo):
    """Names of stable tests that do not pass in the copy (run like test.sh)."""
    base = json.load(open('/opt/vp/BASELINE.json'))
    names = base['stable']
    t = open('/opt/vp/test.sh').read().replace('/opt/vp/reports', '@R').replace('/repo', repo).replace('@R', repo + '/../rep')
    out = repo + '/../out.json'
    s = repo + '/../test.sh'
    open(s, 'w').write(t)
    r = sh(f'bash {s} {out}')
    try:
        got = json.load(open(out))
    except OSError:
        return ['no result: ' + r.stdout[-300:] + r.stderr[-300:]]
    ok = got.get('passed', got)
    return [n for n in names if n not in ok]


def keep(b):
    d, repo = copy()
    try:
        for f, old, new in b['edits']:
            p = f'{repo}/{f}'
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
            if s.count(old) != 1:
                return f'old text occurs {s.count(old)} times in {f}'
            open(p, 'w', newline='').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', repo, 'diff', '--binary'], capture_output=True).stdout
        for f in {f for f, _, _ in b['edits']}:
            orig = set(subprocess.run(['git', '-C', repo, 'show', f'{BASE}:{f}'], capture_output=True).stdout.splitlines())
            cut = [l[1:] for l in subprocess.run(['git', '-C', repo, 'diff', f], capture_output=True).stdout.splitlines()
                   if l[:1] == b'-' and l[:3] != b'---' and l[1:].strip()]
            if any(l not in orig for l in cut):
                return f'{f}: changes lines that are not original: {[l for l in cut if l not in orig][:2]}'
        dst = f'{d}/bug'
        os.makedirs(dst)
        open(dst + '/patch.diff', 'wb').write(diff)
        open(dst + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
        open(dst + '/demo.sh', 'w').write('#!/bin/sh\nexec python3 -B "$(dirname "$0")/demo.py"\n')
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
                  open(dst + '/meta.json', 'w'), indent=1)
        r = sh(f'bash {dst}/demo.sh', cwd='/repo')
        if r.returncode:
            return 'demo fails on the unchanged tree: ' + r.stdout[-600:] + r.stderr[-600:]
        r = sh(f'bash {dst}/demo.sh', cwd=repo)
        if r.returncode == 0:
            return 'demo passes with the change'
        why = (r.stdout + r.stderr).strip().splitlines()[-1:]
        bad = stable(repo)
        if bad:
            return f'tests notice it: {bad[:4]}'
        t = f'{V}/seeded/{b["id"]}'
        if os.path.isdir(t):
            shutil.rmtree(t)
        shutil.copytree(dst, t)
        return f'kept ({why})'
    finally:
        shutil.rmtree(d)


def caught(ids, every):
    from concurrent.futures import ThreadPoolExecutor
    m = json.load(open(f'{V}/MANIFEST.json'))
    checks = [c["property"] for c in m["checks"]]
    for i in ids or sorted(os.listdir(f'{V}/seeded')):
        meta = json.load(open(f'{V}/seeded/{i}/meta.json'))
        d, repo = copy()
        try:
            r = sh(f'git -C {repo} apply {V}/seeded/{i}/patch.diff')
            if r.returncode:
                print(i, 'does not apply', r.stderr[-200:])
                continue
            hit = []
            for c in (checks if every else [meta['property']]):
                env = dict(os.environ, VERIF_REPO=repo, VERIF_EVIDENCE=d, VERIF_SEED='1')
                r = sh(f'python3 -B {V}/check.py run {c} --tier quick', env=env)
                hit.append(f'{c}={r.returncode}' if every else
                           (f'CAUGHT {c}: ' if r.returncode == 1 else f'missed {c} rc={r.returncode} ')
                           + ' '.join(l for l in r.stdout.splitlines() if 'VIOLATION' in l)[:160])
            print(i, meta['property'], *hit, flush=True)
        finally:
            shutil.rmtree(d)


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == '--caught':
        every = '--all' in a
        caught([x for x in a[1:] if not x.startswith('-')], every)
    else:
        for b in runpy.run_path(a[0])['BUGS']:
            if len(a) == 1 or b['id'] in a[1:]:
                print(b['id'], keep(b), flush=True)
