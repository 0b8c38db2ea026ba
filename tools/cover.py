"""Which lines of the library each check executes: cover.py OUT.json [SHARE] [Cxx...]

Runs SHARE (default .15) of each check's quick runs in this process tree and
records executed lines with sys.monitoring (which the tracer of the simulator
does not use).  A development aid, not a check.
"""
import json, os, sys, ast, tempfile, pickle
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from dst import core, runner
core.install()
MON = sys.monitoring
REPO = os.environ.get('VERIF_REPO', '/repo')


def work(pid, w, k, share, path):
    lines = {}
    MON.use_tool_id(4, 'cov')

    def on(code, line):
        f = code.co_filename
        if f.startswith(REPO):
            lines.setdefault(f[len(REPO) + 1:], set()).add(line)
        return MON.DISABLE
    MON.register_callback(4, MON.events.LINE, on)
    runner.load()
    mod = runner.prop(pid)
    MON.set_events(4, MON.events.LINE)
    for i in range(w, int(mod.QUICK * share), k):
        try:
            sc = runner.scenario(mod, 1, i, 'quick')
            runner.run_here(mod, sc)
        except Exception as e:
            print(pid, i, repr(e)[:100])
    MON.set_events(4, 0)
    with core.REAL['open'](path, 'wb') as f:
        f.write(pickle.dumps(lines))


def main():
    out, share = sys.argv[1], float(sys.argv[2]) if len(sys.argv) > 2 else .15
    ids = sys.argv[3:] or sorted(f[:-3].upper() for f in os.listdir(H + '/dst/props') if f[0] == 'c' and f[1:3].isdigit())
    tmp = tempfile.mkdtemp()
    res = {}
    for pid in ids:
        kids = []
        for w in range(8):
            p = os.fork()
            if p == 0:
                try:
                    work(pid, w, 8, share, f'{tmp}/{pid}{w}')
                finally:
                    os._exit(0)
            kids.append(p)
        for p in kids:
            os.waitpid(p, 0)
        tot = {}
        for w in range(8):
            try:
                with core.REAL['open'](f'{tmp}/{pid}{w}', 'rb') as f:
                    for k, v in pickle.loads(f.read()).items():
                        tot.setdefault(k, set()).update(v)
            except OSError:
                print(pid, w, 'no result')
        res[pid] = {k: sorted(v) for k, v in tot.items()}
        print(pid, {k: len(v) for k, v in tot.items()}, flush=True)
    with core.REAL['open'](out, 'w') as f:
        json.dump(res, f)


main()
