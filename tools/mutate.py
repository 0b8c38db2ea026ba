"""Mutation runs: which small edits of the library does no check notice?

mutate.py COV.json OUT.jsonl N SEED [FILE...]
Draws N single-edit mutants of covered lines, runs a share of each relevant
check's quick runs against each in a scratch copy, and writes one line per
mutant.  A development aid, not a check.
"""
import ast, json, os, random, shutil, signal, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
SWAP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '=='}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.LShift: '>>', ast.RShift: '<<', ast.BitAnd: '|', ast.BitOr: '&',
       ast.FloorDiv: '*', ast.Div: '*', ast.Mod: '*', ast.BitXor: '|'}


def mutants(path, covered):
    """[(first line, last line, replacement text, label)]"""
    src = open(path).read()
    lines = src.split('\n')
    tree = ast.parse(src)
    out = []

    def seg(n):
        return ast.get_source_segment(src, n)

    def add(n, new, label):
        if n.lineno in covered or getattr(n, 'end_lineno', 0) in covered:
            out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, new, label))
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef):
            continue
        for d in fn.decorator_list:
            if isinstance(d, ast.Name):
                out.append((d.lineno, d.col_offset, d.end_lineno, d.end_col_offset, '(lambda f: f)', f'decorator {d.id} of {fn.name}'))
        for n in ast.walk(fn):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
                add(n, f'({seg(n.left)} {SWAP[type(n.ops[0])]} {seg(n.comparators[0])})', 'cmp')
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                    add(n, f'(({seg(n.left)}) {BIN[type(n.op)]} ({seg(n.right)}))', 'bin')
            elif isinstance(n, ast.Constant) and type(n.value) is int:
                add(n, f'{n.value + 1}', 'const+1')
                add(n, f'({n.value - 1})', 'const-1')
            elif isinstance(n, ast.BoolOp):
                o = ' or ' if isinstance(n.op, ast.And) else ' and '
                add(n, '(' + o.join(f'({seg(v)})' for v in n.values) + ')', 'bool')
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                add(n, f'({seg(n.operand)})', 'unary')
            elif isinstance(n, (ast.If, ast.IfExp)):
                add(n.test, 'True', 'iftrue')
                add(n.test, 'False', 'iffalse')
            elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                i = random.Random(n.lineno * 99 + n.col_offset).randrange(len(n.args) - 1)
                a, b = n.args[i], n.args[i + 1]
                if seg(a) != seg(b):
                    out.append((a.lineno, a.col_offset, b.end_lineno, b.end_col_offset, f'{seg(b)}, {seg(a)}', 'swapargs')) \
                        if a.lineno in covered or n.lineno in covered else None
            elif isinstance(n, (ast.Expr, ast.AugAssign)) and not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                add(n, 'pass', 'drop')
            elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Subscript,)):
                add(n, 'pass', 'drop')
            elif isinstance(n, ast.Break):
                add(n, 'pass', 'drop')
    return lines, out


def apply(lines, m):
    a, ca, b, cb, new, _ = m
    L = list(lines)
    # columns are utf-8 offsets; the sources are ascii on code lines
    L[a - 1:b] = [L[a - 1][:ca] + new + L[b - 1][cb:]]
    return '\n'.join(L)


WORKER = '''
import os, sys, json
sys.path.insert(0, {H!r})
from dst import core, runner
core.install()
runner.load()
ids, share = json.loads(sys.argv[1]), float(sys.argv[2])
for pid in ids:
    mod = runner.prop(pid)
    known = runner.known_keys(pid)
    n = max(60, int(mod.QUICK * share))
    for i in range(n):
        sc = runner.scenario(mod, 7, i, 'quick')
        d = runner.run_one(mod, sc)
        if 'harness' in d:
            print('HARNESS', pid, i, d['harness'][-200:].replace(chr(10), ' ')); os._exit(3)
        bad = [k for k, v in d['violations'] if k not in known]
        if bad:
            print('KILL', pid, i, bad[0]); os._exit(1)
print('SURVIVED'); os._exit(0)
'''


def main():
    cov = json.load(open(sys.argv[1]))
    outp, N, seed = sys.argv[2], int(sys.argv[3]), sys.argv[4]
    files = sys.argv[5:]
    share = float(os.environ.get('SHARE', '.06'))
    rng = random.Random(seed)
    hit = {}
    for pid, d in cov.items():
        for f, ls in d.items():
            for l in ls:
                hit.setdefault((f, l), []).append(pid)
    pool = []
    for f in sorted({f for f, _ in hit}):
        if files and os.path.basename(f) not in files:
            continue
        covered = {l for g, l in hit if g == f}
        lines, ms = mutants(f'{REPO}/{f}', covered)
        pool += [(f, m) for m in ms]
    print(len(pool), 'mutants possible')
    rng.shuffle(pool)
    if os.environ.get('EACH'):                           # as many of every function
        seen, tops = {}, {}

        def turn(fm):
            f, m = fm
            if f not in tops:
                tops[f] = [(n.lineno, n.end_lineno, n.name) for n in ast.parse(open(f'{REPO}/{f}').read()).body
                           if isinstance(n, ast.FunctionDef)]
            name = next((n for a, b, n in tops[f] if a <= m[0] <= b), '')
            seen[f, name] = seen.get((f, name), 0) + 1
            return seen[f, name]
        pool = [fm for _, fm in sorted(((turn(fm), fm) for fm in pool), key=lambda t: t[0])]
    todo = pool[:N]
    done = set()
    if os.path.exists(outp):
        done = {tuple(json.loads(l)['id']) for l in open(outp)}
    kids = {}
    free = list(range(int(os.environ.get('JOBS', 8))))
    roots = {}
    order = ['C21', 'C20', 'C05', 'C06', 'C07', 'C18', 'C19', 'C17', 'C12', 'C09', 'C14', 'C16', 'C15', 'C13', 'C01', 'C02', 'C08', 'C03', 'C04', 'C10', 'C11', 'C22']
    heavy = {'C08', 'C03', 'C04', 'C10', 'C11', 'C01', 'C02'}
    stats = {}

    def reap(block):
        for w, (p, rec, t) in list(kids.items()):
            try:
                o, _ = p.communicate(timeout=150 if block else .02)
            except subprocess.TimeoutExpired:
                import time
                if time.time() - t < 240:
                    continue
                p.kill(); o = 'TIMEOUT'
            o = (o or '').strip().split('\n')[-1] or f'died {p.returncode}'
            rec['result'] = o
            stats[o.split()[0]] = stats.get(o.split()[0], 0) + 1
            with open(outp, 'a') as fo:
                fo.write(json.dumps(rec) + '\n')
            del kids[w]
            free.append(w)
    import time
    for k, (f, m) in enumerate(todo):
        mid = (f, m[0], m[1], m[4][:60], m[5])
        if mid in done:
            continue
        while not free:
            reap(False)
        w = free.pop()
        if w not in roots:
            roots[w] = tempfile.mkdtemp(prefix='mut')
            shutil.copytree(REPO + '/pythonbmp', roots[w] + '/pythonbmp')
            shutil.copy(REPO + '/mspaint.py', roots[w])
            shutil.copytree(REPO + '/samples', roots[w] + '/samples')
            shutil.copytree(REPO + '/mspaint', roots[w] + '/mspaint') if os.path.isdir(REPO + '/mspaint') else None
            os.makedirs(roots[w] + '/tests', exist_ok=True)
        root = roots[w]
        for g in os.listdir(REPO + '/pythonbmp'):
            if g.endswith('.py'):
                shutil.copy(f'{REPO}/pythonbmp/{g}', f'{root}/pythonbmp/{g}')
        shutil.copy(REPO + '/mspaint.py', root)
        lines = open(f'{REPO}/{f}').read().split('\n')
        new = apply(lines, m)
        try:
            compile(new, f, 'exec')
        except SyntaxError:
            free.append(w)
            continue
        open(f'{root}/{f}', 'w').write(new)
        ids = set()
        for l in range(m[0], m[2] + 1):
            ids |= set(hit.get((f, l), ()))
        # decorators and signatures run at import: use what runs the lines below
        l = m[2]
        while not ids and l < m[2] + 60:
            l += 1
            ids |= set(hit.get((f, l), ()))
        ids = sorted(ids, key=order.index)
        rec = dict(id=list(mid), old='\n'.join(lines[m[0] - 1:m[2]]).strip()[:160], checks=ids)
        p = subprocess.Popen([sys.executable, '-B', '-c', WORKER.format(H=H), json.dumps(ids), str(share)], text=True,
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=dict(os.environ, VERIF_REPO=root))
        kids[w] = (p, rec, time.time())
        if k % 100 == 0:
            print(k, stats, flush=True)
    while kids:
        reap(False)
    print(stats)
    for r in roots.values():
        shutil.rmtree(r)


if __name__ == "__main__":
    main()
