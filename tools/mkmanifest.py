"""Writes MANIFEST.json from the check modules (run: python3 tools/mkmanifest.py)."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
NA = json.load(open(H + '/tools/not_applicable.json'))
checks = []
na = []
for p in props:
    i = p['id']
    f = f'{H}/dst/props/{i.lower()}.py'
    if i in NA:
        na.append(dict(property=i, reason=NA[i]))
    elif os.path.exists(f):
        s = open(f).read()
        n = re.search(r"^NOTE = \((.*?)\)$", s, re.S | re.M)
        note = eval('(' + n.group(1) + ')') if n else ''
        checks.append(dict(
            property=i, quick_cmd=f'python3 check.py run {i} --tier quick',
            thorough_cmd=f'python3 check.py run {i} --tier thorough',
            evidence_file=f'evidence/{i}.json',
            technique='deterministic simulation with fault injection: seeded search over '
                      + re.search(r"^TECH = '(.*)'$", s, re.M).group(1),
            level='exploration',
            level_note='Sampled executions, not a proof: a clean batch is evidence. ' + note))
    else:
        na.append(dict(property=i, reason='no check built yet'))
m = dict(version=1, setup_cmd='python3 -B -c "import sys; sys.exit(sys.version_info < (3, 10))"',
         checks=checks, not_applicable=na,
         notes='No hooks were added to the repository: every seam (open/os/time/random/subprocess/sys.stdout/'
               'threading and line tracing) is taken from outside. check.py replay FILE re-executes a replay '
               'file; check.py selftest proves that a seed is one execution.')
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
