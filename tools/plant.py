"""Development helper (not used by any check): turns the bug specs of tools/bugs*.py into /verif/seeded/<id>/.

plant.py make [ids]   apply each in /repo, confirm (build, stable tests, demo fails with / passes without), keep
plant.py try [ids]    run the property's quick check against each and print whether it is caught
"""
import json, os, subprocess, sys, importlib.util, glob, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), 'seeded')
BASE = '87c2779'
PY = '/opt/venv/bin/python'

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def bugs():
    out = []
    for path in sorted(glob.glob(os.path.join(HERE, 'bugs*.py'))):
        spec = importlib.util.spec_from_file_location(os.path.basename(path)[:-3], path)
        m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
        out += m.BUGS
    rejected = open(os.path.join(HERE, 'rejected.txt')).read().split()
    out = [b for b in out if b['id'] not in rejected]
    ids = [b['id'] for b in out]
    assert len(set(ids)) == len(ids), [i for i in ids if ids.count(i) > 1]
    return out

def clean():
    sh('git -C /repo checkout -- .')
    assert not sh('git -C /repo status --porcelain').stdout.strip()

def edit(b):
    edits = b.get('edits') or [(b['file'], b['old'], b['new'])]
    for f, old, new in edits:
        p = '/repo/' + f if f.startswith('/') else ('/repo/javascript/lib/' if f.endswith('.js') else '/repo/python/enolib/') + f
        s = open(p).read()
        n = s.count(old)
        which = b.get('nth')
        if which is None:
            if n != 1:
                raise SystemExit(f"{b['id']}: {n} occurrences in {f}: {old!r}")
            s = s.replace(old, new)
        else:
            parts = s.split(old)
            s = old.join(parts[:which + 1]) + new + old.join(parts[which + 1:])
        open(p, 'w').write(s)

def original_lines(diff):
    """number of removed or context-adjacent changed lines that stem from the original repository"""
    f = None; old = 0; orig = 0; mine = 0
    for l in diff.splitlines():
        if l.startswith('--- '):
            f = l[6:]
        elif l.startswith('@@'):
            old = int(l.split()[1][1:].split(',')[0])
        elif l.startswith('-'):
            h = sh(f"git -C /repo blame -s -l -L {old},{old} HEAD -- {f}").stdout.split()[0]
            if h.startswith('^') or sh(f"git -C /repo merge-base --is-ancestor {h.lstrip('^')} {BASE}").returncode == 0:
                orig += 1
            else:
                mine += 1
            old += 1
        elif l.startswith(' '):
            old += 1
    return orig, mine

def stable():
    with tempfile.TemporaryDirectory() as d:
        if sh('bash /opt/vp/build.sh').returncode:
            return 'build failed'
        sh(f'bash /opt/vp/test.sh {d}/o.json')
        base = json.load(open('/opt/vp/BASELINE.json')); got = json.load(open(f'{d}/o.json'))
        want = set(base['stable'])
        passed = set(got.get('passed') or [k for k, v in got.get('tests', {}).items() if v == 'passed'])
        lost = want - passed
        return f'{len(lost)} stable tests fail, e.g. {sorted(lost)[:1]}' if lost else ''

DEMO = '''#!/bin/bash
# run with cwd /repo after the build: exit 0 when the property holds, nonzero when it is broken
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/python" exec timeout 200 /opt/venv/bin/python "$here/demo.py"
'''
MSG = "import enolib\n"
DEMO_JS = '''#!/bin/bash
# run with cwd /repo after the build: exit 0 when the property holds, nonzero when it is broken
here="$(cd "$(dirname "$0")" && pwd)"
exec timeout 200 node "$here/demo.js" "$PWD"
'''
MSG_JS = '''const assert = require('assert');
const enolib = require(process.argv[2] + '/javascript/lib/main.js');
const thrown = f => { try { f(); } catch(e) { return e; } return null; };
'''

def make(b):
    d = os.path.join(SEEDED, b['id'])
    clean()
    os.makedirs(d, exist_ok=True)
    js = (b.get('file') or b['edits'][0][0]).endswith('.js') and 'demo_py' not in b
    open(f'{d}/demo.' + ('js' if js else 'py'), 'w').write((MSG_JS if js else MSG) + b['demo'].strip('\n') + '\n')
    open(f'{d}/demo.sh', 'w').write(DEMO_JS if js else DEMO)
    r0 = sh(f'bash {d}/demo.sh', cwd='/repo')
    try:
        edit(b)
        diff = sh('git -C /repo diff').stdout
        o, m = original_lines(diff)
        t = stable()
        r1 = sh(f'bash {d}/demo.sh', cwd='/repo')
    finally:
        clean()
    bad = []
    if r0.returncode: bad.append('demo fails on clean: ' + r0.stderr[-300:])
    if not r1.returncode: bad.append('demo passes with the bug')
    if t: bad.append(t)
    if not o: bad.append('no original line changed')
    if bad:
        sh(f'rm -r {SEEDED}/{b["id"]}')
        print(b['id'], 'REJECTED:', '; '.join(bad), flush=True)
        return
    open(f'{d}/patch.diff', 'w').write(diff)
    json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
    print(b['id'], f'kept (original lines {o}, mine {m})', (r1.stderr.strip().splitlines() or [''])[-1][:120], flush=True)

def attempt(name, tier='quick', props=None):
    """runs the checks against a copy of /repo with the bug applied"""
    d = os.path.join(SEEDED, name)
    meta = json.load(open(f'{d}/meta.json'))
    with tempfile.TemporaryDirectory(prefix='planted') as t:
        sh(f'git -C /repo archive HEAD | tar -x -C {t}')
        r = sh(f'git apply {d}/patch.diff', cwd=t)
        assert r.returncode == 0, r.stderr
        for prop in props or [meta['property']]:
            r = sh(f'ENOLIB_REPO={t} VERIF_SEED=1 {PY} -B run.py {prop} --tier {tier}', cwd='/verif')
            hit = r.returncode == 1 and f'VIOLATION property={prop}' in r.stdout
            print(name, prop, 'CAUGHT' if hit else f'MISSED (exit {r.returncode})', (r.stdout.strip().splitlines() or [''])[0][:150] if hit else (r.stderr[-200:]), flush=True)

if __name__ == '__main__':
    cmd, ids = sys.argv[1], sys.argv[2:]
    if cmd == 'make':
        for b in bugs():
            if (not ids and not os.path.exists(f"{SEEDED}/{b['id']}/patch.diff")) or b['id'] in ids:
                make(b)
    elif cmd == 'try':
        for name in ids or sorted(os.listdir(SEEDED)):
            if os.path.exists(f'{SEEDED}/{name}/patch.diff'):
                attempt(name)
    elif cmd == 'all':
        for name in ids or sorted(os.listdir(SEEDED)):
            if os.path.exists(f'{SEEDED}/{name}/patch.diff'):
                attempt(name, props=[f'C{i:02d}' for i in range(1, 39)])
