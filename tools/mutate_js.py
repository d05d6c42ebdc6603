"""Development helper: mutation analysis of the JavaScript checks. tools/mutants.js > IN; mutate_js.py IN OUT [divisor]"""
import json, os, random, shutil, subprocess, sys, tempfile, queue
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/javascript/lib'
PY = '/opt/venv/bin/python'
JOBS = int(os.environ.get('JOBS', 8))
ORDER = 'C25 C30 C27 C26 C33 C29 C28 C31 C32 C37 C34 C35'.split()
FIRST = {'lookup.js': 'C30 C33', 'reporters/': 'C29', 'errors/': 'C29 C25 C27', 'resolve.js': 'C26 C30', 'register.js': 'C31', 'analyze.js': 'C25 C30 C29',
         'elements/': 'C27 C28 C33', 'context.js': 'C30 C29 C25', 'messages/': 'C32', 'error_types.js': 'C29', 'elements/missing': 'C27 C33'}
DRIVER = '''
import sys, os, itertools
sys.dont_write_bytecode = True
os.environ['VERIF_IMPL'] = 'js'
sys.path.insert(0, os.path.join(os.getcwd(), 'lib'))
import checks, harness, javascript
div = int(sys.argv[1])
harness.shrink = lambda check, case, what: (case, what)
for name in sys.argv[2].split():
    c = checks.CHECKS[name]
    c.quick = max(60, c.quick // div)
    c.enumerate = (lambda old: lambda tier: itertools.islice(old(tier), None, None, max(1, div // 4)))(c.enumerate)
    c.floors = {}
    pid = os.fork()
    if not pid:
        try:
            code = harness.run(c, 'quick', 1, workers=1)
        except BaseException:
            import traceback; traceback.print_exc(); code = 3
        sys.stdout.flush(); os._exit(code)
    _, st = os.waitpid(pid, 0)
    if st:
        print('RESULT', name, st >> 8, flush=True)
        break
'''


def order(f):
    first = []
    for k in FIRST:
        if f.startswith(k):
            first = FIRST[k].split()
    return ' '.join(first + [c for c in ORDER if c not in first])


def main(inp, outp, div=24):
    done = {json.loads(l)['id'] for l in open(outp)} if os.path.exists(outp) else set()
    items = [m for m in map(json.loads, open(inp)) if m['id'] not in done]
    random.Random(5).shuffle(items)
    root = tempfile.mkdtemp(prefix='jsmut')
    dirs = queue.Queue()
    for i in range(JOBS):
        d = f'{root}/{i}'
        os.makedirs(d)
        for x in ('javascript', 'locales', 'python'):
            shutil.copytree(f'/repo/{x}', f'{d}/{x}', symlinks=True, ignore=shutil.ignore_patterns('__pycache__'))
        shutil.copytree(HERE, f'{d}/verif', ignore=shutil.ignore_patterns('seeded', '.git', 'evidence', '__pycache__'))
        os.makedirs(f'{d}/verif/evidence')
        dirs.put(d)

    def work(m):
        d = dirs.get()
        p = f"{d}/javascript/lib/{m['file']}"
        keep = open(p).read()
        try:
            open(p, 'w').write(m['text'])
            r = subprocess.run([PY, '-B', '-c', DRIVER, str(div), order(m['file'])], cwd=f'{d}/verif', capture_output=True, text=True, timeout=1200,
                               env=dict(os.environ, ENOLIB_REPO=d, VERIF_SEED='1'))
            res = [l for l in r.stdout.splitlines() if l.startswith('RESULT')]
            return m, (res[0][7:] if res else 'none'), r.stderr[-400:]
        except subprocess.TimeoutExpired:
            return m, 'timeout', ''
        finally:
            open(p, 'w').write(keep)
            dirs.put(d)
    try:
        with open(outp, 'a') as out, ThreadPoolExecutor(JOBS) as ex:
            for m, res, err in ex.map(work, items):
                m.pop('text')
                out.write(json.dumps(dict(m, result=res, err=err)) + '\n'); out.flush()
    finally:
        shutil.rmtree(root)


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2], int(sys.argv[3]) if len(sys.argv) > 3 else 24)
