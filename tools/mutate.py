"""Development helper (not used by any check): mutation analysis of the checks themselves.

mutate.py list                 print every mutant
mutate.py survivors OUT        mutants that build and pass the stable tests -> OUT (json lines)
mutate.py judge IN OUT [div]   run the quick checks (budget divided by div) on each survivor in a scratch copy, first catch wins
"""
import ast, copy, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = '/repo/python/enolib'
PY = '/opt/venv/bin/python'
JOBS = int(os.environ.get('JOBS', 8))


def files():
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            if f.endswith('.py'):
                yield os.path.relpath(os.path.join(d, f), SRC)


CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add]}


def variants(node):
    """yields (description, function mutating a copy of the node in place or returning a replacement)"""
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        for o in CMP.get(type(node.ops[0]), []):
            n = copy.deepcopy(node); n.ops = [o()]
            yield o.__name__, n
    if isinstance(node, ast.BinOp):
        for o in BIN.get(type(node.op), []):
            n = copy.deepcopy(node); n.op = o()
            yield o.__name__, n
    if isinstance(node, ast.BoolOp):
        n = copy.deepcopy(node); n.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
        yield 'andor', n
        for i in range(len(node.values)):
            n = copy.deepcopy(node); del n.values[i]
            yield f'drop operand {i}', n if len(n.values) > 1 else n.values[0]
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        yield 'drop not', copy.deepcopy(node.operand)
    if isinstance(node, ast.Constant):
        if isinstance(node.value, bool):
            yield 'flip', ast.Constant(not node.value)
        elif isinstance(node.value, int):
            yield '+1', ast.Constant(node.value + 1)
            yield '-1', ast.Constant(node.value - 1)
        elif node.value is None:
            yield 'None->0', ast.Constant(0)
        elif isinstance(node.value, str) and node.value:
            yield 'empty string', ast.Constant('')
    if isinstance(node, ast.IfExp):
        yield 'then', copy.deepcopy(node.body)
        yield 'else', copy.deepcopy(node.orelse)
    if isinstance(node, (ast.If, ast.While)):
        n = copy.deepcopy(node); n.test = ast.UnaryOp(ast.Not(), n.test)
        yield 'negate', n
        if isinstance(node, ast.If):
            n = copy.deepcopy(node); n.test = ast.Constant(True)
            yield 'always', n
            n = copy.deepcopy(node); n.test = ast.Constant(False)
            yield 'never', n
    if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Raise, ast.For, ast.Continue, ast.Break)):
        if not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
            yield 'delete', ast.Pass()
    if isinstance(node, ast.Return) and node.value is not None:
        yield 'return None', ast.Return(ast.Constant(None))
    if isinstance(node, ast.Call):
        if len(node.args) >= 1 and isinstance(node.func, ast.Attribute) and node.func.attr in ('strip', 'rstrip', 'lstrip', 'replace', 'escape'):
            yield 'drop call', copy.deepcopy(node.func.value if node.func.attr != 'escape' else node.args[0])
        for i in range(len(node.keywords)):
            n = copy.deepcopy(node); del n.keywords[i]
            yield f'drop keyword {i}', n
    if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
        for part in ('lower', 'upper'):
            if getattr(node.slice, part) is not None:
                n = copy.deepcopy(node); setattr(n.slice, part, None)
                yield 'no ' + part, n


class Swap(ast.NodeTransformer):
    def __init__(self, target, new):
        self.target, self.new = target, new

    def visit(self, node):
        if node is self.target:
            return ast.copy_location(self.new, node)
        return self.generic_visit(node)


def mutants():
    n = 0
    for f in files():
        text = open(os.path.join(SRC, f)).read()
        tree = ast.parse(text)
        inner = set()
        for node in ast.walk(tree):
            for child in ast.walk(node) if isinstance(node, (ast.JoinedStr,)) else ():
                if child is not node and isinstance(child, ast.Constant):
                    inner.add(id(child))
        base = ast.unparse(tree)
        for node in list(ast.walk(tree)):
            if id(node) in inner or isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
                continue
            for what, new in variants(node):
                t = copy.deepcopy(tree)
                # the copy has the same shape: find the node by position in walk order
                index = [i for i, x in enumerate(ast.walk(tree)) if x is node][0]
                target = list(ast.walk(t))[index]
                t = ast.fix_missing_locations(Swap(target, new).visit(t))
                try:
                    out = ast.unparse(t)
                    ast.parse(out)
                except Exception:
                    continue
                if out == base:
                    continue
                n += 1
                yield {'id': n, 'file': f, 'line': node.lineno, 'what': what, 'old': ast.unparse(node)[:160], 'new': ast.unparse(new)[:160], 'text': out}


def stable_names():
    return set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def copies(n):
    root = tempfile.mkdtemp(prefix='mut')
    out = []
    for i in range(n):
        d = f'{root}/{i}'
        os.makedirs(d)
        shutil.copytree('/repo/python', f'{d}/python', ignore=shutil.ignore_patterns('.git', '__pycache__', 'node_modules'))
        for x in ('locales', 'specs'):
            if os.path.exists(f'/repo/{x}'):
                shutil.copytree(f'/repo/{x}', f'{d}/{x}')
        shutil.copytree(HERE, f'{d}/verif', ignore=shutil.ignore_patterns('seeded', '.git', 'evidence', '__pycache__'))
        os.makedirs(f'{d}/verif/evidence')
        out.append(d)
    return root, out


def with_mutant(d, m, call):
    p = f"{d}/python/enolib/{m['file']}"
    keep = open(f"{SRC}/{m['file']}").read()
    open(p, 'w').write(m['text'])
    try:
        return call()
    finally:
        open(p, 'w').write(keep)


def pool(items, work):
    import queue, threading
    root, dirs = copies(JOBS)
    q = queue.Queue()
    for d in dirs:
        q.put(d)
    def one(x):
        d = q.get()
        try:
            return work(d, x)
        finally:
            q.put(d)
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            yield from ex.map(one, items)
    finally:
        shutil.rmtree(root)


def passes(d, m):
    def call():
        try:
            r = subprocess.run([PY, '-B', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', '--timeout=30', '--ignore=tests/test_parse.py', '--deselect-from-file=/dev/null'][:-1],
                               cwd=f'{d}/python', capture_output=True, text=True, timeout=90, env=dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1'))
        except subprocess.TimeoutExpired:
            return m, False
        return m, r.returncode == 0
    return with_mutant(d, m, call)


ORDER = 'C16 C03 C09 C13 C20 C15 C02 C08 C07 C06 C04 C05 C14 C22 C21 C10 C11 C12 C17 C18 C01 C23 C19 C24'.split()
FIRST = {'lookup.py': 'C15 C20 C18', 'elements/element.py': 'C15 C20 C18', 'reporters/html_reporter.py': 'C21', 'reporters/terminal_reporter.py': 'C21', 'reporters/reporter.py': 'C14 C21',
         'reporters/text_reporter.py': 'C14', 'errors/selections.py': 'C13 C14', 'errors/validation.py': 'C09 C22 C13', 'errors/parsing.py': 'C02 C08', 'resolver.py': 'C07 C06 C08 C16',
         'register.py': 'C17', 'analyzer.py': 'C02 C03 C15 C13', 'elements/section.py': 'C09 C11 C12', 'elements/section_element.py': 'C09 C11 C22 C18', 'elements/fieldset.py': 'C09 C11 C12',
         'messages/de.py': 'C18', 'messages/es.py': 'C18', 'messages/en.py': 'C18', 'error_types.py': 'C13', 'elements/missing/missing_section.py': 'C10'}


def order(f):
    first = FIRST.get(f, '').split()
    return ' '.join(first + [c for c in ORDER if c not in first])


DRIVER = '''
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), 'lib'))
import checks, harness
div = int(sys.argv[1])
order = sys.argv[2].split()
for name in order:
    c = checks.CHECKS[name]
    c.quick = max(160, c.quick // div)
    c.enumerate = (lambda old: lambda tier: __import__('itertools').islice(old(tier), None, None, max(1, div // 4)))(c.enumerate)
    c.floors = {}
    pid = os.fork()
    if not pid:
        try:
            code = harness.run(c, 'quick', 1, workers=int(sys.argv[3]))
        except BaseException:
            import traceback; traceback.print_exc(); code = 3
        sys.stdout.flush(); os._exit(code)
    _, st = os.waitpid(pid, 0)
    if st:
        print('RESULT', name, st >> 8, flush=True)
        break
'''


def judge(d, m, div, workers):
    def call():
        try:
            r = subprocess.run([PY, '-B', '-c', DRIVER, str(div), order(m['file']), str(workers)], cwd=f'{d}/verif', capture_output=True, text=True, timeout=3000,
                               env=dict(os.environ, ENOLIB_REPO=d, VERIF_SEED='1'))
        except subprocess.TimeoutExpired:
            return m, 'timeout', ''
        res = [l for l in r.stdout.splitlines() if l.startswith('RESULT')]
        return m, (res[0][7:] if res else 'none'), r.stderr[-300:]
    return with_mutant(d, m, call)


if __name__ == '__main__':
    cmd = sys.argv[1]
    if cmd == 'list':
        for m in mutants():
            print(m['id'], m['file'], m['line'], m['what'], '|', m['old'].replace('\n', '⏎'), '=>', m['new'].replace('\n', '⏎'))
    elif cmd == 'survivors':
        with open(sys.argv[2], 'w') as out:
            n = 0
            for m, ok in pool(list(mutants()), passes):
                n += 1
                if ok:
                    out.write(json.dumps(m) + '\n'); out.flush()
            print(n, 'mutants')
    elif cmd == 'judge':
        div = int(sys.argv[4]) if len(sys.argv) > 4 else 4
        done = set()
        if os.path.exists(sys.argv[3]):
            done = {json.loads(l)['id'] for l in open(sys.argv[3])}
        items = [m for m in map(json.loads, open(sys.argv[2])) if m['id'] not in done]
        with open(sys.argv[3], 'a') as out:
            for m, res, err in pool(items, lambda d, m: judge(d, m, div, 2)):
                m.pop('text')
                out.write(json.dumps(dict(m, result=res, err=err)) + '\n'); out.flush()
