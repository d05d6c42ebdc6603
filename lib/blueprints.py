"""C43: the generator of the test suites (specs/generate.js), run in a scratch copy, its tests run against a stand-in of the library."""
import atexit
import builtins
import collections
import json
import os
import random
import re
import shutil
import subprocess
import tempfile
import types

import checks
import gen as G
import model as M
import real
from harness import Check, Violation

HERE = os.path.dirname(os.path.abspath(__file__))
FOLDERS = ['', '', 'api/', 'errors/', 'errors/parsing/', 'api/section/queries/']
TITLES = ['Querying', 'a section', "it's", 'quoted "so"', 'of 100 %', 'with `ticks`', 'mixed Case', 'äöü', '(twice)', 'a/b', 'x: y', '- z', 'b>', '${x}', '#{x}', '{}', '$1', "$'", '*/', '//']
PIECES = ['', ' ', '"', "'", '`', '\\', '\\n', '${a}', '$a', '#{a}', '{a}', '"""', "'''", '`;', '")', "' +", '$&', '$1', '$`', '// x', '# x', '/* x', '%s', '\t', 'ä', '日本', '😀', '\u2028', '\f', '\u00a0', '\\u0041', '\\',
          '-- input', 'a: b', '- c', '    > deep', '  two', ')', '(', '\\\\', '\\"', '\r', '\x0b', '\x00', '\x1b[0m', '\ufeff']


class Scratch:
    """A copy of what the generator reads and writes, so that it can write nothing of the real repository."""

    def __init__(self):
        self.root = tempfile.mkdtemp(prefix='enolib-specs-')
        self.pid = os.getpid()
        atexit.register(self.remove)
        shutil.copy(os.path.join(real.REPO, 'utilities.js'), self.root)
        shutil.copytree(os.path.join(real.REPO, 'specs'), os.path.join(self.root, 'specs'), ignore=shutil.ignore_patterns('blueprints'))
        js = os.path.join(real.REPO, 'javascript')
        os.mkdir(os.path.join(self.root, 'javascript'))
        shutil.copy(os.path.join(js, 'package.json'), os.path.join(self.root, 'javascript'))
        shutil.copytree(os.path.join(js, 'lib'), os.path.join(self.root, 'javascript', 'lib'))

    def path(self, *parts):
        return os.path.join(self.root, *parts)

    def remove(self):
        if self.pid == os.getpid():
            shutil.rmtree(self.root, ignore_errors=True)

    def begin(self, blueprints):
        for folder in ('specs/blueprints', 'python/tests', 'javascript/specs', 'php/spec', 'ruby/spec'):
            shutil.rmtree(self.path(folder), ignore_errors=True)
            os.makedirs(self.path(folder))
        for name, text in blueprints.items():
            path = self.path('specs/blueprints', name + '.eno')
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, 'w', encoding='utf-8', newline='') as f:
                f.write(text)
        for path in ('python/tests/generated/old/test_stale.py', 'javascript/specs/generated/old/stale.spec.js', 'ruby/spec/generated/old/stale.spec.rb', 'php/spec/generated/old/stale.spec.php'):
            os.makedirs(os.path.dirname(self.path(path)))
            with open(self.path(path), 'w') as f:
                f.write('')

    def stale(self):
        return [p for p in ('python/tests/generated/old/test_stale.py', 'javascript/specs/generated/old/stale.spec.js') if os.path.exists(self.path(p))]

    def generate(self, scenarios):
        p = subprocess.run(['node', os.path.join(HERE, 'specs_driver.js'), self.root], input=json.dumps(scenarios).encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        try:
            return json.loads(p.stdout)
        except ValueError:
            return {'failed': f"ended with {p.returncode}: {p.stderr.decode(errors='replace')[-600:]}"}

    # --- the Python tests -------------------------------------------------------------------------------------------
    def python(self, scenarios):
        """{path: [{name, runs: [...]}] or what is wrong with the file}"""
        out = {}
        top = self.path('python/tests/generated')
        for folder, _, names in sorted(os.walk(top)):
            for name in sorted(names):
                if name == '__init__.py' or not name.endswith('.py'):
                    continue
                where = os.path.relpath(os.path.join(folder, name), top)
                parts = where[:-3].split('/')
                parts[-1] = parts[-1].removeprefix('test_')
                packages = all(os.path.exists(os.path.join(top, *parts[:n], '__init__.py')) for n in range(len(parts) - 1, len(parts)))
                with open(os.path.join(folder, name), 'rb') as f:
                    source = f.read()
                try:
                    out['/'.join(parts)] = self.run(source, where, scenarios.get('/'.join(parts), {})) if packages else 'its folder is no package'
                except Exception as e:
                    out['/'.join(parts)] = f"{type(e).__name__}: {e}"
        return out

    def run(self, source, where, wanted):
        current = {}

        class Error(Exception):
            pass

        class ParseError(Error):
            pass

        class ValidationError(Error):
            pass

        class Anything:
            def __getattr__(self, name):
                return Anything()

            def __call__(self, *a, **k):
                return Anything()
        library = types.ModuleType('enolib')
        library.__getattr__ = lambda name: Anything()

        def act(input, *a, **k):
            current['inputs'].append(input)
            outcome = current['outcome']
            if outcome.get('stop'):
                raise RuntimeError('stop')
            if outcome.get('error'):
                e = {'ParseError': ParseError, 'ValidationError': ValidationError}.get(outcome['error']['type'], Error)('reported')
                e.__dict__.update(outcome['error'])
                raise e
            return outcome.get('value')
        for name, value in (('Error', Error), ('ParseError', ParseError), ('ValidationError', ValidationError), ('parse', act), ('act', act), ('lookup', act), ('register', lambda *a, **k: None)):
            setattr(library, name, value)

        def importing(name, *a, **k):
            if name.split('.')[0] == 'enolib':
                return library
            return builtins.__import__(name, *a, **k)
        space = {'__builtins__': {**vars(builtins), '__import__': importing}, '__name__': 'generated'}
        exec(compile(source, where, 'exec'), space)
        tests = []
        for name, f in list(space.items()):
            if not name.startswith('test_'):
                continue
            kind = 'error' if '_raises_' in name else 'result'
            outcomes = next((kinds.get(kind) for title, kinds in wanted.items() if name.startswith('test_' + slug(title))), None) or [{'stop': True}]
            runs = []
            for outcome in outcomes:
                current.update(outcome=outcome, inputs=[])
                problem = None
                try:
                    f()
                except Exception as e:
                    problem = f"{type(e).__name__}: {e}"
                runs.append({'passed': problem is None, 'problem': problem, 'inputs': current['inputs']})
            tests.append({'name': name, 'title': next((t for t in wanted if name.startswith('test_' + slug(t))), None), 'kind': kind, 'runs': runs})
        return tests


def tokens(code):
    """The literals, numbers and words of PHP or Ruby code; literals that are put together count as one."""
    out, joins = [], False
    for m in re.finditer(r"""'((?:[^'\\]|\\.)*)'|"((?:[^"\\]|\\.)*)"|\b(\d+)\b|(\w+)|(\S)""", code, re.S):
        single, double, number, word, sign = m.groups()
        if double is not None:
            text = re.sub(r'\\(.)', lambda x: {'n': '\n', 'r': '\r', 't': '\t'}.get(x[1], x[1]), double, flags=re.S)
            if joins and out and out[-1][0] == 'text':
                out[-1] = ('text', out[-1][1] + text)
            else:
                out.append(('text', text))
        elif single is not None:
            out.append(('text', re.sub(r"\\(['\\])", r'\1', single)))
        elif number is not None:
            out.append(('number', number))
        elif word is not None:
            out.append(('word', word))
        joins = sign is not None and sign in '.+' and code[m.end():m.end() + 1] == '\n'
    return out


def slug(title):
    """The number every title of a random blueprint begins with."""
    return 'case_' + title.split()[1] + '_' if title.startswith('Case ') else '\0'


def block(name, text):
    dashes = 2
    while any(line.strip().startswith('-' * dashes) and not line.strip().startswith('-' * (dashes + 1)) for line in text.split('\n')):
        dashes += 1
    return f"{'-' * dashes} {name}\n{text}\n{'-' * dashes} {name}\n"


def altered(r, text):
    at = r.randrange(len(text) + 1)
    return r.choice([text + r.choice(['x', ' ', '\n']), text[:at] + r.choice(['x', '\\', '\n', ' ', '"']) + text[at:], text[:-1] or 'x', ' ' + text])


def written(r, odd):
    lines = []
    for _ in range(r.choice([1, 1, 2, 3, 6])):
        lines.append(''.join(r.choice(PIECES) if r.random() < odd else r.choice(['word', ' ', '   | x', 'Line | Content', '>    1 | # a']) for _ in range(r.choice([0, 1, 2, 3, 4]))))
    return '\n'.join(lines) or 'x'


class C43(Check):
    id = 'C43'
    quick, thorough = 1500, 40000
    floors = {'tests run in JavaScript': 5000, 'tests run in Python': 5000, 'tests read in PHP': 5000, 'tests read in Ruby': 5000, 'passing on what the blueprint says': 8000, 'failing on anything else': 30000, 'inputs compared': 40000, 'blueprints refused': 60, 'stale files removed': 1000,
              'published tests compared': 150}
    level_note = ('Every test generated in JavaScript and Python from the observed blueprints hands the library the written input, passes when the library answers what the blueprint says and fails when the '
                  'answer differs in one respect. The suites for PHP and Ruby, which cannot be run here, are only searched for the texts of the blueprint.')
    rule = ('the published blueprints, and random blueprints of all kinds of expectations whose inputs, texts, snippets and titles contain quotes, backslashes, placeholders and blanks, some with mistakes; '
            'non-trivial = generated; oracle: the generated tests run against a stand-in library that gives the expected answer or one that differs in one respect')
    assumptions = ['packages that are not installed (fast-glob, fs-extra, speakingurl, jest) behave like the stand-ins in specs_driver.js']
    scratch = None

    def prepare(self):
        self.scratch = Scratch()

    def done(self):
        if self.scratch:
            self.scratch.remove()

    def enumerate(self, tier):
        yield {'published': True}
        for piece in PIECES:
            for n, text in enumerate((piece, piece + 'a', 'a' + piece, piece + '\n' + piece, 'a\n' + piece + '\nb')):
                if text and (tier != 'quick' or n % 2 == 0 or len(piece) == 1):
                    yield {'piece': text, 'seed': n}

    def generate(self, r, tier):
        return {'seed': r.getrandbits(32), 'odd': r.choice([0, 0.1, 0.5]), 'spoil': r.random() < 0.08}

    def witness(self, case):
        self.scratch = Scratch()
        try:
            self.judge(case, collections.Counter())
            return None
        except Violation as v:
            return v.what.split('\n')[0]
        finally:
            self.scratch.remove()

    def shrinkable(self, case):
        return []

    def tests_of(self, case, r):
        """{path: [test]}"""
        if 'piece' in case:
            text = case['piece']
            kinds = ['ParseError', 'ValidationError', 'string']
            out, number = [], 0
            for kind in kinds:
                out.append({'title': f"Case {number} x", 'input': text, 'kind': kind, 'text': text, 'snippet': text, 'selection': [[0, 0], [0, 1]], 'string': text, 'code': 0})
                number += 1
            if '\n' not in text and '\r' not in text and ('\\' not in text or case.get('known')):     # titles with backslashes: see known_findings.json
                out.append({'title': f"Case {number} x{text}x", 'input': 'a', 'kind': 'passes', 'code': 0})
            return {'one': out}
        g = G.Gen(r, odd=0.2, blanks=0.2)
        number, out = 0, {}
        for _ in range(r.choice([1, 1, 2, 3])):
            path = r.choice(FOLDERS) + r.choice(['alpha', 'beta', 'missing_field', 'whitespace'])
            tests = []
            for _ in range(r.choice([1, 2, 3, 5])):
                title = f"Case {number} " + ' '.join(r.choice(TITLES) if r.random() < max(0.2, case['odd']) else r.choice(TITLES[:4]) for _ in range(r.choice([1, 2, 4])))
                number += 1
                kind = r.choice(['ParseError', 'ValidationError', 'ValidationError', 'string', 'code', 'nothing', 'passes'])
                test = {'title': title, 'kind': kind, 'input': written(r, case['odd']) if r.random() < 0.6 else g.any() or 'a', 'code': r.randrange(4)}
                if kind.endswith('Error'):
                    test['text'] = None if r.random() < 0.2 else written(r, case['odd'])
                    test['snippet'] = None if r.random() < 0.2 else written(r, case['odd'])
                    test['selection'] = None if r.random() < 0.2 else [[r.choice([0, 1, 7, 12, 123]) for _ in range(2)] for _ in range(2)]
                    if kind == 'ValidationError' and r.random() < 0.2:
                        test['also'] = r.choice(['string', 'code', 'nothing', 'passes'])
                    if test['text'] and r.random() < 0.15:
                        test['snippet'] = test['text']
                if test['input'].encode('utf-8', 'replace').decode() != test['input']:
                    test['input'] = 'a'
                test['string'] = written(r, case['odd'])
                test['value'] = r.choice(["['a', 'b']", '[]', '3', "'it'", '[["x"], 2]'])
                tests.append(test)
            out[path] = tests
        return out

    def parts(self, t):
        """The error and the result a test of a blueprint stands for."""
        return [t, {**t, 'kind': t['also']}] if t.get('also') else [t]

    CODE = {
        'javascript': {True: ['const output = enolib.act(input);', 'const document = enolib.act(input);\n\nconst output = document;', 'let output;\nif(true) {\n  output = enolib.act(input);\n}', 'const output =\n    enolib.act(\n  input);'],
                       False: ['enolib.act(input);', 'const document = enolib.act(input);\n\ndocument;', 'if(true) {\n  enolib.act(input);\n}', 'enolib\n    .act(input);']},
        'python': {True: ['output = enolib.act(input)', 'document = enolib.act(input)\n\noutput = document', 'if True:\n    output = enolib.act(input)', 'output = enolib.act(\n  input)'],
                   False: ['enolib.act(input)', 'document = enolib.act(input)\n\ndocument', 'if True:\n    if True:\n        enolib.act(input)', 'enolib.act(\n  input)']},
        'php': {True: ['$output = act($input);'] * 4, False: ['act($input);'] * 4},
        'ruby': {True: ['output = act(input)'] * 4, False: ['act(input)'] * 4},
    }

    def blueprint(self, tests):
        out = []
        for t in tests:
            out.append(f"# {t['title']}\n\n" + block('input', t['input']))
            error = t['kind'].endswith('Error')
            if t['kind'] != 'ParseError':
                out += [block(language, codes['also' in t or not error][t['code']]) for language, codes in self.CODE.items()]
            for part in self.parts(t):
                self.expectation(part, out)
        return '\n'.join(out)

    def expectation(self, t, out):
        error = t['kind'].endswith('Error')
        out.append(f"## {t['kind'] if error else 'Result' if t['kind'] in ('string', 'code') else t['kind'].title()}\n")
        if error:
            out += [block(name, t[name]) for name in ('text', 'snippet') if t[name] is not None]
            if t['selection']:
                (a, b), (c, d) = t['selection']
                out.append(f"selection: [{a},{b}] => [{c},{d}]\n")
        elif t['kind'] == 'string':
            out.append(block('string', t['string']))
        elif t['kind'] == 'code':
            out += [f"{language}: {t['value']}\n" for language in self.CODE]

    def outcomes(self, t, r):
        """[(what the library answers, whether the test has to pass)]"""
        kind = t['kind']
        if kind.endswith('Error'):
            def error(**k):
                s = k.pop('selection', t['selection'] or [[0, 0], [0, 0]])
                e = {'type': kind, 'text': t['text'] or 'some text', 'snippet': t['snippet'] or 'some snippet', **k}
                e['selection'] = {'from': {'line': s[0][0], 'column': s[0][1]}, 'to': {'line': s[1][0], 'column': s[1][1]}}
                return {'error': e}
            out = [(error(), True), ({'value': 'fine'}, False), (error(type='ParseError' if kind == 'ValidationError' else 'ValidationError'), False)]
            for name in ('text', 'snippet'):
                if t[name] is None:
                    out.append((error(**{name: 'anything at all'}), True))
                else:
                    out.append((error(**{name: altered(r, t[name])}), False))
            for a in range(2):
                for b in range(2):
                    s = [list(x) for x in t['selection'] or [[0, 0], [0, 0]]]
                    s[a][b] += r.choice([1, 10])
                    out.append((error(selection=s), t['selection'] is None))
            return [(o, ok) for o, ok in out if ok or o != out[0][0]]
        if kind == 'nothing':
            return [({'value': None}, True), *(({'value': v}, False) for v in ('something', '', 0, False, [], {})), ({'error': {'type': 'ValidationError'}}, False)]
        if kind == 'passes':
            return [({'value': None}, True), ({'value': 'something'}, True), ({'error': {'type': 'ParseError'}}, False)]
        if kind == 'string':
            other = altered(r, t['string'])
            return [({'value': t['string']}, True), *(({'value': v}, False) for v in (None, '', True, [t['string']])), ({'error': {'type': 'ValidationError'}}, False)] + ([({'value': other}, False)] if other != t['string'] else [])
        value = json.loads(t['value'].replace("'", '"'))
        return [({'value': value}, True), *(({'value': v}, False) for v in ([value], None, '' if value else 'x', t['value'], [value, value])), ({'error': {'type': 'ParseError'}}, False)]

    def judge(self, case, stats):
        s = self.scratch
        if case.get('published'):
            return self.published(stats)
        r = random.Random(case['seed'])
        tests = self.tests_of(case, r)
        blueprints = {path: self.blueprint(ts) for path, ts in tests.items()}
        if case.get('spoil'):
            return self.spoiled(tests, blueprints, r, stats)
        s.begin(blueprints)
        scenarios, expected = {}, {}
        for path, ts in tests.items():
            for t in ts:
                for part in self.parts(t):
                    kind = 'error' if part['kind'].endswith('Error') else 'result'
                    outcomes = self.outcomes(part, r)
                    scenarios.setdefault(path, {}).setdefault(t['title'], {})[kind] = [o for o, _ in outcomes]
                    expected[path, t['title'], kind] = (part, kind, outcomes)
        answer = s.generate(scenarios)
        if 'failed' in answer:
            raise Violation(f"generation failed with {answer['failed']} for {blueprints}")
        if s.stale():
            raise Violation(f"outdated tests {s.stale()} were kept for {blueprints}")
        stats['stale files removed'] += 1
        files = answer['files']
        if sorted(files) != sorted(p + '.spec.js' for p in tests):
            raise Violation(f"JavaScript tests for {sorted(files)}, expected {sorted(tests)}")
        js = {}
        for file, v in files.items():
            path = file.removesuffix('.spec.js')
            if isinstance(v, str):
                raise Violation(f"the JavaScript tests of {path} cannot be loaded: {v}\n{blueprints[path]}")
            if any(p != 'javascript' for p in v['required']):
                raise Violation(f"the JavaScript tests of {path} load {v['required']} instead of the library")
            js[path] = [{'title': t['title'], 'runs': t['runs'], 'kind': 'error' if 'throws' in t['name'] else 'result'} for t in v['tests']]
        py = s.python(scenarios)
        if sorted(py) != sorted(tests):
            raise Violation(f"Python tests for {sorted(py)}, expected {sorted(tests)}")
        for language, got in (('JavaScript', js), ('Python', py)):
            for path, found in got.items():
                if isinstance(found, str):
                    raise Violation(f"the {language} tests of {path} cannot be loaded: {found}\n{blueprints[path]}")
                titles = [t['title'] for t in found]
                want = [t['title'] for t in tests[path] for part in self.parts(t)]
                if titles != want:
                    raise Violation(f"{language} has the tests {titles} for {path}, expected {want}")
                for t in found:
                    if (path, t['title'], t['kind']) not in expected:
                        raise Violation(f"{language} has a test of the {t['kind']} of {t['title']!r} in {path}, which the blueprint does not call for\n{blueprints[path]}")
                    self.compare(language, path, t, expected[path, t['title'], t['kind']], blueprints, stats)
        for language, folder, suffix in (('PHP', 'php/spec/generated', 'php'), ('Ruby', 'ruby/spec/generated', 'rb')):
            n = sum(len([x for x in names if x.endswith(suffix)]) for _, _, names in os.walk(s.path(folder)))
            if n != len(tests):
                raise Violation(f"{n} files of {language} tests for {len(tests)} blueprints")
            for path, ts in tests.items():
                self.reads(language, path, s.path(folder, path + ('.spec.php' if suffix == 'php' else '.spec.rb')), [part for t in ts for part in self.parts(t)], blueprints, stats)
        return (case['seed'], case.get('piece'))

    def compare(self, language, path, found, want, blueprints, stats):
        t, kind, outcomes = want
        stats[f'tests run in {language}'] += 1
        told = f"the {language} test {t['title']!r} of {path}"
        if found['kind'] != kind or len(found['runs']) != len(outcomes):
            raise Violation(f"{told} expects {found['kind']} instead of {kind}\n{blueprints[path]}")
        for run, (outcome, ok) in zip(found['runs'], outcomes):
            stats['inputs compared'] += 1
            if run['inputs'] != [t['input']]:
                raise Violation(f"{told} hands the library {run['inputs']!r}, written is {t['input']!r} ({run['problem']})")
            if run['passed'] is not ok:
                raise Violation(f"{told} {'passes' if run['passed'] else 'fails with ' + str(run['problem'])} when the library answers {outcome!r}; the blueprint says {t!r}")
            stats['passing on what the blueprint says' if ok else 'failing on anything else'] += 1

    def reads(self, language, path, file, wanted, blueprints, stats):
        """What a suite that cannot be run here has to contain: each test the texts of its blueprint, after its title."""
        try:
            with open(file, encoding='utf-8', newline='') as f:
                found = tokens(f.read())
        except OSError as e:
            raise Violation(f"no {language} tests of {path}: {e}")
        starts = [i for i, t in enumerate(found) if t[0] == 'text' and t[1].startswith('Case ')]
        titles = [found[i][1] for i in starts]
        if titles != [t['title'] for t in wanted]:
            raise Violation(f"{language} has the tests {titles} for {path}, expected {[t['title'] for t in wanted]}")
        for t, start, end in zip(wanted, starts, starts[1:] + [len(found)]):
            test = found[start + 1:end]
            texts, numbers = [v for kind, v in test if kind == 'text'], [int(v) for kind, v in test if kind == 'number']
            error = t['kind'].endswith('Error')
            needed = [t['input']] + [t[k] for k in ('text', 'snippet') if error and t[k] is not None] + ([t['string']] if t['kind'] == 'string' else [])
            stats[f'tests read in {language}'] += 1
            for text in set(needed):
                if texts.count(text) < needed.count(text):
                    raise Violation(f"the {language} test {t['title']!r} of {path} does not contain {text!r} of the blueprint, but {texts!r}")
            told = any(kind == 'word' and v == t['kind'] or kind == 'text' and t['kind'] in v.split() for kind, v in test)
            if error and not told:
                raise Violation(f"the {language} test {t['title']!r} of {path} does not expect a {t['kind']}")
            if error and t['selection'] and numbers[-4:] != t['selection'][0] + t['selection'][1]:
                raise Violation(f"the {language} test {t['title']!r} of {path} expects the selection {numbers[-4:]}, the blueprint says {t['selection']}")

    def spoiled(self, tests, blueprints, r, stats):
        s = self.scratch
        path = r.choice(sorted(tests))
        how = r.choice(['selection', 'input', 'language', 'unknown', 'unparsable', 'unknown section'])
        good = '# Case 99 last\n\n' + block('input', 'a') + '\n'.join(block(language, codes[True][0]) for language, codes in self.CODE.items())
        more = {
            'selection': '# Case 99 last\n\n-- input\na\n-- input\n\n## ParseError\n\nselection: ' + r.choice(['[0,0]', '0,0 => 0,1', '[a,0] => [0,1]', '[0,0] = [0,1]', '[0] => [1]']) + '\n',
            'input': '# Case 99 last\n\n## ParseError\n\ntext: a\n',
            'language': '# Case 99 last\n\n-- input\na\n-- input\n\njavascript: a\n\n## Passes\n',
            'unknown': good + '\nother: b\n\n' + r.choice(['## Passes\n', '## Nothing\n', '## Result\n\nstring: a\n', '## ValidationError\n\ntext: a\n']),
            'unparsable': '# Case 99 last\n\nno element\n',
            'unknown section': good + '\n## Otherwise\n\na: b\n' + r.choice(['## Passes\n', '## Nothing\n', '## Result\n\nstring: a\n', '## ValidationError\n\ntext: a\n']),
        }[how]
        blueprints[path] += '\n' + more
        s.begin(blueprints)
        answer = s.generate({})
        stats['blueprints refused'] += 1
        if 'failed' not in answer:
            raise Violation(f"a blueprint with a mistake ({how}) was accepted:\n{blueprints[path]}")
        if len(s.stale()) != 2:
            raise Violation(f"a blueprint with a mistake ({how}) was refused only after tests had been removed:\n{blueprints[path]}")
        return None

    def published(self, stats):
        """The tests generated from the published blueprints use the written inputs."""
        s = self.scratch
        top = os.path.join(real.REPO, 'specs', 'blueprints')
        texts = {}
        for folder, _, names in os.walk(top):
            for name in names:
                if name.endswith('.eno'):
                    path = os.path.join(folder, name)
                    with open(path, encoding='utf-8', newline='') as f:
                        texts[os.path.relpath(path, top)[:-4]] = f.read()
        s.begin(texts)
        answer = s.generate({})
        if 'failed' in answer:
            raise Violation(f"generation from the published blueprints failed with {answer['failed']}")
        py = s.python({})
        for path, text in texts.items():
            doc = M.parse(text)
            inputs, both = [], 0
            for section in M.raw(doc, doc.root)['elements']:
                written = next(e['value'] for e in section['elements'] if e['key'] == 'input')
                names = [e['key'] for e in section['elements'] if e['type'] == M.SECTION]
                inputs += [written] * (any(n.endswith('Error') for n in names) + any(n in ('Result', 'Nothing', 'Passes') for n in names))
            for language, found in (('JavaScript', answer['files'].get(path + '.spec.js')), ('Python', py.get(path))):
                tests = found['tests'] if isinstance(found, dict) else found
                if not isinstance(tests, list):
                    raise Violation(f"the published {language} tests of {path} cannot be run: {tests}")
                got = [t['runs'][0]['inputs'][:1] for t in tests]
                stats['published tests compared'] += len(got)
                if got != [[i] for i in inputs]:
                    raise Violation(f"the published {language} tests of {path} hand the library {got!r}, written are {inputs!r}")
        return 'published'


checks.THEMES['C43'] = 'generated tests'
checks.register(C43)
