"""C38: the generator of the message catalogues (locales/generate.js), run in a scratch copy."""
import ast
import atexit
import json
import os
import random
import re
import shutil
import subprocess
import tempfile

import checks
import real
from harness import Check, Violation

HERE = os.path.dirname(os.path.abspath(__file__))
# values for the arguments of a message: anything a document may contain
FACTS = ['17', 'a "b" {c} ${d} `e` \\f \'g\' $h', '<i>']
WORDS = ['Document', 'Empty', 'Field', 'Key', 'Value', 'List', 'Item', 'Entry', 'Copy', 'Section', 'Line', 'Error', 'Text', 'Non-Section', 'Near', 'Unit', 'Label', 'Two-Level']
ROLES = ['LINE', 'KEY', 'MESSAGE', 'OTHER KEY', 'Name', 'X-Y']
GROUPS = ['Terminology', 'Reporting', 'Parsing', 'Validation', 'More']
CODES = ['de', 'en', 'es', 'fr', 'it']
PLAIN = ['alpha', 'Beta', 'zwei Wörter', 'naïve', '«élan»', '¿qué?', '„Zitat“', 'l\'été', 'x', '漢字', 'the end.', '(so)', 'a - b', '100 %', '%s', '%(KEY)s', 'a/b', '&amp;', 'C#']
ODD = ['"quoted"', 'it\'s', 'back\\slash', 'tail\\', '{brace}', '{', '}', '{{', '${dollar}', '$var', '`tick`', '#{hash}', '\\n', '\\u0041', '"""', "'''", '[', ']', '[NOTHING]', '{line}', '$&', '$1', "$'", '$$']


def snake(name):
    return re.sub(r'[ \-]', '_', name.lower())


def camel(name):
    return re.sub(r'[ \-]([a-z])', lambda m: m.group(1).upper(), name.lower())


def quoted(text):
    return '"' + text.replace('\\', '\\\\').replace('"', '\\"').replace('\n', '\\n') + '"'


def po_of(entries):
    return ''.join(f"msgid {quoted(i)}\nmsgstr {quoted(s)}\n\n" for i, s in entries)


def read_po(path):
    """[(msgid, msgstr)], or a text saying what is wrong with the file."""
    out, field = [], None
    for number, raw in enumerate(open(path, encoding='utf-8').read().split('\n'), 1):
        line = raw.strip()
        if not line or line.startswith('#'):
            continue
        m = re.fullmatch(r'(msgid|msgstr)?\s*"((?:[^"\\]|\\.)*)"', line)
        if m is None:
            return f"line {number} of {os.path.basename(path)} is no line of a .po file: {raw!r}"
        text = re.sub(r'\\(.)', lambda e: {'n': '\n', 't': '\t', 'r': '\r'}.get(e.group(1), e.group(1)), m.group(2))
        if m.group(1) == 'msgid':
            out.append(['', ''])
        field = {'msgid': 0, 'msgstr': 1}.get(m.group(1), field)
        out[-1][field] += text
    return [tuple(e) for e in out]


def filled(text, roles):
    """The wording with the arguments in their places."""
    facts = dict(zip(roles, FACTS))
    return re.sub('|'.join(re.escape(f"[{r}]") for r in roles), lambda m: facts[m.group(0)[1:-1]], text) if roles else text


def phrase(r, roles, odd):
    parts = [r.choice(ODD if r.random() < odd else PLAIN) for _ in range(r.randint(1, 4))]
    for role in roles:
        for _ in range(r.choice([0, 1, 1, 1, 1, 1, 1, 1, 1, 2])):
            parts.insert(r.randint(0, len(parts)), r.choice(['[{}]', "'[{}]'", '([{}])']).format(role))
    return r.choice([' ', ' ', '']).join(parts)


def plain(text):
    return text.strip() == text and not re.search(r'["\'\\{}$`#\[\]|]', text)


class Scratch:
    """A copy of what the generator reads and writes, so that it can write nothing of the real repository."""

    def __init__(self):
        self.root = tempfile.mkdtemp(prefix='enolib-catalogues-')
        self.pid = os.getpid()
        atexit.register(self.remove)
        shutil.copy(os.path.join(real.REPO, 'utilities.js'), self.root)
        shutil.copytree(os.path.join(real.REPO, 'locales'), os.path.join(self.root, 'locales'))
        js = os.path.join(real.REPO, 'javascript')
        os.mkdir(os.path.join(self.root, 'javascript'))
        shutil.copy(os.path.join(js, 'package.json'), os.path.join(self.root, 'javascript'))
        shutil.copytree(os.path.join(js, 'lib'), os.path.join(self.root, 'javascript', 'lib'))
        self.messages = {n: open(os.path.join(js, 'lib', 'messages', n), encoding='utf-8').read() for n in os.listdir(os.path.join(js, 'lib', 'messages'))}

    def path(self, *parts):
        return os.path.join(self.root, *parts)

    def remove(self):
        if self.pid == os.getpid():
            shutil.rmtree(self.root, ignore_errors=True)

    def begin(self, case):
        for folder in ('javascript/lib/messages', 'python/enolib/messages', 'php/src/messages', 'ruby/lib/enolib/messages', 'locales/translations'):
            shutil.rmtree(self.path(folder), ignore_errors=True)
            os.makedirs(self.path(folder))
        for name, text in self.messages.items():          # the generator itself uses the library in JavaScript
            with open(self.path('javascript/lib/messages', name), 'w', encoding='utf-8') as f:
                f.write(text)
        with open(self.path('python/enolib/messages/stale.py'), 'w') as f:
            f.write('stale = 1\n')
        with open(self.path('locales/specification.eno'), 'w', encoding='utf-8') as f:
            f.write(case['spec'])
        for code, entries in case['po'].items():
            with open(self.path('locales/translations', code + '.po'), 'w', encoding='utf-8') as f:
                f.write(entries if isinstance(entries, str) else po_of(entries))

    def generate(self):
        p = subprocess.run(['node', os.path.join(HERE, 'generate_driver.js'), self.root, json.dumps(FACTS)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120)
        try:
            return json.loads(p.stdout)
        except ValueError:
            return {'failed': f"ended with {p.returncode}: {p.stderr.decode(errors='replace')[-600:]}", 'said': []}

    def python(self, code):
        """{message: (text, number of arguments)} of a generated Python catalogue, or what is wrong with it."""
        space = {}
        try:
            with open(self.path('python/enolib/messages', code + '.py'), encoding='utf-8') as f:
                exec(compile(f.read(), code + '.py', 'exec'), space)
            out = {}
            for name, message in space.items():
                if not name.startswith('__'):
                    n = message.__code__.co_argcount if callable(message) else 0
                    out[name] = (message(*FACTS[:n]) if callable(message) else message, n)
            return out
        except Exception as e:
            return f"{type(e).__name__}: {e}"


def spec_of(case):
    lines = ['# Locales', ''] + [f"{code}: Language {code}" for code in case['codes']] + ['', '# Messages', '']
    for group, messages in case['groups']:
        lines += ['## ' + group, '']
        for name, roles, text in messages:
            lines += [f"{name}:", f"{', '.join(roles)} = {text}", ''] if roles else [f"{name}: {text}"]
        lines.append('')
    return '\n'.join(lines)


class C38(Check):
    id = 'C38'
    quick, thorough = 900, 30000
    floors = {'messages compared': 15000, 'catalogues compared': 3000, 'translations with special characters': 3000, 'translations kept': 6000, 'translations missing': 800, 'translations removed': 200,
              'second runs compared': 150, 'specifications refused': 40, 'reported': 500}
    level_note = ('Every message of every catalogue generated for Python and JavaScript from the observed specifications and translations, when executed, says the translation with the arguments in their '
                  'places; translations are kept, missing ones reported, and a second run changes nothing. Catalogues for PHP and Ruby, which cannot be executed here, are only searched for the wording '
                  'of messages without special characters.')
    rule = ('the published specification and translations, and random specifications (groups, messages, arguments) with random translations that contain quotes, backslashes, braces and markup, are '
            'incomplete or outdated; non-trivial = catalogues generated; oracle: wording and arguments executed in both languages, own reader of .po files')
    assumptions = ['packages that are not installed (gettext-parser, fs-extra, enotype) behave like the stand-ins in generate_driver.js']
    scratch = None

    def prepare(self):
        self.scratch = Scratch()

    def done(self):
        if self.scratch:
            self.scratch.remove()

    def enumerate(self, tier):
        yield {'published': True}
        # every special piece in every position and kind of message
        for odd in ODD + PLAIN:
            for roles in ([], ['KEY'], ['LINE', 'KEY']):
                for text in (odd, odd + ' a', 'a ' + odd, f"a {odd} b", odd + odd):
                    text += ''.join(f" '[{r}]'" for r in roles) if len(text) % 2 else ''
                    text = ''.join(f"[{r}] " for r in roles) + text if not len(text) % 2 else text
                    if text[0] == '|' or text[0] == '\\':
                        text = 'x' + text
                    if odd in ODD[::3] or tier != 'quick' or text == odd:
                        yield {'codes': ['de', 'en'], 'groups': [['Parsing', [['Some Message', roles, 'The message' + ''.join(f" [{r}]" for r in roles)]]]], 'have': {'de': [[0, 0, text]], 'en': []}}

    def generate(self, r, tier):
        odd = r.choice([0, 0.1, 0.5])
        groups, seen = [], set()
        for group in sorted(r.sample(GROUPS, r.randint(1, len(GROUPS))), key=GROUPS.index):
            names = sorted({' '.join(r.choice(WORDS) for _ in range(r.randint(1, 4))) for _ in range(r.randint(1, 6))})
            messages = []
            for name in names:
                if snake(name) in seen:
                    continue
                roles = r.sample(ROLES, r.choice([0, 0, 1, 1, 2, 3])) if group != 'Terminology' else []
                text = f"{name} means " + phrase(r, roles, odd / 2 if r.random() < 0.5 else 0)
                seen.add(snake(name))
                messages.append([name, roles, text.strip()])
            if messages:
                groups.append([group, messages])
        codes = sorted(r.sample(CODES, r.randint(1, 4)))
        have = {}
        for code in codes:
            if r.random() < 0.15:
                continue                                    # a new language
            have[code] = [[g, m, '' if r.random() < 0.1 else phrase(r, messages[m][1], odd)]
                          for g, (_, messages) in enumerate(groups) for m in range(len(messages)) if r.random() < 0.85]
        case = {'codes': codes, 'groups': groups, 'have': have, 'stale': r.random() < 0.3, 'again': r.random() < 0.25}
        if r.random() < 0.1:
            case['spoil'] = r.choice(['order', 'title', 'section', 'value'])
        return case

    def shrinkable(self, case):
        return []

    def judge(self, case, stats):
        s = self.scratch
        if case.get('published'):
            return self.published(stats)
        codes, groups = case['codes'], case['groups']
        spec = spec_of(case)
        spoil = case.get('spoil')
        if spoil:
            spec = self.spoiled(spec, spoil, groups)
            if spec is None:
                return None
        texts = {(g, m): text for g, (_, messages) in enumerate(groups) for m, (_, _, text) in enumerate(messages)}
        if len(set(texts.values())) < len(texts):
            return None
        po = {}
        for code, entries in case['have'].items():
            if code in codes:
                po[code] = [(texts[g, m], text) for g, m, text in entries]
                if case.get('stale'):
                    po[code].append(('No longer used', 'Gone'))
        s.begin({'spec': spec, 'po': po})
        answer = s.generate()
        if spoil:
            stats['specifications refused'] += 1
            if 'failed' not in answer:
                raise Violation(f"a specification with a mistake ({spoil}) was accepted:\n{spec}")
            if not os.path.exists(s.path('python/enolib/messages/stale.py')):
                raise Violation(f"a specification with a mistake ({spoil}) was refused only after catalogues had been removed:\n{spec}")
            return None
        if 'failed' in answer:
            raise Violation(f"generation failed with {answer['failed']} for\n{spec}\nand {po}")
        self.compare(case, spec, groups, codes, po, answer, stats)
        if case.get('again'):
            stats['second runs compared'] += 1
            kept = {code: read_po(s.path('locales/translations', code + '.po')) for code in codes}
            for name, text in s.messages.items():
                if not os.path.exists(s.path('javascript/lib/messages', name)):
                    with open(s.path('javascript/lib/messages', name), 'w', encoding='utf-8') as f:
                        f.write(text)
            answer = s.generate()
            if 'failed' in answer:
                raise Violation(f"the second run failed with {answer['failed']} for\n{spec}\nand {po}")
            self.compare(case, spec, groups, codes, {c: e for c, e in kept.items()}, answer, stats)
            if any(kept[code] != read_po(s.path('locales/translations', code + '.po')) for code in codes if code != 'en' or code in po):
                raise Violation(f"the second run changed the translations for\n{spec}\nand {po}")
        return json.dumps([groups, case['have']])

    def spoiled(self, spec, spoil, groups):
        if spoil == 'section':
            return spec + '\n# Other\n\na: b\n'
        if spoil == 'title':
            return spec.rstrip('\n') + '\n\n## Last\n\nnot a title: text\n'
        if spoil == 'order':
            return spec.rstrip('\n') + '\n\n## Last\n\nZeta: last text\nAlpha: first text\n'
        return spec.rstrip('\n') + '\n\n## Last\n\nAlpha:\n'

    def compare(self, case, spec, groups, codes, po, answer, stats):
        s = self.scratch
        told = f"\nspecification:\n{spec}\ntranslations: {po}"
        warnings = [w for w in answer['said']]
        if sorted(answer['catalogues']) != sorted(codes):
            raise Violation(f"JavaScript catalogues for {sorted(answer['catalogues'])}, expected {codes}{told}")
        files = sorted(n[:-3] for n in os.listdir(s.path('python/enolib/messages')) if n.endswith('.py') and n != '__init__.py')
        if files != sorted(codes) or not os.path.exists(s.path('python/enolib/messages/__init__.py')):
            raise Violation(f"Python catalogues for {files}, expected {codes} and __init__{told}")
        for code in codes:
            stats['catalogues compared'] += 2
            known = dict(po.get(code, ()))
            want, silent = {}, set()
            for group, messages in groups:
                for name, roles, text in messages:
                    have = known.get(text, '')
                    if not have.strip():
                        have = text if code == 'en' and code in po else ''
                        if not have and code in po:
                            stats['translations missing'] += 1
                            self.warned(warnings, code, text, 'a missing translation', told, stats)
                    else:
                        stats['translations kept'] += 1
                        for role in roles:
                            if f"[{role}]" not in have:
                                self.warned(warnings, code, role, 'an unused argument', told, stats)
                    if group != 'Terminology':
                        want[name] = (roles, have)
            stats['translations removed'] += any(i == 'No longer used' for i in known)
            js, py = answer['catalogues'][code], s.python(code)
            for language, got, style in (('JavaScript', js, camel), ('Python', py, snake)):
                if isinstance(got, str):
                    raise Violation(f"the {language} catalogue for {code} cannot be loaded: {got}{told}")
                names = {style(n) for n in want}
                if set(got) != names:
                    raise Violation(f"the {language} catalogue for {code} has the messages {sorted(got)}, expected {sorted(names)}{told}")
                for name, (roles, have) in want.items():
                    v = got[style(name)]
                    text, count = (v['text'], v['count']) if isinstance(v, dict) else v
                    stats['messages compared'] += 1
                    stats['translations with special characters'] += bool(re.search(r'["\'\\{}$`#]', have))
                    if count != len(roles) or text != filled(have, roles):
                        raise Violation(f"message {name} of {code} in {language} has {count} arguments and says {text!r}, expected {len(roles)} and {filled(have, roles)!r}{told}")
            entries = read_po(s.path('locales/translations', code + '.po'))
            if isinstance(entries, str):
                raise Violation(entries + told)
            wanted = []
            for group, messages in groups:
                for name, roles, text in messages:
                    have = known.get(text, '')
                    wanted.append((text, have if have.strip() else text if code == 'en' and code in po else ''))
            if sorted(entries) != sorted(wanted):
                raise Violation(f"{code}.po was turned into {entries}, expected {wanted}{told}")
            self.others(code, want, told, stats)

    def warned(self, warnings, code, text, what, told, stats):
        stats['reported'] += 1
        if not any(f"'{code}'" in w and text in w for w in warnings):
            raise Violation(f"{what} ({text!r} of {code}) was not reported, only {warnings}{told}")

    def others(self, code, want, told, stats):
        """PHP and Ruby: wordings without special characters must occur, argument by argument."""
        for language, path in (('PHP', f"php/src/messages/{code.title()}.php"), ('Ruby', f"ruby/lib/enolib/messages/{code}.rb")):
            try:
                with open(self.scratch.path(path), encoding='utf-8') as f:
                    source = f.read()
            except OSError:
                raise Violation(f"there is no {language} catalogue for {code}{told}")
            for name, (roles, have) in want.items():
                pieces = re.split('|'.join(re.escape(f"[{r}]") for r in roles), have) if roles else [have]
                if have and all(plain(p.strip()) or not p.strip() for p in pieces):
                    stats['wordings searched for'] += 1
                    pattern = r'[^ \n]*'.join(re.escape(p) for p in pieces)
                    if not re.search(pattern, source):
                        raise Violation(f"the {language} catalogue for {code} does not say {have!r}{told}")

    def published(self, stats):
        """The published specification and translations give the shipped catalogues."""
        s = self.scratch
        spec = open(os.path.join(real.REPO, 'locales', 'specification.eno'), encoding='utf-8').read()
        folder = os.path.join(real.REPO, 'locales', 'translations')
        po = {n[:-3]: open(os.path.join(folder, n), encoding='utf-8').read() for n in os.listdir(folder)}
        s.begin({'spec': spec, 'po': po})
        answer = s.generate()
        if 'failed' in answer:
            raise Violation(f"generation from the published specification failed with {answer['failed']}")
        import catalogue
        c = catalogue.Catalogue(os.path.join(real.REPO, 'locales'))
        for code in c.texts:
            js, py = answer['catalogues'].get(code), s.python(code)
            for language, got in (('JavaScript', js), ('Python', py)):
                if not isinstance(got, dict):
                    raise Violation(f"published {language} catalogue for {code}: {got}")
                for name, (roles, text) in c.messages.items():
                    v = got.get(name if language == 'Python' else camel(name.replace('_', ' ')))
                    text = None if v is None else v['text'] if isinstance(v, dict) else v[0]
                    want = filled(c.texts[code][name], roles)
                    stats['published messages compared'] += 1
                    if text != want:
                        raise Violation(f"published message {name} of {code} in {language} says {text!r}, expected {want!r}")
        return 'published'


checks.THEMES['C38'] = 'generated catalogues'
checks.register(C38)
