"""The monitors: one class per property."""
import collections
import dis
import itertools
import json
import os
import random
import subprocess
import sys
import threading

import effort as E
import gen as G
import model as M
import ops as O
import real as R
from harness import Check, Violation, HERE
from pristine import Pristine

CHECKS = {}
THEMES = {'C01': 'total parsing', 'C02': 'diagnosis', 'C03': 'tree', 'C04': 'values', 'C05': 'comments', 'C06': 'copies of elements', 'C07': 'copies of sections', 'C08': 'unresolvable copies', 'C09': 'queries',
          'C10': 'placeholders', 'C11': 'touching', 'C12': 'requirements', 'C13': 'positions', 'C14': 'snippets', 'C15': 'lookup', 'C16': 'raw', 'C17': 'loaders', 'C18': 'languages', 'C19': 'independence',
          'C20': 'undocumented errors', 'C21': 'report formats', 'C22': 'requested errors', 'C23': 'whitespace', 'C24': 'effort', 'C36': 'debug representations'}


def register(cls):
    CHECKS[cls.id] = cls()
    return cls


# --- shared helpers -----------------------------------------------------------------------------------------------
def modelled(text):
    """(doc, None) when the notation accepts the text, (None, err) otherwise."""
    try:
        return M.parse(text), None
    except M.Err as e:
        return None, e


def observed(text, **options):
    return R.outcome(lambda: R.parse(text, **options))


def both(text, stats=None):
    """(model document, enolib document) when both accept and the content is specified, else None."""
    doc, err = modelled(text)
    if err is not None:
        return None
    kind, real = observed(text)
    if kind != 'ok':
        return None
    return doc, real


def line_of(obj):
    """Written line of an element as enolib reports it, None if that does not work."""
    kind, e = R.outcome(lambda: obj.error('probe'))
    return e.selection['from']['line'] if kind == 'ok' else None


YIELDS = {M.EMPTY: {'empty', 'field', 'fieldset', 'list'}, M.FIELD: {'field'}, M.FIELDSET: {'fieldset'},
          M.LIST: {'list'}, M.SECTION: {'section'}}


def convert(element, kind):
    return getattr(element, {M.EMPTY: 'to_empty', M.FIELD: 'to_field', M.FIELDSET: 'to_fieldset', M.LIST: 'to_list',
                             M.SECTION: 'to_section'}[kind])()


class Mismatch(Exception):
    pass


def pair(seq, want, what):
    if len(seq) != len(want):
        raise Mismatch(f"{what}: {len(seq)} instead of {len(want)} {[e.key for e in want]}")
    return zip(seq, want)


def walk(section, el, path='document'):
    """(object of its natural kind, model element, path) for everything reachable through public queries."""
    yield section, el, path
    for e, m in pair(section.elements(), M.effective(el), f"elements of {path}"):
        kind = M.kind_of(m)
        here = f"{path} / {kind} {m.key!r} (line {m.line + 1})"
        yields = {k for k in O.KINDS if getattr(e, 'yields_' + k)()}
        if yields != YIELDS[kind]:
            raise Mismatch(f"{here}: yields {sorted(yields)}, expected {sorted(YIELDS[kind])}")
        obj = convert(e, kind)
        if kind == M.SECTION:
            yield from walk(obj, m, here)
            continue
        yield obj, m, here
        if kind == M.LIST:
            for item, i in pair(obj.items(), M.items_of(m), f"items of {here}"):
                yield item, i, f"{here} / item (line {i.line + 1})"
        elif kind == M.FIELDSET:
            for entry, i in pair(obj.entries(), M.entries_of(m), f"entries of {here}"):
                yield entry, i, f"{here} / entry {i.key!r} (line {i.line + 1})"


def kind_now(m):
    return M.kind_of(m)


def check_value(doc, obj, m, path, stats):
    """Compares everything a value, list, comment accessor says with the written text."""
    if kind_now(m) in (M.FIELD, M.ITEM, M.ENTRY):
        want = M.value_of(doc, m)
        got = obj.optional_string_value()
        if got != want:
            raise Violation(f"{path}: value {got!r}, written {want!r}")
        kind, v = R.outcome(obj.required_string_value)
        if want is None:
            if kind != 'validation':
                raise Violation(f"{path}: required_string_value() {R.describe((kind, v))} although nothing is written")
        elif (kind, v) != ('ok', want):
            raise Violation(f"{path}: required_string_value() {R.describe((kind, v))}, written {want!r}")
        stats['values compared'] += 1
    if kind_now(m) == M.LIST:
        want = [M.value_of(doc, i) for i in M.items_of(m)]
        got = obj.optional_string_values()
        if got != want:
            raise Violation(f"{path}: values {got!r}, written {want!r}")
        if obj.length() != len(want):
            raise Violation(f"{path}: length {obj.length()}, written {len(want)}")
        stats['value lists compared'] += 1


def check_comment(doc, obj, m, path, stats):
    want = M.comment_text(m) or None
    got = obj.optional_string_comment()
    if got != want:
        raise Violation(f"{path}: comment {got!r}, written {want!r}")
    kind, v = R.outcome(obj.required_string_comment)
    if want is None:
        if kind != 'validation':
            raise Violation(f"{path}: required_string_comment() {R.describe((kind, v))} although there is none")
    elif (kind, v) != ('ok', want):
        raise Violation(f"{path}: required_string_comment() {R.describe((kind, v))}, written {want!r}")
    stats['comments compared'] += 1
    if want is not None:
        stats['comments present'] += 1


# representative lines, one per production of the notation and per way of being malformed
LINES = ['', '> c', '>', 'a: v', 'b:', '- i', 'k = e', '| d', '\\ s', '# s', '## t', '-- m', '-- m x', 'a < b', '# s << t', '`q` : w', 'plain', '`open']
SYMBOLS = ['a', ' ', '`', '<', ':', '=', '#', '-', '>', '|', '\\', '\n']


def strings(symbols, up_to):
    for n in range(up_to + 1):
        for x in itertools.product(symbols, repeat=n):
            yield ''.join(x)


def sequences(lines, up_to, least=1):
    for n in range(least, up_to + 1):
        for x in itertools.product(lines, repeat=n):
            yield '\n'.join(x)


def ladders(up_to):
    """Every well-formed succession of up to so many section levels, and climbs up to 40 levels that return to every level."""
    def levels(n, above):
        if not n:
            yield ()
            return
        for d in range(1, above + 2):
            for rest in levels(n - 1, d):
                yield (d,) + rest
    for n in range(1, up_to + 1):
        for x in levels(n, 0):
            yield '\n'.join('#' * d + f" s{i}" for i, d in enumerate(x))
    for top in (*range(1, 13), 25, 40):
        for back in range(1, top + 1):
            for gap in ('', '\na: 1', '\na:\n- 1'):
                yield '\n'.join('#' * d + f" s{d}{gap}" for d in [*range(1, top + 1), back, back, *([back + 1] if back < top else [])])


def selfnamed():
    """Sections whose subsections share a name and copy one another, below sections that copy each other."""
    ops = ['', ' < A', ' << A', ' < B', ' << B']
    subs = ['', ' < k', ' << k', ' < A', ' << B']
    for (a, b), (s, t) in itertools.product(itertools.product(ops, repeat=2), itertools.product(subs, repeat=2)):
        for own in ('', '\np: {}', '\n### u\np: {}'):
            for order in (0, 1):
                x = f"# A{a}\n## k{s}{own.format(1)}", f"# B{b}\n## k{t}{own.format(2)}"
                yield '\n'.join(x[::-1] if order else x)


# --- C01 ----------------------------------------------------------------------------------------------------------
def summary(text, **options):
    kind, v = R.outcome(lambda: R.parse(text, **options))
    if kind == 'ok':
        k, raw = R.outcome(v.raw)
        return (kind, repr(raw) if k == 'ok' else k)
    if kind == 'parse':
        return (kind, v.text, v.snippet, repr(v.selection), repr(v.cursor), v.message)
    return (kind, R.shown(v))


SOURCES = [None, None, 'file.eno', '', '<b>&"\'', 'a b/\u00e4\U0001f600', 42, 'x' * 300]
SOURCES = R.portable(SOURCES)


@register
class C01(Check):
    id = 'C01'
    hang_is_violation = True
    quick, thorough = 60000, 1500000
    floors = {'parses observed': 20000, 'parse errors': 5000, 'accepted': 2000, 'deep documents': 50, 'determinism pairs': 20000}
    level_note = ("Held on every parse observed: arbitrary unicode, mutated and exhaustive short strings, deep nesting and copy chains, under all shipped "
                  "reporters, languages and source labels; says nothing about strings the generators cannot produce or nesting above 150 levels.")
    rule = ('every string over 12 notation symbols up to a bound, plus seeded random documents (well-formed, copying, mutated, line soup, character soup, arbitrary '
            'unicode, up to 150 levels deep) with a random reporter, locale and source label; non-trivial = not blank. Oracle: outcome is a document or a parse error, '
            'twice the same, and the same in two fresh processes with other hash seeds and in opposite orders')
    assumptions = ['nesting and copy chains of at most 150 levels', 'a case without outcome within 30 CPU seconds does not terminate']

    def enumerate(self, tier):
        for i, t in enumerate(itertools.chain(selfnamed(), strings(SYMBOLS, 4 if tier == 'quick' else 5))):
            yield {'doc': t, 'reporter': 'text html terminal'.split()[i % 3], 'locale': 'en de es'.split()[i // 3 % 3], 'source': SOURCES[i // 9 % len(SOURCES)]}

    def deep(self, r):
        n = r.randint(20, 150)
        shape = r.randrange(5)
        if shape == 0:
            return '\n'.join('#' * (i + 1) + ' s' for i in range(n))
        if shape == 1:
            lines = ['n0: v'] + [f"n{i} < n{i - 1}" for i in range(1, n)]
        elif shape == 2:
            lines = ['# n0', 'a: v'] + [l for i in range(1, n) for l in (f"# n{i} {r.choice(['<', '<<'])} n{i - 1}", f"b{i}: v")]
        elif shape == 3:
            lines = [f"n{i} < n{(i + 1) % n}" for i in range(n)]
        else:
            lines = ['n0:', '- v'] + [l for i in range(1, n) for l in (f"n{i} < n{i - 1}", '- w')]
        if shape in (1, 3) and r.random() < 0.5:
            r.shuffle(lines)
        return '\n'.join(lines)

    def generate(self, r, tier):
        g = G.Gen(r, odd=r.choice([0.1, 0.5]), blanks=r.choice([0.1, 0.5]))
        deep = r.random() < 0.01
        k = r.random()
        text = self.deep(r) if deep else g.any() if k < 0.6 else g.unicode() if k < 0.75 else g.chars() if k < 0.9 else g.malformed()
        return {'doc': text, 'reporter': r.choice(['text', 'html', 'terminal']), 'locale': r.choice(['en', 'de', 'es']), 'source': r.choice(SOURCES), 'deep': deep}

    def judge(self, case, stats):
        options = {'locale': R.LOCALES[case['locale']], 'reporter': R.REPORTERS[case['reporter']], 'source': case['source']}
        text = case['doc']
        first = summary(text, **options)
        stats['parses observed'] += 1
        if case.get('deep'):
            stats['deep documents'] += 1
        if first[0] not in ('ok', 'parse'):
            raise Violation(f"parsing raised {first[1]} instead of returning a document or raising a parse error")
        stats['accepted' if first[0] == 'ok' else 'parse errors'] += 1
        if first[0] == 'ok' and first[1] == 'other':
            stats['content not readable'] += 1
        second = summary(text, **options)
        stats['determinism pairs'] += 1
        if first != second:
            raise Violation(f"parsing twice gave {first!r:.300} and then {second!r:.300}")
        default = R.outcome(lambda: R.enolib.parse(text))
        if default[0] not in ('ok', 'parse'):
            raise Violation(f"parsing with default options {R.describe(default)}")
        if default[0] != first[0]:
            raise Violation(f"default options: {default[0]}, with {case['reporter']}/{case['locale']}/{case['source']!r}: {first[0]}")
        return text if text.strip() else None

    def digests(self, seed, count, backwards):
        import hashlib
        r = random.Random(f"{seed}/C01/processes")
        h = []
        cases = [self.generate(r, 'quick') for _ in range(count)]
        for case in reversed(cases) if backwards else cases:
            options = {'locale': R.LOCALES[case['locale']], 'reporter': R.REPORTERS[case['reporter']], 'source': case['source']}
            h.append(hashlib.sha1(repr(summary(case['doc'], **options)).encode('utf-8', 'surrogatepass')).hexdigest()[:12])
        return h[::-1] if backwards else h

    def finish(self, tier, seed, stats):
        count = 1500 if tier == 'quick' else 15000
        outputs = []
        for hashseed, backwards in (('1', 0), ('77', 1)):
            p = subprocess.run([sys.executable, '-B', os.path.join(HERE, 'run.py'), 'C01', '--digests', str(seed), str(count), str(backwards)],
                               env=dict(os.environ, PYTHONHASHSEED=hashseed), capture_output=True, text=True, timeout=600)
            if p.returncode:
                raise RuntimeError(p.stderr)
            outputs.append(json.loads(p.stdout.splitlines()[-1]))
        stats['parses compared across processes'] += count
        for i, (a, b) in enumerate(zip(*outputs)):
            if a != b:
                r = random.Random(f"{seed}/C01/processes")
                case = [self.generate(r, 'quick') for _ in range(i + 1)][-1]
                v = Violation('the outcome of parsing differs between two processes with different hash seeds that parse in opposite orders')
                v.case = case
                raise v


# --- C02 ----------------------------------------------------------------------------------------------------------
@register
class C02(Check):
    id = 'C02'
    quick, thorough = 120000, 3000000
    floors = {'verdicts compared': 40000, 'rejected': 8000, 'accepted': 8000}
    level_note = ('Acceptance and the diagnosis (kind of problem, line number) of every generated text agree with a hand-written scanner and line state machine; '
                  'exhaustive for short strings over the notation alphabet and short sequences of representative lines, sampled beyond.')
    rule = ('all strings over 12 symbols and all sequences of 18 representative lines up to a bound, plus random well-formed, mutated and line-soup documents; '
            'non-trivial = at least one non-blank line; oracle: independent scanner/state machine')

    def enumerate(self, tier):
        n = 0 if tier == 'quick' else 1
        for t in strings(SYMBOLS, 4 + n):
            yield {'doc': t}
        for t in sequences(LINES, 3 + n, 2):
            yield {'doc': t}
        yield from ({'doc': t} for t in ladders(4 + 3 * n))
        # every way of starting a line, with every kind of line open before it
        for before in ('', 'a: v', 'a:', 'a:\n- i', 'a:\nk = v', 'a < b\nb:', 'a < b\n- i\nb:', '-- m\n-- m', '# s', '# s\n## t', '# s\na:\n- i\n'):
            for gap in ('', '\n', '\n> c', '\n\n> c\n'):
                for t in strings(SYMBOLS[:-1], 2):
                    yield {'doc': f"{before}{gap}\n{t}"}

    def generate(self, r, tier):
        g = G.Gen(r, odd=r.choice([0.1, 0.6]), blanks=r.choice([0.05, 0.5]))
        return {'doc': g.malformed() if r.random() < 0.6 else g.any() if r.random() < 0.6 else g.valid()}

    def judge(self, case, stats):
        text = case['doc']
        doc, err = modelled(text)
        o = observed(text)
        stats['verdicts compared'] += 1
        if err is None:
            stats['accepted'] += 1
            if o[0] != 'ok':
                raise Violation(f"well-formed text was not accepted: {R.describe(o)}")
        else:
            stats['rejected'] += 1
            stats['rejected: ' + err.msg] += 1
            if o[0] == 'ok':
                raise Violation(f"malformed text was accepted, expected {err.text()!r}")
            if o[0] != 'parse':
                raise Violation(f"malformed text: {R.describe(o)}, expected a parse error {err.text()!r}")
            texts = [a.text() for a in err.alternatives]
            if o[1].text not in texts:
                raise Violation(f"diagnosed as {o[1].text!r}, expected {texts[0]!r}" + (f" or one of {texts[1:4]}" if len(texts) > 1 else ''))
            lines = {a.sel['from']['line'] for a in err.alternatives if a.text() == o[1].text}
            if o[1].cursor['line'] not in lines:
                raise Violation(f"diagnosed {o[1].text!r} in line {o[1].cursor['line'] + 1}, expected line {sorted(l + 1 for l in lines)}")
        return text if text.strip() else None


# --- C03 ----------------------------------------------------------------------------------------------------------
def written(text, stats):
    """Model and library document of an accepted text, or None."""
    doc, err = modelled(text)
    if err is not None:
        return None
    o = observed(text)
    if o[0] != 'ok':
        raise Violation(f"the well-formed document cannot be read: {R.describe(o)}")
    if any(e.template is not None for e in doc.root.walk()):
        stats['documents with copies'] += 1
    return doc, o[1]


@register
class C03(Check):
    id = 'C03'
    quick, thorough = 60000, 1500000
    floors = {'elements compared': 20000, 'documents walked': 8000, 'sections compared': 2000, 'escaped or odd keys compared': 2000}
    level_note = ('For every accepted document observed, walking it through the public queries visits exactly the written elements, in order, with kind, key and written '
                  'line; both against an independent scanner and against documents rendered from a known tree.')
    rule = ('documents without copies: exhaustive short sequences of representative lines, random documents with keys made of operators/quotes/unicode, and documents '
            'rendered from a random abstract tree; non-trivial = at least one element; oracle: reference tree and the abstract tree')

    def enumerate(self, tier):
        lines = ['a: v', 'b:', '- i', 'k = e', '# s', '## t', '### u', '-- m\nx\n-- m', '', '> c', '`q`:', '| d']
        for t in sequences(lines, 4 if tier == 'quick' else 5):
            yield {'doc': t}
        yield from ({'doc': t} for t in ladders(6 if tier == 'quick' else 8))
        for key in G.ODD_KEYS + G.PLAIN_KEYS:
            g = G.Gen(random.Random(0), blanks=0)
            for form in ('{q}: v', '{q}:', '{q} = e', '# {s}', '-- {k}\nx\n-- {k}', '  {q}  :v', '#  {s}  ', '--{gap}{k}  \n{k}: x\n--  {k}'):
                text = form.format(q=g.quote(key), s=g.quote(key), k=key, gap=' ' if key.startswith('-') else '')
                yield {'doc': 'f:\n' + text if ' = ' in form else text}

    def generate(self, r, tier):
        g = G.Gen(r, odd=r.choice([0.2, 0.7]), blanks=r.choice([0.1, 0.5]))
        if r.random() < 0.35:
            tree, text = g.abstract()
            return {'doc': text, 'tree': tree}
        k = r.random()
        return {'doc': g.plain(pool=r.choice([None, None, ['a', 'b']])) if k < 0.5 else g.valid() if k < 0.75 else twins(r) if k < 0.85 else g.mutate(g.plain())}

    def shrinkable(self, case):
        return [] if 'tree' in case else ['doc']

    def judge(self, case, stats):
        if 'tree' in case:
            o = observed(case['doc'])
            if o[0] != 'ok':
                raise Violation(f"the document rendered from {case['tree']!r:.700} cannot be read: {R.describe(o)}")
            stats['documents rendered from a known tree'] += 1
            got = shape(o[1])
            if got != case['tree']:
                raise Violation(f"the document was rendered from {case['tree']!r:.700} but reads {got!r:.700}")
        pair_ = written(case['doc'], stats)
        if pair_ is None:
            return None
        doc, real = pair_
        stats['documents walked'] += 1
        count = 0
        try:
            for obj, m, path in walk(real, doc.root):
                count += 1
                if m.kind == M.DOCUMENT:
                    continue
                key = obj.string_key()
                want = m.parent.key if m.kind == M.ITEM else m.key
                if key != want:
                    raise Violation(f"{path}: key {key!r}, written {want!r}")
                line = line_of(obj)
                if line is not None and line != m.line:
                    raise Violation(f"{path}: is the element of line {line + 1}")
                stats['elements compared'] += 1
                if m.kind == M.SECTION:
                    stats['sections compared'] += 1
                if want in G.ODD_KEYS:
                    stats['escaped or odd keys compared'] += 1
        except Mismatch as e:
            raise Violation(str(e))
        return case['doc'] if count > 1 else None


def shape(section):
    """Kinds, keys and values of a document through public queries, as plain data."""
    out = []
    for e in section.elements():
        if e.yields_section():
            out.append(['section', e.string_key(), shape(e.to_section())])
        elif e.yields_empty():
            out.append(['empty', e.string_key()])
        elif e.yields_field():
            out.append(['field', e.string_key(), e.to_field().optional_string_value()])
        elif e.yields_list():
            out.append(['list', e.string_key(), e.to_list().optional_string_values()])
        else:
            out.append(['fieldset', e.string_key(), [[i.string_key(), i.optional_string_value()] for i in e.to_fieldset().entries()]])
    return out


# --- C04 ----------------------------------------------------------------------------------------------------------
@register
class C04(Check):
    id = 'C04'
    quick, thorough = 60000, 1500000
    floors = {'values compared': 60000, 'value lists compared': 2000}
    level_note = ('Every value read from the observed documents equals the one folded independently from the written lines; exhaustive over short sequences of '
                  'continuations, blanks and comments below each kind of value holder.')
    rule = ('all sequences of direct/spaced/empty continuations, blank and comment lines up to a bound below fields, empty elements, items and entries; all short multiline '
            'bodies over hostile lines; random documents; non-trivial = at least one value holder; oracle: independent folding')

    def enumerate(self, tier):
        parts = ['| d', '\\ s', '|', '\\', '', '> c', '|  ']
        for head in ('a: v', 'a:', '`a` :  v ', 'l:\n- v', 'l:\n-', 'f:\nk = v', 'f:\nk ='):
            for t in sequences(parts, 4 if tier == 'quick' else 6):
                yield {'doc': head + '\n' + t}
        body = ['', '  ', 'x', ' y ', '-- m.', '--- m', '-- n', '--', 'm: v', '> c', '- m', '\\ s', '\t', '--m m']
        for n in range(0, 4 if tier == 'quick' else 5):
            for b in itertools.product(body, repeat=n):
                yield {'doc': '\n'.join(('-- m',) + b + ('-- m',))}

    def generate(self, r, tier):
        g = G.Gen(r, odd=0.2, blanks=r.choice([0.1, 0.6]))
        if r.random() < 0.5:
            return {'doc': g.plain() if r.random() < 0.6 else g.valid()}
        out = []
        for _ in range(r.randint(1, 4)):
            k = r.randrange(5)
            if k == 0:
                out += g.multiline(g.key())
                continue
            key = g.key()
            out.append(g.field(key, g.value()) if k == 1 else g.empty(key))
            if k == 3:
                out.append(g.item(r.choice([g.value(), ''])))
            if k == 4:
                out.append(g.entry(g.key(), r.choice([g.value(), ''])))
            for _ in range(r.randint(0, 6)):
                out.append(r.choice([g.cont, g.cont, g.blank, g.comment])())
        return {'doc': g.finish(out)}

    def judge(self, case, stats):
        p = written(case['doc'], stats)
        if p is None:
            return None
        doc, real = p
        seen = 0
        try:
            for obj, m, path in walk(real, doc.root):
                check_value(doc, obj, m, path, stats)
                seen += kind_now(m) in (M.FIELD, M.ITEM, M.ENTRY)
        except Mismatch:
            stats['tree differs (judged by C03)'] += 1
        return case['doc'] if seen else None


# --- C05 ----------------------------------------------------------------------------------------------------------
@register
class C05(Check):
    id = 'C05'
    quick, thorough = 60000, 1500000
    floors = {'comments compared': 60000, 'comments present': 15000}
    level_note = ('Comments read from every element of the observed documents equal the block association and dedenting computed independently; exhaustive over short '
                  'arrangements of comment, blank and continuation lines before and inside each kind of element.')
    rule = ('all arrangements of comment lines (several indentations, empty), blank lines and continuations up to a bound around each kind of element, plus random documents; '
            'non-trivial = at least one comment line; oracle: independent association and dedent')

    def enumerate(self, tier):
        parts = ['> a', '  >  b', '>', '', '>   c', '\t> d ']
        tails = ['x: v', 'x:', '# s', '-- m\nb\n-- m', 'x:\n- i', 'x:\nk = v']
        for n in range(1, 5 if tier == 'quick' else 6):
            for block in itertools.product(parts, repeat=n):
                for tail in tails:
                    yield {'doc': '\n'.join(block) + '\n' + tail}
        inner = ['> a', ' > b', '>', '', '| d']
        for head, tail in (('l:', '- i'), ('l:\n- h', '- i'), ('f:', 'k = v'), ('f:\nh = v', 'k = v'), ('a: v', 'b: w'), ('# s', '## t'), ('-- m\n-- m', 'b: w'), ('a: v', '')):
            for block in sequences(inner, 3 if tier == 'quick' else 4):
                yield {'doc': f"{head}\n{block}\n{tail}"}
        # comments before, between and below any two elements, copies among them
        elements = ['x: v', 'x:', 'x:\n- i', 'x:\nk = v', '-- x\nb\n-- x', 'y < o', '# x', '# y < O', '## z << O', 'x: v\n| d', 'y < p\n- j', 'y < q\nk = w']
        blocks = ['', '> a\n', '> a\n>   b\n', '> a\n\n', '\n> a\n', '> a\n| d\n', '> a\n\\ s\n> b\n', '>\n', '\n']
        base = '# B\n{}o: v\n\np:\n- i\n\nq:\nk = v\n\n# O\nr: v\n\n# S\n'
        for commented in ('', '> t\n'):
            for one, two in itertools.product(elements, repeat=2):
                for first, second in itertools.product(blocks, repeat=2):
                    if tier != 'quick' or not commented or not first:
                        yield {'doc': f"{base.format(commented)}{first}{one}\n{second}{two}\nw: v"}

    def generate(self, r, tier):
        g = G.Gen(r, odd=0.1, blanks=r.choice([0.1, 0.5]))
        out = []
        for line in (g.plain() if r.random() < 0.5 else g.valid() if r.random() < 0.8 else twins(r)).split('\n'):
            if r.random() < 0.35:
                for _ in range(r.randint(1, 4)):
                    out.append(g.comment())
                if r.random() < 0.2:
                    out.append('')
            out.append(line)
        return {'doc': '\n'.join(out)}

    def judge(self, case, stats):
        p = written(case['doc'], stats)
        if p is None:
            return None
        doc, real = p
        try:
            for obj, m, path in walk(real, doc.root):
                check_comment(doc, obj, m, path, stats)
        except Mismatch:
            stats['tree differs (judged by C03)'] += 1
        return case['doc'] if doc.detached or doc.attached else None


# --- C06, C07 -----------------------------------------------------------------------------------------------------
def compare_everything(doc, real, stats, wanted):
    """Walks the document through queries and compares values, comments and raw() of everything satisfying wanted(m)."""
    try:
        for obj, m, path in walk(real, doc.root):
            if not wanted(m):
                continue
            if m.kind != M.DOCUMENT:
                key = obj.string_key()
                want = m.parent.key if m.kind == M.ITEM else m.key
                if key != want:
                    raise Violation(f"{path}: key {key!r}, expected {want!r}")
            check_value(doc, obj, m, path, stats)
            check_comment(doc, obj, m, path, stats)
            raw, want = obj.raw(), M.raw(doc, m)
            if raw != want:
                raise Violation(f"{path}: content {raw}, expected {want}")
            stats['elements compared'] += 1
            if m.tmpl is not None:
                stats['copies compared'] += 1
                if m.tmpl.tmpl is not None:
                    stats['chained copies compared'] += 1
                if m.tmpl.line > m.line:
                    stats['copies declared before their template'] += 1
                if m.comments is None and M.comments_of(m) is not None:
                    stats['inherited comments compared'] += 1
    except Mismatch as e:
        raise Violation(str(e))


@register
class C06(Check):
    id = 'C06'
    quick, thorough = 50000, 1200000
    floors = {'copies compared': 10000, 'chained copies compared': 2000, 'copies declared before their template': 3000, 'inherited comments compared': 500}
    level_note = ('Values, items, entries, comments and raw content of every copy and every template in the observed documents equal a declarative evaluation of the copies; '
                  'exhaustive over arrangements of three elements, sampled for longer chains.')
    rule = ('all documents of three elements, each a field, empty element, list, fieldset, multiline field or a copy of another one with or without own items/entries and comment; '
            'random copy graphs in shuffled order, some inside sections; non-trivial = at least one copy; oracle: declarative copy semantics')

    def enumerate(self, tier):
        def shapes(i):
            n = f"n{i}"
            yield from (f"{n}: v{i}", f"{n}:", f"{n}:\n- i{i}\n- j", f"{n}:\na = {i}\nb = {i}", f"-- {n}\nm{i}\n-- {n}")
            for t in range(3):
                if t != i:
                    yield from (f"{n} < n{t}", f"{n} < n{t}\n- i{i}", f"{n} < n{t}\nb = {i}\nc = {i}")
        full = tier != 'quick'
        for k, x in enumerate(itertools.product(*(list(shapes(i)) for i in range(3)))):
            for mask in (range(8) if full else (0, 1 + k % 7)):
                yield {'doc': '\n\n'.join((f"> c{i}\n" if mask >> i & 1 else '') + e for i, e in enumerate(x))}

    def generate(self, r, tier):
        g = G.Gen(r, odd=0.1, blanks=r.choice([0.05, 0.4]))
        return {'doc': g.copying(wild=0 if r.random() < 0.9 else 0.1) if r.random() < 0.9 else g.mixed()}

    def judge(self, case, stats):
        p = written(case['doc'], stats)
        if p is None:
            return None
        doc, real = p
        stats['documents walked'] += 1
        compare_everything(doc, real, stats, lambda m: m.kind not in (M.SECTION, M.DOCUMENT))
        return case['doc'] if any(e.tmpl is not None and e.kind != M.SECTION for e in doc.root.walk()) else None


@register
class C07(Check):
    id = 'C07'
    quick, thorough = 20000, 500000
    floors = {'copies compared': 8000, 'chained copies compared': 1500, 'copies declared before their template': 1000, 'deep merges compared': 1000}
    level_note = ('The merged content of every section in the observed documents, seen through queries and raw(), equals a declarative evaluation of shallow and deep copies; '
                  'exhaustive over small two- and three-section documents, sampled for deeper ones.')
    rule = ('all pairs/triples of small sections copying each other shallowly or deeply in every order; random section trees with copies at several depths in shuffled order; '
            'non-trivial = at least one section copy; oracle: declarative merge semantics')

    BODIES = ['', 'p: {n}', 'p: {n}\nq: {n}', '## x\np: {n}', '## x\nq: {n}\n### y\np: {n}', '## x\np: {n}\n## x\nq: {n}', 'x: {n}', '> k{n}\n## x\nq: {n}', 'q:\n- {n}\n## y\np: {n}']

    def enumerate(self, tier):
        names = ['A', 'B', 'C']
        for (i, a), (j, b) in itertools.product(enumerate(self.BODIES), repeat=2):
            for op in ('<', '<<'):
                for swap in (0, 1):
                    for comment in ('', '> t\n'):
                        x, y = f"{comment}# A\n{a.format(n=1)}", f"# B {op} A\n{b.format(n=2)}"
                        yield {'doc': '\n\n'.join((y, x) if swap else (x, y))}
        bodies = self.BODIES if tier != 'quick' else self.BODIES[1:5] + self.BODIES[7:8]
        for a, b, c in itertools.product(bodies, repeat=3):
            for o1, o2 in itertools.product(('<', '<<'), repeat=2):
                blocks = [f"# A\n{a.format(n=1)}", f"# B {o1} A\n{b.format(n=2)}", f"# C {o2} B\n{c.format(n=3)}"]
                orders = list(itertools.permutations(blocks))
                for order in (orders if tier != 'quick' else (orders[0], orders[5], orders[3])):
                    yield {'doc': '\n\n'.join(order)}
        for t in selfnamed():
            yield {'doc': t}

    def generate(self, r, tier):
        g = G.Gen(r, odd=0.05, blanks=r.choice([0.02, 0.3]))
        return {'doc': g.sections(wild=0 if r.random() < 0.85 else 0.1) if r.random() < 0.9 else g.mixed()}

    def judge(self, case, stats):
        p = written(case['doc'], stats)
        if p is None:
            return None
        doc, real = p
        stats['documents walked'] += 1
        compare_everything(doc, real, stats, lambda m: True)
        copies = 0
        for e in doc.root.walk():
            if e.kind == M.SECTION:
                copies += e.tmpl is not None
                stats['deep merges compared'] += M.implied_template(e) is not None
        return case['doc'] if copies else None


# --- C08 ----------------------------------------------------------------------------------------------------------
@register
class C08(Check):
    id = 'C08'
    quick, thorough = 100000, 2500000
    floors = {'verdicts compared': 20000, 'rejected': 8000, 'accepted': 5000, 'rejected: cyclic_dependency': 1500, 'rejected: two_or_more_templates_found': 500,
              'rejected: section_not_found': 300, 'rejected: non_section_element_not_found': 300, 'rejected: missing_list_for_list_item': 100,
              'rejected: missing_fieldset_for_fieldset_entry': 100}
    level_note = ('Acceptance of copies and the stated cause agree with an independent analysis of the copy graph (candidates, compatibility, strongly connected components); '
                  'any true cause is accepted when there are several. Exhaustive for graphs of three elements or sections, sampled beyond.')
    rule = ('all copy graphs among three elements and among three (nested) sections, random larger graphs with wrong, missing, ambiguous and circular templates; non-trivial = '
            'at least one copy; oracle: graph analysis listing every true cause')

    def enumerate(self, tier):
        names = ['n0', 'n1', 'n2', 'no']
        kinds = ['{n}: v', '{n}:', '{n}:\n- i', '{n}:\na = v']
        shapes = kinds + [f"{{n}} < {t}" for t in names] + [f"{{n}} < {t}\n- i" for t in names[:3]] + [f"{{n}} < {t}\na = w" for t in names[:3]]
        for x in itertools.product(shapes, repeat=3):
            yield {'doc': '\n'.join(s.format(n=f"n{i}") for i, s in enumerate(x))}
        for t in selfnamed():
            yield {'doc': t}
        # duplicates of one name
        for x in itertools.product(['a: v', 'a < a', 'a < b', 'b: w', 'b < a', '# a', '# b < a', '# a < b', '# a < a', 'c < a', '# c << a'], repeat=4 if tier != 'quick' else 3):
            yield {'doc': '\n'.join(x)}
        # nested sections
        ops = ['', ' < A', ' << A', ' < B', ' << B', ' < C', ' << C']
        for depths in ((1, 1, 1), (1, 2, 1), (1, 1, 2), (1, 2, 2), (1, 2, 3)):
            for x in itertools.product(ops, repeat=3):
                for own in ('', '\nv: 1'):
                    yield {'doc': '\n'.join('#' * d + f" {n}{o}{own}" for d, n, o in zip(depths, 'ABC', x))}
        if tier != 'quick':
            for depths in ((1, 1, 1, 1), (1, 2, 1, 2), (1, 2, 2, 1), (1, 2, 3, 1), (1, 1, 2, 3)):
                for x in itertools.product(ops + [' << D'], repeat=4):
                    yield {'doc': '\n'.join('#' * d + f" {n}{o}\nv: 1" for d, n, o in zip(depths, 'ABCD', x))}

    def generate(self, r, tier):
        g = G.Gen(r, odd=0.05, blanks=0.1)
        k = r.random()
        return {'doc': g.copying(wild=0.35) if k < 0.45 else g.sections(wild=0.35) if k < 0.9 else g.mixed()}

    def judge(self, case, stats):
        text = case['doc']
        try:
            doc = M.analyze(text)
        except M.Err:
            return None
        copies = [e for e in doc.root.walk() if e.template is not None]
        if not copies:
            return None
        try:
            M.resolve(doc)
            err = None
        except M.Err as e:
            err = e
        o = observed(text)
        stats['verdicts compared'] += 1
        if err is None:
            stats['accepted'] += 1
            if o[0] != 'ok':
                raise Violation(f"every copy can be resolved, but parsing {R.describe(o)}")
            return text
        stats['rejected'] += 1
        causes = [f"{a.text()} in line {a.sel['from']['line'] + 1}" for a in err.alternatives]
        if o[0] != 'parse':
            raise Violation(f"parsing {R.describe(o)}, expected to be rejected because of {causes[:4]}")
        fitting = [a for a in err.alternatives if a.text() == o[1].text and a.sel['from']['line'] == o[1].cursor['line']]
        if not fitting:
            raise Violation(f"rejected with {o[1].text!r} in line {o[1].cursor['line'] + 1}, true causes are {causes[:6]}")
        stats['rejected: ' + fitting[0].msg] += 1
        try:
            rows = R.text_rows(o[1].snippet)
        except R.Malformed:
            return text
        marked = {m: {r[0] for r in rows if r != '...' and r[1] == m} for m in (M.EMPH, M.IND, M.QUEST)}
        ok = False
        for a in fitting:
            if a.msg == 'cyclic_dependency':
                ok = ok or (marked[M.EMPH] == {a.sel['from']['line']} and marked[M.IND] <= a.cycle)
            elif a.msg == 'two_or_more_templates_found':
                want = {l for l, m in a.marks.items()}
                ok = ok or (marked[M.QUEST] | marked[M.EMPH]) == want
            else:
                ok = ok or marked[M.EMPH] == {a.sel['from']['line']}
        if not ok:
            raise Violation(f"{o[1].text!r}: lines marked as involved {({k: sorted(x + 1 for x in v) for k, v in marked.items()})} are not those involved")
        return text


# --- histories ----------------------------------------------------------------------------------------------------
def history_document(g, r, shape=None):
    """A small accepted document whose content is specified."""
    for _ in range(20):
        k = shape or r.choice(['plain', 'plain', 'keyed', 'copying', 'sections', 'sections', 'mixed', 'twins'])
        if k == 'twins':
            t = twins(r)
        elif k == 'plain':
            t = g.plain(size=r.randint(1, 7), pool=r.choice([['a', 'b'], ['a', 'b', 'c', 'd'], None, G.NEAR_KEYS, None, G.NEAR_KEYS, G.LONG_KEYS]))
        elif k == 'keyed':
            t = g.plain(size=r.randint(3, 9), pool=['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h'])
        elif k == 'copying':
            t = g.copying(wild=0)
        elif k == 'sections':
            t = g.sections(wild=0)
        else:
            t = g.mixed()
        doc, err = modelled(t)
        if err is None:
            return t
    return 'a: v'


def twins(r):
    """Several sections that repeat the same few keys with different content, so that confusing one for another shows."""
    out, n, depth = [], 0, 0

    def content(few=1, many=4):
        nonlocal n
        for _ in range(r.randint(few, many)):
            n += 1
            key = r.choice('ab')
            if r.random() < 0.15:
                out.append(f"> c{n}")
            kind = r.choice(['field', 'field', 'list', 'fieldset', 'fieldset', 'empty', 'multiline', 'continued'])
            if kind == 'multiline':
                out.extend([f"-- {key}", f"m{n}", f"-- {key}"])
            elif kind == 'continued':
                out.extend([f"{key}: v{n}", f"{r.choice('|' + chr(92))} w{n}"])
            else:
                out.append(f"{key}:" + (f" v{n}" if kind == 'field' else ''))
            for i in range(r.randint(1, 3) if kind in ('list', 'fieldset') else 0):
                out.append(f"- i{n}.{i}" if kind == 'list' else f"{r.choice('xy')} = e{n}.{i}")
    content(0, 2)
    for _ in range(r.randint(2, 5)):
        depth = r.randint(1, min(depth + 1, 3))
        out.append('#' * depth + ' ' + r.choice('st'))
        content()
    return '\n'.join(out)


def ops(r, n):
    return [[r.getrandbits(16) for _ in range(4)] for _ in range(n)]


class History(Check):
    """Histories in lock step with the reference; subclasses name the divergences (facets) that break their property."""
    facets = ()
    weights = {}
    length = (5, 40)
    gone = keyless = 1
    shape = None
    observed_as = 'calls compared'

    def relevant(self, step):
        return True

    def generate(self, r, tier):
        g = G.Gen(r, odd=0.15, blanks=r.choice([0.05, 0.4]))
        return {'doc': history_document(g, r, self.shape), 'ops': ops(r, r.randint(*self.length))}

    def count(self, step, stats):
        stats[self.observed_as] += 1

    def begin(self, case, stats):
        return None

    def judged(self, facet, step):
        return facet in self.facets

    def judge(self, case, stats):
        p = both(case['doc'], stats)
        if p is None:
            return None
        doc, real = p
        signature = []

        def observer(step, trace):
            if self.relevant(step):
                self.count(step, stats)
                signature.append(step.label)
                for facet, text in step.facets:
                    if self.judged(facet, step):
                        raise Violation(f"{step.label}: {text} [{facet}], after {trace[:-1]}")
            if step.facets:
                stats['divergences of other properties'] += 1

        O.run_history(doc, real, case['ops'], self.weights, observer, self.gone, self.keyless, self.begin(case, stats))
        return (case['doc'], tuple(signature)) if signature else None


QUERY_WEIGHTS = {
    'Section': O.SINGLES + list(O.PLURALS) * 3 + ['string_key', 'required_string_comment', 'optional_string_comment'],
    'SectionElement': O.CONVERT + ['string_key', 'required_string_comment', 'optional_string_comment'],
    'Fieldset': O.ENTRIES + ['string_key', 'required_string_comment', 'optional_string_comment'],
    'List': ['items', 'items', 'length', 'string_key', 'required_string_comment'] + O.VALUES,
    'Field': O.VALUE + O.BASE[:6], 'FieldsetEntry': O.VALUE + O.BASE[:6], 'ListItem': O.VALUE + O.BASE[:6], 'Empty': O.BASE[:6],
    'MissingSection': ['section', 'field'], 'MissingSectionElement': ['to_field'], 'MissingField': ['optional_string_value'], 'MissingEmpty': ['raw'],
    'MissingFieldset': ['entries'], 'MissingFieldsetEntry': ['optional_string_value'], 'MissingList': ['items'],
}


@register
class C09(History):
    id = 'C09'
    quick, thorough = 30000, 800000
    facets = ('kind', 'object', 'text', 'value', 'second', 'crash')
    weights = QUERY_WEIGHTS
    floors = {'calls compared': 100000, 'raised: expected_single': 1000, 'raised: expected_kind': 1000, 'raised: missing': 2000, 'placeholders': 1000, 'absent allowed': 1000,
              'elements returned': 20000, 'lists returned': 10000}
    level_note = ('Every query outcome (element, placeholder, nothing, which validation error) in the observed histories equals that of a reference model run in lock step, '
                  'on every reachable section, fieldset and list; all single queries with every key are additionally swept on small documents.')
    rule = ('random documents x random histories of typed queries with existing, duplicate, absent and no key on every object obtained so far, plus sweeps of every query on every '
            'reachable object; non-trivial = at least one query compared; oracle: lock-step reference model')

    def relevant(self, step):
        return not isinstance(step.m, O.Missing)

    def count(self, step, stats):
        stats['calls compared'] += 1
        res = step.res
        if res.kind == 'err':
            name = res.value.msg
            stats['raised: expected_single' if name.startswith('expected_single') else 'raised: expected_kind' if name.startswith('expected') else
                  'raised: missing value or comment' if name.endswith('_value') or name.endswith('comment') else 'raised: missing'] += 1
        elif res.kind == 'obj':
            stats['placeholders' if isinstance(res.value, O.Missing) else 'elements returned'] += 1
        elif res.kind == 'objs':
            stats['lists returned'] += 1
        elif step.name.startswith('optional_') and res.value is None:
            stats['absent allowed'] += 1
        elif res.kind == 'second':
            stats['type errors for a second kind'] += 1

    PIECES = ['a: v', 'a:', 'a:\n- i', 'a:\nk = e', '# a', '-- a\nm\n-- a', 'b: w', 'a:\n- i\n- j', 'a:\nk = e\nk = f']

    def enumerate(self, tier):
        for n in range(0, 3 if tier == 'quick' else 4):
            for x in itertools.product(self.PIECES, repeat=n):
                doc = '\n'.join(x)
                for name in O.SINGLES + list(O.PLURALS):
                    for key in ('a', 'gone', None, 'A', 'a ', ' a', 'aa'):
                        yield {'doc': doc, 'query': [name, key]}

    def judge(self, case, stats):
        if 'query' not in case:
            return super().judge(case, stats)
        p = both(case['doc'], stats)
        if p is None:
            return None
        env = O.Env(*p)
        name, key = case['query']
        s = O.perform(env, p[1], env.root, name, [key])
        self.count(s, stats)
        for facet, text in s.facets:
            if facet in self.facets:
                raise Violation(f"{s.label}: {text} [{facet}]")
        return (case['doc'], name, key)


@register
class C10(History):
    id = 'C10'
    quick, thorough = 40000, 1000000
    facets = ('kind', 'object', 'text', 'value', 'position', 'crash')
    gone, keyless = 6, 1
    length = (6, 30)
    weights = {
        'Section': [k for k in O.KINDS + ('element',)] + ['section', 'fieldset', 'section'],
        'SectionElement': ['to_fieldset', 'to_section', 'yields_list'], 'Fieldset': ['entry', 'entry', 'entries'],
        'Field': ['string_key'], 'FieldsetEntry': ['string_key'], 'ListItem': ['string_key'], 'List': ['length'], 'Empty': ['string_key'],
        'MissingSection': O.SINGLES[:6] * 3 + O.SINGLES[6:] + list(O.PLURALS) + O.BASE,
    }
    floors = {'placeholder calls compared': 100000, 'errors for the first missing element': 30000, 'placeholders below placeholders': 10000, 'chains of three and more': 2000}
    level_note = ('Every call on every placeholder in the observed chains gives what the reference model says (nothing, empty, placeholder, or the error of the first missing '
                  'element at the existing container); all methods of all placeholder kinds are also swept through chains of two.')
    rule = ('random documents x histories that mostly ask for absent elements and then query the placeholders obtained; sweep of every chain of two calls; non-trivial = at least one '
            'call on a placeholder; oracle: lock-step reference model')

    def relevant(self, step):
        return isinstance(step.m, O.Missing) or step.res.kind == 'obj' and isinstance(step.res.value, O.Missing)

    def count(self, step, stats):
        m = step.m
        if isinstance(m, O.Missing):
            stats['placeholder calls compared'] += 1
            stats[f"calls on {m.cls}"] += 1
            depth = 0
            while isinstance(m, O.Missing):
                depth, m = depth + 1, m.parent
            if step.res.kind == 'obj':
                stats['placeholders below placeholders'] += 1
            if depth >= 3:
                stats['chains of three and more'] += 1
            if step.res.kind == 'err':
                stats['errors for the first missing element'] += 1

    CONTAINERS = [('', []), ('# s\na: v', [['section', ['s']]]), ('f:\nk = v', [['fieldset', ['f']]]), ('# s\n## t\n> c', [['section', ['s']], ['section', ['t']]])]

    def enumerate(self, tier):
        for doc, path in self.CONTAINERS:
            for key in ('gone', None):
                yield {'doc': doc, 'chain': path, 'key': key, 'depth': 3 if tier == 'quick' else 4}

    def judge(self, case, stats):
        if 'chain' not in case:
            return super().judge(case, stats)
        doc, real = both(case['doc'])
        env = O.Env(doc, real)
        obj, m = real, env.root
        for name, args in case['chain']:
            s = O.perform(env, obj, m, name, args)
            obj, m = s.real[1], s.res.value

        def visit(obj, m, depth, trace):
            for name in O.METHODS[m.cls]:
                if not isinstance(m, O.Missing) and name not in O.KINDS + ('element', 'entry'):
                    continue
                if depth == 0 and not isinstance(m, O.Missing):
                    return
                args = [case['key'] if not isinstance(m, O.Missing) else 'x'] if name in O.KEYED else ['fail'] if name in O.LOADED else []
                if args == [None] and any(True for _ in m.all):
                    args = ['gone']
                s = O.perform(env, obj, m, name, args)
                self.count(s, stats)
                for facet, text in s.facets:
                    if facet in self.facets:
                        raise Violation(f"{trace + [s.label]}: {text} [{facet}]")
                if s.res.kind == 'obj' and depth > 0 and not s.facets:
                    visit(s.real[1], s.res.value, depth - 1, trace + [s.label])
        visit(obj, m, case['depth'], [])
        return repr(case)


@register
class C11(History):
    id = 'C11'
    quick, thorough = 40000, 1000000
    facets = ('kind', 'text', 'value', 'crash')
    length = (8, 45)
    weights = {
        'Section': O.SINGLES[:6] * 2 + list(O.PLURALS) * 4 + ['touch', 'string_key', 'raw', 'optional_string_comment', 'parent'] + ['assert_all_touched'] * 14,
        'SectionElement': O.CONVERT[:5] * 3 + ['touch', 'touch', 'string_key', 'raw'] + O.ERRORS,
        'Fieldset': O.ENTRIES + ['entries', 'touch', 'string_key', 'raw', 'optional_string_comment', 'required_comment', 'parent', 'repr'] + O.ERRORS + ['assert_all_touched'] * 6,
        'List': O.VALUES + ['items', 'touch', 'string_key', 'raw', 'optional_string_comment', 'parent', 'repr'] + O.ERRORS,
        'Field': ['touch', 'string_key', 'optional_string_value', 'required_value', 'optional_comment', 'raw', 'value_error', 'key', 'repr', 'parent'] + O.ERRORS,
        'FieldsetEntry': ['touch', 'string_key', 'optional_string_value', 'required_value', 'optional_comment', 'raw', 'value_error', 'key', 'repr', 'parent'] + O.ERRORS,
        'ListItem': ['touch', 'string_key', 'optional_string_value', 'required_value', 'optional_comment', 'raw', 'value_error', 'key', 'repr', 'parent'] + O.ERRORS,
        'Empty': ['touch', 'string_key', 'key', 'optional_string_comment', 'raw', 'repr', 'parent'] + O.ERRORS,
    }
    floors = {'assertions compared': 60000, 'assertions that pass': 8000, 'assertions that fail': 30000, 'passing after reads': 3000, 'assertions with filter': 15000, 'touches compared': 10000}
    level_note = ('The verdict of every assertion in the observed access histories - passing, or naming an element that is really unread, with the right message - equals that of a '
                  'reference touch ledger run in lock step; histories that read everything, everything but one, or touch containers are included systematically.')
    rule = ('random documents x random access histories with interspersed assertions (filters, plain/computed messages); for small documents all-but-one reading histories; '
            'non-trivial = at least one assertion; oracle: touch ledger derived from the history')

    def relevant(self, step):
        return step.name in ('assert_all_touched', 'touch') and not isinstance(step.m, O.Missing)

    def count(self, step, stats):
        if step.name == 'touch':
            stats['touches compared'] += 1
            return
        stats['assertions compared'] += 1
        if step.args[1] or step.args[2]:
            stats['assertions with filter'] += 1
        if step.res.kind == 'err':
            stats['assertions that fail'] += 1
        else:
            stats['assertions that pass'] += 1
            if step.m.all:
                stats['passing after reads'] += 1

    def generate(self, r, tier):
        case = super().generate(r, tier)
        if r.random() < 0.5:
            case = {'doc': case['doc'], 'reads': [r.getrandbits(16) for _ in range(40)], 'omit': r.randint(0, 8), 'seed': r.getrandbits(16)}
        return case

    READS = {'Field': ['string_key', 'optional_string_value', 'optional_string_comment', 'touch', 'optional_value'],
             'FieldsetEntry': ['string_key', 'optional_string_value', 'optional_string_comment', 'touch', 'required_string_value'],
             'ListItem': ['optional_string_value', 'optional_string_comment', 'touch', 'string_key'],
             'Empty': ['string_key', 'touch', 'optional_string_comment'], 'List': ['items', 'length', 'string_key', 'optional_string_comment'],
             'Fieldset': ['entries', 'string_key', 'optional_string_comment'], 'Section': ['elements', 'string_key', 'optional_string_comment', 'fields']}

    def judge(self, case, stats):
        if 'reads' not in case:
            return super().judge(case, stats)
        # read everything but one object, then assert at every level
        p = both(case['doc'], stats)
        if p is None:
            return None
        env = O.Env(*p)
        visited = []

        def perform(obj, m, name, args=()):
            s = O.perform(env, obj, m, name, list(args))
            if O.diverged(env, s) and name not in ('assert_all_touched', 'touch'):
                raise Mismatch()
            if name in ('assert_all_touched', 'touch'):
                self.count(s, stats)
                for facet, text in s.facets:
                    if facet in self.facets:
                        raise Violation(f"{s.label}: {text} [{facet}], after reading everything but {omitted}")
            return s

        reads = list(case['reads'])
        omitted = []
        asserts = []

        def visit(obj, m):
            index = len(visited)
            visited.append(m.label())
            skip = index == case['omit']
            whole = reads[index % len(reads)] % 11 == 0
            if skip:
                omitted.append(m.label())
            if m.cls in ('Section', 'Fieldset'):
                asserts.append((obj, m))
            if whole and not skip:
                perform(obj, m, 'touch')
                return
            if m.cls == 'Section':
                children = perform(obj, m, 'elements', [None])
                for c, cm in zip(children.real[1], children.res.value):
                    kind = M.kind_of(cm.el)
                    if len(visited) == case['omit'] and reads[index % len(reads)] % 2:
                        visited.append(cm.label())      # never even converted
                        omitted.append(cm.label())
                        continue
                    if reads[(index + 1) % len(reads)] % 13 == 0:
                        visited.append(cm.label())
                        perform(c, cm, 'touch')
                        continue
                    s = perform(c, cm, 'to_' + ('empty' if kind == M.EMPTY else kind))
                    visit(s.real[1], s.res.value)
            elif m.cls == 'List':
                children = perform(obj, m, 'items')
                for c, cm in zip(children.real[1], children.res.value):
                    visit(c, cm)
            elif m.cls == 'Fieldset':
                children = perform(obj, m, 'entries', [None])
                for c, cm in zip(children.real[1], children.res.value):
                    visit(c, cm)
            elif not skip:
                name = self.READS[m.cls][reads[index % len(reads)] % len(self.READS[m.cls])]
                args = ['upper'] if name in O.LOADED else []
                s = O.perform(env, obj, m, name, args)

        try:
            visit(p[1], env.root)
            for obj, m in asserts:
                for args in ([None, None, None], [['computed', 'unread'], None, None], [['plain', 'unread'], None, O.keys_for(m)[:1] or None], [None, O.keys_for(m)[:1] or None, None]):
                    perform(obj, m, 'assert_all_touched', args)
        except Mismatch:
            stats['divergences of other properties'] += 1
        return (case['doc'], case['omit'], tuple(case['reads'][:8]))


@register
class C12(History):
    id = 'C12'
    quick, thorough = 40000, 1000000
    facets = ('kind', 'object', 'text', 'crash')
    gone = 4
    shape = None
    weights = {
        'Section': ['all_elements_required'] * 5 + O.SINGLES + ['sections', 'sections', 'fieldsets', 'elements', 'section', 'fieldset'] * 2,
        'SectionElement': ['to_section', 'to_fieldset', 'to_section', 'to_fieldset', 'to_field'],
        'Fieldset': ['all_entries_required'] + ['entry', 'optional_entry', 'required_entry'] * 2,
        'Field': ['string_key'], 'FieldsetEntry': ['string_key'], 'ListItem': ['string_key'], 'List': ['length'], 'Empty': ['string_key'],
        'MissingSection': ['section'], 'MissingSectionElement': ['to_field'], 'MissingField': ['raw'], 'MissingEmpty': ['raw'], 'MissingFieldset': ['entry'],
        'MissingFieldsetEntry': ['raw'], 'MissingList': ['items'],
    }
    floors = {'queries for absent elements': 60000, 'raised only because required by default': 15000, 'lenient after being told the opposite': 500, 'switches': 20000,
              'switches below the document': 4000}
    level_note = ('Every query for an absent element in the observed histories raises or stays lenient exactly as a reference model of the requirement switch says, for sections and '
                  'fieldsets obtained before and after the switch, at every level.')
    rule = ('random nested documents x random interleavings of the requirement switches with queries at all levels; non-trivial = at least one switch; oracle: lock-step '
            'reference model')

    def generate(self, r, tier):
        case = super().generate(r, tier)
        if r.random() < 0.6:
            g = G.Gen(r, odd=0, blanks=0)
            out = []
            depth = 0
            for i in range(r.randint(2, 6)):
                depth = r.randint(1, depth + 1)
                out.append('#' * depth + f" s{i}")
                out += r.choice([[], ['a: v'], [f"f{i}:", 'k = v'], [f"f{i}:", 'k = v', 'k = w'], ['e:']])
            case['doc'] = '\n'.join(out)
        return case

    def relevant(self, step):
        return not isinstance(step.m, O.Missing)

    def count(self, step, stats):
        if step.name in ('all_elements_required', 'all_entries_required'):
            stats['switches'] += 1
            if step.m.el.kind != M.DOCUMENT:
                stats['switches below the document'] += 1
            step.m.env.switched = True
            return
        absent = step.name in O.KEYED and step.name not in O.PLURALS and step.name != 'entries' and not step.m.matching(step.args[0])
        if absent:
            stats['queries for absent elements'] += 1
            if step.res.kind == 'err' and not step.name.startswith('required_'):
                stats['raised only because required by default'] += 1
            elif getattr(step.m.env, 'switched', False) and not step.m.required:
                stats['lenient after being told the opposite'] += 1


# --- errors -------------------------------------------------------------------------------------------------------
def consistent_position(text, starts, e):
    """The parts of a selection describe the same places in the text, and in order."""
    s = e.selection
    if sorted(s) != ['from', 'to']:
        return f"selection {s}"
    for name in ('from', 'to'):
        p = s[name]
        if sorted(p) != ['column', 'index', 'line'] or any(type(v) is not int for v in p.values()):
            return f"position {p}"
        if not 0 <= p['line'] < len(starts) or p['column'] < 0:
            return f"position {p} is outside the document"
        if p['index'] != starts[p['line']] + p['column']:
            return f"line {p['line']} column {p['column']} is index {starts[p['line']] + p['column']}, not {p['index']}"
        end = starts[p['line'] + 1] - 1 if p['line'] + 1 < len(starts) else len(text)
        if p['index'] > end:
            return f"position {p} is behind the end of its line ({end})"
    if s['from']['index'] > s['to']['index']:
        return f"selection starts behind its end: {s}"
    if e.cursor != s['from']:
        return f"cursor {e.cursor} is not the start {s['from']}"
    return None


def starts_of(text):
    starts = [0]
    for i, c in enumerate(text):
        if c == '\n':
            starts.append(i + 1)
    return starts


def error_of(step):
    """The enolib error a step raised or returned, if any."""
    kind, v = step.real
    if kind in ('validation', 'parse'):
        return v
    if step.res.kind == 'returned' and isinstance(v, R.enolib.Error):
        return v
    return None


ERROR_METHODS = O.ERRORS + ['value_error']


def error_plan(m):
    """Calls that raise or return errors, for every kind of error."""
    for name, args in O.full_plan(m, loaders=('fail',), skip=('touch', 'raw', 'repr', 'parent', 'string_key', 'optional_string_comment', 'optional_string_value',
                                                              'all_elements_required', 'all_entries_required', 'length')):
        if name == 'assert_all_touched' and args[0] is not None:
            continue
        if name in O.KEYED and name.startswith('optional_') and args[0] == 'gone':
            continue
        yield name, args


def spread(text, r):
    """Moves the document, or what follows one of its lines, far down: line numbers get more digits, distances long."""
    n = r.choice([9, 99, 250, 999]) - r.randint(0, 8)
    lead = [''] * n if r.random() < 0.7 else [r.choice(['', '', '> c']) for _ in range(n)] + ['']
    lines = text.split('\n')
    at = 0 if r.random() < 0.6 else r.randrange(len(lines))
    return '\n'.join(lines[:at] + lead + lines[at:])



class Errors(Check):
    """Collects errors: parse errors of malformed documents, validation errors by sweeping and by histories."""
    mistakes = 0.35

    def generate(self, r, tier):
        g = G.Gen(r, odd=0.2, blanks=r.choice([0.05, 0.3, 0.6]))
        k = r.random()
        if k < self.mistakes:
            return {'doc': self.spread(g.malformed() if r.random() < 0.8 else g.any(), r), 'mode': 'parse'}
        if k < 0.75:
            return {'doc': self.spread(history_document(g, r), r), 'mode': 'sweep', 'deep': r.random() < 0.4}
        return {'doc': self.spread(history_document(g, r), r), 'mode': 'history', 'ops': ops(r, r.randint(5, 30))}

    def spread(self, text, r):
        """Sometimes moves the document far down, so that line numbers get more digits."""
        return spread(text, r) if r.random() < 0.06 else text

    def enumerate(self, tier):
        n = 3 if tier == 'quick' else 4
        for t in sequences(LINES, n, 1):
            yield {'doc': t, 'mode': 'parse'}
        small = ['a: v', 'b:', 'c:\n- i\n\n- j', 'd:\nk = e\n> c\nl =', '> c\n# s', '# s\n## t', '-- m\n\nx\n-- m', '-- m\n-- m', '> c\n> d\na: v\n| w\n\n\\ x', ' e < a', 'a:\n\\ v', '`q` = x', '']
        for t in sequences(small, 2 if tier == 'quick' else 3, 1):
            yield {'doc': t, 'mode': 'sweep'}

    def errors(self, case, stats, see, limit=260):
        """see(step or None, enolib error, model document, description of the error, label, facets)"""
        text = case['doc']
        if case['mode'] == 'parse':
            doc, err = modelled(text)
            kind, e = observed(text)
            if kind == 'parse':
                stats['parse errors'] += 1
                see(None, e, M.Doc(text), err, 'parse()', O.err_facets(O.Env(M.Doc(text), None), e, err) if err is not None else [])
                return text
            return None
        p = both(text, stats)
        if p is None:
            return None
        count = 0

        def observer(step, trace):
            nonlocal count
            e = error_of(step)
            if e is not None:
                count += 1
                see(step, e, p[0], step.res.value if step.res.kind in ('err', 'returned') else None, ' . '.join(trace[-3:]), step.facets)

        if case['mode'] == 'sweep':
            O.sweep(*p, error_plan, observer, limit, case.get('deep', False))
        else:
            O.run_history(*p, case['ops'], {}, observer)
        return (text, case['mode'], repr(case.get('ops', ''))[:80]) if count else None


@register
class C13(Errors):
    id = 'C13'
    quick, thorough = 7000, 200000
    floors = {'selections compared': 150000, 'parse errors': 3000, 'empty selections': 3000, 'multi-line selections': 5000}
    level_note = ('Every error observed has self-consistent positions and selects exactly the text computed from the document by the reference, for all kinds of errors on all kinds '
                  'of elements the workload produced.')
    rule = ('parse errors of malformed documents (exhaustive short line sequences, random) and validation errors from sweeping every erring call over every reachable object and from '
            'random histories; non-trivial = at least one error; oracle: line/column/index arithmetic and the reference extents')

    def judge(self, case, stats):
        text = case['doc']
        starts = starts_of(text)

        def see(step, e, doc, err, label, facets):
            stats['selections compared'] += 1
            problem = consistent_position(text, starts, e)
            if problem:
                raise Violation(f"{label}: {e.text!r}: {problem}")
            if e.selection['from'] == e.selection['to']:
                stats['empty selections'] += 1
            elif e.selection['from']['line'] != e.selection['to']['line']:
                stats['multi-line selections'] += 1
            for facet, what in facets or ():
                if facet == 'position' and not any(f in ('kind', 'text') for f, _ in facets):
                    raise Violation(f"{label}: {e.text!r}: {what}")
        return self.errors(case, stats, see)


@register
class C14(Errors):
    id = 'C14'
    quick, thorough = 7000, 200000
    floors = {'reports compared': 150000, 'parse errors': 3000, 'reports with omissions': 10000, 'reports with source label': 3000}
    level_note = ('Every plain text report observed consists of exactly the rows, marks and omissions computed from the document by the reference, quoting the written lines; message '
                  'and label are checked on the same errors.')
    rule = ('errors as for C13, additionally parsed with source labels; non-trivial = at least one error; oracle: reference extents plus context-window rule')

    SOURCE = 'some file.eno'

    def judge(self, case, stats):
        text = case['doc']

        def see(step, e, doc, err, label, facets):
            stats['reports compared'] += 1
            if '...' in e.snippet:
                stats['reports with omissions'] += 1
            if e.message != f"{e.text}\n\n{e.snippet}" or str(e) != e.message:
                raise Violation(f"{label}: message {e.message!r} is not text and snippet")
            try:
                rows = R.text_rows(e.snippet)
            except R.Malformed as m:
                raise Violation(f"{label}: {m}")
            last = -1
            for row in rows:
                if row == '...':
                    continue
                line, mark, shown = row
                if line <= last or line >= doc.count:
                    raise Violation(f"{label}: row for line {line + 1} after line {last + 1} of {doc.count} lines")
                last = line
                if shown != doc.lines[line] and not (R.nothing(shown) and R.nothing(doc.lines[line])):
                    raise Violation(f"{label}: line {line + 1} is quoted as {shown!r} but reads {doc.lines[line]!r}")
            for facet, what in facets or ():
                if facet == 'snippet' and not any(f in ('kind', 'text', 'position') for f, _ in facets):
                    raise Violation(f"{label}: {e.text!r}: {what}")
        signature = self.errors(case, stats, see)
        if case['mode'] == 'parse':
            plain = observed(text)
            if plain[0] == 'parse':
                for source in (self.SOURCE, 7):
                    labelled = observed(text, source=source)
                    stats['reports with source label'] += 1
                    if labelled[0] != 'parse' or labelled[1].snippet != f"-- {source} --\n\n{plain[1].snippet}":
                        raise Violation(f"with source {source!r}: {R.describe(labelled)} {getattr(labelled[1], 'snippet', '')!r:.200}, expected the label above {plain[1].snippet!r:.200}")
        else:
            plain, labelled = observed(text), observed(text, source=self.SOURCE)
            if plain[0] == labelled[0] == 'ok':
                a, b = (R.outcome(lambda: d.required_field('certainly gone')) for d in (plain[1], labelled[1]))
                if a[0] == b[0] == 'validation':
                    stats['reports with source label'] += 1
                    if b[1].snippet != f"-- {self.SOURCE} --\n\n{a[1].snippet}":
                        raise Violation(f"with source label: {b[1].snippet!r:.300}")
        return signature


@register
class C22(Errors):
    id = 'C22'
    quick, thorough = 8000, 200000
    mistakes = 0
    floors = {'requested errors compared': 100000, 'computed messages': 50000, 'value errors': 15000, 'comment errors': 25000, 'key errors': 25000, 'element errors': 25000, 'errors on copies': 3000}
    level_note = ('Every error the observed workloads requested is returned, carries the given or computed message (the callback receiving exactly the key, comment or value), and selects '
                  'and reports the place computed by the reference.')
    rule = ('every error request (plain and computed message) on every reachable object of random documents, copies included; non-trivial = at least one requested error; oracle: '
            'reference wording, callback arguments, selections and snippet rows')

    def enumerate(self, tier):
        for case in super().enumerate(tier):
            if case['mode'] == 'sweep':
                yield case

    def judge(self, case, stats):
        p = both(case['doc'], stats)
        if p is None:
            return None
        count = 0

        def observer(step, trace):
            nonlocal count
            if step.name not in ERROR_METHODS:
                return
            count += 1
            stats['requested errors compared'] += 1
            stats[{'error': 'element errors'}.get(step.name, step.name.replace('_error', ' errors'))] += 1
            if step.args[0][0] == 'computed':
                stats['computed messages'] += 1
            if getattr(step.m.el, 'tmpl', None) is not None:
                stats['errors on copies'] += 1
            for facet, what in step.facets:
                raise Violation(f"{step.label}: {what} [{facet}]")

        def plan(m):
            for name in O.METHODS[m.cls]:
                if name in ERROR_METHODS:
                    for kind in ('plain', 'computed'):
                        yield name, [[kind, 'oops %s {x} <b>']]

        if case['mode'] == 'sweep':
            O.sweep(*p, plan, observer)
        else:
            weights = {cls: [n for n in names if n in ERROR_METHODS] * 3 + [n for n in names if n not in ERROR_METHODS] for cls, names in O.METHODS.items()}
            O.run_history(*p, case['ops'], weights, observer)
        return (case['doc'], case['mode']) if count else None


# --- C15 ----------------------------------------------------------------------------------------------------------
@register
class C15(Check):
    id = 'C15'
    quick, thorough = 2600, 60000
    floors = {'positions compared': 60000, 'tokens found': 25000, 'positions outside': 5000, 'positions on lines between': 1500, 'positions in items and entries': 4000}
    level_note = ('For every index and every line/column of the observed documents both ways of asking return the element and token kind computed from the written lines; exhaustive over '
                  'all positions of each document.')
    rule = ('all positions of small random documents and of all short sequences of representative lines; non-trivial = at least one element; oracle: line ownership and token ranges of '
            'an independent scanner; both ways of asking compared with each other')

    def enumerate(self, tier):
        for t in sequences(['a : v', 'b:', '- i', 'k = e', '| d', '# s << s', '-- m\n\n x\n-- m', '', ' > c', '`q`< a', '## t'], 2 if tier == 'quick' else 3):
            yield {'doc': t}

    def generate(self, r, tier):
        g = G.Gen(r, odd=0.2, blanks=r.choice([0.1, 0.4]))
        if r.random() < 0.12:
            # larger documents, asked at some of their positions
            k = r.random()
            t = g.plain(size=r.randint(8, 30)) if k < 0.5 else g.copying(wild=0) if k < 0.7 else g.sections(wild=0) if k < 0.9 else twins(r)
            if r.random() < 0.2:
                t = spread(t, r)
            return {'doc': t, 'sample': r.getrandbits(32)}
        for _ in range(30):
            k = r.random()
            t = g.plain(size=r.randint(1, 5)) if k < 0.6 else g.copying(wild=0) if k < 0.8 else g.sections(wild=0) if k < 0.95 else g.mixed()
            if len(t) <= (160 if tier == 'quick' else 300) and modelled(t)[1] is None:
                return {'doc': t}
        return {'doc': t[:160]}

    def judge(self, case, stats):
        text = case['doc']
        p = both(text, stats)
        if p is None:
            return None
        doc = p[0]
        raws = {}
        lookup = lambda **at: R.outcome(lambda: R.enolib.lookup(text, locale=R.REC, **at))
        for bad in ({'index': -1}, {'index': len(text) + 1}, {'line': -1, 'column': 0}, {'line': doc.count, 'column': 0}, {'index': len(text) + 1000}, {'line': doc.count + 7, 'column': 3}):
            kind, v = lookup(**bad)
            stats['positions outside'] += 1
            if kind != 'other' or not isinstance(v, IndexError):
                raise Violation(f"lookup({bad}) outside the document {R.describe((kind, v))}")
        chosen = None
        if 'sample' in case:
            rng = random.Random(case['sample'])
            written = [i for i, l in enumerate(doc.lines) if l.strip()] or [0]
            stats['far down'] += len(doc.lines) > 258
            chosen = set()
            for i in range(24):
                line = rng.choice(written) if i % 2 else rng.randrange(len(doc.lines))
                chosen |= {(line, rng.randint(0, len(doc.lines[line]))), (line, 0), (line, len(doc.lines[line]))}
            chosen.add((len(doc.lines) - 1, len(doc.lines[-1])))
            stats['larger documents'] += 1
        for line, content in enumerate(doc.lines):
            for column in range(len(content) + 1):
                if chosen is not None and (line, column) not in chosen:
                    continue
                el, token = M.lookup(doc, line, column)
                if id(el) not in raws:
                    raws[id(el)] = M.raw(doc, el)
                answers = []
                for at in ({'index': doc.starts[line] + column}, {'line': line, 'column': column}):
                    kind, v = lookup(**at)
                    stats['positions compared'] += 1
                    where = f"lookup({at})"
                    if kind != 'ok':
                        raise Violation(f"{where} {R.describe((kind, v))}")
                    answers.append((v['range'],))
                    if v['range'] != token:
                        raise Violation(f"{where}: token {v['range']!r}, expected {token!r}")
                    raw = R.outcome(v['element'].raw)
                    if raw != ('ok', raws[id(el)]):
                        raise Violation(f"{where}: element {R.describe(raw)}, expected {raws[id(el)]}")
                    at_line = line_of(v['element'])
                    if at_line is not None and at_line != max(el.line, 0):
                        raise Violation(f"{where}: the element of line {at_line + 1}, expected line {el.line + 1}")
                if token:
                    stats['tokens found'] += 1
                    stats['token ' + token] += 1
                if el.kind in (M.ITEM, M.ENTRY):
                    stats['positions in items and entries'] += 1
                if line not in doc.toks:
                    stats['positions on lines between'] += 1
        return text if doc.root.elements else None


# --- C16 ----------------------------------------------------------------------------------------------------------
def plain_data(x):
    if isinstance(x, dict):
        return type(x) is dict and all(type(k) is str and plain_data(v) for k, v in x.items())
    if isinstance(x, list):
        return type(x) is list and all(map(plain_data, x))
    return x is None or type(x) is str


def from_queries(obj, kind):
    """What raw() should be, told by queries on the same object."""
    out = {'type': kind}
    comment = obj.optional_string_comment()
    if comment is not None:
        out['comment'] = comment
    if kind not in ('list_item', 'document'):
        out['key'] = obj.string_key()
    if kind in ('field', 'list_item', 'fieldset_entry'):
        out['value'] = obj.optional_string_value()
    elif kind == 'list':
        out['items'] = [from_queries(i, 'list_item') for i in obj.items()]
    elif kind == 'fieldset':
        out['entries'] = [from_queries(i, 'fieldset_entry') for i in obj.entries()]
    elif kind in ('section', 'document'):
        out['elements'] = []
        for e in obj.elements():
            k = ('section' if e.yields_section() else 'empty_element' if e.yields_empty() else 'field' if e.yields_field() else
                 'list' if e.yields_list() else 'fieldset')
            out['elements'].append(from_queries(getattr(e, 'to_' + k.replace('_element', ''))(), k))
    return out


def without_blank_comments(raw):
    if isinstance(raw, dict):
        return {k: without_blank_comments(v) for k, v in raw.items() if not (k == 'comment' and not v)}
    if isinstance(raw, list):
        return [without_blank_comments(v) for v in raw]
    return raw


def objects(obj, kind, path='document'):
    yield obj, kind, path
    if kind in ('section', 'document'):
        for e in obj.elements():
            k = ('section' if e.yields_section() else 'empty_element' if e.yields_empty() else 'field' if e.yields_field() else
                 'list' if e.yields_list() else 'fieldset')
            yield e, k, f"{path} / element"
            yield from objects(getattr(e, 'to_' + k.replace('_element', ''))(), k, f"{path} / {k}")
    elif kind == 'list':
        for i in obj.items():
            yield i, 'list_item', path + ' / item'
    elif kind == 'fieldset':
        for i in obj.entries():
            yield i, 'fieldset_entry', path + ' / entry'


@register
class C16(Check):
    id = 'C16'
    quick, thorough = 30000, 800000
    floors = {'objects compared': 200000, 'documents with copies': 8000, 'raw taken before any query': 10000, 'access checks': 5000}
    level_note = ('raw() of every object reached in the observed documents equals what the public queries on the same object report; both sides come from the library, no reference model '
                  'is involved, so documents of any kind (known finding included) are judged.')
    rule = ('random accepted documents with and without copies; raw() before any query, after all queries, and on every reachable object; non-trivial = at least one element; oracle: '
            'reconstruction of raw() from queries, plain-data check, touch assertions around raw()')

    def enumerate(self, tier):
        for cls, limit in ((C06, 1), (C07, 1)):
            yield from CHECKS[cls.id].enumerate('quick')

    def generate(self, r, tier):
        g = G.Gen(r, odd=0.2, blanks=r.choice([0.05, 0.4]))
        return {'doc': g.valid()}

    def judge(self, case, stats):
        text = case['doc']
        o = observed(text)
        if o[0] != 'ok':
            return None
        doc = o[1]
        before = doc.raw()
        stats['raw taken before any query'] += 1
        if not plain_data(before):
            raise Violation(f"raw() is not plain data: {before!r:.500}")
        told = from_queries(doc, 'document')
        if without_blank_comments(before) != told:
            raise Violation(f"raw() before any query {before!r:.700} but queries report {told!r:.700}")
        after = doc.raw()
        if after != before:
            raise Violation(f"raw() changed through queries from {before!r:.700} to {after!r:.700}")
        fresh = R.parse(text)
        if from_queries(fresh, 'document') != told:
            raise Violation('queries without raw() before report something else')
        for obj, kind, path in objects(fresh, 'document'):
            raw = obj.raw()
            stats['objects compared'] += 1
            if not plain_data(raw):
                raise Violation(f"{path}: raw() is not plain data: {raw!r:.500}")
            if 'element' == path.rpartition(' ')[2]:
                continue
            want = from_queries(obj, kind)
            if without_blank_comments(raw) != want:
                raise Violation(f"{path}: raw() {raw!r:.600} but queries report {want!r:.600}")
        # taking raw representations counts as no access
        untouched, rawed = R.parse(text), R.parse(text)
        rawed.raw()
        for e in rawed.elements():
            e.raw()
        untouched.elements()
        stats['access checks'] += 1
        a, b = (R.outcome(d.assert_all_touched) for d in (untouched, rawed))
        if a[0] != b[0] or a[0] == 'validation' and (a[1].text, a[1].selection) != (b[1].text, b[1].selection):
            raise Violation(f"after raw() assert_all_touched() {R.describe(b)}, otherwise {R.describe(a)}")
        # nor on objects of concrete kind
        count = len(told['elements'])
        if count:
            rawed = R.parse(text)
            for e in rawed.elements():
                k = next(k for k in ('section', 'empty', 'field', 'list', 'fieldset') if getattr(e, 'yields_' + k)())
                getattr(e, 'to_' + k)().raw()
            b = R.outcome(rawed.assert_all_touched)
            if b[0] != 'validation':
                raise Violation(f"after only raw() on the elements assert_all_touched() {R.describe(b)}")
        if '<' in text:
            stats['documents with copies'] += 1
        return text if count else None


# --- C17 ----------------------------------------------------------------------------------------------------------
@register
class C17(History):
    id = 'C17'
    quick, thorough = 24000, 600000
    facets = ('kind', 'value', 'text', 'calls', 'crash')
    shape = None
    weights = {
        'Section': ['elements', 'elements', 'fields', 'lists', 'fieldsets', 'sections', 'optional_comment', 'required_comment', 'key', 'field', 'list', 'fieldset', 'section', 'element', 'empty'],
        'SectionElement': O.CONVERT[:5] + ['key', 'optional_comment', 'required_comment'],
        'Field': ['optional_value', 'required_value', 'key', 'optional_comment', 'required_comment'],
        'FieldsetEntry': ['optional_value', 'required_value', 'key', 'optional_comment', 'required_comment'],
        'ListItem': ['optional_value', 'required_value', 'key', 'optional_comment', 'required_comment'],
        'List': ['items', 'optional_values', 'required_values', 'key', 'optional_comment', 'required_comment'],
        'Fieldset': ['entries', 'entries', 'entry', 'key', 'optional_comment', 'required_comment'], 'Empty': ['key', 'optional_comment', 'required_comment'],
        'MissingField': ['optional_value', 'required_value', 'key', 'optional_comment', 'required_comment'],
        'MissingFieldsetEntry': ['optional_value', 'required_value', 'key', 'optional_comment', 'required_comment'],
        'MissingList': ['optional_values', 'required_values', 'key', 'optional_comment', 'required_comment'],
        'MissingEmpty': ['key', 'optional_comment', 'required_comment'],
        'MissingFieldset': ['entry', 'key', 'optional_comment', 'required_comment'],
        'MissingSection': ['field', 'list', 'fieldset', 'key', 'optional_comment', 'required_comment'],
        'MissingSectionElement': ['to_field', 'to_list', 'key', 'optional_comment', 'required_comment'],
    }
    floors = {'loader accesses compared': 60000, 'loader calls recorded': 20000, 'loaders never called for absent text': 10000, 'loader errors in place': 5000,
              'exceptions passed through': 2500, 'registered accessors compared': 50000, 'registered on MissingField': 300, 'registered on List': 2000, 'loaders used within loaders': 3000}
    level_note = ('Every recorded loader call in the observed histories received exactly the text the reference expects, exactly once or never, and its result or error came out as '
                  'specified; every registered accessor name in all registration forms behaved like the generic accessor on every kind of object reached.')
    rule = ('random documents x histories of loader accessors with loaders that return, return None/0, raise ValueError (and a subclass), KeyError or TypeError; registration forms x '
            'every accessor name x every reachable object; non-trivial = at least one loader access; oracle: recorded calls against the reference, registered against generic accessor')

    def relevant(self, step):
        return step.name in O.LOADED and not (step.name == 'key' and not isinstance(step.m, O.Missing) and step.m.el.kind == M.DOCUMENT)

    def count(self, step, stats):
        stats['loader accesses compared'] += 1
        calls = len(step.m.env.model_calls)
        stats['loader calls recorded'] += len(step.m.env.real_calls)
        if not calls:
            stats['loaders never called for absent text'] += 1
        if step.res.kind == 'through':
            stats['exceptions passed through'] += 1
        elif step.res.kind == 'err' and calls:
            stats['loader errors in place'] += 1

    def generate(self, r, tier):
        case = super().generate(r, tier)
        if r.random() < 0.4:
            case['register'] = r.choice(['name', 'dict', 'keyword', 'mixed', 'again'])
            case['loader'] = r.choice(O.LOADERS)
            case['name'] = r.choice(['ld', 'as_x', 'color', 'n1', 'url'])
            del case['ops']
        elif r.random() < 0.5:
            case['nest'] = r.getrandbits(30)
        return case

    def judged(self, facet, step):
        # a loader's error belongs where the loaded text is
        return facet in self.facets or facet == 'position' and step.res.kind == 'err' and bool(step.m.env.model_calls)

    def begin(self, case, stats):
        if 'nest' not in case:
            return None
        r = random.Random(case['nest'])

        def begin(env):
            deep = []

            def during():
                """Runs inside a loader: what was obtained of the document so far is read through other loaders."""
                if deep or r.random() < 0.3:
                    return
                readable = [(o, m) for o, m in env.handles if not isinstance(m, O.Missing) and m.el.kind != M.DOCUMENT]
                if not readable:
                    return
                deep.append(1)
                for o, m in r.sample(readable, min(len(readable), r.randint(1, 3))):
                    name = r.choice(['optional_value', 'optional_value', 'required_value', 'optional_comment', 'optional_comment', 'required_comment', 'key'])
                    if name.endswith('_value') and m.cls not in ('Field', 'FieldsetEntry', 'ListItem'):
                        name = 'optional_comment'
                    fail = r.random() < 0.3

                    def inner(value):
                        if fail:
                            raise ValueError('inner')
                        return value
                    R.outcome(lambda: getattr(o, name)(inner))
                    stats['loaders used within loaders'] += 1
                deep.clear()
            env.during = during
        return begin

    def judge(self, case, stats):
        if 'register' not in case:
            return super().judge(case, stats)
        name, loader, form = case['name'], case['loader'], case['register']
        calls = []

        def f(value):
            return O.load(loader, value, calls)
        plain = f
        if form in ('dict', 'keyword', 'again'):
            f = O.FORMS[len(case['doc']) % len(O.FORMS)](f)

        def other(value):
            return ('other', value)
        plain.__name__ = name
        other.__name__ = name + '_other'
        if form == 'name':
            R.enolib.register(f)
        elif form == 'dict':
            R.enolib.register({name: f, name + '_other': other})
        elif form == 'keyword':
            R.enolib.register(**{name + '_other': other, name: f})
        elif form == 'mixed':
            R.enolib.register(other, {name: f}, **{name + '_third': other})
        else:
            R.enolib.register({name: other})
            R.enolib.register({name: f})
        p = both(case['doc'], stats)
        if p is None:
            return None
        doc, real = p
        second = R.parse(case['doc'])
        pairs = []
        try:
            for (a, m, path), (b, _, _) in zip(walk(real, doc.root), walk(second, doc.root)):
                pairs.append((a, b, m, path))
        except Mismatch:
            return None
        missing = [q for q in ('field', 'list', 'fieldset', 'section', 'empty', 'element')]
        for a, b, m, path in list(pairs):
            if kind_now(m) in (M.DOCUMENT, M.SECTION):
                for q in missing:
                    pairs.append((getattr(a, q)('gone gone'), getattr(b, q)('gone gone'), None, f"{path} / absent {q}"))
            elif kind_now(m) == M.FIELDSET:
                pairs.append((a.entry('gone gone'), b.entry('gone gone'), None, f"{path} / absent entry"))
        for a, b, m, path in pairs:
            forms = [(f"{name}_key", 'key'), (f"optional_{name}_comment", 'optional_comment'), (f"required_{name}_comment", 'required_comment')]
            if hasattr(b, 'required_value'):
                forms += [(f"optional_{name}_value", 'optional_value'), (f"required_{name}_value", 'required_value')]
            if hasattr(b, 'required_values'):
                forms += [(f"optional_{name}_values", 'optional_values'), (f"required_{name}_values", 'required_values')]
            for registered, generic in forms:
                calls.clear()
                x = R.outcome(lambda: getattr(a, registered)())
                got = list(calls)
                calls.clear()
                y = R.outcome(lambda: getattr(b, generic)(f))
                want = list(calls)
                stats['registered accessors compared'] += 1
                stats[f"registered on {type(b).__name__}"] += 1
                if x[0] != y[0] or got != want or not same_result(x, y):
                    raise Violation(f"{path}: {registered}() after registering by {form} {R.describe(x)} with calls {got}; {generic}(loader) {R.describe(y)} with calls {want}")
        return (case['doc'], name, loader, form)


def same_result(x, y):
    if x[0] == 'ok':
        return x[1] == y[1]
    if x[0] == 'other':
        return type(x[1]) is type(y[1]) and str(x[1]) == str(y[1])
    return (x[1].text, x[1].selection, x[1].snippet) == (y[1].text, y[1].selection, y[1].snippet)


# --- C18 ----------------------------------------------------------------------------------------------------------
import catalogue as K                                     # noqa: E402


def decode(text):
    """(message name, arguments) of a text worded by the recording locale."""
    if not (text.startswith('\u27e6') and text.endswith('\u27e7')):
        return None
    name, *rest = text[1:-1].split('\u00a6')
    return name, rest


def parsed_in(locale, text):
    return R.enolib.parse(text, locale=locale)


def found_in(locale, text, index):
    return R.enolib.lookup(text, index=index, locale=locale)['element']


SCRIPTS = [(t, eval(f"lambda t, l: {c}", {'p': parsed_in, 'at': found_in})) for t, c in
           [('a:\n', f"p(l, t).fieldset('a').{q}({k})") for q in ('required_entry', 'entry') for k in ('', "'k'")]
           + [('a:\n', f"p(l, t).fieldset('a').entry({k}).{q}()") for q in ('required_string_value', 'string_key', 'required_string_comment') for k in ('', "'k'")]
           + [('', f"p(l, t).{kind}({k}).{q}()") for kind in ('element', 'empty', 'field', 'fieldset', 'list', 'section') for k in ('', "'k'") for q in ('string_key', 'required_string_comment')]
           + [('', f"p(l, t).required_{kind}({k})") for kind in ('element', 'empty', 'field', 'fieldset', 'list', 'section') for k in ('', "'k'")]
           + [('f:\ne =\n', f"p(l, t).fieldset('f').entry('e').{q}") for q in ('required_string_value()', 'required_value(int)', 'value_error("x")', 'key_error("x")', 'comment_error("x")', 'required_string_comment()')]
           + [('l:\n-\n', f"p(l, t).list('l').items()[0].{q}") for q in ('required_string_value()', 'required_value(int)', 'value_error("x")', 'key_error("x")', 'comment_error("x")', 'required_string_comment()')]
           + [('l:\n- a\nf:\ne = a\nv: a\nn:\n# s\n', f"at(l, t, {i}).{q}") for i in (0, 3, 7, 10, 16, 21, 24)
              for q in ('to_list_item()', 'to_fieldset_entry()', 'to_list()', 'to_fieldset()', 'to_field()', 'to_empty()', 'to_section()', 'error("x")', 'key_error("x")', 'comment_error("x")')]
           + [('f:\ne = 1\ne = 2\n', f"p(l, t).fieldset('f').{q}({k})") for q in ('entry', 'optional_entry', 'required_entry', 'assert_all_touched') for k in ('', "'e'")]
           + [('a:\n', c) for c in ('[p(l, t).fieldset("a"), 1][0].assert_all_touched()', 'p(l, t).assert_all_touched()', 'p(l, t).assert_all_touched("own")')]]


@register
class C18(Errors):
    id = 'C18'
    quick, thorough = 2400, 80000
    mistakes = 0.4
    book = None
    floors = {'texts compared with the catalogue': 60000, 'parse errors': 500, 'steps compared across languages': 60000, 'headings compared': 60000, 'accepted in every language': 1000,
              'catalogue wordings compared': 201, 'different messages reached': 67}
    level_note = ('Every error text observed under every shipped language equals the wording catalogued in locales/ with the same facts in the same roles; acceptance, outcomes, positions '
                  'and quoted lines agree between the languages on every step observed. Every catalogued message is also asked for directly in every language.')
    rule = ('the same documents parsed and the same calls performed under English, German, Spanish and a recording catalogue (which spells out message name and arguments): every erring '
            'call on every reachable object, histories, malformed documents; non-trivial = at least one error; oracle: locales/specification.eno and locales/translations/*.po, read by '
            'an independent parser, and agreement between the languages')
    assumptions = ['locales/specification.eno and locales/translations/*.po are the published catalogue']

    SCENES = ['', 'a:\n- i\n-\nb:\nk = e\nl =\nl = m\nc: v\nd:\n\n# s\ne:\n- x', 'a: v\na: w\nb:\nb:', '# a\n# a\nb:\n- i\nb:\n- j\nc:\nk = e\nc:\nk = f', '> c\na: v\n> d\nb:\n- x\n> e\nc:\nk = v\nk = w']

    def enumerate(self, tier):
        yield {'doc': '', 'mode': 'catalogue'}
        for t in self.SCENES:
            yield {'doc': t, 'mode': 'sweep'}
            yield {'doc': t, 'mode': 'sweep', 'deep': True}
        for i in range(len(SCRIPTS)):
            yield {'doc': SCRIPTS[i][0], 'mode': 'script', 'script': i}
        for t in sequences(LINES, 2 if tier == 'quick' else 3, 1):
            yield {'doc': t, 'mode': 'parse'}
        for t in ['- i', 'a: v\n- i', 'a: v\nk = v', '| x', '-- m\nx', 'a < a', 'a < b', '# a < b', '# s < s', 'a: v\na: w\nb < a', '# a\n### b', '`x', '# a < b\n# b < a']:
            yield {'doc': t, 'mode': 'parse'}

    @classmethod
    def catalogue(cls):
        if cls.book is None:
            cls.book = K.Catalogue(os.path.join(R.REPO, 'locales'))
        return cls.book

    def heading(self, code, e, label):
        book = self.catalogue()
        gutter, content = ('Line', 'Content') if code == 'rec' else (book.word(code, 'gutter_header', []), book.word(code, 'content_header', []))
        try:
            return R.text_rows(e.snippet, None, gutter, content)
        except R.Malformed as m:
            raise Violation(f"{label} in {code}: {m}")

    def compare(self, recorded, others, label, stats):
        """recorded: outcome under the recording catalogue, others: {code: outcome}"""
        errors = {'rec': recorded[1]} if recorded[0] != 'other' and isinstance(recorded[1], R.enolib.Error) else {}
        for code, o in others.items():
            if o[0] != recorded[0]:
                raise Violation(f"{label}: {R.describe(o)} in {code}, but {R.describe(recorded)} in a neutral language")
            if o[0] != 'other' and isinstance(o[1], R.enolib.Error):
                errors[code] = o[1]
        if not errors:
            for code, o in others.items():
                if recorded[0] == 'ok' and isinstance(recorded[1], (str, int, list, type(None))) and all(isinstance(x, (str, type(None))) for x in (recorded[1] if isinstance(recorded[1], list) else ())):
                    if o[1] != recorded[1]:
                        raise Violation(f"{label}: {o[1]!r} in {code}, {recorded[1]!r} otherwise")
                if recorded[0] == 'other' and type(o[1]) is not type(recorded[1]):
                    raise Violation(f"{label}: {R.describe(o)} in {code}, but {R.describe(recorded)} otherwise")
            return
        if len(errors) != 4:
            raise Violation(f"{label}: an error only in {sorted(errors)}")
        said = decode(errors['rec'].text)
        if said is None:
            # a text given by the application, the same in every language
            for code, e in errors.items():
                if e.text != errors['rec'].text:
                    raise Violation(f"{label}: {e.text!r} in {code}, {errors['rec'].text!r} otherwise")
        else:
            name, args = said
            book = self.catalogue()
            if name not in book.messages:
                raise Violation(f"{label}: message {name} is not catalogued")
            roles = book.messages[name][0]
            if len(args) > len(roles):
                args = args[:len(roles) - 1] + ['\u00a6'.join(args[len(roles) - 1:])] if roles else args
            if len(args) != len(roles):
                raise Violation(f"{label}: message {name} with {len(args)} facts instead of {roles}")
            for role, arg in zip(roles, args):
                if role == 'LINE' and arg != str(errors['rec'].cursor['line'] + 1) and not arg.isdecimal():
                    raise Violation(f"{label}: message {name} has {arg!r} where the line number belongs")
            stats['reached ' + name] += 1
            for code in ('en', 'de', 'es'):
                want = book.word(code, name, args)
                stats['texts compared with the catalogue'] += 1
                if errors[code].text != want:
                    raise Violation(f"{label}: text in {code} {errors[code].text!r}, catalogued {want!r}")
        rows = {code: self.heading(code, e, label) for code, e in errors.items()}
        for code, e in errors.items():
            stats['headings compared'] += 1
            if type(e) is not type(errors['rec']) or e.selection != errors['rec'].selection or e.cursor != errors['rec'].cursor:
                raise Violation(f"{label}: {type(e).__name__} at {e.selection} in {code}, {type(errors['rec']).__name__} at {errors['rec'].selection} otherwise")
            if rows[code] != rows['rec']:
                raise Violation(f"{label}: report rows {rows[code]} in {code}, {rows['rec']} otherwise")

    def judge(self, case, stats):
        text = case['doc']
        if case['mode'] == 'catalogue':
            book = self.catalogue()
            for code in ('en', 'de', 'es'):
                for name, (roles, _) in sorted(book.messages.items()):
                    value = getattr(R.LOCALES[code], name, None)
                    if value is None:
                        if any(hasattr(R.LOCALES[other], name) for other in R.LOCALES):
                            raise Violation(f"{name} is offered in some languages, but not in {code}")
                        stats['catalogued messages not offered by name'] += 1
                        continue
                    args = [f"<{role} {i}>" for i, role in enumerate(roles)]
                    got = value(*args) if callable(value) else value
                    stats['catalogue wordings compared'] += 1
                    if got != book.word(code, name, args):
                        raise Violation(f"{name} in {code}: {got!r}, catalogued {book.word(code, name, args)!r}")
            return 'catalogue'
        runs = {}
        codes = {'rec': R.REC, **R.LOCALES}
        if case['mode'] == 'script':
            call = SCRIPTS[case['script']][1]
            results = {code: R.outcome(lambda: call(text, locale)) for code, locale in codes.items()}
            stats['steps compared across languages'] += 1
            self.compare(results.pop('rec'), results, f"script {case['script']} on {text!r}", stats)
            return (text, 'script', case['script'])
        parsed = {code: observed(text, locale=locale) for code, locale in codes.items()}
        recorded = parsed.pop('rec')
        self.compare(recorded, parsed, 'parsing', stats)
        # English is the default
        default = R.outcome(lambda: R.enolib.parse(text))
        if default[0] != parsed['en'][0] or default[0] == 'parse' and (default[1].text, default[1].snippet) != (parsed['en'][1].text, parsed['en'][1].snippet):
            raise Violation(f"without a language {R.describe(default)}, in English {R.describe(parsed['en'])}")
        if recorded[0] == 'parse':
            stats['parse errors'] += 1
            return text
        stats['accepted in every language'] += 1
        doc, err = modelled(text)
        if err is not None or recorded[0] != 'ok' or case['mode'] == 'parse':
            return None
        for code, o in [('rec', recorded)] + list(parsed.items()):
            steps = runs[code] = []
            observer = lambda step, trace: steps.append((step.label, step.name, step.real))
            if case['mode'] == 'sweep':
                O.sweep(doc, o[1], error_plan, observer, 160, case.get('deep', False))
            else:
                O.run_history(doc, o[1], case['ops'], {}, observer)
        for i, (label, name, o) in enumerate(runs['rec']):
            others = {}
            for code in R.LOCALES:
                if i >= len(runs[code]) or runs[code][i][0] != label:
                    raise Violation(f"{label}: the same calls take another course in {code}")
                others[code] = runs[code][i][2]
            stats['steps compared across languages'] += 1
            self.compare(o, others, label, stats)
        return (text, case['mode'], repr(case.get('ops', ''))[:80])

    def finish(self, tier, seed, stats):
        stats['different messages reached'] = sum(1 for k in stats if k.startswith('reached '))
        never = sorted(set(self.catalogue().messages) - {k[8:] for k in stats if k.startswith('reached ')} - {'gutter_header', 'content_header'})
        stats['messages never raised: ' + ', '.join(never)] = len(never)


# --- C19 ----------------------------------------------------------------------------------------------------------
def canonical(o):
    """An outcome as comparable plain data."""
    kind, v = o
    if kind in ('parse', 'validation'):
        return (kind, v.text, repr(v.selection), repr(v.cursor), v.snippet, v.message)
    if kind == 'other':
        return (kind, type(v).__name__, str(v)[:200])
    return (kind, plain(v))


def plain(v):
    if isinstance(v, R.enolib.Error):
        return canonical(('validation', v))
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if callable(getattr(v, 'raw', None)):
        k, raw = R.outcome(v.raw)
        line = line_of(v)
        return ('object', type(v).__name__, repr(raw) if k == 'ok' else k, line)
    return repr(v)


QUESTIONS = {cls: [n for n in names if n not in ('touch', 'all_elements_required', 'all_entries_required', 'assert_all_touched', 'repr')] for cls, names in O.METHODS.items()}
for _cls in ('Section', 'SectionElement', 'Fieldset', 'List'):
    QUESTIONS[_cls] = QUESTIONS[_cls] + [n for n in QUESTIONS[_cls] if n not in O.BASE + O.ERRORS] * 3


def question(doc, r):
    """A chain of calls [(method, args, index)] starting at the document that ends with an answer."""
    env = O.Env(doc, None)
    m, chain = env.root, []
    straight = r.random() < 0.4     # straight down to a leaf by natural kinds, then one question
    for left in range(r.choice([1, 2, 2, 3, 3, 4, 5]) if not straight else 12, 0, -1):
        env.handles = [(None, m)]
        resolved = None
        if straight:
            if isinstance(m, O.Section) and m.all:
                x = r.choice(m.all)
                k = M.kind_of(x.el)
                if len(m.matching(x.el.key)) == 1 and k != M.EMPTY and r.random() < 0.5:
                    resolved = (None, None, k, [x.el.key])
                else:
                    resolved = (None, None, 'elements', [r.choice([None, x.el.key])])
            elif isinstance(m, O.SectionElement):
                k = M.kind_of(m.el)
                resolved = (None, None, 'to_' + ('empty' if k == M.EMPTY else k), [])
            elif isinstance(m, O.List) and m.all and r.random() < 0.5:
                resolved = (None, None, 'items', [])
            elif isinstance(m, O.Fieldset) and m.all and r.random() < 0.7:
                x = r.choice(m.all)
                resolved = (None, None, 'entry' if len(m.matching(x.el.key)) == 1 else 'entries', [x.el.key])
        last = resolved is None
        if last:
            resolved = O.resolve(env, [0] + [r.getrandbits(16) for _ in range(3)], QUESTIONS)
            if resolved is None:
                break
        _, _, name, args = resolved
        res = O.model_call(m, name, args)
        index = r.getrandbits(8)
        chain.append((name, args, index))
        if straight and last:
            break
        if res.kind == 'obj':
            m = res.value
        elif res.kind == 'objs' and res.value:
            m = res.value[index % len(res.value)]
        else:
            break
    return chain


def ask(env, real, chain):
    """The answer to a question, and whether the reference expects a type error for a second kind on the way."""
    obj, m = real, env.root
    for name, args, index in chain:
        s = O.perform(env, obj, m, name, args)
        if s.res.kind == 'second' or s.res.kind == 'err' and s.res.also_type and s.real[0] == 'other':
            return s, 'second', None
        if name == chain[-1][0] and (name, args, index) is chain[-1] or s.res.kind not in ('obj', 'objs') or s.real[0] != 'ok':
            break
        try:
            if s.res.kind == 'obj':
                obj, m = s.real[1], s.res.value
            elif s.res.value:
                at = index % len(s.res.value)
                obj, m = s.real[1][at], s.res.value[at]
            else:
                break
        except (IndexError, TypeError):
            break
    return s, None, canonical(s.real)


def told(chain):
    return ' . '.join(f"{n}({', '.join(map(repr, a))})" + (f"[{i}]" if n in O.PLURALS or n in ('items', 'entries') else '') for n, a, i in chain)


def vandalize(v):
    """Spoils what a caller was handed."""
    if isinstance(v, R.enolib.Error):
        for p in ('from', 'to'):
            for part in ('line', 'column', 'index'):
                v.selection[p][part] = 999
        v.selection.clear()
    elif isinstance(v, dict):
        for x in v.values():
            if isinstance(x, list):
                x.clear()
        v.clear()


@register
class C19(Check):
    id = 'C19'
    quick, thorough = 4000, 100000
    floors = {'answers compared': 50000, 'answers from within a loader or message function': 3000, 'baselines from a pristine process': 8000, 'questions repeated': 30000, 'interleaved documents': 3000, 'threaded answers compared': 10000, 'context switches seen inside enolib': 2000,
              'type errors for a second kind': 300, 'answers after spoiling another document\'s results': 10000}
    level_note = ('Every question observed got the same answer alone on a fresh document, among other questions in several orders, repeated, with other documents used in between, and from '
                  'concurrent threads each with its own document under injected pre-emption inside enolib; says nothing about threads sharing one document (not promised).')
    rule = ('random documents x sets of call chains asked alone / in two orders / twice / interleaved with documents of other options / from four threads with a 5 microsecond switch interval and '
            'random yields injected at enolib lines; non-trivial = at least three questions; oracle: the answer given alone on a fresh document, second-kind type errors by the reference model')

    pristine = None

    def prepare(self):
        self.pristine = Pristine(self.baseline)

    def done(self):
        self.pristine.close()

    def baseline(self, request):
        """The answers of a process that did nothing else before: one fresh document per question."""
        text, option, chains = request
        options = self.options(option)
        if chains is None:
            return canonical(R.outcome(lambda: R.parse(text, **options).raw()))
        doc = M.parse(text)
        alone = []
        for chain in chains:
            _, second, answer = ask(O.Env(doc, None), R.parse(text, **options), chain)
            alone.append('second' if second else answer)
        return alone

    def generate(self, r, tier):
        g = G.Gen(r, odd=0.15, blanks=r.choice([0.05, 0.4]))
        mode = r.choices(['orders', 'documents', 'threads'], [0.5, 0.37, 0.13 if R.IMPL == 'python' else 0])[0]
        texts = [history_document(g, r) for _ in range(1 if mode == 'orders' else 4)]
        if mode == 'threads' and r.random() < 0.5:
            texts = [texts[0]] * 2 + texts[2:]
        if mode != 'orders':
            texts += [g.malformed(), g.any()]
        return {'mode': mode, 'docs': texts, 'seed': r.getrandbits(32), 'count': r.choice([3, 6, 12, 20]),
                'loading': mode == 'documents' and r.random() < 0.4}

    def asking(self, case, doc, r):
        """A question; where loaders are to run within loaders mostly one that ends with a loader."""
        chain = question(doc, r)
        if case.get('loading'):
            for _ in range(6):
                if chain and chain[-1][0] in O.LOADED:
                    break
                chain = question(doc, r)
        return chain

    def shrinkable(self, case):
        return [] if case['mode'] != 'orders' else ['docs']

    OPTIONS = [('text', 'en', None), ('html', 'de', 'one.eno'), ('terminal', 'es', 'two.eno'), ('html', 'en', None), ('terminal', 'rec', None), ('text', 'rec', 'three.eno')]

    def options(self, i):
        reporter, locale, source = self.OPTIONS[i % len(self.OPTIONS)]
        return {'reporter': R.REPORTERS[reporter], 'locale': R.REC if locale == 'rec' else R.LOCALES[locale], 'source': source}

    def judge(self, case, stats):
        r = random.Random(case['seed'])
        prepared = []
        for i, text in enumerate(case['docs']):
            option = r.randrange(len(self.OPTIONS))
            options = self.options(option)
            doc, err = modelled(text)
            refused = err is not None or observed(text)[0] != 'ok'
            chains = None if refused else [c for c in (self.asking(case, doc, r) for _ in range(case['count'])) if c]
            if chains and r.random() < 0.04:
                answers = [self.pristine((text, option, [c])) for c in chains]
                state, alone = max(a[0] for a in answers), [a[1][0] for a in answers]
            else:
                state, alone = self.pristine((text, option, chains))
            if state != 'answer':
                stats['baselines not available'] += 1
                return None
            stats['baselines from a pristine process'] += 1
            prepared.append((text, options, None, [], alone) if refused else (text, options, doc, chains, alone))
        getattr(self, case['mode'])(case, prepared, r, stats)
        total = sum(len(p[3]) for p in prepared)
        return (tuple(case['docs']), case['seed']) if total >= 3 else None

    def one(self, env, real, text, chain, want, stats, asked, what):
        s, second, answer = ask(env, real, chain)
        stats['answers compared'] += 1
        if second:
            stats['type errors for a second kind'] += 1
            if not (s.real[0] == 'other' and isinstance(s.real[1], TypeError)):
                raise Violation(f"{told(chain)} requests an element as a second kind: {R.describe(s.real)} instead of a type error, {what}, asked before: {asked[-6:]} of {text!r}")
            return s
        if want == 'second':
            return s        # cannot happen alone, see generate
        if answer != want:
            raise Violation(f"{told(chain)} {what} gives {answer!r:.500}, but asked alone {want!r:.500}; asked before: {asked[-6:]} of {text!r:.400}")
        return s

    def orders(self, case, prepared, r, stats):
        for text, options, doc, chains, alone in prepared:
            if doc is None:
                return
            for round_ in range(2):
                order = list(range(len(chains)))
                if round_:
                    r.shuffle(order)
                if round_ == 1:
                    order = order + order
                env, real, asked = O.Env(doc, None), R.parse(text, **options), []
                for i in order:
                    self.one(env, real, text, chains[i], alone[i], stats, asked, 'among other questions')
                    asked.append(told(chains[i]))
                    if env.ambiguous:
                        break       # a plural query gave up half way: which elements took a kind is left open
                stats['questions repeated'] += len(order)

    def documents(self, case, prepared, r, stats):
        live = []
        order = list(range(len(prepared)))
        r.shuffle(order)
        for i in order:
            text, options, doc, chains, alone = prepared[i]
            if doc is None:
                got = canonical(R.outcome(lambda: R.parse(text, **options).raw()))
                stats['answers compared'] += 1
                if got != alone:
                    raise Violation(f"parsing {text!r:.300} after other documents gives {got!r:.300}, alone {alone!r:.300}")
                vandalize(R.outcome(lambda: R.parse(text, **options))[1])
                continue
            live.append((i, O.Env(doc, None), R.parse(text, **options), list(range(len(chains))), []))
        stats['interleaved documents'] += len(live)
        busy, within, inner = list(live), [], []

        def step(entry, what):
            i, env, real, todo, asked = entry
            at = todo.pop(r.randrange(len(todo)))
            text, options, doc, chains, alone = prepared[i]
            within.append(i)
            try:
                s = self.one(env, real, text, chains[at], alone[at], stats, asked, what)
            finally:
                within.pop()
            asked.append(told(chains[at]))
            return s

        def during():
            """Runs inside a loader or a message function: other documents are asked (or parsed) before it returns."""
            for _ in range(r.choice([1, 1, 2, 3])):
                nested()

        def nested():
            if len(within) > 3 or inner:
                return
            others = [e for e in live if e[0] not in within and e[3] and not e[1].ambiguous]
            try:
                if others and r.random() < 0.8:
                    stats['answers from within a loader or message function'] += 1
                    step(r.choice(others), 'from within a loader or message function of another document')
                else:
                    text, options, doc, chains, alone = r.choice(prepared)
                    stats['documents parsed from within a loader or message function'] += 1
                    got = canonical(R.outcome(lambda: R.parse(text, **options).raw()))
                    if doc is None and got != alone:
                        raise Violation(f"parsing {text!r:.300} from within a loader gives {got!r:.300}, alone {alone!r:.300}")
            except Violation as v:
                inner.append(v)
        if case.get('loading') or r.random() < 0.6:
            for entry in live:
                entry[1].during = during
        while busy:
            entry = r.choice(busy)
            i, env, real, todo, asked = entry
            if not todo or env.ambiguous:
                busy.remove(entry)
                continue
            s = step(entry, 'with other documents in between')
            if inner:
                raise inner[0]
            stats["answers after spoiling another document's results"] += 1
            if r.random() < 0.3:
                # what one document handed out is spoiled; that document retires, the others must not notice
                if s.real[0] in ('validation', 'parse') or isinstance(s.real[1], (dict, R.enolib.Error)):
                    vandalize(s.real[1])
                    busy.remove(entry)
                    live.remove(entry)
                elif r.random() < 0.3:
                    k, _ = R.outcome(lambda: real.all_elements_required(True))
                    R.outcome(real.touch)
                    vandalize(R.outcome(lambda: real.required_field('certainly gone'))[1])
                    busy.remove(entry)
                    live.remove(entry)

    def threads(self, case, prepared, r, stats):
        failures, ready = [], threading.Barrier(len(prepared))
        answers = [0] * len(prepared)
        switches = collections.Counter()
        prefix = os.path.realpath(R.ROOT)
        last = [None]
        seeds = [r.getrandbits(32) for _ in prepared]
        import time

        def work(n):
            text, options, doc, chains, alone = prepared[n]
            rng = random.Random(seeds[n])
            me = threading.get_ident()

            def local(frame, event, arg):
                if last[0] != me:
                    if last[0] is not None:
                        switches['seen'] += 1
                    last[0] = me
                if rng.random() < 0.02:
                    time.sleep(0)
                return local

            def tracer(frame, event, arg):
                return local if frame.f_code.co_filename.startswith(prefix) else None
            try:
                ready.wait(30)
                if n % 2 == 0:
                    sys.settrace(tracer)
                if doc is None:
                    for _ in range(6):
                        got = canonical(R.outcome(lambda: R.parse(text, **options).raw()))
                        answers[n] += 1
                        if got != alone:
                            raise Violation(f"parsing {text!r:.300} next to other threads gives {got!r:.300}, alone {alone!r:.300}")
                else:
                    env, asked = O.Env(doc, None), []
                    real = R.parse(text, **options)
                    for i, chain in enumerate(chains):
                        if env.ambiguous:
                            break
                        local_stats = collections.Counter()
                        self.one(env, real, text, chain, alone[i], local_stats, asked, 'next to other threads')
                        asked.append(told(chain))
                        answers[n] += 1
            except Violation as v:
                failures.append(v.what)
            except BaseException as e:
                failures.append(f"a thread with its own document broke down with {R.shown(e)}")
            finally:
                sys.settrace(None)

        interval = sys.getswitchinterval()
        sys.setswitchinterval(5e-6)
        # the two models of one text share memo tables: every thread gets its own reference document
        prepared = [(t, o, None if d is None else M.parse(t), c, a) for t, o, d, c, a in prepared]
        threads = [threading.Thread(target=work, args=(n,)) for n in range(len(prepared))]
        try:
            for t in threads:
                t.start()
            for t in threads:
                t.join()
        finally:
            sys.setswitchinterval(interval)
        stats['threaded answers compared'] += sum(answers)
        stats['context switches seen inside enolib'] += switches['seen']
        if failures:
            raise Violation(failures[0])


# --- C20 ----------------------------------------------------------------------------------------------------------
KNOWN_NAMES = sorted({n for names in O.METHODS.values() for n in names} | {'to_fieldset_entry', 'to_list_item', 'yields_fieldset_entry', 'yields_list_item'})


def deliberate(e):
    """Whether the exception comes from a raise statement rather than from an operation that failed."""
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return dis.opname[tb.tb_frame.f_code.co_code[tb.tb_lasti]] in ('RAISE_VARARGS', 'RERAISE')


def any_call(obj, name, r):
    """A call of a public method with fitting arguments, for an object of whatever class."""
    if name == 'repr':
        return lambda: repr(obj)
    f = getattr(obj, name)
    if name in O.LOADED:
        loader = r.choice(['upper', 'fail', 'none'])
        return lambda: f(lambda v: O.load(loader, v, []))
    if name in ERROR_METHODS:
        return r.choice([lambda: f('oops'), lambda: f(lambda v: f"computed {v!r}")])
    if name in O.KEYED:
        return r.choice([lambda: f('gone'), lambda: f('a'), lambda: f(None) if name.startswith('optional_') else f()])
    if name in ('all_elements_required', 'all_entries_required'):
        return r.choice([lambda: f(True), lambda: f(False), lambda: f()])
    if name == 'assert_all_touched':
        return r.choice([lambda: f(), lambda: f('unread'), lambda: f(lambda e: f"unread {e!r}"), lambda: f(only=['a']), lambda: f(skip=['a', 'gone'])])
    return f


@register
class C20(Check):
    id = 'C20'
    quick, thorough = 2500, 100000
    floors = {'calls observed': 60000, 'calls on lookup results': 30000, 'parents compared': 1500, 'type errors for a second kind': 300, 'errors inspected': 50000,
              'objects reached through lookup': 10000, 'calls on MissingSection': 1500, 'calls on ListItem': 500}
    level_note = ('Every public method of every object reached in the observed documents - the document, every element, every placeholder, every lookup result and what those convert to - '
                  'returned or raised a validation error (or the type error of a second kind exactly where the reference expects one); every parent was the containing object.')
    rule = ('every public method x representative arguments on every reachable object in tree order, random histories with all methods, and all methods on lookup results of every line of '
            'random documents with and without copies; non-trivial = at least one element; oracle: class of the outcome, reference parents')

    DOCS = ['', 'a: v', 'b:', 'c:\n- i\n-', 'd:\nk = e\nl =', '# s', '-- m\n\nx\n-- m', '-- m\n-- m', '> c\na: v\n| w', 'a: v\nb < a', 'a:\n- i\nb < a\n- j', 'a:\nk = e\nb < a\nl = f',
            '# s\na: v\n# t < s\nb: w', '# s\n## u\na: v\n# t << s\n## u\nb: w', '-- m\nx\n-- m\nn < m', 'b:\nc < b', '>\na:\n\n> x', '# s\n# t < s', '\n\n', '> only']

    def enumerate(self, tier):
        for a in self.DOCS:
            for b in self.DOCS:
                for mode in ('sweep', 'lookup'):
                    yield {'doc': a + '\n' + b, 'mode': mode, 'seed': 1}

    def generate(self, r, tier):
        g = G.Gen(r, odd=0.2, blanks=r.choice([0.05, 0.4]))
        k = r.random()
        text = history_document(g, r) if k < 0.8 else g.any()
        mode = r.choices(['sweep', 'history', 'lookup'], [0.3, 0.4, 0.3])[0]
        case = {'doc': text, 'mode': mode, 'seed': r.getrandbits(32)}
        if mode == 'history':
            case['ops'] = ops(r, r.randint(20, 80))
        return case

    def see(self, step, trace, stats):
        stats['calls observed'] += 1
        stats[f"calls on {step.m.cls}"] += 1
        if step.name == 'parent':
            stats['parents compared'] += 1
        if step.res.kind == 'second':
            stats['type errors for a second kind'] += 1
        self.inspect(step.real, step.label, stats)
        for facet, text in step.facets:
            if facet in ('crash', 'second') or facet == 'object' and step.name == 'parent':
                raise Violation(f"{step.label}: {text} [{facet}], after {trace[:-1][-12:]}")

    def inspect(self, o, label, stats):
        """An error must itself be usable."""
        if isinstance(o[1], R.enolib.Error):
            e = o[1]
            stats['errors inspected'] += 1
            kind, v = R.outcome(lambda: (e.text, e.message, e.snippet, e.selection, e.cursor, str(e), repr(e)))
            if kind != 'ok' or not all(isinstance(x, str) for x in (*v[:3], *v[5:])) or not isinstance(v[3], dict) or not isinstance(v[4], dict):
                raise Violation(f"{label}: the error cannot be read: {R.describe((kind, v))}")

    def judge(self, case, stats):
        if case['mode'] == 'lookup':
            return self.lookup(case, stats)
        p = both(case['doc'], stats)
        if p is None:
            return None
        see = lambda step, trace: self.see(step, trace, stats)
        if case['mode'] == 'sweep':
            O.sweep(*p, lambda m: O.full_plan(m, most=1), see, 500)
        else:
            O.run_history(*p, case['ops'], {}, see, 2, 1)
        return (case['doc'], case['mode'], repr(case.get('ops', ''))[:60]) if p[0].root.elements else None

    def lookup(self, case, stats):
        text, r = case['doc'], random.Random(case['seed'])
        if observed(text)[0] != 'ok':
            return None
        lines = text.split('\n')
        at = 0
        chosen = set(r.sample(range(len(lines)), min(4, len(lines))))
        for number, line in enumerate(lines):
            column = r.randint(0, len(line))
            if number not in chosen:
                at += len(line) + 1
                continue
            where = r.choice([{'index': at + column}, {'line': number, 'column': column}])
            at += len(line) + 1
            options = r.choice([{}, {'locale': R.REC}, {'reporter': R.REPORTERS['html'], 'source': 'x'}, {'reporter': R.REPORTERS['terminal']}])
            o = R.outcome(lambda: R.enolib.lookup(text, **where, **options))
            if o[0] != 'ok':
                raise Violation(f"lookup({where}) {R.describe(o)}")
            self.relatives(text, where, number, column, options, stats)
            self.monkey(o[1]['element'], f"lookup({where})['element']", r, stats)
        return (text, 'lookup') if text.strip() else None

    def relatives(self, text, where, number, column, options, stats):
        """The parent of what lookup finds is the written container."""
        doc, err = modelled(text)
        if err is not None:
            return
        el, _ = M.lookup(doc, number, column)
        if el.kind == M.DOCUMENT:
            return
        to = {M.ITEM: 'to_list_item', M.ENTRY: 'to_fieldset_entry'}.get(el.kind)
        if to is None:
            to = 'to_empty' if M.kind_of(el) == M.EMPTY else 'to_' + M.kind_of(el)
        label = f"lookup({where})['element'].{to}().parent()"
        o = R.outcome(lambda: getattr(R.enolib.lookup(text, **where, **options)['element'], to)().parent())
        stats['parents compared'] += 1
        if o[0] != 'ok':
            if o[0] != 'validation':
                raise Violation(f"{label} {R.describe(o)}")
            return
        if o[1] is None:
            raise Violation(f"{label} returned nothing, expected the container of the element in line {el.line + 1}")
        raw = R.outcome(o[1].raw)
        if raw[0] == 'ok' and isinstance(raw[1], dict):
            want = M.raw(doc, el.parent)
            if (raw[1].get('key'), raw[1].get('type')) != (want.get('key'), want.get('type')):
                raise Violation(f"{label} is {raw[1]!r:.300}, expected {want!r:.300}")
        line = line_of(o[1])
        if line is not None and line != max(el.parent.line, 0):
            raise Violation(f"{label} is the element of line {line + 1}, expected line {el.parent.line + 1}")

    def monkey(self, first, path, r, stats):
        todo, seen = [(first, path)], 0
        converted = {}
        while todo and seen < 8:
            obj, path = todo.pop(0)
            seen += 1
            stats['objects reached through lookup'] += 1
            names = [n for n in KNOWN_NAMES if n == 'repr' or callable(getattr(obj, n, None))]
            r.shuffle(names)
            required = False
            for name in names:
                o = R.outcome(any_call(obj, name, r))
                label = f"{path}.{name}()"
                stats['calls on lookup results'] += 1
                self.inspect(o, label, stats)
                if o[0] == 'other':
                    # conversions and queries may meet an element that an earlier call of this walk took as another kind
                    if isinstance(o[1], TypeError) and (name.startswith('to_') and (converted.get(id(obj)) or obj is not first) or name in O.KEYED) and deliberate(o[1]):
                        stats['type errors for a second kind'] += 1
                        continue
                    raise Violation(f"{label} {R.describe(o)}")
                if o[0] == 'parse':
                    raise Violation(f"{label} {R.describe(o)}")
                if o[0] != 'ok':
                    continue
                if name.startswith('to_') or name == 'touch':
                    converted[id(obj)] = True
                if name == 'repr' and not isinstance(o[1], str):
                    raise Violation(f"{label} {R.describe(o)}")
                found = o[1] if isinstance(o[1], (list, tuple)) else [o[1]]
                for x in found[:2]:
                    if callable(getattr(x, 'raw', None)) and not any(x is y for y, _ in todo):
                        todo.append((x, label))


# --- C21 ----------------------------------------------------------------------------------------------------------
@register
class C21(Errors):
    id = 'C21'
    quick, thorough = 2500, 80000
    floors = {'reports compared': 60000, 'parse errors': 3000, 'reports quoting markup': 8000, 'reports with source label': 15000, 'rows compared': 300000, 'labels made of markup': 3000,
              'marked: emphasized': 60000, 'marked: indicated': 5000, 'marked: questioned': 300, 'rows left out': 20000}
    level_note = ('For every error observed the rows parsed back from the HTML report (by a real HTML parser, entities decoded) and from the terminal report (escape sequences removed) equal '
                  'those of the text report; no markup beyond the report\'s own appeared for any hostile text or label.')
    rule = ('errors as for C13 with values, keys and labels made of markup, quotes, entities and control characters; the same calls under the three reporters; non-trivial = at least one '
            'error; oracle: html.parser / escape-sequence parser, rows compared across the formats')
    assumptions = ['documents containing the escape character are compared in text and HTML only', 'labels without line breaks']
    LABELS = [None, None, 'file.eno', '<script>alert(1)</script>', 'a&lt;b', '"\'>', '&', 'x y/\u00e4.eno', 42, '<!--', '</div>', '']
    HOSTILE = ['<b>', '</div>', '</pre>', '&lt;', '&amp;amp;', '<!-- x', '<script>1</script>', '"', "'", '&#60;', '&', '<div class="eno-report-line">', '<![CDATA[', '<?php', '<br/>', ']]>', '&copy', '<']

    def enumerate(self, tier):
        for i, case in enumerate(super().enumerate('quick')):
            if tier != 'quick' or case['mode'] == 'sweep' or i % 3 == 0:
                yield dict(case, source=self.LABELS[i % len(self.LABELS)])
        i = 0
        for h in self.HOSTILE:
            for form in ('a: {}', 'a:\n- {}', '> {}\na:', '-- m\n{}\n-- m', '{}', '`{}`: v\n- x', '# {}\n### s', 'a < {}', '# s < {}', '-- {}', '`{}', '`{}`:\nk = {}'):
                i += 1
                for mode in ('parse', 'sweep'):
                    yield {'doc': form.replace('{}', h), 'mode': mode, 'source': self.LABELS[i % len(self.LABELS)]}

    def generate(self, r, tier):
        case = super().generate(r, tier)
        if r.random() < 0.5:
            lines = case['doc'].split('\n')
            for _ in range(r.randint(1, 3)):
                i = r.randrange(len(lines))
                at = r.randint(0, len(lines[i]))
                lines[i] = lines[i][:at] + r.choice(self.HOSTILE) + lines[i][at:]
            case['doc'] = '\n'.join(lines)
        case['source'] = r.choice(self.LABELS)
        return case

    def reports(self, texts, label, source, heading, stats, text):
        try:
            plain_rows = R.text_rows(texts['text'], source, *heading)
        except R.Malformed as m:
            raise Violation(f"{label}: {m}")
        stats['reports compared'] += 1
        stats['rows compared'] += len(plain_rows)
        for row in plain_rows:
            stats['rows left out' if row == '...' else 'marked: ' + row[1]] += 1
            if row != '...' and ('<' in row[2] or '&' in row[2]):
                stats['reports quoting markup'] += 1
        try:
            rows = R.html_rows(texts['html'], source, *heading)
        except R.Malformed as m:
            raise Violation(f"{label}: html report: {m}: {texts['html']!r:.600}")
        if R.normal_rows(rows) != R.normal_rows(plain_rows):
            raise Violation(f"{label}: html report shows {rows}, text report {plain_rows}")
        if '\x1b' in text or '\x9b' in text:
            return
        try:
            rows = R.terminal_rows(texts['terminal'], source)
        except R.Malformed as m:
            raise Violation(f"{label}: terminal report: {m}: {texts['terminal']!r:.600}")
        if R.normal_rows(rows) != R.normal_rows(plain_rows):
            raise Violation(f"{label}: terminal report shows {rows}, text report {plain_rows}")

    def judge(self, case, stats):
        text, source = case['doc'], case['source']
        code = 'de' if len(text) % 3 == 0 else 'rec'
        heading = ('Zeile', 'Inhalt') if code == 'de' else ('Line', 'Content')
        options = {'source': source, 'locale': R.REC if code == 'rec' else R.LOCALES[code]}
        parsed = {name: observed(text, reporter=reporter, **options) for name, reporter in R.REPORTERS.items()}
        if len({o[0] for o in parsed.values()}) != 1:
            raise Violation('parsing: ' + '; '.join(f"{name} reporter {R.describe(o)}" for name, o in parsed.items()))

        def see(errors, label):
            if source:
                stats['reports with source label'] += 1
                if isinstance(source, str) and any(c in source for c in '<&"'):
                    stats['labels made of markup'] += 1
            told_ = {(e.text, repr(e.selection)) for e in errors.values()}
            if len(told_) != 1:
                raise Violation(f"{label}: different errors under different reporters: {sorted(told_)}")
            self.reports({name: e.snippet for name, e in errors.items()}, label, source, heading, stats, text)

        if parsed['text'][0] == 'parse':
            stats['parse errors'] += 1
            see({name: o[1] for name, o in parsed.items()}, 'parse()')
            return text
        doc, err = modelled(text)
        if err is not None or parsed['text'][0] != 'ok' or case['mode'] == 'parse':
            return None
        runs = {}
        for name, o in parsed.items():
            steps = runs[name] = []
            observer = lambda step, trace: steps.append((step.label, step.real, error_of(step)))
            if case['mode'] == 'sweep':
                O.sweep(doc, o[1], error_plan, observer, 120)
            else:
                O.run_history(doc, o[1], case['ops'], {}, observer)
        count = 0
        for i, (label, o, e) in enumerate(runs['text']):
            errors = {}
            for name in R.REPORTERS:
                if i >= len(runs[name]) or runs[name][i][0] != label or runs[name][i][1][0] != o[0] or (runs[name][i][2] is None) != (e is None):
                    other = R.describe(runs[name][i][1]) if i < len(runs[name]) else 'nothing'
                    raise Violation(f"{label}: {other} under the {name} reporter, but {R.describe(o)} under the text reporter")
                errors[name] = runs[name][i][2]
            if e is not None:
                count += 1
                see(errors, label)
        return (text, case['mode']) if count else None


# --- C23 ----------------------------------------------------------------------------------------------------------
def respaced(text, r, lines_too=True):
    """(variant of the text that differs in insignificant whitespace only, kinds of changes made)."""
    lines = text.split('\n')
    out, done = [], collections.Counter()

    blanks = G.BLANKS

    def some():
        return ''.join(r.choice(blanks) for _ in range(r.choice([1, 1, 2])))

    def widen(line, tok, indent=True):
        """Blanks at the seams of the tokens; never inside one."""
        seams = {len(line): 'trailing'}
        if tok.kind == 'comment':
            pass
        elif tok.kind == 'blank':
            seams[0] = 'blank lines filled'
        else:
            ranges = sorted(tok.ranges.values())
            seams[ranges[0][0]] = 'indentation'
            for a, b in zip(ranges, ranges[1:]):
                seams[a[1]] = seams[b[0]] = 'between tokens'
            seams[ranges[-1][1]] = 'trailing'
        for at in sorted(seams, reverse=True):
            if r.random() < 0.5:
                line = line[:at] + some() + line[at:]
                done[seams[at]] += 1
        return line

    end = len(lines) - 1 if lines[-1] == '' else len(lines)
    i, previous = 0, None
    while i < len(lines):
        tok = M.scan(lines[i])
        if lines_too and previous != 'comment' and r.random() < 0.25:
            out.extend(r.choice(['', '', ' ', '\t', '\r']) for _ in range(r.choice([1, 1, 2])))
            done['blank lines inserted'] += 1
        if tok is None:
            out.append(lines[i])
            previous = 'invalid'
        elif tok.kind == 'multiline':
            j = i + 1
            while j < end:
                t = M.scan(lines[j])
                if t is not None and t.kind == 'multiline' and (t.op, t.key) == (tok.op, tok.key):
                    break
                j += 1
            out.append(widen(lines[i], tok))
            out.extend(lines[i + 1:j])
            if j >= end:
                out.extend(lines[max(j, i + 1):])
                return '\n'.join(out), done
            out.append(widen(lines[j], M.scan(lines[j])))
            i, previous = j, 'multiline'
        else:
            out.append(widen(lines[i], tok))
            previous = tok.kind
        i += 1
    return '\n'.join(out), done


@register
class C23(Check):
    id = 'C23'
    quick, thorough = 70000, 2000000
    floors = {'variants compared': 40000, 'accepted': 20000, 'rejected': 5000, 'between tokens': 40000, 'blank lines inserted': 20000, 'indentation': 40000, 'trailing': 40000,
              'multiline bodies compared': 2000, 'documents with copies': 8000}
    level_note = ('For every document observed, variants with extra blanks at the seams between tokens, extra indentation, trailing blanks and carriage returns and extra blank lines had '
                  'the same acceptance (and diagnosis) and the same raw content; bodies of multiline fields came out character by character.')
    rule = ('random and exhaustive short documents of all flavours, each against several re-spaced variants (seams found by an independent scanner, blanks of every unicode kind); '
            'non-trivial = the variant differs and the document is not blank; oracle: metamorphic equality of acceptance and raw content; written bodies')

    def enumerate(self, tier):
        for i, t in enumerate(sequences(LINES, 2 if tier == 'quick' else 3, 1)):
            for s in range(3):
                yield {'doc': t, 'seed': 3 * i + s}
        for key in G.ODD_KEYS + G.PLAIN_KEYS:
            g = G.Gen(random.Random(0), blanks=0)
            for form in ('{q}:v', '{q}:', 'f:\n{q}=v', '#{gap}{s}', '--{gap}{k}\nx\n--{gap}{k}', 't:\n{q}<t', '# t\n#{gap}{s}<t', '# t\n#{gap}{s}<<t', '#{gap}{s}\n##{gap}{s}'):
                text = form.format(q=g.quote(key), s=g.quote(key), k=key, gap=' ' if key[0] in '-#' else '')
                for s in range(3):
                    yield {'doc': text, 'seed': s}

    def generate(self, r, tier):
        g = G.Gen(r, odd=r.choice([0.1, 0.5]), blanks=r.choice([0, 0.1, 0.4]))
        k = r.random()
        if k < 0.1:
            body = [r.choice(['', ' ', 'x', ' x', 'x ', '\tx\r', '> c', '\u00a0', '- i', '-- m', '  --- m', '--  body .', '\r']) for _ in range(r.randint(0, 4))]
            body.insert(r.randint(0, len(body)), some_text(r))
            return {'doc': g.plain(size=2), 'body': '\n'.join(body), 'seed': r.getrandbits(32)}
        text = g.valid() if k < 0.6 else g.any() if k < 0.8 else g.mixed() if k < 0.9 else g.malformed()
        return {'doc': text, 'seed': r.getrandbits(32)}

    def judge(self, case, stats):
        r = random.Random(case['seed'])
        if 'body' in case:
            return self.bodies(case, r, stats)
        text = case['doc']
        variant, done = respaced(text, r, lines_too=r.random() < 0.7)
        if variant == text:
            return None
        a, b = (R.outcome(lambda: R.parse(t)) for t in (text, variant))
        stats['variants compared'] += 1
        stats.update(done)
        if a[0] != b[0]:
            raise Violation(f"{text!r} {R.describe(a)}, but with other insignificant whitespace {variant!r} {R.describe(b)}")
        if a[0] == 'ok':
            stats['accepted'] += 1
            x, y = (R.outcome(o[1].raw) for o in (a, b))
            if x[0] == 'ok' and y[0] == 'ok':
                # blank comments are absent for queries
                if without_blank_comments(x[1]) != without_blank_comments(y[1]):
                    raise Violation(f"{text!r} reads {x[1]!r:.800}, but with other insignificant whitespace {variant!r} reads {y[1]!r:.800}")
            elif x[0] != y[0]:
                raise Violation(f"{text!r}: raw() {R.describe(x)}, with other insignificant whitespace {R.describe(y)}")
            if '<' in text:
                stats['documents with copies'] += 1
        elif a[0] == 'parse':
            stats['rejected'] += 1
            if 'blank lines inserted' not in done and a[1].text != b[1].text:
                raise Violation(f"{text!r} is rejected with {a[1].text!r}, but with other insignificant whitespace {variant!r} with {b[1].text!r}")
        return (text, variant) if text.strip() else None

    def bodies(self, case, r, stats):
        op = '-' * r.choice([2, 3, 4])
        key, body = 'body', case['body']
        if any((t := M.scan(l)) is not None and t.kind == 'multiline' and (t.op, t.key) == (op, key) for l in body.split('\n')):
            return None
        blank = lambda: r.choice(['', ' ', '\t', '\r', '  '])
        text = f"{case['doc']}\n\n{blank()}{op}{blank()}{key}{blank()}\n{body}\n{blank()}{op}{blank()}{key}{blank()}\n{r.choice(['', 'z: y', ' '])}"
        o = observed(text)
        if o[0] != 'ok':
            return None
        el = R.outcome(lambda: everything_with_key(o[1], key))
        if el[0] != 'ok' or len(el[1]) != 1:
            return None
        got = R.outcome(lambda: el[1][0].to_field().optional_string_value())
        stats['multiline bodies compared'] += 1
        if got != ('ok', body):
            raise Violation(f"the body {body!r} of a multiline field in {text!r} reads {R.describe(got)}")
        return text


def some_text(r):
    return r.choice(['x', '  x', 'x  ', 'a: v', 'text with  blanks', '\tindented', 'last\r'])


def everything_with_key(section, key):
    out = []
    for e in section.elements():
        if e.string_key() == key:
            out.append(e)
        if e.yields_section():
            out += everything_with_key(e.to_section(), key)
    return out


# --- C24 ----------------------------------------------------------------------------------------------------------
@register
class C24(Check):
    id = 'C24'
    hang_is_violation = True
    quick, thorough = 1600, 28000
    floors = {'step counts compared': 1500, 'cpu times compared': 600, 'parse errors grown': 100, 'documents grown': 300}
    level_note = ("Held on every growing document observed (repeated lines, items, entries, pieces, comments, blanks, sections, copies of a template, malformed lines) for parsing, reading, raw, "
                  "assertions, single errors and lookups: executed steps grow proportionally, CPU time as well up to noise; quadratic growth hidden in less than a few tenths of a second at 12000 lines would not be seen.")
    rule = ('a document that grows by repeating one or several units and a way of working with it; measured at two sizes. Oracle: a document four times as large takes at most 6 times the executed steps (nested ones in proportion to their characters) '
            '(proportional: 4, quadratic: 16), eight times the document at most 26 times the CPU time (proportional: 8, quadratic: 64), confirmed by repeated measurement, or after 13 times a further four times the document at most 9.5 times')
    assumptions = ['templates that are copied many times keep their size, a copied element that grows is copied once', 'each document is asked for one error at a time']

    def enumerate(self, tier):
        for i, parts in enumerate(E.stories()):
            for j, work in enumerate(('parse', 'walk', 'raw', 'by key', list(E.LOOKUPS)[i % len(E.LOOKUPS)], list(E.WORK)[i % len(E.WORK)])):
                yield {'parts': parts, 'work': work, 'reporter': ('text', 'html', 'terminal')[(i + j) % 3], 'cpu': work in ('parse', 'walk') or (i + j) % 3 == 0}
        for i, parts in enumerate(E.DEEP):
            for j, work in enumerate(['parse'] + list(E.WORK) + list(E.LOOKUPS)):
                yield {'parts': parts, 'work': work, 'reporter': ('text', 'html', 'terminal')[(i + j) % 3], 'cpu': False, 'deep': True}
        for parts in E.CHAINS:
            yield {'parts': parts, 'work': 'parse', 'reporter': 'text', 'cpu': False, 'deep': True}

    def generate(self, r, tier):
        k = r.random()
        return {'parts': E.random_parts(r), 'work': 'parse' if k < 0.25 else r.choice(list(E.LOOKUPS)) if k < 0.35 else r.choice(list(E.WORK)),
                'reporter': r.choice(['text', 'html', 'terminal']), 'cpu': r.random() < 0.3}

    def prepare(self):
        if R.IMPL == 'js':
            R.enolib.bridge.mode = 'count'

    def shrinkable(self, case):
        return []

    def judge(self, case, stats):
        options = {'reporter': R.REPORTERS[case['reporter']]}
        parts, work = case['parts'], case['work']
        try:
            return self.measure(case, parts, work, options, stats)
        except MemoryError:
            raise Violation(f"{work} exhausts the memory on {E.grow(parts, 3)!r}, repeated")

    def measure(self, case, parts, work, options, stats):
        what = f"{work} on a growing document like {E.grow(parts, 3)!r:.400}"
        n, slack = (34, 600) if case.get('deep') else (100, 2000)
        a, kind = E.steps(parts, n, work, options)
        if a is None:
            return None
        b, kind = E.steps(parts, 4 * n, work, options)
        if b is None:
            return None
        stats['step counts compared'] += 1
        stats['parse errors grown' if kind == 'parse' else 'validation errors grown' if kind == 'validation' else 'documents grown'] += 1
        stats['steps observed'] += a + b
        if case.get('deep'):
            stats['step counts of deep documents compared'] += 1
        size, larger = len(E.grow(parts, n)), len(E.grow(parts, 4 * n))
        if b > 1.5 * max(4, larger / size) * a + slack:
            raise Violation(f"{what}: {a} steps for {n} repetitions ({size} characters), {b} for {4 * n} ({larger} characters)")
        if case['cpu']:
            self.times(parts, work, options, what, stats)
        return json.dumps([parts, work])

    def times(self, parts, work, options, what, stats):
        cost = lambda n: E.seconds(parts, n, work, options)[0]
        sizes = (180, 1500, 12000)
        small = cost(sizes[0])
        for n, larger in zip(sizes, sizes[1:]):
            if small is None:
                return
            large = cost(larger)
            if large is None:
                return
            stats['cpu times compared'] += 1
            grown = lambda: large > 0.25 and large > 26 * max(small, 0.002)
            if grown():
                for _ in range(2):
                    small, large = min(small, cost(n)), min(large, cost(larger))
                small = max(small, sorted(cost(n) for _ in range(5))[2])
                if grown():
                    raise Violation(f"{what}: {small:.4f} s for {n} repetitions, {large:.3f} s for {larger}")
                stats['suspicions not confirmed'] += 1
            if larger == sizes[-1] and large > 0.4 and large > 13 * small:
                small, large = min(small, cost(n)), min(large, cost(larger))
                if large > 0.4 and large > 13 * small:
                    huge = cost(4 * larger)
                    stats['suspicions followed up'] += 1
                    if huge > 9.5 * large and (huge := min(huge, cost(4 * larger))) > 9.5 * large:
                        raise Violation(f"{what}: {small:.4f} s for {n} repetitions, {large:.3f} s for {larger}, {huge:.2f} s for {4 * larger}")
            small = large


# --- C36 ----------------------------------------------------------------------------------------------------------
COUNTED_BY = {'Section': ('elements', [None]), 'Fieldset': ('entries', [None]), 'List': ('items', [])}


def shown_as(m):
    return m.cls if isinstance(m, O.Missing) else 'document' if m.el.kind == M.DOCUMENT else m.cls


@register
class C36(History):
    id = 'C36'
    quick, thorough = 16000, 500000
    facets = ('repr', 'crash')
    length = (4, 30)
    gone, keyless = 2, 2
    floors = {'representations compared': 80000, 'placeholders compared': 8000, 'shortened values': 2000, 'line feeds shown': 500, 'absent values': 600, 'answers compared with and without': 60000,
              'representations in between': 200000, **{f"represented: {cls}": 200 for cls in ['document', *O.METHODS]}}
    level_note = ('The representation of every object and placeholder reached in the observed documents and histories is the one line its kind, key and content call for, and taking it at any point '
                  'changed no later answer of the same history.')
    rule = ('values of every length around the limit and with a line feed at every position, in fields, entries, items and multiline fields; random documents x random histories run twice, once with the '
            'representations of all objects obtained so far taken after every call; non-trivial = at least one representation; oracle: reference content, differential comparison of the answers')
    weights = {cls: ['repr'] * (len(names) // 2) + names + [n for n in names if n in ('elements', 'items', 'entries')] * 4 for cls, names in O.METHODS.items()}

    def enumerate(self, tier):
        text = 'abcdefghijklmnopqrstuvwxyz'
        for n in range(0, 20):
            v = text[:n]
            for form in ('k: {}', 'k:\n- {}', 'k:\ne = {}', '-- k\n{}\n-- k', 'k:\n\\ {}', 'k:\n| {}', 'k:\n- {}\n- x', '# {}', '# s\n## {}', '{}:', '{}:\n- {}', 'k: {}\nl < k', '`{}` : v'):
                yield {'doc': form.replace('{}', v)}
            for i in range(n + 1):
                yield {'doc': f"-- k\n{v[:i]}\n{v[i:]}\n-- k"}
                yield {'doc': f"k:\n- {v[:i]}\n| {v[i:]}\n|"}
                yield {'doc': f"k:\ne = {v[:i]}\n|\n| {v[i:]}\nl < k"}
                yield {'doc': f"-- k\n\n{v[:i]}\n\n{v[i:]}\n-- k\nm < k"}
        for n in (0, 1, 2, 9, 10, 11, 99, 100, 101):
            for form in ('k{}: v', 'k: v', 'k{}:', '# k{}', '## k{}'):
                lines = '\n'.join(form.replace('{}', str(i)) for i in range(n))
                yield {'doc': ('# s\n' if form.startswith('##') else '') + lines}
            for form in ('- {}', 'e{} = {}'):
                lines = 'k:\n' + '\n'.join(form.replace('{}', str(i)) for i in range(n))
                yield {'doc': lines}
                yield {'doc': lines + '\nl < k\n' + form.replace('{}', 'z')}

    def generate(self, r, tier):
        case = super().generate(r, tier)
        if r.random() < 0.3:
            del case['ops']
        return case

    def seen(self, step, stats):
        if step.name != 'repr':
            return
        m = step.m
        stats['representations compared'] += 1
        stats[f"represented: {shown_as(m)}"] += 1
        if step.res.value:
            if isinstance(m, O.Missing):
                stats['placeholders compared'] += 1
            elif ' value=' in step.res.value[0]:
                stats['shortened values'] += step.res.value[0].endswith('...' + step.res.value[0][-1])
                stats['line feeds shown'] += '\\n' in step.res.value[0]
                stats['absent values'] += len(step.res.value) == 1 and M.value_of(m.doc, m.el) is None

    def judge(self, case, stats):
        p = both(case['doc'], stats)
        if p is None:
            return None
        doc, real = p

        def observer(step, trace):
            self.seen(step, stats)
            for facet, text in step.facets:
                if step.name == 'repr' and facet in self.facets:
                    raise Violation(f"{step.label}: {text} [{facet}], after {trace[:-1]}")

        if 'ops' not in case:
            O.sweep(doc, real, lambda m: [('repr', [])], observer, 1500)
            self.lookups(case['doc'], doc, stats)
            for depth in range(6):
                self.assertions(case['doc'], doc, depth, stats)
            return case['doc']
        answers = []

        def remember(step, trace):
            observer(step, trace)
            answers.append((step.label, self.answer(step)))

        O.run_history(doc, real, case['ops'], self.weights, remember, self.gone, self.keyless)
        again = iter(answers)

        def compare(step, trace):
            label, want = next(again)
            got = self.answer(step)
            stats['answers compared with and without'] += 1
            if label != step.label or got != want:
                raise Violation(f"{step.label}: {got} when representations were taken before, otherwise {want} ({label}), after {trace[:-1]}")
            for obj, m in self.env.handles:
                stats['representations in between'] += 1
                o = R.outcome(lambda: repr(obj))
                if o[0] != 'ok' or not isinstance(o[1], str):
                    raise Violation(f"repr of {m.label()}: {R.describe(o)}, after {trace}")

        real = R.parse(case['doc'])
        O.run_history(doc, real, case['ops'], self.weights, compare, self.gone, self.keyless, self.begin)
        return (case['doc'], tuple(label for label, _ in answers))

    def begin(self, env):
        self.env = env
        for obj, _ in env.handles:
            R.outcome(lambda: repr(obj))

    def answer(self, step):
        kind, v = step.real
        return (kind, type(v).__name__) if kind == 'other' else canonical(step.real)

    def assertions(self, text, doc, depth, stats):
        """With elements converted and containers opened down to some depth, representations make no difference for assertions."""
        def visit(obj, m, level, show):
            if show:
                repr(obj)
                stats['representations in between'] += 1
            if level >= depth:
                return
            if m.cls == 'SectionElement':
                k = M.kind_of(m.el)
                name = 'to_' + ('empty' if k == M.EMPTY else k)
                visit(getattr(obj, name)(), O.model_call(m, name, []).value, level + 1, show)
            elif m.cls in COUNTED_BY:
                name, args = COUNTED_BY[m.cls]
                for o, c in zip(getattr(obj, name)(), O.model_call(m, name, args).value):
                    visit(o, c, level + 1, show)

        told = []
        keys = sorted({e.key for e in doc.root.walk() if e.key})[:4]
        for show in (False, True):
            real = R.parse(text)
            visit(real, O.Env(doc, real).root, 0, show)
            told.append([canonical(R.outcome(lambda: real.assert_all_touched(**options))) for options in [{}] + [{name: [key]} for key in keys for name in ('only', 'skip')]])
        stats['assertions compared with and without'] += len(told[0])
        if told[0] != told[1]:
            raise Violation(f"with containers opened to depth {depth}, assert_all_touched() (plain, then only/skip of each of {keys}) {told[1]} after representations were taken, otherwise {told[0]}")

    def lookups(self, text, doc, stats):
        """Objects obtained by position are represented like those obtained by queries."""
        if O.JAVASCRIPT:
            return
        at = 0
        for number, line in enumerate(text.split('\n')[:40]):
            o = R.outcome(lambda: R.enolib.lookup(text, index=at))
            at += len(line) + 1
            if o[0] != 'ok' or o[1].get('element') is None:
                continue
            el = o[1]['element']
            for name, pattern in (('to_section', 'Section'), ('to_field', 'Field'), ('to_list', 'List'), ('to_fieldset', 'Fieldset'), ('to_list_item', 'ListItem'), ('to_fieldset_entry', 'FieldsetEntry')):
                k, obj = R.outcome(getattr(el, name, lambda: None))
                if k != 'ok' or obj is None:
                    continue
                k, shown = R.outcome(lambda: repr(obj))
                stats['representations on lookup results'] += 1
                if k != 'ok' or not isinstance(shown, str) or not shown.startswith(f"<class {pattern} ") or '\n' in shown:
                    raise Violation(f"lookup at the start of line {number + 1}, {name}(): representation {R.describe((k, shown))}")
                break
