"""The only module that touches the code under test. Imports enolib from /repo's working tree and turns what it
returns into plain observations (outcomes, error descriptions, snippet rows)."""
import html.parser
import os
import re
import sys
import types

sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/enolib-pycache'     # never read or write byte code next to the sources
REPO = os.environ.get('ENOLIB_REPO', '/repo')
IMPL = os.environ.get('VERIF_IMPL', 'python')            # which implementation is under observation (set by run.py)
import model                                             # noqa: E402

if IMPL == 'js':
    import realjs
    ROOT = os.path.join(REPO, 'javascript', 'lib')
    enolib = realjs.Module(REPO)
    LOCALES = {name: realjs.Locale(name, enolib.bridge) for name in ('en', 'de', 'es')}
    REPORTERS = {name: realjs.Reporter(name) for name in ('text', 'html', 'terminal')}
else:
    ROOT = os.path.join(REPO, 'python')
    sys.path.insert(0, ROOT)
    import enolib                                            # noqa: E402
    from enolib.messages import de, en, es                   # noqa: E402
    from enolib.reporters import HtmlReporter, TerminalReporter, TextReporter   # noqa: E402
    assert os.path.realpath(enolib.__file__).startswith(os.path.realpath(ROOT) + os.sep), enolib.__file__
    LOCALES = {'en': en, 'de': de, 'es': es}
    REPORTERS = {'text': TextReporter, 'html': HtmlReporter, 'terminal': TerminalReporter}
ParseError, ValidationError = enolib.ParseError, enolib.ValidationError


def _recorder(name):
    return lambda *args: model.fmt(name, *args)


def recording_locale():
    """A catalogue that words every message as its own name and arguments, so texts can be decoded exactly."""
    rec = types.SimpleNamespace()
    for name in dir(en):
        if name.startswith('__'):
            continue
        value = getattr(en, name)
        setattr(rec, name, model.fmt(name) if isinstance(value, str) else _recorder(name) if callable(value) else value)
    rec.gutter_header, rec.content_header = 'Line', 'Content'
    return rec


REC = realjs.Locale('rec') if IMPL == 'js' else recording_locale()


def parse(text, **options):
    options.setdefault('locale', REC)
    return enolib.parse(text, **options)


ASTRAL = re.compile('[\U00010000-\U0010ffff]')


def units(text):
    """JavaScript counts UTF-16 units, so texts for it consist of those (pairs of surrogates instead of the character)."""
    return ASTRAL.sub(lambda m: chr(0xd7c0 + (ord(m.group(0)) >> 10)) + chr(0xdc00 + (ord(m.group(0)) & 0x3ff)), text) if IMPL == 'js' else text


def nothing(text):
    return all(c == '\n' or model.is_blank(c) for c in text)


def portable(x):
    """The same case in the units that the implementation counts."""
    if isinstance(x, str):
        return units(x)
    if isinstance(x, (list, tuple)):
        return type(x)(portable(v) for v in x)
    if isinstance(x, dict):
        return {k: portable(v) for k, v in x.items()}
    return x


class Hang(BaseException):
    pass


class ArgumentChanged(Exception):
    """Something the caller passed was altered by the call."""


def outcome(call):
    """('ok', value) | ('parse', e) | ('validation', e) | ('other', e)"""
    try:
        return 'ok', call()
    except ParseError as e:
        return 'parse', e
    except ValidationError as e:
        return 'validation', e
    except Exception as e:
        return 'other', e


def shown(e):
    return f"{type(e).__name__}({str(e)[:200]!r})"


def describe(o):
    kind, v = o
    if kind == 'ok':
        return f"returned {v!r}"[:600]
    if kind == 'other':
        return f"raised {shown(v)}"
    return f"raised {kind} error {v.text!r} at {v.selection['from']}..{v.selection['to']}"


# --- reports ----------------------------------------------------------------------------------------------------
MARKS = {' ': model.PLAIN, '>': model.EMPH, '*': model.IND, '?': model.QUEST}
ROW = re.compile(r'^ ([ >*?]) *(\d+) \| (.*)$', re.DOTALL)
TERMINAL_ROW = re.compile(r'^ ([ >*?]) +(\d+)  (.*)$', re.DOTALL)
ANSI = re.compile('\x1b\\[[0-9;]*m')


class Malformed(Exception):
    pass


def text_rows(snippet, source=None, gutter='Line', content='Content'):
    """Rows [(line, mark, text) | '...'] of a plain text report."""
    lead = '' if source is None or source == '' and IMPL == 'js' else f"-- {source} --\n\n"
    if not snippet.startswith(lead):
        raise Malformed(f"report does not start with its source label: {snippet[:80]!r}")
    header, _, body = snippet[len(lead):].partition('\n')
    if [p.strip() for p in header.split('|')] != [gutter, content]:
        raise Malformed(f"unexpected heading {header!r}")
    rows = []
    for row in body.split('\n') if body else []:
        if row.strip(' ') == '...':
            rows.append('...')
            continue
        m = ROW.match(row)
        if not m:
            raise Malformed(f"unexpected report row {row!r}")
        rows.append((int(m.group(2)) - 1, MARKS[m.group(1)], m.group(3)))
    return rows


def terminal_rows(snippet, source=None):
    plain = ANSI.sub('', snippet)
    lines = plain.split('\n')
    if source:
        if not lines[0].endswith(' ' + str(source)):
            raise Malformed(f"terminal report does not start with its source label: {lines[0]!r}")
        lines = lines[1:]
    rows = []
    for row in lines:
        if row.strip(' ') == '...':
            rows.append('...')
            continue
        m = TERMINAL_ROW.match(row)
        if not m:
            raise Malformed(f"unexpected terminal row {row!r}")
        rows.append((int(m.group(2)) - 1, MARKS[m.group(1)], m.group(3)))
    return rows


class HtmlRows(html.parser.HTMLParser):
    CLASSES = {'eno-report-line-emphasized': model.EMPH, 'eno-report-line-indicated': model.IND, 'eno-report-line-questioned': model.QUEST}

    def __init__(self):
        super().__init__(convert_charrefs=True)
        self.rows, self.stack, self.cells, self.mark, self.outside, self.tags = [], [], None, None, [], []

    def handle_starttag(self, tag, attrs):
        if tag not in ('div', 'pre') or any(n != 'class' for n, _ in attrs):
            raise Malformed(f"markup from outside the report: <{tag} {attrs}>")
        cls = (dict(attrs).get('class') or '').split()
        self.stack.append((tag, cls))
        if 'eno-report-line' in cls:
            self.cells = {}
            self.mark = next((self.CLASSES[c] for c in cls if c in self.CLASSES), model.PLAIN)
        for cell in ('eno-report-gutter', 'eno-report-content'):
            if cell in cls:
                self.cells[cell] = ''

    def handle_startendtag(self, tag, attrs):
        raise Malformed(f"markup from outside the report: <{tag}/>")

    def handle_endtag(self, tag):
        if not self.stack or self.stack[-1][0] != tag:
            raise Malformed(f"unbalanced markup: </{tag}>")
        _, cls = self.stack.pop()
        if 'eno-report-line' in cls:
            self.rows.append((self.mark, self.cells['eno-report-gutter'].strip(' '), self.cells['eno-report-content']))

    def handle_data(self, data):
        for _, cls in reversed(self.stack):
            for cell in ('eno-report-gutter', 'eno-report-content'):
                if cell in cls:
                    self.cells[cell] += data
                    return
        self.outside.append(data)

    def handle_comment(self, data):
        raise Malformed(f"markup from outside the report: <!--{data}-->")

    def handle_decl(self, decl):
        raise Malformed(f"markup from outside the report: <!{decl}>")

    def handle_pi(self, data):
        raise Malformed(f"markup from outside the report: <?{data}>")

    unknown_decl = handle_decl


def html_rows(snippet, source=None, gutter='Line', content='Content'):
    p = HtmlRows()
    p.feed(snippet)
    p.close()
    if p.stack:
        raise Malformed(f"unclosed markup {p.stack}")
    if not p.rows or p.rows[0][1:] != (gutter, content):
        raise Malformed(f"unexpected heading {p.rows[:1]}")
    label = ''.join(p.outside).replace('\n', '')
    if label != ('' if not source else str(source).replace('\n', '')):
        raise Malformed(f"source label shown as {label!r}")
    rows = []
    for mark, gutter, text in p.rows[1:]:
        if gutter == '...' and text == '...':
            rows.append('...')
        elif gutter.isdigit():
            rows.append((int(gutter) - 1, mark, text))
        else:
            raise Malformed(f"unexpected html row {gutter!r} {text!r}")
    return rows


def normal_rows(rows):
    """Blank lines may be shown with or without their blanks."""
    return [r if r == '...' else (r[0], r[1], '' if nothing(r[2]) else r[2]) for r in rows]


def expected_rows(doc, marks):
    return normal_rows([r if r == '...' else (r[0], r[1], doc.lines[r[0]]) for r in model.snippet_rows(doc, marks)])
