"""Executable reference specification of the eno notation and of the enolib query API.

Written against the notation, not against enolib's source: lines are scanned by hand (no regular expressions),
copies are evaluated declaratively and on demand, errors are described by message id + arguments + positions + the
set of marked lines. Nothing from enolib is imported here.
"""
import os
import sys
sys.setrecursionlimit(20000)


# what counts as a blank is a matter of the language enolib is written in
JS_BLANKS = set('\t\v\f\r \xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000\ufeff')

if os.environ.get('VERIF_IMPL') == 'js':
    is_blank = JS_BLANKS.__contains__
else:
    def is_blank(c):
        return c != '\n' and c.isspace()


def skip(s, i):
    while i < len(s) and is_blank(s[i]):
        i += 1
    return i


def rtrim(s, lo, hi):
    while hi > lo and is_blank(s[hi - 1]):
        hi -= 1
    return hi


class Tok:
    __slots__ = ('kind', 'ranges', 'key', 'value', 'template', 'depth', 'deep', 'op', 'text', 'line')

    def __init__(self, kind):
        self.kind = kind
        self.ranges = {}
        self.key = self.value = self.template = self.op = None
        self.depth = 0
        self.deep = False


def _optional(s, i, tok, name):
    b = skip(s, i)
    e = rtrim(s, b, len(s))
    if e > b:
        tok.ranges[name] = (b, e)
        return s[b:e]
    return None


def _section_tail(s, i):
    """What may follow a section key: nothing, or a copy operator with a template. None if neither."""
    i = skip(s, i)
    if i == len(s):
        return ()
    if s[i] != '<':
        return None
    width = 2 if s[i + 1:i + 2] == '<' else 1
    b = skip(s, i + width)
    if b >= len(s):
        return None
    return (i, i + width, b, rtrim(s, b, len(s)))


def _element_tail(s, i):
    i = skip(s, i)
    if i == len(s) or s[i] not in ':=<':
        return None
    if s[i] == '<' and skip(s, i + 1) >= len(s):
        return None
    return i


def _escaped(s, i, tail):
    """Escaped key starting at a backtick run: (run begin, run end, key begin, key end, close begin, close end, tail)."""
    n = 0
    while i + n < len(s) and s[i + n] == '`':
        n += 1
    kb = skip(s, i + n)
    if kb >= len(s):
        return None
    quote = '`' * n
    at = kb + 1
    while True:
        at = s.find(quote, at)
        if at < 0:
            return None
        t = tail(s, at + n)
        if t is not None:
            return (i, i + n, kb, rtrim(s, kb, at), at, at + n, t)
        at += 1


def scan(s):
    """Token of one line, or None when the line follows no pattern."""
    i = skip(s, 0)
    if i == len(s):
        return Tok('blank')
    c = s[i]
    if c in '|\\':
        t = Tok('continuation')
        t.op = c
        t.ranges['direct_line_continuation_operator' if c == '|' else 'spaced_line_continuation_operator'] = (i, i + 1)
        t.value = _optional(s, i + 1, t, 'value')
        return t
    if c == '>':
        t = Tok('comment')
        t.ranges['comment_operator'] = (i, i + 1)
        t.value = _optional(s, i + 1, t, 'comment')
        return t
    if c == '-':
        n = 0
        while i + n < len(s) and s[i + n] == '-':
            n += 1
        if n == 1:
            t = Tok('item')
            t.ranges['item_operator'] = (i, i + 1)
            t.value = _optional(s, i + 1, t, 'value')
            return t
        t = Tok('multiline')
        t.ranges['multiline_field_operator'] = (i, i + n)
        t.op = '-' * n
        t.key = _optional(s, i + n, t, 'key')
        return t if t.key is not None else None
    if c == '#':
        n = 0
        while i + n < len(s) and s[i + n] == '#':
            n += 1
        t = Tok('section')
        t.depth = n
        t.ranges['section_operator'] = (i, i + n)
        k = skip(s, i + n)
        if k == len(s) or s[k] == '<':
            return None
        if s[k] == '`':
            x = _escaped(s, k, _section_tail)
            if x is None:
                return None
            t.ranges['escape_begin_operator'] = x[0:2]
            t.ranges['key'] = x[2:4]
            t.ranges['escape_end_operator'] = x[4:6]
            t.key = s[x[2]:x[3]]
            tail = x[6]
        else:
            lt = s.find('<', k)
            if lt < 0:
                lt = len(s)
            tail = _section_tail(s, lt)
            if tail is None:
                return None
            e = rtrim(s, k, lt)
            t.ranges['key'] = (k, e)
            t.key = s[k:e]
        if tail:
            t.deep = tail[1] - tail[0] == 2
            t.ranges['deep_copy_operator' if t.deep else 'copy_operator'] = tail[0:2]
            t.ranges['template'] = tail[2:4]
            t.template = s[tail[2]:tail[3]]
        return t
    # elements and entries
    t = Tok('element')
    if c in ':=<':
        return None
    if c == '`':
        x = _escaped(s, i, _element_tail)
        if x is None:
            return None
        t.ranges['escape_begin_operator'] = x[0:2]
        t.ranges['key'] = x[2:4]
        t.ranges['escape_end_operator'] = x[4:6]
        t.key = s[x[2]:x[3]]
        o = x[6]
    else:
        o = i
        while o < len(s) and s[o] not in ':=<':
            o += 1
        if o == len(s) or _element_tail(s, o) is None:
            return None
        e = rtrim(s, i, o)
        t.ranges['key'] = (i, e)
        t.key = s[i:e]
    if s[o] == ':':
        t.ranges['element_operator'] = (o, o + 1)
        t.value = _optional(s, o + 1, t, 'value')
    elif s[o] == '=':
        t.kind = 'entry'
        t.ranges['entry_operator'] = (o, o + 1)
        t.value = _optional(s, o + 1, t, 'value')
    else:
        t.kind = 'copy'
        t.ranges['copy_operator'] = (o, o + 1)
        t.template = _optional(s, o + 1, t, 'template')
    return t


# ---------------------------------------------------------------------------------------------------------------

class Err(Exception):
    """A described error. alternatives: other descriptions that are equally acceptable."""

    def __init__(self, cls, msg, args, sel, marks, lines=None):
        super().__init__(msg)
        self.cls, self.msg, self.margs, self.sel, self.marks = cls, msg, args, sel, marks
        self.alternatives = [self]
        self.hidden = lines

    def text(self):
        return fmt(self.msg, *self.margs)


def fmt(name, *args):
    """The wording of a message under the recording locale (see harness.RecLocale)."""
    return '⟦' + name + ''.join('¦' + str(a) for a in args) + '⟧'


EMPH, IND, QUEST, PLAIN = 'emphasized', 'indicated', 'questioned', 'plain'

EMPTY, FIELD, FIELDSET, ENTRY, LIST, ITEM, SECTION, DOCUMENT = (
    'empty_element', 'field', 'fieldset', 'fieldset_entry', 'list', 'list_item', 'section', 'document')


class El:
    def __init__(self, kind, key, line, tok, parent):
        self.kind, self.key, self.line, self.tok, self.parent = kind, key, line, tok, parent
        self.comments = None        # list of (line, Tok)
        self.value = tok.value if tok else None
        self.conts = []             # list of (line, Tok)
        self.items, self.entries, self.elements = [], [], []
        self.multiline = False
        self.body = None            # (first line, last line) of a multiline body, None if there is none
        self.end = None             # (line, Tok) terminator
        self.template = tok.template if tok else None
        self.deep = tok.deep if tok else False
        self.tmpl = None            # resolved El
        self.depth = tok.depth if tok else 0
        self._memo = {}

    def last_line(self):
        """Last line of the written extent."""
        if self.kind == SECTION:
            return self.elements[-1].last_line() if self.elements else self.line
        if self.end:
            return self.end[0]
        if self.items:
            return self.items[-1].last_line()
        if self.entries:
            return self.entries[-1].last_line()
        if self.conts:
            return self.conts[-1][0]
        return self.line

    def walk(self):
        yield self
        for group in (self.elements, self.items, self.entries):
            for e in group:
                yield from e.walk()

    def ancestors(self):
        p = self.parent
        while p is not None:
            yield p
            p = p.parent


class Doc:
    def __init__(self, text):
        self.text = text
        self.lines = text.split('\n')
        self.starts = []
        at = 0
        for l in self.lines:
            self.starts.append(at)
            at += len(l) + 1
        self.count = len(self.lines)
        self.root = El(DOCUMENT, None, -1, None, None)
        self.detached = {}        # line -> Tok of comments belonging to nothing
        self.attached = set()
        self.toks = {}            # line -> (El, ranges) of element lines
        self.last_section = []    # per line: section open after this line

    # --- positions
    def pos(self, line, col):
        return {'column': col, 'index': self.starts[line] + col, 'line': line}

    def span(self, l1, c1, l2=None, c2=None):
        if l2 is None:
            l2, c2 = l1, c1
        return {'from': self.pos(l1, c1), 'to': self.pos(l2, c2)}

    def whole(self, line, last=None):
        last = line if last is None else last
        return self.span(line, 0, last, len(self.lines[last]))

    def zero(self):
        return {'from': {'column': 0, 'index': 0, 'line': 0}, 'to': {'column': 0, 'index': 0, 'line': 0}}


def fail(doc, msg, line, args=None, sel=None, marks=None):
    m = {line: EMPH}
    if marks:
        for k, v in marks.items():
            m.setdefault(k, v)
    return Err('ParseError', msg, [line + 1] if args is None else args, sel or doc.whole(line), m)


def analyze(text):
    doc = Doc(text)
    lines = doc.lines
    n = len(lines)
    if lines[-1] == '':
        n -= 1      # nothing is written after a final line break
    section, depth = doc.root, 0
    open_element = None     # what items and entries may attach to
    continuable = None
    pending = None
    i = 0

    def detach():
        nonlocal pending
        for l, t in pending or ():
            doc.detached[l] = t
        pending = None

    def take(el):
        nonlocal pending
        el.comments = pending
        for l, _ in pending or ():
            doc.attached.add(l)
        pending = None

    while i < n:
        s = lines[i]
        t = scan(s)
        if t is None:
            j = skip(s, 0)
            while j < len(s) and s[j] == '#':
                j += 1
            j = skip(s, j)
            q = j
            while q < len(s) and s[q] == '`':
                q += 1
            if q > j and q < len(s) and s.find('`' * (q - j), q) < 0:
                raise fail(doc, 'unterminated_escaped_key', i, sel=doc.span(i, q, i, len(s)))
            raise fail(doc, 'invalid_line', i)
        t.line = i
        k = t.kind
        if k == 'blank':
            detach()
        elif k == 'comment':
            pending = (pending or []) + [(i, t)]
        elif k == 'continuation':
            if continuable is None:
                raise fail(doc, 'missing_element_for_continuation', i)
            detach()
            if continuable.kind == EMPTY:
                continuable.kind = FIELD
            continuable.conts.append((i, t))
            doc.toks[i] = (continuable, t.ranges)
        elif k in ('item', 'entry'):
            want, coll, msg = ((LIST, 'items', 'missing_list_for_list_item') if k == 'item' else
                               (FIELDSET, 'entries', 'missing_fieldset_for_fieldset_entry'))
            if open_element is None or open_element.kind not in (want, EMPTY):
                raise fail(doc, msg, i)
            open_element.kind = want
            el = El(ITEM if k == 'item' else ENTRY, t.key, i, t, open_element)
            take(el)
            getattr(open_element, coll).append(el)
            continuable = el
            doc.toks[i] = (el, t.ranges)
        elif k == 'section':
            if t.depth > depth + 1:
                marks = {section.line: IND} if section.kind == SECTION else None
                raise fail(doc, 'section_hierarchy_layer_skip', i, marks=marks)
            while depth >= t.depth:
                section = section.parent
                depth -= 1
            el = El(SECTION, t.key, i, t, section)
            take(el)
            section.elements.append(el)
            section, depth = el, t.depth
            open_element = continuable = None
            doc.toks[i] = (el, t.ranges)
        elif k == 'multiline':
            el = El(FIELD, t.key, i, t, section)
            el.multiline = True
            take(el)
            section.elements.append(el)
            doc.toks[i] = (el, t.ranges)
            j = i + 1
            end = None
            while j < n:
                e = _terminator(lines[j], t)
                if e:
                    end = e
                    break
                j += 1
            if end is None:
                marks = {l: IND for l in range(i + 1, doc.count)}
                raise fail(doc, 'unterminated_multiline_field', i, args=[t.key, i + 1], marks=marks)
            el.end = (j, end)
            if j > i + 1:
                el.body = (i + 1, j - 1)
                for l in range(i + 1, j):
                    doc.toks[l] = (el, {'value': (0, len(lines[l]))})
            doc.toks[j] = (el, end.ranges)
            open_element = continuable = None
            for _ in range(i, j):
                doc.last_section.append(section)
            i = j
        else:
            el = El(EMPTY if t.value is None else FIELD, t.key, i, t, section)
            take(el)
            section.elements.append(el)
            doc.toks[i] = (el, t.ranges)
            open_element = el
            continuable = el if k == 'element' else None
        doc.last_section.append(section)
        i += 1
    while len(doc.last_section) < doc.count:
        doc.last_section.append(section)
    detach()
    return doc


def _terminator(s, t):
    i = skip(s, 0)
    n = len(t.op)
    if s[i:i + n] != t.op or s[i + n:i + n + 1] == '-':
        return None
    b = skip(s, i + n)
    e = rtrim(s, b, len(s))
    if s[b:e] != t.key:
        return None
    end = Tok('end')
    end.ranges['multiline_field_operator'] = (i, i + n)
    end.ranges['key'] = (b, e)
    return end


# --- copies -----------------------------------------------------------------------------------------------------

def resolve(doc):
    """Links templates; raises an Err carrying every acceptable description when some copy cannot be resolved."""
    everything = [e for e in doc.root.walk() if e.kind not in (DOCUMENT, ITEM, ENTRY)]
    problems = []
    groups = {}
    for e in everything:
        if e.template is not None:
            groups.setdefault((e.kind == SECTION, e.template), []).append(e)
    for (is_section, name), targets in groups.items():
        candidates = [e for e in everything
                      if (e.kind == SECTION) == is_section and e.key == name and e.template != name]
        if not candidates:
            for t in targets:
                problems.append(fail(doc, 'section_not_found' if is_section else 'non_section_element_not_found',
                                     t.line, args=[t.line + 1, name]))
        elif len(candidates) > 1:
            for t in targets:
                for a in range(len(candidates)):
                    for b in range(a + 1, len(candidates)):
                        problems.append(fail(doc, 'two_or_more_templates_found', t.line, args=[name],
                                             marks={candidates[a].line: QUEST, candidates[b].line: QUEST}))
        else:
            for t in targets:
                t.tmpl = candidates[0]
    # cycles through copying (and, for sections, through containing something that copies)
    succ = {}
    has_copy_below = set()
    for e in everything:
        if e.kind == SECTION and e.template is not None:
            for a in e.ancestors():
                has_copy_below.add(id(a))
    for e in everything:
        out = []
        if e.tmpl is not None:
            out.append(e.tmpl)
        if e.kind == SECTION:
            out += [c for c in e.elements if c.kind == SECTION and (c.template is not None or id(c) in has_copy_below)]
        succ[id(e)] = out
    comp = _components(everything, succ)
    for e in everything:
        if e.tmpl is not None and comp[id(e)] == comp[id(e.tmpl)]:
            r = e.tok.ranges['template']
            err = fail(doc, 'cyclic_dependency', e.line, args=[e.line + 1, e.template],
                       sel=doc.span(e.line, r[0], e.line, r[1]))
            err.cycle = {x.line for x in everything if comp[id(x)] == comp[id(e)]}
            problems.append(err)
    # incompatible templates
    def final_kind(e, seen=()):
        if e.kind == EMPTY and e.template is not None:
            if e.tmpl is None or e in seen:
                return None
            return final_kind(e.tmpl, seen + (e,))
        return e.kind
    for e in everything:
        if e.template is None or e.kind == SECTION or e.tmpl is None:
            continue
        fk = final_kind(e.tmpl)
        if e.kind == LIST and fk in (FIELD, FIELDSET):
            problems.append(fail(doc, 'missing_list_for_list_item', e.items[0].line))
        elif e.kind == FIELDSET and fk in (FIELD, LIST):
            problems.append(fail(doc, 'missing_fieldset_for_fieldset_entry', e.entries[0].line))
    if problems:
        problems[0].alternatives = problems
        raise problems[0]

def _components(nodes, succ):
    """Strongly connected components (iterative Tarjan); a node alone without a self loop gets its own component."""
    index, low, comp, onstack, stack = {}, {}, {}, set(), []
    for root in nodes:
        if id(root) in index:
            continue
        work = [(root, iter(succ[id(root)]))]
        index[id(root)] = low[id(root)] = len(index)
        stack.append(root)
        onstack.add(id(root))
        while work:
            node, it = work[-1]
            advanced = False
            for s in it:
                if id(s) not in index:
                    index[id(s)] = low[id(s)] = len(index)
                    stack.append(s)
                    onstack.add(id(s))
                    work.append((s, iter(succ[id(s)])))
                    advanced = True
                    break
                if id(s) in onstack:
                    low[id(node)] = min(low[id(node)], index[id(s)])
            if advanced:
                continue
            work.pop()
            if work:
                p = work[-1][0]
                low[id(p)] = min(low[id(p)], low[id(node)])
            if low[id(node)] == index[id(node)]:
                while True:
                    x = stack.pop()
                    onstack.discard(id(x))
                    comp[id(x)] = id(node)
                    if x is node:
                        break
    return comp


def section_template(sec):
    """(template El, deep) of a section, explicit or implied by a deep copy of its parent; None if it has none."""
    if sec.tmpl is not None:
        return sec.tmpl, sec.deep
    t = implied_template(sec)
    return (t, True) if t is not None else None


def implied_template(sec):
    if 'implied' not in sec._memo:
        sec._memo['implied'] = None     # while it is being determined nothing is implied
        sec._memo['implied'] = _implied_template(sec)
    return sec._memo['implied']


def _implied_template(sec):
    parent = sec.parent
    if parent is None or parent.kind != SECTION or sec.template is not None:
        return None
    pt = section_template(parent)
    if pt is None or not pt[1]:
        return None
    if sum(1 for e in parent.elements if e.key == sec.key) != 1:
        return None
    theirs = found_in(pt[0], sec.key)
    if len(theirs) == 1 and theirs[0].kind == SECTION and theirs[0].tmpl is not sec:
        return theirs[0]
    return None


def found_in(sec, key):
    """The effective elements of a section with some key."""
    own = [e for e in sec.elements if e.key == key]
    if own or sec.kind != SECTION:
        return own
    t = section_template(sec)
    return found_in(t[0], key) if t is not None else []


def effective(sec):
    """Elements of a section (or the document) with everything it copies."""
    if 'eff' not in sec._memo:
        own = sec.elements
        t = section_template(sec) if sec.kind == SECTION else None
        if t is not None:
            keys = {e.key for e in own}
            own = [e for e in effective(t[0]) if e.key not in keys] + own
        sec._memo['eff'] = own
    return sec._memo['eff']


def kind_of(el):
    if el.kind == EMPTY and el.tmpl is not None:
        return kind_of(el.tmpl)
    return el.kind


def mirrors(el):
    """True for fields whose value is entirely a template's."""
    return el.kind == EMPTY and el.tmpl is not None and kind_of(el) == FIELD


def has_comments(el):
    return comments_of(el) is not None


def comments_of(el):
    if el.comments is not None:
        return el.comments
    if el.kind == SECTION:
        t = section_template(el)
        return comments_of(t[0]) if t is not None else None
    if el.tmpl is not None:
        return comments_of(el.tmpl)
    return None


def comment_text(el):
    block = comments_of(el)
    if block is None:
        return None
    if len(block) == 1:
        return block[0][1].value
    filled = [k for k, (_, t) in enumerate(block) if t.value is not None]
    if not filled:
        return None
    indent = min(block[k][1].ranges['comment'][0] for k in filled)
    rows = []
    for _, t in block[filled[0]:filled[-1] + 1]:
        rows.append('' if t.value is None else ' ' * (t.ranges['comment'][0] - indent) + t.value)
    return '\n'.join(rows)


def value_of(doc, el):
    if el.kind == EMPTY and el.tmpl is not None:
        return value_of(doc, el.tmpl)
    if el.multiline:
        if el.body is None:
            return None
        return '\n'.join(doc.lines[el.body[0]:el.body[1] + 1])
    result = el.value
    gap = False
    for _, t in el.conts:
        spaced = t.op == '\\'
        if t.value is None:
            gap = (gap or spaced) if result is not None else False
        elif result is None:
            result, gap = t.value, False
        else:
            result += (' ' if spaced or gap else '') + t.value
            gap = False
    return result


def items_of(el):
    return (items_of(el.tmpl) if el.tmpl is not None else []) + el.items


def entries_of(el):
    keys = {e.key for e in el.entries}
    return ([e for e in entries_of(el.tmpl) if e.key not in keys] if el.tmpl is not None else []) + el.entries


def raw(doc, el):
    k = kind_of(el)
    out = {'type': k}
    if has_comments(el):
        out['comment'] = comment_text(el)
    if k in (FIELD, ITEM, ENTRY):
        if k != ITEM:
            out['key'] = el.key
        out['value'] = value_of(doc, el)
    elif k == LIST:
        out['key'] = el.key
        out['items'] = [raw(doc, i) for i in items_of(el)]
    elif k == FIELDSET:
        out['key'] = el.key
        out['entries'] = [raw(doc, i) for i in entries_of(el)]
    elif k == SECTION:
        out['key'] = el.key
        out['elements'] = [raw(doc, i) for i in effective(el)]
    elif k == DOCUMENT:
        out['elements'] = [raw(doc, i) for i in effective(el)]
    else:
        out['key'] = el.key
    return out


def parse(text):
    doc = analyze(text)
    resolve(doc)
    return doc


# --- snippets ---------------------------------------------------------------------------------------------------

CONTEXT_AFTER = 0 if os.environ.get('VERIF_IMPL') == 'js' else 1     # the Python reports show no context after the first line


def snippet_rows(doc, marks):
    """Rows of a report: (line, mark) pairs and '...' where lines are omitted."""
    n = doc.count
    if not marks:
        return [(l, QUEST) for l in range(n)]
    rows = []
    for l in range(n):
        if l in marks:
            rows.append((l, marks[l]))
        elif l + 1 in marks or l + 2 in marks or (l - 1 in marks and l - 1 >= CONTEXT_AFTER) or (l - 2 in marks and l - 2 >= CONTEXT_AFTER):
            rows.append((l, PLAIN))
        elif l + 3 in marks or l == n - 1:
            rows.append('...')
    return rows


def extent_marks(el, mark):
    """Marks of everything below the first line of an element."""
    if el.kind == SECTION:
        mark = IND
    return {l: mark for l in range(el.line + 1, el.last_line() + 1)}


def missing_marks(parent):
    if parent.kind == DOCUMENT:
        return {}
    marks = {parent.line: IND}
    if parent.kind == SECTION:
        at = parent.line + 1
        for e in parent.elements:
            for l in range(at, e.line):
                marks[l] = IND
            if e.kind == SECTION:
                break
            marks[e.line] = IND
            marks.update({l: QUEST for l in range(e.line + 1, e.last_line() + 1)})
            at = e.last_line() + 1
    else:
        marks.update({l: QUEST for l in range(parent.line + 1, parent.last_line() + 1)})
    return marks


# --- validation errors ------------------------------------------------------------------------------------------

def verr(msg, args, sel, marks):
    return Err('ValidationError', msg, args, sel, marks)


def element_span(doc, el):
    if el.kind == DOCUMENT:
        return doc.zero()
    return doc.whole(el.line, el.last_line())


def element_marks(el):
    if el.kind == DOCUMENT:
        return {}
    m = extent_marks(el, IND)
    m[el.line] = EMPH
    return m


def e_element(doc, el, message):
    e = verr(None, [], element_span(doc, el), element_marks(el))
    e.text = lambda: message
    return e


def e_unexpected(doc, el, message):
    if message:
        return e_element(doc, el, message)
    return verr('unexpected_element', [], element_span(doc, el), element_marks(el))


def e_key(doc, el, message):
    if el.kind == DOCUMENT:
        return verr('key_error', [message], doc.zero(), {})
    if el.kind == ITEM:
        el = el.parent
    b, e = el.tok.ranges['key']
    return verr('key_error', [message], doc.span(el.line, b, el.line, e), {el.line: EMPH})


def e_comment(doc, el, message):
    block = comments_of(el)
    if not block:
        if el.kind == DOCUMENT:
            return verr('comment_error', [message], doc.zero(), {})
        return verr('comment_error', [message], doc.span(el.line, 0), {el.line: EMPH})
    marks = {el.line: IND}
    marks.update({l: EMPH for l, _ in block})
    (l1, t1), (l2, _) = block[0], block[-1]
    if len(block) == 1:
        b, e = t1.ranges.get('comment', (0, len(doc.lines[l1])))
        sel = doc.span(l1, b, l1, e)
    else:
        sel = doc.whole(l1, l2)
    return verr('comment_error', [message], sel, marks)


def e_missing_comment(doc, el):
    if el.kind == DOCUMENT:
        return verr('missing_comment', [], doc.zero(), {})
    return verr('missing_comment', [], doc.span(el.line, 0), {el.line: EMPH})


def keyed(msg, key):
    return (msg, []) if key is None else (msg + '_with_key', [key])


def e_missing(doc, parent, key, msg):
    name, args = keyed(msg, key)
    sel = doc.zero() if parent.kind == DOCUMENT else doc.span(parent.line, len(doc.lines[parent.line]))
    return verr(name, args, sel, missing_marks(parent))


def e_multiple(doc, els, key, msg):
    name, args = keyed(msg, key)
    marks = {}
    for e in els:
        marks.update(element_marks(e))
    return verr(name, args, element_span(doc, els[0]), marks)


def e_type(doc, el, key, msg):
    name, args = keyed(msg, key)
    return verr(name, args, element_span(doc, el), element_marks(el))


def end_of(doc, line):
    return doc.pos(line, len(doc.lines[line]))


def e_missing_value(doc, el):
    r = el.tok.ranges
    if el.kind == ENTRY:
        msg, args, at = 'missing_fieldset_entry_value', [el.key], r['entry_operator'][1]
    elif el.kind == ITEM:
        msg, args, at = 'missing_list_item_value', [el.parent.key], r['item_operator'][1]
    else:
        msg, args = 'missing_field_value', [el.key]
        at = len(doc.lines[el.line])
        for name in ('template', 'element_operator'):
            if name in r:
                at = r[name][1]
                break
    last = el.conts[-1][0] if el.conts and el.kind == FIELD else el.line
    return verr(msg, args, {'from': doc.pos(el.line, at), 'to': end_of(doc, last)}, element_marks(el))


def e_value(doc, el, message):
    r = el.tok.ranges
    if mirrors(el):
        b, e = r['key']
        return verr('value_error', [message], doc.span(el.line, b, el.line, e), {el.line: EMPH})
    if el.multiline:
        if el.body:
            marks = {l: EMPH for l in range(el.body[0], el.body[1] + 1)}
            return verr('value_error', [message], doc.whole(*el.body), marks)
        return verr('value_error', [message], doc.span(el.line, len(doc.lines[el.line])), element_marks(el))
    at = len(doc.lines[el.line])
    if 'value' in r:
        at = r['value'][0]
    else:
        for name in ('element_operator', 'entry_operator', 'item_operator'):
            if name in r:
                at = r[name][1]
    if el.conts:
        to = end_of(doc, el.conts[-1][0])
    elif 'value' in r:
        to = doc.pos(el.line, r['value'][1])
    else:
        to = end_of(doc, el.line)
    return verr('value_error', [message], {'from': doc.pos(el.line, at), 'to': to}, element_marks(el))


# --- lookup -----------------------------------------------------------------------------------------------------

def lookup(doc, line, col):
    """(El, token kind or None) at a position."""
    if line in doc.toks:
        el, ranges = doc.toks[line]
        return el, token_at(ranges, col)
    owner = None
    for e in doc.last_section[line].elements:
        if e.kind == SECTION or not e.line < line <= e.last_line():
            continue
        owner = e
        for sub in e.items + e.entries:
            if sub.line < line <= sub.last_line():
                owner = sub
    if owner is None:
        owner = doc.last_section[line]
    t = doc.detached.get(line)
    return owner, token_at(t.ranges, col) if t is not None else None


def token_at(ranges, col):
    hits = [(b, name) for name, (b, e) in ranges.items() if b <= col <= e]
    return max(hits)[1] if hits else None
