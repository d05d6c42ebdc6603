"""Growing documents and the cost of working with them: executed steps (deterministic) at small sizes, CPU time at large
sizes. Everything is judged by how the cost grows, never by how large it is."""
import gc
import re
import sys
import time

import real as R

# --- documents of any size ------------------------------------------------------------------------------------------
# A document is a list of parts. A part is a text (written once), a list [unit, mark] of a unit repeated for every size
# step with {i} replaced by its number and joined by newlines, or [unit, 'inline'] repeated without newlines. Templates
# named t or T never grow, so that the content of the document stays proportional to its size.
LONG = 'wide' * 100
FIXED = ['t: v', 't:\n- v\n- w', 't:\na = v', 't:', '-- t\nv\n-- t', '# T\na: v\n## sub\nb: w\n# body', '# T\nsub:\n# body', '> c\nt: v']
GROUND = ['', 'g: v', 'l:', 'f:', 'f:\na = v', 'l:\n- v', '# s', '# s\n## u', '> c\ng: v', '`g`:']
UNITS = {
    'any': ['k{i}: v', 'k: v', 'k{i}:', '`k{i}`: v', '> c\nk{i}: v', '> c', '> c\n', '', '   ', '-- m{i}\nbody\n-- m{i}', '-- m\nbody\n-- m', '# s{i}', '# s{i}\na: v', '# s\na: v', '## u{i}\na: v',
            '# s{i}\n## u\n### w', 'l{i}:\n- a\n- b', 'f{i}:\na = 1\nb = 2', 'k{i}: v\n| w\n\\ x', '# `s{i}`', 'k: v\nm: w\nk: x', 'l{i}:\n> c\n- a', '# s{i}\n# s{i}'],
    'copy': ['c{i} < t', 'c < t', 'c{i} < t\n- x', 'c{i} < t\na = x\nb = y', '> own\nc{i} < t', 'c{i} < t\n| more'],
    'section copy': ['# s{i} < T', '# s{i} << T', '# s{i} << T\n## sub\nq: w', '# s{i} < T\na: own', '# s < T', '# s{i}\n## sub < T'],
    'list': ['- x', '- x\n| y', '> c\n- x', '-', '- x\n\\ y\n\n> z'],
    'fieldset': ['a{i} = x', 'a = x', 'a{i} = x\n| y', '> c\na{i} = x', '`a{i}` = x', 'a{i} ='],
    'value': ['| x', '\\ x', '|', '\\', '| x\n\\ y', '| x\n\n> z'],
    'malformed': ['x', 'k{i}', ': v', '`k{i}', '- x', 'a = x', '| x', '-- m{i}', '#### s', 'c{i} < gone', 'c{i} < gone{i}', '# s{i} < gone', '`k', '<'],
    'body': ['body', '-- m', '- m', '--m2', '    ', '-- n', 'k: v'],
}
WIDE = [['g: v', ['| ' + LONG, 'lines']], ['g: v', ['\\ ' + LONG, 'lines']], ['l:\n-', ['| ' + LONG, 'lines']], ['f:\na = v', ['| ' + LONG, 'lines'], 'z < f'], ['l:', ['- ' + LONG, 'lines'], 'z < l'],
        ['f:', ['a{i} = ' + LONG, 'lines']], ['f:', [LONG + '{i} = a', 'lines']], [['> ' + LONG, 'lines'], 'k: v'], [['>    ' + LONG, 'lines'], '> x', 'k: v'], ['-- m', [LONG, 'lines'], '-- m'],
        [[LONG + '{i}: v', 'lines']], [['k{i}: ' + LONG, 'lines']], [['# ' + LONG + '{i}', 'lines']], [['-- ' + LONG + '{i}\n-- ' + LONG + '{i}', 'lines']], [[LONG, 'lines']], ['-- m', [LONG, 'lines']],
        ['t: ' + LONG, ['c{i} < t', 'lines']], [LONG + ': v', ['c{i} < ' + LONG, 'lines']], ['l:', ['-\n\\ ' + LONG, 'lines']], ['-- ' + LONG, [LONG, 'lines'], '-- ' + LONG]]
TAILS = ['', 'z: end', 'bad', 'z < l', 'z < f', 'z < f\na1 = own', 'z < g', '# z < s', '# z << s', '# z << s\n## u\nq: w', 'c < gone', '-- m', '`z', '> end', '# z < s\nk1: own', '-- l\nv\n-- l']
PIECES = [' ', 'x', 'x ', '\t', '#', '-', '`', '<', ':', '=', '|', '\\', '>', '` ', ' `', '< ', ': ', '- ', 'a`', '``a', '#a', '\u00a0', 'é ', '\r', '"', '&', 'a<', '<a', '`a` ', '>>', '   x']
BEGIN = ['', 'a', '> a', '- a', 'f:\na = a', '-- m\n-- a', 'a: ', 'a = ', '- ', '> ', '# ', '## ', '-- ', '`', '``', '# `', 'a <', 'a < ', '# a < ', '# a << ', '| ', '\\ ', ' ', 'a: v', '`a`', '# a', 'l:\n- ', 'f:\na = ', '-- a', '-- m\n', 'a: x\n| ', 'a: x\n> ']
END = ['', 'b', 'b\n', 'x', '`', ': v', ' = v', '< t', ' x', '\n-- m', '``', '\nz: y', '`:', ' ', '\n| x', 'x`x', '<']


def grow(parts, n):
    out, glue = [], True
    for part in parts:
        if isinstance(part, str):
            text, inline = part, False
        else:
            unit, inline = part[0], part[1] == 'inline'
            if part[1] == 'deep':           # nesting or chaining: {h} is one more section operator each time
                text = '\n'.join(unit.replace('{h}', '#' * i).replace('{p}', str(i - 1)).replace('{i}', str(i)) for i in range(1, n + 1))
            else:
                text = unit * n if inline else '\n'.join(unit.replace('{i}', str(i)) for i in range(n))
        if out and not (inline or glue):
            out.append('\n')
        out.append(text)
        glue = inline
    return ''.join(out)


def random_parts(r):
    k = r.random()
    if k < 0.25:
        return [r.choice(BEGIN), [r.choice(PIECES), 'inline'], r.choice(END)]
    if k < 0.3:
        return [r.choice(BEGIN), [r.choice(PIECES), 'inline'], [r.choice(PIECES), 'inline'], r.choice(END)]
    if k < 0.36:
        return [r.choice(FIXED), '-- m', [r.choice(UNITS['body']), 'lines'], r.choice(['-- m', '-- n', ''])]
    parts = []
    kinds = r.choice([['any'], ['any'], ['copy'], ['section copy'], ['list'], ['fieldset'], ['value'], ['malformed'], ['any', 'any'], ['any', 'copy'], ['list', 'any'], ['fieldset', 'any'],
                      ['fieldset', 'fieldset'], ['list', 'list'], ['any', 'malformed'], ['value', 'any']])
    if 'copy' in kinds:
        parts.append(r.choice([x for x in FIXED if '#' not in x]) + '\ng: v')
    elif 'section copy' in kinds:
        parts.append(r.choice([x for x in FIXED if '#' in x]))
    elif r.random() < 0.2:
        parts.append(r.choice(['> c', '', 'first: v']))
    for i, kind in enumerate(kinds):
        ground = {'list': ['l:', 'l:\n- v'], 'fieldset': ['f:', 'f:\na = v'], 'value': ['g: v', 'l:\n- v', 'f:\na = v', 'g:']}.get(kind, GROUND)
        ground = r.choice(ground)
        if ground:
            parts.append(ground if not i else ground.replace('f:', r.choice(['f:', 'h < f'])).replace('l:', r.choice(['l:', 'h < l'])))
        parts.append([r.choice(UNITS[kind]), 'lines'])
    if r.random() < 0.6:
        parts.append(r.choice(TAILS))
    return [p for p in parts if p != '' or r.random() < 0.3] or ['k: v']


# Depth instead of length. Those whose content adds up along the chain are only parsed.
DEEP = [[['{h} s', 'deep']], [['{h} s{i}\na: v', 'deep']], [['{h} s{i}\nl:\n- x\n- y', 'deep']], [['{h} s{i}\nf:\na = x', 'deep']], [['{h} s{i}\n{h}# e', 'deep']], [['> c\n{h} s{i}\nk: v', 'deep']],
        [['{h} s{i}\nk: v', 'deep'], '# z < s1'], [['{h} s{i}\nk: v', 'deep'], '# z << s1'], ['# z << r', ['#{h} s\na: v', 'deep'], '# r', ['#{h} s\nb: v', 'deep']],
        ['# r', ['#{h} s\na: v', 'deep'], '# z << r', ['#{h} s', 'deep']], ['# r', ['#{h} s\na: v', 'deep'], '# z << r', ['#{h} s', 'deep'], 'own: v'],
        ['c0: v', ['c{i} < c{p}', 'deep']], ['c0:\n- v', ['c{i} < c{p}', 'deep']], ['# c0\nk: v', ['# c{i} < c{p}', 'deep']], ['# c0\n## x\nk: v', ['# c{i} << c{p}', 'deep']], ['c0:', ['c{i} < c{p}', 'deep']],
        [['{h} s', 'deep'], 'bad'], [['{h} s', 'deep'], '###'], [['c{p} < c{i}', 'deep']], [['# c{p} < c{i}', 'deep']], [['{h} c{i} < c{p}', 'deep']], ['# c0', ['#{h} c{i} < c0', 'deep']]]
CHAINS = [['c0:\n- v', ['c{i} < c{p}\n- w', 'deep']], ['c0:\na = v', ['c{i} < c{p}\na{i} = w', 'deep']], ['# c0\nk: v', ['# c{i} < c{p}\nk{i}: v', 'deep']], ['> c\nc0: v', ['c{i} < c{p}\n| w', 'deep']]]


def stories():
    """Growing documents worth trying on every run."""
    for unit in UNITS['any'] + UNITS['malformed']:
        yield [[unit, 'lines']]
    for ground, kind in (('l:', 'list'), ('f:', 'fieldset'), ('g: v', 'value'), ('l:\n- v', 'value'), ('f:\na = v', 'value'), ('-- m', 'body')):
        for unit in UNITS[kind]:
            yield [ground, [unit, 'lines']] + (['-- m'] if kind == 'body' else [])
    for unit in UNITS['copy']:
        for t in FIXED:
            if '#' not in t:
                yield [t, [unit, 'lines']]
    for unit in UNITS['section copy']:
        for t in FIXED:
            if '#' in t:
                yield [t, [unit, 'lines']]
    yield ['l:', ['- x', 'lines'], 'z < l', ['- y', 'lines']]
    yield ['f:', ['a{i} = x', 'lines'], 'z < f', ['a{i} = y', 'lines']]
    yield ['f:', ['a{i} = x', 'lines'], 'z < f', ['b{i} = y', 'lines']]
    yield ['# s', ['k{i}: v', 'lines'], '# z < s', ['k{i}: w', 'lines']]
    yield ['# s', ['k{i}: v', 'lines'], '# z << s', ['o{i}: w', 'lines']]
    yield ['# s', ['## u{i}\na: v', 'lines'], '# z << s', ['## u{i}\nb: w', 'lines']]
    yield ['# s', ['## u{i}\na: v', 'lines'], '# z < s', ['## u{i}\nb: w', 'lines']]
    yield ['# z << s', ['## u{i}\nb: w', 'lines'], '# s', ['## u{i}\na: v', 'lines']]
    yield ['# s << r', ['## u{i}\n### x{i}', 'lines'], '# r', ['## u{i}\n### y\n### x{i}', 'lines']]
    yield ['# r', ['k{i}: v', 'lines'], '# s < r', ['o{i}: w', 'lines'], '# z << s', 'p: v']
    yield ['# r', ['k{i}: v', 'lines'], '# s << r', ['o{i}: w', 'lines'], '# z < s', ['q{i}: w', 'lines']]
    yield ['# r\n## x', ['k{i}: v', 'lines'], '# s << r\n## x', ['o{i}: w', 'lines'], '# z << s\n## x', ['q{i}: w', 'lines']]
    yield ['f:', ['a{i} = x', 'lines'], 'y < f', ['b{i} = y', 'lines'], 'z < y', ['c{i} = z', 'lines']]
    yield ['l:', ['- x', 'lines'], 'y < l', ['- y', 'lines'], 'z < y', ['- z', 'lines']]
    yield [['c{i} < k{i}', 'lines'], ['k{i}: v', 'lines']]
    yield [['# c{i} << k{i}', 'lines'], ['# k{i}\na: v', 'lines']]
    yield ['# a', ['c{i} < k{i}', 'lines'], '# b', ['k{i}: v', 'lines']]
    yield [['> c', 'lines'], 'k: v']
    yield [['>   c', 'lines'], ['> c', 'lines'], 'k: v']
    yield [['>', 'lines'], 'k: v']
    yield ['k: v', ['', 'lines'], '| w']
    yield ['l:', ['- x', 'lines'], 'k: v', ['', 'lines'], '- y']
    yield from WIDE
    for begin in BEGIN:
        yield [begin, [' ', 'inline'], 'x']
        yield [begin, ['x ', 'inline']]
        yield [begin, ['x', 'inline']]
        yield [begin + 'a', [' ', 'inline'], 'b']
        yield [begin + 'a', ['\u00a0', 'inline'], 'b: c']
        yield [begin + 'a', ['\t', 'inline']]
    for piece in PIECES:
        yield [[piece, 'inline']]


# --- working with a document ----------------------------------------------------------------------------------------
def walk(section, kind='each', visit=None):
    for e in section.elements():
        if visit:
            visit(e)
        if e.yields_section():
            walk(e.to_section(), kind, visit)
        elif e.yields_empty():
            e.to_empty().optional_string_comment()
        elif e.yields_field():
            f = e.to_field()
            f.optional_string_value()
            f.optional_string_comment()
        elif e.yields_list():
            for x in e.to_list().items():
                x.optional_string_value()
                x.optional_string_comment()
        elif e.yields_fieldset():
            for x in e.to_fieldset().entries():
                x.optional_string_value()
                x.string_key()


def by_key(doc):
    """Every element of the document by its own key: as one of many, and - when unique - alone."""
    seen = {}

    def note(e):
        seen.setdefault(id(e.parent()), (e.parent(), {}))[1].setdefault(e.string_key(), []).append(e)
    walk(doc, visit=note)
    for parent, keys in seen.values():
        for key, found in keys.items():
            parent.elements(key)
            if len(found) == 1:
                e = parent.element(key)
                if e.yields_fieldset() and not e.yields_empty():
                    fieldset = e.to_fieldset()
                    for k in {x.string_key() for x in fieldset.entries()}:
                        try:
                            fieldset.entry(k)
                        except R.ValidationError:
                            pass
                elif e.yields_list() and not e.yields_empty():
                    e.to_list().optional_string_values()


def last_error(doc):
    out = []
    walk(doc, visit=out.append)
    e = out[-1] if out else doc
    return e.error('m'), e.key_error('m') if out else None


def first(doc):
    return next(iter(doc.elements()))


def require(doc):
    for flag in (True, False):
        doc.all_elements_required(flag)
    walk(doc)
    doc.all_elements_required()


def touched(doc):
    walk(doc)
    doc.assert_all_touched()


WORK = {
    'walk': walk,
    'by key': by_key,
    'raw': lambda d: d.raw(),
    'assert_all_touched': lambda d: d.assert_all_touched(),
    'walk and assert_all_touched': touched,
    'touch and assert_all_touched': lambda d: (d.touch(), d.assert_all_touched()),
    'missing': lambda d: d.required_field('gone'),
    'too many': lambda d: d.element('k'),
    'too many sections': lambda d: d.section('s'),
    'wrong kind': lambda d: d.fields(),
    'wrong kind of sections': lambda d: d.sections(),
    'entries of one kind': lambda d: first(d).to_fieldset().entry('a'),
    'missing item values': lambda d: first(d).to_list().required_string_values(),
    'missing entry': lambda d: first(d).to_fieldset().required_entry('gone'),
    'missing in section': lambda d: d.section('s').required_element('gone'),
    'last error': last_error,
    'first error': lambda d: (first(d).error('m'), first(d).key_error('m'), first(d).comment_error('m')),
    'value error': lambda d: first(d).to_field().value_error('m'),
    'document error': lambda d: d.error('m'),
    'requirement': require,
    'copied': lambda d: d.element('z').raw(),
    'copied fieldset': lambda d: d.fieldset('z').assert_all_touched(),
    'repr': lambda d: repr([e for e in d.elements()]),
}
LOOKUPS = {
    'lookup in the middle': lambda t: R.enolib.lookup(t, index=len(t) // 2),
    'lookup at the end': lambda t: R.enolib.lookup(t, index=len(t)),
    'lookup at the start': lambda t: R.enolib.lookup(t, index=0),
    'lookup on the first line': lambda t: R.enolib.lookup(t, line=0, column=0),
    'lookup on a line in the middle': lambda t: R.enolib.lookup(t, line=t.count('\n') // 2, column=0),
    'lookup on the last line': lambda t: R.enolib.lookup(t, line=t.count('\n'), column=0),
}


# --- measuring ------------------------------------------------------------------------------------------------------
class Steps:
    """Counts executed lines, jumps and calls of Python code: the same number on every run."""
    TOOL = 3

    def __enter__(self):
        self.count = 0
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, 'verif-steps')
        events = mon.events.LINE | mon.events.JUMP | mon.events.PY_START | mon.events.PY_RESUME
        for e in (mon.events.LINE, mon.events.JUMP, mon.events.PY_START, mon.events.PY_RESUME):
            mon.register_callback(self.TOOL, e, self.step)
        mon.set_events(self.TOOL, events)
        return self

    def step(self, *args):
        self.count += 1

    def __exit__(self, *args):
        sys.monitoring.set_events(self.TOOL, 0)
        sys.monitoring.free_tool_id(self.TOOL)


def job(parts, n, work, options):
    """Returns what is to be measured, with everything before it done."""
    text = grow(parts, n)
    if work == 'parse':
        return lambda: R.outcome(lambda: R.enolib.parse(text, **options))
    if work in LOOKUPS:
        return lambda: R.outcome(lambda: LOOKUPS[work](text))
    o = R.outcome(lambda: R.enolib.parse(text, **options))
    if o[0] != 'ok':
        return None
    return lambda: R.outcome(lambda: WORK[work](o[1]))


def steps(parts, n, work, options):
    call = job(parts, n, work, options)
    if call is None:
        return None, None
    if R.IMPL == 'js':
        R.enolib.bridge.request(op='counted')
        o = call()
        return R.enolib.bridge.request(op='counted'), o[0]
    re.purge()                  # what earlier measurements left in caches must not make this one cheaper
    with Steps() as s:
        o = call()
    return s.count, o[0]


def seconds(parts, n, work, options):
    call = job(parts, n, work, options)
    if call is None:
        return None, None
    if R.IMPL == 'js':
        bridge = R.enolib.bridge
        bridge.request(op='collect garbage')
        bridge.spent = 0
        try:
            o = call()
            return bridge.spent, o[0]
        finally:
            bridge.spent = None
    gc.collect()
    re.purge()
    enabled = gc.isenabled()
    gc.disable()
    try:
        a = time.process_time()
        o = call()
        return time.process_time() - a, o[0]
    finally:
        if enabled:
            gc.enable()
