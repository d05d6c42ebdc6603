"""Documents of every size: what holds for small documents holds for documents of hundreds of thousands of lines, elements or
characters (C41, C42). Every document comes with what it says, put together while it is written, without any parser."""
import random

import real as R
from checks import register
from harness import Check, Violation

JS = R.IMPL == 'js'


class Doc:
    """A document under construction: its lines, and everything that is known about it."""

    def __init__(self, w):
        self.w, self.lines, self.raw = w, [], []
        self.values = []        # (chain of calls from the document, value)
        self.places = []        # (line, column, kind and key of the element there, token)
        self.spots = []         # (chain to an element, line, from column, to column of its value)
        self.refused = None     # (line, from column, to column) of the parse error
        self.lacks = []         # (chain of calls that fails with a validation error)
        self.deep = False

    def add(self, *lines):
        self.lines += lines
        return len(self.lines) - 1

    def field(self, key, value, **more):
        n = self.add(f"{key}: {value}")
        node = {'type': 'field', 'key': key, 'value': value, **more}
        self.places.append((n, len(key) + 2, 'field', key, 'value'))
        return n, node


def sections_of(d, n):
    for i in range(n):
        at = d.add(f"# s{i}")
        _, node = d.field('a', f"{d.w}{i}")
        d.raw.append({'type': 'section', 'key': f"s{i}", 'elements': [node]})
        d.values.append(([('section', f"s{i}"), ('field', 'a'), ('required_string_value',)], f"{d.w}{i}"))
        d.places.append((at, 2, 'section', f"s{i}", 'key'))


def subsections_of(d, n):
    d.add('# all')
    nodes = []
    for i in range(n):
        at = d.add(f"## s{i}")
        _, node = d.field('a', f"{d.w}{i}")
        nodes.append({'type': 'section', 'key': f"s{i}", 'elements': [node]})
        d.values.append(([('section', 'all'), ('section', f"s{i}"), ('field', 'a'), ('required_string_value',)], f"{d.w}{i}"))
        d.places.append((at, 3, 'section', f"s{i}", 'key'))
    d.raw.append({'type': 'section', 'key': 'all', 'elements': nodes})


def fields_of(d, n):
    for i in range(n):
        at, node = d.field(f"k{i}", f"{d.w} {i}")
        d.raw.append(node)
        d.values.append(([('field', f"k{i}"), ('required_string_value',)], f"{d.w} {i}"))
        d.spots.append(([('field', f"k{i}")], at, len(f"k{i}: "), len(d.lines[at])))
    d.lacks.append([('required_field', 'gone')])


def twins_of(d, n):
    for i in range(n):
        _, node = d.field('k', f"{d.w}{i}")
        d.raw.append(node)
    d.lacks.append([('required_field', 'k')])
    d.lacks.append([('required_section', 'gone')])


def items_of(d, n, key='l'):
    d.add(key + ':')
    nodes = []
    for i in range(n):
        at = d.add(f"- {d.w} {i}")
        nodes.append({'type': 'list_item', 'value': f"{d.w} {i}"})
        d.places.append((at, 2, 'list_item', f"{d.w} {i}", 'value'))
    d.raw.append({'type': 'list', 'key': key, 'items': nodes})
    d.values.append(([('list', key), ('required_string_values',)], [x['value'] for x in nodes]))
    d.values.append(([('list', key), ('length',)], n))
    return nodes


def entries_of(d, n, key='f'):
    d.add(key + ':')
    nodes = []
    for i in range(n):
        at = d.add(f"k{i} = {d.w} {i}")
        nodes.append({'type': 'fieldset_entry', 'key': f"k{i}", 'value': f"{d.w} {i}"})
        d.places.append((at, 0, 'fieldset_entry', f"k{i}", 'key'))
        d.values.append(([('fieldset', key), ('entry', f"k{i}"), ('required_string_value',)], f"{d.w} {i}"))
        d.spots.append(([('fieldset', key), ('entry', f"k{i}")], at, len(f"k{i} = "), len(d.lines[at])))
    d.raw.append({'type': 'fieldset', 'key': key, 'entries': nodes})
    d.lacks.append([('fieldset', key), ('required_entry', 'gone')])
    return nodes


def twin_entries_of(d, n):
    d.add('f:')
    d.add(*(f"k = {d.w}{i}" for i in range(n)))
    d.raw.append({'type': 'fieldset', 'key': 'f', 'entries': [{'type': 'fieldset_entry', 'key': 'k', 'value': f"{d.w}{i}"} for i in range(n)]})
    d.lacks.append([('fieldset', 'f'), ('required_entry', 'k')])


def continued(d, n):
    value = d.w
    for i in range(n):
        op, text = '|\\'[i % 3 == 0], '' if i % 7 == 5 else f"{i}"
        d.add(f"{op} {text}".rstrip() if text else op)
        if text:
            value += (' ' if op == '\\' or i % 7 == 6 and gap else '') + text
        gap = op == '\\' and not text
    return value


def continuations_of(d, n):
    at = d.add(f"k: {d.w}")
    value = continued(d, n)
    d.raw.append({'type': 'field', 'key': 'k', 'value': value})
    d.values.append(([('field', 'k'), ('required_string_value',)], value))
    for line in (at + 1, at + n // 2, at + n):
        if d.lines[line].rstrip() not in ('|', '\\'):
            d.places.append((line, 2, 'field', 'k', 'value'))
    last = len(d.lines) - 1
    d.spots.append(([('field', 'k')], at, 3, (last, len(d.lines[last]))))


def item_continuations_of(d, n):
    d.add('l:')
    d.add(f"- {d.w}")
    value = continued(d, n)
    d.add('- last')
    d.raw.append({'type': 'list', 'key': 'l', 'items': [{'type': 'list_item', 'value': value}, {'type': 'list_item', 'value': 'last'}]})
    d.values.append(([('list', 'l'), ('required_string_values',)], [value, 'last']))


def comments_of(d, n):
    texts = ['' if 0 < i < n - 1 and i % 50 == 3 else f"{d.w} {i}" for i in range(n)]
    d.add(*(('> ' + t).rstrip() for t in texts))
    _, node = d.field('k', 'v', comment='\n'.join(texts))
    d.raw.append(node)
    d.values.append(([('field', 'k'), ('required_string_comment',)], '\n'.join(texts)))


def detached_of(d, n):
    for i in range(n):
        at = d.add(f"> {d.w}{i}", '') - 1
        d.places.append((at, 2, 'document', None, 'comment'))
    _, node = d.field('k', 'v')
    d.raw.append(node)


def blanks_of(d, n):
    d.add(*(['', ' ', '\t'][i % 3] for i in range(n)))
    at, node = d.field('k', d.w)
    d.raw.append(node)
    d.values.append(([('field', 'k'), ('required_string_value',)], d.w))
    d.spots.append(([('field', 'k')], at, 3, len(d.lines[at])))


def body_of(d, n, key='k', op='--'):
    at = d.add(f"{op} {key}")
    body = [f"{d.w}: {i}" if i % 5 else '' for i in range(n)]
    d.add(*body, f"{op} {key}")
    d.raw.append({'type': 'field', 'key': key, 'value': '\n'.join(body)})
    d.values.append(([('field', key), ('required_string_value',)], '\n'.join(body)))
    d.spots.append(([('field', key)], at + 1, 0, (at + n, len(body[-1]))))
    d.places.append((at + n + 1, 1, 'field', key, 'multiline_field_operator'))


def copied_list_of(d, n):
    nodes = items_of(d, n)
    d.add('c < l', '- own', 'm < l')
    d.raw.append({'type': 'list', 'key': 'c', 'items': nodes + [{'type': 'list_item', 'value': 'own'}]})
    d.raw.append({'type': 'list', 'key': 'm', 'items': nodes})
    d.values.append(([('list', 'c'), ('required_string_values',)], [x['value'] for x in nodes] + ['own']))


def copied_fieldset_of(d, n):
    nodes = entries_of(d, n)
    d.add('c < f', f"k{n // 2} = own", 'o = p', 'm < f')
    d.raw.append({'type': 'fieldset', 'key': 'c', 'entries': [x for i, x in enumerate(nodes) if i != n // 2] +
                  [{'type': 'fieldset_entry', 'key': f"k{n // 2}", 'value': 'own'}, {'type': 'fieldset_entry', 'key': 'o', 'value': 'p'}]})
    d.raw.append({'type': 'fieldset', 'key': 'm', 'entries': nodes})
    d.values.append(([('fieldset', 'c'), ('entry', f"k{n // 2}"), ('required_string_value',)], 'own'))
    d.values.append(([('fieldset', 'c'), ('entry', f"k{n - 1}"), ('required_string_value',)], f"{d.w} {n - 1}"))
    d.values.append(([('fieldset', 'm'), ('entry', f"k{n - 1}"), ('required_string_value',)], f"{d.w} {n - 1}"))


def copied_section_of(d, n, operator='<'):
    d.add('# t')
    nodes = [d.field(f"k{i}", f"{d.w} {i}")[1] for i in range(n)]
    d.add(f"# c {operator} t", f"k{n // 2}: own", 'o: p')
    d.raw.append({'type': 'section', 'key': 't', 'elements': nodes})
    d.raw.append({'type': 'section', 'key': 'c', 'elements': [x for i, x in enumerate(nodes) if i != n // 2] +
                  [{'type': 'field', 'key': f"k{n // 2}", 'value': 'own'}, {'type': 'field', 'key': 'o', 'value': 'p'}]})
    d.values.append(([('section', 'c'), ('field', f"k{n // 2}"), ('required_string_value',)], 'own'))
    d.values.append(([('section', 'c'), ('field', f"k{n - 1}"), ('required_string_value',)], f"{d.w} {n - 1}"))


def deeply_copied_of(d, n):
    d.add('# t')
    subs = []
    for i in range(n):
        d.add(f"## s{i}")
        subs.append([d.field('a', f"{d.w}{i}")[1]])
    d.add('# c << t', f"## s{n // 2}", 'b: own')
    d.raw.append({'type': 'section', 'key': 't', 'elements': [{'type': 'section', 'key': f"s{i}", 'elements': x} for i, x in enumerate(subs)]})
    d.raw.append({'type': 'section', 'key': 'c', 'elements': [{'type': 'section', 'key': f"s{i}", 'elements': x} for i, x in enumerate(subs) if i != n // 2] +
                  [{'type': 'section', 'key': f"s{n // 2}", 'elements': subs[n // 2] + [{'type': 'field', 'key': 'b', 'value': 'own'}]}]})
    d.values.append(([('section', 'c'), ('section', f"s{n // 2}"), ('field', 'a'), ('required_string_value',)], f"{d.w}{n // 2}"))


def copies_of(d, n):
    """Many copies of one template that comes last."""
    for i in range(n):
        d.add(f"c{i} < t")
        d.raw.append({'type': 'field', 'key': f"c{i}", 'value': d.w})
        d.values.append(([('field', f"c{i}"), ('required_string_value',)], d.w))
    _, node = d.field('t', d.w)
    d.raw.append(node)


def list_copies_of(d, n):
    d.add('t:', '- x')
    d.raw.append({'type': 'list', 'key': 't', 'items': [{'type': 'list_item', 'value': 'x'}]})
    for i in range(n):
        d.add(f"c{i} < t", f"- {d.w}{i}")
        d.raw.append({'type': 'list', 'key': f"c{i}", 'items': [{'type': 'list_item', 'value': 'x'}, {'type': 'list_item', 'value': f"{d.w}{i}"}]})
        d.values.append(([('list', f"c{i}"), ('required_string_values',)], ['x', f"{d.w}{i}"]))


def section_copies_of(d, n):
    d.add('# t')
    _, node = d.field('a', d.w)
    d.raw.append({'type': 'section', 'key': 't', 'elements': [node]})
    for i in range(n):
        d.add(f"# c{i} {'<' * (1 + i % 2)} t", f"b: {i}")
        d.raw.append({'type': 'section', 'key': f"c{i}", 'elements': [node, {'type': 'field', 'key': 'b', 'value': f"{i}"}]})
        d.values.append(([('section', f"c{i}"), ('field', 'a'), ('required_string_value',)], d.w))


def lists_of(d, n):
    for i in range(n):
        d.add(f"l{i}:", '- a', f"- {d.w}{i}")
        d.raw.append({'type': 'list', 'key': f"l{i}", 'items': [{'type': 'list_item', 'value': 'a'}, {'type': 'list_item', 'value': f"{d.w}{i}"}]})
        d.values.append(([('list', f"l{i}"), ('required_string_values',)], ['a', f"{d.w}{i}"]))


def bodies_of(d, n):
    for i in range(n):
        d.add(f"-- k{i}", f"-- k{i + 1}", f"-- k{i}")
        d.raw.append({'type': 'field', 'key': f"k{i}", 'value': f"-- k{i + 1}"})
        d.values.append(([('field', f"k{i}"), ('required_string_value',)], f"-- k{i + 1}"))


def empties_of(d, n):
    for i in range(n):
        at = d.add(f"k{i}:")
        d.raw.append({'type': 'empty_element', 'key': f"k{i}"})
        d.places.append((at, 0, 'empty_element', f"k{i}", 'key'))


def words(d, n):
    """A text of about n characters, of many words."""
    size = max(1, n // (len(d.w) + 1))
    return ' '.join([d.w] * size) + '.'


def long_value(d, n):
    at, node = d.field('k', words(d, n))
    d.raw.append(node)
    d.values.append(([('field', 'k'), ('required_string_value',)], node['value']))
    d.spots.append(([('field', 'k')], at, 3, len(d.lines[at])))


def long_key(d, n):
    key = words(d, n)
    _, node = d.field(key, 'v')
    d.raw.append(node)
    d.values.append(([('field', key), ('required_string_value',)], 'v'))
    d.places.append((0, 3, 'field', key, 'key'))


def long_alike(d, n):
    """Keys and values that differ in their last character only."""
    text = words(d, n)
    d.add('# t')
    nodes = [d.field(text + c, text + c)[1] for c in 'abc']
    d.raw.append({'type': 'section', 'key': 't', 'elements': nodes})
    d.add('# c < t')
    own = d.field(text + 'b', 'own')[1]
    d.raw.append({'type': 'section', 'key': 'c', 'elements': [nodes[0], nodes[2], own]})
    d.values.append(([('section', 'c'), ('field', text + 'a'), ('required_string_value',)], text + 'a'))
    d.values.append(([('section', 'c'), ('field', text + 'b'), ('required_string_value',)], 'own'))
    d.add('# f', 'e:', *(f"{text}{c} = {text}{c}" for c in 'ab'), 'm < e', f"{text}c = own", f"{text}a = own")
    entries = [{'type': 'fieldset_entry', 'key': text + c, 'value': text + c} for c in 'ab']
    more = [{'type': 'fieldset_entry', 'key': text + c, 'value': 'own'} for c in 'ca']
    d.raw.append({'type': 'section', 'key': 'f', 'elements': [{'type': 'fieldset', 'key': 'e', 'entries': entries}, {'type': 'fieldset', 'key': 'm', 'entries': entries[1:] + more}]})
    d.values.append(([('section', 'f'), ('fieldset', 'e'), ('entry', text + 'b'), ('required_string_value',)], text + 'b'))
    d.lacks.append([('section', 't'), ('required_field', text + 'd')])
    d.lacks.append([('section', 'f'), ('fieldset', 'm'), ('required_entry', text + 'd')])


def long_escaped(d, n):
    key = words(d, n) + ':'
    at = d.add(f"`{key}`: v")
    d.raw.append({'type': 'field', 'key': key, 'value': 'v'})
    d.values.append(([('field', key), ('required_string_value',)], 'v'))
    d.places.append((at, 3, 'field', key, 'key'))


def long_ticks(d, n):
    at = d.add(f"{'`' * n} k {'`' * n}: {d.w}")
    d.raw.append({'type': 'field', 'key': 'k', 'value': d.w})
    d.places.append((at, n - 1, 'field', 'k', 'escape_begin_operator'))
    d.values.append(([('field', 'k'), ('required_string_value',)], d.w))


def long_multiline_key(d, n):
    body_of(d, 3, words(d, n))


def long_operator(d, n):
    body_of(d, 3, d.w, '-' * n)


def long_comment(d, n):
    text = words(d, n)
    d.add('> ' + text)
    _, node = d.field('k', 'v', comment=text)
    d.raw.append(node)
    d.values.append(([('field', 'k'), ('required_string_comment',)], text))


def long_item(d, n):
    text = words(d, n)
    d.add('l:', '- ' + text, '| ' + text, '- b')
    d.raw.append({'type': 'list', 'key': 'l', 'items': [{'type': 'list_item', 'value': text + text}, {'type': 'list_item', 'value': 'b'}]})
    d.values.append(([('list', 'l'), ('required_string_values',)], [text + text, 'b']))


def long_entry(d, n):
    key, text = words(d, n // 2), words(d, n // 3)
    d.add('f:', f"{key} = {text}", '\\ ' + text)
    d.raw.append({'type': 'fieldset', 'key': 'f', 'entries': [{'type': 'fieldset_entry', 'key': key, 'value': text + ' ' + text}]})
    d.values.append(([('fieldset', 'f'), ('entry', key), ('required_string_value',)], text + ' ' + text))


def long_line(d, n):
    text = words(d, n)
    d.add('-- k', text, ' ' * n, '-- k')
    d.raw.append({'type': 'field', 'key': 'k', 'value': text + '\n' + ' ' * n})
    d.values.append(([('field', 'k'), ('required_string_value',)], text + '\n' + ' ' * n))


def long_template(d, n):
    key = words(d, n)
    _, node = d.field(key, d.w)
    d.raw.append(node)
    d.add('c < ' + key)
    d.raw.append({'type': 'field', 'key': 'c', 'value': d.w})
    d.values.append(([('field', 'c'), ('required_string_value',)], d.w))


def long_section(d, n):
    key = words(d, n)
    d.add('# ' + key)
    _, node = d.field('a', d.w)
    d.raw.append({'type': 'section', 'key': key, 'elements': [node]})
    d.add(f"# c << {key}", 'b: x')
    d.raw.append({'type': 'section', 'key': 'c', 'elements': [node, {'type': 'field', 'key': 'b', 'value': 'x'}]})
    d.values.append(([('section', 'c'), ('field', 'a'), ('required_string_value',)], d.w))


def long_gaps(d, n):
    gap = ' \t' * (n // 2)
    d.add(f"{gap}k{gap}:{gap}{d.w}{gap}x{gap}", f"{gap}|{gap}y{gap}", f"{gap}> c{gap}", f"{gap}l{gap}<{gap}k{gap}", f"{gap}#{gap}s{gap}", f"{gap}`q`{gap}:{gap}")
    value = f"{d.w}{gap}xy"
    d.raw += [{'type': 'field', 'key': 'k', 'value': value}, {'type': 'field', 'key': 'l', 'value': value, 'comment': 'c'},
              {'type': 'section', 'key': 's', 'elements': [{'type': 'empty_element', 'key': 'q'}]}]
    d.values.append(([('field', 'k'), ('required_string_value',)], value))


WIDE = [sections_of, subsections_of, fields_of, twins_of, items_of, entries_of, twin_entries_of, continuations_of, item_continuations_of, comments_of, detached_of, blanks_of, body_of,
        copied_list_of, copied_fieldset_of, copied_section_of, deeply_copied_of, copies_of, list_copies_of, section_copies_of, lists_of, bodies_of, empties_of]
LONG = [long_value, long_key, long_alike, long_escaped, long_ticks, long_multiline_key, long_operator, long_comment, long_item, long_entry, long_line, long_template, long_section, long_gaps]
HEAVY = 'sections_of', 'subsections_of', 'deeply_copied_of', 'section_copies_of', 'list_copies_of', 'lists_of', 'bodies_of'       # several lines each
SHAPES = {f.__name__: f for f in WIDE + LONG}


def no_kind(d, n, r):
    d.refused = (d.add('oops'), 0, 4)


def no_template(d, n, r):
    at = d.add('c < nowhere')
    d.refused = (at, 0, 11)


def no_end(d, n, r):
    at = d.add('-- open', *(f"x{i}" for i in range(min(n, 70000)))) - min(n, 70000)
    d.refused = (at, 0, 7)


def no_escape(d, n, r):
    text = '`' + 'x ' * n + 'x'
    d.refused = (d.add(text), 1, len(text))


def no_list(d, n, r):
    d.add('# s')
    d.refused = (d.add('- x'), 0, 3)


def no_level(d, n, r):
    d.add('# s')
    d.refused = (d.add('### ' + 'x' * n), 0, n + 4)


def long_nonsense(d, n, r):
    text = 'word ' * n + 'end'
    d.refused = (d.add(text), 0, len(text))


REFUSED = {f.__name__: f for f in (no_kind, no_template, no_end, no_escape, no_list, no_level, long_nonsense)}
SIZES = [255, 256, 257, 258, 300, 511, 512, 1000, 1023, 1025, 2049, 4097, 9999, 10001]
HUGE = [16385, 32769, 65535, 65537, 66000, 99999, 100001, 131073, 150000]


class Scale(Check):
    rule = ('a document of one or two repeated shapes (37, from many elements, items, entries, continuations, comments, copies, blank lines to single long values, keys, operators and runs of blanks), each 255 to 150000 '
            'times or characters, possibly ended by a line that makes it malformed; its content is known from writing it; non-trivial = the document was read or refused as written')
    assumptions = ['nesting and chains of copies stay below 150 levels']
    floors = {'documents read': 250, 'documents refused': 60, 'larger than 65000': 35, 'contents compared': 250, 'values compared': 1000, 'positions looked up': 500, 'errors placed': 170, 'reports read back': 500}

    def prepare(self):
        if JS:
            R.enolib.bridge.stack = None        # what applications have by default

    def enumerate(self, tier):
        for i, name in enumerate(SHAPES):
            yield {'parts': [[name, 1025 + i]], 'end': None, 'seed': i, 'reporter': ['text', 'html', 'terminal'][i % 3]}
            yield {'parts': [[name, 66000 if name in HEAVY else 140000 if SHAPES[name] in WIDE else 262145]], 'end': None, 'seed': i, 'reporter': ['text', 'terminal', 'html'][i % 3]}
        for i, end in enumerate(REFUSED):
            for n in (300, 70001):
                yield {'parts': [['fields_of', n]], 'end': end, 'seed': i, 'reporter': ['text', 'html', 'terminal'][i % 3]}

    def generate(self, r, tier):
        big = r.random() < (0.06 if tier == 'quick' else 0.15)
        names = r.sample(list(SHAPES), 1 if big else r.choice([1, 1, 2]))
        sizes = [r.choice(HUGE) // (2 if x in HEAVY else 1) + r.randint(-2, 2) if big else r.choice(SIZES[:10] if r.random() < 0.7 else SIZES) for x in names]
        return {'parts': [list(x) for x in zip(names, sizes)], 'end': r.choice(list(REFUSED)) if r.random() < 0.25 else None, 'seed': r.getrandbits(32), 'reporter': r.choice(['text', 'html', 'terminal'])}

    def shrinkable(self, case):
        return ['parts']

    @staticmethod
    def write(case):
        r = random.Random(case['seed'])
        d = Doc(r.choice(['w', 'word', 'ä', '日本', '&amp;', 'x.y', "it's"]))
        wrapped = len(case['parts']) > 1
        for i, (name, n) in enumerate(case['parts']):
            if not wrapped:
                SHAPES[name](d, n)
                continue
            # each shape in a section of its own would change keys and depths; so they are written below one another if their keys differ
            part = Doc(d.w)
            SHAPES[name](part, n)
            if {x['key'] for x in part.raw} & {x['key'] for x in d.raw} or d.raw and any(x['type'] == 'section' for x in d.raw):
                continue
            at = len(d.lines)
            if d.lines:
                d.lines.append('')
                at += 1
            d.lines += part.lines
            d.raw += part.raw
            d.values += part.values
            d.lacks += part.lacks
            d.places += [(line + at, *rest) for line, *rest in part.places]
            d.spots += [(chain, line + at, a, b if isinstance(b, int) else (b[0] + at, b[1])) for chain, line, a, b in part.spots]
        if case['end']:
            REFUSED[case['end']](d, case['parts'][0][1] if case['parts'] else 300, r)
        return d, r

    def rows(self, case, snippet):
        return {'text': R.text_rows, 'html': R.html_rows, 'terminal': R.terminal_rows}[case['reporter']](snippet)

    def report(self, case, d, e, line, what, stats):
        """The report quotes the document, and the line in question is emphasised (if one is given)."""
        try:
            rows = [x for x in self.rows(case, e.snippet) if x != '...']
        except R.Malformed as m:
            raise Violation(f"{what}: {m}")
        stats['reports read back'] += 1
        numbers = [x[0] for x in rows]
        if numbers != sorted(set(numbers)) or numbers and not 0 <= numbers[-1] < len(d.lines):
            raise Violation(f"{what}: the report shows lines {numbers[:20]}")
        for n, mark, text in rows:
            if text != d.lines[n] and not (R.nothing(text) and R.nothing(d.lines[n])):
                raise Violation(f"{what}: the report shows line {n + 1} as {text!r:.200}, it reads {d.lines[n]!r:.200}")
        if line is not None and [x[1] for x in rows if x[0] == line] != [R.model.EMPH]:
            raise Violation(f"{what}: the report does not emphasise line {line + 1}: {[x[:2] for x in rows][:20]}")

    def place(self, d, starts, e, want, what):
        first, a, last, b = want
        expect = {'from': {'line': first, 'column': a, 'index': starts[first] + a}, 'to': {'line': last, 'column': b, 'index': starts[last] + b}}
        if e.selection != expect:
            raise Violation(f"{what}: selects {e.selection}, expected {expect}")

    def judge(self, case, stats):
        d, r = self.write(case)
        if not d.lines:
            return None
        text = '\n'.join(d.lines)
        starts, at = [], 0
        for line in d.lines:
            starts.append(at)
            at += len(line) + 1
        what = f"{case['parts']} ({case['end']})"
        big = len(text) > 200000
        stats['larger than 65000'] += max([0] + [n for _, n in case['parts']]) > 65000
        options = {'reporter': R.REPORTERS[case['reporter']], 'locale': R.REC}
        kind, doc = R.outcome(lambda: R.enolib.parse(text, **options))
        if d.refused:
            if kind != 'parse':
                raise Violation(f"{what}: parsing {R.describe((kind, doc)):.300} instead of a parse error in line {d.refused[0] + 1}")
            line, a, b = d.refused
            self.place(d, starts, doc, (line, a, line, b), what)
            self.report(case, d, doc, line, what, stats)
            stats['documents refused'] += 1
            return tuple(map(tuple, case['parts'])), case['end']
        if kind != 'ok':
            raise Violation(f"{what}: parsing {R.describe((kind, doc)):.300}")
        stats['documents read'] += 1
        o = R.outcome(doc.raw)
        stats['contents compared'] += 1
        if o != ('ok', {'type': 'document', 'elements': d.raw}):
            raise Violation(f"{what}: raw() {self.difference(o, d.raw)}")
        chosen = r.sample(d.values, min(len(d.values), 8)) + d.values[-1:]
        for chain, want in chosen:
            o = self.ask(doc, chain)
            stats['values compared'] += 1
            if o != ('ok', want):
                raise Violation(f"{what}: {chain!r:.300} {R.describe(o):.300}, expected {want!r:.300}")
        for chain in d.lacks:
            o = self.ask(doc, chain)
            if o[0] != 'validation':
                raise Violation(f"{what}: {chain} {R.describe(o):.300} instead of a validation error")
            self.report(case, d, o[1], None, what, stats)
        for chain, line, a, b in r.sample(d.spots, min(len(d.spots), 3)) + d.spots[-1:]:
            last, b = b if isinstance(b, tuple) else (line, b)
            o = self.ask(doc, chain + [('value_error', 'oops')])
            if o[0] != 'ok':
                raise Violation(f"{what}: {chain}.value_error {R.describe(o):.300}")
            stats['errors placed'] += 1
            self.place(d, starts, o[1], (line, a, last, b), f"{what}: {chain}.value_error")
            self.report(case, d, o[1], line, f"{what}: {chain}.value_error", stats)
        fresh = R.enolib.parse(text, **options)
        o = R.outcome(lambda: fresh.assert_all_touched())
        if o[0] != 'validation':
            raise Violation(f"{what}: nothing was touched, but assert_all_touched {R.describe(o):.300}")
        self.report(case, d, o[1], o[1].cursor['line'], f"{what}: untouched", stats)
        fresh.touch()
        o = R.outcome(lambda: fresh.assert_all_touched())
        if o != ('ok', None):
            raise Violation(f"{what}: everything was touched, but assert_all_touched {R.describe(o):.300}")
        for line, column, kind, key, token in r.sample(d.places, min(len(d.places), 1 if big else 3)) + d.places[-1:]:
            by = {'index': starts[line] + column} if r.random() < 0.5 else {'line': line, 'column': column}
            o = R.outcome(lambda: R.enolib.lookup(text, **by, **options))
            stats['positions looked up'] += 1
            if o[0] != 'ok':
                raise Violation(f"{what}: lookup({by}) {R.describe(o):.300}")
            found, type_ = o[1]['element'], o[1]['range']
            want = (kind, key)
            shown = R.outcome(found.raw)[1]
            got = (shown.get('type'), shown.get('value' if kind == 'list_item' else 'key'))
            if got != want or type_ != token:
                raise Violation(f"{what}: lookup({by}) finds {got!r:.200} and {type_}, expected {want!r:.200} and {token}")
        return tuple(map(tuple, case['parts'])), case['end']

    @staticmethod
    def ask(obj, chain):
        for name, *args in chain[:-1]:
            o = R.outcome(lambda: getattr(obj, name)(*args))
            if o[0] != 'ok':
                return o
            obj = o[1]
        name, *args = chain[-1]
        return R.outcome(lambda: getattr(obj, name)(*args))

    @staticmethod
    def difference(o, want):
        if o[0] != 'ok' or not isinstance(o[1], dict) or not isinstance(o[1].get('elements'), list):
            return R.describe(o)[:300]
        got = o[1]['elements']
        if len(got) != len(want):
            return f"reports {len(got)} elements, written are {len(want)}"
        for i, (a, b) in enumerate(zip(got, want)):
            if a != b:
                for name in ('items', 'entries', 'elements'):
                    if isinstance(a.get(name), list) and name in b:
                        if len(a[name]) != len(b[name]):
                            return f"reports {len(a[name])} {name} in {b['key']!r:.50}, expected {len(b[name])}"
                        for x, y in zip(a[name], b[name]):
                            if x != y:
                                return f"reports {x!r:.300} in {b['key']!r:.50}, expected {y!r:.300}"
                return f"reports {a!r:.300}, expected {b!r:.300}"
        return f"differs: {str(o[1])[:200]}"


@register
class C41(Scale):
    id = 'C41'
    quick, thorough = 500, 6000
    level_note = ('Every document observed, however many lines, elements, items, entries, continuations, comments or characters it had, was read, queried, looked up, asserted, reported on or refused exactly as '
                  'written; sizes above 260000, and nesting, were not observed here.')

@register
class C42(Scale):
    id = 'C42'
    quick, thorough = 400, 5000
    level_note = ('Every document observed through a node process with its default limits, however many lines, elements, items, entries, continuations, comments or characters it had, was read, queried, looked up, '
                  'asserted, reported on or refused exactly as written; sizes above 260000, and nesting, were not observed here.')
