BUGS = []
def bug(**k): BUGS.append(k)

bug(id='cycle-short-memory', prop='C01', file='resolver.py',
    old="            self.resolve_non_section_element(template, [*previous_elements, element])",
    new="            self.resolve_non_section_element(template, [*previous_elements[-3:], element])",
    needs='a cycle of five or more copied elements',
    breaks='the cycle is never noticed and a RecursionError escapes',
    demo='''
try:
    enolib.parse("a < b\\nb < c\\nc < d\\nd < e\\ne < a\\n")
except enolib.ParseError:
    pass
else:
    assert False
''')
bug(id='section-cycle-short-memory', prop='C08', file='resolver.py',
    old="                self.resolve_section(template, [*previous_sections, section])",
    new="                self.resolve_section(template, [*previous_sections, section][-3:])",
    needs='a cycle through four or more sections',
    breaks='the cycle is never noticed and a RecursionError escapes',
    demo='''
try:
    enolib.parse("# a < b\\nx: 1\\n# b < c\\nx: 1\\n# c < d\\nx: 1\\n# d < e\\nx: 1\\n# e < a\\nx: 1\\n")
except enolib.ParseError:
    pass
else:
    assert False
''')
bug(id='terminator-cache', prop='C19', file='analyzer.py',
    edits=[('analyzer.py', "class Analyzer:\n    def __init__(self, context):\n", "TERMINATORS = {}\n\nclass Analyzer:\n    def __init__(self, context):\n"),
           ('analyzer.py', """                terminator_re = re.compile(rf"\\n[^\\S\\n]*({operator})(?!-)[^\\S\\n]*({re.escape(key)})[^\\S\\n]*(?=\\n|$)")
""", """                terminator_re = TERMINATORS.get(key)
                if terminator_re is None:
                    terminator_re = TERMINATORS[key] = re.compile(rf"\\n[^\\S\\n]*({operator})(?!-)[^\\S\\n]*({re.escape(key)})[^\\S\\n]*(?=\\n|$)")
""")],
    needs='two multiline fields with the same key but operators of different length, in one or several documents',
    breaks='a field is terminated by (or waits for) the operator of an earlier field of any document',
    demo='''
enolib.parse("-- a\\nx\\n-- a\\n")
assert enolib.parse("--- a\\n-- a\\n--- a\\n").field('a').required_string_value() == '-- a'
''')
bug(id='multiline-key-unescaped', prop='C02', file='analyzer.py',
    old="({re.escape(key)})", new="({key if key.replace(' ', '').isalnum() else re.escape(key).replace(chr(92) + '.', '.')})",
    needs='a multiline field with a dot in its key and a lookalike line in its body',
    breaks='the lookalike terminates the field',
    demo='''
assert enolib.parse("-- a.b\\n-- axb\\n-- a.b\\n").field('a.b').required_string_value() == '-- axb'
''')
bug(id='deep-operator-style', prop='C21', file='reporters/terminal_reporter.py',
    old="    'deep_copy_operator': WHITE,\n    'multiline", new="    'multiline",
    needs='a terminal report that displays a deeply copying section',
    breaks='the report crashes',
    demo='''
d = enolib.parse("# a\\nx: 1\\n# b << a\\ny: 1\\n", reporter=__import__('enolib.reporters', fromlist=['x']).TerminalReporter)
d.section('b').error('x')
''')
bug(id='html-strip', prop='C21', file='reporters/html_reporter.py',
    old='>{escape(content)}</div>', new='>{escape(content).rstrip()}</div>',
    needs='a reported line with trailing blanks',
    breaks='the html report drops them',
    demo='''
d = enolib.parse("a: 1  \\n", reporter=__import__('enolib.reporters', fromlist=['x']).HtmlReporter)
assert 'a: 1  </div>' in d.error('x').snippet
''')
bug(id='html-expand-tabs', prop='C21', file='reporters/html_reporter.py',
    old="content = self._context.input[instruction['ranges']['line'][BEGIN]:instruction['ranges']['line'][END]]",
    new="content = self._context.input[instruction['ranges']['line'][BEGIN]:instruction['ranges']['line'][END]].expandtabs(4)",
    needs='a reported line with a tab',
    breaks='the html report shows blanks instead',
    demo='''
d = enolib.parse("a:\\t1\\n", reporter=__import__('enolib.reporters', fromlist=['x']).HtmlReporter)
assert 'a:\\t1' in d.field('a').error('x').snippet
''')
bug(id='terminal-value-twice', prop='C21', file='reporters/terminal_reporter.py',
    old="if instruction.get('type') in (InstructionType.COMMENT, InstructionType.UNPARSED):",
    new="if instruction.get('type') in (InstructionType.COMMENT, InstructionType.UNPARSED, InstructionType.MULTILINE_FIELD_VALUE):",
    needs='-', breaks='colour only', demo='pass')
bug(id='empty-multiline-end', prop='C14', file='reporters/reporter.py',
    old="                    if 'end' in element:\n                        self._index[element['end']['line']] = element['end']\n",
    new="                    if 'end' in element and 'lines' in element:\n                        self._index[element['end']['line']] = element['end']\n",
    needs='a snippet that shows the end of a multiline field without lines',
    breaks='the line is shown empty',
    demo='''
d = enolib.parse("-- a\\n-- a\\n")
assert '2 | -- a' in d.field('a').error('x').snippet
''')
bug(id='item-comment-index', prop='C14', file='reporters/reporter.py',
    old="                            index_comments(item)\n\n", new="",
    needs='a snippet that shows the comment of a list item',
    breaks='the comment line is shown empty',
    demo='''
d = enolib.parse("a:\\n> c\\n- 1\\n")
assert '2 | > c' in d.list('a').error('x').snippet
''')
bug(id='trailing-comment-meta', prop='C14', file='analyzer.py',
    old="        if comments is not None:\n            self._context.meta.extend(comments)\n",
    new="        if comments is not None and self._context.input[-1] == '\\n':\n            self._context.meta.extend(comments)\n",
    nth=1, needs='comments at the very end of a document without final newline',
    breaks='snippets show these lines empty', demo='''
d = enolib.parse("a: 1\\n> c")
assert '2 | > c' in d.field('a').error('x').snippet
''')
bug(id='comment-before-continuation-meta', prop='C14', file='analyzer.py',
    old="                    last_continuable_element['continuations'] = [instruction]\n\n                if comments is not None:\n                    self._context.meta.extend(comments)\n                    comments = None\n",
    new="                    last_continuable_element['continuations'] = [instruction]\n\n                if comments is not None:\n                    self._context.meta.extend(comments[:-1] or comments)\n                    comments = None\n",
    nth=1, needs='several comment lines above a direct continuation',
    breaks='snippets show the last of them empty', demo='''
d = enolib.parse("a: 1\\n> c\\n> d\\n| 2\\n")
assert '3 | > d' in d.field('a').error('x').snippet
''')
bug(id='missing-value-last-continuation', prop='C13', file='errors/validation.py',
    old="            selection['to'] = cursor(element['continuations'][-1], 'line', END)\n",
    new="            selection['to'] = cursor(element['continuations'][0], 'line', END)\n",
    needs='a required value missing on a field with several empty continuations',
    breaks='the selection ends at the first continuation', demo='''
try:
    enolib.parse("a:\\n|\\n|\\n|\\n").field('a').required_string_value()
except enolib.ValidationError as e:
    assert e.selection['to']['line'] == 3
''')
bug(id='value-error-last-continuation', prop='C13', file='errors/validation.py',
    old="                select['to'] = cursor(element['continuations'][-1], 'line', END)\n",
    new="                select['to'] = cursor(element['continuations'][-1], 'value' if 'value' in element['continuations'][-1]['ranges'] else 'line', END if 'value' in element['ranges'] else BEGIN)\n",
    needs='a value error on an element written entirely in continuations',
    breaks='the selection ends before the last continuation', demo='''
e = enolib.parse("a:\\n| x\\n| y\\n").field('a').value_error('x')
assert e.selection['to']['index'] == 10, e.selection
''')
bug(id='comments-end-column', prop='C13', file='errors/selections.py',
    old="        return selection(comments[0], 'line', BEGIN, comments[-1], 'line', END)",
    new="        return selection(comments[0], 'line', BEGIN, max(comments, key=lambda c: c['ranges']['line'][END] - c['ranges']['line'][BEGIN]), 'line', END)",
    needs='a comment error on a comment block whose last line is not the longest',
    breaks='the selection stops in the middle of the block', demo='''
e = enolib.parse("> long\\n> s\\na: 1\\n").field('a').comment_error('x')
assert e.selection['to']['line'] == 1
''')
bug(id='escape-column', prop='C13', file='errors/parsing.py',
    old="context, instruction, match.end(1))", new="context, instruction, match.start(1) + 1)",
    needs='an unterminated key escaped with two or more backticks',
    breaks='the selection starts between the backticks', demo='''
try:
    enolib.parse("``a: 1\\n")
except enolib.ParseError as e:
    assert e.selection['from']['column'] == 2
''')
bug(id='multiline-value-first-line', prop='C22', file='errors/validation.py',
    old="                select = selection(element['lines'][0], 'line', BEGIN, element['lines'][-1], 'line', END)",
    new="                select = selection(element['lines'][0], 'line', BEGIN, element['lines'][min(len(element['lines']), 3) - 1], 'line', END)",
    needs='a value error on a multiline field with four or more lines',
    breaks='the selection covers only the first three', demo='''
e = enolib.parse("-- a\\n1\\n2\\n3\\n4\\n-- a\\n").field('a').value_error('x')
assert e.selection['to']['line'] == 4
''')
bug(id='comment-error-template-place', prop='C22', file='elements/element_base.py',
    old="        return Validation.comment_error(self._context, message, self._instruction)",
    new="        return Validation.comment_error(self._context, message, self._instruction.get('mirror', self._instruction) if not 'comments' in self._instruction else self._instruction)",
    needs='a comment error on a copy where neither side has a comment',
    breaks='the error points at the template', demo='''
e = enolib.parse("a: 1\\nb < a\\n").field('b').comment_error('x')
assert e.selection['from']['line'] == 1
''')
bug(id='fieldset-switch-back', prop='C12', file='elements/section.py',
    old="                element.to_fieldset().all_entries_required(required)",
    new="                element.to_fieldset().all_entries_required()",
    needs='requiring a section with an accessed fieldset, then the opposite',
    breaks='the fieldset stays required', demo='''
d = enolib.parse("f:\\na = 1\\n")
f = d.fieldset('f')
d.all_elements_required(); d.all_elements_required(False)
assert f.optional_entry('x') is None
''')
bug(id='fieldset-required-inherit', prop='C12', file='elements/fieldset.py',
    old="        self._all_entries_required = parent._all_elements_required if parent else False",
    new="        self._all_entries_required = parent._all_elements_required if parent and 'entries' in instruction else False",
    needs='an empty or copied fieldset obtained after its section was required',
    breaks='its entries are not required', demo='''
d = enolib.parse("f:\\n")
d.all_elements_required()
try:
    d.fieldset('f').optional_entry('x')
except enolib.ValidationError:
    pass
else:
    assert False
''')
bug(id='missing-entry-holder', prop='C10', file='elements/missing/missing_fieldset.py',
    old="        return MissingFieldsetEntry(key, self)", new="        return MissingFieldsetEntry(key, self._parent)",
    needs='requiring the value of an entry of an absent fieldset',
    breaks='the error does not name the absent fieldset', demo='''
try:
    enolib.parse("a: 1\\n").fieldset('f').entry('e').required_string_value()
except enolib.ValidationError as e:
    assert "'f'" in e.text, e.text
''')
bug(id='placeholder-section-parent', prop='C10', file='elements/missing/missing_section.py',
    old="    def section(self, key=None):\n        return MissingSection(key, self)",
    new="    def section(self, key=None):\n        return MissingSection(key, self if self._key else self._parent)",
    needs='a chain of two absent sections where the first is asked without key',
    breaks='the second one is reported as missing', demo='''
try:
    enolib.parse("").section().section('b').required_field('c')
except enolib.ValidationError as e:
    assert "'b'" not in e.text, e.text
''')
bug(id='placeholder-required-item', prop='C10', file='elements/missing/missing_section_element.py',
    old="        return missing_list.MissingList(self._key, self._parent)",
    new="        return missing_list.MissingList(self._key, self)",
    needs='converting an absent element to a list and requiring its key',
    breaks='an element instead of a list is reported missing', demo='''
try:
    enolib.parse("").element('x').to_list().string_key()
except enolib.ValidationError as e:
    assert 'list' in e.text, e.text
''')
bug(id='raw-extends-own', prop='C19', file='context.py',
    old="                copied_entries = [entry for entry in self.entries(fieldset['extend']) if entry['key'] not in fieldset['computed_entries_map']]\n\n                fieldset['computed_entries'] = copied_entries + fieldset['computed_entries']\n",
    new="                copied_entries = [entry for entry in self.entries(fieldset['extend']) if entry['key'] not in fieldset['computed_entries_map']]\n\n                fieldset['computed_entries'][0:0] = copied_entries\n",
    needs='the raw representation of an extended fieldset, then queries or lookup on it',
    breaks='taking it writes the copied entries into the own ones', demo='''
d = enolib.parse("> c\\nf:\\na = 1\\na = 2\\ng < f\\nb = 2\\nh < g\\nc = 3\\n")
before = d.fieldset('g').error('x').snippet
d.raw()
assert d.fieldset('g').error('x').snippet == before
''')
bug(id='raw-mirrored-comment', prop='C16', file='context.py',
    old="            result['comment'] = self.comment(element)\n",
    new="            result['comment'] = self.comment(element.get('mirror', element)) if 'comments' in element.get('mirror', element) else self.comment(element)\n",
    needs='the raw representation of a copy with an own comment whose template has another one',
    breaks="it shows the template's", demo='''
r = enolib.parse("> c\\na: 1\\n> d\\nb < a\\n").raw()
assert r['elements'][1]['comment'] == 'd'
''')
bug(id='list-chain', prop='C06', file='elements/list.py',
    old="            return self._instantiate_items(list['extend']) + [list_item.ListItem(self._context, item, self) for item in list['items']]",
    new="            return [list_item.ListItem(self._context, item, self) for item in list['extend'].get('items', []) + list['items']]",
    needs='a list that extends a copy of a list',
    breaks='items from further up the chain are lost', demo='''
d = enolib.parse("a:\\n- 1\\nb < a\\nc < b\\n- 2\\n")
assert d.list('c').required_string_values() == ['1', '2']
''')
bug(id='entries-own-duplicates', prop='C06', file='elements/fieldset.py',
    old="            native_entries = [instantiate_and_index(entry) for entry in filtered]\n\n            if 'extend' in fieldset:\n                self._instantiate_entries(fieldset['extend'])\n",
    new="            if 'extend' in fieldset:\n                native_entries = [instantiate_and_index(entry) for entry in filtered if entry['key'] not in self._instantiated_entries_map]\n                self._instantiate_entries(fieldset['extend'])\n            else:\n                native_entries = [instantiate_and_index(entry) for entry in filtered]\n",
    needs='a copying fieldset that defines the same key twice itself',
    breaks='the second entry is lost', demo='''
d = enolib.parse("a:\\nx = 1\\nb < a\\ny = 1\\ny = 2\\n")
assert len(d.fieldset('b').entries('y')) == 2
''')
bug(id='merge-duplicate-own', prop='C07', file='resolver.py',
    old="                if (section_element['type'] is not InstructionType.SECTION or\n                    section_element['key'] in merge_map or\n",
    new="                if (section_element['type'] is not InstructionType.SECTION or\n                    merge_map.get(section_element['key']) is False or\n",
    needs='a deep copy with two own subsections of one key',
    breaks='the last of them is merged with the template', demo='''
d = enolib.parse("# a\\n## s\\nx: 1\\n# b << a\\n## s\\ny: 1\\n## s\\nz: 1\\n")
assert [len(s.elements()) for s in d.section('b').sections('s')] == [1, 1]
''')
bug(id='mirror-touch-map', prop='C07', file='elements/section.py',
    old="            filtered = [element for element in section['elements'] if element['key'] not in self._instantiated_elements_map]\n",
    new="            own = set(self._instantiated_elements_map)\n            filtered = [element for element in section['elements'] if element['key'] not in own or element['type'] is InstructionType.SECTION and self._instantiated_elements_map[element['key']][0]._instruction['type'] is not InstructionType.SECTION]\n",
    needs='a section copy that overrides a subsection with a field of the same key',
    breaks='the overridden subsection reappears', demo='''
d = enolib.parse("# a\\n## s\\nx: 1\\n# b < a\\ns: 1\\n")
assert len(d.section('b').elements()) == 1
''')
bug(id='templates-in-lists', prop='C08', file='resolver.py',
    old="                copy_data['template'] = element\n\n    def resolve(self):",
    new="                if 'template' in element and element['template'] in self._context._copy_non_section_elements and element['line'] > copy_data['targets'][0]['line']:\n                    copy_data.setdefault('template', element)\n                else:\n                    copy_data['template'] = element\n\n    def resolve(self):",
    needs='-', breaks='nothing', demo='pass')
bug(id='template-declared-later', prop='C08', file='resolver.py',
    old="                if 'template' in copy_data:\n                    raise Parsing.two_or_more_templates_found(self._context, copy_data['targets'][0], copy_data['template'], element)\n\n                copy_data['template'] = element\n\n    def resolve",
    new="                if 'template' in copy_data and copy_data['targets'][-1]['line'] > copy_data['template']['line']:\n                    raise Parsing.two_or_more_templates_found(self._context, copy_data['targets'][0], copy_data['template'], element)\n\n                copy_data['template'] = element\n\n    def resolve",
    needs='two candidate templates that both follow the copy',
    breaks='the last one is silently taken', demo='''
try:
    enolib.parse("b < a\\na: 1\\na: 2\\n")
except enolib.ParseError:
    pass
else:
    assert False
''')
bug(id='lookup-list-gap', prop='C15', file='lookup.py',
    old="        if index < item['ranges']['line'][BEGIN]:\n            return { 'element': list, 'instruction': None }\n", new="",
    needs='a position between the items of a list, by index',
    breaks='the section instead of the list is returned', demo='''
r = enolib.lookup("l:\\n- a\\n\\n\\n- b\\n", index=7)
assert r['element'].yields_list()
''')
bug(id='lookup-multiline-line', prop='C15', file='lookup.py',
    old="        'instruction': next((l for l in field['lines'] if index <= l['ranges']['line'][END]), None)",
    new="        'instruction': next((l for l in field['lines'] if index < l['ranges']['line'][END]), None)",
    needs='the end of a line of a multiline body, by index',
    breaks='the next line is looked at: no token, or an exception at the last line', demo='''
t = "-- a\\nxy\\n\\n-- a\\n"
assert enolib.lookup(t, index=7)['range'] == enolib.lookup(t, line=1, column=2)['range'] == 'value'
''')
bug(id='lookup-meta-end', prop='C15', file='lookup.py',
    old="if i['ranges']['line'][BEGIN] <= index <= i['ranges']['line'][END]), None)",
    new="if i['ranges']['line'][BEGIN] <= index < i['ranges']['line'][END]), None)",
    needs='the end of a detached comment, by index', breaks='no token there',
    demo='''
t = "> ab\\n\\na: 1\\n"
assert enolib.lookup(t, index=4)['range'] == 'comment'
''')
bug(id='sticky-options', prop='C19', file='parse.py',
    old="def parse(input: str, **options):\n    context = Context(input, **options)",
    new="_options = {}\n\ndef parse(input: str, **options):\n    if 'source' in options and options['source'] == _options.get('source'):\n        options = { **_options, **options }\n    _options.update(options)\n    context = Context(input, **options)",
    needs='two parses with the same source label, the second without the language or reporter of the first',
    breaks='the second document takes them over', demo='''
from enolib.locales import de if False else None
'''.replace("from enolib.locales import de if False else None", """
from enolib.messages import de
enolib.parse("a: 1", source='x', locale=de)
assert enolib.parse("a: 1", source='x').field('a').key_error('m').text.startswith('There')
"""))
bug(id='reporter-shared-buffer', prop='C19', file='reporters/reporter.py',
    edits=[('reporters/reporter.py', "class Reporter:\n    def __init__", "class Reporter:\n    _buffer = []\n\n    def __init__"),
           ('reporters/reporter.py', "        self._snippet = [None] * self._context.line_count\n", "        self._buffer[:] = [None] * self._context.line_count\n        self._snippet = self._buffer\n")],
    needs='two threads that report errors of their own documents at the same time',
    breaks='snippets get mixed up or an exception escapes', demo='''
import threading, sys
sys.setswitchinterval(1e-6)
docs = [enolib.parse("a:\\n- 1\\n" * (3 + 40 * i) + "z: 1\\n" + "\\n" * 300 * i) for i in (0, 1)]
want = [d.field('z').error('x').snippet for d in docs]
bad = []
def work(i):
    try:
        for _ in range(400):
            if docs[i].field('z').error('x').snippet != want[i]:
                bad.append(i)
    except BaseException as e:
        bad.append(e)
ts = [threading.Thread(target=work, args=(i,)) for i in (0, 1)]
[t.start() for t in ts]; [t.join() for t in ts]
assert not bad
''')
bug(id='value-cache-shared', prop='C19', file='context.py',
    edits=[('context.py', "        self.source = source\n", "        self.source = source\n        self.position = 0\n"),],
    old='', new='', needs='-', breaks='nothing', demo='pass')
bug(id='key-loader-marks', prop='C17', file='elements/element_base.py',
    old="            return loader(self._key())\n", new="            return loader(self._key()) or self._key()\n",
    needs='a key loader that returns a false value',
    breaks='the key is returned instead', demo='''
assert enolib.parse("a: 1").field('a').key(lambda k: 0) == 0
''')
bug(id='comment-loader-falsy', prop='C17', file='elements/element_base.py',
    old="        if not loader:\n            return comment\n\n        try:\n            return loader(comment)\n",
    new="        if not loader:\n            return comment\n\n        try:\n            return loader(comment.strip())\n",
    needs='a loaded multi-line comment whose first line is indented deeper',
    breaks='the loader does not get the exact text', demo='''
d = enolib.parse(">   a\\n> b\\nx: 1\\n")
assert d.field('x').optional_comment(lambda c: c) == d.field('x').optional_string_comment()
''')
bug(id='item-loader-once', prop='C17', file='elements/list.py',
    old="        return [item.optional_value(loader) for item in self._items()]",
    new="        known = {}\n        return [known.setdefault(item._context.value(item._instruction), item.optional_value(loader)) for item in self._items()]",
    needs='a loader whose results differ for equal items', breaks='equal items get the result of the first', demo='''
n = iter(range(9))
assert enolib.parse("a:\\n- x\\n- x\\n").list('a').optional_values(lambda v: next(n)) == [0, 1]
''')
bug(id='es-entry-missing', prop='C18', file='messages/es.py',
    old="missing_fieldset_entry =", new="missing_fieldset_entries =",
    needs='requiring any entry of an empty fieldset in Spanish', breaks='an AttributeError escapes', demo='''
from enolib.messages import es
try:
    enolib.parse("a:\\n", locale=es).fieldset('a').required_entry()
except enolib.ValidationError:
    pass
''')
bug(id='de-expected-item', prop='C18', file='messages/de.py',
    old="expected_list_item =", new="expected_item =",
    needs='converting a looked up element to a list item in German', breaks='an AttributeError escapes', demo='''
from enolib.messages import de
try:
    enolib.lookup("a:\\n", index=0, locale=de)['element'].to_list_item()
except enolib.ValidationError:
    pass
''')
bug(id='entry-parent', prop='C20', file='elements/fieldset_entry.py',
    edits=[('elements/fieldset_entry.py', "from . import fieldset\n", "from . import section\n"),
           ('elements/fieldset_entry.py', "self._parent or fieldset.Fieldset(", "self._parent or section.Section(")],
    needs='the parent of an entry found by lookup', breaks='it is a section without elements', demo='''
p = enolib.lookup("f:\\na = 1\\n", index=4)['element'].to_fieldset_entry().parent()
assert p.entries()
''')
bug(id='list-repr', prop='C20', file='elements/list.py',
    old="items={len(self._items())}>", new="items={len(self._instruction['items']) if 'copy' not in self._instruction and 'mirror' not in self._instruction else len(self._items())}>",
    needs='printing a list converted from an empty element', breaks='KeyError', demo='''
repr(enolib.parse("a:\\n").list('a'))
''')
bug(id='yield-again', prop='C20', file='elements/section_element.py',
    old="""                raise TypeError(f"This element was already yielded as {self._yielded.pretty()} and can't be yielded again as a list.")""",
    new="""                raise TypeError(f"This element was already yielded as {self._yielded.prettyprint()} and can't be yielded again as a list.")""",
    needs='asking an empty element as field and then as list', breaks='AttributeError', demo='''
d = enolib.parse("a:\\n")
d.field('a')
try:
    d.list('a')
except TypeError:
    pass
''')
bug(id='comment-tab-indent', prop='C05', file='context.py',
    old="                                return (' ' * (comment['ranges']['comment'][BEGIN] - comment['ranges']['line'][BEGIN] - shared_indent)) + comment['comment']",
    new="                                return (' ' * (comment['ranges']['comment'][BEGIN] - comment['ranges']['comment_operator'][BEGIN] - shared_indent)) + comment['comment']",
    needs='a comment block with indented operators and deeper indented text', breaks='the deeper indentation is lost', demo='''
d = enolib.parse("  > a\\n  >    b\\nx: 1\\n")
assert d.field('x').optional_string_comment() == "a\\n   b"
''')
bug(id='comment-trailing-empty', prop='C05', file='context.py',
    old="                        non_empty_lines = element['comments'][first_non_empty_line_index:last_non_empty_line_index + 1]",
    new="                        non_empty_lines = element['comments'][first_non_empty_line_index:max(last_non_empty_line_index + 1, 2)]",
    needs='a comment block with text only in its first line', breaks='a trailing newline', demo='''
d = enolib.parse("> a\\n>\\n>\\nx: 1\\n")
assert d.field('x').optional_string_comment() == "a"
''')
bug(id='spaced-continuation-type', prop='C03', file='analyzer.py',
    old="                    if last_continuable_element['type'] is InstructionType.EMPTY_ELEMENT:\n                        last_continuable_element['type'] = InstructionType.FIELD\n",
    new="                    if last_continuable_element['type'] is InstructionType.EMPTY_ELEMENT and value is not None:\n                        last_continuable_element['type'] = InstructionType.FIELD\n",
    nth=0, needs='an empty element whose first continuation is a spaced empty one', breaks='it stays an empty element', demo='''
d = enolib.parse("a:\\n\\\\\\n")
assert not d.element('a').yields_list()
''')
bug(id='continuation-after-comment', prop='C02', file='analyzer.py',
    old="                if comments is not None:\n                    self._context.meta.extend(comments)\n                    comments = None\n\n            elif match.group(Grammar.ELEMENT_OPERATOR_INDEX)",
    new="                if comments is not None:\n                    self._context.meta.extend(comments)\n                    comments = None\n                    last_continuable_element = None\n\n            elif match.group(Grammar.ELEMENT_OPERATOR_INDEX)",
    needs='a continuation after a detached comment', breaks='it is rejected', demo='''
enolib.parse("a: 1\\n> c\\n\\n| 2\\n")
''')
bug(id='section-key-backtick', prop='C03', file='grammar_regex.py',
    old="SECTION_KEY_UNESCAPED = r'([^\\s`<][^<\\n]*?)'", new="SECTION_KEY_UNESCAPED = r'([^\\s`<#][^<\\n]*?)'",
    needs='-', breaks='nothing: excluded by the operator', demo='pass')
bug(id='escaped-section-trim', prop='C03', file='analyzer.py',
    old="                    instruction['key'] = match.group(Grammar.SECTION_KEY_ESCAPED_INDEX)\n",
    new="                    instruction['key'] = match.group(Grammar.SECTION_KEY_ESCAPED_INDEX).rstrip('`')\n",
    needs='an escaped section key that ends with a backtick', breaks='the backtick is lost', demo='''
assert enolib.parse("# `` a` ``\\n").sections()[0].string_key() == 'a`'
''')
bug(id='return-depth', prop='C03', file='analyzer.py',
    old="                elif new_depth == self._depth:\n                    instruction['parent'] = last_section['parent']\n",
    new="                elif new_depth == self._depth and (last_section['elements'] or new_depth < 6):\n                    instruction['parent'] = last_section['parent']\n",
    needs='two adjacent empty sections six levels deep', breaks='the second is rejected', demo='''
enolib.parse('\\n'.join('#' * i + ' a' for i in range(1, 7)) + '\\n###### b\\n')
''')
bug(id='comment-operator-blank', prop='C23', file='grammar_regex.py',
    old='COPY = rf"(<)[^\\S\\n]*{REQUIRED}"', new='COPY = rf"(<)[ \\t\\r\\f\\v]*{REQUIRED}"',
    needs='an unusual blank after the copy operator', breaks='the line is rejected', demo='''
enolib.parse("a: 1\\nb <\\u00a0a\\n")
''')
bug(id='key-operator-blank', prop='C23', file='grammar_regex.py',
    old='LATE_DETERMINED = rf"{KEY}[^\\S\\n]*(?:', new='LATE_DETERMINED = rf"{KEY}[ \\t\\u00a0]*(?:',
    needs='an unusual blank between a key and its operator', breaks='it becomes part of the key, or the line is rejected', demo='''
assert enolib.parse("`a`\\u3000: 1\\n").elements()[0].string_key() == 'a'
''')
bug(id='optional-list-of-field', prop='C09', file='elements/section.py',
    old="            if element._instruction['type'] is not InstructionType.LIST and element._instruction['type'] is not InstructionType.EMPTY_ELEMENT:\n                raise Validation.unexpected_element_type(self._context, key, element._instruction, 'expected_lists')",
    new="            if element._instruction['type'] is not InstructionType.LIST and (key or element._instruction['type'] is not InstructionType.EMPTY_ELEMENT):\n                raise Validation.unexpected_element_type(self._context, key, element._instruction, 'expected_lists')",
    needs='lists by key where one is an empty element', breaks='it raises', demo='''
assert len(enolib.parse("a:\\n- 1\\na:\\n").lists('a')) == 2
''')
bug(id='multiline-fields', prop='C09', file='elements/section.py',
    old="            if (element._instruction['type'] is not InstructionType.FIELD and\n                element._instruction['type'] is not InstructionType.MULTILINE_FIELD_BEGIN and\n                element._instruction['type'] is not InstructionType.EMPTY_ELEMENT):\n                raise Validation.unexpected_element_type(self._context, key, element._instruction, 'expected_fields')",
    new="            if not element.yields_field() or element._instruction['type'] is InstructionType.EMPTY_ELEMENT and 'template' in element._instruction:\n                raise Validation.unexpected_element_type(self._context, key, element._instruction, 'expected_fields')",
    needs='fields where one is a copy of an empty element', breaks='it raises', demo='''
assert len(enolib.parse("a:\\nb < a\\n").fields()) == 2
''')
bug(id='untouched-second-section', prop='C11', file='elements/section.py',
    old="        for element in self._elements():\n            untouched_element = element._untouched()\n            if untouched_element:\n                return untouched_element\n\n        return False",
    new="        for element in self._elements(True).values():\n            untouched_element = element[0]._untouched()\n            if untouched_element:\n                return untouched_element\n\n        return False",
    needs='an unread second element with the same key in a read section', breaks='it is overlooked', demo='''
d = enolib.parse("# s\\na: 1\\na: 2\\n")
d.section('s').fields('a')[0].required_string_value()
try:
    d.assert_all_touched()
except enolib.ValidationError:
    pass
else:
    assert False
''')
bug(id='touched-length', prop='C11', file='elements/list.py',
    old="    def length(self):\n        self._touched = True\n\n        return len(self._items())",
    new="    def length(self):\n        self.touch()\n\n        return len(self._items())",
    needs='asking the length of a list and never reading its items', breaks='the unread items are overlooked', demo='''
d = enolib.parse("l:\\n- a\\n")
d.list('l').length()
try:
    d.assert_all_touched()
except enolib.ValidationError:
    pass
else:
    assert False
''')
bug(id='depth-limited-touch', prop='C11', file='elements/section_element.py',
    old="        if hasattr(self, '_section'):\n            return self._section._untouched()",
    new="        if hasattr(self, '_section'):\n            return hasattr(self._section, '_instantiated_elements') and self._section._untouched()",
    needs='a section obtained but never queried', breaks='it is taken for read', demo='''
d = enolib.parse("# s\\na: 1\\n")
d.section('s')
try:
    d.assert_all_touched()
except enolib.ValidationError:
    pass
else:
    assert False
''')
BUGS = [b for b in BUGS if b['id'] not in ('terminal-value-twice', 'templates-in-lists', 'value-cache-shared', 'section-key-backtick', 'optional-list-of-field-x')]
