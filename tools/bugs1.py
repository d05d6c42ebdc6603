BUGS = []
def bug(**k): BUGS.append(k)

bug(id='chain-default-arg', prop='C01', file='resolver.py',
    old="self.resolve_non_section_element(template, [*previous_elements, element])",
    new="previous_elements.append(element)\n            self.resolve_non_section_element(template, previous_elements)",
    needs='parsing a chain of copies, then a text of which some copied template equals one met earlier (e.g. the same text again)',
    breaks='the default list is shared between calls: parsing the same text twice ends differently',
    demo='''
t = "c < b\\nb < a\\na: 1\\nd < c\\n"
def out():
    try:
        return enolib.parse(t).raw()
    except Exception as e:
        return type(e).__name__, str(e)[:80]
a, b, c = out(), out(), out()
assert a == b == c, (a, b, c)
assert a['elements'][3]['value'] == '1'
''')

bug(id='continuation-after-multiline', prop='C02', file='analyzer.py',
    old="""                last_section['elements'].append(instruction)
                last_continuable_element = None
                last_non_section_element = instruction

                if not terminator_match""",
    new="""                last_section['elements'].append(instruction)
                last_non_section_element = instruction

                if not terminator_match""",
    needs='a field, then a multiline field, then a continuation line',
    breaks='a continuation after a multiline field is accepted and appended to an earlier element',
    demo='''
try:
    d = enolib.parse("a: 1\\n-- m\\nx\\n-- m\\n| 2\\n")
except enolib.ParseError as e:
    pass
else:
    assert False, d.raw()
''')

bug(id='continuation-after-copy', prop='C02', file='analyzer.py',
    old="""                last_section['elements'].append(instruction)
                last_continuable_element = None
                last_non_section_element = instruction

                if not hasattr""",
    new="""                last_section['elements'].append(instruction)
                last_non_section_element = instruction

                if not hasattr""",
    needs='a continuable element, then a copy line, then a continuation',
    breaks='a continuation after a copy is accepted and appended to the element before the copy',
    demo='''
try:
    d = enolib.parse("a: 1\\nb < a\\n\\\\ 2\\n")
except enolib.ParseError as e:
    pass
else:
    assert False, d.raw()
''')

bug(id='terminator-prefix', prop='C02', file='analyzer.py',
    old=r"""({re.escape(key)})[^\S\n]*(?=\n|$)")""",
    new=r"""({re.escape(key)})[^\S\n]*(?=\W|$)")""",
    needs='a multiline body line that starts with the operator and key followed by blanks/punctuation and more text',
    breaks='a body line that only starts like the terminator ends the multiline field',
    demo='''
d = enolib.parse("-- m\\n-- m-x\\n-- m\\n")
assert d.field('m').required_string_value() == '-- m-x'
''')

bug(id='escaped-backtick-key', prop='C03', file='grammar_regex.py',
    old="""    KEY_ESCAPED = rf"(`+)(?!`)[^\\S\\n]*(\\S[^\\n]*?)[^\\S\\n]*(""",
    new="""    KEY_ESCAPED = rf"(`+)(?!`)[^\\S\\n]*(\\S[^\\n]*?)(""",
    needs='an escaped key with blanks between key and closing quotes',
    breaks='blanks before the closing escape become part of the key',
    demo='''
d = enolib.parse("`a  ` : 1\\n")
assert d.elements()[0].string_key() == 'a', repr(d.elements()[0].string_key())
''')

bug(id='spacing-forgotten', prop='C04', file='context.py',
    old="unapplied_spacing = unapplied_spacing or 'spaced' in continuation",
    new="unapplied_spacing = 'spaced' in continuation",
    needs='a spaced empty continuation followed by a direct empty one and then a direct one with text',
    breaks='the space owed by the spaced empty continuation is lost',
    demo='''
d = enolib.parse("a: x\\n\\\\\\n|\\n| y\\n")
assert d.field('a').required_string_value() == 'x y', repr(d.field('a').required_string_value())
''')

bug(id='empty-body-line', prop='C04', file='elements/value_element_base.py',
    old="        if value is None:\n            if required:\n                raise Validation.missing_value(self._context, self._instruction)\n            else:\n                return None",
    new="        if not value or value.isspace():\n            if required:\n                raise Validation.missing_value(self._context, self._instruction)\n            else:\n                return None",
    needs='a list item or entry value ... never blank (kept only if it can matter)',
    breaks='blank values vanish',
    demo='''
d = enolib.parse("l:\\n- \\x1c\\n")
''')

bug(id='blank-multiline', prop='C04', file='elements/field.py',
    old="        if value is None:\n",
    new="        if not value:\n",
    needs='a multiline field whose body is one empty line',
    breaks='the (empty but written) value is reported as missing',
    demo='''
d = enolib.parse("-- a\\n\\n-- a\\n")
assert d.field('a').required_string_value() == ''
''')

bug(id='comment-over-continuation', prop='C05', file='analyzer.py',
    old="""                    last_continuable_element['continuations'] = [instruction]

                if comments is not None:
                    self._context.meta.extend(comments)
                    comments = None

            elif match.group(Grammar.SECTION_OPERATOR_INDEX)""",
    new="""                    last_continuable_element['continuations'] = [instruction]

                    if comments is not None:
                        self._context.meta.extend(comments)
                        comments = None

            elif match.group(Grammar.SECTION_OPERATOR_INDEX)""",
    needs='two direct continuations with a comment above the second one, then an element right below',
    breaks='the comment above a continuation is attached to the next element',
    demo='''
d = enolib.parse("a: 1\\n| 2\\n> note\\n| 3\\nb: 4\\n")
assert d.field('b').optional_string_comment() is None
''')

bug(id='comment-indent-first', prop='C05', file='context.py',
    old="                            if indent < shared_indent:\n                                shared_indent = indent\n",
    new="                            if indent < shared_indent or 'comment' not in element['comments'][index - 1]:\n                                shared_indent = indent\n",
    needs='a comment block with an empty comment line followed by a more deeply indented one',
    breaks='the common indentation is reset after an inner empty comment line',
    demo='''
d = enolib.parse("> a\\n>\\n>    b\\nx: 1\\n")
assert d.field('x').optional_string_comment() == 'a\\n\\n   b', repr(d.field('x').optional_string_comment())
''')

bug(id='comment-only-empty-copies', prop='C06', file='resolver.py',
    edits=[('resolver.py', "        # TODO: Do this lazily as todo'd elsewhere\n        if 'comments' in template and not 'comments' in element:\n            element['comments'] = template['comments']\n", "        # TODO: Do this lazily as todo'd elsewhere\n        if 'comments' in template and not 'comments' in element and element['type'] is InstructionType.EMPTY_ELEMENT:\n            element['comments'] = template['comments']\n")],
    needs='a list or fieldset copying a commented template and adding own content',
    breaks='extending copies do not inherit the comment',
    demo='''
d = enolib.parse("> note\\nl:\\n- 1\\nm < l\\n- 2\\n")
assert d.list('m').optional_string_comment() == 'note'
''')

bug(id='list-extend-inplace', prop='C06', file='context.py',
    old="                list['computed_items'] = self.items(list['extend']) + list['items']\n",
    new="                list['computed_items'] = self.items(list['extend'])\n                list['computed_items'] += list['items']\n",
    needs='raw() of a list that extends another list, then any look at the template (or raw twice through siblings)',
    breaks='asking for the raw form of a copying list adds its items to the template',
    demo='''
d = enolib.parse("l:\\n- 1\\nm < l\\n- 2\\n")
d.list('m').raw()
assert d.list('l').required_string_values() == ['1'] and [i['value'] for i in d.list('l').raw()['items']] == ['1']
''')

bug(id='deep-copy-double-own', prop='C07', file='resolver.py',
    old="""                if (section_element['type'] is not InstructionType.SECTION or
                    section_element['key'] in merge_map or
""",
    new="""                if (section_element['type'] is not InstructionType.SECTION or
""",
    needs='a deep copy whose own section has two subsections of one key and the template one',
    breaks='one of two same-named subsections is merged with the template although the key is not unique',
    demo='''
d = enolib.parse("# t\\n## s\\na: 1\\n# c << t\\n## s\\nb: 2\\n## s\\nc: 3\\n")
ks = [[e.string_key() for e in s.elements()] for s in d.section('c').sections('s')]
assert ks == [['b'], ['c']], ks
''')

bug(id='deep-resolve-one-level', prop='C07', file='analyzer.py',
    old="                    while parent['type'] is not InstructionType.DOCUMENT:\n                        parent['deep_resolve'] = True\n",
    new="                    while parent['type'] is not InstructionType.DOCUMENT and not 'deep_resolve' in parent:\n                        parent['deep_resolve'] = not 'copy' in parent\n",
    needs='(variation) nested copies',
    breaks='template sections are merged before their own subsections were resolved',
    demo='''
pass
''')

bug(id='deep-resolve-parent-only', prop='C07', file='analyzer.py',
    old="""                    parent = instruction['parent']
                    while parent['type'] is not InstructionType.DOCUMENT:
                        parent['deep_resolve'] = True
                        parent = parent['parent']
""",
    new="""                    parent = instruction['parent']
                    for _ in range(2):
                        if parent['type'] is not InstructionType.DOCUMENT:
                            parent['deep_resolve'] = True
                            parent = parent['parent']
""",
    needs='a copy three levels below the section that is deep-copied before that copy is resolved',
    breaks='merging happens before a deeply nested copy is resolved, so its elements are missing',
    demo='''
d = enolib.parse("# z << t\\n## a\\n### b\\n#### c\\ny: 1\\n# t\\n## a\\n### b\\n#### c < o\\nx: 1\\n# o\\nw: 1\\n")
c = d.section('z').section('a').section('b').section('c')
assert [e.string_key() for e in c.elements()] == ['w', 'x', 'y'], [e.string_key() for e in c.elements()]
''')

bug(id='self-copy-any-section', prop='C08', file='resolver.py',
    old="""                    ('template' not in element or element['key'] != element['template'])):
                    copy_data = self._context._copy_sections[element['key']]""",
    new="""                    ('copy' not in element or 'deep_copy' in element or element['key'] != element['template'])):
                    copy_data = self._context._copy_sections[element['key']]""",
    needs='a section that deep-copies a same-named section elsewhere',
    breaks='a deep self-named copy counts as its own template candidate: rejected as ambiguous',
    demo='''
d = enolib.parse("# s\\na: 1\\n# t\\n## s << s\\nb: 2\\n")
assert [e.string_key() for e in d.section('t').section('s').elements()] == ['a', 'b']
''')

bug(id='type-clash-fieldset-field', prop='C08', file='resolver.py',
    old="""            elif (template['type'] is InstructionType.FIELD or
                  template['type'] is InstructionType.LIST or
                  template['type'] is InstructionType.MULTILINE_FIELD_BEGIN):
                raise Parsing.missing_fieldset""",
    new="""            elif (template['type'] is InstructionType.FIELD or
                  template['type'] is InstructionType.LIST):
                raise Parsing.missing_fieldset""",
    needs='a fieldset that copies a multiline field',
    breaks='an incompatible template is silently accepted',
    demo='''
try:
    d = enolib.parse("-- m\\nx\\n-- m\\nf < m\\na = 1\\n")
except enolib.ParseError:
    pass
else:
    assert False
''')

bug(id='fields-first-wins', prop='C09', file='elements/section.py',
    old="""        def cast(element):
            if element._instruction['type'] is not InstructionType.LIST and element._instruction['type'] is not InstructionType.EMPTY_ELEMENT:
                raise""",
    new="""        def cast(element):
            if element._instruction['type'] is not InstructionType.LIST and element._instruction['type'] is not InstructionType.EMPTY_ELEMENT and 'template' not in element._instruction:
                raise""",
    needs='lists() over a copied element of another kind',
    breaks='no (or another) error although a copy of another kind matches',
    demo='''
d = enolib.parse("a: 1\\nb < a\\n")
try:
    d.lists('b')
except enolib.ValidationError as e:
    assert e.text == "Only lists with the key 'b' were expected.", e.text
else:
    assert False
''')

bug(id='placeholder-kind-lost', prop='C10', file='elements/missing/missing_section_element.py',
    old="        return missing_list.MissingList(self._key, self._parent)",
    new="        return missing_list.MissingList(self._key, self)",
    needs='element(missing).to_list() and then a required accessor on it',
    breaks='the error reports a missing element instead of the missing list',
    demo='''
d = enolib.parse("a: 1\\n")
try:
    d.element('x').to_list().required_string_comment()
except enolib.ValidationError as e:
    assert e.text.startswith("The list 'x' is missing"), e.text
else:
    assert False
''')

bug(id='placeholder-optional', prop='C10', file='elements/missing/missing_section.py',
    old="    def optional_fieldset(self, _key=None):\n        return None",
    new="    def optional_fieldset(self, key=None):\n        return missing_fieldset.MissingFieldset(key, self)",
    needs='optional_fieldset on a missing section',
    breaks='an optional query on a placeholder gives a (truthy) placeholder instead of nothing',
    demo='''
assert enolib.parse("").section('x').optional_fieldset('f') is None
''')

bug(id='untouched-list-items', prop='C11', file='elements/list.py',
    old="        untouched_item = next((item for item in self._items() if not hasattr(item, '_touched')), None)\n\n        return",
    new="        untouched_item = next((item for item in self._instruction.get('items', []) and self._items() if not hasattr(item, '_touched')), None)\n\n        return",
    needs='a list that is a plain copy of another one, accessed (items()) without reading the items',
    breaks='unread items of a copied list are overlooked',
    demo='''
d = enolib.parse("l:\\n- 1\\nm < l\\n")
d.list('l').required_string_values()
d.list('m').items()
try:
    d.assert_all_touched()
except enolib.ValidationError:
    pass
else:
    assert False
''')

bug(id='only-and-skip', prop='C11', file='elements/fieldset.py',
    old="            if (skip and key in skip) or (only and key not in only):\n",
    new="            if (skip and key in skip) or (only and not skip and key not in only):\n",
    needs='assert_all_touched(only=..., skip=...) with both filters on a fieldset',
    breaks='the only filter is ignored as soon as skip is given',
    demo='''
d = enolib.parse("f:\\na = 1\\nb = 2\\nc = 3\\n")
f = d.fieldset('f'); f.entry('a').string_key()
f.assert_all_touched(only=['a', 'b'], skip=['b'])
''')

bug(id='required-switch-back', prop='C12', file='elements/section.py',
    old="                element.to_fieldset().all_entries_required(required)\n",
    new="                element.to_fieldset().all_entries_required()\n",
    needs='all_elements_required(False) on a section whose fieldsets were obtained before',
    breaks='telling a section the opposite leaves its fieldsets required',
    demo='''
d = enolib.parse("f:\\na = 1\\n")
d.fieldset('f')
d.all_elements_required(); d.all_elements_required(False)
assert d.fieldset('f').optional_entry('x') is None
''')

bug(id='required-grandchild', prop='C12', file='elements/section.py',
    old="        self._all_elements_required = required\n\n        for element in self._elements():\n",
    new="        if self._all_elements_required == required:\n            return\n\n        self._all_elements_required = required\n\n        for element in self._elements():\n",
    needs='a subsection switched back on its own, then the parent told again the same as before',
    breaks='repeating all_elements_required on the parent does not reach a subsection that was switched in between',
    demo='''
d = enolib.parse("# s\\na: 1\\n")
d.all_elements_required()
s = d.section('s'); s.all_elements_required(False)
d.all_elements_required()
try:
    s.optional_field('x')
except enolib.ValidationError:
    pass
else:
    assert False
''')

bug(id='value-selection-end', prop='C13', file='errors/validation.py',
    old="                select['to'] = cursor(element['continuations'][-1], 'line', END)\n            elif 'value'",
    new="                select['to'] = cursor([c for c in element['continuations'] if 'value' in c or c is element['continuations'][0]][-1], 'line', END)\n            elif 'value'",
    needs='a value error on a value whose last continuation is empty',
    breaks='the selection stops before the last continuation line',
    demo='''
d = enolib.parse("a: 1\\n| 2\\n|\\n")
assert d.field('a').value_error('x').selection['to']['line'] == 2
''')

bug(id='last-in-nested', prop='C13', file='errors/selections.py',
    old="        return last_in(element['items'][-1])",
    new="        return element['items'][-1]",
    needs='an error on a list (or a section ending in one) whose last item has continuations',
    breaks='the selected extent of the list misses the continuation of its last item',
    demo='''
d = enolib.parse("l:\\n- 1\\n| 2\\n")
assert d.list('l').error('x').selection['to']['line'] == 2
''')

bug(id='snippet-gap', prop='C14', file='reporters/reporter.py',
    old="""            while scan_line < continuable['line']:
                self._snippet[scan_line] = tag
                scan_line += 1

            self._snippet[continuable['line']] = tag
""",
    new="""            if scan_line < continuable['line']:
                self._snippet[scan_line] = tag

            self._snippet[continuable['line']] = tag
""",
    needs='an error on a list or fieldset with several blank lines between its items',
    breaks='only the first of several blank lines between items is indicated, the rest are shown as context or omitted',
    demo='''
d = enolib.parse("l:\\n- 1\\n\\n\\n\\n- 2\\n")
s = d.list('l').error('x').snippet
assert s.count('*') == 5, s
''')

bug(id='tokenize-exact-end', prop='C14', file='analyzer.py',
    old="        if self._index > len(self._context.input):",
    new="        if self._index >= len(self._context.input):",
    needs='an unterminated multiline field whose opening line ends the document with one newline',
    breaks='the trailing empty line is missing from the snippet',
    demo='''
try:
    enolib.parse("-- a\\n")
except enolib.ParseError as e:
    assert '    2 | ' in e.snippet, e.snippet
''')

bug(id='unparsed-meta', prop='C14', file='errors/parsing.py',
    old="            if instruction['line'] > field['line']:\n                reporter.indicate_line(instruction)",
    new="            if instruction['line'] > field['line'] and instruction['type'] is not InstructionType.COMMENT:\n                reporter.indicate_line(instruction)",
    needs='(none: comments never follow)',
    breaks='nothing',
    demo='''
pass
''')

bug(id='lookup-continuation-end', prop='C15', file='lookup.py',
    old="        if index <= continuation['ranges']['line'][END]:",
    new="        if index < continuation['ranges']['line'][END]:",
    needs='lookup by index at the very end of a continuation line that is not the last',
    breaks='by index the token/continuation is not found where by line and column it is',
    demo='''
t = "a: 1\\n| 2\\n| 3\\n"
i = t.index('2') + 1
a = enolib.lookup(t, index=i); b = enolib.lookup(t, line=1, column=3)
assert a['range'] == b['range'] == 'value', (a['range'], b['range'])
''')

bug(id='lookup-item-comment', prop='C15', file='lookup.py',
    old="""        if line == item['line']:
            return { 'element': item, 'instruction': item }
        if line < item['line']:
            return { 'element': list, 'instruction': None }
""",
    new="""        if line == item['line']:
            return { 'element': item, 'instruction': item }
        if line < item['line'] and not 'comments' in item:
            return { 'element': list, 'instruction': None }
""",
    needs='lookup by line on a comment of a list item',
    breaks='the enclosing section is returned instead of the list',
    demo='''
t = "l:\\n- 1\\n> c\\n- 2\\n- 3\\n"
a = enolib.lookup(t, line=2, column=0); b = enolib.lookup(t, index=t.index('>'))
assert a['element'].yields_list() and b['element'].yields_list()
''')

bug(id='raw-entries-dedupe', prop='C16', file='context.py',
    old="""                copied_entries = [entry for entry in self.entries(fieldset['extend']) if entry['key'] not in fieldset['computed_entries_map']]

                fieldset['computed_entries'] = copied_entries + fieldset['computed_entries']

                for entry in copied_entries:
                    if entry['key'] in""",
    new="""                copied_entries = list({ entry['key']: entry for entry in self.entries(fieldset['extend']) if entry['key'] not in fieldset['computed_entries_map'] }.values())

                fieldset['computed_entries'] = copied_entries + fieldset['computed_entries']

                for entry in copied_entries:
                    if entry['key'] in""",
    needs='a fieldset extending a template that has two entries with the same key',
    breaks='the raw form lists one of the two inherited entries while queries list both',
    demo='''
d = enolib.parse("f:\\na = 1\\na = 2\\ng < f\\nb = 3\\n")
g = d.fieldset('g')
assert [e['value'] for e in g.raw()['entries']] == [e.required_string_value() for e in g.entries()]
''')

bug(id='loader-any-error', prop='C17', file='elements/value_element_base.py',
    old="            return loader(value)\n        except ValueError as message:",
    new="            return loader(value)\n        except (ValueError, LookupError) as message:",
    needs='a loader for an item or entry value that raises KeyError or IndexError',
    breaks='an application exception is turned into a validation error',
    demo='''
def l(v): raise KeyError('x')
d = enolib.parse("l:\\n- 1\\n")
try:
    d.list('l').items()[0].required_value(l)
except KeyError:
    pass
''')

bug(id='loader-called-for-none', prop='C17', file='elements/element_base.py',
    old="""            else:
                return None

        if not loader:
            return comment
""",
    new="""            elif not loader:
                return None

        if not loader:
            return comment
""",
    needs='optional_comment(loader) on an element without comment',
    breaks='the loader is called with nothing',
    demo='''
seen = []
enolib.parse("a: 1\\n").field('a').optional_comment(lambda c: seen.append(c))
assert seen == []
''')

bug(id='de-swapped', prop='C18', file='messages/de.py', old=None, new=None, needs='', breaks='', demo='')

bug(id='touch-leak', prop='C19', file='elements/fieldset.py',
    old="            self._instantiated_entries = []\n            self._instantiated_entries_map = {}\n            self._instantiate_entries(self._instruction)\n",
    new="            self._instantiated_entries = []\n            self._instantiated_entries_map = self._context.__dict__.setdefault('_entries_maps', {}).setdefault(self._instruction['key'], {})\n            self._instantiate_entries(self._instruction)\n",
    needs='two fieldsets with the same key in one document, both asked',
    breaks='the second fieldset asked loses its entries to the first',
    demo='''
d = enolib.parse("# s\\nf:\\na = 1\\n# t\\nf:\\na = 2\\n")
a = d.section('s').fieldset('f').entry('a').required_string_value()
b = d.section('t').fieldset('f').entry('a').required_string_value()
assert (a, b) == ('1', '2'), (a, b)
''')

bug(id='type-corruption', prop='C19', file='elements/section_element.py',
    old="""            self._list = list.List(self._context, self._instruction, self._parent)
            self._yielded =  InstructionType.LIST
""",
    new="""            self._list = list.List(self._context, self._instruction, self._parent)
            self._yielded = self._instruction['type']
""",
    needs='an empty element asked as a list and then as another kind',
    breaks='the type error names the wrong kind',
    demo='''
e = enolib.parse("a:\\n").element('a')
e.to_list()
try:
    e.to_field()
except TypeError as x:
    assert 'as list' in str(x).lower() or 'list' in str(x).split(' and ')[0], x
''')

bug(id='repr-multiline', prop='C20', file='elements/value_element_base.py',
    old="        if not value:\n            return 'None'\n",
    new="        if value is self._instruction.get('value', '') and not value:\n            return 'None'\n",
    needs='repr of a value-less field',
    breaks='repr fails with TypeError',
    demo='''
repr(enolib.parse("a:\\n").field('a'))
''')

bug(id='lookup-parent', prop='C20', file='elements/fieldset_entry.py',
    old="self._parent or fieldset.Fieldset(", new="self._parent or fieldset_entry.Fieldset(",
    needs='parent() of a fieldset entry obtained from a lookup',
    breaks='NameError escapes',
    demo='''
e = enolib.lookup("f:\\na = 1\\n", line=1, column=0)['element'].to_fieldset_entry()
e.parent().string_key()
''')

bug(id='terminal-range-order', prop='C21', file='reporters/terminal_reporter.py',
    old="ranges.sort(key=lambda name_range_tuple: name_range_tuple[1][BEGIN], reverse=True)",
    new="ranges.reverse()",
    needs='a shown line whose ranges are not recorded in order: an escaped key (operator recorded before the key)',
    breaks='colour codes are spliced into the wrong columns and text is lost or doubled in the terminal report',
    demo='''
import re
from enolib.reporters import TerminalReporter
d = enolib.parse("`k`: v\\n", reporter=TerminalReporter)
s = re.sub('\\x1b\\\\[[0-9;]*m', '', d.error('x').snippet)
assert '`k`: v' in s, s
''')

bug(id='html-source', prop='C21', file='reporters/html_reporter.py',
    old='f"<div class=\\"eno-report-content\\">{escape(content)}</div>"',
    new='f"<div class=\\"eno-report-content\\">{escape(content) if tag_class else content}</div>"',
    needs='an HTML report with markup in a context line',
    breaks='lines shown only as context are not escaped',
    demo='''
from enolib.reporters import HtmlReporter
d = enolib.parse("a: 1\\nb: 2\\nc: <i>\\n", reporter=HtmlReporter)
assert '<i>' not in d.field('b').error('x').snippet
''')

bug(id='comment-error-callable', prop='C11', file='elements/element_base.py',
    old="            message = message(self._context.comment(self._instruction))\n",
    new="            message = message(self.optional_string_comment())\n",
    needs='comment_error with a computed message on an untouched element: it becomes touched',
    breaks='(observable through touch tracking only)',
    demo='''
d = enolib.parse("> c\\na: 1\\n")
d.field('a').comment_error(lambda c: c)
try:
    d.assert_all_touched()
except enolib.ValidationError:
    pass
else:
    assert False
''')

bug(id='copied-comment-anchor', prop='C22', file='errors/selections.py',
    old="        return selection(comments[0], 'line', BEGIN, comments[-1], 'line', END)\n    else:",
    new="        return selection(comments[0], 'line', BEGIN, max(comments, key=lambda comment: comment.get('comment', '') and comment['line']) if any('comment' in comment for comment in comments) else comments[-1], 'line', END)\n    else:",
    needs='(type error prone)', breaks='', demo='pass')

bug(id='value-blanks', prop='C23', file='grammar_regex.py',
    old='FIELDSET_ENTRY = rf"(=)[^\\S\\n]*{OPTIONAL}"',
    new='FIELDSET_ENTRY = rf"(=)[ \\t]*{OPTIONAL}"',
    needs='an entry whose value is preceded by an unusual blank (no-break space, form feed)',
    breaks='the blank becomes part of the value',
    demo='''
d = enolib.parse("f:\\na =\\u00a01\\n")
assert d.fieldset('f').entry('a').required_string_value() == '1'
''')

bug(id='terminator-blanks', prop='C23', file='analyzer.py',
    old='rf"\\n[^\\S\\n]*({operator})(?!-)[^\\S\\n]*(',
    new='rf"\\n[ \\t]*({operator})(?!-)[ \\t]*(',
    needs='a multiline terminator indented by an unusual blank',
    breaks='the terminator is not recognised',
    demo='''
d = enolib.parse("-- a\\nx\\n\\u2003-- a\\n")
assert d.field('a').required_string_value() == 'x'
''')
BUGS = [b for b in BUGS if b['id'] not in ('de-swapped', 'empty-body-line', 'deep-resolve-one-level', 'unparsed-meta', 'type-corruption', 'copied-comment-anchor')]
