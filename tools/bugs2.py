BUGS = []
def bug(**k): BUGS.append(k)

bug(id='items-after-section', prop='C02', file='analyzer.py',
    old="""                last_continuable_element = None
                last_non_section_element = None

            elif match.group(Grammar.MULTILINE""",
    new="""                last_continuable_element = None

            elif match.group(Grammar.MULTILINE""",
    needs='a list or fieldset, a section header, then an item or entry',
    breaks='an item right below a section header is accepted into the list above the section',
    demo='''
try:
    d = enolib.parse("l:\\n- 1\\n# s\\n- 2\\n")
except enolib.ParseError:
    pass
else:
    assert False
''')
bug(id='return-two-levels', prop='C03', file='analyzer.py',
    old="""                    while new_depth < self._depth:
                        last_section = last_section['parent']
                        self._depth -= 1
""",
    new="""                    for _ in range(min(self._depth - new_depth, 2)):
                        last_section = last_section['parent']

                    self._depth = new_depth
""",
    needs='a section that returns to a level at least three shallower',
    breaks='the section ends up inside another one instead of at its written level',
    demo='''
d = enolib.parse("# a\\n## b\\n### c\\n#### d\\n# e\\n")
assert [e.string_key() for e in d.elements()] == ['a', 'e']
''')
bug(id='copy-comment-twice', prop='C05', file='analyzer.py',
    old="""                if comments is not None:
                    instruction['comments'] = comments
                    comments = None

                template = match.group(Grammar.TEMPLATE_INDEX)
""",
    new="""                if comments is not None:
                    instruction['comments'] = comments

                template = match.group(Grammar.TEMPLATE_INDEX)
""",
    needs='a commented copy line directly followed by another element',
    breaks='the comment of a copy also becomes the comment of the next element',
    demo='''
d = enolib.parse("a: 1\\n> c\\nb < a\\nx: 2\\n")
assert d.field('x').optional_string_comment() is None
''')
bug(id='section-comment-top-only', prop='C07', file='resolver.py',
    old="        if 'comments' in template and not 'comments' in section:\n            section['comments'] = template['comments']\n",
    new="        if 'comments' in template and not 'comments' in section and 'copy' in section:\n            section['comments'] = template['comments']\n",
    needs='a deep copy merging a commented template subsection with an own uncommented one',
    breaks='merged subsections do not inherit the comment',
    demo='''
d = enolib.parse("# t\\n> note\\n## s\\na: 1\\n# c << t\\n## s\\nb: 2\\n")
assert d.section('c').section('s').optional_string_comment() == 'note'
''')
bug(id='deep-merge-two-levels', prop='C07', file='resolver.py',
    old="self.consolidate_sections(merger['section'], merger['template'], True)",
    new="self.consolidate_sections(merger['section'], merger['template'], 'deep_copy' in section)",
    needs='a deep copy with same-named subsections four levels down',
    breaks='below the first level of subsections the copy is only shallow',
    demo='''
d = enolib.parse("# t\\n## s\\n### u\\n#### w\\na: 1\\n# c << t\\n## s\\n### u\\n#### w\\nb: 2\\n")
u = d.section('c').section('s').section('u').section('w')
assert [e.string_key() for e in u.elements()] == ['a', 'b'], u.raw()
''')
bug(id='cycle-forgets-chain', prop='C08', file='resolver.py',
    old="                self.resolve_section(template, [*previous_sections, section])",
    new="                self.resolve_section(template, [section])",
    needs='a cycle of section copies of length three or more',
    breaks='a cyclic copy ends in a RecursionError instead of the parse error',
    demo='''
try:
    enolib.parse("# a < b\\nx: 1\\n# b < c\\ny: 1\\n# c < a\\nz: 1\\n")
except enolib.ParseError:
    pass
''')
bug(id='template-in-own-section', prop='C08', file='resolver.py',
    old="""                    if 'template' in copy_data:
                        raise Parsing.two_or_more_templates_found(self._context, copy_data['targets'][0], copy_data['template'], element)

                    copy_data['template'] = element
            elif""",
    new="""                    if 'template' in copy_data and copy_data['template']['parent'] is not element:
                        raise Parsing.two_or_more_templates_found(self._context, copy_data['targets'][0], copy_data['template'], element)

                    copy_data['template'] = element
            elif""",
    needs='a section copied by name whose direct parent section has the same name',
    breaks='two candidates for a template, one inside the other, are no longer rejected',
    demo='''
try:
    d = enolib.parse("# s\\n## s\\na: 1\\n# c < s\\n")
except enolib.ParseError:
    pass
else:
    assert False
''')
bug(id='optional-values-skip', prop='C09', file='elements/list.py',
    old="        return [item.optional_value(loader) for item in self._items()]",
    new="        return [value for value in (item.optional_value(loader) for item in self._items()) if value]",
    needs='optional_values on a list with an item without value (or a loader giving something falsy)',
    breaks='absent or falsy values are dropped instead of being returned in place',
    demo='''
d = enolib.parse("l:\\n- 0\\n-\\n- 2\\n")
assert d.list('l').optional_values(int) == [0, None, 2]
''')
bug(id='entry-touch-missing', prop='C10', file='elements/missing/missing_section.py',
    old="        return missing_fieldset.MissingFieldset(key, self)",
    new="        return missing_fieldset.MissingFieldset(key, self._parent)",
    needs='section(missing).fieldset(missing).required_entry(...)',
    breaks='the error names the second instead of the first missing element of the chain',
    demo='''
try:
    enolib.parse("").section('s').fieldset('f').required_entry('e')
except enolib.ValidationError as e:
    assert "'s'" in e.text, e.text
else:
    assert False
''')
bug(id='missing-entry-required', prop='C10', file='elements/missing/missing_element_base.py',
    old="    def required_comment(self, _loader):\n        self._parent._missing_error(self)",
    new="    def required_comment(self, _loader):\n        return self._parent._missing_error(self) if self._key else None",
    needs='required_comment(loader) on a placeholder obtained without a key',
    breaks='a required accessor gives nothing instead of raising',
    demo='''
try:
    enolib.parse("").field().required_comment(str)
except enolib.ValidationError:
    pass
else:
    assert False
''')
bug(id='comment-no-touch', prop='C11', file='elements/element_base.py',
    old="""        self._touched = True

        comment = self._context.comment(self._instruction)

        if not comment:
            if required:""",
    new="""        comment = self._context.comment(self._instruction)

        if comment:
            self._touched = True
        else:
            if required:""",
    needs='reading the comment of an element without one, then asserting',
    breaks='asking for an (absent) comment does not count as reading',
    demo='''
d = enolib.parse("a: 1\\n")
d.field('a').optional_string_comment()
d.assert_all_touched()
''')
bug(id='touch-mirrored-list', prop='C11', file='elements/list.py',
    old="        for item in self._items():\n            item._touched = True",
    new="        for item in self._items()[-len(self._instruction.get('items', self._items())):]:\n            item._touched = True",
    needs='touching a list that extends another one',
    breaks='the inherited items stay untouched',
    demo='''
d = enolib.parse("l:\\n- 1\\nm < l\\n- 2\\n")
d.touch()
d.assert_all_touched()
''')
bug(id='nested-message-function', prop='C11', file='elements/section.py',
    old="                        message = message(element_module.Element(self._context, untouched, self))",
    new="                        message = message(element_module.Element(self._context, element._instruction, self))",
    needs='a computed message while the unread element sits inside an accessed container',
    breaks='the message function gets the container instead of the unread element',
    demo='''
d = enolib.parse("l:\\n- 1\\n")
d.list('l').items()
try:
    d.assert_all_touched(lambda e: e.raw()['type'])
except enolib.ValidationError as e:
    assert e.text == 'list_item', e.text
''')
bug(id='optional-list-lenient', prop='C12', file='elements/section.py',
    old="""            if required or self._all_elements_required:
                raise Validation.missing_element(self._context, key, self._instruction, 'missing_list')
            elif required is None:""",
    new="""            if required or self._all_elements_required and required is None:
                raise Validation.missing_element(self._context, key, self._instruction, 'missing_list')
            elif required is None:""",
    needs='optional_list for an absent key under all_elements_required',
    breaks='explicitly optional list queries stay lenient',
    demo='''
d = enolib.parse(""); d.all_elements_required()
try:
    d.optional_list('x')
except enolib.ValidationError:
    pass
else:
    assert False
''')
bug(id='fieldset-inherits-nothing', prop='C12', file='elements/fieldset.py',
    old="        self._all_entries_required = parent._all_elements_required if parent else False",
    new="        self._all_entries_required = parent._all_elements_required if parent and parent._parent else False",
    needs='a fieldset directly in the document obtained after all_elements_required',
    breaks='top-level fieldsets are not reached',
    demo='''
d = enolib.parse("f:\\na = 1\\n"); d.all_elements_required()
try:
    d.fieldset('f').optional_entry('x')
except enolib.ValidationError:
    pass
else:
    assert False
''')
bug(id='entry-extent', prop='C13', file='errors/selections.py',
    old="         element['type'] == InstructionType.LIST_ITEM or\n         element['type'] == InstructionType.FIELDSET_ENTRY) and",
    new="         element['type'] == InstructionType.LIST_ITEM) and",
    needs='an error on a fieldset entry with continuations (or a fieldset ending in one)',
    breaks='the selected extent misses the continuations',
    demo='''
d = enolib.parse("f:\\na = 1\\n| 2\\n")
assert d.fieldset('f').entry('a').error('x').selection['to']['line'] == 2
''')
bug(id='comment-block-first', prop='C13', file='errors/selections.py',
    old="    elif len(comments) > 1:\n        return selection(comments[0], 'line', BEGIN, comments[-1], 'line', END)",
    new="    elif len(comments) > 1:\n        return selection(comments[0], 'line', BEGIN, comments[len(comments) // 2], 'line', END)",
    needs='a comment error on a block of three or more comment lines',
    breaks='the selection covers only half of the comment block',
    demo='''
d = enolib.parse("> 1\\n> 2\\n> 3\\n> 4\\na: 1\\n")
assert d.field('a').comment_error('x').selection['to']['line'] == 3
''')
bug(id='entry-comment-index', prop='C14', file='reporters/reporter.py',
    old="""                        for entry in element['entries']:
                            index_comments(entry)

                            self""",
    new="""                        for entry in element['entries']:
                            self""",
    needs='a snippet showing a comment above a fieldset entry',
    breaks='the comment line is shown blank',
    demo='''
d = enolib.parse("f:\\n> note\\na = 1\\n")
assert '> note' in d.fieldset('f').error('x').snippet
''')
bug(id='context-window', prop='C14', file='reporters/reporter.py',
    old="                   line - 2 > 0 and",
    new="                   line - 2 > 1 and",
    needs='an error on the second line of a longer document',
    breaks='only one line of context follows',
    demo='''
d = enolib.parse("a: 1\\nb: 2\\nc: 3\\nd: 4\\ne: 5\\nf: 6\\n")
assert 'd: 4' in d.field('b').error('x').snippet
''')
bug(id='continuation-gap-tag', prop='C14', file='reporters/reporter.py',
    old="""            while scan_line < continuation['line']:
                self._snippet[scan_line] = tag
                scan_line += 1

            self._snippet[continuation['line']] = tag
            scan_line += 1
""",
    new="""            self._snippet[continuation['line']] = tag
            scan_line = continuation['line'] + 1
""",
    needs='an error on an element with blank or comment lines between its continuations',
    breaks='lines between continuations are shown as context instead of being indicated',
    demo='''
d = enolib.parse("a: 1\\n\\n| 2\\n")
assert d.field('a').error('x').snippet.count('*') == 2
''')
bug(id='lookup-multiline-body', prop='C15', file='lookup.py',
    old="        'instruction': next((l for l in field['lines'] if index <= l['ranges']['line'][END]), None)",
    new="        'instruction': next((l for l in reversed(field['lines']) if index >= l['ranges']['line'][BEGIN] and l['ranges']['line'][BEGIN] != l['ranges']['line'][END]), None)",
    needs='lookup by index on an empty line of a multiline body',
    breaks='the token is that of another line or missing',
    demo='''
t = "-- m\\nx\\n\\ny\\n-- m\\n"
i = t.index('\\n\\n') + 1
assert enolib.lookup(t, index=i)['range'] == enolib.lookup(t, line=2, column=0)['range'] == 'value'
''')
bug(id='lookup-last-line', prop='C15', file='analyzer.py',
    old="        if self._context.input[-1] == '\\n':\n            self._context.line_count = self._line + 1",
    new="        if self._context.input[-1] == '\\n' and not multiline_field:\n            self._context.line_count = self._line + 1",
    needs='a document that ends with the newline after a multiline terminator, looked up on its last line',
    breaks='the last (empty) line counts as outside of the document',
    demo='''
enolib.lookup("-- m\\nx\\n-- m\\n", line=3, column=0)
''')
bug(id='raw-chain', prop='C16', file='context.py',
    old="                    copied_elements = [element for element in self.elements(section['extend']) if",
    new="                    copied_elements = [element for element in (section['extend']['elements'] if 'extend' in section['extend'] else self.elements(section['extend'])) if",
    needs='raw() of a section extending a section that itself extends another',
    breaks='the raw form lacks the elements inherited through two copies',
    demo='''
d = enolib.parse("# a\\nx: 1\\n# b < a\\ny: 1\\n# c < b\\nz: 1\\n")
c = d.section('c')
assert [e['key'] for e in c.raw()['elements']] == [e.string_key() for e in c.elements()]
''')
bug(id='raw-comment-blank', prop='C16', file='context.py',
    old="        if 'comments' in element:\n            result['comment'] = self.comment(element)\n\n        if element['type'] is InstructionType.EMPTY_ELEMENT:",
    new="        if 'comments' in element and not 'mirror' in element:\n            result['comment'] = self.comment(element)\n\n        if element['type'] is InstructionType.EMPTY_ELEMENT:",
    needs='raw() of a copy with a comment',
    breaks='the comment of a copy is missing from the raw form',
    demo='''
d = enolib.parse("a: 1\\n> note\\nb < a\\n")
assert d.field('b').raw().get('comment') == 'note'
''')
bug(id='registered-required-values', prop='C17', file='register.py',
    old='    setattr(List, f"required_{name}_values", lambda self: self.required_values(function))',
    new='    setattr(List, f"required_{name}_values", lambda self: [item.required_value(function) for item in self.items() if item.optional_string_value()])',
    needs='required_<name>_values on a list with an item without value',
    breaks='the missing value is skipped instead of reported',
    demo='''
enolib.register(shout=lambda v: v.upper())
try:
    enolib.parse("l:\\n- a\\n-\\n").list('l').required_shout_values()
except enolib.ValidationError:
    pass
else:
    assert False
''')
bug(id='loader-message-text', prop='C17', file='elements/field.py',
    old="        try:\n            return loader(value)\n",
    new="        try:\n            return loader(value.strip())\n",
    needs='a loader on a multiline field whose body begins or ends with blanks',
    breaks='the loader does not receive exactly the text',
    demo='''
d = enolib.parse("-- m\\n  x \\n-- m\\n")
assert d.field('m').required_value(lambda v: v) == '  x '
''')
bug(id='de-cyclic', prop='C18', file='messages/de.py', old="cyclic_dependency = lambda line, key:", new="cyclic_dependency = lambda key, line:",
    needs='the cyclic dependency error in German',
    breaks='line and key are swapped in the German text',
    demo='''
from enolib.messages import de
try:
    enolib.parse("a < b\\nb < a\\n", locale=de)
except enolib.ParseError as e:
    assert "'a'" in e.text or "'b'" in e.text, e.text
''')
bug(id='es-same-text', prop='C18', file='messages/es.py', old="expected_fieldsets = ", new="expected_fieldset_s = ",
    needs='fieldsets() without key over another kind in Spanish',
    breaks='AttributeError instead of the validation error',
    demo='''
from enolib.messages import es
try:
    enolib.parse("a: 1\\n", locale=es).fieldsets()
except enolib.ValidationError:
    pass
''')
bug(id='shared-comment-cache', prop='C19', file='context.py',
    old="    def comment(self, element):\n        if not 'computed_comment' in element:",
    new="    _comments = {}\n\n    def comment(self, element):\n        if 'comments' in element and len(element['comments']) == 1:\n            comment = element['comments'][0]\n            return self._comments.setdefault((comment['line'], comment['ranges']['line']), comment.get('comment'))\n\n        if not 'computed_comment' in element:",
    needs='two documents with a single-line comment at the same place but with different text of the same length',
    breaks='a document answers with the comment of another document',
    demo='''
a = enolib.parse("> one\\na: 1\\n"); b = enolib.parse("> two\\na: 1\\n")
assert a.field('a').required_string_comment() == 'one' and b.field('a').required_string_comment() == 'two'
''')
bug(id='query-order-items', prop='C19', file='elements/list.py',
    old="            return self._instantiate_items(list['extend']) + [list_item",
    new="            return self._instantiate_items(list['extend']) + [] if '_seen' in list else list.setdefault('_seen', True) and self._instantiate_items(list['extend']) + [list_item",
    needs='items of a list extended by two different handles of the same element (e.g. list and a section copying it)',
    breaks='the second instantiation of an extending list lacks its own items',
    demo='''
d = enolib.parse("l:\\n- 1\\n# s\\nm < l\\n- 2\\n# t < s\\n")
assert d.section('s').list('m').required_string_values() == ['1', '2']
assert d.section('t').list('m').required_string_values() == ['1', '2']
''')
bug(id='parent-of-copied', prop='C20', file='elements/list.py',
    old="        return self._parent or section.Section(self._context, self._instruction['parent'])",
    new="        return section.Section(self._context, self._instruction['parent'])",
    needs='parent() of a list obtained through a section that copies the section in which it is written',
    breaks='the parent is the template section (untracked) instead of the containing section',
    demo='''
d = enolib.parse("# s\\nl:\\n- 1\\n# t < s\\nx: 1\\n")
assert d.section('t').list('l').parent().string_key() == 't'
''')
bug(id='html-quotes', prop='C21', file='reporters/html_reporter.py',
    old="        elif tag == INDICATE:\n            tag_class = 'eno-report-line-indicated'\n        elif tag == QUESTION:\n            tag_class = 'eno-report-line-questioned'",
    new="        elif tag == INDICATE or tag == QUESTION and content:\n            tag_class = 'eno-report-line-indicated'\n        elif tag == QUESTION:\n            tag_class = 'eno-report-line-questioned'",
    needs='an HTML report with a questioned, non-empty line',
    breaks='questioned lines look like indicated ones in HTML only',
    demo='''
from enolib.reporters import HtmlReporter
try:
    enolib.parse("a: 1\\nb: 2\\n", reporter=HtmlReporter).required_field('x')
except enolib.ValidationError as e:
    assert 'questioned' in e.snippet, e.snippet
''')
bug(id='terminal-gutter', prop='C21', file='reporters/terminal_reporter.py',
    old="        number = str(line + HUMAN_INDEXING)\n        instruction = self._index[line]\n",
    new="        number = str((line + HUMAN_INDEXING) % 10 ** self._line_number_padding)\n        instruction = self._index[line]\n",
    edits=[('reporters/terminal_reporter.py', "max(4, len(str(highest_shown_line_number)))", "max(2, len(str(highest_shown_line_number % 100)))"),
           ('reporters/terminal_reporter.py', "        number = str(line + HUMAN_INDEXING)\n", "        number = str((line + HUMAN_INDEXING) % 10 ** max(4, self._line_number_padding))\n")],
    needs='a terminal report', breaks='padding', demo='pass')
bug(id='value-error-own-value', prop='C22', file='elements/value_element_base.py',
    old="            message = message(self._context.value(self._instruction))",
    new="            message = message(self._context.value(self._instruction) or self._instruction['key'])",
    needs='value_error with a computed message on an element without value',
    breaks='the message is computed from the key instead of nothing',
    demo='''
seen = []
enolib.parse("a:\\n").field('a').value_error(lambda v: seen.append(v) or 'x')
assert seen == [None]
''')
bug(id='key-error-escaped', prop='C22', file='elements/element_base.py',
    old="            message = message(self._key())\n\n        return Validation.key_error",
    new="            message = message(self._instruction.get('template', self._key()) if 'mirror' in self._instruction else self._key())\n\n        return Validation.key_error",
    needs='key_error with a computed message on a copy',
    breaks='the message is computed from the template name',
    demo='''
seen = []
enolib.parse("a: 1\\nb < a\\n").field('b').key_error(lambda v: seen.append(v) or 'x')
assert seen == ['b']
''')
bug(id='trailing-blanks', prop='C23', file='grammar_regex.py',
    old="(?:{EMPTY}|{NOT_EMPTY})[^\\S\\n]*(?=\\n|$)", new="(?:{EMPTY}|{NOT_EMPTY})[ \\t\\r]*(?=\\n|$)",
    needs='a trailing unusual blank (form feed, no-break space)',
    breaks='trailing blanks become part of the value',
    demo='''
assert enolib.parse("a: 1\\u00a0\\n").field('a').required_string_value() == '1'
''')
bug(id='section-operator-blanks', prop='C23', file='grammar_regex.py',
    old='(<(?!<)|<<)[^\\S\\n]*{REQUIRED})?"', new='(<(?!<)|<<)[ \\t]*{REQUIRED})?"',
    needs='an unusual blank between a section copy operator and its template',
    breaks='the line is rejected',
    demo='''
enolib.parse("# a\\nx: 1\\n# b <\\u3000a\\n")
''')
bug(id='lookalike-multiline-loop', prop='C01', file='errors/parsing.py',
    old="            if instruction['line'] > field['line']:\n                reporter.indicate_line(instruction)",
    new="            if instruction['line'] > field['line'] and instruction['type']:\n                reporter.indicate_line(instruction)",
    needs='an unterminated multiline field followed by text',
    breaks='KeyError', demo='''
try:
    enolib.parse("-- a\\nx")
except enolib.ParseError:
    pass
''')
bug(id='cyclic-report-crash', prop='C01', file='errors/parsing.py',
    old="        first_occurrence = instruction_chain.index(instruction)\n",
    new="        first_occurrence = [element['key'] for element in instruction_chain].index(instruction['key'])\n",
    needs='a cycle through a section containing another one of the same key before it on the chain',
    breaks='(wrong chain) reported or an exception escapes',
    demo='''
def line(t):
    try:
        enolib.parse(t)
    except enolib.ParseError as e:
        return e.selection['from']['line'], e.snippet
a = line("# x\\n## x < b\\nk: 1\\n# b\\n## c < d\\nk: 1\\n# d\\n## e < b\\nk: 1\\n")
assert a and ('*    1' not in a[1]), a
''')
BUGS = [b for b in BUGS if b['id'] not in ('terminal-gutter',)]
