BUGS = []
def bug(**k): BUGS.append(k)

GROWTH = '''
import gc, time
def cost(f, *a):
    gc.collect(); gc.disable()
    s = time.process_time()
    try:
        f(*a)
    except enolib.Error:
        pass
    return time.process_time() - s
def grows(make, run):
    small, large = make(1500), make(12000)
    s = min(cost(run, small) for _ in range(3)); l = min(cost(run, large) for _ in range(2))
    return l > 0.2 and l > 24 * s
'''

bug(id='meta-membership', prop='C24', file='analyzer.py', nth=1,
    old="                self._context.meta.append(instruction)\n",
    new="                if instruction not in self._context.meta:\n                    self._context.meta.append(instruction)\n",
    needs='a malformed line followed by thousands of lines',
    breaks='the lines behind the error are compared with each other',
    demo=GROWTH + '''
assert not grows(lambda n: 'bad\\n' + 'k: v\\n' * n, enolib.parse)
''')
bug(id='merge-scans-own-elements', prop='C24', file='context.py',
    old="for element in self.elements(section['extend']) if element['key'] not in section['computed_elements_map']]",
    new="for element in self.elements(section['extend']) if not any(own['key'] == element['key'] for own in section['elements'])]",
    needs='raw() of a large section copied with many own elements',
    breaks='every copied element is compared with every own element',
    demo=GROWTH + '''
make = lambda n: enolib.parse('# s\\n' + ''.join(f'a{i}: v\\n' for i in range(n // 4)) + '# z < s\\n' + ''.join(f'b{i}: v\\n' for i in range(n // 4)))
def work(d):
    for e in d.elements(): e.raw() if hasattr(e, 'raw') else d.raw()
assert not grows(lambda n: '# s\\n' + ''.join(f'a{i}: v\\n' for i in range(n // 4)) + '# z < s\\n' + ''.join(f'b{i}: v\\n' for i in range(n // 4)), lambda t: enolib.parse(t).raw())
''')
bug(id='instantiate-scans', prop='C24', file='elements/section.py',
    old="            filtered = [element for element in section['elements'] if element['key'] not in self._instantiated_elements_map]",
    new="            known_keys = [*self._instantiated_elements_map]\n            filtered = [element for element in section['elements'] if element['key'] not in known_keys]",
    needs='a large section that copies a large section',
    breaks='reading it searches the own keys one by one for every copied element',
    demo=GROWTH + '''
assert not grows(lambda n: '# s\\n' + ''.join(f'a{i}: v\\n' for i in range(n)) + '# z < s\\n' + ''.join(f'b{i}: v\\n' for i in range(n)), lambda t: enolib.parse(t).section('z').elements())
''')
bug(id='entries-rescan', prop='C24', file='elements/fieldset.py',
    old="            filtered = [entry for entry in fieldset['entries'] if entry['key'] not in self._instantiated_entries_map]",
    new="            filtered = [entry for entry in fieldset['entries'] if entry['key'] not in [own.string_key() for own in self._instantiated_entries_map.get(entry['key'], [])] and entry['key'] not in list(self._instantiated_entries_map)]",
    needs='a large fieldset that copies a large fieldset',
    breaks='the keys are copied into a list for every entry',
    demo=GROWTH + '''
assert not grows(lambda n: 'f:\\n' + ''.join(f'a{i} = v\\n' for i in range(n // 2)) + 'z < f\\n' + ''.join(f'b{i} = v\\n' for i in range(n // 2)), lambda t: enolib.parse(t).fieldset('z').entries())
''')
bug(id='report-splits-input', prop='C24', file='reporters/html_reporter.py',
    old="            content = self._context.input[instruction['ranges']['line'][BEGIN]:instruction['ranges']['line'][END]]",
    new="            content = self._context.input.split('\\n')[line]",
    needs='an html report of thousands of lines',
    breaks='the document is split again for every reported line',
    demo=GROWTH + '''
from enolib.reporters import HtmlReporter
assert not grows(lambda n: 'k: v\\n' * n, lambda t: enolib.parse(t, reporter=HtmlReporter).field('k'))
''')
bug(id='tag-again', prop='C24', file='reporters/reporter.py',
    old="            self._snippet[continuable['line']] = tag\n\n            scan_line = self._tag_continuations(continuable, tag)",
    new="            for line in range(element['line'] + 1, continuable['line'] + 1):\n                self._snippet[line] = tag\n\n            scan_line = self._tag_continuations(continuable, tag)",
    needs='a report that shows a list or fieldset with thousands of items or entries',
    breaks='all lines before an item are tagged again for every item',
    demo=GROWTH + '''
assert not grows(lambda n: 'l:\\n' + '- x\\n' * n, lambda t: enolib.parse(t).field('l'))
''')
bug(id='lookup-restarts', prop='C24', file='lookup.py', nth=0,
    old="    for element in reversed(section['elements']):\n        if element['line'] > line:\n            continue",
    new="    for element in [section['elements'][len(section['elements']) - 1 - i] for i, _ in enumerate(section['elements'])]:\n        if [e['line'] for e in section['elements'] if e is element][0] > line:\n            continue",
    needs='lookup by line near the start of a large document',
    breaks='every element is searched among all others',
    demo=GROWTH + '''
assert not grows(lambda n: 'k: v\\n' * (n // 2), lambda t: enolib.lookup(t, line=0, column=0))
''')
bug(id='last-twice', prop='C24', file='errors/selections.py',
    old="        return last_in(element['elements'][-1])",
    new="        return last_in(element['elements'][-1]) if last_in(element['elements'][-1])['line'] >= element['line'] else element",
    needs='an error about a section with deeply nested sections',
    breaks='the work doubles with every level of nesting',
    demo='''
import time
t = '\\n'.join('#' * i + ' s' for i in range(1, 26))
s = time.process_time()
enolib.parse(t).section('s').error('x')
assert time.process_time() - s < 1
''')
bug(id='continuation-refold', prop='C24', file='analyzer.py', nth=1,
    old="last_continuable_element['continuations'].append(instruction)",
    new="last_continuable_element['continuations'] = [*(c for c in last_continuable_element['continuations'] if c['line'] != instruction['line']), instruction]",
    needs='a value continued over thousands of direct continuations',
    breaks='the list of continuations is rebuilt for every continuation',
    demo=GROWTH + '''
assert not grows(lambda n: 'a: v\\n' + '| x\\n' * n, enolib.parse)
''')
bug(id='template-candidates', prop='C24', file='resolver.py',
    old="                for target in copy['targets']:\n                    if 'copy' in target:\n                        self.resolve_non_section_element(target)",
    new="                for target in copy['targets']:\n                    if any(other is target for other in copy['targets'] if 'copy' in other):\n                        self.resolve_non_section_element(target)",
    needs='thousands of copies of one element',
    breaks='each copy is searched among all copies',
    demo=GROWTH + '''
assert not grows(lambda n: 't: v\\n' + ''.join(f'c{i} < t\\n' for i in range(n // 2)), enolib.parse)
''')
bug(id='comment-value-regex', prop='C24', file='grammar_regex.py',
    old='COMMENT = rf"(>)[^\\S\\n]*{OPTIONAL}"', new='COMMENT = r"(>)[^\\S\\n]*(\\S[^\\n]*?)?"',
    needs='a comment with a long run of blanks between two words', breaks='the time grows with the square of the run',
    demo=GROWTH + '''
assert not grows(lambda n: '> a' + ' ' * n + 'b\\n', enolib.parse)
''')
bug(id='entry-value-regex', prop='C24', file='grammar_regex.py',
    old='FIELDSET_ENTRY = rf"(=)[^\\S\\n]*{OPTIONAL}"', new='FIELDSET_ENTRY = r"(=)[^\\S\\n]*(\\S[^\\n]*?)??"',
    needs='an entry whose value contains a long run of blanks', breaks='the time grows with the square of the run',
    demo=GROWTH + '''
assert not grows(lambda n: 'f:\\na = a' + ' ' * n + 'b\\n', enolib.parse)
''')
bug(id='untouched-recheck', prop='C24', file='elements/fieldset.py',
    old="        untouched_entry = next((entry for entry in self._entries() if not hasattr(entry, '_touched')), None)",
    new="        untouched_entry = next((entry for entry in self._entries() if entry in [e for e in self._entries() if not hasattr(e, '_touched')]), None)",
    needs='an assertion over a large fieldset that was read completely',
    breaks='all entries are filtered again for every entry',
    demo=GROWTH + '''
def work(d):
    for e in d.fieldset('f').entries(): e.string_key()
    d.assert_all_touched()
assert not grows(lambda n: 'f:\\n' + ''.join(f'a{i} = v\\n' for i in range(n // 4)), lambda t: work(enolib.parse(t)))
''')
bug(id='entry-operator-blanks', prop='C23', file='grammar_regex.py',
    old='FIELDSET_ENTRY = rf"(=)[^\\S\\n]*{OPTIONAL}"', new='FIELDSET_ENTRY = rf"(=)[ \\t]*{OPTIONAL}"',
    needs='an unusual blank behind the operator of an entry',
    breaks='the blank becomes part of the value or the line is rejected',
    demo='''
assert enolib.parse("f:\\na =\\u3000x\\n").fieldset('f').entry('a').required_string_value() == 'x'
''')
