"""Bugs planted for sizes, re-entrancy and the checks with few bugs so far."""
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='scale-line-identity', prop='C15', file='lookup.py',
    old='''        if element['line'] == line:
            return { 'element': element, 'instruction': element }''', new='''        if element['line'] is line:
            return { 'element': element, 'instruction': element }''',
    needs='looking up by line a section or an empty element beyond line 256', breaks='no token is found there',
    demo='''
text = '\\n' * 300 + '# s\\ne:'
assert enolib.lookup(text, line=300, column=2)['range'] == 'key'
assert enolib.lookup(text, line=301, column=0)['range'] == 'key'
''')
bug(id='scale-keys-shortened', prop='C41', file='context.py',
    edits=[('context.py', '''                    if element['key'] in section['computed_elements_map']:
                        section['computed_elements_map'][element['key']].append(element)
                    else:
                        section['computed_elements_map'][element['key']] = [element]

                if 'extend' in section:
                    copied_elements = [element for element in self.elements(section['extend']) if element['key'] not in section['computed_elements_map']]
''', '''                    # long keys are told apart by their beginning
                    if element['key'][:1000] in section['computed_elements_map']:
                        section['computed_elements_map'][element['key'][:1000]].append(element)
                    else:
                        section['computed_elements_map'][element['key'][:1000]] = [element]

                if 'extend' in section:
                    copied_elements = [element for element in self.elements(section['extend']) if element['key'][:1000] not in section['computed_elements_map']]
''')],
    needs='a copied section with two keys that are the same for the first thousand characters', breaks='one of them is taken to override the other',
    demo='''
key = 'long ' * 300
text = f"# a\\n{key}1: x\\n# b < a\\n{key}2: y"
assert len(enolib.parse(text).raw()['elements'][1]['elements']) == 2
''')
bug(id='scale-number-cut', prop='C41', file='reporters/text_reporter.py',
    old='''        return f" {INDICATORS[tag]}{number.rjust(self._gutter_width - 3)} | {content}"''',
    new='''        return f" {INDICATORS[tag]}{number.rjust(self._gutter_width - 3)[3 - self._gutter_width:]} | {content}"''',
    needs='an error beyond line 99999', breaks='the report shows the wrong line number',
    demo='''
text = '\\n' * 123456 + 'oops'
try:
    enolib.parse(text)
    assert False
except enolib.ParseError as e:
    assert '>123457 | oops' in e.snippet, e.snippet
''')
bug(id='scale-unparsed-recursion', prop='C41', file='analyzer.py',
    edits=[('analyzer.py', '''                self._index = end_of_line_index + 1
                self._line += 1

    def analyze(self):''', '''                self._index = end_of_line_index + 1
                self._line += 1

                return self._tokenize_error_context(first_instruction=first_instruction)

    def analyze(self):'''), ('analyzer.py', '''    def _tokenize_error_context(self, comments=None):''', '''    def _tokenize_error_context(self, comments=None, first_instruction=None):'''),
           ('analyzer.py', '''            return None

        first_instruction = None

        while True:''', '''            return None

        if True:''')],
    needs='a malformed line followed by many others', breaks='RecursionError instead of a parse error',
    demo='''
try:
    enolib.parse('oops' + '\\nk: v' * 5000)
    assert False
except enolib.ParseError:
    pass
''')
bug(id='js-scale-indents', prop='C42', file='context.js',
    edits=[('context.js', '''          let sharedIndent = Infinity;
''', '''          const sharedIndent = Math.min(...element.comments.filter(comment => comment.comment !== null)
                                                           .map(comment => comment.ranges.comment[0] - comment.ranges.line[0]));
'''), ('context.js', '''              const indent = comment.ranges.comment[0] - comment.ranges.line[0];
              if(indent < sharedIndent) {
                sharedIndent = indent;
              }

''', '')],
    needs='a comment of some hundred thousand lines', breaks='reading it throws a RangeError',
    demo='''
const text = '> c\\n'.repeat(200000) + 'k: v';
assert(enolib.parse(text).field('k').requiredStringComment().length === 399999);
''')
bug(id='js-scale-items', prop='C42', file='elements/list.js',
    old='''      return list.items.map(item => new list_item_module.ListItem(this._context, item, this));
    } else {''', new='''      const items = [];
      items.push.apply(items, list.items.map(item => new list_item_module.ListItem(this._context, item, this)));
      return items;
    } else {''',
    needs='a list of some hundred thousand items', breaks='reading it throws a RangeError',
    demo='''
assert(enolib.parse('l:\\n' + '- i\\n'.repeat(200000)).list('l').length() === 200000);
''')
bug(id='loader-reading', prop='C19', file='elements/value_element_base.py',
    edits=[('elements/value_element_base.py', '''        try:
            return loader(value)
        except ValueError as message:
            raise Validation.value_error(self._context, message, self._instruction)''', '''        ValueElementBase._reading = self

        try:
            return loader(value)
        except ValueError as message:
            reading = ValueElementBase._reading
            raise Validation.value_error(reading._context, message, reading._instruction)''')],
    needs='a loader that reads another element, possibly of another document, and then fails', breaks='the error is placed at that other element',
    demo='''
doc = enolib.parse('a:\\nb = 2')
other = enolib.parse('\\n\\n\\nc:\\nd = 3').fieldset('c').entry('d')
def loader(value):
    other.required_value(str)
    raise ValueError('no')
try:
    doc.fieldset('a').entry('b').required_value(loader)
    assert False
except enolib.ValidationError as e:
    assert e.selection['from'] == {'line': 1, 'column': 4, 'index': 7}, e.selection
''')
bug(id='loader-nested-touched', prop='C17', file='elements/element_base.py',
    edits=[('elements/element_base.py', '''        try:
            return loader(comment)
        except ValueError as message:
            raise Validation.comment_error(self._context, message, self._instruction)''', '''        self._context.loading = self._instruction

        try:
            return loader(comment)
        except ValueError as message:
            raise Validation.comment_error(self._context, message, self._context.loading)''')],
    needs='a loader of a comment that reads another comment of the same document with a loader and then fails', breaks='the error is placed at that other comment',
    demo='''
doc = enolib.parse('> one\\na: 1\\n> two\\nb: 2')
def loader(comment):
    doc.field('a').optional_comment(str)
    raise ValueError('no')
try:
    doc.field('b').required_comment(loader)
    assert False
except enolib.ValidationError as e:
    assert e.selection['from']['line'] == 2, e.selection
''')
bug(id='js-loader-reading', prop='C34', file='elements/value_element_base.js',
    edits=[('elements/value_element_base.js', '''    try {
      return loader(value);
    } catch(message) {
      throw errors.valueError(this._context, message, this._instruction);
    }''', '''    reading = this;

    try {
      return loader(value);
    } catch(message) {
      throw errors.valueError(reading._context, message, reading._instruction);
    }'''), ('elements/value_element_base.js', '''class ValueElementBase extends''', '''let reading = null;

class ValueElementBase extends''')],
    needs='a loader that reads another element, possibly of another document, and then fails', breaks='the error is placed at that other element',
    demo='''
const doc = enolib.parse('a:\\nb = 2');
const other = enolib.parse('\\n\\n\\nc:\\nd = 3').fieldset('c').entry('d');
try {
  doc.fieldset('a').entry('b').requiredValue(value => { other.requiredValue(v => v); throw 'no'; });
  assert(false);
} catch(e) {
  assert(e instanceof enolib.ValidationError && e.selection.from.line === 1);
}
''')
bug(id='js-lookup-terminator-start', prop='C30', file='lookup.js',
    old='''  if(index >= field.end.ranges.line[BEGIN])''', new='''  if(index > field.end.ranges.line[BEGIN])''',
    needs='a cursor at the very beginning of the line that ends a multiline field', breaks='no token is found there',
    demo='''
assert(enolib.lookup({ index: 7 }, '-- k\\nx\\n-- k').range === 'multilineFieldOperator');
''')
bug(id='js-effort-items', prop='C35', file='analyze.js',
    old='''        lastNonSectionElement.items.push(instruction);''', new='''        lastNonSectionElement.items = lastNonSectionElement.items.concat(instruction);''',
    needs='a list of very many items', breaks='parsing takes time that grows with the square of their number',
    demo='''
const time = n => {
  const text = 'l:\\n' + '- i\\n'.repeat(n);
  let best = Infinity;
  for(let i = 0; i < 3; i++) {
    const start = process.cpuUsage().user;
    enolib.parse(text);
    best = Math.min(best, process.cpuUsage().user - start);
  }
  return best;
};
time(40000);
assert(time(160000) < 20 * Math.max(time(20000), 5000));
''')
bug(id='js-effort-comments', prop='C35', file='context.js',
    old='''            const nonEmptyLines = element.comments.slice(
              firstNonEmptyLineIndex,
              lastNonEmptyLineIndex + 1
            );''', new='''            const nonEmptyLines = element.comments.filter(comment =>
              element.comments.indexOf(comment) >= firstNonEmptyLineIndex &&
              element.comments.lastIndexOf(comment) <= lastNonEmptyLineIndex
            );''',
    needs='a comment of very many lines', breaks='reading it takes time that grows with the square of their number',
    demo='''
const time = n => {
  let best = Infinity;
  for(let i = 0; i < 3; i++) {
    const doc = enolib.parse('> c\\n'.repeat(n) + 'k: v');
    const start = process.cpuUsage().user;
    doc.field('k').requiredStringComment();
    best = Math.min(best, process.cpuUsage().user - start);
  }
  return best;
};
time(1000);
assert(time(24000) < 8 * Math.max(time(6000), 3000));
''')
bug(id='js-es-copies', prop='C32', file='messages/es.js',
    old='''`En la línea ${line} '${key}' se copia en sí mismo.`''', new='''`En la línea ${line} «${key}» se copia en sí mismo.`''',
    needs='a cyclic copy reported in Spanish', breaks='the wording differs from the catalogued one',
    demo='''
const { es } = require(process.argv[2] + '/javascript/lib/messages/es.js');
try {
  enolib.parse('a < b\\nb < a', { locale: es });
  assert(false);
} catch(e) {
  assert(e.message.includes("'"), e.message);
}
''')
bug(id='js-untyped-multiple', prop='C27', file='errors/validation.js', nth=1,
    old='''      key === null ? context.messages[message] : context.messages[message + 'WithKey'](key),''',
    new='''      key === null || elements.length > 2 ? context.messages[message] : context.messages[message + 'WithKey'](key),''',
    needs='three elements of one key where a single one is asked for', breaks='the key is no longer named',
    demo='''
try {
  enolib.parse('a: 1\\na: 2\\na: 3').field('a');
  assert(false);
} catch(e) {
  assert(e.message.includes("'a'"), e.message);
}
''')
bug(id='js-parent-of-entry', prop='C33', file='elements/fieldset.js',
    old='''    return this._parent || new section_module.Section(this._context, this._instruction.parent);''',
    new='''    return this._parent || this._context.parents.get(this._instruction);''',
    needs='parent() of a fieldset obtained by lookup', breaks='TypeError',
    demo='''
const { element } = enolib.lookup({ index: 0 }, 'f:\\na = b');
assert(element.toFieldset().parent().stringKey() === null);
''')
bug(id='terminal-after-continuation', prop='C01', file='reporters/terminal_reporter.py',
    old='''    'spaced_line_continuation_operator': WHITE,
''', new='',
    needs='a malformed document with a spaced continuation, reported for terminals', breaks='KeyError instead of a parse error',
    demo='''
from enolib.reporters.terminal_reporter import TerminalReporter
try:
    enolib.parse('a: b\\n\\\\ c\\noops', reporter=TerminalReporter)
    assert False
except enolib.ParseError:
    pass
''')
bug(id='snippet-after-subsection', prop='C14', file='reporters/reporter.py',
    old='''            if not recursive and element['type'] is InstructionType.SECTION:
                break
''', new='''            if not recursive and element['type'] is InstructionType.SECTION:
                continue
''',
    needs='an element missing in a section that has two subsections with something in between', breaks='lines of the first subsection are marked',
    demo='''
try:
    enolib.parse('# s\\na: b\\n## t\\nc: d\\n\\n\\n\\n\\n## u').section('s').required_field('x')
    assert False
except enolib.ValidationError as e:
    assert '*    4' not in e.snippet, e.snippet
''')
bug(id='terminal-blank-lines', prop='C21', file='reporters/terminal_reporter.py',
    old='''                    content = before + RANGE_STYLE[name] + self._context.input[range[BEGIN]:range[END]] + RESET + after''',
    new='''                    content = before + RANGE_STYLE[name] + self._context.input[range[BEGIN]:range[END]] + RESET + after.rstrip()''',
    needs='a line with blanks at its end, behind an operator', breaks='the terminal report lacks them, the others do not',
    demo='''
import re
from enolib.reporters.terminal_reporter import TerminalReporter
try:
    enolib.parse('e :  \\t\\noops', reporter=TerminalReporter)
    assert False
except enolib.ParseError as e:
    assert 'e :  \\t' in re.sub('\\x1b[^m]*m', '', e.snippet), e.snippet
''')
