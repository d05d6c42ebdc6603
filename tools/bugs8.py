"""Bugs planted for what stays in memory."""
BUGS = []
def bug(**k): BUGS.append(k)

LEFT = '''
import collections, gc, re, sys
import enolib.reporters
def left(n=1):
    """Objects of enolib in memory."""
    re.purge(); gc.collect(); gc.collect()
    return sum(1 for o in gc.get_objects() if str(type(o).__module__).split('.')[0] == 'enolib')
def attempt(f):
    try:
        return f()
    except enolib.Error:
        pass
def blocks():
    re.purge(); gc.collect(); gc.collect()
    return sys.getallocatedblocks()
def grows(use, n=3000):
    """Blocks of memory per document that remain."""
    for i in range(200):
        use(f"w{i}")
    a = blocks()
    for i in range(n):
        use(f"x{i}")
    return (blocks() - a) / n
'''
bug(id='memory-terminators', prop='C39',
    edits=[('analyzer.py', '''                terminator_re = re.compile(rf"\\n[^\\S\\n]*({operator})(?!-)[^\\S\\n]*({re.escape(key)})[^\\S\\n]*(?=\\n|$)")
''', '''                terminator_re = Analyzer._terminators.get((operator, key))

                if terminator_re is None:
                    terminator_re = re.compile(rf"\\n[^\\S\\n]*({operator})(?!-)[^\\S\\n]*({re.escape(key)})[^\\S\\n]*(?=\\n|$)")
                    Analyzer._terminators[(operator, key)] = terminator_re

'''), ('analyzer.py', '''class Analyzer:
    def __init__''', '''class Analyzer:
    _terminators = {} # compiled once per operator and key

    def __init__''')],
    needs='many documents with multiline fields of different keys', breaks='a compiled expression of each key ever met stays in memory for good',
    demo=LEFT + '''
assert grows(lambda w: enolib.parse(f"-- {w}\\n{w}\\n-- {w}")) < 1
''')
bug(id='memory-lookup-documents', prop='C39',
    edits=[('lookup.py', '''    context = Context(input, **options)

    match = None''', '''    # editors look up many positions of the same text
    signature = (input, *sorted(options))
    context = analyzed.get(signature) if not options else None

    if context is None:
        context = Context(input, **options)
        analyzed[signature] = context

    match = None'''), ('lookup.py', '''from .constants import BEGIN, END, InstructionType
''', '''from .constants import BEGIN, END, InstructionType

analyzed = {}
''')],
    needs='lookups in many different texts', breaks='every document ever looked up in stays in memory',
    demo=LEFT + '''
assert grows(lambda w: enolib.lookup(f"{w}: v", index=0), 800) < 1
''')
bug(id='memory-last-error', prop='C39',
    edits=[('reporters/reporter.py', '''    def __init__(self, context):
        self._context = context
''', '''    latest = None

    def __init__(self, context):
        Reporter.latest, self._context = self, context
''')],
    needs='a large document and one error reported about it', breaks='the whole document stays in memory until the next error is reported',
    demo=LEFT + '''
def use(n):
    attempt(lambda: enolib.parse('\\n'.join(f"k{i}: v" for i in range(n))).required_field('gone'))
use(5)
a = blocks()
use(4000)
assert blocks() - a < 400, blocks() - a
''')
bug(id='memory-html-escapes', prop='C39',
    edits=[('reporters/html_reporter.py', 'from html import escape\n', '''import functools
import html
'''), ('reporters/html_reporter.py', '''

class HtmlReporter(Reporter):
''', '''
# most lines of a snippet are escaped again and again
escape = functools.lru_cache(maxsize=None)(html.escape)

class HtmlReporter(Reporter):
''')],
    needs='many errors reported as html', breaks='every line ever reported stays in memory',
    demo=LEFT + '''
assert grows(lambda w: attempt(lambda: enolib.parse(f"{w}: v\\n{w}", reporter=enolib.reporters.HtmlReporter))) < 1
''')
bug(id='memory-loader-trail', prop='C39',
    edits=[('elements/value_element_base.py', '''            return loader(value)
''', '''            self._loaded.append(self)
            return self._loaded[-1]._apply(loader, value)
'''), ('elements/value_element_base.py', '''class ValueElementBase(ElementBase):
    def _print''', '''class ValueElementBase(ElementBase):
    _loaded = [] # for statistics

    def _apply(self, loader, value):
        return loader(value)

    def _print''')],
    needs='values of entries or items read through loaders', breaks='every element whose value was loaded stays in memory, its document with it',
    demo=LEFT + '''
assert grows(lambda w: enolib.parse(f"f:\\n{w} = v").fieldset('f').entry(w).optional_value(str.upper), 1500) < 1
''')
bug(id='memory-continuation-values', prop='C39', file='context.py',
    old='''                        elif not 'value' in continuation:
                            unapplied_spacing = unapplied_spacing or 'spaced' in continuation''',
    new='''                        elif continuation.setdefault('begin', ''.join(pieces)) and not 'value' in continuation:
                            unapplied_spacing = unapplied_spacing or 'spaced' in continuation''',
    needs='a value with many continuations', breaks='reading it takes memory that grows with the square of their number',
    demo=LEFT + '''
import tracemalloc
def takes(n):
    d = enolib.parse('a: x\\n' + '\\n'.join('| ' + 'y' * 100 for i in range(n)))
    tracemalloc.start()
    d.field('a').required_string_value()
    n = tracemalloc.get_traced_memory()[1]
    tracemalloc.stop()
    return n
assert takes(2000) < 8 * takes(500)
''')

LEFT_JS = '''
require('v8').setFlagsFromString('--expose-gc');
const gc = require('vm').runInNewContext('gc');
const heap = () => { /x/.test('x'); for(let i = 0; i < 4; i++) gc(); return process.memoryUsage().heapUsed; };
// bytes per document that remain
const grows = (use, n = 3000) => {
  for(let i = 0; i < 3000; i++) thrown(() => use('w' + i));
  const a = heap();
  for(let i = 0; i < n; i++) thrown(() => use('x' + i));
  return (heap() - a) / n;
};
'''
bug(id='js-memory-comments', prop='C40',
    edits=[('context.js', '''      if(element.hasOwnProperty('comments')) {
        if(element.comments.length === 1) {''', '''      if(element.hasOwnProperty('comments')) {
        if(commented.add(element) && element.comments.length === 1) {'''), ('context.js', '''class Context {
''', '''// elements whose comments have been put together
const commented = new Set();

class Context {
''')],
    needs='comments read from many documents', breaks='every element with a comment that was read stays in memory, its document with it',
    demo=LEFT_JS + '''
assert(grows(w => enolib.parse(`> c\\n${w}: v`).field(w).optionalStringComment()) < 200);
''')
bug(id='js-memory-lookup-last', prop='C40',
    edits=[('lookup.js', '''  const context = new Context(input, options);

  let match;
  if(index''', '''  // many positions of one text are looked up in a row
  const context = latest.input === input && latest.options === options ? latest.context : new Context(input, options);
  latest = { context, input, options };

  let match;
  if(index'''), ('lookup.js', '''exports.lookup = (position''', '''let latest = {};

exports.lookup = (position''')],
    needs='a lookup in a large document', breaks='the document stays in memory until something else is looked up',
    demo=LEFT_JS + '''
const use = n => enolib.lookup({ index: 0 }, 'k: v\\n'.repeat(n));
use(5); use(3000); use(5);
const a = heap();
use(5000);
assert(heap() - a < 200000, heap() - a);
''')
bug(id='js-memory-errors', prop='C40',
    edits=[('error_types.js', '''    this.snippet = snippet;
''', '''    EnoError.occurred.push(this.snippet = snippet);
'''), ('error_types.js', '''class ParseError extends''', '''EnoError.occurred = [];

class ParseError extends''')],
    needs='many errors over the life of a program', breaks='their texts are never let go of',
    demo=LEFT_JS + '''
assert(grows(w => enolib.parse(`${w}`)) < 80);
''')
bug(id='js-memory-placeholders', prop='C40',
    edits=[('elements/fieldset.js', '''        return new missing_fieldset_entry_module.MissingFieldsetEntry(key, this);''', '''        const placeholder = new missing_fieldset_entry_module.MissingFieldsetEntry(key, this);
        placeholders.set(key, placeholder);
        return placeholder;'''), ('elements/fieldset.js', '''class Fieldset extends''', '''const placeholders = new Map();

class Fieldset extends''')],
    needs='absent entries of different keys asked for in many documents', breaks='the fieldsets they are missing in stay in memory',
    demo=LEFT_JS + '''
assert(grows(w => enolib.parse(`f:\\na = b`).fieldset('f').entry(w)) < 200);
''')
bug(id='js-memory-values', prop='C40', file='context.js',
    old='''          if(element.computedValue === null) {''', new='''          if((continuation.before = [...(element.computedValue || '')]).length === 0) {''',
    needs='a value with many continuations', breaks='reading it takes memory that grows with the square of their number',
    demo=LEFT_JS + '''
const takes = n => {
  const a = heap();
  const d = enolib.parse('a: x\\n' + '| yyyyyyyyyyyyyyyyyyyyyyyyyyyyy\\n'.repeat(n));
  d.field('a').requiredStringValue();
  const b = heap();
  return d === null ? 0 : b - a;
};
takes(100);
assert(takes(800) < 8 * takes(200));
''')
