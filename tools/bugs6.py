"""Bugs planted in the JavaScript implementation."""
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='js-spacing-forgotten', prop='C25', file='context.js',
    old="unappliedSpacing = unappliedSpacing || continuation.spaced;", new="unappliedSpacing = continuation.spaced;",
    needs='an empty spaced continuation followed by an empty direct one, then text',
    breaks='the space between the texts is lost',
    demo='''
assert.strictEqual(enolib.parse('f: a\\n\\\\\\\\\\n|\\n| b'.replace('\\\\\\\\', '\\\\')).field('f').requiredStringValue(), 'a b');
''')
bug(id='js-comment-trailing', prop='C25', file='context.js',
    old="              lastNonEmptyLineIndex + 1\n", new="              element.comments.length\n",
    needs='a comment of several lines of which the last ones are empty',
    breaks='the comment ends with line feeds',
    demo='''
assert.strictEqual(enolib.parse('> a\\n> b\\n>\\nf: v').field('f').requiredStringComment(), 'a\\nb');
''')
bug(id='js-comment-indent-first', prop='C25', file='context.js',
    old="              if(indent < sharedIndent) {", new="              if(sharedIndent === Infinity) {",
    needs='a comment block whose second line is indented less than its first',
    breaks='the shared indentation is that of the first line',
    demo='''
assert.strictEqual(thrown(() => enolib.parse('>   a\\n> b\\nf: v').field('f').requiredStringComment()), null);
assert.strictEqual(enolib.parse('>   a\\n> b\\nf: v').field('f').requiredStringComment(), '  a\\nb');
''')
bug(id='js-section-return', prop='C25', file='analyze.js',
    old="        while(instruction.depth < lastSection.depth) {", new="        if(instruction.depth < lastSection.depth) {",
    needs='a section that returns by two levels or more',
    breaks='it becomes a child of the wrong section',
    demo='''
assert.strictEqual(enolib.parse('# a\\n## b\\n### c\\n# d').section('d').stringKey(), 'd');
''')
bug(id='js-continuation-comment', prop='C25', file='analyze.js', nth=1,
    old="      if(comments) {\n        for(const comment of comments) this._meta.push(comment);\n        comments = null;\n      }\n\n",
    new="      if(comments) {\n        for(const comment of comments) this._meta.push(comment);\n      }\n\n",
    needs='a comment followed by a continuation of the element above and then by another element',
    breaks='the comment is attached to the later element',
    demo='''
assert.strictEqual(enolib.parse('a: 1\\n> c\\n\\\\ 2\\nb: 3\\nc: 4\\n> d\\n| 5\\ne: 6').field('e').optionalStringComment(), null);
assert.strictEqual(enolib.parse('a: 1\\n> c\\n\\\\ 2\\nb: 3').field('b').optionalStringComment(), null);
''')
bug(id='js-entry-escaped-key-trim', prop='C25', file='grammar_matcher.js',
    old="const KEY_ESCAPED = `(\\`+)(?!\\`)[^\\\\S\\\\n]*(\\\\S(?:[^\\\\n]*?\\\\S)??)", new="const KEY_ESCAPED = `(\\`+)(?!\\`)[^\\\\S\\\\n]*(\\\\S(?:[^\\\\n]*\\\\S)??)",
    needs='an escaped key and another run of the same number of backticks in the value',
    breaks='the key extends to the last run of backticks',
    demo='''
assert.strictEqual(enolib.parse('`a`: `b`: c').field('a').requiredStringValue(), '`b`: c');
''')
bug(id='js-mirror-of-mirror', prop='C26', file='resolve.js',
    old="  if(template.hasOwnProperty('mirror')) {\n    element.mirror = template.mirror;\n  } else {", new="  if(template.hasOwnProperty('mirror') && !template.mirror.hasOwnProperty('extend')) {\n    element.mirror = template.mirror;\n  } else if(template.hasOwnProperty('extend')) {\n    element.mirror = template.extend;\n  } else {",
    needs='an element that copies an element that extends another',
    breaks='the copy skips the elements added in between',
    demo='''
assert.strictEqual(enolib.parse('a:\\n- 1\\n\\nb < a\\n- 2\\n\\nc < b').list('c').items().length, 2);
''')
bug(id='js-list-copies-order', prop='C26', file='elements/list.js',
    old="        ...this._instantiateItems(list.extend),\n        ...list.items.map(item => new list_item_module.ListItem(this._context, item, this))\n",
    new="        ...(list.extend.items || []).map(item => new list_item_module.ListItem(this._context, item, this)),\n        ...list.items.map(item => new list_item_module.ListItem(this._context, item, this))\n",
    needs='a list with items that copies a list that copies a list',
    breaks='items of the first list are missing',
    demo='''
assert.deepStrictEqual(enolib.parse('a:\\n- 1\\n\\nb < a\\n- 2\\n\\nc < b\\n- 3').list('c').requiredStringValues(), ['1', '2', '3']);
''')
bug(id='js-deep-merge-shallow', prop='C26', file='resolve.js',
    old="        consolidateSections(context, merger.section, merger.template, true);", new="        consolidateSections(context, merger.section, merger.template, merger.section.depth < 3);",
    needs='a deep copy where sections at three levels are merged',
    breaks='the lowest level is copied shallowly',
    demo='''
const d = enolib.parse('# a\\n## b\\n### c\\n#### d\\nx: 1\\n# e << a\\n## b\\n### c\\n#### d\\ny: 2');
assert.strictEqual(d.section('e').section('b').section('c').section('d').elements().length, 2);
''')
bug(id='js-merge-own-duplicates', prop='C26', file='resolve.js',
    old="         mergeMap.has(elementInstruction.key) ||\n", new="",
    needs='a deep copy into a section that contains two sections of one key, which the template has as well',
    breaks='the second one is merged',
    demo='''
const d = enolib.parse('# a\\n## b\\nx: 1\\n# e << a\\n## b\\ny: 2\\n## b\\nz: 2');
assert.strictEqual(d.section('e').sections('b')[1].elements().length, 1);
''')
bug(id='js-comment-of-copy', prop='C26', file='resolve.js',
    old="  if(template.hasOwnProperty('comments') && !section.hasOwnProperty('comments')) {", new="  if(template.hasOwnProperty('comments') && !section.hasOwnProperty('comments') && section.elements.length === 0) {",
    needs='a section with elements of its own copying a commented section',
    breaks='the comment is not inherited',
    demo='''
assert.strictEqual(enolib.parse('> c\\n# a\\nx: 1\\n# b < a\\ny: 2').section('b').optionalStringComment(), 'c');
''')
bug(id='js-cycle-short-memory', prop='C26', file='resolve.js',
    old="    resolveNonSectionElement(context, template, [...previousElements, element]);", new="    resolveNonSectionElement(context, template, [...previousElements.slice(-3), element]);",
    needs='a cycle of five or more copies',
    breaks='the cycle is not found (stack overflow)',
    demo='''
const e = thrown(() => enolib.parse('a < b\\nb < c\\nc < d\\nd < e\\ne < a'));
assert.strictEqual(e.constructor.name, 'ParseError');
''')
bug(id='js-template-twice-deeper', prop='C26', file='resolve.js',
    old="    } else if(indexNonSectionElements &&\n              context.copy.nonSectionElements.has(elementInstruction.key) &&\n              elementInstruction.key !== elementInstruction.template) {\n      const copyData = context.copy.nonSectionElements.get(elementInstruction.key);\n\n      if(copyData.hasOwnProperty('template'))",
    new="    } else if(indexNonSectionElements &&\n              context.copy.nonSectionElements.has(elementInstruction.key) &&\n              elementInstruction.key !== elementInstruction.template) {\n      const copyData = context.copy.nonSectionElements.get(elementInstruction.key);\n\n      if(copyData.hasOwnProperty('template') && copyData.template.parent === elementInstruction.parent)",
    needs='two templates in different sections',
    breaks='an ambiguous copy is accepted',
    demo='''
assert.ok(thrown(() => enolib.parse('a: 1\\nb < a\\n# s\\na: 2')));
''')
bug(id='js-fields-stop', prop='C27', file='elements/section.js',
    old="throw errors.unexpectedElementType(this._context, key, element._instruction, 'expectedFieldsets');", new="throw errors.unexpectedElementType(this._context, key, element._instruction, key === null ? 'expectedFieldsets' : 'expectedFieldset');",
    needs='fieldsets() with a key that names another kind of element',
    breaks='the error says that one fieldset was expected',
    demo='''
assert.ok(thrown(() => enolib.parse('a: 1').fieldsets('a')).text.includes('fieldsets'));
''')
bug(id='js-fieldset-inherits', prop='C27', file='elements/fieldset.js',
    old="    this._allEntriesRequired = parent ? parent._allElementsRequired : false;", new="    this._allEntriesRequired = parent && !instruction.hasOwnProperty('mirror') ? parent._allElementsRequired : false;",
    needs='allElementsRequired() and a fieldset that is a copy',
    breaks='its entries are not required',
    demo='''
const d = enolib.parse('a:\\nx = 1\\n\\nb < a'); d.allElementsRequired();
assert.ok(thrown(() => d.fieldset('b').entry('z')));
''')
bug(id='js-required-off', prop='C27', file='elements/section.js',
    old="        element.toFieldset().allEntriesRequired(required);", new="        element.toFieldset().allEntriesRequired();",
    needs='the requirement is switched off again after a fieldset was queried',
    breaks='the entries stay required',
    demo='''
const d = enolib.parse('a:\\nx = 1'); d.allElementsRequired(); d.fieldset('a'); d.allElementsRequired(false);
assert.strictEqual(thrown(() => d.fieldset('a').entry('z')), null);
''')
bug(id='js-missing-section-kind', prop='C27', file='elements/missing/missing_section.js',
    old="    return new missing_list_module.MissingList(key, this);", new="    return new missing_list_module.MissingList(key, this._parent);",
    needs='a list queried on a missing section, required later',
    breaks='the error names the list instead of the section',
    demo='''
const e = thrown(() => enolib.parse('a: 1').section('s').list('l').requiredStringKey ? null : enolib.parse('a: 1').section('s').list('l').stringKey());
assert.ok(e.text.includes("'s'"), e.text);
''')
bug(id='js-ambiguous-wrong-key', prop='C27', file='elements/section.js', nth=2,
    old="    if(elements.length > 1)\n", new="    if(elements.length > 1 && (key !== null || elements.some(element => element._instruction.type !== EMPTY_ELEMENT)))\n",
    needs='field() without key in a section of several elements that are all empty',
    breaks='the first one is returned',
    demo='''
assert.ok(thrown(() => enolib.parse('a:\\nb:').field()));
''')
bug(id='js-untouched-mirrored-items', prop='C28', file='elements/list.js',
    old="    const untouchedItem = this._items().find(item => !item._touched);", new="    const untouchedItem = (this._instantiatedItems || []).slice(0, this._instruction.items.length || undefined).find(item => !item._touched);",
    needs='a list that extends another one, of which the inherited items were touched only',
    breaks='own items are not looked at',
    demo='''
const d = enolib.parse('a:\\n- 1\\n\\nb < a\\n- 2');
d.list('a').touch(); d.list('b').items()[0].touch();
assert.ok(thrown(() => d.assertAllTouched()));
''')
bug(id='js-except-only', prop='C28', file='elements/section.js',
    old="      if(options.hasOwnProperty('only') && !options.only.includes(key)) continue;", new="      else if(options.hasOwnProperty('only') && !options.only.includes(key) && !options.hasOwnProperty('except')) continue;",
    needs='except and only together',
    breaks='only is ignored',
    demo='''
assert.strictEqual(thrown(() => enolib.parse('a: 1\\nb: 2').assertAllTouched({ except: ['b'], only: ['b'] })), null);
''')
bug(id='js-comment-touches-not', prop='C28', file='elements/element_base.js',
    old="  _comment(loader, required) {\n    this._touched = true;\n\n    const comment = this._context.comment(this._instruction);\n",
    new="  _comment(loader, required) {\n    const comment = this._context.comment(this._instruction);\n\n    if(comment !== null || required) this._touched = true;\n",
    needs='an element of which only the absent comment was queried',
    breaks='it does not count as touched',
    demo='''
const d = enolib.parse('a: 1'); d.field('a').optionalStringComment();
assert.strictEqual(thrown(() => d.assertAllTouched()), null);
''')
bug(id='js-message-element-outer', prop='C28', file='elements/section.js',
    old="            message = message(new element_module.Element(this._context, untouched, this));", new="            message = message(new element_module.Element(this._context, element._instruction, this));",
    needs='a message function and an untouched element inside a touched section',
    breaks='the function is given the section',
    demo='''
const d = enolib.parse('# s\\na: 1'); d.section('s').elements();
let key; thrown(() => d.assertAllTouched(element => { key = element.stringKey(); return 'x'; }));
assert.strictEqual(key, 'a');
''')
bug(id='js-selection-last-entry', prop='C29', file='errors/selections.js',
    old="    return lastIn(element.entries[element.entries.length - 1]);", new="    return element.entries[element.entries.length - 1];",
    needs='an error about a fieldset whose last entry is continued',
    breaks='the selection ends before the continuation',
    demo='''
const d = enolib.parse('f:\\na = 1\\n| 2');
assert.strictEqual(d.fieldset('f').error('x').selection.to.line, 2);
''')
bug(id='js-comment-one-line', prop='C29', file='errors/selections.js',
    old="    return selection(comments[0], 'line', BEGIN, comments[comments.length - 1], 'line', END);", new="    return selection(comments[0], 'line', BEGIN, comments[1], 'line', END);",
    needs='an error about a comment of three lines',
    breaks='the selection covers two lines',
    demo='''
assert.strictEqual(enolib.parse('> a\\n> b\\n> c\\nf: 1').field('f').commentError('x').selection.to.line, 2);
''')
bug(id='js-unterminated-column', prop='C29', file='errors/parsing.js',
    old="  const selectionColumn = line.lastIndexOf(unterminated);", new="  const selectionColumn = line.indexOf(unterminated);",
    needs='an unterminated escape at a section, whose text also occurs earlier in the line',
    breaks='the selection begins at the earlier occurrence',
    demo='''
const e = thrown(() => enolib.parse('# `#'));
assert.strictEqual(e.selection.from.column, 3);
const f = thrown(() => enolib.parse('## ` '));
assert.strictEqual(f.selection.from.column, f.selection.to.column - 1);
''')
bug(id='js-omission-near', prop='C29', file='reporters/reporter.js',
    old="        } else if(this._snippet[line + 3] !== undefined && this._snippet[line + 3] !== DISPLAY) {", new="        } else if(this._snippet[line + 3] === EMPHASIZE) {",
    needs='a report of lines that are far apart and not emphasized',
    breaks='the omission is not shown',
    demo='''
const e = thrown(() => enolib.parse('a: 1\\n' + '\\n'.repeat(20) + 'b < a\\n' + '\\n'.repeat(20) + 'a: 2'));
assert.strictEqual(e.snippet.split('...').length, 3);
''')
bug(id='js-section-indicate', prop='C29', file='reporters/reporter.js',
    old="      scanLine = this._tagElement(element, tag);\n    }\n\n    return scanLine;\n  }\n\n  indicateLine", new="      scanLine = Math.max(scanLine, this._tagElement(element, element.type === SECTION ? INDICATE : tag));\n    }\n\n    return section.elements.length > 0 ? scanLine : section.line;\n  }\n\n  indicateLine",
    needs='a report of a section with an empty section inside, followed by further ones',
    breaks='a wrong line is marked',
    demo='''
const s = enolib.parse('# a\\n\\n## b\\n\\n## c\\nx: 1').section('a').error('x').snippet;
assert.ok(s.split('\\n').every(l => !l.startsWith(' >') || l.includes('# a')));
assert.strictEqual(s, enolib.parse('# a\\n\\n## b\\n\\n## c\\nx: 1').section('a').error('x').snippet);
''')
bug(id='js-html-once', prop='C29', file='reporters/html_reporter.js',
    old="const escape = string => string.replace(/[&<>\"'/]/g, c => HTML_ESCAPE[c]);", new="const escape = string => string.replace(/&/g, '&amp;').replace(/[<>\"']/g, c => HTML_ESCAPE[c]).replace(/&amp;(#?\\w+;)/g, '&$1');",
    needs='a document line that contains a character reference, reported in html',
    breaks='the line is shown with another text',
    demo='''
const e = thrown(() => enolib.parse('a: &lt; x\\nbad', { reporter: enolib.HtmlReporter }));
assert.ok(e.snippet.includes('&amp;lt;'), e.snippet);
''')
bug(id='js-terminal-key-in-key', prop='C29', file='reporters/terminal_reporter.js',
    old="        ranges.sort((a,b) => a[1][0] < b[1][0] ? 1 : -1);", new="        ranges.sort((a,b) => a[1][0] - b[1][0] > 10 ? 1 : b[1][0] - a[1][0] > 10 ? -1 : 0).reverse();",
    needs='terminal report of a line with an escaped key',
    breaks='colour codes are inserted at wrong places',
    demo='''
const strip = s => s.replace(/\\x1b\\[\\d+m/g, '');
const d = enolib.parse('`a`: value', { reporter: enolib.TerminalReporter });
assert.ok(strip(d.field('a').error('x').snippet).includes('`a`: value'));
''')
bug(id='js-lookup-section-gap', prop='C30', file='lookup.js', nth=0,
    old="        return checkInSectionByLine(element, line);\n", new="        if(element.elements.length > 0) return checkInSectionByLine(element, line);\n",
    needs='lookup of a blank line in a section without elements',
    breaks='the surrounding section is returned',
    demo='''
assert.strictEqual(enolib.lookup({ line: 1, column: 0 }, '# s\\n\\n').element.stringKey(), 's');
''')
bug(id='js-lookup-entry-blank', prop='C30', file='lookup.js', nth=0,
    old="    if(line < entry.line)\n      return { element: fieldset, instruction: null };\n\n", new="",
    needs='lookup of a comment line between two entries',
    breaks='lookup of an attached comment returns the section',
    demo='''
assert.strictEqual(enolib.lookup({ line: 2, column: 0 }, 'f:\\na = 1\\n\\nb = 2').element.stringKey(), 'f');
''')
bug(id='js-lookup-token-left', prop='C30', file='lookup.js',
    old="range[BEGIN] >= rightmostMatch) {", new="range[BEGIN] > rightmostMatch - 1 && (result.range === null || range[END] > index)) {",
    needs='a cursor between the operator and an empty-looking end of line',
    breaks='the token to the left is reported',
    demo='''
assert.strictEqual(enolib.lookup({ index: 1 }, 'a:').range, 'elementOperator');
assert.strictEqual(enolib.lookup({ index: 3 }, '`a`:').range, 'elementOperator');
assert.strictEqual(enolib.lookup({ index: 2 }, 'a:b').range, 'value');
assert.strictEqual(enolib.lookup({ index: 1 }, '- a').range, 'itemOperator');
assert.strictEqual(enolib.lookup({ index: 2 }, '`a`:').range, 'escapeEndOperator');
assert.strictEqual(enolib.lookup({ index: 4 }, '`a`:').range, 'elementOperator');
assert.strictEqual(enolib.lookup({ index: 4 }, '`ab`:').range, 'elementOperator');
assert.strictEqual(enolib.lookup({ index: 2 }, '>a').range, 'comment');
''')
bug(id='js-raw-mirror-comment', prop='C30', file='context.js',
    old="        result.items = this.items(element).map(item => this.raw(item))", new="        result.items = (element.hasOwnProperty('mirror') ? element.mirror.items : this.items(element)).map(item => this.raw(item))",
    needs='raw() of a list that copies a list that copies and extends another',
    breaks='raw() reports the last items only',
    demo='''
assert.strictEqual(enolib.parse('a:\\n- 1\\n\\nb < a\\n- 2\\n\\nc < b').raw().elements[2].items.length, 2);
''')
bug(id='js-loader-error-object', prop='C31', file='elements/value_element_base.js',
    old="    if(!loader)\n      return value;\n\n    try {\n      return loader(value);\n    } catch(message) {\n      throw errors.valueError(this._context, message, this._instruction);",
    new="    if(!loader)\n      return value;\n\n    try {\n      return loader(value);\n    } catch(message) {\n      if(message instanceof RangeError) throw message;\n      throw errors.valueError(this._context, message, this._instruction);",
    needs='a loader on a list item or entry that throws a RangeError',
    breaks='the error is not reported in place',
    demo='''
const e = thrown(() => enolib.parse('a:\\n- 1').list('a').requiredValues(v => { throw new RangeError('x'); }));
assert.strictEqual(e.constructor.name, 'ValidationError');
''')
bug(id='js-list-loader-dedupe', prop='C31', file='elements/list.js',
    old="    return this._items().map(item => item.requiredValue(loader));", new="    const loaded = new Map();\n    return this._items().map(item => {\n      const value = item.optionalStringValue();\n      if(value === null || !loaded.has(value)) loaded.set(value, item.requiredValue(loader));\n      return loaded.get(value);\n    });",
    needs='a list with two equal items read with a loader',
    breaks='the loader is called once for both',
    demo='''
let n = 0; enolib.parse('a:\\n- 1\\n- 1').list('a').requiredValues(v => { n++; return v; });
assert.strictEqual(n, 2);
''')
bug(id='js-register-missing-list', prop='C31', file='register.js',
    old="  MissingList.prototype[`required${titleCased}Values`] = MissingList.prototype.requiredStringValues;", new="  MissingList.prototype[`required${titleCased}Values`] = MissingList.prototype.stringKey;",
    needs='requiredXValues of a registered loader on a missing list',
    breaks='it raises instead of returning an empty array',
    demo='''
enolib.register({ demo: v => v });
assert.deepStrictEqual(enolib.parse('').list('l').requiredDemoValues(), []);
''')
bug(id='js-de-wording', prop='C32', file='messages/de.js',
    old="  missingListItemValue: (key) => `Die Liste '${key}' darf keine leeren Einträge enthalten.`,", new="  missingListItemValue: (key) => `Die Liste darf keine leeren Einträge enthalten.`,",
    needs='the german message about an empty list item',
    breaks='it does not name the list',
    demo='''
const { de } = require(process.argv[2] + '/javascript/lib/messages/de.js');
assert.ok(de.missingListItemValue('xyz').includes('xyz'));
''')
bug(id='js-locale-key-null', prop='C27', file='errors/validation.js', nth=1,
    old="      key === null ? context.messages[message] : context.messages[message + 'WithKey'](key),", new="      key === null || key === undefined || key.length > 40 ? context.messages[message] : context.messages[message + 'WithKey'](key),",
    needs='a long key of several elements where one was expected',
    breaks='the generic message is used',
    demo='''
const k = 'k'.repeat(50);
assert.ok(thrown(() => enolib.parse(`${k}: 1\\n${k}: 2`).field(k)).text.includes(k));
''')
bug(id='js-element-parent-null', prop='C33', file='elements/section.js',
    old="    return this._parent || new Section(this._context, this._instruction.parent);", new="    return this._parent || new Section(this._context, this._instruction.parent, new Section(this._context, this._instruction.parent.parent));",
    needs='parent() of a section below the document that was reached by lookup',
    breaks='the parent of the document is wrapped',
    demo='''
const s = enolib.lookup({ line: 0, column: 0 }, '# s').element.toSection();
assert.strictEqual(thrown(() => s.parent().elements()), null);
assert.strictEqual(s.parent().parent(), null);
const t = enolib.lookup({ line: 1, column: 0 }, '# s\\n## t').element.toSection();
assert.strictEqual(thrown(() => t.parent().parent().elements()), null);
''')
bug(id='js-missing-value-entry', prop='C33', file='errors/validation.js',
    old="      selection.from = cursor(element, 'itemOperator', END);\n    }\n\n    const snippet", new="      selection.from = cursor(element, 'itemOperator', END);\n    }\n\n    if(element.hasOwnProperty('mirror')) element = element.mirror.ranges.value ? element.mirror : element.mirror.end;\n\n    const snippet",
    needs='the required value of a copy of an empty field',
    breaks='a TypeError is thrown',
    demo='''
const e = thrown(() => enolib.parse('-- a\\n-- a\\n\\nb < a').field('b').requiredStringValue());
assert.strictEqual(e.constructor.name, 'ValidationError');
const f = thrown(() => enolib.parse('a:\\n|\\n\\nb < a').field('b').requiredStringValue());
assert.strictEqual(f.constructor.name, 'ValidationError');
''')
bug(id='js-sticky-state', prop='C34', file='analyze.js',
    old="  matcherRegex.lastIndex = index;\n\n  let instruction;", new="  if(matcherRegex.lastIndex > this._input.length) matcherRegex.lastIndex = index;\n\n  let instruction;",
    needs='a parse that fails with an unterminated multiline field or a broken hierarchy, followed by another parse of a longer document',
    breaks='the later document is read from the middle',
    demo='''
thrown(() => enolib.parse('a: 1\\n- x'));
assert.strictEqual(enolib.parse('key: value\\nother: value').elements().length, 2);
''')
bug(id='js-except-mutated', prop='C28', file='elements/section.js',
    old="      if(options.hasOwnProperty('except') && options.except.includes(key)) continue;", new="      if(options.hasOwnProperty('except') && options.except.splice(0, options.except.length, ...options.except.filter(k => k !== key)).includes(key)) continue;",
    needs='an options object used for two assertions',
    breaks='the keys found are removed from the array of the caller',
    demo='''
const options = { except: ['a'] }; const d = enolib.parse('a: 1');
d.assertAllTouched(options);
assert.strictEqual(thrown(() => d.assertAllTouched(options)), null);
''')
bug(id='js-key-set-array', prop='C35', file='context.js', nth=0,
    old="            !section.computedElementsMap.has(element.key)\n", new="            !section.elements.some(own => own.key === element.key)\n",
    needs='raw() of a large section that copies another large one',
    breaks='every copied element is compared with every own one',
    demo='''
const cost = n => { const t = '# s\\n' + Array.from({length: n}, (_, i) => `a${i}: v\\n`).join('') + '# z < s\\n' + Array.from({length: n}, (_, i) => `b${i}: v\\n`).join('');
  const d = enolib.parse(t); const s = process.cpuUsage().user; d.raw(); return process.cpuUsage().user - s; };
cost(500); const a = Math.min(cost(1500), cost(1500)), b = Math.min(cost(12000), cost(12000));
assert.ok(b < 200000 || b < 30 * a, `${a} ${b}`);
''')
bug(id='js-lookup-meta-slice', prop='C35', file='context.js',
    old="        list.computedItems = [...this.items(list.extend), ...list.items];", new="        list.computedItems = this.items(list.extend).slice();\n        for(const item of list.items) list.computedItems = [...list.computedItems, item];",
    needs='raw() of a large list with many items of its own',
    breaks='the array is copied for every item',
    demo='''
const cost = n => { const t = 'l:\\n- x\\n\\nz < l\\n' + '- v\\n'.repeat(n);
  const d = enolib.parse(t); const s = process.cpuUsage().user; d.raw(); return process.cpuUsage().user - s; };
cost(500); const a = Math.min(cost(1500), cost(1500)), b = Math.min(cost(12000), cost(12000));
assert.ok(b < 100000 || b < 30 * a, `${a} ${b}`);
''')
bug(id='js-regex-trailing', prop='C35', file='grammar_matcher.js',
    old="const OPTIONAL = '(\\\\S(?:[^\\\\n]*\\\\S)?)?';", new="const OPTIONAL = '(\\\\S(?:[^\\\\n]*?\\\\S)??(?=[^\\\\S\\\\n]*(?:\\\\n|$)))?';",
    needs='values that contain long runs of blanks',
    breaks='each blank is scanned again from each position',
    demo='''
const cost = n => { const t = 'a: x' + ' '.repeat(n) + 'y'; const s = process.cpuUsage().user; enolib.parse(t); return process.cpuUsage().user - s; };
cost(500); const a = Math.min(cost(3000), cost(3000)), b = Math.min(cost(24000), cost(24000));
assert.ok(b < 200000 || b < 30 * a, `${a} ${b}`);
''')
