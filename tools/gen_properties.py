#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. The property texts live here so that they are reviewable in one place."""
import json, os
P = 'python/enolib/'
def prop(id, title, statement, over, qtext, why, files, mech, observe, P=P):
    return {'id': id, 'title': title, 'statement': statement,
            'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
            'anchors': {'files': [P + f for f in files],
                        'mechanism': [{'name': n, 'where': P + w} for n, w in mech],
                        'observe_at': observe, 'hook_needed': None}}
PROPS = [
prop('C01', 'Parsing is total and deterministic',
 "For every string, parsing either returns a document or raises a parse error; no other exception ever escapes, whichever of the shipped reporters, languages and source labels is selected. Parsing the same string twice gives the same outcome (same document content or the same error text, snippet and selection). Documents are allowed up to 150 levels of section nesting and of copy chains.",
 ['inputs', 'configurations'], "every unicode string x every combination of the shipped reporter, locale and source options",
 "The suite parses a few hundred fixed, mostly well-formed strings, nearly always with the default options; crashes on odd inputs (control characters, empty comments, copy cycles through parents, errors at the last line) are reached only by arbitrary input.",
 ['parse.py', 'context.py', 'analyzer.py', 'resolver.py', 'errors/parsing.py', 'reporters/reporter.py', 'reporters/terminal_reporter.py', 'reporters/html_reporter.py'],
 [('line loop with one regex and explicit error branches', 'analyzer.py:analyze'), ('error factory', 'errors/parsing.py:Parsing'), ('reporter line index', 'reporters/reporter.py:_build_index')],
 ['enolib.parse (return or exception)']),
prop('C02', 'The first malformed line is diagnosed, well-formed text is accepted',
 "A text is accepted exactly when every line follows the notation and fits the lines before it (items only under an open list, entries only under an open fieldset, continuations only after something continuable, sections at most one level deeper, multiline fields and escaped keys terminated) and all copies resolve. Otherwise the parse error names the kind of problem and the number of the first offending line.",
 ['inputs'], "every sequence of lines, every line over an alphabet of operators, blanks and text",
 "Unit tests pin one or two samples per error; the language is decided by one large backtracking pattern plus a state machine whose interactions (which operator is open after which line) are combinatorial.",
 ['grammar_regex.py', 'analyzer.py', 'errors/parsing.py'],
 [('line grammar', 'grammar_regex.py:Grammar.REGEX'), ('context-dependent line checks', 'analyzer.py:analyze'), ('diagnosis', 'errors/parsing.py')],
 ['enolib.parse: accepted or ParseError.text / .selection']),
prop('C03', 'The document tree mirrors the written lines',
 "Every element written in a document that follows the notation appears exactly once, in written order, under the section, list or fieldset it was written in, with the written kind and exactly the written key (without surrounding blanks or escape quotes), and nothing else appears. Sections nest by the number of their operators and may return to any shallower level.",
 ['inputs'], "every well-formed document without copies (which must be accepted), any key text including escaped keys",
 "The tests check small hand-written trees; duplicate keys, keys made of operators or quotes, and deep/shallow section returns combine without limit.",
 ['analyzer.py', 'grammar_regex.py', 'elements/section.py', 'elements/list.py', 'elements/fieldset.py', 'elements/section_element.py'],
 [('instruction tree building', 'analyzer.py:analyze'), ('instantiation of elements', 'elements/section.py:_instantiate_elements')],
 ['document.elements()', 'string_key()', 'yields_*()', 'items()', 'entries()']),
prop('C04', 'Values are returned exactly as written',
 "A value is the written text without surrounding blanks; direct continuations append directly, spaced continuations append after one space, empty continuations add nothing except that a spaced empty one makes the next non-empty piece spaced, and nothing written yields no value. A multiline value is the text between its two operator lines, verbatim and untrimmed.",
 ['inputs'], "every field, list item and fieldset entry with any sequence of continuations, blank lines and comments in between, and every multiline body",
 "Tests sample a handful of continuation sequences; the folding rule depends on the whole history of empty and spaced pieces, and multiline bodies are arbitrary text that may resemble operators.",
 ['context.py', 'analyzer.py', 'grammar_regex.py', 'elements/value_element_base.py', 'elements/field.py'],
 [('value folding', 'context.py:value'), ('multiline scanning', 'analyzer.py:analyze')],
 ['optional_string_value()', 'required_string_value()', 'optional_string_values()']),
prop('C05', 'Comments belong to the element directly below them',
 "An element's comment is the block of comment lines directly above it, with no blank or continuation line in between; detached comments belong to nothing. A single line is trimmed; in a block, leading and trailing empty lines are dropped, inner empty ones kept, and the common indentation removed while deeper indentation is preserved; a block without text is no comment.",
 ['inputs'], "every placement and indentation of comment lines around every kind of element",
 "Tests pin a few blocks; association depends on what separates each block from the next element and dedenting on the columns of all its lines.",
 ['context.py', 'analyzer.py', 'elements/element_base.py'],
 [('comment block association', 'analyzer.py:analyze'), ('dedent', 'context.py:comment')],
 ['optional_string_comment()', 'required_string_comment()']),
prop('C06', 'Copied fields, lists and fieldsets carry their template',
 "An element that copies another one has the template's content: its value, its items followed by the element's own items, or its entries except those whose key the element defines itself, followed by its own; an empty template copies as empty. It also takes the template's comment unless it has its own, and all this - the copy being accepted included - holds through chains of copies and regardless of whether template or copy comes first, without changing the template.",
 ['inputs', 'programs'], "every acyclic arrangement of copies among non-section elements anywhere in the document, in any order of declaration",
 "Tests cover single-step copies in one order; chains, comment inheritance, mixed own content and declaration orders multiply.",
 ['resolver.py', 'context.py', 'elements/list.py', 'elements/fieldset.py'],
 [('template consolidation', 'resolver.py:consolidate_non_section_elements'), ('mirror flattening', 'resolver.py:mirror'), ('merged entries and items', 'context.py:entries, items')],
 ['values, items, entries, comments of copies and templates']),
prop('C07', 'Copied sections merge shallowly or deeply as written',
 "A section that copies another one contains the template's elements, except those whose key it defines itself, followed by its own elements. A deep copy additionally merges, at every depth, a subsection that is the only element with its key on both sides (and names no template of its own) with its counterpart, unless that copies it in turn; a shallow copy replaces it. Comments are inherited unless own ones exist, templates stay unchanged, and such documents are accepted.",
 ['inputs', 'programs'], "every acyclic arrangement of shallow and deep section copies at any depth, in any order of declaration",
 "Tests cover a few two-level merges; multi-level merges, templates that are copies themselves, nested copies and declaration orders are never combined.",
 ['resolver.py', 'context.py', 'elements/section.py'],
 [('section consolidation', 'resolver.py:consolidate_sections'), ('resolution order', 'resolver.py:resolve_section'), ('merged elements', 'context.py:elements')],
 ['section.elements()', 'raw()']),
prop('C08', 'Unresolvable copies are rejected with the true cause',
 "Parsing fails exactly when some copy has no template in the document, several candidates for its template, a template of an incompatible kind, or leads back to itself through copies and containment; the error states such a cause, its key and a line where it really occurs. This does not depend on the order in which the elements are declared.",
 ['inputs', 'programs'], "every graph of copies between sections and non-section elements, nested or not, in every declaration order",
 "Cycles through chains and through containing sections, same-named candidates and self-named copies are graph properties; tests sample one or two graphs each.",
 ['resolver.py', 'errors/parsing.py'],
 [('template index', 'resolver.py:index'), ('cycle detection', 'resolver.py:resolve_section, resolve_non_section_element'), ('chain report', 'errors/parsing.py:cyclic_dependency')],
 ['enolib.parse: ParseError kind, key, line or success']),
prop('C09', 'Typed queries answer what the document contains',
 "Each query for a single element by optional key returns that element if exactly one matches and has the requested kind (an empty element also satisfies field, list and fieldset queries), and otherwise raises the validation error for too many, wrong kind or missing, or returns nothing or a placeholder when absence is allowed. Each query for many returns all matches in order, or raises if one has another kind; the same holds for fieldset entries, and values, keys and comments required but absent raise their error.",
 ['inputs', 'histories'], "every document x every sequence of queries with any key, on every reachable section, fieldset and list",
 "Tests call each accessor on one or two fixed documents; outcomes depend on multiplicity, kind, emptiness, copies and on what the same element was previously requested as.",
 ['elements/section.py', 'elements/section_element.py', 'elements/fieldset.py', 'elements/list.py', 'elements/element_base.py', 'elements/value_element_base.py', 'errors/validation.py'],
 [('single/multiple selection', 'elements/section.py:_element, _field, ...'), ('kind conversion', 'elements/section_element.py:to_*')],
 ['return values and ValidationError texts of every query method']),
prop('C10', 'Placeholders for absent elements behave consistently',
 "A query without requirement for an absent element returns a placeholder on which any chain of further queries works: optional accessors give nothing, plural accessors give nothing to iterate, further singular accessors give placeholders, and only a required accessor raises. That error reports the first missing element of the chain, with its kind and key, at the section or fieldset that really exists.",
 ['inputs', 'histories'], "every chain of accessor calls starting at an absent element, with or without keys",
 "The tests call a few accessors on one placeholder; the placeholder classes form a call graph whose chains are unbounded.",
 ['elements/missing/missing_element_base.py', 'elements/missing/missing_section.py', 'elements/missing/missing_fieldset.py', 'elements/missing/missing_list.py', 'elements/missing/missing_section_element.py', 'elements/missing/missing_value_element_base.py', 'elements/section.py', 'elements/fieldset.py'],
 [('delegated missing errors', 'elements/section.py:_missing_error'), ('placeholder accessors', 'elements/missing/')],
 ['return values and errors along placeholder chains']),
prop('C11', 'Untouched elements are never overlooked',
 "After any sequence of accesses, asserting that everything was touched succeeds exactly when each checked element - selected by the only and skip filters - was obtained as a concrete kind (through a kind-specific query or conversion) and then read (a key, comment, value, entry, item or explicit touch), including everything inside accessed sections, lists and fieldsets. Otherwise it raises an error for such an unread element, with the given or computed message; touching a container counts as touching everything in it.",
 ['inputs', 'histories'], "every document x every sequence of accesses x every filter and message",
 "Whether an element counts as touched depends on the full access history across nested containers; tests replay a few short fixed histories.",
 ['elements/section.py', 'elements/section_element.py', 'elements/fieldset.py', 'elements/list.py', 'elements/element_base.py'],
 [('touch flags', 'elements/element_base.py'), ('untouched search', 'elements/section.py:_untouched, assert_all_touched')],
 ['assert_all_touched(): returns or raises ValidationError']),
prop('C12', 'Required-by-default reaches everything below',
 "Once a section is told that all elements are required, every single-element query for an absent element on it, and on every section obtained from it before or afterwards, raises the missing-element error even for optional queries; likewise entries of fieldsets below it, or of a fieldset told so directly. Telling it the opposite restores the lenient behaviour, and siblings and parents are unaffected.",
 ['inputs', 'histories'], "every interleaving of the requirement switches with queries at all levels of the document",
 "Tests flip the switch once on a flat document; inheritance to containers obtained earlier or later depends on the order of calls.",
 ['elements/section.py', 'elements/fieldset.py'],
 [('propagation', 'elements/section.py:all_elements_required'), ('inheritance', 'elements/section.py:__init__, elements/fieldset.py:__init__')],
 ['queries after all_elements_required / all_entries_required']),
prop('C13', 'Error positions point exactly at the cause',
 "Every error carries a start and an end position whose line, column and absolute index describe the same place in the text, start not after end, and the error's cursor is the start. The selected text is the culprit: the whole malformed line, the template name of a cyclic copy, the key, comment block or value complained about, the whole extent of an unexpected element, or the place where something is missing.",
 ['inputs', 'histories'], "every parse error and every validation error reachable on any document",
 "Positions depend on indentation, escapes, continuations and on what precedes the element; tests compare a few recorded selections.",
 ['errors/selections.py', 'errors/validation.py', 'errors/parsing.py', 'analyzer.py', 'error_types.py'],
 [('cursors and selections', 'errors/selections.py'), ('ranges recorded per line', 'analyzer.py')],
 ['error.selection', 'error.cursor']),
prop('C14', 'Error snippets quote the document faithfully',
 "Each numbered line of an error's snippet shows exactly the document's line with that number, in increasing order, with gaps marked as omitted; the line the error is about is emphasised, the other lines involved are indicated or questioned, up to two lines of context follow and precede them, and only those. The error's message is its text followed by the snippet, with the source label shown when given.",
 ['inputs', 'histories', 'configurations'], "every error reachable on any document, with or without source label",
 "Snippets combine line indexing, tagging of nested elements and context windows at document edges; snapshot tests record a few.",
 ['reporters/reporter.py', 'reporters/text_reporter.py', 'error_types.py', 'analyzer.py'],
 [('line index', 'reporters/reporter.py:_build_index'), ('tagging', 'reporters/reporter.py:_tag_*'), ('context window', 'reporters/reporter.py:snippet')],
 ['error.snippet', 'error.message', 'error.text', 'str(error)']),
prop('C15', 'Lookup finds the element and token at a position',
 "For every valid position, lookup returns the element whose written extent contains it - the innermost one, or the enclosing section if none - and the kind of that element's token (or of a detached comment's) there, if any; comments attached to the next element are not tokens. Asking by absolute index and by the equivalent line and column gives the same answer, and positions outside the document raise an index error.",
 ['inputs'], "every accepted document x every index and every line/column in it",
 "Tests look up a few positions in one sample document; every character of every construct is a distinct position, and the two ways of asking are separate code.",
 ['lookup.py', 'elements/element.py', 'analyzer.py'],
 [('search by line', 'lookup.py:check_in_section_by_line'), ('search by index', 'lookup.py:check_in_section_by_index'), ('token choice', 'lookup.py:lookup')],
 ['enolib.lookup: element identity and range']),
prop('C16', 'The raw representation equals what queries report',
 "The raw representation of a document or of any element in it lists exactly the elements, items and entries that queries on the same object return, in the same order and nesting, with the same kinds, keys, values and comments. It is plain data (dictionaries, lists, strings and None) and taking it counts as no access.",
 ['inputs', 'histories'], "every accepted document, with copies, at every element, before and after any queries",
 "Tests compare raw output of small documents without copies; raw output and queries are computed by separate code paths.",
 ['context.py', 'elements/section.py', 'elements/fieldset.py', 'elements/list.py', 'elements/element_base.py'],
 [('raw', 'context.py:raw'), ('merged element order', 'context.py:elements, elements/section.py:_instantiate_elements')],
 ['raw()', 'queries']),
prop('C17', 'Loaders receive the exact text and report their errors in place',
 "A loader given to a key, comment, value or values accessor is called exactly once per present text with exactly that text and its result is returned unchanged; absent text never calls it. A ValueError it raises becomes a validation error carrying its message, any other exception passes through unchanged; a registered loader behaves identically under its registered accessor names on every kind of element, present or absent.",
 ['inputs', 'programs'], "every loader behaviour x every element kind x every registration form",
 "The tests register one loader and call it on one element; the accessors are created dynamically on many classes and loaders are arbitrary programs.",
 ['register.py', 'elements/element_base.py', 'elements/value_element_base.py', 'elements/field.py', 'elements/list.py', 'elements/missing/missing_value_element_base.py'],
 [('dynamic accessors', 'register.py:_register'), ('ValueError translation', 'elements/value_element_base.py:_value')],
 ['recorded loader calls', 'returned values', 'errors']),
prop('C18', 'Every language reports the same errors with the same facts',
 "Each shipped language can report every error the library raises, in its own translation as catalogued, with the same key, line number or message inserted in the same roles as in every other language. The chosen language changes texts and headings only, never acceptance, values, error kind, positions or the quoted lines.",
 ['inputs', 'configurations'], "every error reachable on any document x every shipped locale",
 "Tests check that message modules exist and use English almost everywhere; a missing or swapped placeholder only shows when that error is raised in that language.",
 ['messages/en.py', 'messages/de.py', 'messages/es.py', 'errors/validation.py', 'errors/parsing.py'],
 [('message catalogues', 'messages/'), ('message selection', 'errors/validation.py')],
 ['error.text and selection under each locale']),
prop('C19', 'Documents are independent and queries do not interfere',
 "Asking a document never changes its answers: the same question gives the same answer whenever it is asked and whatever was asked before, apart from touch tracking and the requirement switches, and asking for the same element as another kind raises a type error rather than corrupting it. Documents never influence each other, whether created in any order, with different options, or used from several threads at once, each thread with its own document.",
 ['histories', 'schedules', 'configurations'], "every interleaving of queries on one document, and of operations on several documents in one or several threads",
 "Lazy caches make every answer depend on earlier queries and shared state between documents only shows with several alive at once; tests use a fresh document per assertion.",
 ['context.py', 'elements/section.py', 'elements/section_element.py', 'elements/fieldset.py', 'elements/list.py', 'resolver.py', 'errors/selections.py'],
 [('lazy caches', 'context.py'), ('instantiated elements', 'elements/')],
 ['all query results across permuted histories and threads']),
prop('C20', 'Accessors never fail with undocumented errors',
 "Every public method and the printable representation of every object reachable from a parsed document - document, sections, elements, fields, lists, items, fieldsets, entries, empties, placeholders and lookup results - either returns or raises a validation error, or a type error when an element is requested as a second kind. Asking for the parent returns the containing section, list or fieldset, and nothing for the document.",
 ['inputs', 'histories'], "every document x every reachable object x every public method, in any order",
 "The suite exercises each method on one well-behaved object; misspelled attributes and missing cases lie dormant until that method is called on that kind of object.",
 ['elements/element_base.py', 'elements/element.py', 'elements/section.py', 'elements/section_element.py', 'elements/field.py', 'elements/fieldset.py', 'elements/fieldset_entry.py', 'elements/list.py', 'elements/list_item.py', 'elements/empty.py', 'errors/validation.py', 'reporters/reporter.py'],
 [('element classes', 'elements/'), ('error factories', 'errors/validation.py')],
 ['every public method call: outcome class', 'parent()', 'repr()']),
prop('C21', 'All report formats show the same report',
 "For the same error, the HTML and the terminal report show the same numbered lines with the same text and the same emphasis as the plain text report, in the same order and with the same omissions. In HTML every piece of document text or source label is escaped, so that it renders as itself and can never become markup.",
 ['inputs', 'configurations'], "every error reachable on any document x every shipped reporter x any source label",
 "Each reporter formats lines with its own code; tests record one or two snippets per format, none with hostile text.",
 ['reporters/html_reporter.py', 'reporters/terminal_reporter.py', 'reporters/text_reporter.py', 'reporters/reporter.py'],
 [('formatting', 'reporters/html_reporter.py:_line, _markup'), ('highlighting', 'reporters/terminal_reporter.py:_line')],
 ['error.snippet under each reporter']),
prop('C22', 'Application-raised errors are anchored and worded as asked',
 "An error requested for an element, its key, its comment or its value carries the given message - or the one computed from the element, key, comment or value respectively - worded with the catalogue's frame for that kind, and is returned rather than raised. Its position and snippet refer to that element's written place, for copies to the place of the copy.",
 ['inputs', 'histories'], "every element of every document x every kind of error request x plain or computed message",
 "Tests request these errors on one field; continuations, multiline bodies, copies, items and entries each select different places.",
 ['errors/validation.py', 'elements/element_base.py', 'elements/value_element_base.py', 'errors/selections.py'],
 [('error factories', 'errors/validation.py:value_error, key_error, comment_error, element_error')],
 ['errors returned by error(), key_error(), comment_error(), value_error()']),
prop('C23', 'Insignificant whitespace never changes meaning',
 "Indenting lines, adding blanks around operators, keys and values, adding trailing blanks or carriage returns, or adding blank lines between elements outside comment blocks and multiline bodies changes neither acceptance nor any key, value, comment, kind or order in the document. Inside multiline bodies all whitespace is kept.",
 ['inputs'], "every accepted document x every re-spacing of it, with any unicode blank",
 "Generated whitespace tests cover one or two blanks per operator in isolation; re-spacing whole documents with unusual blanks is never tried.",
 ['grammar_regex.py', 'analyzer.py', 'context.py'],
 [('blank-skipping in every pattern', 'grammar_regex.py')],
 ['raw() of a document and of its re-spaced variants']),
prop('C24', 'Effort grows in proportion to the document',
 "Parsing a document, reading all its elements in order or each by its own key, taking its raw representation, touching and asserting everything, looking up a position, and producing one error with its report take effort proportional to the size of the document, whatever it consists of - well-formed or malformed, lines, items, entries, sections, comments, long runs of blanks or operators, or copies of a template of bounded size.",
 ['inputs', 'configurations'], "every way of growing a document by repeating pieces of it x every such operation x every shipped reporter",
 "Tests use documents of a few lines, on which proportional, quadratic and cubic effort look the same; the line pattern, the searches for terminators and templates, and the report index each become the bottleneck on different shapes only.",
 ['grammar_regex.py', 'analyzer.py', 'resolver.py', 'context.py', 'lookup.py', 'elements/section.py', 'elements/fieldset.py', 'errors/parsing.py', 'reporters/reporter.py'],
 [('line pattern without nested repetition', 'grammar_regex.py:Grammar.REGEX'), ('terminator search', 'analyzer.py:analyze'), ('template and element indices', 'resolver.py:index, elements/section.py'), ('report index', 'reporters/reporter.py:_build_index')],
 ['executed steps and CPU time of parse, queries, raw, assertions, errors, lookup at growing sizes']),
]
def js(*a):
    return prop(*a, P='javascript/lib/')
PROPS += [
js('C25', 'JavaScript: text is read as written or rejected at its first bad line',
 "In the JavaScript library parsing any string returns a document or throws a parse error naming the kind of problem and the number of the first offending line, deterministically. The document of a well-formed text contains exactly the written elements, in order, with their kinds, keys (also those that are names of object members), values and comments as written. Blanks that have no meaning never change acceptance or content.",
 ['inputs', 'configurations'], "every string of characters of the basic plane x every shipped reporter, locale and source label",
 "The specs cover some hundred fixed documents; lines, blanks, keys and comments combine without limit, and the suite that is run here covers the Python library only.",
 ['analyze.js', 'context.js', 'grammar_matcher.js', 'errors/parsing.js', 'elements/section.js'],
 [('line grammar', 'grammar_matcher.js:GRAMMAR_REGEXP'), ('context-dependent line checks', 'analyze.js:analyze'), ('folding of values and comments', 'context.js')],
 ['parse, elements(), string values and comments through node']),
js('C26', 'JavaScript: copies have the content of their templates and their own',
 "In the JavaScript library a copied element or section has its template's content, completed or replaced by its own as the notation defines for fields, lists, fieldsets and (deeply or shallowly) copied sections, wherever the template is written, in chains of any length. Copies without template, with several candidates, of incompatible kind, or into themselves are rejected with the fitting error.",
 ['inputs'], "every arrangement of templates and copies, in any order, with chains, deep copies and cycles",
 "Specs copy one element or section from one template; chains, forward references, deep copies of copies and cycles through enclosing sections are not covered.",
 ['resolve.js', 'context.js', 'errors/parsing.js'],
 [('resolution', 'resolve.js:resolve'), ('merging', 'resolve.js:consolidateSections'), ('effective content', 'context.js:elements, entries, items, value')],
 ['queries on copies; parse errors']),
js('C27', 'JavaScript: queries, placeholders and requirement switches',
 "In the JavaScript library every query returns exactly the matching elements, of the requested kind, the same object each time, and throws a validation error blaming the right element when one is missing, of another kind or not single. Optional queries for absent elements return null, default ones a placeholder whose optional accessors are empty and whose required ones throw the error of the first missing element. The switches that make elements required by default apply to single-element queries on everything below, obtained earlier or later, until switched back.",
 ['histories', 'inputs'], "every history of calls on a document and what it returns",
 "Specs call one method on one prepared object; histories of calls, caches of converted elements and chains of placeholders are not covered.",
 ['elements/section.js', 'elements/fieldset.js', 'elements/list.js', 'elements/section_element.js', 'elements/missing/missing_section.js', 'errors/validation.js'],
 [('queries', 'elements/section.js'), ('placeholders', 'elements/missing/'), ('requirement propagation', 'elements/section.js:allElementsRequired')],
 ['return values and thrown errors of queries']),
js('C28', 'JavaScript: untouched elements are never overlooked',
 "In the JavaScript library, after any sequence of accesses, asserting that everything was touched succeeds exactly when each checked element - selected by the filters for keys to consider or to leave out - was obtained as a concrete kind and then read (a key, comment, value, entry, item or explicit touch), including everything inside accessed sections, lists and fieldsets. Otherwise it throws an error for such an unread element, with the given or computed message; touching a container counts as touching everything in it.",
 ['histories', 'inputs'], "every history of queries and touches before an assertion with any filter and message",
 "Specs assert on small documents after one query; nested containers, copies, fieldsets and combinations of filters are not covered.",
 ['elements/section.js', 'elements/fieldset.js', 'elements/section_element.js', 'elements/list.js'],
 [('ledger', 'elements/section.js:assertAllTouched, touch')],
 ['assertAllTouched on sections and fieldsets']),
js('C29', 'JavaScript: errors point to the right place and reports show it',
 "In the JavaScript library every error, thrown or requested for an element, its key, comment or value, selects exactly the offending text with consistent lines and columns, and carries the given message in the frame of the language. Its snippet shows the document's lines around it with correct numbers and marks, and text, html and terminal reports agree, with everything from the document and the source label escaped in html.",
 ['inputs', 'histories', 'configurations'], "every error on every document x every reporter x every source label",
 "Snapshots pin some dozens of reports; which lines are shown and marked depends on continuations, comments, copies and blanks in combination.",
 ['errors/parsing.js', 'errors/validation.js', 'errors/selections.js', 'reporters/reporter.js', 'reporters/html_reporter.js', 'reporters/terminal_reporter.js', 'reporters/text_reporter.js', 'elements/element_base.js'],
 [('selections', 'errors/selections.js'), ('tagging of lines', 'reporters/reporter.js'), ('error factories', 'errors/')],
 ['text, snippet and selection of errors']),
js('C30', 'JavaScript: lookup finds what is written, raw reports what is read',
 "In the JavaScript library looking up any index or any line and column of a document returns the element that owns this line, with parents and values, and the kind of token found there; positions outside are refused. raw() of the document and of every element reports the same keys, kinds, values, comments and order as the queries do, before or after them.",
 ['inputs', 'histories'], "every position of every accepted document; every element of it before and after queries",
 "Specs look up some positions of two documents, and compare raw() of small ones.",
 ['lookup.js', 'elements/section.js', 'elements/section_element.js', 'context.js'],
 [('lookup', 'lookup.js'), ('raw content', 'context.js:raw')],
 ['lookup results, raw()']),
js('C31', 'JavaScript: loaders run once on exact text and report errors in place',
 "In the JavaScript library a loader, passed inline or registered, is called exactly once per access with exactly the value, comment or key, its result is returned unchanged (also when falsy or null), and what it throws becomes a validation error with that message at the value, comment or key. For absent values and comments it is not called: optional accessors give null and required ones throw the missing-value or missing-comment error.",
 ['histories', 'inputs', 'fault_sequences'], "every accessor on every element x every loader, returning or throwing anything",
 "Specs use a few loaders on one field; comments, keys, lists, copies, placeholders and registered names are not covered.",
 ['elements/value_element_base.js', 'elements/element_base.js', 'elements/list.js', 'elements/missing/missing_value_element_base.js', 'register.js'],
 [('loader calls', 'elements/value_element_base.js'), ('registration', 'register.js')],
 ['calls recorded by loaders; results and errors of accessors']),
js('C32', 'JavaScript: every language says what the catalogue says',
 "In the JavaScript library every message in every shipped language is the published translation with the arguments filled in, and choosing a language changes nothing but wording: acceptance, content, selections, kinds of errors and marked lines stay the same.",
 ['configurations', 'inputs'], "every message x every language; every error of every document in each language",
 "Specs check the default language; the other catalogues are only loaded.",
 ['messages/en.js', 'messages/de.js', 'messages/es.js', 'errors/parsing.js', 'errors/validation.js'],
 [('catalogues', 'messages/')],
 ['texts and report headings in each language']),
js('C33', 'JavaScript: only documented errors are thrown',
 "In the JavaScript library every public method of every document, element, placeholder and lookup result either returns or throws a validation error (or refuses to treat an element as a second kind); errors of the runtime never escape. Parents are the containing objects.",
 ['histories', 'inputs'], "every public method on every reachable object after every history",
 "Specs call methods on objects prepared for them; methods of objects reached through lookup, copies or conversions are not called.",
 ['elements/section.js', 'elements/section_element.js', 'elements/element.js', 'elements/fieldset.js', 'elements/list.js', 'elements/missing/missing_section.js', 'lookup.js'],
 [('public methods', 'elements/')],
 ['outcome of every public method']),
js('C34', 'JavaScript: answers do not depend on what was asked before',
 "In the JavaScript library a question asked of a document has the same answer, asked first, later, repeatedly or after other documents were parsed, queried, spoiled or rejected with other options, as it has in a fresh process; only treating an element as a second kind is refused.",
 ['histories', 'schedules'], "every order of questions, interleaved between documents",
 "Specs use each document once; shared patterns, caches, indices and error templates show only across calls and documents.",
 ['analyze.js', 'grammar_matcher.js', 'elements/section.js', 'elements/section_element.js', 'errors/selections.js', 'context.js'],
 [('shared pattern', 'grammar_matcher.js:GRAMMAR_REGEXP'), ('caches', 'elements/section.js'), ('selections', 'errors/selections.js')],
 ['answers to questions']),
js('C35', 'JavaScript: effort grows in proportion to the document',
 "In the JavaScript library parsing a document, reading its elements in order or each by its own key, taking its raw representation, asserting everything, looking up a position and producing one error take effort proportional to the size of the document, whatever it consists of: well-formed or malformed, many lines of any kind, long runs of blanks, or many copies of a template of bounded size.",
 ['inputs', 'configurations'], "every way of growing a document by repeating pieces of it x every such operation",
 "Specs use documents of a few lines.",
 ['grammar_matcher.js', 'analyze.js', 'resolve.js', 'context.js', 'lookup.js', 'elements/section.js', 'reporters/reporter.js'],
 [('line pattern', 'grammar_matcher.js:GRAMMAR_REGEXP'), ('indices', 'resolve.js, elements/section.js'), ('report index', 'reporters/reporter.js')],
 ['block execution counts and CPU time at growing sizes']),
prop('C36', 'Debug representations name kind, key and content',
 "repr() of every document, section, list, fieldset, field, entry, item, empty element, undetermined element and placeholder is one line that names its kind, its key (a document says so instead; placeholders asked for without key and list items have none) and its value (in full up to 14 characters, otherwise the first 11 and '...', line feeds as backslash n, None when absent) or the number of its elements, entries or items. Taking it changes no later answer, assertions included.",
 ['inputs', 'histories'], "every object and placeholder of every document x every moment of every history of calls",
 "Tests look at the representation of about one object per class with a short plain value; line feeds, lengths around the limit, copies and placeholders of placeholders are not covered, nor the effect on later calls.",
 ['elements/value_element_base.py', 'elements/section.py', 'elements/list.py', 'elements/fieldset.py', 'elements/field.py', 'elements/section_element.py', 'elements/missing/missing_section.py'],
 [('shortened value', 'elements/value_element_base.py:_print_value'), ('counts of elements', 'elements/section.py:__repr__')],
 ['repr() of every object']),
js('C37', 'JavaScript: debug representations name kind, key and content',
 "In the JavaScript library toString() of every document, section, list, fieldset, field, entry, item, empty element and placeholder is one line that names its kind, its key (a document says so instead; placeholders asked for without key and list items have none) and its value (in full up to 14 characters, otherwise the first 11 and '...', line feeds as backslash n, null when absent) or the number of its elements, entries or items. Taking it changes no later answer, assertions included.",
 ['inputs', 'histories'], "every object and placeholder of every document x every moment of every history of calls",
 "Specs look at one object per class with a short plain value.",
 ['elements/value_element_base.js', 'elements/section.js', 'elements/list.js', 'elements/fieldset.js', 'elements/field.js', 'elements/missing/missing_section.js'],
 [('shortened value', 'elements/value_element_base.js:_printValue'), ('counts of elements', 'elements/section.js:toString')],
 ['toString() of every object']),
prop('C38', 'Generated message catalogues say what translators wrote',
 "Running locales/generate.js writes, for every language of the specification, a Python and a JavaScript catalogue that load and in which each message (terminology left out) takes exactly the specified arguments and says the translation with the arguments in their places, whatever characters the translation contains; likewise catalogues for PHP and Ruby. The .po files keep every existing translation and list exactly the specified messages; missing translations and unused arguments are reported; a second run changes nothing. A specification with wrongly titled or ordered messages or unknown sections is refused before any catalogue is touched.",
 ['inputs', 'configurations'], "every specification of languages, groups, messages and arguments x every set of existing translations, complete, partial, outdated or missing",
 "No test runs the generator; its output has only ever been seen for the translations at hand, which contain no double quote, backslash, brace or dollar sign.",
 ['locales/generate.js', 'locales/generators/python.js', 'locales/generators/javascript.js', 'locales/generators/php.js', 'locales/generators/ruby.js', 'utilities.js'],
 [('reading the specification, rewriting .po files', 'locales/generate.js:generate'), ('catalogue code', 'locales/generators/'), ('layout of generated code', 'utilities.js:interpolatify')],
 ['generated catalogues, executed; rewritten .po files; console output'], P=''),
prop('C39', 'Documents leave nothing behind and take memory in proportion',
 "Once a program has let go of a document, of what it obtained from it and of errors raised about it (cyclic garbage collected), nothing of it is left in memory: no object of the library is alive, memory does not grow with the number of documents, lookups or errors, however often and on whatever texts, accepted or rejected, in every language and report format; plain results (texts, raw(), selections) kept by the program keep no document alive. The memory parsing, reading and reporting need at their peak is proportional to the size of the text.",
 ['inputs', 'histories'], "every sequence of documents, lookups, calls and errors, however long x every text, however large",
 "Tests never look at memory and handle a handful of small documents; a cache keyed by text, a registry of objects or a kept error passes them all.",
 ['context.py', 'analyzer.py', 'lookup.py', 'register.py', 'errors/validation.py', 'reporters/reporter.py'],
 [('state per document', 'context.py:Context'), ('terminators compiled per key', 'analyzer.py:analyze'), ('state at module level', 'register.py, messages/, reporters/')],
 ['live objects by class, allocated blocks and traced peak memory, between rounds of documents']),
js('C40', 'JavaScript: documents leave nothing behind, take memory in proportion',
 "In the JavaScript library, once a program has let go of a document, of what it obtained from it and of errors thrown about it (garbage collected), nothing of it is left in memory: no object of the library is alive, memory does not grow with the number of documents, lookups or errors, on whatever texts, accepted or rejected, in every language and report format; plain results (texts, raw(), selections) kept by the program keep no object of the library alive. The memory a parsed and read document takes is proportional to the size of the text.",
 ['inputs', 'histories'], "every sequence of documents, lookups, calls and errors, however long x every text, however large",
 "Specs never look at memory and handle a handful of small documents.",
 ['context.js', 'analyze.js', 'lookup.js', 'register.js', 'errors/validation.js', 'reporters/reporter.js'],
 [('state per document', 'context.js:Context'), ('terminators compiled per key', 'analyze.js:analyze'), ('state at module level', 'register.js, messages/, reporters/')],
 ['objects of the classes of the library in the heap and bytes of heap in use, between rounds of documents']),
prop('C41', 'What holds for small documents holds for documents of every size',
 "Documents are read, refused, queried, looked up, asserted, reported on and positioned the same way however large they are: hundreds of thousands of lines, elements, items, entries, continuations, comments, copies or characters in one value, key, operator or run of blanks change neither acceptance nor content, order, line numbers, indices, ownership of positions, ambiguity and absence errors, the error a malformed line gets, nor the report quoting it. No count is limited by recursion, argument counts, identity of small numbers, compiled patterns or buffers.",
 ['inputs'], "every document x every number of repetitions of every construct",
 "Tests use documents of a few dozen lines; limits of the platform (recursion, sizes of patterns and argument lists, interned numbers, digits) only show beyond hundreds or hundreds of thousands.",
 ['analyzer.py', 'context.py', 'resolver.py', 'lookup.py', 'reporters/reporter.py', 'elements/section.py'],
 [('scanning loop', 'analyzer.py:analyze'), ('folding of continuations and comments', 'context.py:Context'), ('ownership of lines', 'lookup.py:lookup'), ('row numbers', 'reporters/reporter.py')],
 ['outcome, raw(), values, lookup results, selections and reports of large documents']),
js('C42', 'JavaScript: what holds for small documents holds for those of every size',
 "In the JavaScript library under a node process's default limits, documents are read, refused, queried, looked up, asserted, reported on and positioned the same way however large they are: hundreds of thousands of lines, elements, items, entries, continuations, comments, copies or characters in one value, key, operator or run of blanks change neither acceptance nor content, order, line numbers, indices, ownership of positions, ambiguity and absence errors, the error a malformed line gets, nor the report quoting it.",
 ['inputs'], "every document x every number of repetitions of every construct",
 "Specs use documents of a few dozen lines; limits of the engine (stack, argument lists, sizes of patterns, lexicographic sorting) only show beyond tens or hundreds of thousands.",
 ['analyze.js', 'context.js', 'resolve.js', 'lookup.js', 'reporters/reporter.js', 'elements/section.js', 'elements/fieldset.js', 'elements/list.js'],
 [('scanning loop', 'analyze.js:analyze'), ('folding of continuations and comments', 'context.js:Context'), ('ownership of lines', 'lookup.js:lookup'), ('collecting entries and items', 'elements/fieldset.js, elements/list.js')],
 ['outcome, raw(), values, lookup results, selections and reports of large documents']),
prop('C43', 'Generated tests check what the blueprints say',
 "Running specs/generate.js writes, for every blueprint, Python and JavaScript tests that load and in which every expectation of every test section (titles different from one another as identifiers) is one test, in order: it runs the written code on exactly the written input (any characters), passes when the library does what the blueprint expects - the kind of error, and its text, snippet and selection as far as given; the text, the value or nothing returned; merely passing - and fails when the library differs in any of these. Likewise files for PHP and Ruby. Outdated tests are removed. A blueprint with a missing, malformed or unknown part is refused before any generated test is touched.",
 ['inputs', 'faults'], "every set of blueprints: every input, text, snippet, code, title and combination of expectations x every answer of the library",
 "No test runs the generator; its output has only ever been seen for the blueprints at hand, which contain no placeholder syntax, carriage return or title with a backslash.",
 ['specs/generate.js', 'specs/source.js', 'specs/generators/python.js', 'specs/generators/javascript.js', 'specs/generators/php.js', 'specs/generators/ruby.js', 'utilities.js'],
 [('reading blueprints', 'specs/source.js'), ('test code', 'specs/generators/'), ('quoting of texts and layout of code', 'utilities.js')],
 ['generated tests, executed against a stand-in library; inputs it was given; verdicts'], P=''),
]
if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for p in PROPS:
            assert len(p['title']) <= 80, p['id']
            f.write(json.dumps(p) + '\n')
