"""Writes MANIFEST.json and the fixed list of known_findings.json from the checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.dont_write_bytecode = True
import checks
import javascript   # noqa: F401
import generation   # noqa: F401
import blueprints   # noqa: F401
import memory       # noqa: F401
import scale        # noqa: F401

TECHNIQUE = {
    'C01': 'runtime monitoring: outcome-class monitor and replay determinism under hostile input, also across processes with different hash seeds',
    'C02': 'runtime monitoring: online comparison with an independent line scanner and state machine',
    'C03': 'runtime monitoring: walk of the returned tree against an independent scanner and abstract truth',
    'C04': 'runtime monitoring: values observed through queries against an independent reference and abstract truth',
    'C05': 'runtime monitoring: comments observed through queries against an independent reference',
    'C06': 'runtime monitoring: copied content observed through queries against declarative copy semantics',
    'C07': 'runtime monitoring: merged sections observed through queries against declarative merge semantics',
    'C08': 'runtime monitoring: verdicts checked against a copy-graph analysis',
    'C09': 'runtime monitoring: lock-step state-machine oracle over call histories',
    'C10': 'runtime monitoring: lock-step oracle over chains of calls on placeholders',
    'C11': 'runtime monitoring: shadow touch ledger kept in lock step with call histories',
    'C12': 'runtime monitoring: lock-step oracle over interleaved switches and queries',
    'C13': 'runtime monitoring: position-consistency invariants and reference selections on every error observed',
    'C14': 'runtime monitoring: parsed-back reports against the document and a reference of marks and context',
    'C15': 'runtime monitoring: exhaustive positions per document against reference line ownership',
    'C16': 'runtime monitoring: conservation check between raw() and queries on the same object',
    'C17': 'runtime monitoring: recording loaders checked for exactly-once and exact text',
    'C18': 'runtime monitoring: recording catalogue decoded and compared with the published catalogue across languages',
    'C19': 'runtime monitoring: question/answer log replay in other orders, among other documents and across threads with injected pre-emption',
    'C20': 'runtime monitoring: outcome-class monitor over every public method, histories and lookup results',
    'C21': 'runtime monitoring: differential monitor over the three report formats with real parsers',
    'C22': 'runtime monitoring: recorded message callbacks and reference anchors on every requested error',
    'C23': 'runtime monitoring: metamorphic monitor over re-spaced variants',
    'C24': 'runtime monitoring: step counter (sys.monitoring) and CPU-time monitor over growing documents',
    'C25': 'runtime monitoring through node: outcome classes, independent scanner and state machine, walk of the tree, metamorphic re-spacing',
    'C26': 'runtime monitoring through node: declarative copy and merge semantics, copy-graph analysis',
    'C27': 'runtime monitoring through node: lock-step state-machine oracle over call histories',
    'C28': 'runtime monitoring through node: shadow touch ledger in lock step with call histories',
    'C29': 'runtime monitoring through node: position invariants, reference selections and marks, differential monitor over report formats',
    'C30': 'runtime monitoring through node: reference line ownership at every position, conservation between raw() and queries',
    'C31': 'runtime monitoring through node: recording loaders checked for exactly-once and exact text',
    'C32': 'runtime monitoring through node: recording catalogue decoded and compared with the published one across languages',
    'C33': 'runtime monitoring through node: outcome-class monitor over every public method',
    'C34': 'runtime monitoring through node: question/answer log compared with a fresh process, in other orders and among other documents',
    'C36': 'runtime monitoring: representations against reference content, and a differential monitor over the same history with and without them',
    'C37': 'runtime monitoring through node: representations against reference content, and a differential monitor over the same history with and without them',
    'C38': 'runtime monitoring: the generator run in a scratch copy, its catalogues executed in both languages and compared with the translations',
    'C43': 'runtime monitoring: the generator run in a scratch copy, its tests run against a stand-in library that answers as expected or differs in one respect',
    'C39': 'runtime monitoring: live objects, allocated blocks and traced peaks of memory watched over rounds of documents in ever new words',
    'C40': 'runtime monitoring in node: objects and bytes in the heap watched over rounds of documents in ever new words',
    'C41': 'runtime monitoring: documents of up to 260000 lines or characters compared with what is known from writing them',
    'C42': 'runtime monitoring through node: documents of up to 260000 lines or characters compared with what is known from writing them',
    'C35': 'runtime monitoring through node: block execution counts of the engine and CPU time over growing documents',
}
FIXED = """
C05 6f697ec comment of an element with a single empty comment line raised KeyError
C16 601ba56 raw() of a section copied without own elements raised TypeError
C20 f6964c5 to_fieldset_entry() and to_list_item() raised AttributeError
C10 dbe5f19 Fieldset.entry() returned None instead of a placeholder
C11 71e6072 Fieldset.assert_all_touched() raised TypeError for an untouched entry
C20 e5b5f25 parent() of elements obtained through lookup raised AttributeError
C20 f3e4e6f Section.parent() returned None for sections and raised KeyError for the document
C12 d9e97a8 all_elements_required() raised AttributeError before its sections and fieldsets were queried
C14 030a491 snippets for sections containing empty elements or copied fieldsets raised TypeError
C21 35d4ba6 terminal reporter raised KeyError on lines with a deep copy operator
C01 ac019c7 terminal reporter raised KeyError when reporting an invalid line
C21 c4d3f74 html reporter did not escape the source label
C21 6aaac75 html reporter raised on source labels that are not strings
C08 97c8e63 cyclic section copies through enclosing sections raised UnboundLocalError
C08 556e0ad cyclic copies through enclosing sections blamed a copy that is not part of the cycle
C10 eef588f a required accessor on a missing empty element reported a missing element
C02 2aee6dd sections, elements and copies could span lines, which shifted all following line numbers
C10 5429912 length() was not available on the placeholder for a missing list
C16 b4b015f queries on a copied section listed its own elements before the copied ones, unlike raw()
C14 5e56b2e snippet of an unterminated multiline field on the last line showed a line that does not exist
C14 52ac461 snippets of parse errors showed the comment lines directly above the error as blank
C20 13e464d key and error accessors of the document raised KeyError
C22 1e4710d comment_error() of an element without comment raised KeyError
C20 a88296a key_error() and repr() of list items obtained through lookup raised KeyError
C11 5003382 touch() skipped everything that was not queried before
C15 627f6c4 lookup missed the continuations of the last item or entry
C15 7c1793c lookup by index did not report detached comments, unlike lookup by line
C07 974d99a deep copies did not merge with sections that their template itself copies
C08 eca9244 a chain of copies ending in a missing template raised KeyError
C12 3881979 all_elements_required() did not reach empty elements already queried as fieldsets
C07 2807767 deep copies replaced the template that a subsection explicitly copies
C19 9a67624 missing element errors of all documents shared one mutable selection
C01 c6db572 deep copies recursed endlessly when a template's subsection copies the very section it would be merged into
""".strip().split('\n')
if os.path.exists(os.path.join(HERE, 'tools', 'fixed_extra.txt')):
    FIXED += open(os.path.join(HERE, 'tools', 'fixed_extra.txt')).read().strip().split('\n')

manifest = {
    'version': 1,
    'setup_cmd': '/opt/venv/bin/python -B run.py --selftest',
    'checks': [{
        'property': id_,
        'quick_cmd': f"/opt/venv/bin/python -B run.py {id_} --tier quick",
        'thorough_cmd': f"/opt/venv/bin/python -B run.py {id_} --tier thorough",
        'evidence_file': f"evidence/{id_}.json",
        'technique': TECHNIQUE[id_],
        'level': 'exploration',
        'level_note': check.level_note,
    } for id_, check in sorted(checks.CHECKS.items())],
    'not_applicable': [],
}
json.dump(manifest, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
path = os.path.join(HERE, 'known_findings.json')
known = json.load(open(path))
known['fixed'] = ['fixed: property={} {} {}'.format(*l.split(' ', 2)) for l in FIXED]
json.dump(known, open(path, 'w'), indent=1)
