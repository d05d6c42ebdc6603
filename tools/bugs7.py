"""Bugs planted for the representations and the generated catalogues."""
BUGS = []
def bug(**k): BUGS.append(k)

bug(id='repr-own-elements', prop='C36', file='elements/section.py',
    old="""            return f"<class Section key=\\"{self._instruction['key']}\\" elements={len(self._elements())}>\"""",
    new="""            return f"<class Section key=\\"{self._instruction['key']}\\" elements={len(self._instruction['elements'])}>\"""",
    needs='a section that copies another section',
    breaks='the representation counts only the elements written in the section itself',
    demo='''
d = enolib.parse('# a\\nx: 1\\n\\n# b < a\\ny: 2')
assert repr(d.section('b')) == '<class Section key="b" elements=2>', repr(d.section('b'))
''')
bug(id='repr-limit', prop='C36', file='elements/value_element_base.py',
    old="if len(value) > 14:", new="if len(value) > 13:",
    needs='a value of exactly 14 characters', breaks='it is shortened although it fits',
    demo='''
assert repr(enolib.parse('a: 12345678901234').field('a')) == '<class Field key=a value=12345678901234>'
''')
bug(id='repr-touches-list', prop='C36', file='elements/list.py',
    old="items={len(self._items())}>", new="items={self.length()}>",
    needs='the representation of a list taken before an assertion that everything was read', breaks='the list counts as read',
    demo='''
def unread(show):
    l = enolib.parse('l:\\n- 1')
    e = l.list('l')
    if show:
        repr(e)
    for i in e._items():
        i.touch()
    try:
        l.assert_all_touched()
    except enolib.ValidationError:
        return True
    return False
assert unread(False) and unread(True)
''')
bug(id='repr-distinct-entries', prop='C36', file='elements/fieldset.py',
    old="entries={len(self._entries())}>", new="entries={len(self._entries(True))}>",
    needs='a fieldset with two entries of the same key', breaks='the representation counts keys instead of entries',
    demo='''
assert repr(enolib.parse('f:\\na = 1\\na = 2').fieldset('f')) == '<class Fieldset key=f entries=2>'
''')
bug(id='repr-value-touches', prop='C36', file='elements/value_element_base.py',
    old="        value = self._context.value(self._instruction)\n\n        if not value:", new="        value = self.optional_string_value()\n\n        if not value:",
    needs='the representation of a field taken before an assertion that everything was read', breaks='the field counts as read',
    demo='''
d = enolib.parse('a: 1')
repr(d.field('a'))
try:
    d.assert_all_touched()
except enolib.ValidationError:
    pass
else:
    raise SystemExit(1)
''')
bug(id='js-repr-own-items', prop='C37', file='elements/list.js',
    old="items=${this._items().length}]", new="items=${(this._instruction.items || this._items()).length}]",
    needs='a list that copies another list and adds items', breaks='the representation counts only the items written in the list itself',
    demo='''
const d = enolib.parse('a:\\n- 1\\n- 2\\n\\nb < a\\n- 3');
assert.strictEqual(`${d.list('b')}`, '[object List key=b items=3]');
''')
bug(id='js-repr-touches', prop='C37', file='elements/fieldset.js',
    old="entries=${this._entries().length}]", new="entries=${this.entries().length}]",
    needs='the representation of a fieldset taken before an assertion that everything was read', breaks='the fieldset counts as read',
    demo='''
const d = enolib.parse('f:\\na = 1');
const f = d.fieldset('f');
`${f}`;
for(const e of f._entries()) e.touch();
assert(thrown(() => d.assertAllTouched()));
''')
bug(id='js-repr-empty-null', prop='C37', file='elements/value_element_base.js',
    old="    if(value.length > 14) {\n      value = value.substring(0, 11) + '...';", new="    if(value.length > 14) {\n      value = value.trim().substring(0, 11) + '...';",
    needs='a long multiline value that begins with blanks', breaks='the representation leaves the blanks out',
    demo='''
assert.strictEqual(`${enolib.parse('-- m\\n  23456789012345\\n-- m').field('m')}`, '[object Field key=m value=  234567890...]');
''')
bug(id='js-repr-placeholder', prop='C37', file='elements/missing/missing_fieldset.js',
    old="  toString() {\n    if(this._key === null)", new="  toString() {\n    if(this._parent)",
    needs='the representation of a placeholder for a missing fieldset', breaks='its key is left out',
    demo='''
assert.strictEqual(`${enolib.parse('a: 1').fieldset('f')}`, '[object MissingFieldset key=f]');
''')
GENERATE = '''
import json, os, re, shutil, subprocess, tempfile
here = os.path.dirname(os.path.abspath(__file__))
def generate(spec, po):
    """Runs the generator in a scratch copy with minimal stand-ins for packages that are not installed."""
    with tempfile.TemporaryDirectory() as t:
        for n in ('utilities.js', 'locales', 'javascript'):
            (shutil.copytree if os.path.isdir(n) else shutil.copy)(n, os.path.join(t, n))
        shutil.rmtree(t + '/locales/translations')
        for d in ('python/enolib/messages', 'php/src/messages', 'ruby/lib/enolib/messages', 'locales/translations'):
            os.makedirs(t + '/' + d)
        open(t + '/locales/specification.eno', 'w').write(spec)
        for code, text in po.items():
            open(t + '/locales/translations/' + code + '.po', 'w').write(text)
        stubs = {
            'gettext-parser': "exports.po = { parse: s => { const o = {}; const r = /msgid \\"(.*)\\"\\\\nmsgstr \\"(.*)\\"/g; let m; while((m = r.exec(s))) o[m[1]] = { msgstr: [m[2]] }; return { translations: { '': o } }; } };",
            'fs-extra': "const fs = require('fs'); exports.emptyDir = async d => { fs.rmSync(d, { recursive: true, force: true }); fs.mkdirSync(d, { recursive: true }); }; exports.ensureFile = async f => { if(!fs.existsSync(f)) fs.writeFileSync(f, ''); };",
            'enotype': "exports.commaSeparated = v => v.split(',').map(x => x.trim());",
            'speakingurl': 'module.exports = x => x;'}
        for name, code in stubs.items():
            os.makedirs(f'{t}/node_modules/{name}')
            open(f'{t}/node_modules/{name}/index.js', 'w').write(code)
        p = subprocess.run(['node', t + '/locales/generate.js'], capture_output=True, text=True)
        out = {'exit': p.returncode, 'said': p.stdout + p.stderr, 'py': {}, 'po': {}}
        for f in os.listdir(t + '/python/enolib/messages'):
            if f != '__init__.py':
                space = {}
                exec(open(t + '/python/enolib/messages/' + f).read(), space)
                out['py'][f[:-3]] = {k: v for k, v in space.items() if not k.startswith('__')}
        js = "const fs = require('fs'); const o = {}; for(const f of fs.readdirSync(process.argv[1])) o[f.slice(0, -3)] = Object.fromEntries(Object.entries(require(process.argv[1] + '/' + f)[f.slice(0, -3)]).map(([k, v]) => [k, typeof v === 'function' ? v('A', 'B', 'C') : v])); console.log(JSON.stringify(o));"
        out['js'] = json.loads(subprocess.run(['node', '-e', js, t + '/javascript/lib/messages'], capture_output=True, text=True).stdout)
        for f in os.listdir(t + '/locales/translations'):
            out['po'][f[:-3]] = open(t + '/locales/translations/' + f).read()
        return out
'''
bug(id='catalogue-argument-twice', prop='C38', file='/locales/generators/python.js', demo_py=True,
    old="translation = translation.replace(new RegExp(`\\\\[${argument}\\\\]`, 'g'), `{${snakeCased}}`);", new="translation = translation.replace(`[${argument}]`, `{${snakeCased}}`);",
    needs='a translation that uses the same argument twice', breaks='the second use is left as it is in the Python catalogue',
    demo=GENERATE + '''
r = generate('# Locales\\nde: German\\n\\n# Messages\\n## Parsing\\nBad:\\nKEY = Bad [KEY]\\n', {'de': 'msgid "Bad [KEY]"\\nmsgstr "[KEY] ist [KEY]"\\n'})
assert r['exit'] == 0, r
assert r['py']['de']['bad']('x') == 'x ist x', r
''')
bug(id='catalogue-names-two-words', prop='C38', file='/locales/generators/javascript.js', demo_py=True,
    old="replace(/[ \\-][a-z]/g, boundary", new="replace(/[ \\-][a-z]/, boundary",
    needs='a message whose name has more than two words', breaks='its name in the JavaScript catalogue is no identifier',
    demo=GENERATE + '''
r = generate('# Locales\\nde: German\\n\\n# Messages\\n## Parsing\\nOne Two Three: Bad\\n', {'de': 'msgid "Bad"\\nmsgstr "Schlecht"\\n'})
assert r['exit'] == 0 and r['js'].get('de') == {'oneTwoThree': 'Schlecht'}, r
''')
bug(id='catalogue-blank-translation', prop='C38', file='/locales/generate.js', demo_py=True,
    old="existingTranslation === undefined || existingTranslation.msgstr[0].match(/^\\s*$/)", new="existingTranslation === undefined",
    needs='an existing .po file with an entry that is not translated yet', breaks='it is no longer reported (and in English not filled in)',
    demo=GENERATE + '''
r = generate('# Locales\\nen: English\\n\\n# Messages\\n## Parsing\\nBad: It is bad\\n', {'en': 'msgid "It is bad"\\nmsgstr ""\\n'})
assert r['exit'] == 0 and r['py']['en']['bad'] == 'It is bad', r
''')
