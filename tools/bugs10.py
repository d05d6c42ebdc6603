BUGS = []
def bug(**k): BUGS.append(k)

# C43: demonstrations run specs/generate.js in a scratch copy with small stand-ins for the packages that are missing
RUN = r'''
import json, os, shutil, subprocess, tempfile, types, builtins
top = os.getcwd()
DRIVER = """
const fs = require('fs'), path = require('path'), Module = require('module');
const walk = (d, p = '') => fs.readdirSync(d, { withFileTypes: true }).flatMap(e => e.isDirectory() ? walk(path.join(d, e.name), p + e.name + '/') : [p + e.name]);
const own = {
  'fast-glob': async (_, { cwd }) => walk(cwd),
  'fs-extra': { emptyDir: async d => { fs.rmSync(d, { recursive: true, force: true }); fs.mkdirSync(d, { recursive: true }); }, ensureDir: async d => { fs.mkdirSync(d, { recursive: true }); },
                ensureFile: async f => { if(!fs.existsSync(f)) fs.writeFileSync(f, ''); } },
  'speakingurl': t => t.toLowerCase().replace(/[^a-z0-9]+/g, '_')
};
const load = Module._load;
Module._load = function(r, ...rest) { return own[r] || load.call(this, r, ...rest); };
process.on('unhandledRejection', e => { console.error(e); process.exit(3); });
require(process.argv[2] + '/specs/generate.js');
"""
def generate(blueprint, *, fails=False):
    root = tempfile.mkdtemp()
    try:
        shutil.copy(top + '/utilities.js', root)
        shutil.copytree(top + '/specs', root + '/specs', ignore=shutil.ignore_patterns('blueprints'))
        for d in ('specs/blueprints', 'javascript', 'python/tests/generated', 'php/spec', 'ruby/spec'):
            os.makedirs(root + '/' + d)
        shutil.copy(top + '/javascript/package.json', root + '/javascript')
        shutil.copytree(top + '/javascript/lib', root + '/javascript/lib')
        open(root + '/specs/blueprints/one.eno', 'w').write(blueprint)
        open(root + '/python/tests/generated/old.py', 'w').write('')
        open(root + '/driver.js', 'w').write(DRIVER)
        p = subprocess.run(['node', root + '/driver.js', root], capture_output=True, text=True)
        if fails:
            assert p.returncode == 3, (p.returncode, p.stderr)
            return os.path.exists(root + '/python/tests/generated/old.py')
        assert p.returncode == 0, p.stderr
        generate.php, generate.ruby = open(root + '/php/spec/generated/one.spec.php').read(), open(root + '/ruby/spec/generated/one.spec.rb').read()
        return open(root + '/python/tests/generated/test_one.py').read(), open(root + '/javascript/specs/generated/one.spec.js').read()
    finally:
        shutil.rmtree(root)

class ParseError(Exception): pass
class ValidationError(Exception): pass

def python(source, answer):
    """whether every test passes when the library gives the answer, and the inputs it was given"""
    inputs = []
    def parse(text):
        inputs.append(text)
        if isinstance(answer, Exception):
            raise answer
        return answer
    lib = types.SimpleNamespace(parse=parse, ParseError=ParseError, ValidationError=ValidationError)
    space = {'__builtins__': {**vars(builtins), '__import__': lambda n, *a: lib}}
    exec(source, space)
    ok = True
    for n, f in list(space.items()):
        if n.startswith('test_'):
            try: f()
            except Exception: ok = False
    return ok, inputs

def javascript(source, answer):
    code = """
    const assert = require('assert'); const inputs = []; let ok = true;
    const a = JSON.parse(process.argv[2]);
    class ParseError extends Error {} class ValidationError extends Error {}
    const lib = { ParseError, ValidationError, parse: i => { inputs.push(i); if(a && a.type) throw Object.assign(new ({ ParseError, ValidationError }[a.type])(''), a); return a; } };
    const expect = x => ({ toEqual: y => assert.deepStrictEqual(x, y), toBeNull: () => assert(x === null), toBeTruthy: () => assert(x), toBeInstanceOf: c => assert(x instanceof c) });
    const run = (n, f) => { try { f(); } catch(e) { ok = false; } };
    new Function('require', 'describe', 'it', 'expect', process.argv[1])(() => lib, (n, f) => f(), run, expect);
    console.log(JSON.stringify([ok, inputs]));
    """
    p = subprocess.run(['node', '-e', code, '--', source, json.dumps(answer)], capture_output=True, text=True)
    assert p.returncode == 0, p.stderr
    return tuple(json.loads(p.stdout))

def error(cls, text, snippet, selection):
    (a, b), (c, d) = selection
    e = cls('')
    e.text, e.snippet, e.selection = text, snippet, {'from': {'line': a, 'column': b}, 'to': {'line': c, 'column': d}}
    return e

CODE = """-- javascript
const output = enolib.parse(input);
-- javascript

-- python
output = enolib.parse(input)
-- python

php: x
ruby: x
"""
'''

bug(id='specs-selection-column', prop='C43', file='/specs/generators/python.js', demo_py=True,
    old="assert error.selection['to']['column'] == ${selection[1][1]}", new="assert error.selection['to']['column'] == ${selection[0][1]}",
    needs='a blueprint whose selection ends in another column than it begins', breaks='the generated Python test asserts the wrong column and fails on a correct library (or passes on a broken one)',
    demo=RUN + r'''
py, js = generate("# a\n\ninput: x\n\n## ParseError\n\nselection: [1,2] => [3,4]\n")
assert python(py, error(ParseError, '', '', ((1, 2), (3, 4))))[0]
assert not python(py, error(ParseError, '', '', ((1, 2), (3, 2))))[0]
''')
bug(id='specs-blank-lines', prop='C43', file='/utilities.js', demo_py=True,
    old="""  return '("' + text.replace(/\\n/g, '\\\\n"\\n "') + '")';""", new="""  return '("' + text.replace(/\\n+/g, breaks => '\\\\n'.repeat(Math.min(breaks.length, 2)) + '"\\n "') + '")';""",
    needs='an input, text or result with two or more blank lines in a row', breaks='the generated Python test uses a different text than the blueprint',
    demo=RUN + r'''
py, js = generate("# a\n\n-- input\nx\n\n\ny\n-- input\n\n" + CODE + "\n## Passes\n")
assert python(py, 1) == (True, ['x\n\n\ny']), python(py, 1)
''')
bug(id='specs-multiline-code', prop='C43', file='/utilities.js', demo_py=True,
    old="return index === 0 ? line : leadingSpace + line;", new="return index === 0 ? line : leadingSpace + line.trimLeft();",
    needs='code of several lines in a blueprint, with one indented further', breaks='the generated Python code loses its indentation and cannot be loaded',
    demo=RUN + r'''
py, js = generate("# a\n\ninput: x\n\n" + CODE.replace('output = enolib.parse(input)\n-- py', 'if True:\n    output = enolib.parse(input)\n-- py') + "\n## Passes\n")
assert python(py, 1) == (True, ['x'])
''')
bug(id='specs-nothing-and-empty', prop='C43', file='/specs/generators/javascript.js', demo_py=True,
    old="expectation = 'expect(output).toBeNull();';", new="expectation = 'expect(output || null).toBeNull();';",
    needs='a library that answers an empty text where the blueprint says nothing', breaks='the generated JavaScript test also passes on an empty text',
    demo=RUN + r'''
py, js = generate("# a\n\ninput: x\n\n" + CODE + "\n## Nothing\n")
assert javascript(js, None)[0] and not javascript(js, '')[0] and not javascript(js, 'x')[0]
''')
bug(id='specs-unfinished-blueprint', prop='C43', file='/specs/source.js', old="        nothingSection.touch();", new="        testSection.touch();",
    needs='a blueprint that expects nothing and contains an element the generator does not know', breaks='the mistake in the blueprint goes unnoticed', demo_py=True, demo=RUN + r'''
assert generate("# a\n\ninput: x\n\n" + CODE + "\nmisspelt: x\n\n## Nothing\n", fails=True)
''')
bug(id='specs-snippet-once', prop='C43', edits=[('/specs/generators/python.js', """        if(snippet) {
          expectations.push""", """        if(snippet && snippet !== text) {
          expectations.push""")],
    needs='an expected snippet that equals the expected text', breaks='the generated Python test does not look at the snippet', demo_py=True,
    demo=RUN + r'''
py, js = generate("# a\n\ninput: x\n\n## ParseError\n\ntext: same\nsnippet: same\n")
assert python(py, error(ParseError, 'same', 'same', ((0, 0), (0, 0))))[0]
assert not python(py, error(ParseError, 'same', 'other', ((0, 0), (0, 0))))[0]
''')
bug(id='specs-quote-first', prop='C43', file='/utilities.js', demo_py=True,
    old="  text = text.replace(/`/g, '\\\\`');   // escape quotes", new="  text = text.replace('`', '\\\\`');   // escape quotes",
    needs='a text with an even number of backticks after the first', breaks='the generated JavaScript test cannot be loaded or uses another text',
    demo=RUN + r'''
py, js = generate("# a\n\n-- input\n`x` = `y`: z\n-- input\n\n" + CODE + "\n## Passes\n")
assert javascript(js, 1) == (True, ['`x` = `y`: z'])
''')
bug(id='specs-error-and-result', prop='C43', edits=[('/specs/generators/python.js', "      if(test.hasOwnProperty('result')) {", "      else if(test.hasOwnProperty('result')) {")],
    needs='a blueprint with both an expected error and an expected result', breaks='the Python test of the result is not generated', demo_py=True,
    demo=RUN + r'''
py, js = generate("# a\n\ninput: x\n\n" + CODE + "\n## ValidationError\n\ntext: t\n\n## Passes\n")
assert py.count('def test_') == 2 and js.count("it('") == 2, (py, js)
''')

bug(id='specs-php-backslash', prop='C43', edits=[('/utilities.js', """  text = text.replace(/\\\\/g, '\\\\\\\\'); // escape backslashes
  text = text.replace(/"/g, '\\\\"');   // escape quotes

  return `"${text""", """  text = text.replace(/\\\\(?!n)/g, '\\\\\\\\'); // escape backslashes
  text = text.replace(/"/g, '\\\\"');   // escape quotes

  return `"${text""")], demo_py=True,
    needs='an input or text in which a backslash stands directly before an n', breaks='the generated PHP test uses a text with a line feed instead',
    demo=RUN + r"""
generate('# a\n\n-- input\na \\n b\n-- input\n\n## ParseError\n\ntext: c \\ d "e"\n')
assert r'a \\n b' in generate.php and r'c \\ d \"e\"' in generate.php, generate.php
""")
bug(id='specs-ruby-value', prop='C43', file='/specs/generators/ruby.js', demo_py=True,
    old="        if(snippet) {", new="        if(snippet && snippet !== text) {",
    needs='a blueprint whose error has the same text and snippet', breaks='the generated Ruby test does not check the snippet',
    demo=RUN + r"""
generate('# a\n\ninput: x\n\n## ParseError\n\ntext: same\n\nsnippet: same\n')
assert generate.ruby.count('"same"') == 2, generate.ruby
""")
