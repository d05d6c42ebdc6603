// Runs specs/generate.js of a copy of the repository (argv[2]) with stand-ins for packages that are not installed, then
// executes the JavaScript tests it wrote against a stand-in of the library that does what the scenarios (stdin) say.
const fs = require('fs');
const Module = require('module');
const path = require('path');
const util = require('util');

const root = process.argv[2];
const scenarios = JSON.parse(fs.readFileSync(0, 'utf-8'));
const tell = answer => { fs.writeSync(1, JSON.stringify(answer) + '\n'); process.exit(0); };

const walk = (folder, prefix = '') => fs.readdirSync(folder, { withFileTypes: true }).flatMap(entry =>
  entry.isDirectory() ? walk(path.join(folder, entry.name), prefix + entry.name + '/') : [prefix + entry.name]);
const glob = (pattern, { cwd }) => walk(cwd).filter(file => file.endsWith(path.extname([].concat(pattern)[0])));
const fastGlob = async (...args) => glob(...args);
fastGlob.sync = glob;

const emptyDirSync = d => { fs.rmSync(d, { recursive: true, force: true }); fs.mkdirSync(d, { recursive: true }); };
const ensureFileSync = f => { fs.mkdirSync(path.dirname(f), { recursive: true }); if(!fs.existsSync(f)) fs.writeFileSync(f, ''); };
const ensureDirSync = d => { fs.mkdirSync(d, { recursive: true }); };
const outputFileSync = (f, s) => { fs.mkdirSync(path.dirname(f), { recursive: true }); fs.writeFileSync(f, s); };
const extra = { ...fs, ...fs.promises, emptyDirSync, ensureFileSync, ensureDirSync, outputFileSync };
for(const name of ['emptyDir', 'ensureFile', 'ensureDir', 'outputFile'])
  extra[name] = async (...args) => extra[name + 'Sync'](...args);

const standIns = {
  'fast-glob': fastGlob,
  'fs-extra': extra,
  'speakingurl': text => text.toLowerCase().replace(/[^a-z0-9]+/g, '_').replace(/^_+|_+$/g, '')
};
const load = Module._load;
Module._load = function(request, ...rest) {
  return standIns[request] || load.call(this, request, ...rest);
};

class LibraryError extends Error {}
class ParseError extends LibraryError {}
class ValidationError extends LibraryError {}
const classes = { ParseError, ValidationError, Error: LibraryError };

class Mismatch extends Error {}
const expect = actual => {
  const must = ok => { if(!ok) throw new Mismatch('mismatch'); };
  const matchers = {
    toBe: x => must(Object.is(actual, x)),
    toEqual: x => must(util.isDeepStrictEqual(actual, x)),
    toStrictEqual: x => must(util.isDeepStrictEqual(actual, x)),
    toBeInstanceOf: x => must(actual instanceof x),
    toBeNull: () => must(actual === null),
    toBeTruthy: () => must(actual),
    toBeFalsy: () => must(!actual)
  };
  return matchers;
};

const run = file => {
  const found = [], stack = [];
  const describe = (name, f) => { stack.push(name); f(); stack.pop(); };
  const it = (name, f) => { found.push({ path: [...stack], name, f }); };
  let current = null;
  const act = input => {
    current.inputs.push(input);
    const outcome = current.outcome;
    if(outcome.stop) throw new Error('stop');
    if(outcome.error) {
      const e = new (classes[outcome.error.type] || Error)('reported');
      throw Object.assign(e, outcome.error);
    }
    return outcome.value;
  };
  const anything = () => new Proxy(function() {}, { get: (_, k) => k === Symbol.toPrimitive ? () => '' : anything(), apply: anything, construct: anything });
  const library = { parse: act, act, lookup: act, register: () => {}, Error: LibraryError, ParseError, ValidationError };
  const proxied = new Proxy(library, { get: (t, k) => k in t ? t[k] : anything() });
  const required = [];
  const folder = path.join(root, 'javascript/specs/generated');
  const requiring = request => {
    required.push(path.resolve(path.dirname(path.join(folder, file)), request));
    return proxied;
  };
  new Function('require', 'describe', 'it', 'test', 'expect', fs.readFileSync(path.join(folder, file), 'utf-8'))(requiring, describe, it, it, expect);
  return {
    required: required.map(r => path.relative(root, r)),
    tests: found.map(({ path: titles, name, f }) => {
      const wanted = (scenarios[file.replace(/\.spec\.js$/, '')] || {})[titles.join(' ')] || {};
      const outcomes = (/throws/.test(name) ? wanted.error : wanted.result) || [{ stop: true }];
      return {
        title: titles.join(' '), name,
        runs: outcomes.map(outcome => {
          current = { outcome, inputs: [] };
          let passed = true, problem = null;
          try { f(); } catch(e) { passed = false; problem = `${e.name}: ${e.message}`; }
          return { passed, problem, inputs: current.inputs };
        })
      };
    })
  };
};

const failed = e => tell({ failed: e instanceof Error ? `${e.name}: ${e.message}` : String(e) });
process.on('unhandledRejection', failed);
process.on('uncaughtException', failed);
process.on('beforeExit', () => {
  const files = {};
  const folder = path.join(root, 'javascript/specs/generated');
  for(const file of fs.existsSync(folder) ? walk(folder).sort() : []) {
    try {
      files[file] = run(file);
    } catch(e) {
      files[file] = `${e.name}: ${e.message}`;
    }
  }
  tell({ files });
});
require(path.join(root, 'specs/generate.js'));
