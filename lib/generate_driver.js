// Runs locales/generate.js of a copy of the repository (argv[2]) with stand-ins for packages that are not installed,
// then loads the JavaScript catalogues it wrote and reports every message in them (argv[3]: arguments to fill in).
const fs = require('fs');
const Module = require('module');
const path = require('path');

const root = process.argv[2];
const facts = JSON.parse(process.argv[3]);
const said = [];
console.log = console.info = console.warn = console.error = (...parts) => said.push(parts.map(String).join(' '));

const write = s => fs.writeSync(1, s);

// gettext-parser: the part of a .po file that matters here
const parsePo = input => {
  const out = {};
  let entry = null, field = null;
  for(const raw of String(input).split('\n')) {
    const line = raw.trim();
    const m = /^(msgid|msgstr)?\s*("(?:[^"\\]|\\.)*")$/.exec(line);
    if(m === null) {
      if(line !== '' && !line.startsWith('#')) throw new Error(`not a .po line: ${line}`);
      continue;
    }
    const text = m[2].slice(1, -1).replace(/\\(.)/g, (_, c) => ({ n: '\n', t: '\t', r: '\r' })[c] || c);
    if(m[1] === 'msgid') { entry = { id: '', str: '' }; field = 'id'; }
    if(m[1] === 'msgstr') field = 'str';
    entry[field] += text;
    if(field === 'str') out[entry.id] = { msgid: entry.id, msgstr: [entry.str] };
  }
  return { charset: 'utf-8', headers: {}, translations: { '': out } };
};

const emptyDirSync = d => { fs.rmSync(d, { recursive: true, force: true }); fs.mkdirSync(d, { recursive: true }); };
const ensureFileSync = f => { fs.mkdirSync(path.dirname(f), { recursive: true }); if(!fs.existsSync(f)) fs.writeFileSync(f, ''); };
const ensureDirSync = d => { fs.mkdirSync(d, { recursive: true }); };
const outputFileSync = (f, s) => { ensureFileSync(f); fs.writeFileSync(f, s); };
const extra = { ...fs, ...fs.promises, emptyDirSync, ensureFileSync, ensureDirSync, outputFileSync };
for(const name of ['emptyDir', 'ensureFile', 'ensureDir', 'outputFile'])
  extra[name] = async (...args) => extra[name + 'Sync'](...args);

const standIns = {
  'gettext-parser': { po: { parse: parsePo } },
  'fs-extra': extra,
  'enotype': { commaSeparated: value => value.split(',').map(item => item.trim()) },
  'speakingurl': text => text.toLowerCase().replace(/[^a-z0-9]+/g, '_')
};
const load = Module._load;
Module._load = function(request, ...rest) {
  return standIns[request] || load.call(this, request, ...rest);
};

const tell = answer => { write(JSON.stringify(Object.assign(answer, { said })) + '\n'); process.exit(0); };
const failed = e => tell({ failed: e instanceof Error ? `${e.name}: ${e.message}` : String(e) });
process.on('unhandledRejection', failed);
process.on('uncaughtException', failed);
process.on('beforeExit', () => {
  const catalogues = {};
  const folder = path.join(root, 'javascript/lib/messages');
  for(const file of fs.readdirSync(folder).sort()) {
    const code = file.replace(/\.js$/, '');
    const filled = {};
    delete require.cache[path.join(folder, file)];      // the library itself has loaded one of them
    try {
      for(const [name, message] of Object.entries(require(path.join(folder, file))[code]))
        filled[name] = typeof message === 'function' ? { text: message(...facts.slice(0, message.length)), count: message.length } : { text: message, count: 0 };
      catalogues[code] = filled;
    } catch(e) {
      catalogues[code] = `${e.name}: ${e.message}`;
    }
  }
  tell({ catalogues });
});
require(path.join(root, 'locales/generate.js'));
