// Uses documents with the JavaScript library of the repository given as argument, lets go of everything and tells what
// is still in memory. One JSON line per request and answer.
const fs = require('fs');
const v8 = require('v8');
const root = fs.realpathSync(process.argv[2]) + '/javascript/lib/';
const enolib = require(root + 'main.js');
const locales = {};
for(const name of ['en', 'de', 'es']) locales[name] = require(`${root}messages/${name}.js`)[name];
const reporters = { text: enolib.TextReporter, html: enolib.HtmlReporter, terminal: enolib.TerminalReporter };

const classes = new Set();
const classesOf = value => {
  if(typeof value === 'function' && value.prototype && Object.getOwnPropertyNames(value.prototype).length > 0) {
    if(/^class\b/.test(Function.prototype.toString.call(value))) classes.add(value);
  } else if(value && typeof value === 'object' && (Object.getPrototypeOf(value) === Object.prototype)) Object.values(value).forEach(classesOf);
};
for(const [file, module] of Object.entries(require.cache)) if(file.startsWith(root)) classesOf(module.exports);

// those that do not extend another one of the library: their descendants are counted with them
const roots = [...classes].filter(c => {
  for(let p = Object.getPrototypeOf(c); p && p !== Function.prototype; p = Object.getPrototypeOf(p)) if(classes.has(p)) return false;
  return true;
});

// --- nothing of the requests stays referenced by this program
const random = seed => () => {
  seed = (seed + 0x6D2B79F5) | 0;
  let t = Math.imul(seed ^ (seed >>> 15), 1 | seed);
  t = (t + Math.imul(t ^ (t >>> 7), 61 | t)) ^ t;
  return ((t ^ (t >>> 14)) >>> 0) / 4294967296;
};
const methods = object => {
  const names = new Set();
  for(let p = object; p && p !== Object.prototype; p = Object.getPrototypeOf(p))
    for(const name of Object.getOwnPropertyNames(p)) {
      const d = Object.getOwnPropertyDescriptor(p, name);
      if(name !== 'constructor' && name[0] !== '_' && typeof d.value === 'function') names.add(name);
    }
  return [...names].sort();
};
const read = e => [String(e), e.text, e.snippet, JSON.stringify([e.selection, e.cursor]), e.message, e.stack].length;
const attempt = f => {
  try {
    return f();
  } catch(e) {
    if(e instanceof enolib.EnoError) { read(e); told.errors++; }
    return undefined;
  }
};
const isElement = x => x !== null && typeof x === 'object' && typeof x.raw === 'function';
const told = { documents: 0, errors: 0, objects: 0, calls: 0 };

const call = (object, name, choice, salt, keys) => {
  const f = (...args) => object[name](...args);
  if(/^(required|optional)(Key|Value|Values|Comment)$|^(key|value|values|comment)$/.test(name)) return choice([() => f(v => v.toUpperCase()), () => f(v => { throw new Error(v + salt); }), () => f(v => v.length)]);
  if(/[eE]rror$/.test(name)) return choice([() => f('message ' + salt), () => f(v => `computed ${v} ${salt}`)]);
  if(/^all(Elements|Entries)Required$/.test(name)) return choice([() => f(true), () => f(false), () => f()]);
  if(name === 'assertAllTouched') {
    const key = choice(keys);
    return choice([() => f(), () => f('unread ' + salt), () => f(e => `unread ${e} ${salt}`), () => f({ only: [key] }), () => f({ except: [key, 'gone' + salt] })]);
  }
  if(/(element|empty|entry|entries|field|fieldset|list|section)s?$/i.test(name) && !/^(to|yields)/.test(name)) {
    const key = choice(keys);
    return choice([() => f('gone' + salt), () => f(key), () => f(key), () => f()]);
  }
  return () => f();
};

const use = (doc, r) => {
  const next = random(r.seed);
  const choice = list => list[Math.floor(next() * list.length)];
  const options = { reporter: reporters[r.reporter], source: 'file' + doc.salt };
  if(r.locale) options.locale = locales[r.locale];
  let todo = [];
  if(r.way === 'lookup')
    for(let i = 0; i < r.depth; i++) {
      const found = attempt(() => enolib.lookup({ index: Math.floor(next() * (doc.text.length + 1)) }, doc.text, options));
      if(found) todo.push(found.element);
    }
  else todo.push(attempt(() => enolib.parse(doc.text, options)));
  todo = todo.filter(isElement);
  let seen = 0;
  while(todo.length && seen < r.depth) {
    const object = todo.shift();
    seen++;
    const names = methods(object);
    for(let i = names.length - 1; i > 0; i--) {
      const j = Math.floor(next() * (i + 1));
      [names[i], names[j]] = [names[j], names[i]];
    }
    for(const name of names) {
      told.calls++;
      const v = attempt(call(object, name, choice, doc.salt, doc.keys));
      for(const x of (Array.isArray(v) ? v.slice(0, 6) : [v])) if(isElement(x) && todo.length < r.depth) todo.push(x);
    }
  }
  told.documents++;
  told.objects += seen;
};

const walk = section => {
  for(const e of section.elements()) {
    if(e.yieldsSection()) walk(e.toSection());
    else if(e.yieldsEmpty()) e.toEmpty().optionalStringComment();
    else if(e.yieldsField()) { e.toField().optionalStringValue(); e.toField().optionalStringComment(); }
    else if(e.yieldsList()) e.toList().items().forEach(x => x.optionalStringValue());
    else if(e.yieldsFieldset()) e.toFieldset().entries().forEach(x => x.optionalStringValue());
  }
};
const work = {
  'parse': () => {},
  'walk': walk,
  'raw': d => d.raw(),
  'print': d => d.elements().map(String).join(),
  'assert': d => d.assertAllTouched(),
  'walk and assert': d => { walk(d); d.assertAllTouched(); },
  'missing': d => d.requiredField('gone'),
  'ambiguous': d => d.element('k'),
  'wrong kind': d => d.fields(),
  'error': d => { const all = d.elements(); read(all[all.length - 1].error('m')); read(d.error('m')); },
  'values': d => d.elements()[0].toList().requiredStringValues(),
  'entries': d => d.elements()[0].toFieldset().entry('a'),
};

const plain = d => {
  const out = [attempt(() => d.raw()), String(d)];
  for(const e of d.elements()) {
    out.push(e.stringKey(), attempt(() => e.raw()), attempt(() => e.optionalStringComment()));
    if(e.yieldsList()) out.push(attempt(() => e.toList().optionalStringValues()));
    else if(e.yieldsField()) out.push(attempt(() => e.toField().optionalStringValue()));
    else if(e.yieldsSection()) out.push(attempt(() => e.toSection().elements().map(x => x.stringKey())));
    const error = attempt(() => e.error('m'));
    if(error) out.push(error.text, error.snippet, error.message, error.selection, error.cursor);
  }
  return out;
};

let held = null;
const perform = r => {
  switch(r.op) {
    case 'use':
      for(const doc of r.docs) use(doc, r);
      return;
    case 'big':
      attempt(() => {
        const options = { reporter: reporters[r.reporter] };
        if(typeof r.work === 'number') enolib.lookup({ index: Math.floor(r.text.length * r.work) }, r.text, options);
        else work[r.work](enolib.parse(r.text, options));
        told.documents++;
      });
      return;
    case 'hold':
      attempt(() => {
        held = enolib.parse(r.text);
        told.documents++;
        if(typeof r.work === 'string') work[r.work](held);
      });
      return;
    case 'keep':
      attempt(() => { held = plain(enolib.parse(r.text, { source: 'x' })); told.documents++; });
      return held === null ? 0 : held.length;
    case 'drop':
      held = null;
  }
};

const settled = count => {
  /x/.test('x');                            // the engine remembers what was matched last
  global.gc();
  global.gc();
  const heap = process.memoryUsage().heapUsed;
  const alive = {};
  if(count) for(const c of roots) alive[c.name] = v8.queryObjects(c, { format: 'count' });
  return { alive, heap };
};

// --- transport
let pending = [], size = 0;
const buffer = Buffer.alloc(1 << 20);
const receive = () => {
  let line = '';
  for(;;) {
    const at = size ? buffer.subarray(0, size).indexOf(10) : -1;
    if(at !== -1) {
      line += buffer.latin1Slice(0, at);
      buffer.copyWithin(0, at + 1, size);
      size -= at + 1;
      return JSON.parse(line);
    }
    line += buffer.latin1Slice(0, size);
    size = fs.readSync(0, buffer, 0, buffer.length, null);
    if(size === 0) process.exit(0);
  }
};
const send = message => {
  const bytes = Buffer.from(JSON.stringify(message) + '\n', 'utf8');
  for(let at = 0; at < bytes.length; ) at += fs.writeSync(1, bytes, at);
};
const serve = () => {
  const r = receive();
  const n = perform(r);
  return [n === undefined ? null : n, r.count];
};
for(;;) {
  for(const k of Object.keys(told)) told[k] = 0;
  const [n, count] = serve();
  send(Object.assign({ n, told }, settled(count)));
}
