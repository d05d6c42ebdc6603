// Runs the JavaScript library of the repository given as argument and serves requests of realjs.py, one JSON line each.
// Objects of the library are passed as handles; functions of the caller are called back while a request is served.
const fs = require('fs');
const path = require('path');
const { pathToFileURL } = require('url');
const inspector = require('inspector');
const root = fs.realpathSync(process.argv[2]) + '/javascript/lib/';

// --- what of the library is executed: block coverage, or counts of it (a deterministic measure of effort)
const session = new inspector.Session();
session.connect();
const inspect = (method, params) => {
  let out;
  session.post(method, params, (e, result) => {
    if(e) throw new Error(JSON.stringify(e));
    out = result;
  });
  return out;
};
inspect('Profiler.enable');
inspect('Profiler.startPreciseCoverage', { callCount: process.argv[3] === 'count', detailed: true });
const executed = () => inspect('Profiler.takePreciseCoverage').result.filter(s => s.url.startsWith(pathToFileURL(root).href) || s.url.startsWith(root));

const counted = () => {
  let n = 0;
  for(const script of executed())
    for(const f of script.functions)
      for(const range of f.ranges) n += range.count;
  return n;
};

const covered = () => {
  const out = {};
  for(const script of executed()) {
    const file = script.url.startsWith('file:') ? require('url').fileURLToPath(script.url) : script.url;
    const source = fs.readFileSync(file, 'utf8');
    const name = path.relative(root, file);
    const lines = { executed: [], total: [] };
    // innermost ranges last
    const ranges = script.functions.filter(f => f.functionName !== '' || f.ranges[0].startOffset > 0).flatMap(f => f.ranges).sort((a, b) => (b.endOffset - b.startOffset) - (a.endOffset - a.startOffset));
    let at = 0;
    source.split('\n').forEach((line, i) => {
      const text = line.trim();
      const start = at + line.length - line.trimStart().length;
      at += line.length + 1;
      if(text === '' || /^(\/[\/*]|\*|[\]})\s;,]*$)/.test(text)) return;
      let count = null;
      for(const r of ranges) if(r.startOffset < start && start < r.endOffset) count = r.count;
      if(count === null) return;          // executed when the library is loaded
      lines.total.push(i + 1);
      if(count) lines.executed.push(i + 1);
    });
    out[name] = lines;
  }
  return out;
};

const enolib = require(root + 'main.js');
const locales = {};
for(const name of ['en', 'de', 'es']) locales[name] = require(`${root}messages/${name}.js`)[name];

const snake = name => name.replace(/[A-Z]/g, c => '_' + c.toLowerCase());
const recording = {};
for(const [name, value] of Object.entries(locales.en))
  recording[name] = typeof value === 'function' ? (...args) => '⟦' + snake(name) + args.map(a => '¦' + a).join('') + '⟧' : '⟦' + snake(name) + '⟧';
recording.gutterHeader = 'Line';
recording.contentHeader = 'Content';
locales.rec = recording;

const reporters = { text: enolib.TextReporter, html: enolib.HtmlReporter, terminal: enolib.TerminalReporter };

// --- objects known to the caller
const byId = new Map(), ids = new Map(), described = new Set();
let next = 1;

const methods = object => {
  const names = new Set();
  for(let p = object; p && p !== Object.prototype; p = Object.getPrototypeOf(p))
    for(const name of Object.getOwnPropertyNames(p)) {
      const d = Object.getOwnPropertyDescriptor(p, name);
      if(name !== 'constructor' && name[0] !== '_' && typeof d.value === 'function') names.add(name);
    }
  return [...names];
};

const handle = object => {
  let id = ids.get(object);
  if(id === undefined) {
    id = next++;
    ids.set(object, id);
    byId.set(id, object);
  }
  const name = object.constructor.name;
  const out = { h: id, c: name };
  if(!described.has(name)) {
    described.add(name);
    out.m = methods(object);
  }
  return out;
};

class Opaque { constructor(id) { this.id = id; } }

const error = e => ({ e: {
  cls: e.constructor.name, kind: e instanceof enolib.ParseError ? 'parse' : e instanceof enolib.ValidationError ? 'validation' : 'eno',
  eno: e instanceof enolib.EnoError && e instanceof Error,
  text: encode(e.text), message: encode(e.message), snippet: encode(e.snippet), selection: encode(e.selection), cursor: encode(e.cursor)
} });

const encode = v => {
  if(v === null || typeof v === 'boolean' || typeof v === 'string') return v;
  if(typeof v === 'number') return Number.isInteger(v) ? v : { n: String(v) };
  if(v === undefined) return { u: 1 };
  if(Array.isArray(v)) return { a: Array.from(v, encode) };
  if(v instanceof Opaque) return { p: v.id };
  if(v instanceof enolib.EnoError) return error(v);
  if(typeof v === 'function') return { f: v.name };
  if(typeof v === 'symbol') return { s: String(v) };
  const proto = Object.getPrototypeOf(v);
  if(proto === Object.prototype || proto === null) return { o: Object.entries(v).map(([k, x]) => [k, encode(x)]) };
  return handle(v);
};

const thrown = e => {
  if(e instanceof enolib.EnoError) return error(e);
  if(e instanceof Opaque) return { p: e.id };
  if(e instanceof Error) return { x: e.constructor.name, text: String(e.message), stack: String(e.stack).split('\n').slice(0, 4).join(' ') };
  return { t: String(e) };
};

const decode = v => {
  if(v === null || typeof v !== 'object') return v;
  if(v.a) return v.a.map(decode);
  if(v.o) {
    const out = {};
    for(const [k, x] of v.o) out[k] = decode(x);
    return out;
  }
  if('h' in v) return byId.get(v.h);
  if('p' in v) return new Opaque(v.p);
  if('u' in v) return undefined;
  if('locale' in v) return locales[v.locale];
  if('reporter' in v) return reporters[v.reporter];
  if('cb' in v) {
    const f = (...args) => {
      send({ cb: v.cb, args: args.map(encode) });
      const reply = serve();
      if('throw' in reply) throw decode(reply.throw);
      return decode(reply.ok);
    };
    if('name' in v) Object.defineProperty(f, 'name', { value: v.name });
    return f;
  }
  throw new Error('undecodable ' + JSON.stringify(v));
};

// --- transport
let pending = '', chunks = [];
const buffer = Buffer.alloc(1 << 16);
const receive = () => {
  for(;;) {
    const end = pending.indexOf('\n');
    if(end !== -1) {
      const line = pending.slice(0, end);
      pending = pending.slice(end + 1);
      return JSON.parse(line);
    }
    const n = fs.readSync(0, buffer, 0, buffer.length, null);
    if(n === 0) process.exit(0);
    pending += buffer.latin1Slice(0, n);       // requests are ASCII
  }
};
const send = message => {
  const bytes = Buffer.from(JSON.stringify(message) + '\n', 'utf8');
  for(let at = 0; at < bytes.length; ) at += fs.writeSync(1, bytes, at);
};

// what the caller passes must come back unchanged
const plain = args => JSON.stringify(args, (key, v) => typeof v === 'object' && v !== null && !Array.isArray(v) && Object.getPrototypeOf(v) !== Object.prototype ? undefined : v);

class ArgumentChanged extends Error {}

const perform = r => {
  switch(r.op) {
    case 'call': {
      const args = r.args.map(decode);
      const options = args.filter(a => typeof a === 'object' && a !== null && Object.getPrototypeOf(a) === Object.prototype);
      const before = options.length ? plain(options) : '';
      try {
        return byId.get(r.h)[r.name](...args);
      } finally {
        if(options.length && plain(options) !== before) throw new ArgumentChanged(`the arguments ${before} were turned into ${plain(options)}`);
      }
    }
    case 'parse': return enolib.parse(...r.args.map(decode));
    case 'lookup': return enolib.lookup(...r.args.map(decode));
    case 'register': described.clear(); return enolib.register(...r.args.map(decode));
    case 'message': {
      const m = locales[r.locale][r.name];
      return typeof m === 'function' ? m(...r.args.map(decode)) : m;
    }
    case 'messages': return Object.entries(locales[r.locale]).map(([k, v]) => [k, typeof v === 'function' ? v.length : -1]);
    case 'exports': return Object.keys(enolib);
    case 'collect garbage': return global.gc ? (global.gc(), true) : false;
    case 'counted': return counted();
    case 'covered': return JSON.stringify(covered());
  }
  throw new Error('unknown operation');
};

const serve = () => {
  for(;;) {
    const r = receive();
    if(!('op' in r)) return r;
    for(const id of r.release) {
      ids.delete(byId.get(id));
      byId.delete(id);
    }
    let answer;
    const before = r.timed ? process.cpuUsage() : null;
    let spent = null;
    const stop = () => {
      if(before && spent === null) {
        const d = process.cpuUsage(before);
        spent = d.user + d.system;
      }
    };
    try {
      const result = perform(r);
      stop();
      answer = { ok: encode(result) };
    } catch(e) {
      stop();
      answer = { throw: thrown(e) };
    }
    if(spent !== null) answer.us = spent;
    send(answer);
  }
};
serve();
