// Replays histories (from MCOrchSim) into the real orchestrator: its request handlers and its command line.
// usage: node orch_driver.js <scratch copy of experiments/orchestrator> <histories.json> <index> <out.json>
// Nothing leaves the scratch copy: no network, no child processes, no file outside of it.
const fs = require('fs');
const path = require('path');
const Module = require('module');
const { PassThrough } = require('stream');
const childProcess = require('child_process');

const dir = path.resolve(process.argv[2]);
const hist = JSON.parse(fs.readFileSync(process.argv[3]))[parseInt(process.argv[4])];
const outFile = process.argv[5];
const realRead = fs.readFileSync;
const realWrite = fs.writeFileSync;
const realOut = process.stdout.write.bind(process.stdout);

// ---- stand-ins ------------------------------------------------------------------
const routes = [];
function add(method) {
  return function (p, ...hs) { routes.push({ method, parts: String(p).split('/').filter(x => x), handlers: hs.flat() }); return this; };
}
const noop = (req, res, next) => { if (next) next(); };
function express() {
  const app = { get: add('GET'), post: add('POST'), put: add('PUT'), all: add('*'), use: () => app, set: () => app, disable: () => app, enable: () => app };
  app.listen = (...a) => { const cb = a.find(x => typeof x == 'function'); if (cb) setImmediate(cb); return { on: () => {}, close: () => {}, address: () => ({ port: 8000 }) }; };
  return app;
}
for (const k of ['json', 'text', 'urlencoded', 'raw', 'static']) express[k] = () => noop;
express.Router = express;
const bodyParser = { json: () => noop, text: () => noop, urlencoded: () => noop, raw: () => noop };
const V4 = /^\d+\.\d+\.\d+\.\d+$/;
function v4(s) { return { kind: () => 'ipv4', toString: () => s, isIPv4MappedAddress: () => false, octets: s.split('.').map(Number) }; }
function v6(s) { return { kind: () => 'ipv6', toString: () => s, isIPv4MappedAddress: () => /^::ffff:/i.test(s), toIPv4Address: () => v4(s.replace(/^::ffff:/i, '')) }; }
const ipaddr = {
  IPv4: { isValid: s => V4.test(s), isIPv4: s => V4.test(s), parse: v4 },
  IPv6: { isValid: s => !V4.test(s) && s.includes(':'), isIPv6: s => s.includes(':'), parse: v6 },
  isValid: s => V4.test(s) || s.includes(':'),
  parse: s => V4.test(s) ? v4(s) : v6(s),
  process: s => V4.test(s) ? v4(s) : v6(s).isIPv4MappedAddress() ? v6(s).toIPv4Address() : v6(s),
};
const stubs = { 'express': express, 'body-parser': bodyParser, 'ipaddr.js': ipaddr };
const realLoad = Module._load;
Module._load = function (req, ...r) { return Object.prototype.hasOwnProperty.call(stubs, req) ? stubs[req] : realLoad.call(this, req, ...r); };

// the generator: remember what it was asked to generate, and give that back as the file's contents
const generated = {};
function gen(cmd, args) {
  const tok = [String(cmd)].concat(Array.isArray(args) ? args.map(String) : []).join(' ').split(/\s+/).filter(x => x);
  const i = tok.indexOf('--');
  const rest = i >= 0 ? tok.slice(i + 1) : tok.slice(tok.findIndex(t => /gen_config/.test(t)) + 1);
  generated[rest[0]] = rest.slice(1).join(' ');
  return { status: 0, error: undefined, signal: null, stdout: Buffer.from(''), stderr: Buffer.from('') };
}
childProcess.spawnSync = gen;
childProcess.execSync = (c, o) => { gen(c); return Buffer.from(''); };
childProcess.execFileSync = (c, a) => { gen(c, a); return Buffer.from(''); };
fs.readFileSync = function (p, ...r) {
  if (typeof p == 'string' && generated[p] !== undefined) {
    const enc = typeof r[0] == 'string' ? r[0] : r[0] && r[0].encoding;
    return enc ? generated[p] : Buffer.from(generated[p]);
  }
  return realRead.call(fs, p, ...r);
};

// ---- the operator's terminal ------------------------------------------------------
const keyboard = new PassThrough();
Object.defineProperty(process, 'stdin', { value: keyboard, configurable: true });
let screen = '';
process.stdout.write = function (s, ...r) { screen += s; const cb = r.find(x => typeof x == 'function'); if (cb) cb(); return true; };
process.stderr.write = process.stdout.write;
let failure = '';
process.on('uncaughtException', e => { failure = failure || String(e && e.stack || e); });
process.on('unhandledRejection', e => { failure = failure || String(e && e.stack || e); });
const exits = [];
process.exit = c => { exits.push(c); failure = failure || 'the orchestrator exited'; };

const tick = async n => { for (let i = 0; i < n; i++) await new Promise(r => setImmediate(r)); };
async function type(line) { const at = screen.length; keyboard.write(line + '\n'); await tick(8); return screen.slice(at); }

// ---- requests -------------------------------------------------------------------
function match(method, url) {
  const parts = url.split('/').filter(x => x);
  for (const r of routes) {
    if ((r.method != method && r.method != '*') || r.parts.length != parts.length) continue;
    const params = {};
    if (r.parts.every((p, i) => p.startsWith(':') ? (params[p.slice(1)] = parts[i], true) : p == parts[i])) return { r, params };
  }
  return null;
}
async function request(method, url, ip, body) {
  const m = match(method, url);
  if (!m) return { err: 'no route for ' + url };
  let answer = null, code = 200;
  const sock = { remoteAddress: ip };
  const headers = { 'content-type': 'text/plain' };
  const req = { method, url, path: url, originalUrl: url, params: m.params, query: {}, body, connection: sock, socket: sock, ip, headers, get: h => headers[String(h).toLowerCase()], header: h => headers[String(h).toLowerCase()] };
  const fin = b => { if (answer === null) answer = b === undefined ? '' : Buffer.isBuffer(b) ? b.toString() : typeof b == 'object' ? JSON.stringify(b) : String(b); return res; };
  let buf = '';
  const res = { send: fin, json: fin, end: b => fin(buf + (b === undefined ? '' : b)), write: b => { buf += b; return true; }, status: c => { code = c; return res; }, sendStatus: c => { code = c; return fin(''); },
    type: () => res, set: () => res, header: () => res, setHeader: () => res, contentType: () => res, on: () => res, locals: {} };
  try {
    let i = 0;
    const next = async e => { if (e) throw e; const h = m.r.handlers[i++]; if (h) await h(req, res, next); };
    await next();
    for (let k = 0; k < 40 && answer === null; k++) await tick(2);
  } catch (e) {
    return { err: String(e && e.stack || e).slice(0, 300) };
  }
  if (answer === null) return { err: 'no answer to ' + url };
  if (code >= 400) return { err: 'status ' + code };
  return { err: '', answer };
}

// ---- what can be seen ---------------------------------------------------------------
function files() {
  const r = {};
  const walk = d => { for (const f of fs.readdirSync(d)) {
    const p = path.join(d, f);
    if (fs.lstatSync(p).isDirectory()) walk(p); else r[p] = realRead(p, 'latin1'); } };
  walk(dir);
  return r;
}
const ST = /(cleaning up|waiting|working|ready|done)/;
async function listings() {
  const exps = [], workers = [];
  for (const l of (await type('experiments')).split('\n')) {
    const m = /Experiment\s+(\d+)\s+\((.*)\)\s*,\s*status:\s*(cleaning up|waiting|working|done)/.exec(l);
    if (m) exps.push({ id: m[1], name: m[2], status: m[3] });
  }
  for (const l of (await type('workers')).split('\n')) {
    const m = /Worker\s+(\d+)\s*,.*?type:\s*(server|client)\s*,\s*status:\s*(cleaning up|working|ready)/.exec(l);
    if (m) workers.push({ id: m[1], type: m[2], status: m[3] });
  }
  return { exps, workers };
}
const uniq = a => [...new Set(a)];

(async function () {
  process.chdir(dir);
  require(path.join(dir, 'main.js'));
  await tick(10);
  const ops = [], W = [], names = [];
  let seen = await listings(), bodies = 0, news = 0;
  for (const o of hist) {
    const r = Object.assign({ w: 0, e: 0, ps: [], type: '', ip: '', id: '', tok: [], answer: '', files: [], name: '', conf: [], same: 1 }, o, { err: '' });
    let x = { err: '' };
    if (o.op == 'reg') {
      // the address as the web framework reports it: plain, or IPv4 mapped
      x = await request('GET', '/giveip/' + o.type, (W.length % 2 ? '::ffff:' : '') + o.ip);
      r.id = (x.answer || '').trim();
      W.push({ id: r.id, ip: o.ip });
    } else if (o.op == 'ping') {
      x = await request('GET', '/ping/' + W[o.w - 1].id, W[o.w - 1].ip);
      r.tok = (x.answer || '').trim().split(/\s+/);
    } else if (o.op == 'ask') {
      x = await request('GET', '/shouldkill/' + W[o.w - 1].id, W[o.w - 1].ip);
      r.answer = (x.answer || '').trim();
    } else if (o.op == 'config') {
      x = await request('GET', '/config/' + W[o.w - 1].id, W[o.w - 1].ip);
      r.conf = (x.answer || '').trim().split(/\s+/);
    } else if (o.op == 'showlog') {
      x = await request('POST', '/showlog/' + W[o.w - 1].id, W[o.w - 1].ip, 'partial log\n');
    } else if (o.op == 'done') {
      const tag = 'report ' + (++bodies) + ' of ' + W[o.w - 1].id;
      const before = files();
      const body = bodies % 7 == 4 && !Object.values(before).includes('') ? '' : [tag + '\nline two, no newline at the end', tag + '\r\n\n', ' \n' + tag + ' \u00fcber \u2713\n', 'x'.repeat(70000) + tag + '\n \t', '{"a": "' + tag + '"}'][bodies % 5];
      x = await request('POST', '/done/' + W[o.w - 1].id, W[o.w - 1].ip, body);
      const after = files();
      for (const f of uniq(Object.keys(before).concat(Object.keys(after)))) {
        if (before[f] !== after[f]) {
          r.files.push({ base: path.basename(f), dir: path.basename(path.dirname(f)), exact: after[f] === Buffer.from(body).toString('latin1') ? 1 : 0 });
        }
      }
      r.name = names[o.x - 1] || '';
    } else if (o.op == 'killnone') {
      await type('kill 424242');
    } else if (o.op == 'loadsome') {
      await type('loadi saved');
      for (const y of o.yes) await type(y ? ['', 'y', 'Y', 'yes'][ops.length % 4] : ['n', 'N', 'no', 'No'][ops.length % 4]);
    } else if (o.op == 'new' || o.op == 'refused') {
      const p = o.ps[0], name = ['exp', 'other run', 'a.b'][news % 3] + (++news);
      const all = k => uniq(o.ps.map(q => q[k])).join(',');
      let q = [];
      if (p.kind == 'dppir') q = [name, p.mode, all('table'), all('parties'), all('par'), uniq(o.ps.map(z => String(parseInt(z.queries) * z.par + news % z.par))).join(','), all('eps'), all('delta')];
      else if (p.kind == 'checklist') q = [name, all('table'), all('queries'), p.pir == 'Punc' && news % 2 ? '' : p.pir];
      else q = [name, all('table'), all('queries')];
      await type('new ' + p.kind);
      for (const a of q) {
        // a dialogue that already refused asks nothing more
        if (o.op == 'refused' && /\n> $/.test(screen)) break;
        await type(a);
      }
    } else if (o.op == 'kill') {
      const e = seen.exps[o.e - 1];
      await type('kill ' + (e ? e.id : '99999'));
    } else if (o.op == 'log') {
      await type('log ' + W[o.w - 1].id);
    } else if (o.op == 'clear') {
      await type('clear');
    } else if (o.op == 'store') {
      await type('store saved');
    } else if (o.op == 'load') {
      await type('load saved');
      await type('store again');
      try {
        r.same = JSON.stringify(JSON.parse(realRead(path.join(dir, 'stored', 'saved.json')))) == JSON.stringify(JSON.parse(realRead(path.join(dir, 'stored', 'again.json')))) ? 1 : 0;
      } catch (e) { r.same = 0; }
    }
    await tick(2);
    const was = seen.exps.length;
    seen = await listings();
    if (o.op == 'new' || o.op == 'load' || o.op == 'loadsome') for (const e of seen.exps.slice(o.op == 'load' ? 0 : was)) names.push(e.name);
    r.err = x.err || failure;
    r.exps = seen.exps;
    r.workers = seen.workers;
    ops.push(r);
    if (r.err) break;
  }
  realWrite(outFile, JSON.stringify({ t: 'orch', crash: 0, ops }));
  process.reallyExit(0);
})().catch(e => { realWrite(outFile, JSON.stringify({ t: 'orch', crash: 1, ops: [], why: String(e && e.stack || e) })); process.reallyExit(0); });
