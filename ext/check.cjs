// C20: explores every behaviour of the editor that the VS Code extension can meet.
// The real extension.ts is bundled and run against stand-ins for `vscode` and the language client
// whose calls stay pending until the explorer settles them; a depth-first search re-executes the
// extension for every sequence of choices (which call is settled next, how, what the server sends,
// when the extension is activated and deactivated).
'use strict';
const fs = require('fs');
const path = require('path');
const esbuild = require('/opt/veriftools/node/node_modules/esbuild');
const VERIF = path.dirname(__dirname);
const SRC = '/repo/vscode-extension/src/extension.ts';
const GRAPHVIZ = 'graphviz-interactive-preview.preview.beside';
const EXT = '/ext/dir';

function bundle () {
  const out = esbuild.buildSync({
    entryPoints: [SRC], write: false, platform: 'node', format: 'cjs', bundle: true, logLevel: 'silent',
    external: ['vscode', 'vscode-languageclient', 'vscode-languageclient/*']
  });
  return new Function('exports', 'require', 'module', 'process', 'console', out.outputFiles[0].text);
}

// Only what the vscode API promises: a Thenable.
function thenable (p) { return { then: (a, b) => thenable(p.then(a, b)) }; }

class World {
  constructor (code, cfg) {
    this.cfg = cfg;
    this.pending = []; // unsettled calls into the editor
    this.calls = []; // everything that was shown or asked
    this.clients = [];
    this.errors = [];
    const env = { ...process.env };
    delete env.SERVER_PATH;
    if (cfg.serverPath !== undefined) env.SERVER_PATH = cfg.serverPath;
    const proc = new Proxy(process, { get: (t, k) => k === 'env' ? env : t[k] });
    const vscode = this.vscode();
    const lc = this.languageClient();
    const req = (m) => {
      if (m === 'vscode') return vscode;
      if (m.startsWith('vscode-languageclient')) return lc;
      if (m === 'process' || m === 'node:process') return proc;
      return require(m);
    };
    const module = { exports: {} };
    const quiet = { log () {}, error () {}, warn () {}, info () {}, debug () {} };
    code(module.exports, req, module, proc, quiet);
    this.ext = module.exports;
    this.context = {
      subscriptions: [], extensionPath: EXT, extensionUri: { fsPath: EXT, path: EXT, scheme: 'file' },
      asAbsolutePath: (p) => path.posix.join(EXT, p),
      extensionMode: cfg.mode ?? 1, globalState: { get () {}, update () {} }, workspaceState: { get () {}, update () {} }
    };
  }

  call (kind, info, outcomes) { return thenable(this.promise(kind, info, outcomes)); }

  promise (kind, info, outcomes = ['ok', 'reject']) {
    const op = { kind, info, outcomes, id: this.calls.length };
    this.calls.push(op);
    const p = new Promise((resolve, reject) => { op.resolve = resolve; op.reject = reject; });
    p.catch(() => {});
    this.pending.push(op);
    return p;
  }

  vscode () {
    const w = this;
    const rich = this.cfg.rich;
    const fail = rich ? ['reject', 'reject-undefined'] : ['reject'];
    const message = (kind) => (text, ...items) => w.call(kind, { text }, rich ? ['ok', 'ok-item', ...fail] : ['ok', ...fail]);
    const known = {
      commands: {
        executeCommand: (command, ...args) => w.call('executeCommand', { command, args }, rich ? ['ok', 'ok-item', ...fail] : ['ok', ...fail]),
        getCommands: () => thenable(Promise.resolve([GRAPHVIZ, 'editor.action.x'])),
        registerCommand: () => ({ dispose () {} })
      },
      window: {
        showErrorMessage: message('error'), showWarningMessage: message('warning'), showInformationMessage: message('information'),
        showTextDocument: (doc, ...rest) => w.call('showTextDocument', { doc, rest }, ['ok', ...fail]),
        createOutputChannel: () => anything()
      },
      workspace: {
        openTextDocument: (o) => w.call('openTextDocument', { o }, ['ok', ...fail]),
        getConfiguration: () => ({ get: (k, d) => d, has: () => false, update () {} })
      },
      env: {}, extensions: { getExtension: () => undefined }
    };
    return open(known);
  }

  languageClient () {
    const w = this;
    class Base {
      constructor (...a) {
        if (a.length === 5 || (typeof a[1] === 'string' && typeof a[0] === 'string')) a = a.slice(2); else a = a.slice(1);
        [this.serverOptions, this.clientOptions] = a;
        this.handlers = new Map();
        this.started = 0;
        this.stopped = 0;
        w.clients.push(this);
      }

      onRequest (m, h) { m = typeof m === 'string' ? m : m.method; this.handlers.set(m, h); return { dispose: () => { if (this.handlers.get(m) === h) this.handlers.delete(m); } }; }
      onNotification () { return { dispose () {} }; }
      onDidChangeState () { return { dispose () {} }; }
      isRunning () { return this.started > this.stopped && w.calls.some(c => c.kind === 'start' && c.info.client === this && c.outcome === 'ok'); }
      needsStop () { return this.started > this.stopped; }
      start () { this.started++; return w.promise('start', { client: this }); }
      stop () { this.stopped++; return w.promise('stop', { client: this }); }
      dispose () { return this.stop(); }
    }
    class RequestType { constructor (m) { this.method = m; } }
    return open({ LanguageClient: Base, RequestType, RequestType0: RequestType, RequestType1: RequestType, NotificationType: RequestType, TransportKind: { stdio: 0, ipc: 1, pipe: 2, socket: 3 } });
  }

  // Sends the server's graph request; the language client answers with what the handler gives.
  request (params) {
    const r = { params, answers: [], from: this.calls.length };
    const c = this.clients[this.clients.length - 1];
    const h = c && c.handlers.get('hyperir/showDot');
    if (!h) { this.errors.push('the graph request has no handler'); return r; }
    const token = { isCancellationRequested: false, onCancellationRequested: () => ({ dispose () {} }) };
    let v;
    try { v = h(params, token); } catch (e) { r.answers.push({ error: String(e) }); return r; }
    if (v && typeof v.then === 'function') {
      v.then(x => r.answers.push({ result: x }), e => r.answers.push({ error: String(e) }));
    } else r.answers.push({ result: v });
    return r;
  }

  settle (op, outcome) {
    this.pending.splice(this.pending.indexOf(op), 1);
    op.outcome = outcome;
    if (outcome === 'ok') op.resolve(op.kind === 'openTextDocument' ? (op.document = { isDocument: true, op }) : undefined);
    else if (outcome === 'ok-item') op.resolve('item');
    else if (outcome === 'reject-undefined') op.reject(undefined);
    else op.reject(new Error('refused'));
  }
}
function anything () { return new Proxy(function () {}, { get: (t, k) => k === 'then' ? undefined : k === Symbol.toPrimitive ? () => 'x' : anything(), apply: () => anything(), construct: () => anything() }); }
// Parts of the API that the property does not speak about do nothing.
function open (known) {
  return new Proxy(known, {
    get: (t, k) => {
      if (k in t) { const v = t[k]; return v && typeof v === 'object' && Object.getPrototypeOf(v) === Object.prototype ? open(v) : v; }
      return k === '__esModule' ? true : k === 'then' ? undefined : anything();
    }
  });
}

const drain = () => new Promise(resolve => setImmediate(resolve));

// ---- what has to hold ----
const DOCS = [['hir', 'file', true], ['hir', 'untitled', true], ['hir', 'git', true], ['plaintext', 'file', false], ['llvm', 'file', false]];
function selected (sel, [lang, scheme]) {
  const list = Array.isArray(sel) ? sel : [sel];
  return list.some(f => {
    if (typeof f === 'string') return f === lang || f === '*';
    if (f.language !== undefined && f.language !== '*' && f.language !== lang) return false;
    if (f.scheme !== undefined && f.scheme !== '*' && f.scheme !== scheme) return false;
    return f.language !== undefined || f.scheme !== undefined;
  });
}
function checkClient (w, c) {
  const want = w.cfg.serverPath !== undefined ? w.cfg.serverPath : path.posix.join(EXT, 'hyper-ir-lsp');
  const so = c.serverOptions;
  const execs = so && so.command !== undefined ? [so] : so ? [so.run, so.debug] : [];
  if (!execs.length) return 'the language client has no server to run';
  for (const e of execs) if (!e || e.command !== want) return `the language client runs ${e && e.command} instead of ${want}`;
  const sel = c.clientOptions && c.clientOptions.documentSelector;
  if (!sel) return 'the language client has no document selector';
  for (const d of DOCS) if (selected(sel, d) !== d[2]) return `documents of language ${d[0]} (${d[1]}) are ${d[2] ? 'not ' : ''}served`;
  return null;
}
const isObject = (x) => x !== null && typeof x === 'object' && !Array.isArray(x) && Object.keys(x).length === 0;

// At a point where nothing moves until the explorer acts: nothing wrong was done so far.
// `done`: additionally, everything has come to an end.
function checkRequests (w, reqs, done) {
  const shown = w.calls.filter(c => ['executeCommand', 'openTextDocument', 'showTextDocument', 'error'].includes(c.kind));
  const budget = { preview: 0, open: 0, error: 0 };
  for (const r of reqs) {
    if (r.answers.length > 1) return 'a graph request was answered more than once';
    const well = r.params !== null && typeof r.params === 'object' && typeof r.params.dotGraph === 'string';
    r.well = well;
  }
  // The calls made for each content (contents are distinct across requests of one run).
  const times = new Map();
  for (const r of reqs.filter(r => r.well)) times.set(r.params.dotGraph, (times.get(r.params.dotGraph) ?? 0) + 1);
  for (const r of reqs.filter(r => r.well)) {
    const text = r.params.dotGraph;
    if (times.get(text) > 1) continue;
    const previews = shown.filter(c => c.kind === 'executeCommand' && c.info.command === GRAPHVIZ && c.info.args[0] && c.info.args[0].content === text);
    const opens = shown.filter(c => c.kind === 'openTextDocument' && c.info.o && c.info.o.content === text);
    const docs = shown.filter(c => c.kind === 'showTextDocument' && c.info.doc && c.info.doc.op && opens.includes(c.info.doc.op));
    if (previews.length > 1 || opens.length > 1 || docs.length > 1) return `graph ${JSON.stringify(text)} was shown more than once`;
    const pv = previews[0]; const od = opens[0]; const sd = docs[0];
    budget.preview += previews.length; budget.open += opens.length;
    if (pv && pv.info.args[0].title !== r.params.title) return `graph ${JSON.stringify(text)} is previewed as ${JSON.stringify(pv.info.args[0].title)}`;
    if (!pv) return `graph ${JSON.stringify(text)} was not handed to the preview`;
    const ok = (c) => c && c.outcome && c.outcome.startsWith('ok');
    const bad = (c) => c && c.outcome && c.outcome.startsWith('reject');
    if (od && !bad(pv)) return `graph ${JSON.stringify(text)} opened as text although the preview did not fail`;
    if (bad(pv) && !od) return `graph ${JSON.stringify(text)} not opened as text although the preview failed`;
    if (ok(od) && !sd) return `graph ${JSON.stringify(text)} opened but not shown`;
    const visible = ok(pv) || ok(sd);
    const over = visible || bad(od) || bad(sd);
    if (over && r.answers.length !== 1) return `graph request ${JSON.stringify(text)} is not answered`;
    if (visible && !isObject(r.answers[0].result)) return `graph request ${JSON.stringify(text)} answered with ${JSON.stringify(r.answers[0])} although shown`;
    if (over && !visible && r.answers[0].error === undefined) return `graph request ${JSON.stringify(text)} answered with ${JSON.stringify(r.answers[0])} although it could not be shown`;
    if (r.answers.length === 1 && !over && r.answers[0].error !== undefined) return `graph request ${JSON.stringify(text)} failed early: ${r.answers[0].error}`;
  }
  // The same graph requested several times: as many previews, fallbacks and answers.
  for (const [text, n] of times) {
    if (n === 1) continue;
    const same = reqs.filter(r => r.well && r.params.dotGraph === text);
    const is = (c, o) => c.outcome && c.outcome.startsWith(o);
    const previews = shown.filter(c => c.kind === 'executeCommand' && c.info.command === GRAPHVIZ && c.info.args[0] && c.info.args[0].content === text);
    const opens = shown.filter(c => c.kind === 'openTextDocument' && c.info.o && c.info.o.content === text);
    const docs = shown.filter(c => c.kind === 'showTextDocument' && c.info.doc && c.info.doc.op && opens.includes(c.info.doc.op));
    budget.preview += previews.length; budget.open += opens.length;
    const count = (l, o) => l.filter(c => is(c, o)).length;
    const what = `graph ${JSON.stringify(text)}, requested ${n} times,`;
    if (previews.length !== n) return `${what} was handed to the preview ${previews.length} times`;
    const titles = (l) => JSON.stringify(l.map(t => String(t)).sort());
    if (titles(previews.map(c => c.info.args[0].title)) !== titles(same.map(r => r.params.title))) return `${what} is previewed with other titles`;
    if (opens.length !== count(previews, 'reject')) return `${what} was opened as text ${opens.length} times, ${count(previews, 'reject')} previews failed`;
    if (docs.length !== count(opens, 'ok')) return `${what} was shown as text ${docs.length} times`;
    const good = count(previews, 'ok') + count(docs, 'ok');
    const failed = count(opens, 'reject') + count(docs, 'reject');
    const answered = same.filter(r => r.answers.length === 1);
    if (answered.filter(r => isObject(r.answers[0].result)).length !== good) return `${what} is visible ${good} times, but not as often confirmed`;
    if (answered.filter(r => r.answers[0].error !== undefined).length !== failed) return `${what} could not be shown ${failed} times, but not as often refused`;
  }
  const errs = shown.filter(c => c.kind === 'error');
  const malformed = reqs.filter(r => !r.well && !r.free);
  const free = reqs.filter(r => r.free).length;
  if (errs.length < malformed.length) return 'a malformed graph request was not reported to the user';
  if (errs.length > malformed.length + free + shown.filter(c => c.kind !== 'error' && c.outcome && c.outcome.startsWith('reject')).length) return 'an error was reported without reason';
  if (shown.filter(c => c.kind === 'executeCommand' && c.info.command === GRAPHVIZ).length > budget.preview) return 'something else than a requested graph was previewed';
  if (shown.filter(c => c.kind === 'openTextDocument').length > budget.open) return 'something else than a requested graph was opened';
  if (done) {
    for (const r of reqs) {
      if (r.answers.length !== 1) return `graph request ${JSON.stringify(r.params)} is not answered`;
    }
    const settledOk = errs.filter(c => c.outcome && c.outcome.startsWith('ok')).length;
    const fine = malformed.filter(r => isObject(r.answers[0].result)).length;
    if (fine < settledOk - free) return 'a malformed graph request that was reported is not answered with an empty object';
  }
  return null;
}

const GRAPHS = ['digraph { a -> b }', '', 'digraph "é𝒳 \u2028 \\n" {\r\n\t"<&>%s${x}`" -> "${y}"\n}', 'x'.repeat(70000), '0', 'null', 'digraph { c }\n', '\n  \tdigraph { d }\r\n\n', '\ufeffdigraph { e }\u00a0', 'digraph {\r\n  f -> g\r\n  // note\r\n}'];
const TITLES = ['f', '', 'é𝒳 <b>', undefined];
const MALFORMED = [{}, { dotGraph: null }, { dotGraph: undefined }, { dotGraph: 5 }, { dotGraph: 0 }, { dotGraph: true }, { dotGraph: {} }, { dotGraph: ['digraph {}'] }, { dot: 'digraph {}' }, { dotGraph: null, title: 't' }];

// One execution: follow the prefix, then always the first choice; returns the choices met.
async function run (code, cfg, prefix) {
  const w = new World(code, cfg);
  const taken = []; const widths = []; const names = [];
  let steps = 0;
  const choose = (options) => {
    const i = taken.length < prefix.length ? prefix[taken.length] : 0;
    taken.push(i); widths.push(options.length); names.push(options[i].name);
    steps++;
    return options[i].act();
  };
  const reqs = [];
  let next = 0;
  let fail = null;
  const life = [...cfg.life];
  const deacts = [];
  let active = null;
  let want = 0;
  const lifecycle = () => {
    const op = life.shift();
    if (op === 'activate') {
      want++;
      try {
        const p = w.ext.activate(w.context);
        if (p && p.then) p.then(() => {}, e => { w.failedActivation = e; });
      } catch (e) { w.errors.push('activation failed: ' + e); }
      active = true;
    } else {
      const before = w.clients.map(c => c.stopped);
      const from = w.calls.length;
      let v;
      try { v = w.ext.deactivate(); } catch (e) { w.errors.push('deactivation failed: ' + e); }
      const d = { settled: null, before, active, stops: w.calls.slice(from).filter(o => o.kind === 'stop') };
      if (v && typeof v.then === 'function') v.then(() => { d.settled = 'ok'; }, () => { d.settled = 'reject'; });
      else d.settled = 'now';
      deacts.push(d);
      active = false;
    }
  };
  for (;;) {
    await drain();
    if (w.errors.length) fail = w.errors[0];
    const startRejected = w.calls.some(c => c.kind === 'start' && c.outcome === 'reject');
    if (w.failedActivation && !startRejected) fail = fail || 'activation failed: ' + w.failedActivation;
    if (!fail && active !== null) {
      if (w.clients.length !== want) fail = `${w.clients.length} language clients after ${want} activations`;
      for (const c of w.clients) {
        if (c.started !== 1) fail = fail || `a language client was started ${c.started} times`;
        fail = fail || checkClient(w, c);
      }
    }
    if (!fail && active === true) {
      const c = w.clients[w.clients.length - 1];
      if (c.stopped) fail = 'the language client was stopped without need';
    }
    for (const d of deacts) {
      // Deactivating after an activation stops the client, and is over once the client has stopped.
      if (!fail && d.active && !w.clients.some((c, i) => c.stopped > (d.before[i] ?? 0))) fail = 'deactivation does not stop the language client';
      if (!fail && d.active === null && d.settled === null) fail = 'deactivating an extension that is not active never ends';
      if (!fail && d.active && d.settled !== null && d.stops.some(o => !o.outcome)) fail = 'deactivation is over before the language client has stopped';
    }
    if (!fail) fail = checkRequests(w, reqs, false);
    if (fail) break;
    const options = [];
    const up = active === true && w.calls.every(c => c.kind !== 'start' || c.outcome);
    if (life.length && (life[0] !== 'deactivate' || active !== true || next >= cfg.requests.length || cfg.earlyStop)) {
      // Lifecycle changes happen one after the other.
      if (!w.pending.some(o => o.kind === 'stop')) options.push({ name: life[0], act: lifecycle });
    }
    if (up && !startRejected && next < cfg.requests.length) {
      options.push({ name: 'request ' + next, act: () => { const q = cfg.requests[next++]; const r = w.request(q.params); r.free = q.free; reqs.push(r); } });
    }
    for (const op of [...w.pending]) {
      for (const o of op.outcomes) options.push({ name: `${op.kind} #${op.id}: ${o}`, act: () => w.settle(op, o) });
    }
    if (!options.length) { fail = checkRequests(w, reqs, true); break; }
    choose(options);
  }
  if (!fail) {
    for (const d of deacts) if (d.active && d.settled === null) fail = 'deactivation never ends';
  }
  return { taken, widths, names, steps, fail };
}

function configs (tier) {
  const v = [];
  const A = ['activate'];
  const req = (g, t) => ({ params: t === undefined ? { dotGraph: g } : { dotGraph: g, title: t } });
  // One request of every shape, every kind of outcome.
  for (const sp of [undefined, '/some/where/server', 'relative server']) for (const mode of [1, 2, 3]) {
    const base = { serverPath: sp, mode, rich: true };
    for (const g of GRAPHS) for (const t of TITLES) v.push({ ...base, space: 'one-request', life: A, requests: [req(g, t)] });
    for (const m of MALFORMED) v.push({ ...base, space: 'one-request', life: A, requests: [{ params: m }] });
    for (const m of [undefined, null, 5, 'digraph {}']) v.push({ ...base, space: 'one-request', life: A, requests: [{ params: m, free: true }] });
  }
  // Several requests at once, in every order of everything.
  const pool = [req('digraph { a }', 'f'), req('', 'g'), req('digraph { é𝒳 }', undefined), { params: {} }, { params: { dotGraph: 7 } }];
  for (const a of pool) for (const b of pool) if (a !== b) v.push({ space: 'two-requests', rich: tier === 'thorough', life: A, requests: [a, b] });
  for (const a of pool.slice(0, 3)) v.push({ space: 'same-graph', rich: true, life: A, requests: [a, a] }, { space: 'same-graph', life: A, requests: [a, { params: { ...a.params, title: 'other' } }] });
  if (tier === 'thorough') v.push({ space: 'same-graph', life: A, requests: [pool[0], pool[0], pool[0]] }, { space: 'same-graph', life: A, requests: [pool[0], pool[1], pool[0]] });
  v.push({ space: 'same-graph', life: A, requests: [pool[3], pool[3]] }, { space: 'same-graph', life: A, requests: [pool[0], pool[3], pool[0]] });
  for (const three of [[0, 1, 2], [0, 3, 1], [3, 0, 1], [0, 1, 3], [0, 3, 4]]) v.push({ space: 'three-requests', life: A, requests: three.map(i => pool[i]) });
  if (tier === 'thorough') for (const four of [[0, 1, 3, 4], [0, 3, 4, 2]]) v.push({ space: 'four-requests', life: A, requests: four.map(i => pool[i]) });
  // Lifecycles: every alternation, also deactivations without an activation.
  const D = 'deactivate'; const a = 'activate';
  const lives = [[D], [D, D], [a, D], [D, a, D], [a, D, D], [a, D, a, D], [D, D, a, D, D], [a, D, D, a, D]];
  if (tier === 'thorough') lives.push([a, D, a, D, a, D], [D, a, D, D, a, D, D]);
  for (const life of lives) for (const sp of [undefined, '/some/where/server']) {
    v.push({ space: 'lifecycles', serverPath: sp, life, requests: [] });
    if (life.includes(a)) {
      v.push({ space: 'lifecycles', serverPath: sp, life, requests: [pool[0]] });
      v.push({ space: 'lifecycles', serverPath: sp, life, requests: [pool[3]] });
    }
  }
  // The client goes down while graphs are on their way.
  for (const rs of [[0], [3], [0, 3], [0, 1]]) v.push({ space: 'stopped-meanwhile', life: [a, D], earlyStop: true, requests: rs.map(i => pool[i]) });
  return v;
}

async function explore (code, cfg, stats) {
  let prefix = [];
  for (;;) {
    const r = await run(code, cfg, prefix);
    stats.executions++;
    stats.transitions += r.steps;
    stats.states += r.taken.length - prefix.length + 1; // nodes of the choice tree met for the first time
    if (stats.samples.length < 3 && r.names.length > 4 && stats.executions % 97 === 1) stats.samples.push({ space: cfg.space, life: cfg.life, requests: short(cfg.requests), choices: r.names });
    if (r.fail) return { cfg, prefix: r.taken, names: r.names, fail: r.fail };
    // Next path in depth-first order.
    let i = r.taken.length - 1;
    while (i >= 0 && r.taken[i] + 1 >= r.widths[i]) i--;
    if (i < 0) return null;
    prefix = r.taken.slice(0, i).concat(r.taken[i] + 1);
  }
}
const short = (x) => JSON.parse(JSON.stringify(x, (k, v) => typeof v === 'string' && v.length > 100 ? v.slice(0, 20) + '…' : v));

async function main () {
  process.on('unhandledRejection', () => {});
  const [mode, file] = process.argv.slice(2);
  const t0 = Date.now();
  const code = bundle();
  if (mode === 'replay') {
    const r = JSON.parse(fs.readFileSync(file, 'utf8'));
    const cfg = configs(r.tier)[r.config];
    const x = await run(code, cfg, r.choices);
    console.log(x.names.map(n => '  ' + n).join('\n'));
    if (x.fail) { console.log(x.fail); console.log(`VIOLATION property=C20 replay=${file}`); process.exit(1); }
    console.log('held');
    return;
  }
  const tier = mode === 'thorough' ? 'thorough' : 'quick';
  const cfgs = configs(tier);
  const stats = { executions: 0, transitions: 0, states: 0, samples: [] };
  const spaces = {};
  let bad = null; let n = 0;
  for (let i = 0; i < cfgs.length && !bad; i++) {
    const before = stats.executions;
    bad = await explore(code, cfgs[i], stats);
    if (bad) bad.config = i;
    n++;
    const s = (spaces[cfgs[i].space] ??= { space: cfgs[i].space, configurations: 0, executions: 0 });
    s.configurations++; s.executions += stats.executions - before;
  }
  const wall = (Date.now() - t0) / 1000;
  fs.mkdirSync(path.join(VERIF, 'evidence'), { recursive: true });
  fs.writeFileSync(path.join(VERIF, 'evidence', 'C20.json'), JSON.stringify({
    property: 'C20', tier, seed: Number(process.env.VERIF_SEED ?? 1), level: 'model_checking',
    coverage: {
      states: stats.states, transitions: stats.transitions, traces_validated_against_impl: stats.executions, configurations: n, exhaustive: !bad,
      how: 'Stateless depth-first exploration of the real extension.ts (bundled with esbuild) against stand-ins for the vscode and language-client APIs: each call stays pending until the explorer settles it, in every order and with every outcome. states: nodes of the choice trees; transitions: choices executed; each execution runs the real code and is judged at every quiescent point.',
      spaces: Object.values(spaces), samples: stats.samples
    },
    assumptions: ['API calls return thenables and never throw synchronously, as the vscode API documents', 'the extension host activates the extension again only after deactivating it'],
    wall_s: wall, violations: bad ? 1 : 0
  }, null, 1));
  if (bad) {
    const dir = path.join(VERIF, 'replay'); fs.mkdirSync(dir, { recursive: true });
    const p = path.join(dir, 'C20.json');
    fs.writeFileSync(p, JSON.stringify({ property: 'C20', tier, config: bad.config, life: bad.cfg.life, requests: short(bad.cfg.requests), serverPath: bad.cfg.serverPath, choices: bad.prefix, names: bad.names, what: bad.fail, replay_with: `bash /verif/check.sh C20 replay ${p}` }, null, 1));
    console.log(bad.fail);
    console.log(bad.names.map(x => '  ' + x).join('\n'));
    console.log(`VIOLATION property=C20 replay=${p}`);
    process.exit(1);
  }
  for (const s of Object.values(spaces)) console.log(`  ${s.space}: ${s.configurations} configurations, ${s.executions} executions`);
  console.log(`C20 (${tier}): held on ${stats.executions} executions, ${stats.states} states, ${stats.transitions} transitions, ${wall.toFixed(1)} s`);
}
main().catch(e => { console.error(e); process.exit(2); });
