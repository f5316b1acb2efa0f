// The page simulator: properties C15 and C16. Driven like the other workers:
//   worker ID seed w of count dir cap traces | exec ID file
import fs from 'node:fs';
import vm from 'node:vm';
import crypto from 'node:crypto';
import { spawn } from 'node:child_process';
import path from 'node:path';
import { Compiled, Instance, Harness } from './glue.mjs';
import { parseDebug, differs, same, readBack, missing } from './tree.mjs';

const ROOT = process.env.DST_ROOT ?? '/verif';
const REPO = process.env.DST_REPO ?? '/repo';
const sha = (s) => crypto.createHash('sha1').update(s).digest('hex').slice(0, 16);
const cut = (s, n = 300) => { const t = JSON.stringify(s); return t.length > n ? t.slice(0, n) + '...' : t; };
const macro = () => new Promise((r) => setImmediate(r));

class Viol extends Error { constructor(cls, detail) { super(detail); this.cls = cls; } }

// --- what the native library says
class Native {
  constructor() {
    this.p = spawn(process.env.DST_BIN ?? `${ROOT}/build/sim/debug/dst`, ['serve'], { stdio: ['pipe', 'pipe', 'ignore'] });
    this.buf = [];
    this.wait = null;
    let part = '';
    this.p.stdout.setEncoding('utf8');
    this.p.stdout.on('data', (d) => {
      let k = d.indexOf('\n');
      if (k < 0) { part += d; return; }
      const w = this.wait;
      this.wait = null;
      const line = part + d.slice(0, k);
      part = d.slice(k + 1);
      w?.res(line);
    });
    this.p.stdin.on('error', () => {});
    this.p.on('exit', (code, sig) => { this.dead = { code, sig }; this.wait?.res(null); });
  }
  async ask(q) {
    if (this.dead) throw new Harness('the native server ended');
    const line = await new Promise((res) => { this.wait = { res }; this.p.stdin.write(JSON.stringify(q) + '\n'); });
    if (line === null) {
      if (this.dead.code === 77) throw new Viol('hang', 'the native library made more steps than its budget allows');
      if (this.dead.sig) throw new Viol(`crash-signal-${this.dead.sig}`, 'the native library ended the process');
      throw new Harness(`the native server ended: ${JSON.stringify(this.dead)}`);
    }
    return JSON.parse(line);
  }
  end() { this.p.kill(); }
}

// The module in both builds: the one that is shipped, and the one in which
// arithmetic and assertions are checked.
const modules = {};
const compiledFor = (c) => {
  const kind = c.build === 'debug' ? 'debug' : 'release';
  return modules[kind] ??= new Compiled(`${ROOT}/build/wasm/wasm32-unknown-unknown/${kind}/whitespace.wasm`);
};

// --- C16
function call(inst, t) {
  try { return { value: inst.parseString(t) }; } catch (e) {
    if (e instanceof Harness) throw e;
    if (inst.harness) throw inst.harness;
    return { error: e, message: e?.message };
  }
}
const trapped = (r) => r.error instanceof WebAssembly.RuntimeError || r.error instanceof RangeError;
function judge(ref, r, how) {
  if (ref.panic !== undefined) return;
  if (ref.tree !== undefined) {
    if (r.error) throw new Viol('error-for-tree', `${how}: ${cut(String(r.message))} though the text is accepted`);
    const d = differs(parseDebug(ref.tree), r.value);
    if (d) throw new Viol('tree', `${how}: ${d}`);
  } else {
    if (!r.error) throw new Viol('tree-for-error', `${how}: a tree though the text is rejected`);
    const d = typeof r.message === 'string' ? missing(ref.diags, r.message) : 'no message';
    if (d) throw new Viol('diagnostics', `${how}: ${d}: ${cut(r.message)}`);
  }
}
function agrees(got, fresh, show) {
  const agree = got.error ? fresh.error && got.message === fresh.message : !fresh.error && same(got.value, fresh.value);
  if (!agree) throw new Viol('not-as-fresh', `${show}: ${got.error ? cut(String(got.message)) : 'a tree'}, a fresh instance gives ${fresh.error ? cut(String(fresh.message)) : 'a tree'}`);
}
function scribble(v, d) {
  if (v === null || typeof v !== 'object' || d === 0) return;
  if (v instanceof Map) { for (const x of v.values()) scribble(x, d - 1); v.clear(); return; }
  for (const k of Object.keys(v)) { scribble(v[k], d - 1); if (!Array.isArray(v)) delete v[k]; }
  if (Array.isArray(v)) v.length = 0; else v.scribbled = true;
}
function texts(c) {
  if (!Array.isArray(c.texts)) throw new Harness('texts');
  return c.texts.map((t) => {
    if (t && typeof t === 'object') return String(t.text).repeat(Math.max(0, Math.min(1 << 20, t.repeat | 0))) + String(t.tail ?? '');
    return String(t);
  });
}
async function c16(c, st, native) {
  const ts = texts(c);
  const compiled = compiledFor(c);
  st.add(`runs_${c.build === 'debug' ? 'debug' : 'release'}_module`, 1);
  if (c.kind === 'leak') {
    const rounds = Math.max(0, Math.min(20000, c.rounds | 0));
    if (rounds < 100 || !ts.length) throw new Harness('rounds');
    const inst = new Instance(compiled);
    for (const t of ts) if (trapped(call(inst, t))) throw new Viol('trap', `trap for ${cut(t)}`);
    const mark = [];
    for (let k = 0; k < rounds; k++) {
      // With a name and a comment never seen before, if asked for.
      const n = String(k).padStart(6, '0');
      // Or a long one that the diagnostics quote.
      const long = c.fresh === 2 ? `n${n}`.repeat(150) : '';
      const bad = long && [`print 1 ${long}\n`, `class ${long} < ${long} {}\n`, `fun f(${long}, ${long}) {}\n`, `print ${long}: 1, ${long}: 2\n`][k % 4];
      for (const t of ts) call(inst, long ? bad + t : c.fresh ? `n${n}\n${t}\n// ${n}\n` : t);
      if (k === (rounds / 3 | 0) || k === rounds - 1) mark.push([inst.live, inst.pages(), inst.heap.length]);
    }
    st.add('calls', rounds * ts.length);
    st.steps += rounds * ts.length;
    const [a, b] = mark;
    if (b[0] > a[0]) throw new Viol('references', `${b[0] - a[0]} more live references after ${rounds} rounds of the same texts`);
    if (b[1] > a[1]) throw new Viol('memory', `memory grew from ${a[1]} to ${b[1]} pages over rounds of the same texts`);
    // And it still answers as it did.
    ts.forEach((t) => agrees(call(inst, t), call(new Instance(compiled), t), `after ${rounds} rounds, text ${cut(t)}`));
    st.trace(JSON.stringify(mark));
    st.sig(JSON.stringify(c));
    return;
  }
  if (c.kind !== 'calls') throw new Harness('kind');
  const plain = c.native === 0;
  const refs = plain ? [] : await native.ask({ q: 'refs', texts: ts });
  const inst = new Instance(compiled);
  let seq = '';
  ts.forEach((t, k) => {
    const got = call(inst, t);
    const fresh = call(new Instance(compiled), t);
    st.add('calls', 1);
    st.add('fresh_instances', 1);
    st.steps += 2;
    const show = `call ${k + 1} of ${ts.length}, text ${cut(t)}`;
    agrees(got, fresh, show);
    if (plain) { scribble(got.value, 3); return; }
    judge(refs[k], got, show);
    // What the caller does with its result is its own business.
    scribble(got.value, 3);
    st.add(refs[k].tree !== undefined ? 'trees' : 'errors', 1);
    st.trace(refs[k].edges + (got.error ? got.message : refs[k].tree));
    if (got.error && k + 1 < ts.length) st.add('fault.call_failed_before_others', 1);
    seq += refs[k].edges;
  });
  // The same again must not need more.
  if (plain) return;
  const before = [inst.live, inst.pages()];
  for (let k = 0; k < 2; k++) for (const t of ts) call(inst, t);
  if (inst.live > before[0]) throw new Viol('references', `${inst.live - before[0]} more live references after the same ${ts.length} texts again`);
  st.add('calls', 2 * ts.length);
  st.sig(JSON.stringify(ts));
  st.state(seq);
}

// --- C15
let pageHtml = null;
const entity = { lt: '<', gt: '>', amp: '&', quot: '"', apos: "'", nbsp: '\u00a0' };
const decode = (s) => s.replace(/&(#x?[0-9a-fA-F]+|\w+);/g, (m, e) => (e[0] === '#' ? String.fromCodePoint(e[1] === 'x' ? parseInt(e.slice(2), 16) : parseInt(e.slice(1), 10)) : entity[e] ?? m));
function html() {
  if (pageHtml) return pageHtml;
  const t = fs.readFileSync(`${REPO}/index.html`, 'utf8').replace(/<!--[\s\S]*?-->/g, '');
  const scripts = [];
  for (const m of t.matchAll(/<script([^>]*)>([\s\S]*?)<\/script>/g)) {
    const src = /src\s*=\s*["']([^"']+)["']/.exec(m[1]);
    scripts.push({ module: /type\s*=\s*["']module["']/.test(m[1]), text: src ? fs.readFileSync(path.join(REPO, src[1]), 'utf8') : m[2] });
  }
  const body = t.replace(/<script[\s\S]*?<\/script>/g, '');
  const els = {};
  for (const m of body.matchAll(/<(\w+)([^>]*?)\bid\s*=\s*["']([^"']+)["']([^>]*)>/g)) {
    let text = '';
    const rest = body.slice(m.index + m[0].length);
    const end = rest.indexOf(`</${m[1]}>`);
    if (end >= 0) text = decode(rest.slice(0, end)).replace(/^\n/, '');
    els[m[3]] = { tag: m[1].toUpperCase(), text };
  }
  if (!els.source || !els.result) throw new Harness('no #source or #result in the page');
  return (pageHtml = { scripts, els });
}

class Page {
  constructor(initial, hidden) {
    const { scripts, els } = html();
    this.scripts = scripts;
    this.now = 0;
    this.timers = [];
    this.ids = 0;
    this.errors = [];
    this.inst = null;
    this.hidden = !!hidden;
    this.lines = 0;
    const page = this;
    const target = () => {
      const ls = [];
      return {
        addEventListener(type, f, o) { if (!ls.some((l) => l.type === type && l.f === f)) ls.push({ type, f, once: !!o?.once }); },
        removeEventListener(type, f) { const k = ls.findIndex((l) => l.type === type && l.f === f); if (k >= 0) ls.splice(k, 1); },
        dispatchEvent(ev) { page.fire(this, ev.type, ev); return true; },
        _ls: ls,
      };
    };
    const element = (id, { tag, text }) => {
      let content = text, value = text;
      const el = Object.assign(target(), {
        id, tagName: tag, style: {}, dataset: {}, focus() {}, blur() {}, disabled: false,
        classList: { add() {}, remove() {}, toggle() {}, contains() { return false; } },
        setAttribute() {}, removeAttribute() {}, getAttribute() { return null; },
        append(...t) { content += t.join(''); }, appendChild(n) { content += n?.data ?? n?.textContent ?? ''; return n; },
        replaceChildren(...t) { content = t.map((x) => x?.data ?? x).join(''); },
        get firstChild() { return content === '' ? null : { data: content, nodeType: 3 }; },
      });
      const set = (v) => { content = v === null || v === undefined ? '' : String(v); if (id === 'result') page.lines++; };
      // A text area's value is its text with unified line ends.
      if (tag === 'TEXTAREA') Object.defineProperty(el, 'value', { get: () => value, set: (v) => { value = String(v).replace(/\r\n?/g, '\n'); } });
      for (const k of ['innerText', 'textContent']) Object.defineProperty(el, k, { get: () => content, set });
      Object.defineProperty(el, 'innerHTML', { get: () => content, set: (v) => set(decode(String(v).replace(/<br\s*\/?>/g, '\n').replace(/<!--[\s\S]*?-->|<[a-zA-Z\/!?][^>]*>/g, ''))) });
      return el;
    };
    this.els = Object.fromEntries(Object.entries(els).map(([id, e]) => [id, element(id, e)]));
    if (initial !== undefined) this.els.source.value = initial;
    const byId = (id) => this.els[id] ?? null;
    this.document = Object.assign(target(), {
      readyState: 'interactive', getElementById: byId, querySelector: (s) => {
        const m = /^(?:\w+)?#([\w-]+)$/.exec(s);
        return m ? byId(m[1]) : Object.values(this.els).find((e) => e.tagName === s.toUpperCase()) ?? null;
      },
      createTextNode: (data) => ({ data: String(data), nodeType: 3 }),
      documentElement: element('', { tag: 'HTML', text: '' }), body: element('', { tag: 'BODY', text: '' }),
    });
    Object.defineProperty(this.document, 'hidden', { get: () => page.hidden });
    Object.defineProperty(this.document, 'visibilityState', { get: () => (page.hidden ? 'hidden' : 'visible') });
    const timer = (every) => (f, ms = 0, ...a) => { const id = ++page.ids; page.timers.push({ id, at: page.now + Math.max(0, +ms || 0), every: every ? Math.max(1, +ms || 0) : 0, f, a }); return id; };
    const clear = (id) => { page.timers = page.timers.filter((t) => t.id !== id); };
    // A page nobody sees draws nothing.
    const frame = (f) => { const id = timer(false)(() => f(page.now), 16); page.timers[page.timers.length - 1].frame = true; return id; };
    class FakeDate extends Date { constructor(...a) { if (a.length) super(...a); else super(page.now); } static now() { return page.now; } }
    const quiet = () => {};
    const sandbox = Object.assign(target(), {
      document: this.document, console: { log: quiet, error: quiet, warn: quiet, info: quiet, debug: quiet, trace: quiet, time: quiet, timeEnd: quiet, table: quiet, dir: quiet },
      setTimeout: timer(false), setInterval: timer(true), clearTimeout: clear, clearInterval: clear, requestAnimationFrame: frame, cancelAnimationFrame: clear,
      requestIdleCallback: (f) => timer(false)(() => f({ didTimeout: false, timeRemaining: () => 10 }), 1), cancelIdleCallback: clear,
      queueMicrotask: (f) => { Promise.resolve().then(f).catch((e) => page.errors.push(e)); },
      performance: { now: () => page.now }, Date: FakeDate, URL, TextEncoder, TextDecoder, structuredClone,
      Event: class { constructor(type, o) { this.type = type; Object.assign(this, o); } preventDefault() {} stopPropagation() {} },
      location: { href: 'http://localhost/index.html', search: '', hash: '' },
      alert: quiet,
    });
    sandbox.window = sandbox; sandbox.self = sandbox; sandbox.globalThis = sandbox;
    this.window = sandbox;
    this.ctx = vm.createContext(sandbox);
    this.realm = vm.runInContext('({Object, Array, Map, Error})', this.ctx);
    this.loaded = new Promise((r) => { this.load = r; });
  }
  async start() {
    const page = this;
    // What pkg/whitespace.js exports.
    const init = () => page.loaded;
    const parseString = (t) => {
      if (!page.inst) throw new page.realm.Error("Cannot read properties of undefined (reading 'parseString')");
      return page.inst.parseString(t);
    };
    const pkg = new vm.SyntheticModule(['default', 'initSync', 'parseString'], function () {
      this.setExport('default', init);
      this.setExport('initSync', init);
      this.setExport('parseString', parseString);
    }, { context: this.ctx });
    const cache = new Map();
    const link = (spec, from) => {
      if (/(^|\/)pkg\/whitespace(\.js)?$/.test(spec)) return pkg;
      const f = path.join(path.dirname(from.identifier), spec);
      if (!cache.has(f)) cache.set(f, new vm.SourceTextModule(fs.readFileSync(f, 'utf8'), { context: this.ctx, identifier: f }));
      return cache.get(f);
    };
    const opt = { importModuleDynamically: async (spec, from) => { const m = link(spec, { identifier: `${REPO}/index.html` }); if (m.status === 'unlinked') await m.link(link); if (m.status === 'linked') await m.evaluate(); return m; } };
    for (const s of [...this.scripts.filter((s) => !s.module), ...this.scripts.filter((s) => s.module)]) {
      try {
        if (!s.module) { new vm.Script(s.text, opt).runInContext(this.ctx, { timeout: 20000 }); continue; }
        const m = new vm.SourceTextModule(s.text, { context: this.ctx, identifier: `${REPO}/index.html`, ...opt });
        await m.link(link);
        m.evaluate({ timeout: 20000 }).catch((e) => page.errors.push(e));
      } catch (e) { page.errors.push(e); }
    }
    await macro();
  }
  fire(t, type, init = {}) {
    const ev = { type, target: t, currentTarget: t, preventDefault() {}, stopPropagation() {}, stopImmediatePropagation() {}, ...init };
    // Events of the text area and the document bubble.
    const chain = t === this.els.source ? [t, this.document.body, this.document.documentElement, this.document, this.window] : t === this.document ? [t, this.window] : [t];
    for (const o of chain) {
      if (o !== t && !['input', 'change', 'keyup', 'click', 'compositionend', 'DOMContentLoaded', 'visibilitychange'].includes(type)) break;
      ev.currentTarget = o;
      const on = o['on' + type];
      const fs_ = [...o._ls.filter((l) => l.type === type)];
      if (typeof on === 'function') fs_.unshift({ f: on });
      for (const l of fs_) {
        if (l.once) o.removeEventListener(type, l.f);
        try { if (typeof l.f === 'function') l.f.call(o, ev); else l.f.handleEvent(ev); } catch (e) { this.errors.push(e); }
      }
    }
  }
  // Lets simulated time pass.
  async run(ms, limit = 10000) {
    const end = this.now + ms;
    for (let k = 0; k < limit; k++) {
      const t = this.timers.filter((t) => t.at <= end && !(t.frame && this.hidden)).sort((a, b) => a.at - b.at || a.id - b.id)[0];
      if (!t) break;
      this.now = Math.max(this.now, t.at);
      if (t.every) t.at = this.now + t.every; else this.timers = this.timers.filter((x) => x !== t);
      try { t.f.call(this.window, ...t.a); } catch (e) { this.errors.push(e); }
      await macro();
    }
    this.now = end;
  }
  shown() { return this.els.result.textContent; }
}

const KINDS = ['change', 'keyup', 'focus', 'blur', 'click'];
async function c15(c, st, native) {
  if (c.kind !== 'page' || !Array.isArray(c.events)) throw new Harness('kind');
  const evs = c.events;
  const count = (k) => evs.filter((e) => e[0] === k).length;
  for (const k of ['load', 'ready', 'complete']) if (count(k) !== 1) throw new Harness(k);
  if (evs.findIndex((e) => e[0] === 'complete') < evs.findIndex((e) => e[0] === 'ready')) throw new Harness('order');
  const long = (t) => (t && typeof t === 'object' ? String(t.text).repeat(Math.max(0, Math.min(1 << 20, t.repeat | 0))) + String(t.tail ?? '') : String(t));
  const page = new Page(c.initial === undefined ? undefined : String(c.initial), c.hidden);
  const see = (on) => { page.hidden = !on; page.fire(page.document, 'visibilitychange'); };
  await page.start();
  let got = {}, order = '', trace = '';
  const refs = new Map();
  const check = async (what) => {
    await page.run(5000);
    const t = page.els.source.value;
    if (!refs.has(t)) refs.set(t, (await native.ask({ q: 'refs', texts: [t] }))[0]);
    const ref = refs.get(t), shown = page.shown();
    const at = `${what}, editor text ${cut(t)}`;
    if (page.inst?.harness) throw page.inst.harness;
    if (ref.panic !== undefined) return;
    if (ref.tree !== undefined) {
      let v;
      try { v = readBack(shown); } catch (e) { throw new Viol('not-the-tree', `${at}: displayed ${cut(shown)}: ${e.message}; errors ${page.errors.map((e) => e?.message).slice(-2)}`); }
      const d = differs(parseDebug(ref.tree), v);
      if (d) throw new Viol('not-the-tree', `${at}: displayed ${cut(shown)}: ${d}`);
      st.add('trees_displayed', 1);
    } else {
      const d = missing(ref.diags, shown);
      if (d) throw new Viol('not-the-error', `${at}: displayed ${cut(shown)}: ${d}`);
      st.add('errors_displayed', 1);
    }
    trace += sha(shown);
  };
  let k = 0;
  const early = () => { st.add('edits', 1); if (!got.load) st.add('fault.edit_before_load', 1); if (!got.ready) st.add('fault.edit_before_ready', 1); };
  for (const e of evs) {
    k++;
    switch (e[0]) {
      case 'edit':
        early();
        page.els.source.value = long(e[1]);
        page.fire(page.els.source, 'input', { inputType: e[2] === undefined ? 'insertText' : String(e[2]), data: null, isComposing: false });
        break;
      case 'compose': {
        early();
        const t = long(e[1]), n = Math.max(0, Math.min(5, e[2] | 0));
        const of = { isComposing: true, inputType: 'insertCompositionText', data: t.slice(-3) };
        page.fire(page.els.source, 'compositionstart', of);
        for (let j = 0; j <= n; j++) {
          page.els.source.value = j < n ? t.slice(0, t.length * (j + 1) / (n + 2) | 0) : t;
          page.fire(page.els.source, 'compositionupdate', of);
          page.fire(page.els.source, 'input', of);
        }
        page.fire(page.els.source, 'compositionend', { data: of.data });
        st.add('fault.composed_edit', 1);
        break;
      }
      case 'ready': page.fire(page.document, 'DOMContentLoaded'); if (!got.load) st.add('fault.module_late', 1); break;
      case 'complete': page.document.readyState = 'complete'; page.fire(page.window, 'load'); break;
      case 'load': page.inst = new Instance(compiledFor(c), page.realm); page.load(page.inst.x); if (!got.ready) st.add('fault.module_first', 1); break;
      case 'tick': await page.run(Math.max(0, Math.min(10000, e[1] | 0))); break;
      case 'hide': if (!page.hidden) { see(false); st.add('fault.page_hidden', 1); } break;
      case 'show': if (page.hidden) see(true); break;
      case 'settle': if (got.load && got.complete && !page.hidden) await check(`after event ${k} of ${evs.length}`); break;
      default: if (!KINDS.includes(e[0])) throw new Harness('event'); page.fire(page.els.source, e[0]); st.add('fault.stray_event', 1);
    }
    got[e[0]] = true;
    order += e[0][0];
    await macro();
    st.steps++;
  }
  if (c.hidden) st.add('fault.page_hidden', 1);
  if (page.hidden) { see(true); await macro(); }
  await check('at the end');
  st.trace(order + trace);
  st.state(order + trace);
  if (got.edit || got.compose || evs.findIndex((e) => e[0] === 'load') < evs.findIndex((e) => e[0] === 'ready')) st.sig(JSON.stringify(c));
}

// --- worker and exec
class Stats {
  constructor() { this.counts = {}; this.sigs = new Set(); this.states = new Set(); this.steps = 0; this.evals = 0; this.h = ''; }
  add(k, n) { this.counts[k] = (this.counts[k] ?? 0) + n; }
  sig(s) { this.sigs.add(sha(s)); }
  state(s) { this.states.add(sha(s)); }
  trace(s) { this.h = sha(this.h + s); }
}
const RUN = { C15: c15, C16: c16 };
async function one(id, c, st, native) {
  try { await RUN[id](c, st, native); return null; } catch (e) {
    if (e instanceof Viol) return e;
    throw e;
  }
}
process.on('unhandledRejection', () => {});

const [verb, id, ...a] = process.argv.slice(2);
const native = new Native();
let code = 0;
if (verb === 'worker') {
  const [seed, w, of, count, dir, cap, traces] = a;
  const st = new Stats();
  const prog = fs.openSync(`${dir}/w${w}`, 'w');
  const min = fs.openSync(`${dir}/min`, 'r');
  const t0 = performance.now();
  const samples = [];
  let capped = false, log = '';
  const skip = new Set(fs.existsSync(`${dir}/skip`) ? fs.readFileSync(`${dir}/skip`, 'utf8').split('\n').filter(Boolean).map(Number) : []);
  for (let i = Number(w); i < Number(count); i += Number(of)) {
    const b = Buffer.alloc(8);
    fs.readSync(min, b, 0, 8, 0);
    if (BigInt(i) > b.readBigUInt64LE(0)) break;
    if ((performance.now() - t0) / 1000 > Number(cap)) { capped = true; break; }
    b.writeBigUInt64LE(BigInt(i), 0);
    fs.writeSync(prog, b, 0, 8, 0);
    if (skip.has(i)) continue;
    st.h = '';
    st.evals++;
    let c;
    try {
      c = await native.ask({ q: 'case', id, seed, i });
      const n = st.sigs.size;
      const v = await one(id, c, st, native);
      if (v) {
        fs.writeFileSync(`${dir}/v${w}`, JSON.stringify({ i, class: v.cls, detail: v.message }));
        code = 10;
        break;
      }
      if (st.sigs.size > n && samples.length < 3 && JSON.stringify(c).length < 3000) samples.push(c);
    } catch (e) {
      fs.writeFileSync(`${dir}/e${w}`, `run ${i}: ${e.stack}\ncase ${JSON.stringify(c)?.slice(0, 5000)}`);
      code = 11;
      break;
    }
    if (traces === '1') log += `${i} ${st.h || '0'}\n`;
  }
  if (traces === '1') fs.writeFileSync(`${dir}/t${w}`, log);
  fs.writeFileSync(`${dir}/s${w}`, JSON.stringify({
    evals: st.evals, counts: st.counts, sigs: [...st.sigs].join(' '), states: [...st.states].join(' '), edges: '', guards: 0, steps: st.steps, samples, capped,
  }));
} else if (verb === 'exec') {
  const j = JSON.parse(fs.readFileSync(a[0], 'utf8'));
  const st = new Stats();
  try {
    const c = j.case ?? j;
    let v;
    for (const x of c.seq ?? [c]) if ((v = await one(id, x, st, native))) break;
    if (v) { console.log(JSON.stringify({ class: v.cls, detail: v.message, trace: st.h })); code = 10; } else console.log(JSON.stringify({ ok: true, trace: st.h }));
  } catch (e) { console.log(JSON.stringify({ error: String(e.stack) })); code = 11; }
} else {
  console.error('worker|exec');
  code = 2;
}
native.end();
process.exit(code);
