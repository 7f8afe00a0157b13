// A simulated JavaScript realm: a vm context whose clock, timers, randomness,
// console, file descriptors and event loop all belong to the simulator.  Each
// event runs as one task; promise reactions run when the task ends, as in a
// browser.
import vm from 'node:vm';
import { Host, Abort } from './wasi.mjs';
import { Rng } from './prng.mjs';

const PRELUDE = new vm.Script(`(() => {
  const D = Date, H = globalThis.__H;
  class SimDate extends D { constructor(...a) { if (a.length) super(...a); else super(H.now()); } static now() { return H.now(); } getTimezoneOffset() { return H.tz; } }
  globalThis.Date = SimDate;
  Math.random = () => H.random();
  globalThis.performance = { now: () => H.perf() };
  globalThis.crypto = { getRandomValues: a => { for (let i = 0; i < a.length; i++) a[i] = H.byte(); return a; } };
  globalThis.setTimeout = (f, ms, ...a) => H.setTimeout(() => f(...a), ms);
  globalThis.clearTimeout = id => H.clearTimeout(id);
  globalThis.setInterval = (f, ms, ...a) => H.setInterval(() => f(...a), ms); globalThis.clearInterval = id => H.clearTimeout(id);
  globalThis.structuredClone = v => JSON.parse(JSON.stringify(v));
  globalThis.queueMicrotask = f => { Promise.resolve().then(f); };
  const con = k => (...a) => H.console(k, a.map(x => { try { return String(x); } catch { return '?'; } }).join(' '));
  globalThis.console = { log: con('log'), warn: con('warn'), error: con('error'), debug: con('debug'), info: con('info') };
})()`, { filename: 'sim-prelude.js' });
const TICK = new vm.Script('__H.tick()', { filename: 'sim-tick.js' });

export class Realm {
  constructor(dec, { wall = 1700000000, tz = 0, entropy = 0, fsMode = 'browser', onConsole = null, onWrite = null } = {}) {
    this.d = dec; this.t = 0; this.wall = wall * 1000; this.pending = []; this.seq = 0; this.abort = null; this.lines = [];
    this.rng = new Rng('entropy/' + entropy); this.ticks = 0;
    const H = this.H = {
      now: () => this.wall + Math.floor(this.t), perf: () => this.t, tz, random: () => this.rng.f(), byte: () => this.rng.u32() & 255,
      setTimeout: (f, ms) => this.post('timer', f, Math.max(0, Number(ms) || 0)), clearTimeout: id => this.cancel(id),
      setInterval: (f, ms) => { const id = ++this.seq, again = () => { this.again = () => this.post('interval', again, Math.max(4, Number(ms) || 0), id); f(); }; return this.post('interval', again, Math.max(4, Number(ms) || 0), id); },
      console: (k, s) => { this.d.event(`console.${k} ${s.slice(0, 200)}`); this.lines.push(s); if (this.lines.length > 200) this.lines.shift(); if (onConsole) onConsole(k, s); },
      tick: () => { const f = this.cur; this.cur = null; f(); },
    };
    this.g = { __H: H, TextEncoder, TextDecoder };
    vm.createContext(this.g, { microtaskMode: 'afterEvaluate' });
    PRELUDE.runInContext(this.g);
    if (fsMode !== 'browser') {
      const enosys = () => { const e = new Error('not implemented'); e.code = 'ENOSYS'; return e; };
      this.g.fs = new Proxy({
        constants: { O_WRONLY: -1, O_RDWR: -1, O_CREAT: -1, O_TRUNC: -1, O_APPEND: -1, O_EXCL: -1, O_DIRECTORY: -1 },
        writeSync: (fd, b) => b.length,
        write: (fd, buf, off, len, pos, cb) => onWrite(fd, buf.slice(off, off + len), cb),
      }, { get: (t, k) => k in t ? t[k] : typeof k === 'string' ? (...a) => { const cb = a[a.length - 1]; if (typeof cb === 'function') cb(enosys()); } : undefined });
    }
  }
  // a task of the event loop; delay in simulated milliseconds
  // timers that only ever set the next one (polling) rest until something else happens
  post(label, f, delay = 0, id = ++this.seq) {
    const nest = /^(timer|interval|animation frame)$/.test(label) ? (this.nest ?? 0) + 1 : 0, p = { id, label, f, nest, delay, due: this.t + delay };
    (nest > 50 ? this.parked ??= [] : this.pending).push(p); return id;
  }
  cancel(id) { if (this.running === id) this.again = null; for (const l of [this.pending, this.parked ?? []]) { const i = l.findIndex(p => p.id === id); if (i >= 0) l.splice(i, 1); } }
  rouse() { if (this.parked) { for (const p of this.parked) this.pending.push({ ...p, nest: 40, due: this.t + p.delay }); this.parked = null; } }
  // run f as one task, then its promise reactions
  task(f) { this.ticks++; this.cur = f; this.t += 0.05; 
    try { TICK.runInContext(this.g); } catch (e) { if (!this.abort) { let m; try { m = String(e); } catch { m = '?'; } (this.uncaught ??= []).push(m); this.d.event('uncaught ' + m); } }
    if (this.abort) throw this.abort;
  }
  eval(script) { return script.runInContext(this.g); }
  // one scheduler step: which pending event happens next is the decider's choice
  step(eligible = this.pending) {
    const list = eligible.filter(p => p.due <= this.t + 1e-9);
    const pool = list.length ? list : eligible.length ? [eligible.reduce((a, b) => (b.due < a.due ? b : a))] : [];
    if (!pool.length) return false;
    const k = pool.length === 1 ? 0 : Math.min(pool.length - 1, this.d.choose('event', 0, r => r.int(pool.length)));
    const p = pool[k]; this.pending.splice(this.pending.indexOf(p), 1);
    if (p.due > this.t) this.t = p.due;
    this.d.event(`task ${p.label}`);
    if (!p.nest) this.rouse();
    this.nest = p.nest; this.running = p.id;
    try { this.task(p.f); } finally { const a = this.again; this.again = null; a?.(); this.nest = 0; this.running = 0; }
    return true;
  }
}

// the `verif` imports a simulated runtime asks for
export function verifImports(realm, module, opts) {
  const h = new Host(module, { decider: realm.d, limits: { calls: 50_000_000 }, ...opts });
  const v = h.imports().verif ?? {};
  const out = {};
  for (const [k, f] of Object.entries(v)) out[k] = (...a) => { try { return f(...a); } catch (e) { if (e instanceof Abort) realm.abort = e; throw e; } };
  return { imports: out, host: h };
}
