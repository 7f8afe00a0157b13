// Scenarios on the JavaScript module (C10 answers, C11 survival, C12 bounded
// footprint): the compiled program under its JavaScript glue in a simulated
// realm.
import fs from 'node:fs';
import path from 'node:path';
import vm from 'node:vm';
import { Realm, verifImports } from './jsrealm.mjs';
import { Host, Abort } from './wasi.mjs';
import { Decider } from './decider.mjs';
import { Rng } from './prng.mjs';
import { genEdtf, FEATURES, odd } from './corpus.mjs';
import { workerApi, dropSome } from './runner.mjs';
import { asModule } from './s_lib.mjs';
import { sameJSON } from './s_cli.mjs';

const ENC = new TextEncoder();
const HARNESS = new vm.Script(`(() => {
  const H = globalThis.__H;
  H.text = s => s;
  globalThis.__call = (id, how, src) => {
    let ret;
    try {
      const args = (0, eval)('[' + src + ']');
      const f = H.pick(id);
      switch (how) {
        case 'new': ret = new f(...args); break;
        case 'apply': ret = Reflect.apply(f, { toString() { throw new Error('this'); } }, args); break;
        case 'bound': ret = f.bind(undefined, ...args)(); break;
        default: ret = f(...args);
      }
    } catch (e) { H.result(id, 'threw', H.str(e)); return; }
    if (!ret || typeof ret.then !== 'function') { H.result(id, 'no-promise', typeof ret); return; }
    ret.then(v => H.result(id, 'resolved', typeof v === 'string' ? v : 'not a string: ' + H.str(v)), e => H.result(id, 'rejected', typeof e === 'string' ? e : H.str(e)));
  };
  H.str = e => { try { return String(e); } catch { return '?'; } };
  globalThis.__start = (k, module, extra) => {
    const go = new Go();
    go.exit = code => H.exited(k, code);
    if (extra) go.importObject.verif = extra;
    const inst = new WebAssembly.Instance(module, go.importObject);
    H.instance(k, go, inst);
    go.run(inst).then(() => H.ended(k), e => H.ended(k, H.str(e)));
  };
})()`, { filename: 'sim-harness.js' });

// argument lists no page should be able to hurt the module with
const WEIRD = ['', 'undefined', 'null', '42', 'NaN', '-0', '1e400', 'true', 'Symbol("1985")', '10n', '({})', '[]', '["1985"]', '({toString(){throw new Error("x")}})', '({toString(){return "1985"}})',
  'new Proxy({}, {get(){throw new Error("p")}})', 'function(){}', 'class A{}', 'new String("1985")', 'new Date(0)', 'globalThis', '"\\ud800"', '"1985\\udc00-01"', '"1985".repeat(20000)', '"X".repeat(50000)', '"\\u0000"', 'new Uint8Array(9)',
  '"1985","1986"', 'undefined,"1985"', '"1985",null,3,4,5,6,7,8,9', 'Promise.resolve("1985")', 'new Promise(()=>{})', 'parse_edtf', '"[" + "1985,".repeat(3000) + "1986]"', '"Y" + "9".repeat(4000)', '"Y1E" + "9".repeat(400)', '"1985S" + "9".repeat(300)', 'Object.create(null)', '-1', '1985', '/x/', 'new Map', 'WebAssembly', '"?".repeat(3000)', '"1985-" + "0".repeat(30)'];

export async function worker(ctx) {
  process.on('unhandledRejection', () => {});
  const mods = {}; for (const [k, m] of Object.entries(ctx.js)) mods[k] = await asModule(m);
  const lib = await asModule(ctx.plainModule);
  const glue = {};
  glue.go = new vm.Script(ctx.glue.go, { filename: 'wasm_exec.js' });
  glue.page = new vm.Script(ctx.glue.page, { filename: 'bundle.js' });
  const base = new Map(), words = [];
  function alone(s) {
    const key = JSON.stringify(['rawjson', s]); let v = base.get(key);
    if (v === undefined) {
      const r = new Host(lib, { args: ['libsim'], env: [], clock: {}, decider: new Decider({ decisions: {} }), stdin: ENC.encode(JSON.stringify({ tasks: [[['rawjson', s]]] })) }).run();
      v = r.emits[0]?.replace(/^0 0 /, '') ?? 'DIED'; base.set(key, v);
    }
    return v;
  }

  function world(plan, dec) {
    const w = { go: [], inst: [], results: new Map(), exits: [], ended: [], issued: 0, depth: 0, fault: {} };
    const realm = w.realm = new Realm(dec, {
      wall: plan.wall ?? 1700000000, tz: plan.tz ?? 0, entropy: plan.entropy ?? 0, fsMode: plan.fs,
      onWrite: (fd, b, cb) => {
        const v = dec.choose('fs', 0, r => (r.chance(plan.fsFault ?? 0) ? r.pick(plan.fsKinds ?? [1]) : 0));
        const fin = (e, n) => { if (e) { const x = new Error(e); x.code = e; cb(x); } else cb(null, n); };
        switch (v) {
          case 1: dec.fault('console-write-late'); realm.post('console write done', () => fin(null, b.length), 1 + (plan.lateMs ?? 0)); return;
          case 2: dec.fault('console-write-error'); fin('EPIPE'); return;
          case 3: dec.fault('console-write-error-late'); realm.post('console write failed', () => fin('EIO'), 5); return;
          case 4: dec.fault('console-write-stalled'); return;
          case 5: dec.fault('console-write-short'); fin(null, b.length > 1 ? b.length >> 1 : b.length); return;
          default: fin(null, b.length);
        }
      },
    });
    const H = realm.H;
    Object.assign(H, {
      pick: id => { const c = plan.flat[id]; return c && c.via >= 0 && w.kept[c.via] ? w.kept[c.via] : realm.g.parse_edtf; },
      result: (id, kind, text) => { dec.event(`call ${id} ${kind} ${text.length > 300 ? text.slice(0, 300) + text.length : text}`); const l = w.results.get(id) ?? []; l.push([kind, text]); w.results.set(id, l); if (plan.flat?.[id]?.next?.length && l.length === 1) for (const n of plan.flat[id].next) issue(n); },
      exited: (k, code) => { w.exits.push([k, code]); dec.event(`module ${k} exited ${code}`); },
      instance: (k, go, inst) => { w.go[k] = go; w.inst[k] = inst; if (w.vh[k]) w.vh[k].mem = inst.exports.mem; },
      ended: (k, e) => { w.ended.push([k, e]); dec.event(`module ${k} ended ${e ?? ''}`); },
    });
    w.kept = []; w.vh = [];
    glue[plan.glue].runInContext(realm.g);
    HARNESS.runInContext(realm.g);
    const issue = w.issue = id => { const c = plan.flat[id]; if (typeof realm.g.parse_edtf !== 'function') { w.results.set(id, [['no-function', '']]); return; } w.issued++; dec.event(`issue ${id} ${c.how ?? ''} ${c.src.slice(0, 200)}`); if (plan.glueHook) plan.glueHook(); realm.g.__call(id, c.how ?? '', c.src); };
    w.start = k => {
      const kind = plan.build;
      let extra = null;
      if (kind !== 'stock') {
        const style = plan.style ?? {};
        const v = verifImports(realm, mods[kind], { tag: k ? String(k) : '', sched: (g, n) => (style.kind === 'sticky' && g.chance(0.7) ? 0 : g.int(n)), preempt: (g, kk) => kk ? (style.hot ? g.geom(style.hot) : Infinity) : (style.mem ? g.geom(style.mem) : Infinity) });
        extra = v.imports; w.vh[k] = v.host;
      }
      realm.g.__start(k, mods[kind], extra);
      w.kept[k] = realm.g.parse_edtf;
      if (kind !== 'stock' && plan.sched && typeof realm.g.__verif === 'function') realm.g.__verif('on', kind === 'mem');
    };
    return w;
  }
  const settle = w => { for (let i = 0; i < 20000; i++) if (!w.realm.step()) return; throw new Abort('step-limit', 'the event loop never becomes idle'); };

  function exec(plan, { seed = null, decisions = null, trace = false }) {
    const dec = new Decider({ seed, decisions, log: trace ? [] : null });
    if (plan.soak) return execSoak(plan, dec, { seed, decisions });
    plan = { ...plan, flat: plan.calls };
    const w = world(plan, dec);
    const realm = w.realm;
    let violation = null, loaded = false;
    try {
      // modules start at chosen moments; calls become possible once the function exists
      for (let k = 0; k < plan.modules; k++) realm.post(`start module ${k}`, () => w.start(k), k ? plan.secondAt ?? 5 : 0);
      for (let i = 0; i < 2000 && typeof realm.g.parse_edtf !== 'function'; i++) if (!realm.step()) break;
      loaded = typeof realm.g.parse_edtf === 'function';
      if (loaded) {
        for (const t of plan.tasks) realm.post(`calls ${t.ids.join()}`, () => { for (const id of t.ids) w.issue(id); }, t.at);
        settle(w);
        // and after everything: the module still answers
        plan.flat = plan.flat.concat(plan.after.map(s => ({ src: JSON.stringify(s), s })));
        for (let i = plan.calls.length; i < plan.flat.length; i++) realm.post('call after', () => w.issue(i));
        settle(w);
      }
    } catch (e) {
      if (e instanceof Abort) violation = { class: e.kind, detail: e.detail };
      else throw e;
    }
    violation ??= judge(plan, w, loaded);
    dec.event('verdict ' + (violation ? violation.class + violation.detail : 'ok'));
    const hash = dec.hash.hex();
    const picks = w.vh.reduce((s, h) => s + (h?.nMulti ?? 0), 0);
    const nCalls = w.issued;
    if (plan.modules > 1) dec.fired['second-module'] = 1;
    const weird = plan.calls.filter(c => c.s === undefined || c.odd).length; if (weird) dec.fired['unusual-arguments'] = weird;
    return {
      violation, hash, decisions: dec.rec, fired: dec.fired, trace: dec.log, sig: hash, nontrivial: nCalls > 1 && (ctx.property === 'C10' ? (dec.rec.event?.length ?? 0) > 0 || picks > 0 : Object.keys(dec.fired).length > 0),
      sum: { calls: nCalls, tasks: realm.ticks, scheduling_choices: picks, simulated_ms: Math.round(realm.t) },
      probes: { ['glue:' + plan.glue]: 1, ['build:' + plan.build]: 1, ['console:' + plan.fs]: 1, not_loaded: loaded ? 0 : 1, rejected: [...w.results.values()].filter(l => l[0][0] === 'rejected').length, resolved: [...w.results.values()].filter(l => l[0][0] === 'resolved').length, nested_calls: plan.calls.filter(c => c.nested).length },
      sample: { plan: { ...plan, flat: undefined, calls: plan.calls.slice(0, 5).map(c => ({ ...c, src: c.src.slice(0, 80) })) }, results: [...w.results].slice(0, 4).map(([i, l]) => [i, l.map(x => [x[0], x[1].slice(0, 80)])]) },
    };
  }
  function judge(plan, w, loaded) {
    if (w.exits.length) return { class: 'exited', detail: `the Go program ended with status ${w.exits[0][1]} after ${w.issued} calls; last console output: ${w.realm.lines.slice(-8).join(' | ').slice(0, 1200)}; calls: ${plan.flat.slice(0, w.issued).map(c => c.src.slice(0, 80)).join(' ; ').slice(0, 800)}` };
    if (w.ended.length) return { class: 'ended', detail: `the Go program ended: ${w.ended[0][1]}; last console output: ${w.realm.lines.slice(-8).join(' | ').slice(0, 1200)}` };
    if (!loaded) return plan.fs === 'browser' || !(plan.fsFault > 0) ? { class: 'not-loaded', detail: 'the module was started, but parse_edtf never appeared' } : null;
    for (let id = 0; id < plan.flat.length; id++) {
      const c = plan.flat[id], l = w.results.get(id);
      if (c.nested && !l && !w.results.has(c.parent)) continue;
      const name = `call ${id} parse_edtf(${c.src.slice(0, 120)})${c.how ? ' as ' + c.how : ''}`;
      if (!l) return { class: 'pending', detail: `${name}: the promise never settled` };
      if (l.length !== 1) return { class: 'settled-twice', detail: `${name}: ${JSON.stringify(l).slice(0, 500)}` };
      const [kind, text] = l[0];
      if (kind === 'threw' && c.how === 'new') continue; // calling it as a constructor is not promised
      if (kind === 'threw' || kind === 'no-promise') return { class: kind, detail: `${name}: ${kind} ${text.slice(0, 600)}` };
      if (kind === 'no-function') return { class: 'no-function', detail: `${name}: parse_edtf is gone` };
      if (c.s === undefined) continue;
      const want = alone(c.s);
      if (want[0] !== '{') continue; // the library itself gives no answer for it
      const a = JSON.parse(want);
      if (a.err === undefined) {
        if (kind !== 'resolved' || !sameJSON(text, a.v)) return { class: 'answer', detail: `${name}: ${kind} with ${text.slice(0, 600)}, but the library answers ${a.v.slice(0, 600)}` };
      } else if (kind !== 'rejected' || !text.includes(c.s.toWellFormed()) || !text.includes(a.err)) return { class: 'answer', detail: `${name}: ${kind} with ${JSON.stringify(text.slice(0, 600))}, expected a rejection that names the string and the reason ${JSON.stringify(a.err)}` };
    }
    return null;
  }

  // ---- C12
  function soakRun(plan, calls, dec) {
    const p = { ...plan, build: 'sched', sched: false, fs: 'browser', flat: [] };
    const w = world(p, dec);
    w.realm.H.result = () => {};
    const g = new Rng('soak/' + plan.soak.seed);
    w.realm.task(() => w.start(0));
    settle(w);
    const ph = [];
    const kinds = plan.soak.kinds;
    for (let k = 0; k < plan.soak.phases; k++) {
      for (let c = 0; c < calls;) {
        const batch = [];
        for (let i = 0; i < plan.soak.batch && c < calls; i++, c++) batch.push(kinds === 'any' ? genEdtf(g) : kinds === 'bad' ? 'bad ' + g.int(1e9) : FEATURES[kinds](g));
        w.realm.task(() => { for (const s of batch) { w.realm.g.__call(0, '', JSON.stringify(s)); } });
        if (w.realm.pending.length) settle(w);
        if (w.exits.length || w.ended.length) return { ph, w };
      }
      for (let i = 0; i < 4; i++) w.realm.task(() => w.realm.g.__verif('gc'));
      let held; w.realm.task(() => { held = [...w.realm.g.__verif('held')]; });
      const go = w.go[0];
      ph.push([held[0], held[1], held[2], go._values && go._idPool ? go._values.length - go._idPool.length : 0, w.inst[0].exports.mem.buffer.byteLength]);
    }
    return { ph, w };
  }
  const HELD = ['heap bytes', 'heap objects', 'goroutines', 'references to JavaScript values', 'bytes of linear memory'];
  const SLACK = [8192, 16, 0, 6, 4 << 20];
  function execSoak(plan, dec) {
    let violation = null, ph = [];
    try {
      const r = soakRun(plan, plan.soak.calls, dec); ph = r.ph;
      if (r.w.exits.length || r.w.ended.length) violation = { class: 'exited', detail: `the Go program ended; last console output: ${r.w.realm.lines.slice(-6).join(' | ')}` };
      else {
        const n = ph.length;
        for (let k = 0; k < 5 && !violation; k++) if (ph[n - 1][k] - ph[1][k] > SLACK[k]) {
          const F = 12, long = soakRun(plan, plan.soak.calls * F, new Decider({ decisions: {} })).ph;
          dec.event('long ' + JSON.stringify(long));
          if (long.length !== n) { violation = { class: 'exited', detail: 'the Go program ended in a longer run' }; break; }
          const all = long[n - 1][k] - long[1][k], late = long[n - 1][k] - long[n - 3][k];
          if (late > 0 && all > (ph[n - 1][k] - ph[1][k]) * F / 4) violation = { class: 'growth', detail: `${HELD[k]} held after phases of ${plan.soak.calls * F} settled calls each and forced collections: ${long.map(p => p[k]).join(', ')}` };
        }
      }
    } catch (e) { if (e instanceof Abort) violation = { class: e.kind, detail: e.detail }; else throw e; }
    dec.event('held ' + JSON.stringify(ph.map(p => p.slice(2))));
    dec.event('verdict ' + (violation ? violation.class + violation.detail : 'ok'));
    const hash = dec.hash.hex();
    return { violation, hash, decisions: dec.rec, fired: dec.fired, trace: dec.log, sig: hash + JSON.stringify(plan.soak), nontrivial: true, sum: { calls: plan.soak.phases * plan.soak.calls, forced_collections: 4 * plan.soak.phases }, probes: { ['glue:' + plan.glue]: 1, ['strings:' + plan.soak.kinds]: 1 }, sample: { plan, held: HELD.join(', '), after_each_phase: ph } };
  }

  function gen(r, index) {
    const P = ctx.property;
    if (P === 'C12') return { soak: { phases: 5, calls: r.pick([60, 120, 240]), batch: r.pick([1, 3, 20, 60]), kinds: r.pick(['any', 'any', 'bad', 'date', 'set', 'exp', 'season', 'indiv', 'interval2', 'sig', 'open1', 'neg']), seed: r.int(1e9) }, glue: r.pick(['go', 'page']), entropy: r.int(1e9) };
    const calls = [], tasks = [];
    const vocab = r.sample(words, r.pick([1, 2, 5, 30]));
    const word = () => { const s = r.chance(0.8) ? r.pick(vocab) : r.pick(words); return { src: JSON.stringify(s), s }; };
    const weird = () => { if (r.chance(0.5)) return { src: r.pick(WEIRD) }; const s = r.chance(0.7) ? odd(r) : FEATURES[r.pick(['junk', 'special', 'exp', 'sig'])](r); return { src: JSON.stringify(s), s, odd: 1 }; };
    const pW = P === 'C11' ? r.pick([0.2, 0.5, 0.9]) : 0;
    const add = c => { const id = calls.length; calls.push(c); if (r.chance(0.15)) c.how = r.pick(P === 'C11' ? ['new', 'apply', 'bound'] : ['apply', 'bound']); return id; };
    const one = () => add(r.chance(pW) ? weird() : word());
    for (let t = r.pick([1, 2, 4, 8]); t > 0; t--) {
      const ids = []; for (let i = r.pick([1, 1, 2, 5, 12]); i > 0; i--) ids.push(one());
      tasks.push({ ids, at: r.pick([0, 0, 1, 3, 10]) });
    }
    // calls made by reactions to other calls
    for (let i = r.pick([0, 0, 2, 5]); i > 0; i--) {
      const parent = r.int(calls.length), id = one(); calls[id].nested = true; calls[id].parent = parent; (calls[parent].next ??= []).push(id);
    }
    const modules = P === 'C11' ? r.pick([1, 1, 2]) : 1;
    for (const c of calls) c.via = modules > 1 && r.chance(0.4) ? 0 : -1;
    const build = r.weighted([[2, 'stock'], [3, 'sched'], [3, 'mem']]);
    const fsm = P === 'C11' ? r.pick(['browser', 'node', 'node', 'node']) : r.pick(['browser', 'node']);
    return {
      calls, tasks, modules, secondAt: r.pick([0, 1, 5]), build, sched: build !== 'stock' && r.chance(0.8), glue: r.pick(['go', 'page']), fs: fsm,
      fsFault: fsm === 'node' ? (P === 'C11' ? r.pick([0, 0.3, 1]) : r.pick([0, 0.5])) : 0, fsKinds: P === 'C11' ? r.pick([[1, 2, 3, 4, 5], [2], [4], [3, 1], [2, 4]]) : [1], lateMs: r.pick([0, 3, 50]),
      after: P === 'C11' ? r.sample(words, 2) : [], wall: r.pick([1700000000, 951782400, 4102444799]), tz: r.pick([0, -330, 480]), entropy: r.int(1e9),
      style: { kind: r.pick(['uniform', 'sticky']), mem: r.pick([0, 40, 400, 4000]), hot: r.pick([1, 3, 10, 0]) },
    };
  }
  function* reduce(plan) {
    const put = (k, v) => ({ ...plan, [k]: v });
    if (plan.soak) {
      if (plan.soak.batch > 1) yield put('soak', { ...plan.soak, batch: 1 });
      if (plan.soak.kinds === 'any') for (const k of ['bad', 'date']) yield put('soak', { ...plan.soak, kinds: k });
      if (plan.soak.calls > 40) yield put('soak', { ...plan.soak, calls: plan.soak.calls >> 1 });
      return;
    }
    const n = plan.calls.length;
    const without = drop => { // remove calls (and what they trigger)
      const gone = new Set(drop);
      for (let ch = true; ch;) { ch = false; plan.calls.forEach((c, i) => { if (c.nested && gone.has(c.parent) && !gone.has(i)) { gone.add(i); ch = true; } }); }
      const map = new Map(); let k = 0; plan.calls.forEach((c, i) => { if (!gone.has(i)) map.set(i, k++); });
      const calls = plan.calls.filter((c, i) => !gone.has(i)).map(c => ({ ...c, ...(c.nested ? { parent: map.get(c.parent) } : {}), ...(c.next ? { next: c.next.filter(x => map.has(x)).map(x => map.get(x)) } : {}) }));
      return { ...plan, calls, tasks: plan.tasks.map(t => ({ ...t, ids: t.ids.filter(x => map.has(x)).map(x => map.get(x)) })).filter(t => t.ids.length) };
    };
    if (n > 3) { yield without([...Array(n >> 1).keys()]); yield without([...Array(n >> 1).keys()].map(i => i + (n >> 1))); }
    for (let i = n - 1; i >= 0; i--) yield without([i]);
    if (plan.modules > 1) yield { ...plan, modules: 1, calls: plan.calls.map(c => ({ ...c, via: -1 })) };
    if (plan.build !== 'stock') yield put('build', 'stock');
    if (plan.build === 'mem') yield put('build', 'sched');
    if (plan.fs !== 'browser') yield { ...plan, fs: 'browser', fsFault: 0 };
    if (plan.after.length) for (const a of dropSome(plan.after)) yield put('after', a);
    for (let i = 0; i < n && n < 5; i++) if (plan.calls[i].how) yield put('calls', plan.calls.map((c, k) => (k === i ? { ...c, how: undefined } : c)));
    for (let i = 0; i < n && n < 5; i++) if (plan.calls[i].s !== undefined && !['1985', 'x'].includes(plan.calls[i].s)) for (const s of ['1985', 'x']) yield put('calls', plan.calls.map((c, k) => (k === i ? { ...c, src: JSON.stringify(s), s } : c)));
    if (plan.tz) yield put('tz', 0);
    if (plan.entropy) yield put('entropy', 0);
  }
  return workerApi(ctx, {
    gen, exec, reduce, extra: {
      async baselines(list) { return list.map(op => [JSON.stringify(op), alone(op[1])]); },
      async learn({ list, pairs }) { for (const [k, v] of pairs) base.set(k, v); words.push(...list); return true; },
    },
  });
}
