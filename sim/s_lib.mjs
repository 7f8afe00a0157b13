// Scenarios on the library itself (C01 concurrency, C02 history, C03 ambient
// state, C04 bounded footprint): one simulated process per run.
import fs from 'node:fs';
import { Host, Abort } from './wasi.mjs';
import { Decider } from './decider.mjs';
import { Rng, LogHash } from './prng.mjs';
import { genOp, genEdtf, siblingOp, nearClock, family, FEATURES } from './corpus.mjs';
import { workerApi, dropSome } from './runner.mjs';

const ENC = new TextEncoder();
export const ENVS = [[], ['TZ=America/New_York'], ['TZ=Asia/Kathmandu', 'LANG=fr_FR.UTF-8'], ['TZ=UTC', 'GODEBUG=randautoseed=0'], ['LANG=tr_TR', 'LC_ALL=tr_TR.UTF-8', 'TZ=Pacific/Apia'], ['EDTF_DEBUG=1', 'DEBUG=1', 'HOME=/nonexistent']];
export const ZONES = ['', 'UTC', '+19800', '-39600', '+50400', 'EST5EDT,M3.2.0,M11.1.0', 'NZST-12NZDT,M9.5.0,M4.1.0/3', '<-03>3<-02>,M3.5.0/-2,M10.5.0/-1'];
export const WALLS = [1700000000, 0, 1, -86400 * 365 * 10, 951782400 /* 2000-02-29 */, 1709164799, 1735689599 /* 2024-12-31T23:59:59 */, 253402300799 /* 9999-12-31T23:59:59 */, 4102444800, 1582934400];
const BASE_ENV = { env: [], clock: { wall: 1700000000 }, entropy: 0 };

export async function worker(ctx) {
  const mem = ctx.memModule ? await asModule(ctx.memModule) : null;
  const plain = await asModule(ctx.plainModule);
  const base = new Map(Object.entries(ctx.baseline ?? {}));

  function process1(module, input, dec, env, extra = {}) {
    const host = new Host(module, {
      args: extra.args ?? ['libsim'], env: env.env, clock: env.clock, entropy: env.entropy, decider: dec, stdin: ENC.encode(JSON.stringify(input)),
      limits: { calls: extra.calls ?? 400000 }, ...extra,
    });
    const r = host.run(); r.host = host; return r;
  }
  // what a call answers in a fresh process of its own
  function alone(op) {
    const key = JSON.stringify(op);
    let v = base.get(key);
    if (v === undefined) {
      const r = process1(plain, { tasks: [[op]] }, new Decider({ decisions: {} }), BASE_ENV);
      const m = r.emits[0]?.match(/^0 0 ([\s\S]*)$/);
      v = m ? m[1] : 'DIED ' + (r.abort ? r.abort.kind : 'exit ' + r.exit);
      if (v.startsWith('harness')) throw new Error(v);
      base.set(key, v);
    }
    return v;
  }
  const special = new Set(['gc', 'yield', 'sleep', 'scribble', 'recheck', 'use', 'zone', 'fill']);
  // dates held by several callers: rendered by a lone caller
  function aloneShared(shared, op) {
    const key = JSON.stringify([shared, op]);
    let v = base.get(key);
    if (v === undefined) {
      const r = process1(plain, { shared, tasks: [[op]] }, new Decider({ decisions: {} }), BASE_ENV);
      v = r.emits[0]?.replace(/^0 0 /, '') ?? 'DIED'; base.set(key, v);
    }
    return v;
  }
  // The same calls made in another process, in another order (or, for C03, in
  // the same order under plain conditions): where both agree the answer needs no
  // process of its own; where they differ the call alone decides.
  function twinAnswers(plan) {
    const l = plan.tasks[0], idx = [];
    for (let i = 0; i < l.length; i++) if (!special.has(l[i][0])) idx.push(i);
    if (plan.twin === 'order') idx.reverse();
    const r = process1(plain, { tasks: [idx.map(i => l[i])] }, new Decider({ decisions: {} }), BASE_ENV);
    const got = new Map();
    for (const e of r.emits) { const m = /^0 (\d+) ([\s\S]*)$/.exec(e); if (m) got.set(idx[Number(m[1])], m[2]); }
    return got;
  }
  function judge(plan, r, dec) {
    if (r.emits.some(e => e.startsWith('harness'))) throw new Error(r.emits.find(e => e.startsWith('harness')));
    if (r.abort) return { class: r.abort.kind, detail: r.abort.detail };
    if (r.exit !== 0) return { class: 'crash', detail: `the process died (exit ${r.exit}): ${new TextDecoder().decode(r.stderr).slice(0, 1500)}` };
    const seen = new Map();
    for (const e of r.emits) { const m = /^(-?\d+) (\d+) ([\s\S]*)$/.exec(e); if (m) seen.set(m[1] + ' ' + m[2], m[3]); }
    const each = function* () { for (let k = -1; k < plan.tasks.length; k++) { const l = k < 0 ? plan.warm ?? [] : plan.tasks[k]; for (let i = 0; i < l.length; i++) yield [k, i, l[i]]; } };
    let missing = null;
    const twin = plan.twin ? twinAnswers(plan) : null;
    for (const [k, i, op] of each()) {
      const got = seen.get(k + ' ' + i);
      if (got === undefined) { missing ??= `caller ${k} never got an answer to call ${i} ${JSON.stringify(op)}`; continue; }
      if (got.startsWith('harness')) throw new Error(got);
      if (op[0] === 'recheck' || op[0] === 'use') { if (got !== 'same') return { class: 'value-changed', detail: `caller ${k}: the value returned by call ${op[1]} ${JSON.stringify((k < 0 ? plan.warm : plan.tasks[k])[op[1]])} ${got}` }; continue; }
      if (special.has(op[0])) continue;
      if (twin && k === 0 && twin.get(i) === got && !got.startsWith('PANIC')) continue;
      const want = op[0].startsWith('sh:') ? aloneShared(plan.shared, op) : alone(op);
      if (got === want && twin && k === 0 && twin.has(i)) return { class: 'answer', detail: `call ${i} ${JSON.stringify(op)} answers ${got.slice(0, 600)} as it does alone in a fresh process, but ${twin.get(i).slice(0, 600)} when the same calls are made in ${plan.twin === 'order' ? 'reverse order' : 'a plain environment'}` };
      if (got !== want) return { class: 'answer', detail: `caller ${k}, call ${i} ${JSON.stringify(op)}: answered ${got.slice(0, 600)} but the same call made alone in a fresh process answers ${want.slice(0, 600)}` };
    }
    if (missing) return { class: 'no-answer', detail: missing };
    return null;
  }

  // ---- C04: phases of calls, and what is still held after each
  function soakRun(plan, calls, opts) {
    const dec = new Decider(opts);
    const r = process1(plain, { sched: plan.soak.workers > 1, gc: plan.gc ?? 0, soak: { ...plan.soak, calls } }, dec, { env: [], clock: {}, entropy: plan.entropy ?? 0 }, { sched: (g, n) => g.int(n), calls: 60_000_000 });
    if (r.emits.some(e => e.startsWith('harness'))) throw new Error(r.emits.find(e => e.startsWith('harness')));
    const ph = r.emits.filter(e => e.startsWith('phase')).map(e => e.split(' ').slice(2).map(Number));
    return { dec, r, ph };
  }
  function execSoak(plan, { seed = null, decisions = null, trace = false }) {
    const { dec, r, ph } = soakRun(plan, plan.soak.calls, { seed, decisions, log: trace ? [] : null });
    let violation = null;
    const n = ph.length, fns = plan.soak.fns.join(', ');
    if (r.abort) violation = { class: r.abort.kind, detail: r.abort.detail };
    else if (r.exit !== 0) violation = { class: 'crash', detail: `the process died (exit ${r.exit}): ${new TextDecoder().decode(r.stderr).slice(0, 1000)}` };
    else if (n !== plan.soak.phases) violation = { class: 'crash', detail: `the process ended after ${n} of ${plan.soak.phases} phases of calls of ${fns}` };
    else {
      const grow = (a, b, k) => ph[b][k] - ph[a][k];
      const g0 = ph[n - 1][2] - ph[0][2];
      if (g0 > 0) violation = { class: 'goroutines', detail: `${ph[n - 1][2]} goroutines after ${n * plan.soak.calls} finished calls of ${fns}, ${ph[0][2]} after the first ${plan.soak.calls}` };
      else if (grow(1, n - 1, 1) > 8 || grow(1, n - 1, 0) > 4096) {
        // growing: only unbounded growth counts, so look at a run many times as long (its choices are the defaults')
        const F = 24, lr = soakRun(plan, plan.soak.calls * F, { decisions: {} }), long = lr.ph;
        dec.event('long ' + JSON.stringify(long));
        const still = k => { const short = grow(1, n - 1, k), all = long[n - 1][k] - long[1][k], late = long[n - 1][k] - long[n - 3][k]; return all > short * F / 4 && late > 0 && all > (k ? 100 : 50_000); };
        if (long.length !== n) violation = { class: lr.r.abort ? lr.r.abort.kind : 'crash', detail: `the process died after ${long.length} phases of ${plan.soak.calls * F} calls of ${fns}: ${lr.r.abort ? lr.r.abort.detail : new TextDecoder().decode(lr.r.stderr).slice(0, 1000)}` };
        else if (still(1) || still(0)) violation = { class: 'memory', detail: `calls of ${fns} leave memory behind: after phases of ${plan.soak.calls * F} calls each and forced collections, heap bytes ${long.map(p => p[0]).join(', ')}; heap objects ${long.map(p => p[1]).join(', ')}` };
      }
    }
    dec.fired['forced-gc'] = 3 * n; if (plan.gc) dec.fired['frequent-gc'] = 1;
    dec.event('verdict ' + (violation ? violation.class + violation.detail : 'ok'));
    const hash = dec.hash.hex();
    return {
      violation, hash, decisions: dec.rec, fired: dec.fired, trace: dec.log, sig: hash, nontrivial: plan.soak.calls > 1,
      sum: { calls: plan.soak.phases * plan.soak.calls, scheduling_choices: r.host.nMulti, forced_collections: 3 * plan.soak.phases },
      probes: { ['callers:' + plan.soak.workers]: 1, bounded_growth: n && ph[n - 1][1] > ph[1]?.[1] ? 1 : 0 },
      sample: { plan, held_after_each_phase: ph },
    };
  }

  function exec(plan, { seed = null, decisions = null, trace = false }) {
    if (plan.soak) return execSoak(plan, { seed, decisions, trace });
    const dec = new Decider({ seed, decisions, log: trace ? [] : null });
    const useMem = plan.mem && mem;
    const input = { sched: plan.sched, mem: !!useMem, limit: 30_000_000, gc: plan.gc ?? 0, tz: plan.tz ?? '', warm: plan.warm ?? [], shared: plan.shared ?? [], tasks: plan.tasks };
    const style = plan.style ?? {};
    let prev = 0;
    const r = process1(useMem ? mem : plain, input, dec, { env: plan.env ?? [], clock: plan.clock ?? {}, entropy: plan.entropy ?? 0 }, {
      sched: (g, n) => { // scheduling styles: uniform, sticky, or priority (PCT-like)
        if (style.kind === 'sticky' && g.chance(style.p)) return Math.min(prev, n - 1);
        if (style.kind === 'prio') { if (g.chance(0.05)) style.order = g.int(1000); return ((style.order ?? 0) * 7919) % n; }
        return prev = g.int(n);
      },
      preempt: (g, kind) => kind ? (style.hot ? g.geom(style.hot) : Infinity) : (style.mem ? g.geom(style.mem) : Infinity),
      calls: 3_000_000, zone: plan.tz,
      ...(plan.anyEnv === undefined ? {} : { anyEnv: k => (/^(TZ|ZONEINFO|GO[A-Z]*)$/.test(k) ? null : plan.anyEnv) }),
      ...(plan.anyFile === undefined ? {} : { files: name => (/zoneinfo|localtime/.test(name) ? null : ENC.encode(plan.anyFile)) }),
      ...(plan.args ? { args: plan.args } : {}),
    });
    const violation = judge(plan, r, dec);
    const h = r.host;
    const st = r.emits.find(e => e.startsWith('stats'))?.split(' ').map(Number);
    const ticks = { callers: plan.tasks.length, calls: plan.tasks.reduce((s, t) => s + t.length, 0) + (plan.warm?.length ?? 0), scheduling_choices: h.nMulti };
    if (st) { ticks.memory_accesses = st[1]; ticks.contended_accesses = st[2]; ticks.preemptions = st[3]; ticks.accesses_checked_for_order = st[4]; }
    const simS = Number(h.mono - BigInt(plan.clock?.mono ?? 1) * 1000000n) / 1e9;
    ticks.simulated_seconds = simS;
    if (plan.gcOps) dec.fired['forced-gc'] = plan.gcOps;
    if (plan.tz) dec.fired['time-zone'] = 1;
    if (plan.env?.length) dec.fired['environment'] = 1;
    if (st?.[3]) dec.fired['preemption'] = st[3];
    if (plan.scribbles) dec.fired['caller-overwrites-result'] = plan.scribbles;
    dec.event('verdict ' + (violation ? violation.class + violation.detail : 'ok'));
    const hash = dec.hash.hex();
    return {
      violation, hash, decisions: dec.rec, fired: dec.fired, sum: ticks, trace: dec.log,
      sig: hash, nontrivial: ctx.nontrivial === 'sched' ? (st ? st[3] > 0 : h.nMulti > 0) : ticks.calls > 1 || plan.tasks.length > 0,
      probes: { distinct_answers: 0 },
      sample: { plan: brief(plan), choices: Object.fromEntries(Object.entries(dec.rec).map(([k, v]) => [k, v.slice(0, 12)])), answers: r.emits.slice(0, 4).map(x => x.slice(0, 160)) },
    };
  }

  const ops = ctx.ops ?? [], strata = [];
  const G = { C01: genConc, C02: genHist, C03: genAmbient, C04: genSoak }[ctx.property];
  const gen = (r, index) => G(r, index, ops, ctx, strata);

  function* reduce(plan) {
    const put = (k, v) => ({ ...plan, [k]: v });
    if (plan.soak) {
      for (const f of dropSome(plan.soak.fns)) if (f.length) yield put('soak', { ...plan.soak, fns: f });
      if (plan.soak.words?.length) { yield put('soak', { ...plan.soak, words: [] }); for (const w of dropSome(plan.soak.words)) if (w.length) yield put('soak', { ...plan.soak, words: w }); }
      if (plan.soak.workers > 1) yield put('soak', { ...plan.soak, workers: 1 });
      if (plan.soak.calls > 40) yield put('soak', { ...plan.soak, calls: plan.soak.calls >> 1 });
      if (plan.gc) yield put('gc', 0);
      return;
    }
    if (plan.warm?.length) { yield put('warm', []); for (const w of dropSome(plan.warm)) if (refsOk(plan.warm)) yield put('warm', w); }
    if (plan.tasks.length > 1) for (const t of dropSome(plan.tasks)) yield put('tasks', t);
    for (let k = 0; k < plan.tasks.length; k++) for (const t of dropOps(plan.tasks[k])) yield put('tasks', plan.tasks.map((x, i) => i === k ? t : x));
    if (plan.env?.length) yield put('env', []);
    for (const k of ['anyEnv', 'anyFile', 'args']) if (plan[k] !== undefined) yield put(k, undefined);
    if (plan.tz) yield put('tz', '');
    if (plan.gc) yield put('gc', 0);
    if (plan.entropy) yield put('entropy', 0);
    if (plan.clock?.jumps?.length) yield put('clock', { ...plan.clock, jumps: [] });
    if (plan.clock && plan.clock.wall !== 1700000000) yield put('clock', { ...plan.clock, wall: 1700000000 });
  }

  return workerApi(ctx, {
    gen, exec, reduce,
    extra: {
      async baselines(list) { return list.map(op => [JSON.stringify(op), alone(op)]); },
      async learn({ ops: list, pairs }) {
        ops.push(...list); for (const [k, v] of pairs) base.set(k, v);
        const by = new Map();
        for (const op of ops) { // calls of one function that end in one way: a rare way to fail is asked for as often as a common one
          const v = base.get(JSON.stringify(op)) ?? '', k = op[0] + ' ' + (/error/.test(v) ? v.replace(/'[^']*'|"[^"]*"/g, '').replace(/[0-9]+/g, '#').slice(0, 120) : 'ok');
          if (!by.has(k)) by.set(k, []); by.get(k).push(op);
        }
        strata.splice(0, strata.length, ...by.values());
        return true;
      },
    },
  });
}

const refsOk = () => true;
// dropping an operation renumbers the ones that refer to earlier calls
export function* dropOps(list) {
  const n = list.length;
  const without = (lo, hi) => {
    const out = [];
    for (let i = 0; i < n; i++) {
      if (i >= lo && i < hi) continue;
      const op = list[i];
      if (op[0] === 'recheck' || op[0] === 'scribble' || op[0] === 'use') {
        const t = Number(op[1]);
        if (t >= lo && t < hi) continue;
        out.push([op[0], String(t >= hi ? t - (hi - lo) : t)]);
      } else out.push(op);
    }
    return out;
  };
  if (n === 0) return;
  if (n > 3) { const h = n >> 1; yield without(0, h); yield without(h, n); }
  if (n > 8) for (let q = 0; q < 4; q++) yield without(q * n >> 2, (q + 1) * n >> 2);
  for (let i = n - 1; i >= 0; i--) yield without(i, i + 1);
}
function brief(plan) { const t = plan.tasks.map(l => l.slice(0, 5)).slice(0, 5); return { ...plan, tasks: t, of: plan.tasks.map(l => l.length) }; }

export async function asModule(m) { return m instanceof WebAssembly.Module ? m : WebAssembly.compile(fs.readFileSync(m)); }

// ---- C01: concurrent callers --------------------------------------------------
function genConc(r, index, ops, ctx, strata) {
  const nTasks = r.weighted([[5, 2], [4, 3], [3, 4], [1, 6], [1, 10]]);
  // a small vocabulary makes callers meet on the same paths and inputs
  const same = strata.length && r.chance(0.3) ? r.pick(strata) : null;
  const vocab = same ? r.sample(same, Math.min(same.length, r.pick([1, 2, 3]))) : r.sample(ops, r.weighted([[3, 1], [3, 2], [3, 4], [2, 12]]));
  const wide = !same && r.chance(0.25);
  const shared = r.chance(0.3) ? Array.from({ length: r.range(1, 2) }, () => genEdtf(r)) : [];
  let gcOps = 0;
  const tasks = [];
  for (let k = 0; k < nTasks; k++) {
    const n = r.range(1, nTasks > 4 ? 2 : 5), l = [];
    for (let i = 0; i < n; i++) {
      if (shared.length && r.chance(0.35)) {
        const f = r.pick(['sh:string', 'sh:lower', 'sh:upper', 'sh:json', 'sh:render', 'sh:before', 'sh:after']);
        l.push([f, String(r.int(shared.length)), String(r.int(shared.length))]);
      } else l.push(r.pick(wide ? ops : vocab));
      if (r.chance(0.12)) l.push(['yield']);
      if (r.chance(0.06)) { l.push(['gc']); gcOps++; }
      if (r.chance(0.15)) l.push(['recheck', String(r.int(l.length))]);
    }
    tasks.push(l);
  }
  return {
    sched: true, mem: true, tasks, shared, gcOps, warm: r.chance(0.06) ? [['fill', String(r.pick([70, 140, 300, 1100])), String(1 + r.int(1e9)), 'parse']] : r.chance(0.3) ? r.sample(ops, r.range(1, 4)) : [],
    gc: r.pick([0, 0, 5, 50]), entropy: r.int(1e9), clock: { wall: 1700000000, mono: 1 },
    style: { kind: r.pick(['uniform', 'uniform', 'sticky', 'prio']), p: r.pick([0.5, 0.9]), mem: r.pick([0, 40, 400, 4000, 20000]), hot: r.pick([1, 3, 10, 0]) },
  };
}

// ---- C02: histories -------------------------------------------------------------
function genHist(r, index, ops, ctx) {
  if (index % 79 === 7) { // a process that has served for long
    const p = genTwin(r, ops);
    p.tasks[0].unshift(['fill', String(r.pick([12000, 25000, 50000])), String(1 + r.int(1e9)), r.pick(['parse', 'parse', 'unix', 'between', 'matches', 'valid'])]);
    for (const op of p.tasks[0]) if (['recheck', 'scribble', 'use'].includes(op[0])) op[1] = String(Number(op[1]) + 1);
    return p;
  }
  if (r.chance(0.6)) return genTwin(r, ops);
  let gcOps = 0, scribbles = 0;
  const dense = r.chance(0.35) ? genFamilyOps(r) : null;
  const vocab = dense ?? r.sample(ops, r.pick([2, 4, 10, 40]));
  // families of closely related inputs, asked for through the same or another function
  if (!dense && r.chance(0.6)) for (let i = r.pick([1, 3, 8]); i > 0; i--) { const op = r.pick(vocab), s = siblingOp(r, op); vocab.push(s); if (s.length === 2 && op.length === 2 && r.chance(0.3)) vocab.push([r.pick(['parse', 'unix', 'json', 'valid', 'matches', 'bounds']), s[1]]); }
  const n = r.pick([8, 16, 40, 120]);
  const fillP = r.chance(0.12) ? 1.5 / n : 0;
  const l = [], calls = [];
  while (l.length < n) {
    const x = r.f();
    if (x < 0.62 || !calls.length) { calls.push(l.length); l.push(r.chance(dense ? 0.98 : 0.85) ? r.pick(vocab) : r.pick(ops)); }
    else if (x < 0.78) { l.push(['scribble', String(r.pick(calls))]); scribbles++; }
    else if (x < 0.88) l.push(['recheck', String(r.pick(calls))]);
    else if (x < 0.93) l.push(['use', String(r.pick(calls))]);
    else if (x < 0.95) { l.push(['gc']); gcOps++; }
    else l.push(r.pick(vocab)), calls.push(l.length - 1);
    if (r.chance(fillP)) l.push(['fill', String(r.weighted([[6, () => r.pick([20, 70, 140, 300, 600, 1100, 2200])], [0.2, () => 8000]])()), String(1 + r.int(1e9)), r.pick(['parse', 'parse', 'unix', 'valid', 'matches', 'before'])]);
  }
  for (const c of r.sample(calls, Math.min(calls.length, 12))) l.push(['recheck', String(c)]);
  return { sched: false, mem: false, tasks: [l], gcOps, scribbles, gc: r.pick([0, 1, 20]), entropy: r.int(1e9), clock: { wall: 1700000000, mono: 1, tick: r.pick([1000, 1000000]) } };
}

// long histories of related calls, made in one order here and in the other in a second process
function genTwin(r, ops) {
  const l = []; let gcOps = 0, scribbles = 0;
  const scrib = r.pick([0, 0, 0.1]);
  const n = r.pick([60, 150, 300]);
  const fams = [];
  while (fams.length < n) fams.push(...genFamilyOps(r));
  for (const op of r.chance(0.5) ? fams : r.shuffle(fams)) {
    l.push(op);
    if (r.chance(scrib)) { l.push(['scribble', String(l.length - 1)]); scribbles++; }
    if (r.chance(0.05)) l.push([r.pick(['recheck', 'recheck', 'use']), String(r.int(l.length))]);
    if (r.chance(0.005)) { l.push(['gc']); gcOps++; }
  }
  for (let k = 0; k < 12; k++) l.push(['recheck', String(r.int(l.length))]);
  return { twin: 'order', sched: false, mem: false, tasks: [l], gcOps, scribbles, gc: r.pick([0, 1, 20]), entropy: r.int(1e9), clock: { wall: 1700000000, mono: 1, tick: r.pick([1000, 1000000]) } };
}
function genFamilyOps(r) {
  const op = genOp(r, { text: q => FEATURES[q.pick(['date', 'date', 'interval0', 'season', 'qualified', 'unspec1', 'open1', 'negdate', 'sig', 'sub', 'set', 'group', 'unspec2', 'letter', 'exp'])](q) });
  if (op.length < 2) return [op];
  const k = 1 + r.int(op.length - 1), also = r.chance(0.3) ? r.pick(['parse', 'unix', 'json', 'valid', 'matches', 'bounds']) : null;
  const l = family(r, op[k], r.pick([3, 6, 12])).map(s => op.map((x, i) => (i === k ? s : x)));
  return also ? l.concat(l.slice(0, 4).map(o => [also, o[k]])) : l;
}

// ---- C04: long-running callers
function genSoak(r, index, ops) {
  const names = [...new Set(ops.map(o => o[0]))].sort();
  const fns = r.chance(0.3) ? names : r.sample(names, r.pick([1, 1, 2, 4, 8]));
  const workers = r.pick([1, 1, 1, 2, 4, 8]);
  return { soak: { phases: 5, calls: r.pick([96, 200, 400]), workers, fns, words: r.chance(0.5) ? Array.from({ length: r.pick([1, 4, 16, 60]) }, () => genEdtf(r)) : [], seed: 1 + r.int(0x7ffffff0) }, gc: r.pick([0, 0, 10, 400]), entropy: r.int(1e9) };
}

// ---- C03: clock, zone, environment, entropy ----------------------------------------
function genAmbient(r, index, ops, ctx) {
  const l = []; let zones = 0;
  const n = r.pick([8, 30, 100]);
  const wall = r.pick(WALLS) + r.pick([0, 0, r.int(86400), r.int(86400 * 3650)]);
  const near = r.chance(0.5) ? r.pick([0.3, 0.8]) : 0; // strings about the present time
  for (let i = 0; i < n; i++) {
    l.push(near && r.chance(near) ? [r.pick(['parse', 'parse', 'unix', 'json', 'bounds', 'valid', 'matches']), nearClock(r, wall)] : r.chance(0.3) ? r.pick(ops) : genOp(r));
    if (r.chance(0.05)) { l.push(['sleep', String(r.pick([1, 1000, 86400000, 31622400000]))]); }
    if (r.chance(0.05)) { l.push(['zone', r.pick(ZONES.slice(1))]); zones++; }
  }
  const jumps = [];
  if (r.chance(0.6)) for (let i = r.range(1, 5); i > 0; i--) jumps.push([r.int(40), r.pick([-1, 1, 3600, -3600, 86400, -86400, 31536000, -31536000, -1700000000])]);
  const value = () => (ctx.dict?.length && r.chance(0.3) ? r.pick(ctx.dict) : r.pick(['1', 'true', '0', 'fr_FR.UTF-8', 'debug', '2', '1985']));
  return {
    ...(r.chance(0.3) ? { anyEnv: value() } : {}), ...(r.chance(0.3) ? { anyFile: value() + '\n' } : {}), ...(r.chance(0.3) ? { args: r.pick([['edtf', '-v'], ['x', '--lenient', '1985'], ['/usr/bin/edtf', '-debug=true', '-tz', 'EST']]) } : {}),
    twin: 'ambient', sched: false, mem: false, tasks: [l], env: r.pick(ENVS), tz: r.pick(ZONES), entropy: r.int(1e9), gc: r.pick([0, 0, 10]),
    clock: { wall, mono: 1 + r.int(1e6), tick: r.pick([0, 1000, 1000000, 1000000000]), jumps },
  };
}
