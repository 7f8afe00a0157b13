// Shared driver of every check: build, search over seeds, determinism
// self-checks, minimisation, replay files, evidence.
import fs from 'node:fs';
import path from 'node:path';
import { spawnSync } from 'node:child_process';
import { Pool, NWORKERS } from './pool.mjs';
import { Rng } from './prng.mjs';
import { flatten, unflatten } from './decider.mjs';
import { VERIF, BuildError } from './toolchain.mjs';

export const SEED = Number(process.env.VERIF_SEED || 1);
export const TIER = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
const t0 = Date.now();
const elapsed = () => (Date.now() - t0) / 1000;

export function knownFindings(id) {
  const f = path.join(VERIF, 'known_findings.json');
  return JSON.parse(fs.readFileSync(f, 'utf8')).findings.filter(x => x.property === id && x.status === 'open');
}

// spec: { id, scenario (URL), build() -> ctx, budget: {quick:{runs,seconds}, thorough:{...}}, prepare(pool, ctx)?,
//         evidence: {rule, components, assumptions, level}, selfcheck }
export async function runCheck(spec) {
  let code;
  try { code = await run(spec); }
  catch (e) {
    console.error(`${spec.id}: error: ${e instanceof BuildError ? e.message : e?.stack ?? e}`);
    code = 2;
  }
  process.exit(code);
}

async function run(spec) {
  const { id } = spec;
  console.log(`${id}: VERIF_SEED=${SEED} tier=${TIER}`);
  const ctx = { ...(await spec.build()), property: id, seed: SEED, tier: TIER };
  const buildS = elapsed();
  const pool = new Pool(spec.scenario, ctx);
  try {
    if (spec.prepare) await spec.prepare(pool, ctx);
    const budget = spec.budget[TIER];
    const cap = Number(process.env.VERIF_SECONDS || budget.seconds);
    const agg = { runs: 0, fired: {}, probes: {}, sum: {}, sigs: new Set(), samples: [], nontrivial: 0 };
    const hashes = new Map();
    const found = [];
    const total = Number(process.env.VERIF_RUNS || budget.runs);
    const chunk = budget.chunk ?? 8;
    const tSearch = Date.now();
    let nextSeed = 0;
    const lane = async () => {
      while (nextSeed < total && found.length < 6 && (Date.now() - tSearch) / 1000 < cap) {
        const from = nextSeed; nextSeed = Math.min(total, nextSeed + chunk);
        const res = await pool.call('batch', { from, to: nextSeed });
        for (const r of res) {
          agg.runs++; hashes.set(r.index, r.hash);
          for (const [k, v] of Object.entries(r.fired ?? {})) agg.fired[k] = (agg.fired[k] ?? 0) + v;
          for (const [k, v] of Object.entries(r.probes ?? {})) agg.probes[k] = (agg.probes[k] ?? 0) + v;
          for (const [k, v] of Object.entries(r.sum ?? {})) agg.sum[k] = (agg.sum[k] ?? 0) + v;
          if (r.nontrivial && !agg.sigs.has(r.sig)) { agg.sigs.add(r.sig); agg.nontrivial++; }
          if (r.sample && agg.samples.length < 4 && r.nontrivial) agg.samples.push(r.sample);
          if (r.violation) found.push(r);
        }
      }
    };
    await Promise.all(Array.from({ length: NWORKERS }, lane));
    const searchS = (Date.now() - tSearch) / 1000;

    // determinism: the same seed again (usually on another worker), and the
    // recorded decisions again without any random numbers
    const known = knownFindings(id);
    found.sort((a, b) => a.index - b.index);
    const det = { seeds_run_again_and_replayed_from_their_record: 0 };
    if (!found.length) {
      const r = new Rng(SEED + '/selfcheck/' + id);
      const done = [...hashes.keys()];
      const again = r.sample(done, Math.min(done.length, Math.max(12, Math.ceil(done.length * (budget.recheck ?? 0.03)))));
      const res = await Promise.all(again.map(index => pool.call('recheck', { index })));
      res.forEach((x, i) => {
        det.seeds_run_again_and_replayed_from_their_record++;
        if (x.seed !== hashes.get(again[i]) || x.replay !== x.seed) throw new Error(`nondeterministic: seed index ${again[i]}: first ${hashes.get(again[i])}, again ${x.seed}, replay ${x.replay}`);
      });
    }

    let violations = 0;
    const lines = [], failedReplays = [];
    const seenClass = new Set();
    for (const f of found) {
      const k = known.find(x => matches(x, f.violation));
      if (k) { if (!seenClass.has('K' + k.what)) { seenClass.add('K' + k.what); lines.push(`KNOWN-FINDING: property=${id} ${k.what}`); } continue; }
      if (seenClass.has(f.violation.class)) continue;
      seenClass.add(f.violation.class);
      const file = path.join(VERIF, 'replays', `${id}-seed${SEED}-${f.index}.json`);
      fs.mkdirSync(path.dirname(file), { recursive: true });
      let min, conf; // as small as it gets; if that does not replay, as it was found
      for (const seconds of [budget.shrinkSeconds ?? 40, 0]) {
        min = await minimise(pool, f, seconds);
        fs.writeFileSync(file, JSON.stringify({ property: id, verif_seed: SEED, index: f.index, violation: min.violation, hash: min.hash, plan: min.plan, decisions: min.decisions, trace: min.trace, shrunk: min.shrunk, extra: ctx.extra }, null, 1));
        conf = spawnSync(process.execPath, [path.join(VERIF, 'sim/replay.mjs'), file, '--no-build'], { encoding: 'utf8', env: process.env });
        if (conf.status === 1) break;
      }
      if (conf.status !== 1) { failedReplays.push(`violation did not replay in a fresh process (status ${conf.status}): ${file}\n${conf.stdout}${conf.stderr}`); seenClass.delete(f.violation.class); if (failedReplays.length > 2) break; continue; }
      violations++;
      lines.push(`  ${min.violation.class}: ${min.violation.detail}`.slice(0, 2000));
      lines.push(`VIOLATION property=${id} replay=${file}`);
    }
    if (failedReplays.length && !violations) throw new Error(failedReplays[0]);
    const evid = {
      property: id, tier: TIER, seed: SEED, level: spec.evidence.level ?? 'exploration', violations, wall_s: elapsed(),
      assumptions: spec.evidence.assumptions,
      coverage: {
        evaluations: agg.runs, distinct_nontrivial: agg.nontrivial, rule: spec.evidence.rule, samples: agg.samples,
        runs_per_hour: Math.round(agg.runs / Math.max(searchS, 0.001) * 3600), search_wall_s: searchS, build_wall_s: buildS,
        faults_injected: agg.fired, reached: agg.probes, totals: agg.sum,
        distinct_measure: spec.evidence.measure, determinism_selfcheck: det,
        components: spec.evidence.components, workers: NWORKERS, ...(ctx.extraEvidence ?? {}),
      },
    };
    fs.mkdirSync(path.join(VERIF, 'evidence'), { recursive: true });
    fs.writeFileSync(path.join(VERIF, 'evidence', id + '.json'), JSON.stringify(evid, null, 1));
    for (const l of lines) console.log(l);
    console.log(`${id}: ${agg.runs} simulated runs in ${searchS.toFixed(1)} s, ${agg.nontrivial} distinct, faults ${JSON.stringify(agg.fired)}, ${violations} violation(s), wall ${elapsed().toFixed(1)} s`);
    return violations ? 1 : 0;
  } finally { pool.close(); }
}

export function matches(k, v) { return k.class === v.class && new RegExp(k.match).test(v.detail); }

// ---- minimisation: ddmin over decisions, then plan reductions, to a fixpoint

async function minimise(pool, f, seconds) {
  let end = Date.now() + seconds * 1000;
  const cls = f.violation.class;
  let cur = { plan: f.plan, decisions: f.decisions, violation: f.violation };
  let tried = 0;
  const t0 = Date.now(); if (seconds > 0) await pool.call('record', cur);
  const B = Date.now() - t0 > 3000 ? NWORKERS : NWORKERS * 2; // slow runs: no long batches
  if (Date.now() - t0 > 12_000) end = 0;
  const size0 = { decisions: flatten(f.decisions).length, plan: JSON.stringify(f.plan).length };
  const test = async cands => { // first candidate (in order) that still fails
    if (Date.now() > end) return null;
    const rs = await Promise.all(cands.map(c => pool.call('record', c)));
    tried += cands.length;
    for (let i = 0; i < cands.length; i++) if (rs[i].violation && rs[i].violation.class === cls) return { ...cands[i], decisions: rs[i].decisions, violation: rs[i].violation };
    return null;
  };
  for (let round = 0; round < 6 && Date.now() < end; round++) {
    let progress = false;
    // plan
    for (let more = true; more && Date.now() < end;) {
      more = false;
      const cands = (await pool.call('reduce', cur.plan)).map(plan => ({ plan, decisions: cur.decisions }));
      for (let i = 0; i < cands.length; i += B) {
        const hit = await test(cands.slice(i, i + B));
        if (hit) { cur = hit; more = progress = true; break; }
        if (Date.now() > end) break;
      }
    }
    // decisions
    let list = flatten(cur.decisions);
    for (let n = 2; list.length >= 1 && Date.now() < end;) {
      const size = Math.ceil(list.length / n);
      const cands = [];
      for (let i = 0; i < list.length; i += size) cands.push(list.slice(0, i).concat(list.slice(i + size)));
      let hit = null;
      for (let i = 0; i < cands.length && !hit; i += B)
        hit = await test(cands.slice(i, i + B).map(l => ({ plan: cur.plan, decisions: unflatten(l) })));
      if (hit) { const before = list.length; cur = hit; list = flatten(cur.decisions); if (list.length < before) { progress = true; n = Math.max(2, n - 1); continue; } }
      if (size <= 1) break;
      n = Math.min(list.length, n * 2);
    }
    if (!progress) break;
  }
  const final = await pool.call('record', { plan: cur.plan, decisions: cur.decisions, trace: true });
  if (!final.violation) throw new Error('minimised run does not fail');
  return { plan: cur.plan, decisions: final.decisions, violation: final.violation, hash: final.hash, trace: (final.trace ?? []).slice(-400), shrunk: { tried, from: size0, to: { decisions: flatten(final.decisions).length, plan: JSON.stringify(cur.plan).length } } };
}

// ---- what a scenario's worker offers, built from gen/exec/reduce

export function workerApi(ctx, { gen, exec, reduce, extra = {} }) {
  const seedOf = index => `${ctx.seed}/${ctx.property}/${index}`;
  const one = async index => {
    const seed = seedOf(index);
    const plan = gen(new Rng(seed + '/plan'), index);
    const r = await exec(plan, { seed });
    return { index, plan, ...r };
  };
  const slim = r => { const { plan, decisions, trace, ...rest } = r; return rest.violation ? { ...rest, plan, decisions } : rest; };
  return {
    async batch({ from, to }) { const out = []; for (let i = from; i < to; i++) out.push(slim(await one(i))); return out; },
    async recheck({ index }) {
      const a = await one(index);
      const b = await exec(a.plan, { decisions: a.decisions });
      return { seed: a.hash, replay: b.hash };
    },
    async record({ plan, decisions, trace }) { return exec(plan, { decisions, trace }); },
    async reduce(plan) { return [...reduce(plan)]; },
    ...extra,
  };
}

// generic reductions on arrays: drop halves, then single elements
export function* dropSome(arr) {
  const n = arr.length;
  if (n > 3) { const h = n >> 1; yield arr.slice(h); yield arr.slice(0, h); }
  for (let i = 0; i < n; i++) yield arr.slice(0, i).concat(arr.slice(i + 1));
}
