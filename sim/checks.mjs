// The registry of checks: what each builds, its budget, and what its evidence says.
import fs from 'node:fs';
import path from 'node:path';
import { buildLib, buildTool, buildJs, buildServer, standIn, STAND_IN, dictionary, BUILD, GOROOT, REPO } from './toolchain.mjs';
import { runCheck, SEED, TIER } from './runner.mjs';
import { Rng } from './prng.mjs';
import { genOp } from './corpus.mjs';
import { cliWords } from './s_cli.mjs';
import { texts } from './texts.mjs';

// strings and calls that together reach every statement of the library that
// any generated call reached; the rest of each vocabulary is drawn from the seed
const seeds = JSON.parse(fs.readFileSync(new URL('./seeds.json', import.meta.url), 'utf8'));

const S = f => new URL(f, import.meta.url).href;
const compile = f => WebAssembly.compile(fs.readFileSync(f));

async function libCtx({ mem, noBuild }) {
  let core = false;
  const P = path.join(BUILD, 'libsim.wasm'), M = path.join(BUILD, 'libsim-mem.wasm');
  if (!noBuild) { core = buildLib({ mem: false }).core; if (mem) core = buildLib({ mem: true }).core || core; }
  const ctx = { plainModule: await compile(P), core, dict: dictionary() };
  if (mem) ctx.memModule = await compile(M);
  return ctx;
}
async function libPrepare(pool, ctx, n) {
  const r = new Rng(`${SEED}/${ctx.property}/ops`);
  const seen = new Set(); ctx.ops = [];
  if (!ctx.core) for (const op of seeds.ops) { seen.add(JSON.stringify(op)); ctx.ops.push(op); }
  for (const w of r.sample(ctx.dict.filter(w => !/^\d+$|%/.test(w)), 60)) { const op = [r.pick(['parse', 'matches', 'valid']), w]; if (!seen.has(JSON.stringify(op))) { seen.add(JSON.stringify(op)); ctx.ops.push(op); } }
  while (ctx.ops.length < n) { const op = genOp(r, { core: ctx.core }); const k = JSON.stringify(op); if (!seen.has(k)) { seen.add(k); ctx.ops.push(op); } }
  const chunks = []; for (let i = 0; i < ctx.ops.length; i += 16) chunks.push(ctx.ops.slice(i, i + 16));
  const pairs = (await pool.map('baselines', chunks)).flat();
  await pool.broadcast('learn', { ops: ctx.ops, pairs });
  ctx.extraEvidence = { vocabulary: ctx.ops.length, alone_answers: new Set(pairs.map(p => p[1])).size, alone_died: pairs.filter(p => p[1].startsWith('DIED') || p[1].startsWith('PANIC')).length, core_operations_only: ctx.core };
}
const lib = (id, o) => ({
  id, scenario: S('./s_lib.mjs'), build: ({ noBuild } = {}) => libCtx({ mem: o.mem, noBuild }).then(c => ({ ...c, nontrivial: o.nontrivial })),
  prepare: (pool, ctx) => libPrepare(pool, ctx, o.vocab[TIER]), ...o,
});

export const TOOLS = { parse: './cmd/parse', matches: './cmd/matches', 'parse-wasi': './cmd/parse-wasi' };
export const TOOL_KINDS = ['stock', 'sched', 'mem'];
async function cliCtx(names, { noBuild } = {}) {
  if (!noBuild) { buildLib({ mem: false }); for (const n of names) for (const k of TOOL_KINDS) buildTool(n, TOOLS[n], k); }
  const tools = {}; for (const n of names) for (const k of TOOL_KINDS) tools[n + (k === 'stock' ? '' : '-' + k)] = await compile(path.join(BUILD, n + (k === 'stock' ? '' : '-' + k) + '.wasm'));
  return { plainModule: await compile(path.join(BUILD, 'libsim.wasm')), tools, toolName: names[0], dict: dictionary() };
}
async function cliPrepare(pool, ctx, n) {
  const list = cliWords(new Rng(`${SEED}/${ctx.property}/words`), n, seeds.words); for (const w of new Rng(`${SEED}/${ctx.property}/dict`).sample(ctx.dict, 30)) if (!list.includes(w) && !w.startsWith('-')) list.push(w);
  const chunks = []; for (let i = 0; i < list.length; i += 16) chunks.push(list.slice(i, i + 16).flatMap(w => [['rawjson', w], ['rawmatch', w]]));
  const pairs = (await pool.map('baselines', chunks)).flat();
  await pool.broadcast('learn', { list, pairs });
  ctx.extraEvidence = { vocabulary: list.length, unparsable: pairs.filter(p => p[0].startsWith('["rawjson') && p[1].startsWith('{"err')).length };
}
const cli = (id, names, o) => ({
  id, scenario: S('./s_cli.mjs'), build: opt => cliCtx(names, opt), prepare: (pool, ctx) => cliPrepare(pool, ctx, TIER === 'quick' ? 360 : 2000),
  budget: { quick: { runs: 8000, seconds: 40 }, thorough: { runs: 1000000, seconds: 780 } }, ...o,
});

async function jsCtx(kinds, { noBuild } = {}) {
  if (!noBuild) { buildLib({ mem: false }); for (const k of kinds) buildJs(k); }
  const js = {}; for (const k of kinds) js[k] = await compile(path.join(BUILD, `parse-js-${k}.wasm`));
  return { plainModule: await compile(path.join(BUILD, 'libsim.wasm')), js, glue: { go: fs.readFileSync(path.join(GOROOT, 'lib/wasm/wasm_exec.js'), 'utf8'), page: fs.readFileSync(path.join(REPO, 'app/server/www/javascript/sfomuseum.golang.wasm.bundle.js'), 'utf8') } };
}
async function jsPrepare(pool, ctx, n) {
  const list = cliWords(new Rng(`${SEED}/${ctx.property}/words`), n, seeds.words, true);
  const chunks = []; for (let i = 0; i < list.length; i += 16) chunks.push(list.slice(i, i + 16).map(w => ['rawjson', w]));
  const pairs = (await pool.map('baselines', chunks)).flat();
  await pool.broadcast('learn', { list, pairs });
  ctx.extraEvidence = { vocabulary: list.length, unparsable: pairs.filter(p => p[1].startsWith('{"err')).length };
}
function readTree(dir, at = '/', out = {}) {
  for (const e of fs.readdirSync(dir, { withFileTypes: true })) { const f = path.join(dir, e.name); if (e.isDirectory()) readTree(f, at + e.name + '/', out); else if (/\.(html|css|js|mjs|json|txt|svg)$/.test(e.name)) out[at + e.name] = fs.readFileSync(f, 'utf8'); }
  return out;
}
const jsc = (id, kinds, o) => ({
  id, scenario: S('./s_js.mjs'), build: opt => jsCtx(kinds, opt), prepare: (pool, ctx) => jsPrepare(pool, ctx, TIER === 'quick' ? 360 : 2000),
  budget: { quick: { runs: 5000, seconds: 40 }, thorough: { runs: 1000000, seconds: 780 } }, ...o,
});

// what the server publishes: the files its embedding patterns take from the
// working tree, and the stand-ins for the WebAssembly files git ignores
async function srvCtx({ noBuild } = {}) {
  for (const k of ['sched', 'mem']) if (!noBuild) buildServer(k);
  const modules = {}; for (const k of ['sched', 'mem']) modules[k] = await compile(path.join(BUILD, `server-${k}.wasm`));
  const files = {}, www = path.join(REPO, 'app/server/www');
  const add = (dir, at, deep) => { for (const e of fs.readdirSync(dir, { withFileTypes: true })) { if (/^[._]/.test(e.name)) continue; const f = path.join(dir, e.name); if (e.isDirectory()) { if (deep) add(f, at + e.name + '/', true); } else if (deep || e.name.endsWith('.html')) files[at + e.name] = new Uint8Array(fs.readFileSync(f)); } };
  add(www, '/', false); for (const d of ['css', 'javascript']) add(path.join(www, d), `/${d}/`, true);
  for (const f of Object.keys(STAND_IN)) files['/wasm/' + f] = new Uint8Array(standIn(f));
  return { modules, files, dict: dictionary() };
}
const srv = (id, o) => ({ id, scenario: S('./s_server.mjs'), build: srvCtx, budget: { quick: { runs: 8000, seconds: 40, chunk: 4 }, thorough: { runs: 1000000, seconds: 780, chunk: 4 } }, ...o });

export const checks = {
  C01: lib('C01', {
    mem: true, nontrivial: 'sched', vocab: { quick: 400, thorough: 3000 },
    budget: { quick: { runs: 6000, seconds: 45 }, thorough: { runs: 400000, seconds: 780 } },
  }),
  C02: lib('C02', { mem: false, vocab: { quick: 500, thorough: 3000 }, budget: { quick: { runs: 8000, seconds: 40 }, thorough: { runs: 400000, seconds: 780 } } }),
  C03: lib('C03', { mem: false, vocab: { quick: 500, thorough: 3000 }, budget: { quick: { runs: 8000, seconds: 40 }, thorough: { runs: 400000, seconds: 780 } } }),
  C04: lib('C04', { mem: false, vocab: { quick: 400, thorough: 400 }, budget: { quick: { runs: 3000, seconds: 40 }, thorough: { runs: 400000, seconds: 780 } } }),
  C05: cli('C05', ['parse'], {}),
  C06: cli('C06', ['matches'], {}),
  C07: cli('C07', ['parse-wasi'], {}),
  C08: cli('C08', ['parse', 'matches'], {}),
  C18: cli('C18', ['parse', 'matches', 'parse-wasi'], {}),
  C09: { id: 'C09', scenario: S('./s_stream.mjs'), build: ({ noBuild } = {}) => libCtx({ mem: true, noBuild }), prepare: (pool, ctx) => cliPrepare(pool, ctx, TIER === 'quick' ? 360 : 2000), budget: { quick: { runs: 8000, seconds: 40 }, thorough: { runs: 1000000, seconds: 780 } } },
  C10: jsc('C10', ['stock', 'sched', 'mem'], {}),
  C11: jsc('C11', ['stock', 'sched', 'mem'], {}),
  C12: jsc('C12', ['sched'], { budget: { quick: { runs: 600, seconds: 40 }, thorough: { runs: 1000000, seconds: 780 } } }),
  C13: srv('C13', {}),
  C14: srv('C14', {}),
  C15: srv('C15', {}),
  C19: srv('C19', { budget: { quick: { runs: 2000, seconds: 40, chunk: 2 }, thorough: { runs: 1000000, seconds: 780, chunk: 2 } } }),
  C16: {
    ...jsc('C16', ['stock', 'sched'], { budget: { quick: { runs: 6000, seconds: 30 }, thorough: { runs: 1000000, seconds: 780 } } }), scenario: S('./s_page.mjs'),
    build: async o => ({ ...(await jsCtx(['stock', 'sched'], o)), www: readTree(path.join(REPO, 'app/server/www')) }),
  },
  C17: {
    ...jsc('C17', ['stock'], { budget: { quick: { runs: 2000, seconds: 50, chunk: 2 }, thorough: { runs: 1000000, seconds: 780, chunk: 2 } } }), scenario: S('./s_site.mjs'),
    build: async o => { const c = await jsCtx(['stock'], o); if (!o?.noBuild) buildServer('site'); return { ...c, modules: { site: await compile(path.join(BUILD, 'server-site.wasm')) }, moduleBytes: new Uint8Array(fs.readFileSync(path.join(BUILD, 'parse-js-stock.wasm'))) }; },
  },
};

if (process.argv[1] && import.meta.url.endsWith(path.basename(process.argv[1])) && process.argv[2]) await runCheck({ ...checks[process.argv[2]], evidence: texts[process.argv[2]] });
