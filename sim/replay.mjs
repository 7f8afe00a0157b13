// node sim/replay.mjs FILE [--no-build] [--trace]: run a replay file again.
// Exit 1 and the violation if it reproduces exactly, 0 if the property holds.
import fs from 'node:fs';
import path from 'node:path';
import { pathToFileURL } from 'node:url';
import { VERIF } from './toolchain.mjs';

const file = process.argv[2];
const rec = JSON.parse(fs.readFileSync(file, 'utf8'));
const spec = (await import(pathToFileURL(path.join(VERIF, 'sim/checks.mjs')))).checks[rec.property];
let code = 2;
try {
  const ctx = { ...(await spec.build({ noBuild: process.argv.includes('--no-build') })), property: rec.property, seed: rec.verif_seed, tier: 'quick', replaying: true };
  const mod = await import(spec.scenario);
  const api = await mod.worker(ctx);
  const r = await api.record({ plan: rec.plan, decisions: rec.decisions, trace: process.argv.includes('--trace') });
  if (process.argv.includes('--trace')) for (const l of r.trace ?? []) console.log('  ' + l);
  if (!r.violation) { console.log(`${rec.property}: held on ${file}`); code = 0; }
  else {
    const same = r.violation.class === rec.violation.class && r.hash === rec.hash;
    console.log(`${r.violation.class}: ${r.violation.detail}`);
    console.log(`VIOLATION property=${rec.property} replay=${file}`);
    if (!same) console.log(`(recorded: ${rec.violation.class} hash ${rec.hash}; now hash ${r.hash})`);
    code = same || !process.argv.includes('--no-build') ? 1 : 3;
  }
} catch (e) { console.error(e?.stack ?? e); }
process.exit(code);
