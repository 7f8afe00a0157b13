// Builds everything once, so that the checks find a warm build cache.
import { buildLib, buildTool, buildJs, buildServer } from './toolchain.mjs';
import { TOOLS, TOOL_KINDS } from './checks.mjs';
const t = Date.now();
const step = (n, f) => { const a = Date.now(); f(); console.log(`${n}: ${((Date.now() - a) / 1000).toFixed(1)} s`); };
step('library', () => buildLib({ mem: false }));
step('library, instrumented', () => buildLib({ mem: true }));
for (const [n, p] of Object.entries(TOOLS)) for (const k of TOOL_KINDS) step(n + ' ' + k, () => buildTool(n, p, k));
for (const k of ['stock', 'sched', 'mem']) step('parse-wasm ' + k, () => buildJs(k));
for (const k of ['sched', 'mem', 'site']) step('server ' + k, () => buildServer(k));
console.log(`setup: ${((Date.now() - t) / 1000).toFixed(1)} s`);
