import { parentPort, workerData } from 'node:worker_threads';

const mod = await import(workerData.scenario);
const api = await mod.worker(workerData.ctx);
parentPort.on('message', async ({ fn, arg }) => {
  try { parentPort.postMessage({ res: await api[fn](arg) }); }
  catch (e) { parentPort.postMessage({ err: String(e?.stack ?? e) }); }
});
