// Worker threads, each with its own copy of a scenario module.  Which worker
// runs which seed does not matter: a run depends on its plan alone.
import { Worker } from 'node:worker_threads';
import os from 'node:os';
import { fileURLToPath } from 'node:url';

export const NWORKERS = Math.max(1, Math.min(8, Number(process.env.VERIF_WORKERS || os.availableParallelism())));

export class Pool {
  constructor(scenario, ctx, n = NWORKERS) {
    this.idle = []; this.queue = []; this.workers = []; this.dead = null;
    for (let i = 0; i < n; i++) {
      const w = new Worker(fileURLToPath(new URL('./worker.mjs', import.meta.url)), { workerData: { scenario, ctx }, resourceLimits: { maxOldGenerationSizeMb: 2048 } });
      w.on('message', m => this.done(w, m));
      w.on('error', e => this.fail(e));
      w.on('exit', c => { if (!this.closed && c !== 0) this.fail(new Error('worker exited ' + c)); });
      this.workers.push(w); this.idle.push(w);
    }
    this.watch = setInterval(() => this.check(), 5000); this.watch.unref();
  }
  check() {
    const now = Date.now();
    for (const w of this.workers) if (w.job && now - w.since > Number(process.env.VERIF_STALL_S || 240) * 1000)
      this.fail(new Error('worker made no progress on ' + JSON.stringify(w.job.msg).slice(0, 300)));
  }
  fail(e) { if (!this.dead) { this.dead = e; for (const j of this.queue) j.reject(e); for (const w of this.workers) if (w.job) w.job.reject(e); this.queue = []; this.close(); } }
  call(fn, arg) {
    if (this.dead) return Promise.reject(this.dead);
    return new Promise((resolve, reject) => { this.queue.push({ msg: { fn, arg }, resolve, reject }); this.pump(); });
  }
  pump() { while (this.queue.length && this.idle.length) { const w = this.idle.pop(); w.job = this.queue.shift(); w.since = Date.now(); w.postMessage(w.job.msg); } }
  done(w, m) { const j = w.job; w.job = null; this.idle.push(w); if (m.err) j.reject(new Error(m.err)); else j.resolve(m.res); this.pump(); }
  async map(fn, args) { return Promise.all(args.map(a => this.call(fn, a))); }
  // run fn on every worker (all must be idle)
  broadcast(fn, arg) {
    return Promise.all(this.workers.map(w => new Promise((resolve, reject) => {
      this.idle.splice(this.idle.indexOf(w), 1);
      w.job = { msg: { fn, arg }, resolve, reject }; w.since = Date.now(); w.postMessage(w.job.msg);
    })));
  }
  close() { this.closed = true; clearInterval(this.watch); for (const w of this.workers) w.terminate(); }
}
