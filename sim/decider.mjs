// Every nondeterministic choice of a run goes through a Decider.  In search
// mode choices come from seeded streams and the ones that differ from the
// default are recorded; in replay mode only the recorded ones are used and no
// random number is drawn, so (plan, decisions) determines the run completely.
import { Rng, LogHash } from './prng.mjs';

export class Decider {
  constructor({ seed = null, decisions = null, log = null }) {
    this.seed = seed;
    this.replay = decisions !== null;
    this.rngs = new Map();
    this.counts = new Map();
    this.rec = {};              // stream -> [[index, value], ...]
    this.hash = new LogHash();
    this.log = log;             // optional array for the readable trace
    this.fired = {};            // fault kind -> count
    this.given = new Map();
    if (this.replay) for (const [s, l] of Object.entries(decisions)) this.given.set(s, { m: new Map(l), sorted: l.map(x => x[0]).sort((a, b) => a - b), pos: 0 });
  }
  rng(stream) {
    let r = this.rngs.get(stream);
    if (!r) this.rngs.set(stream, r = new Rng(this.seed + '/' + stream));
    return r;
  }
  next(stream) { const i = this.counts.get(stream) ?? 0; this.counts.set(stream, i + 1); return i; }
  record(stream, i, v) { (this.rec[stream] ??= []).push([i, v]); }
  // choose(stream, def, draw): draw(rng) gives the search-mode value
  choose(stream, def, draw) {
    const i = this.next(stream);
    let v;
    if (this.replay) { const g = this.given.get(stream); v = g && g.m.has(i) ? g.m.get(i) : def; if (v !== def) this.record(stream, i, v); }
    else { v = draw(this.rng(stream), i); if (v !== def) this.record(stream, i, v); }
    return v;
  }
  // positions(stream): absolute positions at which something happens; returns
  // the distance from `from` to the next one (Infinity when none is left)
  nextPos(stream, from, draw) {
    if (this.replay) {
      const g = this.given.get(stream);
      if (!g) return Infinity;
      while (g.pos < g.sorted.length && g.sorted[g.pos] < from) g.pos++;
      if (g.pos >= g.sorted.length) return Infinity;
      const p = g.sorted[g.pos]; this.record(stream, p, 1);
      return p - from;
    }
    const d = draw(this.rng(stream));
    if (!Number.isFinite(d)) return Infinity;
    this.record(stream, from + d, 1);
    return d;
  }
  fault(kind) { this.fired[kind] = (this.fired[kind] ?? 0) + 1; }
  event(s) { this.hash.add(s); if (this.log) this.log.push(s); }
}

// flat view used by the minimiser
export function flatten(dec) { const out = []; for (const [s, l] of Object.entries(dec)) for (const [i, v] of l) out.push([s, i, v]); return out; }
export function unflatten(list) { const d = {}; for (const [s, i, v] of list) (d[s] ??= []).push([i, v]); return d; }
