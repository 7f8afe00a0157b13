// C09: dates written to and read from simulated byte streams.  Writers and
// readers are goroutines of one process; the host decides their interleaving
// and how every write and read of a stream goes.
import { Host, Abort } from './wasi.mjs';
import { Decider } from './decider.mjs';
import { workerApi, dropSome } from './runner.mjs';
import { asModule } from './s_lib.mjs';
import { genEdtf, sibling } from './corpus.mjs';

const ENC = new TextEncoder();
export async function worker(ctx) {
  const plain = await asModule(ctx.plainModule);
  const mem = ctx.memModule ? await asModule(ctx.memModule) : null;
  const base = new Map(), words = [];
  function alone(op) {
    const key = JSON.stringify(op); let v = base.get(key);
    if (v === undefined) {
      const r = new Host(plain, { args: ['libsim'], env: [], clock: {}, decider: new Decider({ decisions: {} }), stdin: ENC.encode(JSON.stringify({ tasks: [[op]] })) }).run();
      v = r.emits[0]?.replace(/^0 0 /, '') ?? 'DIED'; base.set(key, v);
    }
    return v;
  }
  function exec(plan, { seed = null, decisions = null, trace = false }) {
    const dec = new Decider({ seed, decisions, log: trace ? [] : null });
    const useMem = plan.mem && mem;
    const faults = {};
    let prev = 0; const style = plan.style ?? {};
    const host = new Host(useMem ? mem : plain, {
      args: ['libsim'], env: [], clock: {}, entropy: plan.entropy ?? 0, decider: dec, limits: { calls: 3_000_000 },
      stdin: ENC.encode(JSON.stringify({ sched: true, mem: !!useMem, limit: 60_000_000, gc: plan.gc ?? 0, streams: plan.streams })),
      sched: (g, n) => (style.kind === 'sticky' && g.chance(0.8) ? Math.min(prev, n - 1) : prev = g.int(n)),
      preempt: (g, kind) => kind ? (style.hot ? g.geom(style.hot) : Infinity) : (style.mem ? g.geom(style.mem) : Infinity),
      verif: self => ({
        io: (k, dir, n) => {
          self.step();
          const s = plan.streams[k] ?? {};
          const v = dec.choose(`${dir ? 'w' : 'r'}${k}`, 0, g => {
            const f = s.faults ?? {};
            if (g.chance(dir ? f.werr ?? 0 : f.rerr ?? 0)) return 1 + 4 * g.int(n + 1) + 1;
            if (!dir && g.chance(f.cut ?? 0)) return 1 + 4 * g.int(n + 1) + 2;
            if (!dir && g.chance(f.short ?? 0)) return 1 + 4 * (g.chance(0.1) ? 0 : 1 + g.int(Math.min(n, g.pick([1, 3, 40, 400]))));
            return 0;
          });
          if (!v) { dec.event(`${dir ? 'write' : 'read'} ${k} ${n}`); return n; }
          const fate = (v - 1) % 4, m = Math.min(n, Math.floor((v - 1) / 4));
          const kind = fate === 1 ? (dir ? 'write-error' : 'read-error') : fate === 2 ? 'truncation' : m === 0 ? 'empty-read' : 'short-read';
          dec.fault(kind); dec.event(`stream ${k}: ${kind}, ${m} of ${n} bytes`);
          (faults[k] ??= {})[kind] = 1;
          return (m | fate << 24) >>> 0;
        },
      }),
    });
    const r = host.run();
    const violation = judge(plan, r, faults);
    dec.event('verdict ' + (violation ? violation.class + violation.detail : 'ok'));
    const hash = dec.hash.hex();
    const st = r.emits.find(e => e.startsWith('stats'))?.split(' ').map(Number);
    return {
      violation, hash, decisions: dec.rec, fired: dec.fired, trace: dec.log, sig: hash, nontrivial: Object.keys(dec.fired).length > 0,
      sum: { streams: plan.streams.length, dates_written: r.emits.filter(e => /^\d+ wrote/.test(e)).length, dates_read: r.emits.filter(e => /^\d+ read /.test(e)).length, scheduling_choices: host.nMulti, preemptions: st?.[3] ?? 0 },
      probes: { memory_interleaved: useMem ? 1 : 0, partial_documents: r.emits.some(e => / reader error unexpected-eof/.test(e)) ? 1 : 0 },
      sample: { plan: { ...plan, streams: plan.streams.map(s => ({ ...s, docs: s.docs.slice(0, 4), of: s.docs.length })) }, faults, log: r.emits.map(e => e.slice(0, 80)).slice(0, 6) },
    };
  }
  function judge(plan, r, faults) {
    const hb = r.emits.find(e => / harness/.test(e)); if (hb) throw new Error(hb);
    if (r.abort) return { class: r.abort.kind, detail: r.abort.detail };
    if (r.exit !== 0) return { class: 'crash', detail: `the process died (exit ${r.exit}): ${new TextDecoder().decode(r.stderr).slice(0, 1500)}` };
    for (let k = 0; k < plan.streams.length; k++) {
      const s = plan.streams[k], f = faults[k] ?? {};
      const get = re => r.emits.map(e => re.exec(e)).filter(Boolean);
      const wrote = get(new RegExp(`^${k} wrote (\\d+) ([\\s\\S]*)$`)).map(m => m[2]);
      const read = get(new RegExp(`^${k} read (\\d+) ([\\s\\S]*)$`)).map(m => m[2]);
      const ends = get(new RegExp(`^${k} offset (\\d+) (\\d+)$`)).map(m => +m[2]);
      const wend = get(new RegExp(`^${k} writer ([\\s\\S]*)$`))[0]?.[1], rend = get(new RegExp(`^${k} reader ([\\s\\S]*)$`))[0]?.[1];
      const delivered = +(get(new RegExp(`^${k} delivered (\\d+)$`))[0]?.[1] ?? -1);
      const name = `stream ${k} (${s.write} / ${s.read})`;
      if (wend === undefined || rend === undefined) return { class: 'no-answer', detail: `${name}: the ${wend === undefined ? 'writer' : 'reader'} never finished` };
      if (wend !== 'ok' && !(wend === 'error injected' && f['write-error'])) return { class: 'encode', detail: `${name}: writing ended with ${wend.slice(0, 500)}` };
      if (wend === 'ok' && f['write-error'] && s.write !== 'marshal') return { class: 'write-error-lost', detail: `${name}: a write failed, but the writer was not told` };
      for (let i = 0; i < read.length; i++) if (read[i] !== wrote[i]) return { class: 'wrong-date', detail: `${name}: date ${i} (${JSON.stringify(s.docs[i])}) was read back as ${read[i].slice(0, 900)}, written was ${(wrote[i] ?? 'nothing').slice(0, 900)}` };
      if (rend.startsWith('CHANGED') || rend.startsWith('PANIC')) return { class: rend.startsWith('PANIC') ? 'panic' : 'value-changed', detail: `${name}: ${rend.slice(0, 1500)}` };
      const whole = ends.length > 0 && ends[0] <= delivered;
      const complete = s.write === 'array' ? (whole ? wrote.length : 0) : ends.filter(e => e <= delivered).length;
      if (read.length !== complete) return { class: 'count', detail: `${name}: ${delivered} bytes arrived, ${complete} complete dates, but ${read.length} were read; ended with ${rend.slice(0, 400)}` };
      const last = s.write === 'array' ? (whole ? ends[0] : -1) : complete ? ends[complete - 1] : -1;
      const partial = delivered > last + 1;
      if (partial && rend === 'eof') return { class: 'truncation-lost', detail: `${name}: the stream ended inside a date (byte ${delivered}), but the reader saw a normal end` };
      if (!partial && !f['read-error'] && rend !== 'eof' && !(s.write === 'array' && !whole)) return { class: 'decode', detail: `${name}: nothing was cut off, but reading ended with ${rend.slice(0, 500)}` };
    }
    return null;
  }
  function gen(r) {
    const n = r.weighted([[5, 1], [4, 2], [2, 3]]);
    const streams = [];
    for (let k = 0; k < n; k++) {
      const docs = []; const m = r.pick([0, 1, 2, 3, 5, 9]); for (let i = 0; i < m; i++) docs.push(r.chance(0.5) ? r.pick(words) : r.chance(0.3) && docs.length ? sibling(r, r.pick(docs)) : genEdtf(r));
      const faulty = r.pick(['none', 'short', 'short', 'cut', 'rerr', 'werr', 'all']);
      const q = r.pick([0.03, 0.1, 0.3]);
      streams.push({
        docs, write: r.pick(['encode', 'encode', 'marshal', 'indent', 'array']), read: r.pick(['decode', 'pointer', 'lines', 'all']), buf: r.pick([16, 64, 512, 4096]), hold: r.chance(0.4),
        faults: { short: r.pick([0, 0.3, 0.9]), ...(faulty === 'short' ? { short: 0.9 } : {}), ...(faulty === 'cut' || faulty === 'all' ? { cut: q } : {}), ...(faulty === 'rerr' || faulty === 'all' ? { rerr: q } : {}), ...(faulty === 'werr' || faulty === 'all' ? { werr: q } : {}) },
      });
      const s = streams[k]; if (s.write === 'indent' && s.read === 'lines') s.read = 'decode';
    }
    return { streams, mem: r.chance(0.25), gc: r.pick([0, 0, 5]), entropy: r.int(1e9), style: { kind: r.pick(['uniform', 'sticky']), mem: r.pick([0, 400, 4000]), hot: r.pick([1, 5, 0]) } };
  }
  function* reduce(plan) {
    const put = (k, v) => ({ ...plan, [k]: v });
    if (plan.mem) yield put('mem', false);
    for (let k = 0; k < plan.streams.length; k++) {
      const S = x => put('streams', plan.streams.map((s, i) => (i === k ? { ...s, ...x } : s)));
      if (k === plan.streams.length - 1 && k > 0) yield put('streams', plan.streams.slice(0, k));
      for (const d of dropSome(plan.streams[k].docs)) yield S({ docs: d });
      for (let i = 0; i < plan.streams[k].docs.length && i < 4; i++) if (plan.streams[k].docs[i] !== '1985') yield S({ docs: plan.streams[k].docs.map((x, j) => j === i ? '1985' : x) });
    }
    if (plan.gc) yield put('gc', 0);
    if (plan.entropy) yield put('entropy', 0);
  }
  return workerApi(ctx, {
    gen, exec, reduce, extra: {
      async baselines(list) { return list.map(op => [JSON.stringify(op), alone(op)]); },
      async learn({ list, pairs }) { for (const [k, v] of pairs) base.set(k, v); words.push(...list.filter(w => alone(['rawjson', w]).startsWith('{"v"'))); return true; },
    },
  });
}
