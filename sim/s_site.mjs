// C17: the whole of it: the server, a network, a browser, the page, its glue
// and the compiled parser, with a user in front.
//
// The page's requests depend on what it was sent, and what it is sent depends
// on when it asked.  Both sides are deterministic, so a run goes to a fixed
// point: serve the requests known so far, run the page on the answers, and
// when it asks for something that was not served yet, begin again with that
// request added.  What happened before that request is the same each time.
import crypto from 'node:crypto';
import zlib from 'node:zlib';
import { NetHost, Client, IO } from './net.mjs';
import { text } from './wasi.mjs';
import { Decider } from './decider.mjs';
import { workerApi, dropSome } from './runner.mjs';
import { inCharset, pageEngine, session } from './s_page.mjs';
import { scheduler, surroundings } from './s_server.mjs';

const START = 200; // ms the server gets before the browser comes

// the parts of a content security policy that decide whether the page can run
function policy(values) {
  const ps = values.flatMap(v => v.split(',')).map(v => new Map(v.split(';').map(d => d.trim().split(/\s+/)).filter(d => d[0]).map(([n, ...s]) => [n.toLowerCase(), s])));
  if (!ps.length) return null;
  const src = (p, ...names) => { for (const n of names) if (p.has(n)) return p.get(n); return null; };
  const host = (l, path) => l.some(x => x === '*' || x === "'self'" || /^http:$/i.test(x) || /^(https?:\/\/)?localhost(:(8080|\*))?(\/|$)/i.test(x)) && !/^https?:/.test(path ?? '');
  return {
    allows(what, x) {
      return ps.every(p => {
        const script = src(p, 'script-src', 'default-src');
        if (p.has('sandbox') && !p.get('sandbox').includes('allow-scripts') && /^(handler|inline|script)$/.test(what)) return false;
        switch (what) {
          case 'handler': { const l = src(p, 'script-src-attr', 'script-src', 'default-src'); return !l || (l.includes("'unsafe-inline'") && !l.some(y => /^'(nonce|sha\d+)-/.test(y))) || l.includes("'unsafe-hashes'"); }
          case 'inline': { const l = src(p, 'script-src-elem', 'script-src', 'default-src'); if (!l) return true; const strict = l.some(y => /^'(nonce|sha\d+)-/.test(y)); if (l.includes("'unsafe-inline'") && !strict) return true; const n = x.getAttribute('nonce'); return (n && l.includes(`'nonce-${n}'`)) || ['sha256', 'sha384', 'sha512'].some(a => l.includes(`'${a}-${crypto.createHash(a).update(x.textContent).digest('base64')}'`)); }
          case 'script': { const l = src(p, 'script-src-elem', 'script-src', 'default-src'); return !l || host(l, x); }
          case 'style': { const l = src(p, 'style-src-elem', 'style-src', 'default-src'); return !l || host(l, x); }
          case 'connect': { const l = src(p, 'connect-src', 'default-src'); return !l || host(l, x); }
          case 'wasm': return !script || script.includes("'unsafe-eval'") || script.includes("'wasm-unsafe-eval'");
          default: return true;
        }
      });
    },
  };
}

export async function worker(ctx) {
  const { open, alone, base, words } = await pageEngine(ctx);
  const real = ctx.moduleBytes;
  const isModule = b => b.length === real.length && Buffer.compare(b, real) === 0;

  // ---- the server's side: every request on its connection, at its time
  function serve(plan, requests, dec) {
    const host = new NetHost(ctx.modules.site, {
      args: ['server-wasm'], env: [], decider: dec, clock: plan.clock, entropy: plan.entropy, sched: scheduler(plan.style), cpu: plan.style.cpu,
      preempt: () => Infinity, limits: { calls: 4_000_000 },
      net: { files: plan.files, tail: 1000, spurious: plan.spurious, oneAtATime: plan.oneAtATime, early: plan.style.early, nat: plan.nat },
    });
    const clients = [];
    for (const q of requests) {
      const net = plan.conns[q.conn % plan.conns.length];
      let c = clients[q.conn];
      const ask = ['req', { m: 'GET', path: q.path, h: q.h }];
      if (!c) { c = clients[q.conn] = { role: net.faulty || net.cut ? 'disturbed' : 'good', ...net, at: q.at, retries: 3, steps: [] }; if (net.cut) c.steps.push([net.cut[0], net.cut[1]]); }
      else c.steps.push(['until', q.at]);
      c.steps.push(ask, ['await']);
    }
    const others = plan.others ?? []; others.forEach((s, i) => new Client(host, i, s).start());
    const list = clients.map((s, i) => { const c = new Client(host, others.length + i, s); c.start(); return c; });
    const r = host.run();
    if (r.abort?.kind !== 'end') { const e = text(r.stderr); host.die(); return { dead: { class: r.abort?.kind ?? 'exit', detail: `the server stopped: ${r.abort?.detail ?? 'exit status ' + r.exit} ${e.slice(-300)}` } }; }
    return { list, host };
  }

  function exec(plan, { seed = null, decisions = null, trace = false }) {
    const requests = []; let log, hash = '', result;
    for (let round = 0; ; round++) {
      if (round > 40) throw new Error('harness: no fixed point');
      const part = k => (decisions ? Object.fromEntries(Object.entries(decisions).filter(([s]) => s.startsWith(k)).map(([s, v]) => [s.slice(k.length), v])) : null);
      const dn = new Decider({ seed: seed && seed + '/net', decisions: part('n:'), log: trace ? [] : null }), db = new Decider({ seed: seed && seed + '/page', decisions: part('b:'), log: trace ? [] : null });
      const s = requests.length ? serve(plan, requests, dn) : { list: [] };
      const b = browse(plan, requests, s, db);
      if (b.missing.length) { const first = Math.min(...b.missing.map(m => m.at)); requests.push(...b.missing.filter(m => m.at === first)); continue; }
      db.event('verdict ' + (b.violation ? b.violation.class + b.violation.detail : 'ok'));
      result = { s, b, dn, db }; break;
    }
    const { s, b, dn, db } = result;
    const rec = {}; for (const [k, d] of [['n:', dn], ['b:', db]]) for (const [n, v] of Object.entries(d.rec)) rec[k + n] = v;
    const fired = { ...dn.fired }; for (const [k, v] of Object.entries(db.fired)) fired[k] = (fired[k] ?? 0) + v;
    for (const c of plan.conns) if (c.cut) fired['planned-' + c.cut[0]] = (fired['planned-' + c.cut[0]] ?? 0) + 1;
    hash = dn.hash.hex() + db.hash.hex();
    return {
      violation: b.violation, hash, decisions: rec, fired, trace: trace ? (dn.log ?? []).concat(['---- browser'], db.log ?? []) : null, sig: hash,
      nontrivial: (s.host?.nMulti ?? 0) > 0,
      sum: { ...b.sum, requests: requests.length, connections: s.host?.accepted ?? 0, bytes_received: (s.list ?? []).reduce((t, c) => t + c.received, 0), simulated_ms: Math.round((s.host?.now ?? 0) / 1e6) + b.sum.page_ms },
      probes: b.probes,
      sample: { plan: { ...plan, loads: plan.loads.slice(0, 1) }, requests: requests.map(q => `${Math.round(q.at)} ms: ${q.path} on connection ${q.conn}`), loads: b.loads },
    };
  }

  // ---- the browser's side
  function browse(plan, requests, s, dec) {
    const missing = [], cache = new Map(), out = { missing, violation: null, probes: {}, sum: { submissions: 0, outcomes_checked: 0, page_ms: 0, page_loads: 0 }, loads: [] };
    if (s.dead) { out.violation = s.dead; return out; }
    let k = 0, T = START, faulted = false, undelivered = null;
    const conns = []; // what each connection did: [{free at, usable}]
    const used = new Map(); // requests answered so far, by connection
    const asked = (path, at, h, order) => { // the answer to one request, or null
      const i = k++;
      if (i >= requests.length) {
        // a browser uses up to six connections, and keeps them
        let conn = -1;
        for (let c = 0; c < conns.length; c++) if (conns[c]?.usable && conns[c].free <= at && at - conns[c].free < 4000) { conn = c; break; }
        if (conn < 0) conn = new Set(requests.map(q => q.conn).concat(missing.map(m => m.conn))).size;
        if (conns[conn]) conns[conn].usable = false;
        missing.push({ path, at, h, conn });
        return null;
      }
      const q = requests[i];
      if (q.path !== path || Math.abs(q.at - at) > 1e-6) throw new Error(`harness: request ${i} was ${q.path} at ${q.at}, now ${path} at ${at}`);
      const c = s.list[q.conn], n = used.get(q.conn) ?? 0; used.set(q.conn, n + 1);
      const r = c.responses[n];
      const bad = c.problems.length;
      const done = r?.complete && !bad && !(c.responses.length > n + 1 && !r.complete);
      const when = r?.complete ? r.at / 1e6 : c.doneAt !== null && c.end ? c.doneAt / 1e6 : Infinity;
      conns[q.conn] = { free: when, usable: !!done && !/close/i.test(r.headers.get('connection') ?? '') && !c.end };
      if (!done) {
        faulted = true;
        const net = plan.conns[q.conn % plan.conns.length];
        if (!net.cut && !net.faulty && !(n > 0 && !r) && !undelivered) undelivered = `${path} was not delivered completely (${r ? `status ${r.status}, ${r.body.length} bytes` : 'no answer'}; connection ${c.end ?? 'open'}${bad ? '; ' + c.problems.join('; ') : ''}), although nothing disturbed its connection`;
      }
      if (!done) { out.probes['not-delivered'] = (out.probes['not-delivered'] ?? 0) + 1; }
      if (!r || bad || !r.status) return { at: when, headAt: when, status: 0, conn: q.conn };
      return { at: when, headAt: when, status: r.status, headers: r.headers, body: r.body, whole: !!done, conn: q.conn };
    };
    const HEAD = [['User-Agent', 'Mozilla/5.0 (sim)'], ['Accept', '*/*'], ['Accept-Encoding', 'gzip, deflate, br'], ['Accept-Language', 'en'], ['Connection', 'keep-alive']];
    // one resource: cache, redirects, decoding
    const get = (path, what, at) => {
      if (/^https?:|^\?/.test(path)) return { at: at + 1, headAt: at + 1, status: 0 };
      for (let hop = 0, p = path; hop < 6; hop++) {
        const old = cache.get(p), h = HEAD.slice();
        if (old && old.fresh > at) { dec.event('from cache ' + p); out.probes['from-cache'] = (out.probes['from-cache'] ?? 0) + 1; return { ...old.r, at: at + 0.1, headAt: at + 0.1 }; }
        if (old?.etag) h.push(['If-None-Match', old.etag]); if (old?.date) h.push(['If-Modified-Since', old.date]);
        let r = asked(p, at, h);
        if (!r) return null;
        dec.event(`${p} ${r.status} ${r.whole} ${Math.round(r.at * 1000)} ${r.body?.length}`);
        if (r.at === Infinity) return null;
        if (r.status === 304 && old) { out.probes['revalidated'] = (out.probes['revalidated'] ?? 0) + 1; return { ...old.r, at: r.at, headAt: r.headAt }; }
        if ([301, 302, 303, 307, 308].includes(r.status) && r.headers.get('location')) { const u = new URL(r.headers.get('location'), 'http://localhost:8080' + p); if (u.host !== 'localhost:8080') return { at: r.at, headAt: r.at, status: 0 }; p = u.pathname + u.search; at = r.at; continue; }
        if (!r.status) return r;
        let bytes = Buffer.from(r.body), whole = r.whole;
        const ce = (r.headers.get('content-encoding') ?? '').trim().toLowerCase();
        if (whole && ce && ce !== 'identity') { try { bytes = ce === 'gzip' ? zlib.gunzipSync(bytes) : ce === 'deflate' ? zlib.inflateSync(bytes) : ce === 'br' ? zlib.brotliDecompressSync(bytes) : null; if (!bytes) whole = false; } catch { whole = false; } }
        const x = { at: r.at, headAt: r.headAt, status: r.status, type: r.headers.get('content-type') ?? '', nosniff: /nosniff/i.test(r.headers.get('x-content-type-options') ?? ''), headers: r.headers, bytes, whole };
        const cc = r.headers.get('cache-control') ?? '';
        if (whole && r.status === 200 && !/no-store/i.test(cc)) { const ma = /max-age=(\d+)/i.exec(cc); cache.set(p, { r: x, etag: r.headers.get('etag'), date: r.headers.get('last-modified'), fresh: ma && !/no-cache/i.test(cc) ? r.at + Number(ma[1]) * 1000 : 0 }); }
        return x;
      }
      return { at, headAt: at, status: 0 };
    };
    const kept = {};
    for (let n = 0; n < plan.loads.length; n++) {
      const L = plan.loads[n];
      faulted = false;
      const d = get('/', 'document', T);
      if (missing.length) return out;
      out.sum.page_loads++;
      dec.event(`load ${n}: document ${d ? d.status + ' ' + d.whole : 'never'}`);
      if (!d || !d.status || !d.whole) { out.loads.push('document not delivered'); if (!faulted) { out.violation = { class: 'no-page', detail: `the page of load ${n + 1} did not arrive, although nothing disturbed its connection` }; return out; } T = (d ? d.at : T) + 60_000; continue; }
      if (d.status !== 200 || !/^text\/html\b/i.test(d.type) || /attachment/i.test(d.headers.get('content-disposition') ?? '')) { out.violation = { class: 'no-page', detail: `the page arrives with status ${d.status}, type ${JSON.stringify(d.type)}: a browser does not show it` }; return out; }
      const html = inCharset(d.bytes, d.type);
      const metas = [...html.matchAll(/<meta[^>]*http-equiv=["']?content-security-policy["']?[^>]*>/gi)].map(m => /content="([^"]*)"/i.exec(m[0])?.[1] ?? '');
      const at0 = d.at;
      const r = open({ ...L, build: 'stock', streaming: plan.streaming, entropy: plan.entropy, netFault: 0, scriptFault: 0, hot: 0 }, dec, {
        html, kept, csp: policy([d.headers.get('content-security-policy')].filter(Boolean).concat(metas)), isModule,
        load: (path, what, t) => { const x = get(path, what, at0 + t); return x && { ...x, at: x.at - at0, headAt: x.headAt - at0 }; },
        faulted: () => faulted || missing.length > 0,
      });
      if (missing.length) return out;
      if (undelivered) { out.violation = { class: 'not-delivered', detail: `load ${n + 1} of the page: ${undelivered}` }; return out; }
      out.sum.submissions += r.st.n; out.sum.outcomes_checked += r.st.shown; out.sum.page_ms += Math.round(r.realm.t);
      const state = !r.button ? 'none' : r.button.disabled ? 'unusable' : 'usable';
      out.probes['page-' + state] = (out.probes['page-' + state] ?? 0) + 1; out.loads.push(`page ${state}, ${r.st.n} submissions`);
      if (r.violation) { out.violation = { ...r.violation, detail: `load ${n + 1} of the page: ${r.violation.detail}` }; return out; }
      T = at0 + r.realm.t + (L.pause ?? 100);
    }
    return out;
  }

  function gen(r) {
    const b = surroundings(r, 'site');
    b.spurious = r.pick([0, 0, 0, 0.02]);
    const loads = Array.from({ length: r.pick([1, 1, 2, 3]) }, () => { const { user, vocab } = session(r, words); return { user: user.slice(0, 12), last: r.pick(vocab), pause: r.pick([100, 5000, 200_000]) }; });
    const wk = [IO[1], IO[2], IO[3], IO[4]], hard = [IO[5], IO[6]];
    const bad = r.pick([0, 0, 0.3, 0.7]);
    const conn = () => {
      const c = { latency: r.pick([0.05, 0.05, 1, 1, 20, 20, 150, 400]), jitter: r.pick([0, 0, 30]), cap: r.pick([65536, 262144, 1 << 20]), seg: r.pick([[], [], [], [100], [7, 400]]), gap: 1 };
      if (r.chance(bad)) {
        if (r.chance(0.4)) c.cut = r.pick([['rstAfter', 1 + r.int(r.pick([500, 5000, 6_000_000]))], ['closeAfter', 1 + r.int(r.pick([500, 5000, 6_000_000]))], ['stopAfter', 1 + r.int(r.pick([500, 5000, 6_000_000]))]]);
        else { c.faulty = {}; if (r.chance(0.5)) c.faulty.r = r.pick([{ p: 0.2, kinds: wk }, { at: r.int(8), kinds: hard }]); if (r.chance(0.8)) c.faulty.w = r.pick([{ p: r.pick([0.02, 0.2]), kinds: wk }, { at: r.int(r.pick([6, 200])), kinds: [...hard, IO[7]] }]); }
      }
      return c;
    };
    // other visitors at the same time: downloads that stall, break, go on
    const others = Array.from({ length: r.pick([0, 0, 2, 6]) }, () => {
      const big = r.pick(['/wasm/parse-js.wasm', '/css/bootstrap.min.css', '/']); const stay = r.pick([100, 5000, 60_000]);
      return { role: 'bad', at: START - 20 + r.int(600), latency: r.pick([1, 20, 100]), cap: r.pick([1000, 8192, 65536]), seg: [], gap: 1, steps: r.pick([
        [['stopAfter', 1 + r.int(50000)], ['req', { m: 'GET', path: big, h: [] }], ['sleep', stay], [r.pick(['rst', 'close'])]],
        [['rstAfter', 1 + r.int(300000)], ['req', { m: 'GET', path: big, h: [] }], ['sleep', stay], ['rst']],
        [['req', { m: 'GET', path: '/', h: [] }], ['await'], ['sleep', stay], ['close']],
        [['sleep', stay], ['rst']], [['raw', 'GET /wasm/par'], ['sleep', stay], ['rst']],
      ]) };
    });
    return { ...b, loads, others, conns: Array.from({ length: r.pick([1, 3, 6]) }, conn), streaming: r.chance(0.75) };
  }
  function* reduce(plan) {
    const put = (k, v) => ({ ...plan, [k]: v });
    if (plan.loads.length > 1) for (const l of dropSome(plan.loads)) if (l.length) yield put('loads', l);
    for (let i = 0; i < plan.loads.length; i++) for (const u of dropSome(plan.loads[i].user)) yield put('loads', plan.loads.map((x, k) => (k === i ? { ...x, user: u } : x)));
    if (plan.conns.length > 1) for (const c of dropSome(plan.conns)) if (c.length) yield put('conns', c);
    for (let i = 0; i < plan.conns.length; i++) { const c = plan.conns[i], one = x => put('conns', plan.conns.map((y, k) => (k === i ? x : y))); if (c.faulty) yield one({ ...c, faulty: undefined }); if (c.cut) yield one({ ...c, cut: undefined }); if (c.seg.length) yield one({ ...c, seg: [] }); if (c.jitter) yield one({ ...c, jitter: 0 }); if (c.latency !== 1) yield one({ ...c, latency: 1 }); }
    for (const o of dropSome(plan.others ?? [])) yield put('others', o);
    if (plan.spurious) yield put('spurious', 0);
    if (plan.oneAtATime) yield put('oneAtATime', 0);
    if (plan.nat) yield put('nat', 0);
    if (plan.clock.jumps) yield put('clock', { ...plan.clock, jumps: undefined });
    if (plan.entropy) yield put('entropy', 0);
    if (!plan.streaming) yield put('streaming', true);
    for (let i = 0; i < plan.loads.length; i++) for (const s of ['1985', 'x']) if (!['1985', 'x'].includes(plan.loads[i].last)) yield put('loads', plan.loads.map((x, k) => (k === i ? { ...x, last: s } : x)));
  }
  return workerApi(ctx, {
    gen, exec, reduce, extra: {
      async baselines(list) { return list.map(op => [JSON.stringify(op), alone(op[1])]); },
      async learn({ list, pairs }) { for (const [k, v] of pairs) base.set(k, v); words.push(...list); return true; },
    },
  });
}
