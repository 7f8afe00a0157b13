// C13-C15: the web server, its sockets and clients in a simulated network.
import zlib from 'node:zlib';
import { NetHost, Client, IO, ACC, PERMANENT, str } from './net.mjs';
import { text } from './wasi.mjs';
import { Rng } from './prng.mjs';
import { Decider } from './decider.mjs';
import { workerApi, dropSome } from './runner.mjs';

const TYPES = { html: /^text\/html(;|$)/i, css: /^text\/css(;|$)/i, js: /^(text|application)\/(x-)?javascript(;|$)/i, wasm: /^application\/wasm(;|$)/i, mjs: /^(text|application)\/javascript(;|$)/i, json: /^application\/json(;|$)/i };
const HOSTS = '127.0.0.1\tlocalhost\n::1\tlocalhost ip6-localhost\n10.1.2.3\tedtf.example edtf\n# comment\n';
const MIME = '# nothing unusual\ntext/html\t\t\thtml htm\napplication/wasm\t\twasm\ntext/css\t\t\tcss\n';

export function scheduler(style) { // which runnable goroutine goes on: uniform, oldest, newest, sticky, or by drifting priority
  let prev = 0, order = 0;
  return (g, n) => {
    let k;
    if (style.kind === 'prio') { if (g.chance(0.05)) order = g.int(1000); k = (order * 7919) % n; }
    else if (style.kind === 'sticky' && !g.chance(style.p)) k = Math.min(prev, n - 1);
    else if (style.kind === 'oldest' && !g.chance(style.p)) k = 0;
    else if (style.kind === 'newest' && !g.chance(style.p)) k = n - 1;
    else k = g.int(n);
    return (prev = k);
  };
}

const style = r => ({ kind: r.weighted([[3, 'uniform'], [2, 'prio'], [2, 'newest'], [2, 'oldest'], [1, 'sticky']]), p: r.pick([0.05, 0.3]), mem: r.pick([0, 300, 3000]), hot: r.pick([1, 3, 10]), early: r.pick([0, 0.5, 1, 1]), cpu: r.pick([0, 1000, 20_000, 200_000]) });
export const surroundings = (r, build) => ({
  build, style: style(r), spurious: r.pick([0, 0, 0.05, 0.3]), oneAtATime: r.pick([0, 0.5, 1]), nat: r.pick([0, 0, 1, 3]), entropy: r.int(1e9),
  clock: { wall: r.pick([1700000000, 0, 4102444799]), mono: 1, tick: r.pick([1000, 100, 20000]), jumps: r.chance(0.2) ? [[r.int(40), r.pick([-86400, 86400, 3600, -1, 31536000])]] : undefined },
  files: { '/etc/hosts': HOSTS, ...(r.chance(0.2) ? { '/etc/mime.types': MIME } : {}), ...(r.chance(0.3) ? { '/etc/resolv.conf': 'nameserver 10.0.0.1\n' } : {}) },
});

export async function worker(ctx) {
  const files = new Map(Object.entries(ctx.files)); // path -> bytes
  const dirs = new Set(['/']);
  for (const f of files.keys()) { const p = f.split('/'); for (let i = 2; i < p.length; i++) dirs.add(p.slice(0, i).join('/') + '/'); }
  const paths = [...files.keys()];

  // ---- what one answer must look like
  // a charset that turns the text into another one is no media type to use it by
  function readable(type, file) {
    const m = /;\s*charset\s*=\s*"?([^\s";]+)/i.exec(type); if (!m || !/^(text\/|application\/(javascript|json|xhtml))/i.test(type) || file.length > 200000) return true;
    let d; try { d = new TextDecoder(m[1]); } catch { return true; } // browsers ignore what they do not know
    return d.decode(file) === new TextDecoder().decode(file);
  }
  function canonical(path) {
    let p = path.replace(/[?#].*$/s, '');
    const abs = /^[a-z]+:\/\/[^/?#]*(.*)$/i.exec(p); if (abs) p = abs[1] || '/';
    let dec; try { dec = decodeURIComponent(p.replace(/%(?![0-9a-f]{2})/gi, '%25')); } catch { dec = null; }
    if (dec === null) return { clean: null, exact: false };
    const out = []; for (const s of dec.split('/')) { if (s === '' || s === '.') continue; if (s === '..') out.pop(); else out.push(s); }
    const clean = '/' + out.join('/') + (/\/(\.{0,2})$/.test(dec) && out.length ? '/' : '');
    return { clean, exact: clean === dec && dec.startsWith('/'), dec };
  }
  const header = (q, k) => (q.h ?? []).find(([x]) => x.toLowerCase() === k)?.[1];
  function ranges(h, size) { // -> null (not a byte range), [] unsatisfiable, list
    const m = /^bytes=(.*)$/.exec(h ?? ''); if (!m) return null;
    const out = [];
    for (let p of m[1].split(',')) {
      p = p.trim(); if (!p) continue;
      const x = /^(\d*)-(\d*)$/.exec(p); if (!x || (!x[1] && !x[2])) return null;
      if (!x[1]) { const n = Math.min(Number(x[2]), size); if (n > 0) out.push([size - n, size - 1]); continue; }
      const a = Number(x[1]), b = x[2] ? Math.min(Number(x[2]), size - 1) : size - 1;
      if (x[2] && Number(x[2]) < a) return null;
      if (a < size) out.push([a, b]);
    }
    return out;
  }
  const same = (a, b, from = 0, to = b.length) => { if (a.length !== to - from) return false; return Buffer.compare(a, b.subarray(from, to)) === 0; };
  function judge(q, r) {
    const where = `${q.raw !== undefined ? JSON.stringify(q.raw.slice(0, 80)) : `${q.m} ${q.path}${(q.h ?? []).map(([k, v]) => ` [${k}: ${v}]`).join('')}`} answered ${r.status}`;
    if (q.raw !== undefined) return r.status >= 400 || (r.status >= 300 && r.status < 400) ? null : q.any || /^POST/.test(q.raw) ? null : `${where}: a request that is not HTTP was accepted`;
    const { clean, exact } = canonical(q.path);
    const plain = q.m === 'GET' || q.m === 'HEAD';
    const known = clean !== null && (files.get(clean) ?? (clean === '/' ? files.get('/index.html') : undefined));
    const dir = clean !== null && clean !== '/' && (dirs.has(clean) || dirs.has(clean + '/'));
    const ct = r.headers.get('content-type') ?? '';
    let body = Buffer.from(r.body);
    const ce = r.headers.get('content-encoding');
    if (ce && q.m !== 'HEAD' && body.length) {
      if (!(header(q, 'accept-encoding') ?? '').includes(ce.trim())) return `${where}: Content-Encoding ${ce} was not asked for`;
      try { body = ce === 'gzip' ? zlib.gunzipSync(body) : ce === 'deflate' ? zlib.inflateSync(body) : ce === 'br' ? zlib.brotliDecompressSync(body) : body; } catch (e) { return `${where}: the ${ce} body cannot be decoded: ${e.message}`; }
    }
    const cond = (q.h ?? []).some(([k]) => /^if-/i.test(k));
    if (r.status >= 300 && r.status < 400 && r.status !== 304) {
      if (plain && exact && known && clean !== '/index.html') return `${where}: a published file is redirected to ${r.headers.get('location')}`;
      const loc = r.headers.get('location');
      if (!loc) return `${where} without a Location`;
      let to; try { to = new URL(loc, 'http://localhost:8080' + (q.path.startsWith('/') ? q.path : '/')); } catch { return `${where}: bad Location ${loc}`; }
      if (clean === '/index.html' && exact && to.pathname !== '/') return `${where}: redirected to ${loc}`;
      return null;
    }
    if (r.status === 304) return cond && /\*/.test(header(q, 'if-none-match') ?? '') ? null : `${where}: nothing the request says makes it unmodified`;
    if (r.status === 412) return cond ? null : `${where}: without a condition`;
    if (!plain && !(known && (r.status === 206 || r.status === 416))) { // other methods: refused, or answered with the right content
      if (r.status >= 400) return null;
      if (r.status >= 200 && r.status < 300) return !body.length || (known && same(body, known)) || (!known && dir) || q.m === 'CONNECT' ? null : `${where}: with other content than the file's`;
      return `${where}`;
    }
    if (!known) {
      if (dir) return r.status === 200 || r.status === 403 || r.status === 404 ? null : where;
      if (r.status === 404) return null;
      if ((!exact || clean === null) && r.status >= 400 && r.status < 500) return null;
      return `${where}: nothing is published under that path; body ${JSON.stringify(str(body.subarray(0, 120)))}`;
    }
    if (!exact && (r.status === 404 || r.status === 400)) return null;
    const file = known, ext = (clean === '/' ? 'html' : clean.slice(clean.lastIndexOf('.') + 1));
    const okType = t => !TYPES[ext] || (TYPES[ext].test(t) && readable(t, file));
    const cl = r.headers.get('content-length');
    const hd = q.m === 'HEAD';
    if (r.status === 200) {
      if (!okType(ct)) return `${where}: media type ${JSON.stringify(ct)} for a .${ext} file`;
      if (!hd && !same(body, file)) return `${where}: ${body.length} bytes that are not the file's ${file.length}${diff(body, file)}`;
      if (hd && cl !== undefined && !ce && Number(cl) !== file.length) return `${where}: Content-Length ${cl}, the file has ${file.length}`;
      return null;
    }
    const rs = ranges(header(q, 'range'), file.length);
    if (r.status === 206) {
      if (header(q, 'range') === undefined) return `${where}: no range was asked for`;
      if (!rs || !rs.length) return `${where}: the range cannot be satisfied`;
      if (/^multipart\/byteranges/i.test(ct)) {
        const bd = /boundary="?([^";]+)"?/i.exec(ct)?.[1]; if (!bd) return `${where}: no boundary`;
        if (hd) return null;
        const s = str(body); const parts = s.split('--' + bd); if (!/^--\s*$/.test(parts[parts.length - 1])) return `${where}: the multipart body is not terminated`;
        const got = [];
        for (const p of parts.slice(1, -1)) {
          const i = p.indexOf('\r\n\r\n'); if (i < 0) return `${where}: bad part`;
          const m = /content-range:\s*bytes (\d+)-(\d+)\/(\d+)/i.exec(p.slice(0, i)); if (!m) return `${where}: part without Content-Range`;
          const pt = /content-type:\s*([^\r\n]*)/i.exec(p.slice(0, i))?.[1] ?? ''; if (pt && !okType(pt)) return `${where}: part of type ${pt}`;
          const b = Buffer.from(p.slice(i + 4, -2), 'latin1');
          if (Number(m[3]) !== file.length || !same(b, file, Number(m[1]), Number(m[2]) + 1)) return `${where}: part ${m[0]} has other bytes than the file`;
          got.push(`${m[1]}-${m[2]}`);
        }
        const want = rs.map(x => x.join('-')); for (const x of want) if (!got.includes(x)) return `${where}: range ${x} is missing from ${got}`;
        return null;
      }
      if (!okType(ct)) return `${where}: media type ${JSON.stringify(ct)} for a .${ext} file`;
      const m = /^bytes (\d+)-(\d+)\/(\d+|\*)$/.exec(r.headers.get('content-range') ?? ''); if (!m) return `${where}: Content-Range ${r.headers.get('content-range')}`;
      const a = Number(m[1]), b = Number(m[2]);
      if (!rs.some(x => x[0] === a && x[1] === b)) return `${where}: got ${a}-${b}`;
      if (m[3] !== '*' && Number(m[3]) !== file.length) return `${where}: total ${m[3]}, the file has ${file.length}`;
      if (hd) return cl !== undefined && Number(cl) !== b - a + 1 ? `${where}: Content-Length ${cl}` : null;
      return same(body, file, a, b + 1) ? null : `${where}: other bytes than ${a}-${b} of the file${diff(body, file.subarray(a, b + 1))}`;
    }
    if (r.status === 416) return header(q, 'range') !== undefined && (!rs || !rs.length) ? null : `${where}: the range can be satisfied`;
    if (r.status === 417) return header(q, 'expect') !== undefined ? null : where;
    return `${where}: a published file was asked for`;
  }
  const diff = (a, b) => { let i = 0; while (i < a.length && i < b.length && a[i] === b[i]) i++; return i < Math.min(a.length, b.length) ? `; they differ at byte ${i}` : `; the first ${i} bytes agree`; };

  // ---- one run
  function simulate(plan, dec) {
    const host = new NetHost(ctx.modules[plan.build], {
      args: ['server-wasm', ...(plan.args ?? [])], env: plan.env ?? [], decider: dec, clock: plan.clock, entropy: plan.entropy,
      sched: scheduler(plan.style), cpu: plan.style.cpu, preempt: (g, kind) => (kind ? (plan.style.hot ? g.geom(plan.style.hot) : Infinity) : plan.style.mem ? g.geom(plan.style.mem) : Infinity), limits: { calls: plan.soak ? plan.calls ?? 25_000_000 : 6_000_000 },
      net: { files: plan.files ?? { '/etc/hosts': HOSTS }, listen: plan.listen, listenForever: plan.listenForever, acceptFaults: plan.accept, tail: plan.tail ?? 120_000, spurious: plan.spurious, oneAtATime: plan.oneAtATime, early: plan.style.early, nat: plan.nat, account: plan.account },
    });
    const clients = plan.clients.map((s, i) => new Client(host, i, s));
    for (const c of clients) c.start();
    const r = host.run();
    const alive = r.abort?.kind === 'end';
    const diedAt = host.now;
    if (!alive) host.die();
    for (const c of clients) { dec.event(`client ${c.id}: ${c.end} ${c.responses.length} ${c.doneAt}`); }
    return { host, clients, r, alive, diedAt };
  }
  const crashed = r => r.abort && r.abort.kind !== 'end' ? { class: r.abort.kind, detail: r.abort.detail + ' ' + text(r.stderr).slice(-300) } : null;
  const panicIn = s => /(^|\n)(panic: |fatal error: )|http: panic serving/.exec(s);

  function checkClient(c, strict) { // -> violation or null
    const spec = c.spec, bad = (cls, d) => ({ class: cls, detail: `client ${c.id}: ${d}` });
    if (c.problems.length) return bad('protocol', c.problems.join('; '));
    for (const r of c.responses) {
      if (!r.complete) continue;
      if (!r.req || r.early) continue;
      const p = judge(r.req, r);
      if (p) return bad('wrong-response', p + (r.mode === 'close' ? ' (ended by the end of the connection)' : ''));
    }
    if (!strict) return null;
    // undisturbed client: everything it asked is answered until the server announces the end of the connection
    const asked = spec.steps.filter(s => s[0] === 'req').map(s => s[1]);
    for (let i = 0; i < asked.length; i++) {
      const r = c.responses[i];
      if (!r || !r.complete) return bad('no-answer', `${asked[i].m} ${asked[i].path} (request ${i + 1} of ${asked.length}) was not answered completely${r ? `: ${r.body.length} bytes of body` : ''}; connection: ${c.end ?? 'open'}${c.openedAt === undefined ? ', never accepted' : ''}`);
      const q = asked[i];
      if (/close/i.test(r.headers.get('connection') ?? '') || (q.v === '1.0' && !/keep-alive/i.test(r.headers.get('connection') ?? ''))) break;
    }
    return null;
  }

  function verdict(plan, s) {
    const dead = crashed(s.r); if (dead) return dead;
    const err = text(s.r.stderr), pn = panicIn(err);
    if (pn && (ctx.property !== 'C15' || /http: panic/.test(pn[0]) || /panic: /.test(pn[0]))) return { class: 'panic', detail: err.slice(pn.index, pn.index + 400) };
    if (ctx.property === 'C15') return verdict15(plan, s, err);
    if (!s.alive) return { class: 'exit', detail: `the server exited with status ${s.r.exit} after ${(s.diedAt / 1e9).toFixed(3)} s: ${err.slice(-300)}` };
    for (const c of s.clients) {
      const strict = c.spec.role === 'good';
      const v = checkClient(c, strict);
      if (v) return v;
      if (strict && ctx.property === 'C14') {
        const took = (Math.max(...c.responses.map(r => r.at)) - c.spec.at * 1e6) / 1e9;
        if (took > 60 + thinking(c.spec)) return { class: 'slow', detail: `client ${c.id} was answered after ${took.toFixed(1)} simulated seconds` };
      }
    }
    if (ctx.property === 'C14') {
      const before = s.host.goroutinesAt(plan.waveAt - 1), after = s.host.g;
      if (before === null) return { class: 'harness', detail: 'no baseline' };
      if (after > before) return { class: 'goroutines', detail: `${before} goroutines before the clients came, ${after} after all of them left and ${plan.tail / 1000} s passed` };
    }
    return null;
  }
  const thinking = spec => spec.steps.reduce((t, s) => t + (s[0] === 'sleep' ? s[1] : 0), 0) / 1000;

  function addresses(plan) { // what the host name may mean, or null for anything
    let h = plan.hostArg ?? 'localhost';
    if (h === '' || h === '*') return h === '' ? ['0.0.0.0', '[::]'] : [];
    h = h.replace(/^\[(.*)\]$/, '$1');
    if (/^\d+\.\d+\.\d+\.\d+$/.test(h)) return [h];
    if (h.includes(':')) return [`[${h}]`];
    const out = []; const f = plan.files?.['/etc/hosts'] ?? HOSTS; if (typeof f !== 'string') return h.toLowerCase() === 'localhost' ? ['127.0.0.1', '[::1]'] : [];
    for (const l of f.split('\n')) { const w = l.replace(/#.*/, '').trim().split(/\s+/); if (w.slice(1).some(x => x.toLowerCase() === h.toLowerCase())) out.push(w[0].includes(':') ? `[${w[0]}]` : w[0]); }
    if (h.toLowerCase() === 'localhost' && !out.length) out.push('127.0.0.1', '[::1]');
    return out;
  }
  const REASON = { 2: /denied|permission|EACCES/i, 3: /in use|EADDRINUSE/i, 4: /not available|cannot assign|can't assign|EADDRNOTAVAIL/i, 5: /not supported|EAFNOSUPPORT/i, 42: /buffer|ENOBUFS/i, 33: /too many|EMFILE/i,
    EBADF: /bad file|EBADF|closed/i, EINVAL: /invalid|EINVAL/i, EIO: /i\/o|input\/output|EIO/i, ENOBUFS: /buffer|ENOBUFS/i, EPROTO: /protocol|EPROTO/i };
  function verdict15(plan, s, err) {
    const bad = (cls, d) => ({ class: cls, detail: `host ${JSON.stringify(plan.hostArg ?? '(default)')} port ${plan.portArg ?? '(default)'}: ${d}` });
    const ok = s.host.attempts.filter(a => !a.errno), failed = s.host.attempts.filter(a => a.errno);
    const want = addresses(plan), port = Number(plan.portArg ?? 8080);
    for (const a of s.host.attempts) {
      const i = a.addr.lastIndexOf(':'); const ip = a.addr.slice(0, i).replace(/^(?=$)/, '') || (a.net === 'tcp4' ? '0.0.0.0' : '[::]');
      const wild = x => x === '0.0.0.0' || x === '[::]';
      if (!(want.includes(ip) || (wild(ip) && want.some(wild))) || Number(a.addr.slice(i + 1)) !== port) return bad('address', `it listens on ${a.addr}, not on ${want.join(' or ') || '(none)'} port ${port}`);
    }
    if (!s.alive) {
      if (s.r.exit === 0) return bad('exit-0', `it exited with status 0 after ${(s.diedAt / 1e9).toFixed(3)} s; standard error: ${err.slice(-200)}`);
      if (ok.length && !s.host.permanent) return bad('gave-up', `it exited with status ${s.r.exit} although it listened and no lasting error occurred${s.host.lastAcceptFault ? ' (transient errors of accept did)' : ''}: ${err.slice(-300)}`);
      const rest = err.split('\n').filter(l => l.trim() && !/listening|starting/i.test(l)).join('\n');
      const reason = s.host.permanent && ok.length ? REASON[s.host.permanent.k] : failed.length ? REASON[failed[failed.length - 1].errno] : /./;
      if (!reason.test(failed.length || s.host.permanent ? err : rest)) return bad('no-reason', `it exited with status ${s.r.exit}, and standard error does not say why (${s.host.permanent?.k ?? (failed[0] ? 'errno ' + failed[0].errno : 'no address')}): ${JSON.stringify(err.slice(-300))}`);
      return null;
    }
    if (!s.host.listener()) return bad('not-listening', `it keeps running without listening${failed.length ? ' (listening failed)' : ''}; standard error: ${err.slice(-300)}`);
    if (s.host.listener().broken) return bad('not-accepting', `accept fails for good (${s.host.permanent.k}), and it keeps running`);
    for (const c of s.clients) {
      if (c.spec.at * 1e6 < s.host.listeners[0].at + 2e6) continue;
      const aborted = s.host.d.fired['accept-ECONNABORTED'];
      if (c.end === 'reset' && !c.responses.length && aborted) continue; // that connection was aborted before it was accepted
      const v = checkClient(c, true); if (v) return bad(v.class, v.detail);
      const took = (Math.max(...c.responses.map(r => r.at)) - Math.max(c.spec.at * 1e6, s.host.lastAcceptFault)) / 1e9;
      if (took > 60) return bad('slow', `client ${c.id} was answered ${took.toFixed(1)} s after the last failure of accept`);
    }
    return null;
  }

  // C19: waves of clients, each followed by quiet, then what the server holds
  function soakRun(plan, dec, scale, wait) {
    const { phases, per, kinds, seed } = plan.soak, span = 60_000 * scale, len = 700_000 + span, clients = [], account = [], r = new Rng('soak/' + seed);
    for (let k = 0; k < phases; k++) {
      for (let i = 0; i < per * scale; i++) clients.push(soakClient(r, r.pick(kinds), k * len + 100 + r.int(span), seed + '-' + scale + '-' + clients.length, plan.soak.focus));
      account.push((k + 1) * len - 1);
    }
    if (wait) { // what is dropped later, by time or by the next visitor, is not kept for ever
      const t = phases * len + wait; for (let i = 0; i < 5; i++) clients.push(soakClient(r, 'good', t + i * 10, 'z' + i));
      account.push(t + wait);
    }
    for (const c of clients) c.leave = c.at + 200_000; // whatever it still waits for
    const s = simulate({ ...plan, clients, account, tail: account[account.length - 1] + 1000 }, dec);
    return { s, held: s.host.held ?? [], clients };
  }
  function execSoak(plan, { seed = null, decisions = null, trace = false }) {
    const dec = new Decider({ seed, decisions, log: trace ? [] : null });
    const { s, held, clients } = soakRun(plan, dec, 1, 0), n = plan.soak.phases, what = `${plan.soak.per} clients (${plan.soak.kinds.join(', ')})`;
    let violation = crashed(s.r), long = null;
    const err = text(s.r.stderr), pn = panicIn(err);
    if (!violation && !s.alive) violation = { class: 'exit', detail: `the server exited with status ${s.r.exit} after ${(s.diedAt / 1e9).toFixed(3)} s: ${err.slice(-300)}` };
    else if (!violation && pn) violation = { class: 'panic', detail: err.slice(pn.index, pn.index + 400) };
    else if (!violation && held.length === n) {
      const grow = k => held[n - 1][k] - held[1][k];
      const suspects = [0, 1, 2, 3].filter(k => grow(k) > [6000, 12, 0, 0][k]);
      if (suspects.length) { // only growth without bound counts: look at many times as many clients, and once more after days of quiet
        const F = 12; let l = soakRun({ ...plan, calls: 10_000_000 }, new Decider({ decisions: {} }), F, 360_000_000);
        if (l.s.r.abort?.kind === 'step-limit') l = soakRun(plan, new Decider({ decisions: {} }), F, 7_200_000); // a busy clockwork: hours instead of days
        long = l.held;
        dec.event('long ' + JSON.stringify(long));
        const still = k => { const all = long[n - 1][k] - long[1][k], late = long[n - 1][k] - long[n - 3][k], kept = long[n][k] - long[1][k]; return late > 0 && all > grow(k) * F / 4 && all > [50_000, 100, 10, 10][k] && kept > all / 2; };
        if (l.s.r.abort?.kind === 'step-limit') suspects.length = 0; else if (l.held.length !== n + 1) violation = crashed(l.s.r) ?? { class: 'exit', detail: `the server ended after ${l.held.length} waves of ${what}` };
        // and what levels off once it is full is bounded: look again at waves of thousands
        const wide = () => { const m = soakRun({ ...plan, soak: { ...plan.soak, phases: 3 } }, new Decider({ decisions: {} }), Math.ceil(1500 / plan.soak.per), 0).held; dec.event('wide ' + JSON.stringify(m)); return k => m.length === 3 && m[2][k] - m[1][k] > (m[1][k] - m[0][k]) / 4 && m[2][k] - m[0][k] > 2 * (long[n - 1][k] - long[1][k]); };
        if (l.held.length === n + 1 && !plan.soak.sure && suspects.some(still)) { const w = wide(); for (const k of [...suspects]) if (!w(k)) suspects.splice(suspects.indexOf(k), 1); }
        if (l.held.length === n + 1) for (const k of suspects) if (still(k)) { violation = { class: ['memory', 'memory', 'goroutines', 'connections'][k], detail: `the server keeps ${['heap bytes', 'heap objects', 'goroutines', 'connections'][k]} of clients that are gone: ${long.slice(0, n).map(h => h[k]).join(', ')} after waves of ${F} times ${what}, and ${long[n][k]} days later` }; break; }
      }
    } else if (!violation) violation = { class: 'harness', detail: `${held.length} of ${n} phases` };
    dec.event('verdict ' + (violation ? violation.class + violation.detail : 'ok'));
    let complete = 0; for (const c of s.clients) for (const x of c.responses) if (x.complete) complete++;
    dec.fired['forced-gc'] = 3 * n;
    for (const k of plan.soak.kinds) dec.fired['clients-' + k] = plan.soak.per;
    return {
      violation, hash: dec.hash.hex(), decisions: dec.rec, fired: dec.fired, trace: dec.log, sig: dec.hash.hex(), nontrivial: s.host.accepted > n, probes: { ['build:' + plan.build]: 1, 'looked-longer': long ? 1 : 0, 'all-served': complete > n ? 1 : 0 },
      sum: { connections: s.host.accepted, complete_responses: complete, simulated_ms: Math.round(s.host.now / 1e6), scheduling_choices: s.host.nMulti },
      sample: { plan, held_after_each_wave: held, long },
    };
  }
  function soakClient(r, kind, at, tok, focus) {
    if (kind === 'bad') return misbehaving(r, at, 60_000);
    if (kind === 'disturbed') return disturbed(r, at);
    const c = good(r, at, { closes: true, simple: true, n: r.pick([1, 1, 3]) }); let i = 0;
    for (const s of c.steps) {
      if (s[0] !== 'req') continue;
      const q = s[1] = { ...s[1] }, u = tok + '.' + i++; q.h = [...q.h];
      if (q.path.length > 1 && (files.get(canonical(q.path).clean)?.length ?? 0) > 20000 && r.chance(0.95)) q.path = r.pick(SMALL);
      if (focus) { q.path = focus; if (kind !== 'methods') q.m = 'GET', q.body = undefined; if (kind !== 'ranges') q.h = q.h.filter(h => !/^(Range|If-.*)$/.test(h[0])); }
      switch (kind) {
        case 'paths': q.path = r.pick(['/', '/css/', '/wasm/', '/javascript/', '/a/b/c/']) + u + r.pick(['', '.html', '.js', '/', '.wasm']); break;
        case 'queries': q.path = (focus ?? r.pick(['/', '/index.html', '/css/index.css', r.pick(SMALL)])) + '?v=' + u; break;
        case 'agents': q.h.push(['User-Agent', 'agent ' + u + ' ' + 'x'.repeat(200)]); break;
        case 'headers': q.h.push(...[['Cookie', 'session=' + u], ['X-Request-Id', u], ['Referer', 'http://example.com/' + u], ['X-Forwarded-For', '10.1.' + (i & 255) + '.' + r.int(256)], ['Authorization', 'Basic ' + Buffer.from(u).toString('base64')], ['X-' + u, '1'], ['Accept-Language', 'x-' + u], ['Origin', 'http://' + u + '.example']].filter(() => r.chance(0.6))); break;
        case 'hosts': q.hostHeader = u + '.example.com'; break;
        case 'conditions': q.h.push(r.pick([['If-None-Match', `"${u}"`], ['If-Match', `"${u}"`], ['If-Range', `"${u}"`], ['If-Modified-Since', 'Wed, 21 Oct 2015 07:28:00 GMT']])); break;
        case 'ranges': { const n = files.get(canonical(q.path).clean)?.length ?? 100; q.h = q.h.filter(h => h[0] !== 'Range'); q.h.push(['Range', `bytes=${r.int(n)}-${r.chance(0.5) ? n + r.int(1e9) : ''}`]); break; }
        case 'methods': q.m = r.pick(['HEAD', 'OPTIONS', 'PUT', 'POST', 'DELETE', 'M' + u.replace(/[^a-z0-9]/gi, 'X').toUpperCase()]); q.body = /PUT|POST/.test(q.m) ? u + 'b'.repeat(r.int(2000)) : undefined; break;
        case 'encodings': q.h = q.h.filter(h => h[0] !== 'Accept-Encoding'); q.h.push(['Accept-Encoding', r.pick(['gzip, x-' + u, 'gzip;q=0.5, x-' + u + ';q=0.1', 'br, gzip', 'x-' + u + ', gzip', 'x-' + u + ', deflate, identity', 'x-' + u])]); break;
      }
    }
    return c;
  }
  const SOAK_KINDS = ['paths', 'queries', 'agents', 'headers', 'hosts', 'conditions', 'ranges', 'methods', 'encodings', 'good', 'bad', 'disturbed'];
  const genSoak = r => { const b = surroundings(r, 'sched'); return { ...b, style: { ...b.style, early: 0 }, spurious: 0, nat: r.pick([0, 0, 0, 1, 3]), clock: { ...b.clock, jumps: undefined }, account: null, soak: { phases: 5, per: r.pick([10, 24, 50]), kinds: r.chance(0.3) ? SOAK_KINDS : r.sample(SOAK_KINDS, r.pick([1, 1, 2, 3])), focus: r.chance(0.4) ? r.pick(SMALL) : undefined, seed: r.int(1e9) } }; };

  function exec(plan, { seed = null, decisions = null, trace = false }) {
    if (plan.soak) return execSoak(plan, { seed, decisions, trace });
    const dec = new Decider({ seed, decisions, log: trace ? [] : null });
    const s = simulate(plan, dec);
    const violation = verdict(plan, s);
    dec.event('exit ' + s.r.exit + ' ' + s.r.abort?.kind + ' stderr ' + text(s.r.stderr).replace(/\d{4}\/\d\d\/\d\d \d\d:\d\d:\d\d/g, ''));
    dec.event('verdict ' + (violation ? violation.class + violation.detail : 'ok'));
    const p = { ['build:' + plan.build]: 1 };
    let answers = 0, complete = 0, bytes = 0;
    for (const c of s.clients) {
      for (const r of c.responses) { answers++; if (r.complete) { complete++; p['status-' + r.status] = (p['status-' + r.status] ?? 0) + 1; } else p['visibly-incomplete'] = (p['visibly-incomplete'] ?? 0) + 1; }
      bytes += c.received; p['end:' + (c.end ?? 'open')] = (p['end:' + (c.end ?? 'open')] ?? 0) + 1;
    }
    if (!s.alive) p['exit-' + s.r.exit] = 1; else p['still-serving'] = 1;
    if (ctx.property === 'C15' && s.host.permanent) p['permanent-accept-failure'] = 1;
    const faulty = Object.keys(dec.fired).length > 0;
    return {
      violation, hash: dec.hash.hex(), decisions: dec.rec, fired: dec.fired, trace: dec.log, sig: dec.hash.hex(),
      nontrivial: ctx.property === 'C14' ? plan.clients.some(c => c.role === 'bad') && s.host.accepted > 0 : faulty || s.host.nMulti > 0, probes: p,
      sum: { connections: s.host.accepted, responses: answers, complete_responses: complete, bytes_received: bytes, simulated_ms: Math.round(s.host.now / 1e6), scheduling_choices: s.host.nMulti },
      sample: { plan: { ...plan, clients: plan.clients.slice(0, 3), of: plan.clients.length }, decisions: trimDec(dec.rec), exit: s.r.exit, answers, complete },
    };
  }
  const trimDec = r => Object.fromEntries(Object.entries(r).map(([k, v]) => [k, v.slice(0, 12)]).slice(0, 12));

  // ---- plans
  const SMALL = paths.filter(p => files.get(p).length < 20000);
  const pathFor = r => r.weighted([
    [10, r.pick(SMALL)], [6, r.pick(paths)], [3, '/'], [1, '/index.html'], [1, '/?v=' + r.int(99)], [1, r.pick(paths) + '?x=1&y=%2e'],
    [2, r.pick(['/nothing', '/css/none.css', '/wasm/none.wasm', '/www.go', '/Makefile', '/wasm/wasm.go', '/go.mod', '/etc/hosts', '/app/server/www/www.go', '/javascript/.hidden', '/INDEX.HTML', '/css/index.css.map', '/wasm/.gitignore', '/debug/pprof/', '/debug/vars', '/debug/pprof/cmdline', '/metrics', '/main.go', '/cmd/server-wasm/main.go', '/favicon.ico', '/robots.txt'])],
    [1.5, r.pick(['/../go.mod', '/css/../../www.go', '/css/../index.html', '//css/index.css', '/css//index.css', '/%2e%2e/%2e%2e/etc/hosts', '/..%2f..%2fetc/hosts', '/wasm/../css/index.css', '/wasm/..', '/./css/index.css', '/css/index.css/', '/wasm/%2e%2e/wasm.go', '/css%2findex.css', '/wasm//parse-js.wasm'])],
    [1, r.pick(['/css', '/css/', '/javascript', '/javascript/', '/wasm', '/wasm/'])],
  ]);
  // what a server might look for in a request: words from its own sources
  const dict = ctx.dict ?? [], NOT_ODD = /^(Host|Content-.*|Transfer-.*|Connection|Upgrade|Expect|Range|If-.*|Accept-Encoding|TE|Te|Trailer|Keep-Alive|Date|HTTP.*|Http.*)$/;
  const HEADERS = [...new Set(['X-Forwarded-For', 'X-Forwarded-Proto', 'X-Real-Ip', 'Forwarded', 'Cookie', 'Referer', 'Origin', 'Accept', 'Accept-Language', 'Cache-Control', 'Pragma', 'Authorization', 'X-Http-Method-Override', 'X-Requested-With', 'Save-Data', 'Dnt', 'Sec-Fetch-Mode', 'Sec-Fetch-Dest', 'Via', 'Service-Worker', 'Purpose', ...dict.filter(w => /^[A-Z][A-Za-z0-9-]*$/.test(w) && !NOT_ODD.test(w))])];
  const VALUES = ['1', 'true', 'no-cache', '*/*', 'text/html', 'application/wasm', 'http', 'https', '10.0.0.1, 192.168.1.1', 'for=192.0.2.60;proto=http;by=203.0.113.43', 'a=b; c=d', 'http://example.com/', 'max-age=0', 'Basic YTpi', 'DELETE', 'cors', 'on', 'script', 'prefetch', 'null', '', ...dict];
  const QUERIES = ['v', 'download', 'debug', 'callback', 'raw', 'lang', ...dict.filter(w => /^[A-Za-z_-]{1,20}$/.test(w))];
  function odd(r, q) {
    for (let k = r.pick([1, 1, 2]); k > 0; k--) if (r.chance(0.6)) q.h.push([r.pick(HEADERS), r.pick(VALUES)]); else q.path += (q.path.includes('?') ? '&' : '?') + r.pick(QUERIES) + '=' + encodeURIComponent(r.pick(VALUES));
  }
  const DICT_PATHS = ['/quit', '/stop', '/shutdown', '/debug', '/reload', ...dict.filter(w => /^[\w.\/-]+$/.test(w)).map(w => '/' + w.replace(/^\/+/, ''))];
  function request(r, simple) {
    const q = { m: r.weighted([[12, 'GET'], [simple ? 0 : 3, 'HEAD'], [simple ? 0 : 0.6, 'POST'], [simple ? 0 : 0.3, 'PUT'], [simple ? 0 : 0.3, 'OPTIONS'], [simple ? 0 : 0.2, 'DELETE']]), path: pathFor(r), h: [] };
    if (q.m === 'POST' || q.m === 'PUT') q.body = 'a'.repeat(r.pick([0, 1, 10, 1000]));
    const f = files.get(canonical(q.path).clean);
    if (f && r.chance(0.3) && !q.body) {
      const n = f.length, x = () => r.pick([0, 1, 2, n - 1, n, n + 1, r.int(n), r.int(n)]); const one = () => { const a = x(), b = x(); return r.pick([`${Math.min(a, b)}-${Math.max(a, b)}`, `${a}-`, `-${Math.max(1, b)}`, `${Math.min(a, b)}-${Math.max(a, b)}`]); };
      q.h.push(['Range', r.weighted([[6, 'bytes=' + one()], [2, 'bytes=' + one() + ',' + one()], [1, 'bytes=' + one() + ', ' + one() + ',' + one()], [0.5, 'bytes=5-2'], [0.3, 'items=0-5'], [0.3, 'bytes=x-y']])]);
    }
    if (r.chance(0.06)) q.h.push(r.pick([['If-None-Match', '*'], ['If-None-Match', '"abc"'], ['If-Match', '"abc"'], ['If-Match', '*'], ['If-Modified-Since', 'Wed, 21 Oct 2015 07:28:00 GMT'], ['If-Unmodified-Since', 'Wed, 21 Oct 2015 07:28:00 GMT'], ['If-Range', '"abc"']]));
    if (r.chance(0.35)) q.h.push(['Accept-Encoding', r.pick(['gzip', 'gzip, deflate, br', 'identity'])]);
    if (r.chance(0.1)) q.h.push(['User-Agent', 'x'.repeat(r.pick([1, 100, 3000]))]);
    if (r.chance(0.06)) q.v = '1.0';
    if (q.v === '1.0' && r.chance(0.5)) q.h.push(['Connection', 'keep-alive']);
    if (r.chance(0.12)) odd(r, q);
    if (r.chance(0.03)) q.hostHeader = r.pick(['example.com', '127.0.0.1:8080', 'localhost']);
    return q;
  }
  const MALFORMED = ['GET\r\n\r\n', 'GET / HTTP/1.1\r\n\r\n', 'GET / HTTP/9.9\r\nHost: x\r\n\r\n', 'FOO BAR BAZ QUX\r\n\r\n', '\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03' + 'z'.repeat(60) + '\r\n\r\n', 'GET / HTTP/1.1\r\nHost: x\r\nBad Header\r\n\r\n', 'GET /%zz HTTP/1.1\r\nHost: x\r\n\r\n', 'GET / HTTP/1.1\r\nHost: a\r\nHost: b\r\n\r\n', 'POST / HTTP/1.1\r\nHost: x\r\nContent-Length: -1\r\n\r\n', 'POST / HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n', 'POST / HTTP/1.1\r\nHost: x\r\nContent-Length: 5\r\nContent-Length: 6\r\n\r\nabcdef', 'GET / HTTP/1.1\r\nHost: x\r\nX: ' + 'y'.repeat(2_000_000) + '\r\n\r\n', 'PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n', 'GET css/index.css HTTP/1.1\r\nHost: x\r\n\r\n'];
  const segs = r => r.pick([[], [], [1], [2, 3], [7], [40], [1, 200], [100], [1400]]);
  function good(r, at, o = {}) {
    const n = o.n ?? r.weighted([[6, 1], [3, 2], [2, 3], [1, 6]]);
    const steps = []; const pipe = r.chance(0.25);
    for (let i = 0; i < n; i++) {
      const q = request(r, o.simple);
      if (i === n - 1 && r.chance(0.3)) { q.h = q.h.filter(h => h[0] !== 'Connection'); q.h.push(['Connection', 'close']); } // not both: net/http's answer to such an HTTP/1.0 request is not defined
      steps.push(['req', q]);
      if (!pipe) { steps.push(['await']); if (r.chance(0.2)) steps.push(['sleep', r.pick([1, 10, 300])]); }
    }
    if (pipe) { for (const s of steps.slice(0, -1)) if (s[1]?.v === '1.0') delete s[1].v; steps.push(['await']); }
    if (o.closes || r.chance(0.5)) steps.push([r.pick(['close', 'close', 'rst'])]);
    const seg = segs(r), bytes = Math.max(0, ...steps.map(s => (s[0] === 'req' ? JSON.stringify(s[1]).length + 60 : 0)));
    const fast = seg.length && bytes / Math.min(...seg) > 200; // no slower than a second or so
    return { role: 'good', at, latency: r.pick([0.05, 1, 5, 20]), jitter: r.pick([0, 0, 30]), cap: r.pick([8192, 65536, 65536, 262144, 1 << 20]), seg, gap: fast ? r.pick([0, 0.2]) : r.pick([0, 1, 5]), retries: 3, steps };
  }
  function disturbed(r, at) { // C13: a client whose connection suffers
    const c = good(r, at); c.role = 'disturbed'; c.cap = r.pick([1, 100, 1000, 8192, 65536, 1 << 20]);
    const wk = [IO[1], IO[2], IO[3], IO[4]], hard = [IO[5], IO[6]];
    const side = kinds => r.weighted([[2, { p: r.pick([0.02, 0.2, 0.6]), kinds: kinds[0] }], [2, { at: r.int(12), kinds: kinds[1] }], [1, { p: r.pick([0.03, 0.2]), kinds: kinds[0].concat(kinds[1]) }]]);
    c.faulty = {}; if (r.chance(0.6)) c.faulty.r = side([wk, hard]); if (r.chance(0.7)) c.faulty.w = side([wk, [...hard, IO[7]]]);
    if (c.cap < 1000) for (const s of c.steps) if (s[0] === 'req' && (files.get(canonical(s[1].path).clean)?.length ?? 0) > 20000) s[1].path = r.pick(SMALL);
    if (r.chance(0.3)) c.steps.splice(r.int(c.steps.length + 1), 0, r.pick([['rstAfter', 1 + r.int(3000)], ['closeAfter', 1 + r.int(3000)], ['rst'], ['fin'], ['close'], ['stopAfter', r.int(3000)], ['sleep', 70_000], ['rstAfter', 1 + r.int(250000)]]));
    if (r.chance(0.15)) { // reads a part, pauses for long, goes on
      const f = r.pick(paths), q = { m: 'GET', path: f, h: [], v: r.chance(0.4) ? '1.0' : '1.1' };
      c.steps = [['stopAfter', 1 + r.int(Math.min(files.get(f).length, r.pick([200, 5000, 200000])))], ['req', q], ['sleep', r.pick([3000, 12_000, 40_000, 100_000, 170_000])], ['resume'], ['await'], ['close']];
      c.cap = r.pick([1000, 8192, 65536]); if (r.chance(0.6)) c.faulty = {};
    }
    if (r.chance(0.1)) c.steps.splice(r.int(c.steps.length + 1), 0, ['raw', r.pick(MALFORMED), {}]);
    if (c.steps.some(x => x[0] === 'raw' && x[1].length > 10000)) { c.seg = []; if (c.faulty.r) c.faulty.r = undefined; }
    return c;
  }
  function misbehaving(r, at, span) {
    const q = request(r); const raw = `GET ${r.pick(paths)} HTTP/1.1\r\nHost: localhost\r\n`;
    const gone = r.pick(['rst', 'close']); const stay = 1 + r.int(span);
    const big = r.pick(paths.filter(p => files.get(p).length > 60000));
    const S = r.weighted([
      [3, [['sleep', stay], [gone]]],                                                              // says nothing
      [3, [['raw', raw.slice(0, 1 + r.int(raw.length))], ['sleep', stay], [gone]]],                // half a request
      [2, [['raw', raw + 'X: ' + 'a'.repeat(r.int(60))], ['sleep', stay], [gone]]],
      [4, [['stop'], ['req', { m: 'GET', path: big, h: [] }], ['sleep', stay], [gone]]],           // never reads
      [3, [['stopAfter', 1 + r.int(r.pick([300, 3000, 60000]))], ['req', { m: 'GET', path: big, h: [] }], ['sleep', stay], [gone]]],
      [2, [['stop'], ...Array.from({ length: 1 + r.int(30) }, () => ['req', { m: 'GET', path: big, h: [] }]), ['sleep', stay], [gone]]],
      [3, [['rstAfter', 1 + r.int(100000)], ['req', { m: 'GET', path: big, h: [] }], ['sleep', stay], [gone]]],
      [2, [['closeAfter', 1 + r.int(100000)], ['req', { m: 'GET', path: big, h: [] }], ['sleep', stay], [gone]]],
      [2, [['raw', 'POST / HTTP/1.1\r\nHost: x\r\nContent-Length: 100000\r\n\r\nabc', { any: true }], ['sleep', stay], [gone]]], // body never comes
      [1, [['raw', 'POST /css/index.css HTTP/1.1\r\nHost: x\r\nExpect: 100-continue\r\nContent-Length: 5\r\n\r\n', { any: true }], ['sleep', stay], [gone]]],
      [1, [['raw', 'POST / HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n5\r\nab', { any: true }], ['sleep', stay], [gone]]],
      [2, [['raw', r.pick(MALFORMED), {}], ['sleep', stay], [gone]]],
      [2, [['req', q], ['fin'], ['sleep', stay], [gone]]],
      [1.5, [['req', { ...q, m: r.pick(['GET', 'POST', 'HEAD', 'OPTIONS', 'TRACE', 'PURGE', 'DELETE', ...dict.filter(w => /^[A-Z]{3,10}$/.test(w))]), path: r.pick(DICT_PATHS) }], ['await'], [gone]]],
      [2, [['req', q], [gone]]], [1, [['fin'], ['sleep', stay], [gone]]], [1, [['rst']]], [1, [['close']]],
      [1, [['vanish']]], [1, [['req', q], ['vanish']]], [1, [['stop'], ['req', { m: 'GET', path: big, h: [] }], ['sleep', stay], ['vanish']]],
      [2, [['req', q], ['await'], ['sleep', stay], [gone]]],                                       // idle kept-alive connection
    ]);
    const huge = S.some(x => x[0] === 'raw' && x[1].length > 10000), slow = !huge && r.chance(0.35);
    return { role: 'bad', at, latency: r.pick([0.05, 1, 20, 300]), jitter: r.pick([0, 0, 200]), cap: r.pick(S.some(x => x[0] === 'stop' || (x[0] === 'stopAfter' && x[1] < 3000)) || !S.some(x => x[0] === 'req' && (files.get(canonical(x[1].path).clean)?.length ?? 0) > 20000) ? [1, 100, 1000, 8192, 65536] : [8192, 65536, 65536]), seg: slow ? [1] : huge ? [] : segs(r), gap: slow ? r.pick([1, 50, 400]) : 1, steps: S };
  }
  const base = r => surroundings(r, ctx.modules.mem && r.chance(ctx.memShare ?? (ctx.property === 'C13' ? 0.2 : 0.1)) ? 'mem' : 'sched');
  function gen(r) {
    if (ctx.property === 'C19') return genSoak(r);
    const b = base(r);
    if (ctx.property === 'C13') {
      const n = r.weighted([[3, 1], [3, 2], [3, 4], [2, 8], [b.build === 'mem' ? 0 : 1, 20]]); const clients = [];
      for (let i = 0; i < n; i++) { const at = 100 + r.int(r.pick([1, 50, 2000])); clients.push(r.chance(0.45) ? good(r, at) : disturbed(r, at)); }
      if (n > 1 && r.chance(0.3)) { // all ask for the same at once
        const q = request(r), at = 100 + r.int(50), spread = r.pick([0, 0, 1, 20]);
        const together = r.chance(0.6);
        for (const c of clients) { c.at = at + r.int(spread + 1); if (together) { c.latency = clients[0].latency; c.jitter = 0; c.seg = []; } const k = c.steps.findIndex(s => s[0] === 'req'); if (k >= 0 && !(c.cap < 1000 && (files.get(canonical(q.path).clean)?.length ?? 0) > 20000)) c.steps[k] = ['req', r.chance(0.8) ? q : { ...request(r), path: q.path, m: 'GET', body: undefined }]; }
      }
      if (r.chance(0.5)) b.files['*'] = 'present'; // whatever is on disk is not published
      return { ...b, clients, tail: 200_000 };
    }
    if (ctx.property === 'C14') {
      const waveAt = 400_000, clients = [];
      for (let i = 0; i < 3; i++) clients.push(good(r, 100 + r.int(20), { closes: true, simple: true }));
      const nb = r.weighted([[4, 1], [4, 2], [4, 4], [3, 8], [2, 12], [b.build === 'mem' ? 0 : 1, 40], [b.build === 'mem' ? 0 : 0.5, 150], [b.build === 'mem' ? 0 : 0.2, 300]]);
      const span = r.pick([1000, 20_000, 100_000]); const alike = r.chance(0.4) ? misbehaving(r, 0, span) : null;
      for (let i = 0; i < nb; i++) clients.push(alike ? { ...alike, at: waveAt + i * r.pick([0, 1, 30]) } : misbehaving(r, waveAt + r.int(span), span));
      for (let i = r.pick([1, 2, 4]); i > 0; i--) clients.push(good(r, waveAt + 100 + r.int(span), { closes: true }));
      return { ...b, clients, waveAt, tail: 700_000 };
    }
    // C15
    const hostArg = r.weighted([[4, undefined], [3, 'localhost'], [2, '127.0.0.1'], [2, '0.0.0.0'], [2, ''], [1, '::1'], [1, '[::1]'], [2, 'edtf.example'], [1, 'edtf'], [1, 'nowhere.invalid'], [1, '10.9.8.7'], [0.5, '127.0.0.1:90'], [0.5, 'no such host'], [0.5, '999.1.1.1'], [0.5, '[::]'], [0.3, '127.1'], [0.3, 'LOCALHOST']]);
    const portArg = r.weighted([[4, undefined], [3, '8080'], [2, '80'], [2, '0'], [1, '1'], [1, '65535'], [1, '65536'], [1, '-1'], [1, '70000'], [2, String(1 + r.int(65535))], [0.4, '99999999999']]);
    const args = []; if (hostArg !== undefined) args.push('-host=' + hostArg); if (portArg !== undefined) args.push('-port=' + portArg);
    if (hostArg !== undefined && portArg !== undefined && r.chance(0.3)) args.reverse();
    const listen = r.chance(0.3) ? Array.from({ length: r.pick([1, 1, 1, 2, 6]) }, () => r.pick([2, 3, 3, 4, 5, 42, 33])) : [];
    if (r.chance(0.15)) b.files['/etc/hosts'] = r.pick([-2, -29, '', '127.0.0.1 other\n', '::1 localhost edtf.example\n', '10.1.2.3 localhost\n127.0.0.1 edtf.example\n', '127.0.0.1 localhost']);
    const accept = r.chance(0.7) ? { p: r.pick([0, 0.05, 0.4]), kinds: r.pick([['EAGAIN', 'EINTR', 'ECONNABORTED', 'EMFILE', 'ENFILE'], ['EMFILE', 'ENFILE'], ['ECONNABORTED'], ['EMFILE']]), bursts: r.chance(0.5) ? [[r.int(4), r.pick([1, 3, 12, 40])]] : [], permanentAt: r.chance(0.35) ? r.pick([0, 1, 2, 5, 9]) : undefined } : undefined;
    const clients = []; for (let i = r.pick([1, 2, 4, 8]); i > 0; i--) clients.push({ ...good(r, r.pick([50, 200, 3000, 60_000]) + r.int(500), { simple: true }), retries: 0 });
    return { ...b, hostArg, portArg, args, listen, listenForever: listen.length > 0 && r.chance(0.4), accept, clients, tail: 120_000 };
  }

  function* reduce(plan) {
    const put = (k, v) => ({ ...plan, [k]: v, ...(plan.soak ? { soak: { ...(k === 'soak' ? v : plan.soak), sure: true } } : {}) });
    if (plan.soak) {
      for (const k of dropSome(plan.soak.kinds)) if (k.length) yield put('soak', { ...plan.soak, kinds: k });
      if (plan.soak.per > 3) yield put('soak', { ...plan.soak, per: plan.soak.per >> 1 });
      for (const k of ['oneAtATime', 'nat', 'entropy']) if (plan[k]) yield put(k, 0);
      if (plan.clock.wall !== 1700000000 || plan.clock.tick !== 1000) yield put('clock', { ...plan.clock, wall: 1700000000, tick: 1000 });
      for (const f of ['/etc/mime.types', '/etc/resolv.conf']) if (plan.files[f]) { const x = { ...plan.files }; delete x[f]; yield put('files', x); }
      return;
    }
    for (const c of dropSome(plan.clients)) yield put('clients', c);
    const one = (i, c) => put('clients', plan.clients.map((x, k) => (k === i ? c : x)));
    for (let i = 0; i < plan.clients.length && plan.clients.length < 12; i++) {
      const c = plan.clients[i];
      for (const s of dropSome(c.steps)) if (s.length) yield one(i, { ...c, steps: s });
      for (let k = 0; k < c.steps.length; k++) {
        const q = c.steps[k][1]; if (c.steps[k][0] !== 'req') continue;
        const rq = x => one(i, { ...c, steps: c.steps.map((s, j) => (j === k ? ['req', x] : s)) });
        for (let h = 0; h < (q.h ?? []).length; h++) yield rq({ ...q, h: q.h.filter((_, j) => j !== h) });
        if (q.v) yield rq({ ...q, v: undefined }); if (q.hostHeader) yield rq({ ...q, hostHeader: undefined });
      }
      if (c.faulty?.r) yield one(i, { ...c, faulty: { ...c.faulty, r: undefined } });
      if (c.faulty?.w) yield one(i, { ...c, faulty: { ...c.faulty, w: undefined } });
      if (c.seg?.length) yield one(i, { ...c, seg: [] });
      if (c.jitter) yield one(i, { ...c, jitter: 0 });
      if (c.latency !== 1) yield one(i, { ...c, latency: 1 });
      if (c.gap !== 1) yield one(i, { ...c, gap: 1 });
    }
    if (plan.build === 'mem') yield put('build', 'sched');
    if (plan.spurious) yield put('spurious', 0);
    if (plan.oneAtATime) yield put('oneAtATime', 0);
    if (plan.nat) yield put('nat', 0);
    if (plan.clock.jumps) yield put('clock', { ...plan.clock, jumps: undefined });
    if (plan.clock.wall !== 1700000000 || plan.clock.tick !== 1000) yield put('clock', { ...plan.clock, wall: 1700000000, tick: 1000 });
    if (plan.entropy) yield put('entropy', 0);
    if (plan.accept) yield put('accept', undefined);
    if (plan.listen?.length) yield put('listen', plan.listen.slice(0, -1)); if (plan.listenForever) yield put('listenForever', false);
    for (const f of ['/etc/mime.types', '/etc/resolv.conf', '*']) if (plan.files[f]) { const x = { ...plan.files }; delete x[f]; yield put('files', x); }
  }

  return workerApi(ctx, { gen, exec, reduce });
}
