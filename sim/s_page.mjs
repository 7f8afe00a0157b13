// C16: the whole page in a simulated browser: markup, scripts, the glue, the
// compiled parser, the network it is fetched over, and a user.
import vm from 'node:vm';
import { Realm, verifImports } from './jsrealm.mjs';
import { Doc, Node, Element, Text, Fragment, SimEvent, visibleText, hides } from './dom.mjs';
import { Host, Abort } from './wasi.mjs';
import { Decider } from './decider.mjs';
import { workerApi, dropSome } from './runner.mjs';
import { asModule } from './s_lib.mjs';
import { sameJSON } from './s_cli.mjs';

const ENC = new TextEncoder();
const flat = s => s.toWellFormed().replace(/[\r\n\0]/g, ''); // line breaks are markup once shown
const MARKUP = ['<b>1985</b>', '1985<img src=x onerror=alert(1)>', '<script>alert(1)</script>', '&lt;1985&gt;', '"><i>x</i>', '1985-04-12</pre><h1>'];
// text as a browser reads it: in the charset the media type names, if it knows that
export function inCharset(bytes, type) {
  const m = /;\s*charset\s*=\s*"?([^\s";]+)/i.exec(type ?? '');
  try { return new TextDecoder(m ? m[1] : 'utf-8').decode(bytes); } catch { return new TextDecoder().decode(bytes); }
}
export function session(r, words) { // what a user does
  const user = []; let t = 0;
  const vocab = r.sample(words, r.pick([2, 4, 10])).concat(r.chance(0.3) ? [r.pick(MARKUP)] : []);
  t = r.pick([0, 0, 20, 4000]);
  for (let i = r.pick([1, 3, 8, 20]); i > 0; i--) {
    const x = r.f();
    if (x < 0.5) { user.push({ do: 'type', text: r.pick(vocab), at: t }); t += r.pick([0, 0, 1]); user.push({ do: r.pick(['click', 'click', 'enter']), at: t }); }
    else if (x < 0.7) user.push({ do: 'type', text: r.pick(vocab), at: t });
    else user.push({ do: r.pick(['click', 'enter']), at: t });
    t += r.pick([0, 0, 0, 1, 20, 300, 3000]);
  }
  return { user, vocab };
}
// The page and its browser.  In C16 the files are the working tree's; in C17
// `site` delivers whatever the simulated server sent.
export async function pageEngine(ctx) {
  process.on('unhandledRejection', () => {});
  const mods = {}; for (const [k, m] of Object.entries(ctx.js)) mods[k] = await asModule(m);
  const lib = await asModule(ctx.plainModule);
  const www = ctx.www; // path -> text, as the server publishes them
  const scripts = new Map();
  const base = new Map(), words = [];
  function alone(s) {
    const key = JSON.stringify(['rawjson', s]); let v = base.get(key);
    if (v === undefined) {
      const r = new Host(lib, { args: ['libsim'], env: [], clock: {}, decider: new Decider({ decisions: {} }), stdin: ENC.encode(JSON.stringify({ tasks: [[['rawjson', s]]] })) }).run();
      v = r.emits[0]?.replace(/^0 0 /, '') ?? 'DIED'; base.set(key, v);
    }
    return v;
  }
  const full = url => { try { const u = new URL(url, 'http://localhost:8080/'); return u.origin === 'http://localhost:8080' ? u.pathname + u.search : u.href; } catch { return '?'; } };
  const resolve = (url, from) => { try { return new URL(url, 'http://localhost:8080' + from).pathname; } catch { return '?'; } };
  const compiled = (name, text) => { const k = name + '\0' + text; let s = scripts.get(k); if (!s) { try { s = new vm.Script(text, { filename: name }); } catch (e) { s = e; } scripts.set(k, s); } return s; };

  // site: { html, csp, load(path, what, time) -> { at, headAt, status, type, nosniff, bytes, whole, served } or null }
  function open(plan, dec, site = null) {
    const realm = new Realm(dec, { wall: 1700000000, entropy: plan.entropy ?? 0, fsMode: 'browser' });
    const g = realm.g, bodies = new WeakMap();
    const errs = [];
    const csp = site?.csp ?? null, blocked = (what, x) => { if (!csp || csp.allows(what, x)) return false; dec.event('blocked by policy: ' + what); errs.push('refused by the content security policy: ' + what); return true; };
    const doc = new Doc(site ? site.html : www['/index.html'], code => { if (blocked('handler')) return null; const s = compiled('handler', `(function (event) { ${code}\n})`); return s instanceof vm.Script ? s.runInContext(g) : null; }, e => { let m; try { m = String(e); } catch { m = '?'; } errs.push(m); dec.event('uncaught ' + m); });
    doc.hiddenBy = { ids: new Set(), classes: new Set() };
    const st = { exited: false, faulted: false, net: 0, submitted: null, n: 0, quiet: 0, shown: 0 };
    // ---- the browser's globals
    const winTarget = { listeners: new Map(), attrs: new Map() };
    const delay = () => dec.choose('delay', 0, r => r.pick([0, 0, 1, 5, 50, 2000]));
    g.window = g; g.self = g; g.document = doc; g.navigator = { userAgent: 'sim', language: 'en' }; g.location = { href: 'http://localhost:8080/', pathname: '/', origin: 'http://localhost:8080', search: '', hash: '', reload() { doc.navigated = true; } };
    g.Event = SimEvent; g.CustomEvent = SimEvent; g.URL = URL; g.URLSearchParams = URLSearchParams;
    const store = () => { const m = new Map(); return new Proxy({ getItem: k => m.get(String(k)) ?? null, setItem: (k, v) => { m.set(String(k), String(v)); }, removeItem: k => { m.delete(String(k)); }, clear: () => m.clear(), key: i => [...m.keys()][i] ?? null, get length() { return m.size; } }, { get: (t, k) => (k in t ? t[k] : m.get(String(k))), set: (t, k, v) => { m.set(String(k), String(v)); return true; }, deleteProperty: (t, k) => { m.delete(String(k)); return true; } }); };
    g.localStorage = (site?.kept ?? {}).local ??= store(); g.sessionStorage = store();
    Object.assign(g, { Node, Element, HTMLElement: Element, HTMLInputElement: Element, HTMLButtonElement: Element, HTMLPreElement: Element, HTMLDivElement: Element, Text, DocumentFragment: Fragment, KeyboardEvent: SimEvent, MouseEvent: SimEvent, InputEvent: SimEvent, SubmitEvent: SimEvent, EventTarget: Node });
    g.history = { replaceState() {}, pushState() {}, state: null, length: 1 }; g.matchMedia = () => ({ matches: false, addEventListener() {}, addListener() {} });
    g.requestIdleCallback = f => realm.post('idle callback', () => f({ didTimeout: false, timeRemaining: () => 10 }), 1); g.cancelIdleCallback = id => realm.cancel(id);
    g.FormData = class { constructor(f) { this.m = new Map(); for (const e of f?.querySelectorAll?.('input') ?? []) if (e.name) this.m.set(e.name, e.value); } get(k) { return this.m.get(k) ?? null; } has(k) { return this.m.has(k); } entries() { return this.m.entries(); } };
    g.alert = () => {}; g.requestAnimationFrame = f => realm.post('animation frame', () => f(realm.t), 16); g.cancelAnimationFrame = id => realm.cancel(id);
    g.addEventListener = (t, f, o) => { const l = winTarget.listeners.get(t) ?? []; l.push({ f, once: o?.once }); winTarget.listeners.set(t, l); };
    g.removeEventListener = (t, f) => winTarget.listeners.set(t, (winTarget.listeners.get(t) ?? []).filter(x => x.f !== f));
    g.AbortController = class { constructor() { this.signal = { aborted: false, addEventListener() {} }; } abort() { this.signal.aborted = true; } };
    g.Headers = class { constructor(init) { this.m = new Map(Object.entries(init ?? {}).map(([k, v]) => [k.toLowerCase(), v])); } append(k, v) { this.m.set(k.toLowerCase(), v); } set(k, v) { this.append(k, v); } get(k) { return this.m.get(k.toLowerCase()) ?? null; } has(k) { return this.m.has(k.toLowerCase()); } };
    const inRealm = compiled('sim-page-prelude', `(() => { const H = globalThis.__H;
      const P = f => new Promise((a, b) => f(a, (name, m) => b(name === 'CompileError' ? new WebAssembly.CompileError(m) : name === 'RangeError' ? new RangeError(m) : new TypeError(m))));
      const response = r => ({ ok: r.status >= 200 && r.status < 300, status: r.status, statusText: '', url: r.url, redirected: false, type: 'basic', headers: new Headers({ 'content-type': r.type }), bodyUsed: false,
        arrayBuffer() { this.bodyUsed = true; return P((a, b) => H.body(r, x => a(x), b)); }, text() { return this.arrayBuffer().then(() => r.text ?? ''); }, json() { return this.text().then(JSON.parse); }, blob() { return this.arrayBuffer(); }, clone() { return response(r); }, __r: r });
      globalThis.fetch = (url, o) => P((a, b) => H.fetch(String(url), r => a(response(r)), b));
      const W = WebAssembly, I = W.Instance;
      W.compile = buf => P((a, b) => H.compile(buf, a, b));
      W.instantiate = (x, imp) => x instanceof W.Module ? P((a, b) => H.later(() => { try { a(new I(x, H.imports(imp))); } catch (e) { b('TypeError', String(e)); } })) : W.compile(x).then(m => P((a, b) => H.later(() => { try { a({ module: m, instance: H.made(new I(m, H.imports(imp))) }); } catch (e) { b('TypeError', String(e)); } })));
      const checked = p => Promise.resolve(p).then(r => { if (!r.ok) throw new TypeError('HTTP status code is not ok'); if ((r.headers.get('content-type') || '').split(';')[0].trim() !== 'application/wasm') throw new TypeError('Incorrect response MIME type'); return r.arrayBuffer(); });
      if (H.streaming) { W.compileStreaming = p => checked(p).then(W.compile); W.instantiateStreaming = (p, imp) => checked(p).then(b => W.instantiate(b, imp)); } else { delete W.instantiateStreaming; delete W.compileStreaming; }
    })()`);
    const kind = plan.build, stylesheet = new Map();
    let vh = null;
    Object.assign(realm.H, {
      streaming: plan.streaming,
      imports: imp => { if (kind === 'stock') return imp; const v = verifImports(realm, mods[kind], { sched: (r, n) => r.int(n), preempt: (r, kk) => kk ? (plan.hot ? r.geom(plan.hot) : Infinity) : Infinity }); vh = v.host; return { ...imp, verif: v.imports }; },
      made: inst => { if (vh) vh.mem = inst.exports.mem; st.inst = inst; return inst; },
      later: f => realm.post('instantiate', f, delay()),
      fetch: (url, ok, fail) => {
        const path = resolve(url, '/'); st.net++;
        if (blocked('connect', path)) { realm.post('fetch refused', () => fail('TypeError', 'Failed to fetch')); return; }
        if (site) {
          dec.event('fetch ' + path);
          const x = site.load(full(url), 'fetch', realm.t);
          if (!x) return; // nothing comes back
          if (!x.status) { realm.post('fetch fails', () => fail('TypeError', 'Failed to fetch'), x.at - realm.t); return; }
          realm.post('response of ' + path, () => ok({ url: path, status: x.status, type: x.type, net: x, text: x.whole ? Buffer.from(x.bytes).toString('utf8') : undefined }), x.headAt - realm.t);
          return;
        }
        const fate = dec.choose('fetch', 0, r => (r.chance(plan.netFault) ? r.pick([1, 2, 3, 4, 5, 6]) : 0));
        dec.event(`fetch ${path} fate ${fate}`);
        const isWasm = path === '/wasm/parse-js.wasm';
        const r = { url: path, status: 200, type: path.endsWith('.wasm') ? 'application/wasm' : 'text/html', whole: isWasm, text: www[path] };
        if (!isWasm && www[path] === undefined) { r.status = 404; r.type = 'text/plain'; r.text = '404 page not found'; }
        switch (fate) {
          case 1: dec.fault('fetch-network-error'); st.faulted = true; realm.post('fetch fails', () => fail('TypeError', 'Failed to fetch'), delay()); return;
          case 2: dec.fault('fetch-not-found'); st.faulted = true; Object.assign(r, { status: 404, type: 'text/plain', whole: false, text: '404 page not found' }); break;
          case 3: dec.fault('fetch-server-error'); st.faulted = true; Object.assign(r, { status: 503, type: 'text/html', whole: false, text: '<h1>503</h1>' }); break;
          case 4: dec.fault('fetch-body-cut'); st.faulted = true; r.whole = false; r.cut = true; break;
          case 5: dec.fault('fetch-stalled'); st.faulted = true; return;
          case 6: dec.fault('fetch-wrong-content'); st.faulted = true; Object.assign(r, { type: 'text/html', whole: false, text: '<html>portal</html>' }); break;
        }
        realm.post('response of ' + path, () => ok(r), delay());
      },
      body: (r, ok, fail) => { if (r.net) { if (r.net.at !== Infinity) realm.post('body of ' + r.url, () => { if (!r.net.whole) return fail('TypeError', 'network error'); const b = new Uint8Array(r.net.bytes).buffer; bodies.set(b, site.isModule(r.net.bytes)); ok(b); }, Math.max(0, r.net.at - realm.t)); return; } realm.post('body of ' + r.url, () => { if (r.cut) { if (dec.choose('cut', 0, q => q.int(2))) return fail('TypeError', 'network error'); } const b = new ArrayBuffer(16); if (r.whole) bodies.set(b, true); ok(b); }, delay()); },
      compile: (buf, ok, fail) => realm.post('compile', () => { if (blocked('wasm')) fail('CompileError', 'refused by the content security policy'); else if (bodies.get(buf) || bodies.get(buf?.buffer)) ok(mods[kind]); else fail('CompileError', 'expected magic word'); }, delay()),
    });
    inRealm.runInContext(g);
    // ---- loading the page: style sheets, scripts in order, then the load event
    const list = doc.getElementsByTagName('script'), later = [], preloaded = new Map();
    let loading = 0, started = false;
    for (const l of doc.getElementsByTagName('link')) if (/stylesheet/.test(l.getAttribute('rel') ?? '')) { const p = resolve(l.getAttribute('href') ?? '', '/');
      if (site) { if (blocked('style', p)) continue; loading++; const x = site.load(full(l.getAttribute('href') ?? ''), 'style', realm.t); if (x) realm.post('style sheet ' + p, () => { loading--; if (x.whole && x.status === 200 && /^text\/css\b/i.test(x.type)) hides(Buffer.from(x.bytes).toString('utf8'), doc.hiddenBy); finished(); }, x.at - realm.t); }
      else if (www[p] !== undefined) hides(www[p], doc.hiddenBy); }
    for (const s of doc.getElementsByTagName('style')) hides(s.textContent, doc.hiddenBy);
    const finished = () => { if (!loading && started) { realm.post('page load event', () => { doc.readyState = 'complete'; const e = new SimEvent('load'); e.target = doc; e.currentTarget = g; for (const l of winTarget.listeners.get('load') ?? []) try { l.f.call(g, e); } catch (x) { doc.onError(x); } if (typeof g.onload === 'function') try { g.onload(e); } catch (x) { doc.onError(x); } const b = doc.body?.getAttribute('onload'); if (b) doc.compile(b)?.call(doc.body, e); }, delay()); started = false; } };
    const runScript = (name, text) => { dec.event('run script ' + name); const s = compiled(name, text); if (!(s instanceof vm.Script)) return doc.onError(s); try { s.runInContext(g); } catch (e) { if (realm.abort) throw realm.abort; doc.onError(e); } };
    const nextScript = i => {
      if (i >= list.length) { for (const [n, t] of later) runScript(n, t); doc.readyState = 'interactive'; const e = new SimEvent('DOMContentLoaded'); doc.dispatch(doc, e); for (const l of winTarget.listeners.get('DOMContentLoaded') ?? []) try { l.f.call(g, e); } catch (x) { doc.onError(x); } started = true; finished(); return; }
      const s = list[i], src = s.getAttribute('src');
      if (src === null) { if (blocked('inline', s)) { nextScript(i + 1); return; } realm.post('inline script', () => { runScript('inline' + i, s.textContent); nextScript(i + 1); }); return; }
      const p = resolve(src, '/'), async = s.hasAttribute('async'), defer = s.hasAttribute('defer') || s.getAttribute('type') === 'module';
      if (site) {
        if (blocked('script', p)) { nextScript(i + 1); return; }
        loading++;
        const x = preloaded.get(s), go = () => {
          loading--;
          const ok = x.whole && x.status === 200 && !/^(image|audio|video)\/|^text\/csv/i.test(x.type) && !(x.nosniff && !/javascript|ecmascript/i.test(x.type));
          if (!ok) dec.event('script fails ' + p); else if (defer && !async) later.push([p, inCharset(x.bytes, x.type)]); else runScript(p, inCharset(x.bytes, x.type));
          if (!async) nextScript(i + 1); else finished();
        };
        if (x) realm.post('script ' + p, go, Math.max(0, x.at - realm.t));
        if (async) nextScript(i + 1);
        return;
      }
      const fate = dec.choose('script', 0, r => (r.chance(plan.scriptFault) ? 1 : 0));
      loading++;
      const got = () => { loading--; if (fate || www[p] === undefined) { dec.fault('script-not-loaded'); st.faulted = true; dec.event('script fails ' + p); } else if (defer && !async) later.push([p, www[p]]); else runScript(p, www[p]); };
      realm.post('script ' + p, () => { got(); if (!async) nextScript(i + 1); else finished(); }, delay());
      if (async) nextScript(i + 1);
    };
    if (site) for (const s of list) { const src = s.getAttribute('src'); if (src !== null && !(csp && !csp.allows('script', resolve(src, '/')))) preloaded.set(s, site.load(full(src), 'script', realm.t)); }
    realm.post('parse page', () => nextScript(0));
    // ---- the user
    const button = () => doc.getElementById('button'), raw = () => doc.getElementById('raw'), result = () => doc.getElementById('result');
    const ready = () => typeof g.parse_edtf === 'function' && !(st.inst && errs.some(e => /already exited/.test(e)));
    let violation = null;
    const users = [];
    for (const u of plan.user) users.push(realm.post('user ' + u.do, () => {
      if (!raw() || !button()) return;
      if (u.do === 'type') { raw().value = u.text; doc.dispatch(raw(), new SimEvent('input', { bubbles: true })); dec.event('type ' + u.text); return; }
      const text = raw().value;
      const ok = u.do === 'enter' ? !button().disabled && doc.userEnter(raw()) : doc.userClick(button());
      dec.event(`${u.do} ${ok ? 'accepted' : 'ignored'} ${text}`);
      if (ok) { st.submitted = { text, n: ++st.n }; st.beforeReady = !ready(); } else st.ignored = (st.ignored ?? 0) + 1;
    }, u.at));
    const isUser = p => users.includes(p.id);
    const check = final => {
      if (violation) return;
      if (doc.navigated) { violation = { class: 'navigated', detail: `submitting ${JSON.stringify(st.submitted?.text)} made the browser leave the page` }; return; }
      const b = button(); if (!b) { violation = { class: 'no-button', detail: 'the page has no button' }; return; }
      if (!b.disabled && !ready()) { violation = { class: 'enabled-early', detail: `the button is enabled although the parser cannot answer; errors: ${errs.join(' | ').slice(0, 500)}` }; return; }
    };
    const outcome = () => {
      if (violation) return;
      st.quiet++;
      const shown = visibleText(result() ?? doc.createElement('div'));
      dec.event('shown ' + shown.slice(0, 2000));
      if (!st.submitted) { if (/"(timestamp|edtf)"\s*:/.test(shown)) violation = { class: 'shown', detail: `nothing was submitted, but the page shows ${JSON.stringify(shown.slice(0, 300))}` }; return; }
      const { text, n } = st.submitted, want = alone(text);
      const bad = m => { violation = { class: 'outcome', detail: `submission ${n} of ${JSON.stringify(text)}: ${m}; the page shows ${JSON.stringify(shown.slice(0, 700))}` }; };
      if (want[0] !== '{') return;
      const a = JSON.parse(want);
      st.shown++;
      if (a.err === undefined) {
        const i = shown.indexOf('{'), j = shown.lastIndexOf('}');
        if (i < 0 || !sameJSON(shown.slice(i, j + 1), a.v)) bad(`its parsed date should be shown as JSON`);
      } else if (![text, a.err].every(x => flat(shown).includes(flat(x)))) bad(`a message with the string and the reason ${JSON.stringify(a.err)} should be shown, as text`);
      else if (/"timestamp"\s*:/.test(shown)) bad('the outcome of another submission is still shown');
    };
    try {
      for (let i = 0; i < 5000; i++) {
        if (!realm.pending.some(p => !isUser(p) || p.due <= realm.t)) { outcome(); if (violation) break; }
        if (!realm.step()) break;
        check(); if (violation) break;
        if (i === 4999) violation = { class: 'step-limit', detail: 'the page never becomes idle' };
      }
      if (!violation) {
        const b = button();
        if (site) st.faulted = site.faulted();
        if (!st.faulted && b.disabled) violation = { class: 'never-enabled', detail: `everything was loaded, but the button stayed disabled; console: ${realm.lines.slice(-6).join(' | ')}; errors: ${errs.concat(realm.uncaught ?? []).join(' | ').slice(0, 500)}` };
        else if (!b.disabled) { // one more submission, now that everything is quiet
          st.n++;
          realm.task(() => { raw().value = plan.last; }); const text = raw().value; let ok = false; realm.task(() => { ok = doc.userClick(b); });
          if (ok) st.submitted = { text, n: st.n };
          for (let i = 0; i < 2000 && realm.step(); i++);
          check(); outcome();
        }
      }
    } catch (e) { if (e instanceof Abort) violation = { class: e.kind, detail: e.detail }; else throw e; }
    return { violation, st, realm, button: button(), shown: visibleText(result() ?? doc.createElement('div')) };
  }
  return { open, alone, base, words };
}
export async function worker(ctx) {
  const { open, alone, base, words } = await pageEngine(ctx);
  function exec(plan, { seed = null, decisions = null, trace = false }) {
    const dec = new Decider({ seed, decisions, log: trace ? [] : null });
    const { violation, st, realm, button, shown } = open(plan, dec);
    dec.event('verdict ' + (violation ? violation.class + violation.detail : 'ok'));
    const hash = dec.hash.hex();
    if (plan.streaming === false) dec.fired['no-streaming-compilation'] = 1;
    return {
      violation, hash, decisions: dec.rec, fired: dec.fired, trace: dec.log, sig: hash, nontrivial: (dec.rec.event?.length ?? 0) + (dec.rec.delay?.length ?? 0) > 0,
      sum: { submissions: st.n, outcomes_checked: st.shown, quiet_states: st.quiet, tasks: realm.ticks, simulated_ms: Math.round(realm.t), clicks_while_disabled: st.ignored ?? 0 },
      probes: { enabled: button?.disabled ? 0 : 1, ['build:' + plan.build]: 1 },
      sample: { plan, decisions: Object.fromEntries(Object.entries(dec.rec).map(([k, v]) => [k, v.slice(0, 8)])), submissions: st.n, shown: shown.slice(0, 120) },
    };
  }
  function gen(r) {
    const { user, vocab } = session(r, words);
    return { user, last: r.pick(r.chance(0.15) ? MARKUP : vocab), streaming: r.chance(0.75), netFault: r.pick([0, 0, 0, 0.5, 1]), scriptFault: r.pick([0, 0, 0, 0.3]), build: r.pick(['stock', 'sched']), hot: 0, entropy: r.int(1e9) };
  }
  function* reduce(plan) {
    const put = (k, v) => ({ ...plan, [k]: v });
    for (const u of dropSome(plan.user)) yield put('user', u);
    if (plan.build !== 'stock') yield put('build', 'stock');
    if (!plan.streaming) yield put('streaming', true);
    if (plan.entropy) yield put('entropy', 0);
    for (const s of ['1985', 'x']) if (plan.last !== s && !['1985', 'x'].includes(plan.last)) yield put('last', s);
    for (let i = 0; i < plan.user.length && i < 6; i++) if (plan.user[i].text && !['1985', 'x'].includes(plan.user[i].text)) for (const s of ['1985', 'x']) yield put('user', plan.user.map((u, k) => (k === i ? { ...u, text: s } : u)));
  }
  return workerApi(ctx, {
    gen, exec, reduce, extra: {
      async baselines(list) { return list.map(op => [JSON.stringify(op), alone(op[1])]); },
      async learn({ list, pairs }) { for (const [k, v] of pairs) base.set(k, v); words.push(...list); return true; },
    },
  });
}
