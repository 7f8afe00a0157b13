// A small document: enough of the DOM for the page under test to run in a
// simulated realm, and for the simulator to see what a user would see.
const VOID = new Set(['meta', 'link', 'input', 'br', 'hr', 'img']);
const decode = s => s.replace(/&(lt|gt|amp|quot|apos|nbsp|#\d+);/g, (m, e) => ({ lt: '<', gt: '>', amp: '&', quot: '"', apos: "'", nbsp: '\u00a0' }[e] ?? String.fromCodePoint(+e.slice(1))));

export class Node {
  constructor(doc) { this.ownerDocument = doc; this.parentNode = null; this.childNodes = []; }
  get parentElement() { return this.parentNode instanceof Element ? this.parentNode : null; }
  get firstChild() { return this.childNodes[0] ?? null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] ?? null; }
  get children() { return this.childNodes.filter(c => c instanceof Element); }
  get firstElementChild() { return this.children[0] ?? null; }
  hasChildNodes() { return this.childNodes.length > 0; }
  _adopt(c) { if (!(c instanceof Node)) c = new Text(this.ownerDocument, String(c)); if (c instanceof Fragment) { const l = c.childNodes.slice(); c.childNodes = []; return l; } if (c.parentNode) c.parentNode.removeChild(c); return [c]; }
  appendChild(c) { for (const x of this._adopt(c)) { x.parentNode = this; this.childNodes.push(x); } return c; }
  append(...l) { for (const c of l) this.appendChild(c); }
  prepend(...l) { for (const c of l.reverse()) this.insertBefore(c, this.firstChild); }
  insertBefore(c, ref) { const xs = this._adopt(c); let i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length; for (const x of xs) { x.parentNode = this; this.childNodes.splice(i++, 0, x); } return c; }
  removeChild(c) { const i = this.childNodes.indexOf(c); if (i < 0) throw new Error('NotFoundError'); this.childNodes.splice(i, 1); c.parentNode = null; return c; }
  replaceChild(n, o) { this.insertBefore(n, o); this.removeChild(o); return o; }
  replaceChildren(...l) { for (const c of this.childNodes.slice()) this.removeChild(c); this.append(...l); }
  remove() { this.parentNode?.removeChild(this); }
  contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
  get textContent() { return this.childNodes.map(c => c.textContent).join(''); }
  set textContent(s) { this.replaceChildren(); if (s !== null && String(s) !== '') this.appendChild(new Text(this.ownerDocument, String(s))); }
}
export class Text extends Node {
  constructor(doc, s) { super(doc); this.data = s; }
  get textContent() { return this.data; } set textContent(s) { this.data = String(s); }
  get nodeValue() { return this.data; } set nodeValue(s) { this.data = String(s); }
  cloneNode() { return new Text(this.ownerDocument, this.data); }
}
export class Fragment extends Node {}
export class Element extends Node {
  constructor(doc, tag) {
    super(doc); this.tagName = tag.toUpperCase(); this.localName = tag; this.attrs = new Map(); this.listeners = new Map();
    const css = this._css = new Map(), el = this;
    this.style = new Proxy({}, {
      get: (t, k) => k === 'setProperty' ? (n, v) => css.set(n, String(v)) : k === 'removeProperty' ? n => css.delete(n) : k === 'getPropertyValue' ? n => css.get(n) ?? '' : k === 'cssText' ? [...css].map(([a, b]) => a + ':' + b).join(';') : css.get(String(k)) ?? '',
      set: (t, k, v) => { if (k === 'cssText') { css.clear(); el._style(String(v)); } else css.set(String(k), String(v)); return true; },
    });
    this.classList = { add: (...c) => { const s = new Set(this._cls()); c.forEach(x => s.add(x)); this.attrs.set('class', [...s].join(' ')); }, remove: (...c) => { this.attrs.set('class', this._cls().filter(x => !c.includes(x)).join(' ')); }, contains: c => this._cls().includes(c), toggle: (c, f) => { const on = f ?? !this._cls().includes(c); on ? this.classList.add(c) : this.classList.remove(c); return on; } };
    this.dataset = new Proxy({}, { get: (t, k) => this.attrs.get('data-' + String(k)), set: (t, k, v) => { this.attrs.set('data-' + k, String(v)); return true; } });
    this._value = null;
  }
  _cls() { return (this.attrs.get('class') ?? '').split(/\s+/).filter(Boolean); }
  _style(s) { for (const p of s.split(';')) { const [k, v] = p.split(':'); if (v !== undefined) this._css.set(k.trim(), v.trim()); } }
  get nodeName() { return this.tagName; }
  get id() { return this.attrs.get('id') ?? ''; } set id(v) { this.attrs.set('id', String(v)); }
  get className() { return this.attrs.get('class') ?? ''; } set className(v) { this.attrs.set('class', String(v)); }
  getAttribute(n) { return this.attrs.get(n.toLowerCase()) ?? null; }
  hasAttribute(n) { return this.attrs.has(n.toLowerCase()); }
  setAttribute(n, v) { n = n.toLowerCase(); this.attrs.set(n, String(v)); if (n === 'style') { this._css.clear(); this._style(String(v)); } }
  removeAttribute(n) { this.attrs.delete(n.toLowerCase()); }
  toggleAttribute(n, f) { const on = f ?? !this.hasAttribute(n); on ? this.setAttribute(n, '') : this.removeAttribute(n); return on; }
  get disabled() { return this.attrs.has('disabled'); } set disabled(v) { v ? this.attrs.set('disabled', '') : this.attrs.delete('disabled'); }
  get hidden() { return this.attrs.has('hidden'); } set hidden(v) { v ? this.attrs.set('hidden', '') : this.attrs.delete('hidden'); }
  get value() { return this._value ?? this.attrs.get('value') ?? ''; } set value(v) { v = v === null ? '' : String(v).toWellFormed(); this._value = this.localName === 'input' ? v.replace(/[\r\n]/g, '') : this.localName === 'textarea' ? v.replace(/\r\n?/g, '\n') : v; } // as fields sanitise what is put into them
  get type() { return this.attrs.get('type') ?? ''; } set type(v) { this.attrs.set('type', String(v)); }
  get name() { return this.attrs.get('name') ?? ''; }
  get form() { let n = this; while (n && n.localName !== 'form') n = n.parentNode; return n ?? null; }
  get innerText() { return this.textContent; } set innerText(s) { this.textContent = s; }
  get innerHTML() { return this.childNodes.map(ser).join(''); }
  set innerHTML(s) { this.replaceChildren(); parseInto(this.ownerDocument, this, String(s)); }
  get outerHTML() { return ser(this); }
  insertAdjacentHTML(w, s) { const t = new Element(this.ownerDocument, 'div'); parseInto(this.ownerDocument, t, String(s)); const l = t.childNodes.slice(); if (w === 'afterbegin') this.prepend(...l); else this.append(...l); }
  insertAdjacentText(w, s) { this.append(new Text(this.ownerDocument, String(s))); }
  insertAdjacentElement(w, e) { w === 'afterbegin' ? this.prepend(e) : this.append(e); return e; }
  addEventListener(t, f, o) { const l = this.listeners.get(t) ?? []; l.push({ f, once: typeof o === 'object' && o?.once }); this.listeners.set(t, l); }
  removeEventListener(t, f) { this.listeners.set(t, (this.listeners.get(t) ?? []).filter(x => x.f !== f)); }
  dispatchEvent(e) { return this.ownerDocument.dispatch(this, e); }
  focus() {} blur() {} select() {} scrollIntoView() {}
  click() { this.ownerDocument.userClick(this); }
  reset() {} submit() { this.ownerDocument.navigated = true; } requestSubmit() { this.ownerDocument.submit(this); }
  cloneNode(deep) { const e = new Element(this.ownerDocument, this.localName); for (const [k, v] of this.attrs) e.setAttribute(k, v); if (deep) for (const c of this.childNodes) e.appendChild(c.cloneNode(true)); return e; }
  matches(sel) { return sel.split(',').some(s => { s = s.trim(); const m = /^([a-z0-9*]*)((?:[#.][\w-]+|\[[^\]]+\])*)$/i.exec(s); if (!m) return false; if (m[1] && m[1] !== '*' && m[1].toLowerCase() !== this.localName) return false; return (m[2].match(/[#.][\w-]+|\[[^\]]+\]/g) ?? []).every(p => p[0] === '#' ? this.id === p.slice(1) : p[0] === '.' ? this._cls().includes(p.slice(1)) : (() => { const a = /^\[([\w-]+)(?:=["']?([^"'\]]*)["']?)?\]$/.exec(p); return a && (a[2] === undefined ? this.hasAttribute(a[1]) : this.getAttribute(a[1]) === a[2]); })()); }); }
  querySelectorAll(sel) { const parts = sel.trim().split(/\s+(?![^\[]*\])/); const last = parts[parts.length - 1]; return descend(this).filter(e => e.matches(last)); }
  querySelector(sel) { return this.querySelectorAll(sel)[0] ?? null; }
  getElementsByTagName(t) { return descend(this).filter(e => t === '*' || e.localName === t.toLowerCase()); }
  getElementsByClassName(c) { return descend(this).filter(e => e._cls().includes(c)); }
  closest(sel) { let n = this; while (n instanceof Element && !n.matches(sel)) n = n.parentNode; return n instanceof Element ? n : null; }
}
function descend(n, out = []) { for (const c of n.childNodes) if (c instanceof Element) { out.push(c); descend(c, out); } return out; }
function ser(n) {
  if (n instanceof Text) return n.data.replace(/&/g, '&amp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');
  const a = [...n.attrs].map(([k, v]) => ` ${k}="${v.replace(/&/g, '&amp;').replace(/"/g, '&quot;')}"`).join('');
  return VOID.has(n.localName) ? `<${n.localName}${a}>` : `<${n.localName}${a}>${n.childNodes.map(ser).join('')}</${n.localName}>`;
}
function parseInto(doc, root, html) {
  const stack = [root]; let i = 0;
  const top = () => stack[stack.length - 1];
  while (i < html.length) {
    const raw = top() instanceof Element && /^(script|style)$/.test(top().localName);
    if (raw) { const e = html.toLowerCase().indexOf('</' + top().localName, i), k = e < 0 ? html.length : e; if (k > i) top().appendChild(new Text(doc, html.slice(i, k))); i = k; if (e < 0) break; }
    if (html.startsWith('<!--', i)) { const e = html.indexOf('-->', i); i = e < 0 ? html.length : e + 3; continue; }
    const m = /^<(\/?)([a-zA-Z][\w-]*)((?:[^>"']|"[^"]*"|'[^']*')*)>/.exec(html.slice(i));
    if (m) {
      i += m[0].length; const tag = m[2].toLowerCase();
      if (m[1]) { for (let k = stack.length - 1; k > 0; k--) if (stack[k].localName === tag) { stack.length = k; break; } continue; }
      const el = new Element(doc, tag);
      for (const a of m[3].matchAll(/([^\s=\/"'>]+)(?:\s*=\s*("[^"]*"|'[^']*'|[^\s"'>]+))?/g)) el.setAttribute(a[1], a[2] === undefined ? '' : decode(a[2].replace(/^(["'])([\s\S]*)\1$/, '$2')));
      top().appendChild(el);
      if (!VOID.has(tag) && !/\/\s*$/.test(m[3])) stack.push(el);
      continue;
    }
    if (/^<[!?]/.test(html.slice(i, i + 2))) { const e = html.indexOf('>', i); i = e < 0 ? html.length : e + 1; continue; }
    let e = html.indexOf('<', i + 1); if (e < 0) e = html.length;
    top().appendChild(new Text(doc, decode(html.slice(i, e)))); i = e;
  }
}

export class SimEvent { constructor(type, init = {}) { this.type = type; this.defaultPrevented = false; this.stopped = false; Object.assign(this, init); } preventDefault() { this.defaultPrevented = true; } stopPropagation() { this.stopped = true; } stopImmediatePropagation() { this.stopped = true; } }

export class Doc extends Element {
  constructor(html, compileHandler, onError) {
    super(null, '#document'); this.ownerDocument = this; this.compile = compileHandler; this.onError = onError; this.navigated = false; this.readyState = 'loading';
    parseInto(this, this, html);
  }
  get documentElement() { return this.querySelector('html'); }
  get body() { return this.querySelector('body'); }
  get head() { return this.querySelector('head'); }
  getElementById(id) { return descend(this).find(e => e.id === String(id)) ?? null; }
  createElement(t) { return new Element(this, String(t).toLowerCase()); }
  createTextNode(s) { return new Text(this, String(s)); }
  createDocumentFragment() { return new Fragment(this); }
  // run the handlers of an event, target first, then its ancestors
  dispatch(target, e, extra = []) {
    e.target ??= target;
    const path = []; for (let n = target; n; n = n.parentNode) path.push(n);
    for (const n of path.concat(extra)) {
      e.currentTarget = n;
      const code = n.attrs?.get('on' + e.type);
      const call = (f, self) => { try { return typeof f === 'function' ? f.call(self, e) : f?.handleEvent?.(e); } catch (err) { this.onError(err); } };
      if (typeof n['on' + e.type] === 'function') { if (call(n['on' + e.type], n) === false) e.defaultPrevented = true; }
      else if (code !== undefined) { const f = this.compile(code); if (f && call(f, n) === false) e.defaultPrevented = true; }
      for (const l of (n.listeners?.get(e.type) ?? []).slice()) { if (l.once) n.listeners.set(e.type, n.listeners.get(e.type).filter(x => x !== l)); call(l.f, n); }
      if (e.stopped) break;
    }
    return !e.defaultPrevented;
  }
  userClick(el) {
    if (el.disabled) return false;
    const e = new SimEvent('click', { bubbles: true });
    if (this.dispatch(el, e) && el.localName === 'button' && el.type !== 'button' && el.form) this.submit(el.form);
    return true;
  }
  submit(form) { const e = new SimEvent('submit', { bubbles: true, submitter: null }); if (this.dispatch(form, e)) this.navigated = true; }
  userEnter(input) { // implicit submission: clicks the form's default button
    const f = input.form; if (!f) return false;
    const b = f.querySelectorAll('button').find(x => x.type !== 'button' && x.type !== 'reset') ?? f.querySelectorAll('input').find(x => x.type === 'submit');
    if (!b) { this.submit(f); return true; }
    return this.userClick(b);
  }
}
const hiddenNode = n => {
  const d = n._css.get('display');
  if (d === 'none' || n._css.get('visibility') === 'hidden' || n.hidden) return true;
  const by = n.ownerDocument?.hiddenBy;
  return !d && !!by && (by.ids.has(n.id) || n._cls().some(c => by.classes.has(c)));
};
// simple selectors a style sheet hides
export function hides(css, into = { ids: new Set(), classes: new Set() }) {
  for (const m of css.replace(/\/\*[\s\S]*?\*\//g, '').matchAll(/(^|[}\n,])\s*([#.])([\w-]+)\s*\{([^}]*)\}/g)) if (/display\s*:\s*none/.test(m[4])) (m[2] === '#' ? into.ids : into.classes).add(m[3]);
  return into;
}
export function visible(el) { for (let n = el; n instanceof Element; n = n.parentNode) if (hiddenNode(n)) return false; return true; }
// the text a user can read in an element
export function visibleText(el) { if (!visible(el)) return ''; let s = ''; const walk = n => { for (const c of n.childNodes) { if (c instanceof Text) s += c.data; else if (c instanceof Element && !hiddenNode(c) && !/^(script|style)$/.test(c.localName)) walk(c); } }; walk(el); return s; }
