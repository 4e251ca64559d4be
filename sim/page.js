// A browser page for the simulator: parses the HTML the server sent, runs the
// page's own scripts in it, and delivers planned user events.  Reads one JSON
// command per line on stdin, answers with one JSON line each.  Timers and the
// clock are simulated; Plotly is a stub that records what is drawn.
'use strict';
const vm = require('vm');
const fs = require('fs');
const path = require('path');

const VOID = new Set(['area', 'base', 'br', 'col', 'embed', 'hr', 'img', 'input', 'link', 'meta', 'source', 'track', 'wbr']);
const RAW = new Set(['script', 'style']);
const RCDATA = new Set(['textarea', 'title']);
const ENT = { amp: '&', lt: '<', gt: '>', quot: '"', apos: "'", nbsp: '\u00a0' };
const unescape = s => s.replace(/&(#x[0-9a-f]+|#\d+|\w+);/gi, (m, e) =>
  e[0] === '#' ? String.fromCodePoint(e[1].toLowerCase() === 'x' ? parseInt(e.slice(2), 16) : parseInt(e.slice(1))) : (e in ENT ? ENT[e] : m));
const escText = s => s.replace(/&/g, '&amp;').replace(/\u00a0/g, '&nbsp;').replace(/</g, '&lt;').replace(/>/g, '&gt;');
const escAttr = s => s.replace(/&/g, '&amp;').replace(/\u00a0/g, '&nbsp;').replace(/"/g, '&quot;');

// ---------------------------------------------------------------- nodes
class Target {
  constructor() { this._listeners = []; }
  addEventListener(type, fn, opt) {
    if (!fn) return;
    const capture = !!(opt === true || (opt && opt.capture));
    if (!this._listeners.some(l => l.type === type && l.fn === fn && l.capture === capture))
      this._listeners.push({ type, fn, capture, once: !!(opt && opt.once) });
  }
  removeEventListener(type, fn, opt) {
    const capture = !!(opt === true || (opt && opt.capture));
    this._listeners = this._listeners.filter(l => !(l.type === type && l.fn === fn && l.capture === capture));
  }
  dispatchEvent(ev) { return dispatch(this, ev); }
}

class Ev {
  constructor(type, init) {
    this.type = type;
    this.bubbles = !!(init && init.bubbles);
    this.cancelable = !!(init && init.cancelable);
    this.defaultPrevented = false; this.isTrusted = true; this.timeStamp = now; this._stop = false; this._stopNow = false;
    Object.assign(this, (init && init.extra) || {});
    if (init && 'detail' in init) this.detail = init.detail;
  }
  preventDefault() { if (this.cancelable) this.defaultPrevented = true; }
  get returnValue() { return !this.defaultPrevented; }
  set returnValue(v) { if (v === false) this.preventDefault(); }
  stopPropagation() { this._stop = true; }
  stopImmediatePropagation() { this._stop = this._stopNow = true; }
  composedPath() { return this._path.slice(); }
}

let report = () => {};
function call(fn, self, ev) {
  try {
    const r = typeof fn === 'function' ? fn.call(self, ev) : fn.handleEvent(ev);
    return r;
  } catch (e) { report(e); }
}
function dispatch(target, ev) {
  ev.target = ev.srcElement = target;
  const chain = [];
  for (let n = target; n; n = n.parentNode) chain.push(n);
  const doc = chain[chain.length - 1];
  if (doc instanceof Doc && ev.type !== 'load') chain.push(doc.defaultView);
  ev._path = chain;
  const at = (n, phase) => {
    ev.currentTarget = n; ev.eventPhase = phase;
    for (const l of n._listeners.slice()) {
      if (l.type !== ev.type || !n._listeners.includes(l)) continue;
      if (phase === 1 && !l.capture || phase === 3 && l.capture) continue;
      if (l.once) n._listeners = n._listeners.filter(x => x !== l);
      call(l.fn, n, ev);
      if (ev._stopNow) return;
    }
    if (phase === 1) return;
    if (typeof n['on' + ev.type] === 'function') {
      if (call(n['on' + ev.type], n, ev) === false) ev.preventDefault();
    } else if (n instanceof El && n.hasAttribute('on' + ev.type)) {
      const code = n.getAttribute('on' + ev.type);
      const f = e => vm.runInContext(`(function (event) { ${code}\n})`, ctx, { filename: 'attribute' }).call(n, e);
      if (call(f, n, ev) === false) ev.preventDefault();
    }
  };
  for (let i = chain.length - 1; i > 0 && !ev._stop; i--) at(chain[i], 1);
  if (!ev._stop) at(target, 2);
  if (ev.bubbles) for (let i = 1; i < chain.length && !ev._stop; i++) at(chain[i], 3);
  ev.currentTarget = null;
  return !ev.defaultPrevented;
}

class Node extends Target {
  constructor(doc) { super(); this.ownerDocument = doc; this.parentNode = null; this.childNodes = []; }
  get parentElement() { return this.parentNode instanceof El ? this.parentNode : null; }
  get children() { return collection(() => this.childNodes.filter(n => n instanceof El)); }
  get childElementCount() { return this.childNodes.filter(n => n instanceof El).length; }
  get firstElementChild() { return this.children[0] || null; }
  get lastElementChild() { const c = this.children; return c[c.length - 1] || null; }
  get firstChild() { return this.childNodes[0] || null; }
  get lastChild() { return this.childNodes[this.childNodes.length - 1] || null; }
  _sib(d, el) {
    if (!this.parentNode) return null;
    const s = this.parentNode.childNodes;
    for (let i = s.indexOf(this) + d; i >= 0 && i < s.length; i += d) if (!el || s[i] instanceof El) return s[i];
    return null;
  }
  get nextSibling() { return this._sib(1, false); }
  get previousSibling() { return this._sib(-1, false); }
  get nextElementSibling() { return this._sib(1, true); }
  get previousElementSibling() { return this._sib(-1, true); }
  get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n instanceof Doc; }
  contains(o) { for (; o; o = o.parentNode) if (o === this) return true; return false; }
  getRootNode() { let n = this; while (n.parentNode) n = n.parentNode; return n; }
  hasChildNodes() { return this.childNodes.length > 0; }
  remove() { if (this.parentNode) this.parentNode.removeChild(this); }
  removeChild(n) {
    const i = this.childNodes.indexOf(n);
    if (i < 0) throw new Error('NotFoundError');
    this.childNodes.splice(i, 1); n.parentNode = null; return n;
  }
  insertBefore(n, ref) {
    if (ref === undefined) ref = null;
    if (n instanceof Fragment) { for (const c of n.childNodes.slice()) this.insertBefore(c, ref); return n; }
    if (!(n instanceof Node)) throw new TypeError('not a Node');
    if (n.contains(this)) throw new Error('HierarchyRequestError');
    if (ref !== null && ref.parentNode !== this) throw new Error('NotFoundError');
    if (ref === n) return n;
    n.remove();
    const i = ref === null ? this.childNodes.length : this.childNodes.indexOf(ref);
    this.childNodes.splice(i, 0, n); n.parentNode = this; return n;
  }
  appendChild(n) { return this.insertBefore(n, null); }
  replaceChild(n, o) { this.insertBefore(n, o); this.removeChild(o); return o; }
  _nodes(xs) { return xs.map(x => x instanceof Node ? x : new Text(this.ownerDocument || this, String(x))); }
  append(...xs) { for (const n of this._nodes(xs)) this.appendChild(n); }
  prepend(...xs) { const f = this.firstChild; for (const n of this._nodes(xs)) this.insertBefore(n, f); }
  before(...xs) { for (const n of this._nodes(xs)) this.parentNode.insertBefore(n, this); }
  after(...xs) { const s = this.nextSibling; for (const n of this._nodes(xs)) this.parentNode.insertBefore(n, s); }
  replaceWith(...xs) { this.before(...xs); this.remove(); }
  replaceChildren(...xs) { for (const c of this.childNodes.slice()) c.remove(); this.append(...xs); }
  get textContent() { return this.childNodes.map(c => c instanceof Comment ? '' : c.textContent).join(''); }
  set textContent(v) { this.replaceChildren(); if (v !== '' && v != null) this.appendChild(new Text(this.ownerDocument, String(v))); }
  get innerText() { return this.textContent; }
  set innerText(v) { this.textContent = v; }
  *_all() { for (const c of this.childNodes) if (c instanceof El) { yield c; yield* c._all(); } }
  querySelectorAll(sel) { const m = selector(sel); return list([...this._all()].filter(e => m(e, this))); }
  querySelector(sel) { const m = selector(sel); for (const e of this._all()) if (m(e, this)) return e; return null; }
  getElementsByTagName(t) { t = t.toLowerCase(); return collection(() => [...this._all()].filter(e => t === '*' || e.localName === t)); }
  getElementsByClassName(c) { const cs = c.trim().split(/\s+/); return collection(() => [...this._all()].filter(e => cs.every(x => e.classList.contains(x)))); }
}
// what a browser has and this document does not: a script that asks for it
// makes the run inconclusive
let unsim = [];
function guard(o, names) {
  for (const k of names.split(/\s+/)) {
    if (!k || k in o) continue;
    Object.defineProperty(o, k, {
      configurable: true,
      get() { unsim.push(k); throw new Error('not simulated: ' + k); },
      set(v) { Object.defineProperty(this, k, { value: v, writable: true, configurable: true, enumerable: true }); },
    });
  }
}
class Text extends Node {
  constructor(doc, s) { super(doc); this.data = s; this.nodeType = 3; }
  get textContent() { return this.data; }
  set textContent(v) { this.data = String(v); }
  get nodeValue() { return this.data; }
  set nodeValue(v) { this.data = String(v); }
  cloneNode() { return new Text(this.ownerDocument, this.data); }
}
class Comment extends Text { constructor(d, s) { super(d, s); this.nodeType = 8; } cloneNode() { return new Comment(this.ownerDocument, this.data); } }
class Fragment extends Node { }

function list(a) { a.item = i => a[i] || null; return a; }
function collection(get) {
  return new Proxy({}, {
    get(_, k) {
      const a = get();
      if (k === 'length') return a.length;
      if (k === Symbol.iterator) return function* () { for (let i = 0; i < get().length; i++) yield get()[i]; };
      if (k === 'item') return i => get()[i] || null;
      if (k === 'namedItem') return n => get().find(e => e.id === n || e.getAttribute('name') === n) || null;
      if (typeof k === 'string' && /^\d+$/.test(k)) return a[k];
      if (typeof k === 'string') return a.find(e => e.id === k || e.getAttribute('name') === k);
    },
    has(_, k) { const a = get(); return k === 'length' || (typeof k === 'string' && /^\d+$/.test(k) && +k < a.length); },
    ownKeys() { return [...get().keys()].map(String); },
    getOwnPropertyDescriptor(_, k) { const a = get(); return k in a ? { value: a[k], enumerable: true, configurable: true } : undefined; },
  });
}

class Style {
  constructor(el) {
    const css = () => {
      const o = {};
      for (const d of (el.getAttribute('style') || '').split(';')) {
        const i = d.indexOf(':');
        if (i > 0) o[d.slice(0, i).trim().toLowerCase()] = d.slice(i + 1).trim();
      }
      return o;
    };
    const put = o => el.setAttribute('style', Object.entries(o).map(([k, v]) => `${k}: ${v};`).join(' '));
    const dash = k => k.replace(/[A-Z]/g, c => '-' + c.toLowerCase());
    return new Proxy({}, {
      get(_, k) {
        if (k === 'cssText') return el.getAttribute('style') || '';
        if (k === 'setProperty') return (n, v) => { const o = css(); if (v === '') delete o[n]; else o[n] = String(v); put(o); };
        if (k === 'getPropertyValue') return n => css()[n] || '';
        if (k === 'removeProperty') return n => { const o = css(); const v = o[n] || ''; delete o[n]; put(o); return v; };
        return typeof k === 'string' ? css()[dash(k)] || '' : undefined;
      },
      set(_, k, v) {
        if (k === 'cssText') { el.setAttribute('style', v); return true; }
        const o = css();
        if (v === '' || v == null) delete o[dash(k)]; else o[dash(k)] = String(v);
        put(o); return true;
      },
    });
  }
}

class El extends Node {
  constructor(doc, name) {
    super(doc); this.localName = name; this.tagName = this.nodeName = name.toUpperCase(); this.nodeType = 1; this._attrs = new Map();
    this._value = undefined; this._checked = undefined;
  }
  get attributes() { return list([...this._attrs].map(([name, value]) => ({ name, value }))); }
  getAttributeNames() { return [...this._attrs.keys()]; }
  getAttribute(k) { k = k.toLowerCase(); return this._attrs.has(k) ? this._attrs.get(k) : null; }
  setAttribute(k, v) { this._attrs.set(k.toLowerCase(), String(v)); }
  hasAttribute(k) { return this._attrs.has(k.toLowerCase()); }
  removeAttribute(k) { this._attrs.delete(k.toLowerCase()); }
  toggleAttribute(k, f) { const on = f === undefined ? !this.hasAttribute(k) : f; if (on) this.hasAttribute(k) || this.setAttribute(k, ''); else this.removeAttribute(k); return on; }
  get id() { return this.getAttribute('id') || ''; } set id(v) { this.setAttribute('id', v); }
  get className() { return this.getAttribute('class') || ''; } set className(v) { this.setAttribute('class', v); }
  get classList() {
    const el = this, get = () => el.className.split(/\s+/).filter(Boolean), put = a => el.className = a.join(' ');
    return {
      get length() { return get().length; }, contains: c => get().includes(c), item: i => get()[i] || null,
      add: (...cs) => put([...new Set([...get(), ...cs])]), remove: (...cs) => put(get().filter(x => !cs.includes(x))),
      toggle: (c, f) => { const on = f === undefined ? !get().includes(c) : f; put(on ? [...new Set([...get(), c])] : get().filter(x => x !== c)); return on; },
      replace: (a, b) => { const g = get(); if (!g.includes(a)) return false; put(g.map(x => x === a ? b : x)); return true; },
      [Symbol.iterator]: () => get()[Symbol.iterator](), toString: () => el.className,
    };
  }
  get style() { return this._style || (this._style = new Style(this)); } set style(v) { this.setAttribute('style', v); }
  get dataset() {
    const el = this, dash = k => 'data-' + k.replace(/[A-Z]/g, c => '-' + c.toLowerCase());
    return new Proxy({}, { get: (_, k) => { const v = typeof k === 'string' ? el.getAttribute(dash(k)) : null; return v === null ? undefined : v; }, set: (_, k, v) => { el.setAttribute(dash(k), v); return true; }, has: (_, k) => el.hasAttribute(dash(k)) });
  }
  get hidden() { return this.hasAttribute('hidden'); } set hidden(v) { this.toggleAttribute('hidden', !!v); }
  get title() { return this.getAttribute('title') || ''; } set title(v) { this.setAttribute('title', v); }
  // forms
  get _control() { return ['input', 'select', 'textarea', 'button'].includes(this.localName); }
  get form() { return this._control ? this.closest('form') : undefined; }
  get name() { return this._control || ['form', 'a', 'meta'].includes(this.localName) ? this.getAttribute('name') || '' : undefined; }
  set name(v) { this.setAttribute('name', v); }
  get type() {
    if (this.localName === 'input') return (this.getAttribute('type') || 'text').toLowerCase();
    if (this.localName === 'button') return (this.getAttribute('type') || 'submit').toLowerCase();
    if (this.localName === 'select') return 'select-one';
    return this.getAttribute('type') || undefined;
  }
  set type(v) { this.setAttribute('type', v); }
  get disabled() { return this._control || this.localName === 'option' ? this.hasAttribute('disabled') : undefined; }
  set disabled(v) { this.toggleAttribute('disabled', !!v); }
  get options() { return collection(() => [...this._all()].filter(e => e.localName === 'option')); }
  get selected() { return this._selected !== undefined ? this._selected : this.hasAttribute('selected'); }
  set selected(v) { const s = this.closest('select'); for (const o of s.options) o._selected = o === this ? !!v : v ? false : o.selected; }
  get selectedIndex() { const o = [...this.options]; const i = o.findLastIndex(x => x.selected); return i < 0 && o.length ? 0 : i; }
  set selectedIndex(i) { [...this.options].forEach((o, k) => o._selected = k === i); }
  get value() {
    if (this.localName === 'input') {
      if (['checkbox', 'radio'].includes(this.type)) return this.hasAttribute('value') ? this.getAttribute('value') : 'on';
      if (['hidden', 'submit', 'button', 'reset'].includes(this.type)) return this.getAttribute('value') || '';
      return this._sane(this._value !== undefined ? this._value : this.getAttribute('value') || '');
    }
    if (this.localName === 'button') return this.getAttribute('value') || '';
    if (this.localName === 'textarea') return this._value !== undefined ? this._value : this.textContent;
    if (this.localName === 'select') { const o = this.options[this.selectedIndex]; return o ? o.value : ''; }
    if (this.localName === 'option') return this.hasAttribute('value') ? this.getAttribute('value') : this.textContent.trim();
    return undefined;
  }
  set value(v) {
    v = v === null ? '' : String(v);
    if (this.localName === 'input') {
      if (['checkbox', 'radio', 'hidden', 'submit', 'button', 'reset'].includes(this.type)) this.setAttribute('value', v);
      else this._value = v;
    } else if (this.localName === 'textarea') this._value = v;
    else if (this.localName === 'select') for (const o of this.options) o._selected = o.value === v;
    else this.setAttribute('value', v);
  }
  _sane(v) {
    if (this.type === 'number') return /^-?(\d+\.?\d*|\.\d+)(e[-+]?\d+)?$/i.test(v.trim()) ? v.trim() : '';
    if (this.type === 'range') {
      const lo = parseFloat(this.getAttribute('min') || '0'), hi = parseFloat(this.getAttribute('max') || '100');
      let x = parseFloat(v); if (isNaN(x)) x = (lo + hi) / 2;
      return x < lo ? String(lo) : x > hi ? String(hi) : v === '' || isNaN(parseFloat(v)) ? String(x) : v;
    }
    return v;
  }
  get defaultValue() { return this.getAttribute('value') || ''; } set defaultValue(v) { this.setAttribute('value', v); }
  get valueAsNumber() { return this.value === '' ? NaN : Number(this.value); } set valueAsNumber(v) { this.value = String(v); }
  get checked() { return this.localName === 'input' ? (this._checked !== undefined ? this._checked : this.hasAttribute('checked')) : undefined; }
  set checked(v) { this._checked = !!v; }
  get defaultChecked() { return this.hasAttribute('checked'); } set defaultChecked(v) { this.toggleAttribute('checked', !!v); }
  get elements() { return collection(() => [...this._all()].filter(e => e._control)); }
  get min() { return this.getAttribute('min') || ''; } set min(v) { this.setAttribute('min', v); }
  get max() { return this.getAttribute('max') || ''; } set max(v) { this.setAttribute('max', v); }
  get step() { return this.getAttribute('step') || ''; } set step(v) { this.setAttribute('step', v); }
  // links
  get href() { const h = this.getAttribute('href'); return h === null ? '' : resolve(h); } set href(v) { this.setAttribute('href', v); }
  get action() { return resolve(this.getAttribute('action') || ''); } set action(v) { this.setAttribute('action', v); }
  get src() { return this.getAttribute('src') || ''; } set src(v) { this.setAttribute('src', v); }
  // tree
  get innerHTML() { return this.childNodes.map(ser(this)).join(''); }
  set innerHTML(h) {
    this.replaceChildren();
    const tmp = new Fragment(this.ownerDocument);
    parse(h, this.ownerDocument, tmp, this.localName);
    this.append(...tmp.childNodes.slice());
  }
  get outerHTML() { return ser(null)(this); }
  insertAdjacentHTML(where, h) {
    const tmp = new Fragment(this.ownerDocument);
    const inside = where.toLowerCase() === 'afterbegin' || where.toLowerCase() === 'beforeend';
    parse(h, this.ownerDocument, tmp, inside ? this.localName : this.parentElement.localName);
    for (const n of tmp.childNodes.slice()) this.insertAdjacentElement(where, n, where.toLowerCase() === 'afterbegin' || where.toLowerCase() === 'afterend' ? tmp : 0);
  }
  insertAdjacentElement(where, n) {
    switch (where.toLowerCase()) {
      case 'beforebegin': this.parentNode.insertBefore(n, this); break;
      case 'afterbegin': this.insertBefore(n, this.firstChild); break;
      case 'beforeend': this.appendChild(n); break;
      case 'afterend': this.parentNode.insertBefore(n, this.nextSibling); break;
    }
    return n;
  }
  cloneNode(deep) {
    const c = new El(this.ownerDocument, this.localName);
    for (const [k, v] of this._attrs) c._attrs.set(k, v);
    c._value = this._value; c._checked = this._checked;
    if (deep) for (const n of this.childNodes) c.appendChild(n.cloneNode(true));
    return c;
  }
  matches(sel) { return selector(sel)(this, this.ownerDocument); }
  closest(sel) { const m = selector(sel); for (let n = this; n instanceof El; n = n.parentNode) if (m(n, this.ownerDocument)) return n; return null; }
  // table conveniences
  get rows() { return collection(() => [...this._all()].filter(e => e.localName === 'tr')); }
  get tBodies() { return collection(() => [...this.children].filter(e => e.localName === 'tbody')); }
  get cells() { return collection(() => [...this.children].filter(e => e.localName === 'td' || e.localName === 'th')); }
  get rowIndex() { const t = this.closest('table'); return t ? [...t.rows].indexOf(this) : -1; }
  get content() { return this; }
  focus() { } blur() { } scrollIntoView() { }
  getBoundingClientRect() { return { x: 0, y: 0, top: 0, left: 0, right: 0, bottom: 0, width: 0, height: 0 }; }
  get clientWidth() { return view.innerWidth; } get offsetWidth() { return view.innerWidth; } get clientHeight() { return 600; } get offsetHeight() { return 600; }
  click() { userClick(this); }
  submit() { submitForm(this, null, false); }
  get noValidate() { return this.hasAttribute('novalidate'); } set noValidate(v) { this.toggleAttribute('novalidate', !!v); }
  isSameNode(o) { return this === o; }
  insertAdjacentText(where, t) { return this.insertAdjacentElement(where, new Text(this.ownerDocument, String(t))); }
  get required() { return this.hasAttribute('required'); } set required(v) { this.toggleAttribute('required', !!v); }
  get readOnly() { return this.hasAttribute('readonly'); } set readOnly(v) { this.toggleAttribute('readonly', !!v); }
  get placeholder() { return this.getAttribute('placeholder') || ''; } set placeholder(v) { this.setAttribute('placeholder', v); }
  get htmlFor() { return this.getAttribute('for') || ''; } set htmlFor(v) { this.setAttribute('for', v); }
  get tabIndex() { return +(this.getAttribute('tabindex') || 0); } set tabIndex(v) { this.setAttribute('tabindex', v); }
  get ariaDisabled() { return this.getAttribute('aria-disabled'); } set ariaDisabled(v) { this.setAttribute('aria-disabled', v); }
  get selectedOptions() { return collection(() => { const o = this.options[this.selectedIndex]; return o ? [o] : []; }); }
  get text() { return this.textContent; } set text(v) { this.textContent = v; }
  get label() { return this.getAttribute('label') || this.textContent.trim(); }
  get index() { return this.closest('select') ? [...this.closest('select').options].indexOf(this) : 0; }
  insertRow(i) {
    const rows = [...this.rows].filter(r => r.closest('table') === this || r.parentNode === this), r = new El(this.ownerDocument, 'tr');
    if (i === undefined || i === -1 || i === rows.length) (this.localName === 'table' && rows.length ? rows[rows.length - 1].parentNode : this).appendChild(r);
    else rows[i].parentNode.insertBefore(r, rows[i]);
    return r;
  }
  deleteRow(i) { const rows = [...this.rows]; rows[i < 0 ? rows.length + i : i].remove(); }
  insertCell(i) { const c = new El(this.ownerDocument, 'td'); this.insertBefore(c, i === undefined || i === -1 ? null : this.cells[i] || null); return c; }
  deleteCell(i) { this.cells[i].remove(); }
  checkValidity() { return this.localName === 'form' ? !invalid(this) : true; } reportValidity() { return this.checkValidity(); }
  requestSubmit(b) { submitForm(this, b || null, true); }
  reset() { for (const e of this._all()) { e._value = undefined; e._checked = undefined; e._selected = undefined; } }
}
const ser = parent => n => {
  if (n instanceof Comment) return `<!--${n.data}-->`;
  if (n instanceof Text) return parent && RAW.has(parent.localName) ? n.data : escText(n.data);
  const a = [...n._attrs].map(([k, v]) => ` ${k}="${escAttr(v)}"`).join('');
  if (VOID.has(n.localName)) return `<${n.localName}${a}>`;
  return `<${n.localName}${a}>${n.childNodes.map(ser(n)).join('')}</${n.localName}>`;
};

class Doc extends Node {
  constructor() { super(null); this.ownerDocument = null; this.nodeType = 9; this.readyState = 'loading'; this.cookie = ''; this.title = ''; }
  get documentElement() { return this.children[0]; }
  getElementsByTagNameNS() { unsim.push('getElementsByTagNameNS'); throw new Error('not simulated'); }
  get body() { return this.querySelector('body'); }
  get head() { return this.querySelector('head'); }
  get forms() { return this.getElementsByTagName('form'); }
  get links() { return this.getElementsByTagName('a'); }
  getElementById(id) { for (const e of this._all()) if (e.id === String(id)) return e; return null; }
  getElementsByName(n) { return collection(() => [...this._all()].filter(e => e.getAttribute('name') === n)); }
  createElement(n) { return new El(this, n.toLowerCase()); }
  createTextNode(s) { return new Text(this, String(s)); }
  createDocumentFragment() { return new Fragment(this); }
  createEvent() { const e = new Ev(''); e.initEvent = (t, b, c) => { e.type = t; e.bubbles = b; e.cancelable = c; }; return e; }
  get activeElement() { return this.body; }
  get location() { return view.location; }
}

const NODE_API = `isEqualNode compareDocumentPosition normalize lookupPrefix isDefaultNamespace moveBefore getElementsByTagNameNS
  baseURI`;
guard(Node.prototype, NODE_API);
guard(El.prototype, `getAttributeNode setAttributeNode removeAttributeNode getAttributeNS setAttributeNS hasAttributeNS removeAttributeNS hasAttributes
  attachShadow shadowRoot animate getAnimations scrollTop scrollLeft scrollHeight scrollWidth scrollTo scrollBy scroll outerText
  labels validity setCustomValidity validationMessage willValidate stepUp stepDown valueAsDate list files
  tHead tFoot caption createTBody createTHead createTFoot createCaption deleteTHead cellIndex sectionRowIndex colSpan rowSpan headers
  multiple size maxLength pattern autocomplete select setSelectionRange setRangeText selectionStart selectionEnd
  lang dir contentEditable isContentEditable offsetTop offsetLeft offsetParent clientTop clientLeft getClientRects checkVisibility
  relList rel pathname search host hostname hash protocol origin download target method enctype encoding
  part slot assignedSlot namespaceURI attributeStyleMap computedStyleMap showModal show close open popover showPopover
  setHTML setHTMLUnsafe requestFullscreen setPointerCapture defaultSelected indeterminate innerTextContent inert accessKey
  role ariaLabel ariaHidden ariaExpanded ariaPressed`);
guard(Doc.prototype, `createRange createTreeWalker createNodeIterator createAttribute importNode adoptNode execCommand getSelection write writeln open close
  scripts images styleSheets elementFromPoint hasFocus visibilityState hidden currentScript implementation evaluate fonts designMode
  createElementNS scrollingElement fullscreenElement all anchors URL documentURI referrer domain`);

// ---------------------------------------------------------------- selectors
const selCache = new Map();
function selector(text) {
  let m = selCache.get(text);
  if (!m) selCache.set(text, m = compileSelector(text));
  return m;
}
function compileSelector(text) {
  let i = 0; const s = String(text);
  const err = () => { throw new Error(`SyntaxError: '${text}' is not a valid selector`); };
  const ws = () => { let n = 0; while (/\s/.test(s[i] || '')) { i++; n++; } return n; };
  const ident = () => {
    const m = /^(?:\\.|[-\w\u00a0-\uffff])+/.exec(s.slice(i)); if (!m) err();
    if (/^-?\d/.test(m[0])) err();
    i += m[0].length; return m[0].replace(/\\(.)/g, '$1');
  };
  function compound() {
    const tests = [];
    const start = i;
    for (;;) {
      const c = s[i];
      if (c === '*') { i++; tests.push(() => true); }
      else if (c === '#') { i++; const v = ident(); tests.push(e => e.id === v); }
      else if (c === '.') { i++; const v = ident(); tests.push(e => e.classList.contains(v)); }
      else if (c === '[') {
        i++; ws(); const k = ident(); ws();
        if (s[i] === ']') { i++; tests.push(e => e.hasAttribute(k)); continue; }
        const m = /^([~|^$*]?)=/.exec(s.slice(i)); if (!m) err();
        i += m[0].length; ws(); let v;
        if (s[i] === '"' || s[i] === "'") { const q = s[i++], j = s.indexOf(q, i); if (j < 0) err(); v = s.slice(i, j); i = j + 1; } else v = ident();
        ws(); if (s[i] === 'i' || s[i] === 's') { i++; ws(); } if (s[i++] !== ']') err();
        tests.push(e => {
          const a = e.getAttribute(k); if (a === null) return false;
          switch (m[1]) {
            case '': return a === v; case '^': return v !== '' && a.startsWith(v); case '$': return v !== '' && a.endsWith(v);
            case '*': return v !== '' && a.includes(v); case '~': return a.split(/\s+/).includes(v); default: return a === v || a.startsWith(v + '-');
          }
        });
      } else if (c === ':') {
        i++; const n = ident();
        if (n === 'checked') tests.push(e => !!e.checked || e.localName === 'option' && e.selected);
        else if (n === 'disabled') tests.push(e => !!e.disabled);
        else if (n === 'enabled') tests.push(e => e._control && !e.disabled);
        else if (n === 'first-child') tests.push(e => !e.previousElementSibling);
        else if (n === 'last-child') tests.push(e => !e.nextElementSibling);
        else if (n === 'scope') tests.push((e, root) => e === root);
        else if (n === 'first-of-type') tests.push(e => [...e.parentNode.children].find(x => x.localName === e.localName) === e);
        else if (n === 'last-of-type') tests.push(e => [...e.parentNode.children].filter(x => x.localName === e.localName).pop() === e);
        else if (n === 'nth-child' || n === 'nth-of-type') {
          const j = s.indexOf(')', i), arg = s.slice(i + 1, j).trim(); i = j + 1;
          const m = arg === 'odd' ? [2, 1] : arg === 'even' ? [2, 0] : /n/.test(arg) ? (() => { const q = /^([-+]?\d*)n\s*([-+]\s*\d+)?$/.exec(arg) || err(); return [q[1] === '' || q[1] === '+' ? 1 : q[1] === '-' ? -1 : +q[1], q[2] ? +q[2].replace(/\s/g, '') : 0]; })() : [0, +arg];
          tests.push(e => { const sib = [...e.parentNode.children].filter(x => n === 'nth-child' || x.localName === e.localName); const p = sib.indexOf(e) + 1; return m[0] === 0 ? p === m[1] : (p - m[1]) % m[0] === 0 && (p - m[1]) / m[0] >= 0; });
        } else if (n === 'not' || n === 'is' || n === 'where') {
          let d = 0, j = i; for (; j < s.length; j++) { if (s[j] === '(') d++; if (s[j] === ')' && --d === 0) break; }
          const inner = compileSelector(s.slice(i + 1, j)); i = j + 1;
          tests.push(n === 'not' ? (e, r) => !inner(e, r) : (e, r) => inner(e, r));
        } else { unsim.push(':' + n); err(); }
      } else if (/[-\w]/.test(c || '')) { if (i !== start) err(); const v = ident().toLowerCase(); tests.push(e => e.localName === v); }
      else break;
    }
    if (i === start) err();
    return (e, r) => tests.every(t => t(e, r));
  }
  function complex() {
    ws(); const parts = [[null, compound()]];
    for (;;) {
      const sp = ws(); let c = s[i];
      if (c === undefined || c === ',') break;
      if (c === '>' || c === '+' || c === '~') { i++; ws(); } else if (sp) c = ' '; else err();
      parts.push([c, compound()]);
    }
    const match = (e, k, root) => {
      if (!parts[k][1](e, root)) return false;
      if (k === 0) return true;
      switch (parts[k][0]) {
        case ' ': for (let p = e.parentElement; p; p = p.parentElement) if (match(p, k - 1, root)) return true; return false;
        case '>': return !!e.parentElement && match(e.parentElement, k - 1, root);
        case '+': return !!e.previousElementSibling && match(e.previousElementSibling, k - 1, root);
        default: for (let p = e.previousElementSibling; p; p = p.previousElementSibling) if (match(p, k - 1, root)) return true; return false;
      }
    };
    return (e, root) => match(e, parts.length - 1, root);
  }
  const alts = [complex()];
  while (s[i] === ',') { i++; alts.push(complex()); }
  if (i < s.length) err();
  return (e, root) => alts.some(a => a(e, root));
}

// ---------------------------------------------------------------- parser
const TABLEISH = new Set(['table', 'tbody', 'thead', 'tfoot', 'tr']);
const INTABLE = new Set(['caption', 'colgroup', 'col', 'tbody', 'thead', 'tfoot', 'tr', 'td', 'th', 'script', 'style', 'template', 'form']);
function parse(html, doc, root, context) {
  const stack = [root];
  const top = () => stack[stack.length - 1];
  const nameOf = n => n instanceof El ? n.localName : (n === root ? context || '' : '');
  const popTo = names => { while (stack.length > 1 && !names.includes(nameOf(top()))) stack.pop(); };
  const inScope = (name, stops) => { for (let k = stack.length - 1; k > 0; k--) { const n = nameOf(stack[k]); if (n === name) return true; if (stops.includes(n)) return false; } return false; };
  const foster = n => {
    // content that may not stand inside a table goes before it
    for (let k = stack.length - 1; k > 0; k--) if (nameOf(stack[k]) === 'table') { stack[k].parentNode.insertBefore(n, stack[k]); return; }
    top().appendChild(n);
  };
  const re = /<!--([\s\S]*?)-->|<!doctype[^>]*>|<\/([a-zA-Z][^\s>]*)[^>]*>|<([a-zA-Z][^\s\/>]*)((?:\s+|\/(?!>)|[^\s"'=<>\/]+(?:\s*=\s*(?:"[^"]*"|'[^']*'|[^\s"'>]+))?)*)\s*(\/?)>/gi;
  let pos = 0, m;
  const text = s => {
    if (!s) return;
    const n = new Text(doc, unescape(s));
    if (TABLEISH.has(nameOf(top())) && s.trim()) foster(n); else top().appendChild(n);
  };
  while ((m = re.exec(html))) {
    text(html.slice(pos, m.index)); pos = re.lastIndex;
    if (m[1] !== undefined) { top().appendChild(new Comment(doc, m[1])); continue; }
    if (m[2]) {
      const name = m[2].toLowerCase();
      const k = stack.findLastIndex((n, j) => j > 0 && nameOf(n) === name);
      // a stray end tag of a table part or an unopened element is ignored
      if (k > 0 && !(TABLEISH.has(nameOf(top())) && !INTABLE.has(name) && name !== 'table' && stack.slice(k + 1).some(n => nameOf(n) === 'table'))) stack.length = k;
      continue;
    }
    if (!m[3]) continue; // doctype
    const name = m[3].toLowerCase();
    const el = new El(doc, name);
    const are = /([^\s"'=<>\/]+)(?:\s*=\s*("[^"]*"|'[^']*'|[^\s"'>]+))?/g; let a;
    while ((a = are.exec(m[4]))) {
      let v = a[2] === undefined ? '' : a[2];
      if (v[0] === '"' || v[0] === "'") v = v.slice(1, -1);
      const k = a[1].toLowerCase();
      if (!el._attrs.has(k)) el._attrs.set(k, unescape(v));
    }
    // implied ends
    if (name === 'tr') { if (inScope('tr', ['table'])) { popTo(['tr']); stack.pop(); } }
    else if (name === 'td' || name === 'th') { for (const t of ['td', 'th']) if (inScope(t, ['table', 'tr'])) { popTo([t]); stack.pop(); } }
    else if (['tbody', 'thead', 'tfoot'].includes(name)) { for (const t of ['tbody', 'thead', 'tfoot']) if (inScope(t, ['table'])) { popTo([t]); stack.pop(); } }
    else if (name === 'option') { if (nameOf(top()) === 'option') stack.pop(); }
    else if (name === 'li') { if (inScope('li', ['ul', 'ol'])) { popTo(['li']); stack.pop(); } }
    else if (['p', 'div', 'ul', 'table', 'form', 'h1', 'h5'].includes(name) && inScope('p', ['div', 'td', 'table', 'button'])) { popTo(['p']); stack.pop(); }
    else if (name === 'form' && stack.some(n => nameOf(n) === 'form')) continue;
    if (name === 'tr' && nameOf(top()) === 'table') { const tb = new El(doc, 'tbody'); top().appendChild(tb); stack.push(tb); }
    if (TABLEISH.has(nameOf(top())) && !INTABLE.has(name) && !(name === 'input' && el.type === 'hidden')) foster(el);
    else top().appendChild(el);
    if (VOID.has(name) || m[5] && false) continue;
    if (RAW.has(name) || RCDATA.has(name)) {
      const end = new RegExp(`</${name}\\s*>`, 'gi'); end.lastIndex = pos;
      const e = end.exec(html), stop = e ? e.index : html.length, s = html.slice(pos, stop);
      if (s) el.appendChild(new Text(doc, RAW.has(name) ? s : unescape(s)));
      pos = re.lastIndex = e ? end.lastIndex : html.length;
      continue;
    }
    stack.push(el);
  }
  text(html.slice(pos));
}

// ---------------------------------------------------------------- the window
let view, doc, errors, plots, timers, now, actions, ctx;
const resolve = h => { try { return new URL(h, 'http://127.0.0.1/').href; } catch { return h; } };

function invalid(form) {
  if (form.hasAttribute('novalidate')) return null;
  for (const e of form._all()) {
    if (!['input', 'select', 'textarea'].includes(e.localName) || e.disabled || e.type === 'hidden') continue;
    if (e.hasAttribute('required') && (e.type === 'checkbox' ? !e.checked : e.value === '')) return e;
    if (e.type === 'number' && e.value !== '') {
      const lo = parseFloat(e.getAttribute('min')), hi = parseFloat(e.getAttribute('max')), x = Number(e.value);
      if (x < lo || x > hi) return e;
    }
  }
  return null;
}
function submitForm(form, submitter, events) {
  if (events !== false) {
    const e = !(submitter && submitter.hasAttribute('formnovalidate')) && invalid(form);
    if (e) { actions.push({ do: 'refused', name: e.name }); return; }
    const ev = new Ev('submit', { bubbles: true, cancelable: true, extra: { submitter } });
    if (!dispatch(form, ev)) return;
  }
  actions.push({ do: 'submit', method: (form.getAttribute('method') || 'get').toLowerCase(), to: form.getAttribute('action') || '', data: formData(form, submitter) });
}
function formData(form, submitter) {
  const out = [];
  for (const e of form._all()) {
    if (!e._control || e.disabled || !e.name) continue;
    if (e.localName === 'button' || ['submit', 'button', 'reset', 'image'].includes(e.type)) { if (e === submitter) out.push([e.name, e.value]); continue; }
    if (['checkbox', 'radio'].includes(e.type)) { if (e.checked) out.push([e.name, e.value]); continue; }
    if (e.localName === 'select' && !e.options.length) continue;
    out.push([e.name, e.value]);
  }
  return out;
}
function userClick(el) {
  if (el._control && el.disabled) return;
  let undo = null;
  if (el.localName === 'input' && el.type === 'checkbox') { const was = el.checked; el.checked = !was; undo = () => { el.checked = was; }; }
  const ev = new Ev('click', { bubbles: true, cancelable: true, extra: { button: 0 } });
  const go = dispatch(el, ev);
  if (!go) { if (undo) undo(); return; }
  if (undo) { dispatch(el, new Ev('input', { bubbles: true })); dispatch(el, new Ev('change', { bubbles: true })); return; }
  const act = el.closest('a[href],button,input');
  if (!act || !el.isConnected) return;
  if (act.localName === 'a') { if (act.hasAttribute('href')) actions.push({ do: 'follow', to: act.getAttribute('href') }); return; }
  if (act.disabled) return;
  if (act.type === 'submit' && act.form) submitForm(act.form, act);
}

function plotlyRest() {
  const o = {};
  guard(o, `extendTraces prependTraces toImage downloadImage animate addFrames deleteFrames validate makeTemplate setPlotConfig register Snapshot d3 Fx Queue`);
  return o;
}
const Plotly = {
  __proto__: plotlyRest(),
  _gd(d) { const g = typeof d === 'string' ? doc.getElementById(d) : d; if (!g) throw new Error('No DOM element with id \'' + d + '\' exists on the page.'); return g; },
  newPlot(d, data, layout) {
    const g = this._gd(d);
    if (data && !Array.isArray(data)) { layout = data.layout; data = data.data; }
    // plotly keeps the arrays it was given
    g.data = data || []; g.layout = layout || {}; plots.push('newPlot'); return Promise.resolve(g);
  },
  plot(d, data, layout) { return this.newPlot(d, data, layout); },
  react(d, data, layout) { return this.newPlot(d, data, layout); },
  _need(d) { const g = this._gd(d); if (!g.data) throw new Error('This element is not a Plotly plot: ' + g.id); return g; },
  addTraces(d, traces, at) {
    const g = this._need(d); traces = Array.isArray(traces) ? traces : [traces];
    if (at === undefined) g.data.push(...traces);
    else { at = Array.isArray(at) ? at : [at]; traces.forEach((t, k) => g.data.splice(at[k] < 0 ? g.data.length + at[k] : at[k], 0, t)); }
    plots.push('addTraces'); return Promise.resolve(g);
  },
  deleteTraces(d, idx) {
    const g = this._need(d); idx = (Array.isArray(idx) ? idx : [idx]).map(i => i < 0 ? g.data.length + i : i).sort((a, b) => b - a);
    for (const i of idx) g.data.splice(i, 1); return Promise.resolve(g);
  },
  moveTraces(d, from, to) { const g = this._need(d); const f = [].concat(from).map(i => i < 0 ? g.data.length + i : i); const ts = f.map(i => g.data[i]); g.data = g.data.filter((_, i) => !f.includes(i)); if (to === undefined) g.data.push(...ts); else [].concat(to).forEach((t, k) => g.data.splice(t, 0, ts[k])); return Promise.resolve(g); },
  update(d, tr, lay, idx) { this.restyle(d, tr && !Array.isArray(tr) && typeof tr === 'object' ? tr : {}, idx); return this.relayout(d, lay || {}); },
  restyle(d, upd, val, idx) {
    const g = this._need(d);
    if (typeof upd === 'string') upd = { [upd]: val }; else idx = val;
    const on = idx === undefined ? g.data.map((_, i) => i) : [].concat(idx);
    for (const [k, v] of Object.entries(upd)) on.forEach((i, j) => setPath(g.data[i], k, Array.isArray(v) ? v[j % v.length] : v));
    return Promise.resolve(g);
  },
  relayout(d, upd, val) { const g = this._need(d); if (typeof upd === 'string') upd = { [upd]: val }; for (const [k, v] of Object.entries(upd)) setPath(g.layout, k, v); return Promise.resolve(g); },
  redraw(d) { return Promise.resolve(this._need(d)); },
  purge(d) { const g = this._gd(d); delete g.data; delete g.layout; },
  Plots: { resize() { return Promise.resolve(); } },
  resize() { return Promise.resolve(); },
};
function setPath(o, k, v) { const ks = k.split('.'); while (ks.length > 1) { const h = ks.shift(); o = o[h] = o[h] || {}; } o[ks[0]] = v; }

class View extends Target { }
const kind = (...names) => class extends El { static [Symbol.hasInstance](o) { return o instanceof El && names.includes(o.localName); } };

function load(cmd) {
  errors = []; unsim = []; plots = []; timers = []; now = 0; actions = [];
  view = new View(); doc = new Doc(); doc.defaultView = view;
  view.innerWidth = cmd.width; view.innerHeight = cmd.height || 800;
  report = e => errors.push(String(e && e.stack ? e.stack.split('\n').slice(0, 2).join(' ').replace(/\(?(\/[^ ]*\/)([^/ ]+:\d+:\d+)\)?/, '$2') : e));
  const timer = (every) => (fn, ms, ...args) => { const id = ++timer.n; timers.push({ id, at: now + Math.max(0, +ms || 0), fn, every: every ? Math.max(1, +ms || 0) : 0, args }); return id; };
  timer.n = 0;
  const clear = id => { timers = timers.filter(t => t.id !== id); };
  class SimDate extends Date { constructor(...a) { if (a.length) super(...a); else super(1.7e12 + now); } static now() { return 1.7e12 + now; } }
  const store = () => { const m = new Map(); return { getItem: k => m.has(k) ? m.get(k) : null, setItem: (k, v) => m.set(k, String(v)), removeItem: k => m.delete(k), clear: () => m.clear() }; };
  const quiet = { log() { }, warn() { }, error() { }, info() { }, debug() { } };
  Object.assign(view, {
    document: doc, console: quiet, setTimeout: timer(false), setInterval: timer(true), clearTimeout: clear, clearInterval: clear,
    requestAnimationFrame: f => view.setTimeout(() => f(now), 16), cancelAnimationFrame: clear, queueMicrotask,
    Date: SimDate, Event: Ev, CustomEvent: Ev, MouseEvent: Ev, Node, Element: El, HTMLElement: El,
    HTMLInputElement: kind('input'), HTMLButtonElement: kind('button'), HTMLFormElement: kind('form'), HTMLSelectElement: kind('select'), HTMLOptionElement: kind('option'),
    HTMLTextAreaElement: kind('textarea'), HTMLAnchorElement: kind('a'), HTMLTableElement: kind('table'), HTMLTableRowElement: kind('tr'), HTMLTableCellElement: kind('td', 'th'),
    HTMLDivElement: kind('div'), HTMLScriptElement: kind('script'), Document: Doc, HTMLDocument: Doc, CSS: { escape: x => String(x).replace(/[^-\w\u00a0-\uffff]/g, '\\$&') }, InputEvent: Ev, KeyboardEvent: Ev, UIEvent: Ev, SubmitEvent: Ev, EventTarget: Target, structuredClone, Text, DocumentFragment: Fragment, URL, URLSearchParams,
    localStorage: store(), sessionStorage: store(), performance: { now: () => now }, alert() { }, confirm: () => true, prompt: () => null,
    navigator: { userAgent: 'simulated' }, innerWidth: cmd.width, devicePixelRatio: 1, scrollTo() { },
    matchMedia: q => { const mx = /max-width:\s*([\d.]+)px/.exec(q), mn = /min-width:\s*([\d.]+)px/.exec(q); return { get matches() { return (!mx || view.innerWidth <= +mx[1]) && (!mn || view.innerWidth >= +mn[1]); }, addEventListener() { }, addListener() { } }; },
    getComputedStyle: e => e.style,
    FormData: class { constructor(f) { this._d = f ? formData(f, null) : []; } *entries() { yield* this._d; } [Symbol.iterator]() { return this._d[Symbol.iterator](); } get(k) { const x = this._d.find(y => y[0] === k); return x ? x[1] : null; } append(k, v) { this._d.push([k, v]); } },
    location: { pathname: '/', get href() { return 'http://127.0.0.1/'; }, set href(v) { actions.push({ do: 'follow', to: v }); }, assign(v) { actions.push({ do: 'follow', to: v }); }, replace(v) { actions.push({ do: 'follow', to: v }); }, reload() { actions.push({ do: 'follow', to: '' }); }, search: '', hash: '', origin: 'http://127.0.0.1' },
  });
  if (cmd.plotly !== false) view.Plotly = Plotly;
  guard(view, `MutationObserver IntersectionObserver ResizeObserver fetch XMLHttpRequest history open getSelection requestIdleCallback bootstrap jQuery $
    DOMParser XMLSerializer Image HTMLCollection NodeList AbortController TextEncoder TextDecoder crypto indexedDB customElements Blob File FileReader
    postMessage screen scroll scrollBy print Range TreeWalker NodeFilter visualViewport Worker WebSocket BroadcastChannel outerWidth outerHeight scrollX scrollY
    pageXOffset pageYOffset Option Audio Headers Request Response Intl2 HTMLTemplateElement HTMLUListElement HTMLLabelElement Window`);
  view.window = view.self = view.globalThis = view.top = view;
  ctx = vm.createContext(view);
  parse(cmd.html, doc, doc);
  for (const s of [...doc.getElementsByTagName('script')]) {
    const t = (s.getAttribute('type') || 'text/javascript').toLowerCase();
    if (t !== 'text/javascript' && t !== 'module' && t !== '') continue;
    let code = s.textContent, name = 'inline';
    if (s.hasAttribute('src')) {
      const u = s.getAttribute('src');
      if (!u.startsWith(cmd.staticUrl)) continue; // from elsewhere: Plotly is the stub, bootstrap is not simulated
      name = u.slice(cmd.staticUrl.length).split('?')[0];
      const file = path.join(cmd.staticDir, name);
      if (!fs.existsSync(file)) { errors.push('no script ' + name); continue; }
      code = fs.readFileSync(file, 'utf8');
    }
    try { vm.runInContext(code, ctx, { filename: name }); } catch (e) { report(e); }
  }
  doc.readyState = 'interactive';
  dispatch(doc, new Ev('DOMContentLoaded', { bubbles: true }));
  doc.readyState = 'complete';
  dispatch(view, new Ev('load'));
}

function advance(ms) {
  const end = now + ms;
  for (;;) {
    const due = timers.filter(t => t.at <= end).sort((a, b) => a.at - b.at || a.id - b.id)[0];
    if (!due) break;
    now = Math.max(now, due.at);
    if (due.every) due.at = now + due.every; else timers = timers.filter(t => t !== due);
    try { typeof due.fn === 'function' ? due.fn(...due.args) : vm.runInContext(String(due.fn), ctx); } catch (e) { report(e); }
  }
  now = end;
}

const shown = e => { for (let n = e; n instanceof El; n = n.parentNode) if (n.style.display === 'none' || n.hidden) return false; return true; };
function rows(kind) {
  const out = [];
  for (const tr of doc.querySelectorAll('.formset-row-' + kind)) {
    const r = [];
    for (const e of tr._all()) {
      if (e.localName !== 'input' && e.localName !== 'select' && e.localName !== 'textarea') continue;
      if (e.type === 'hidden') continue;
      r.push(e.type === 'checkbox' ? (e.checked ? 'on' : '') : e.value);
    }
    out.push(r);
  }
  return out;
}
function rowField(kind, row, col) {
  const tr = doc.querySelectorAll('.formset-row-' + kind)[row];
  if (!tr) return null;
  return [...tr._all()].filter(e => ['input', 'select', 'textarea'].includes(e.localName) && e.type !== 'hidden')[col] || null;
}
function setValue(e, v) {
  if (e.type === 'checkbox') { if (e.checked !== !!v) userClick(e); return; }
  if (e.value === v) return;
  e.value = v;
  dispatch(e, new Ev('input', { bubbles: true }));
  dispatch(e, new Ev('change', { bubbles: true }));
}
function fieldNamed(n) { return [...doc._all()].find(e => e._control && e.getAttribute('name') === n) || null; }

function state(cmd) {
  const form = doc.getElementById('mainform');
  const pdf = doc.getElementById('pdf_button'), ana = doc.getElementById('analysis_button');
  const g = doc.getElementById('plotly_js');
  const slider = doc.getElementById('id_options-max_display_FOS');
  const vis = {};
  for (const d of doc.querySelectorAll('.Slope-div, .WaterTable-div, .Limits-div, .Options-div')) for (const e of d._all()) if (e._control && e.name) vis[e.name] = shown(e);
  const texts = {};
  for (const e of doc.querySelectorAll('input[type="range"]')) { const p = [...e.parentElement.children].filter(x => x !== e && x.textContent.trim() !== ''); texts[e.name] = [e.value, p.map(x => x.textContent.trim())]; }
  return {
    errors, unsim, data: form ? formData(form, null) : null,
    rows: { Materials: rows('Materials'), Udls: rows('Udls'), LineLoads: rows('LineLoads') },
    analyse: !!ana && !ana.disabled, pdf: pdf ? { href: pdf.getAttribute('href'), off: pdf.classList.contains('disabled') || pdf.getAttribute('aria-disabled') === 'true' || !pdf.hasAttribute('href') } : null,
    slider: slider ? slider.value : null, drawn: cmd.drawn ? (g && g.data ? g.data : null) : undefined, plotted: !!(g && g.data), layout: g && g.layout ? { n: (g.layout.shapes || []).length + (g.layout.annotations || []).length } : null,
    visible: vis, texts,
    soil: [...(doc.getElementById('mobile_soil_table') || new Fragment(doc)).children].map(tr => [...tr.children].map(td => [td.textContent, td.style.backgroundColor])),
    mobile: doc.getElementById('mobile_screen_menus') ? shown(doc.getElementById('mobile_screen_menus')) : null,
  };
}

// the browser goes on: promises are settled and two frames are drawn
async function settle() {
  for (let k = 0; k < 2; k++) {
    await new Promise(done => setImmediate(done));
    advance(20);
  }
  await new Promise(done => setImmediate(done));
}

async function run(cmd) {
  actions = [];
  switch (cmd.do) {
    case 'load': load(cmd); break;
    case 'set': { const e = fieldNamed(cmd.name); if (!e) return { none: true }; setValue(e, cmd.value); break; }
    case 'cell': { const e = rowField(cmd.kind, cmd.row, cmd.col); if (!e) return { none: true }; setValue(e, cmd.value); break; }
    case 'add': { const b = doc.getElementById(`add-${cmd.kind}-form`); if (!b) return { none: true }; userClick(b); break; }
    case 'delete': { const b = doc.querySelectorAll(`.delete-${cmd.kind}-form`)[cmd.row]; if (!b) return { none: true }; userClick(b); break; }
    case 'drag': { const e = fieldNamed(cmd.name); for (const v of cmd.values) { e.value = v; dispatch(e, new Ev('input', { bubbles: true })); } dispatch(e, new Ev('change', { bubbles: true })); break; }
    case 'click': { const b = doc.getElementById(cmd.id); if (!b) return { none: true }; userClick(b); break; }
    case 'enter': {
      const e = fieldNamed(cmd.name), f = e && e.form;
      if (!f) return { none: true };
      const b = [...f._all()].find(x => (x.localName === 'button' || x.localName === 'input') && x.type === 'submit');
      if (b && !b.disabled) userClick(b); else if (!b) submitForm(f, null);
      break;
    }
    case 'resize': view.innerWidth = cmd.width; dispatch(view, new Ev('resize')); break;
    case 'wait': advance(cmd.ms); break;
    case 'state': break;
    default: throw new Error('unknown command ' + cmd.do);
  }
  await settle();
  return { actions, state: cmd.quiet ? undefined : state(cmd) };
}

process.on('unhandledRejection', e => report(e));
const lines = require('readline').createInterface({ input: process.stdin });
lines.on('line', async l => {
  let out;
  try { out = await run(JSON.parse(l)); } catch (e) { out = { bug: String(e && e.stack || e) }; }
  process.stdout.write(JSON.stringify(out) + '\n');
});
