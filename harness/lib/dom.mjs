// A small document: elements in a tree with geometry, selectors, events with
// capture and bubbling, mutation and intersection observers, constructable
// style sheets. Enough of a browser for the tag to run against.

export class EventHub {
  constructor() {
    Object.defineProperty(this, '_l', { value: [], enumerable: false });
  }
  addEventListener(type, fn, opt) {
    if (!fn) return;
    const o = typeof opt === 'boolean' ? { capture: opt } : opt ?? {};
    if (o.signal?.aborted) return;
    if (this._l.some((l) => l.type === type && l.fn === fn && l.capture === !!o.capture)) return;
    const l = { type, fn, capture: !!o.capture, once: !!o.once, gone: false };
    this._l.push(l);
    o.signal?.addEventListener('abort', () => this._drop(l));
  }
  removeEventListener(type, fn, opt) {
    const capture = typeof opt === 'boolean' ? opt : !!opt?.capture;
    const l = this._l.find((x) => x.type === type && x.fn === fn && x.capture === capture);
    if (l) this._drop(l);
  }
  _drop(l) {
    l.gone = true;
    const i = this._l.indexOf(l);
    if (i >= 0) this._l.splice(i, 1);
  }
  _run(ev, phase) {
    const all = phase === 'target' ? [...this._l.filter((l) => l.capture), ...this._l.filter((l) => !l.capture)] : [...this._l];
    for (const l of all) {
      if (l.gone || l.type !== ev.type) continue;
      if (phase !== 'target' && l.capture !== (phase === 'capture')) continue;
      if (l.once) this._drop(l);
      ev.currentTarget = this;
      try {
        if (typeof l.fn === 'function') l.fn.call(this, ev);
        else l.fn.handleEvent(ev);
      } catch (e) {
        this._oops?.(e);
      }
      if (ev._stop) return;
    }
  }
}

export class Ev {
  constructor(type, init = {}) {
    Object.assign(this, { type, bubbles: false, cancelable: false, defaultPrevented: false, isTrusted: true, button: 0, relatedTarget: null }, init);
  }
  preventDefault() { this.defaultPrevented = true; }
  stopPropagation() { this._stopProp = true; }
  stopImmediatePropagation() { this._stopProp = this._stop = true; }
  composedPath() { return this._path ?? []; }
}

const parseCompound = (s) => {
  const out = { tag: null, id: null, cls: [], attr: [] };
  const re = /^(\*|[a-zA-Z][\w-]*)|#([\w-]+)|\.([\w-]+)|\[([\w-]+)(?:="?([^"\]]*)"?)?\]/g;
  let m, pos = 0;
  while ((m = re.exec(s))) {
    if (m.index !== pos) throw new SyntaxError(`'${s}' is not a valid selector`);
    pos = re.lastIndex;
    if (m[1]) out.tag = m[1] === '*' ? null : m[1].toUpperCase();
    else if (m[2]) out.id = m[2];
    else if (m[3]) out.cls.push(m[3]);
    else out.attr.push([m[4], m[5]]);
  }
  if (pos !== s.length || s === '') throw new SyntaxError(`'${s}' is not a valid selector`);
  return out;
};
const selCache = new Map();
const parseSelector = (s) => {
  if (selCache.has(s)) return selCache.get(s);
  const r = String(s).split(',').map((p) => p.trim().split(/\s+/).map(parseCompound));
  selCache.set(s, r);
  return r;
};
const fits = (el, c) =>
  (!c.tag || el.tagName === c.tag) && (!c.id || el.id === c.id) && c.cls.every((k) => el.className.split(/\s+/).includes(k)) &&
  c.attr.every(([k, v]) => el.hasAttribute(k) && (v === undefined || el.getAttribute(k) === v));
const matches = (el, sel) =>
  parseSelector(sel).some((chain) => {
    let i = chain.length - 1;
    if (!fits(el, chain[i])) return false;
    let p = el.parentNode;
    for (i -= 1; i >= 0; i--) {
      while (p && !(p.nodeType === 1 && fits(p, chain[i]))) p = p.parentNode;
      if (!p) return false;
      p = p.parentNode;
    }
    return true;
  });

export function makeDom(g, { log = () => {} } = {}) {
  const observers = new Set();
  const note = (target, rec) => {
    for (const o of observers) o._see(target, rec);
  };
  class Node extends EventHub {
    constructor(doc) {
      super();
      this.ownerDocument = doc;
      this.parentNode = null;
      this.childNodes = [];
    }
    _oops(e) { log('handler', e); }
    get parentElement() { return this.parentNode?.nodeType === 1 ? this.parentNode : null; }
    get children() { return this.childNodes.filter((n) => n.nodeType === 1); }
    get firstElementChild() { return this.children[0] ?? null; }
    get firstChild() { return this.childNodes[0] ?? null; }
    get isConnected() { let n = this; while (n.parentNode) n = n.parentNode; return n.nodeType === 9; }
    contains(n) { for (; n; n = n.parentNode) if (n === this) return true; return false; }
    appendChild(n) { return this.insertBefore(n, null); }
    append(...ns) { ns.forEach((n) => this.appendChild(n)); }
    insertBefore(n, ref) {
      if (ref && ref.parentNode !== this) throw new Error('NotFoundError');
      n.parentNode?._take(n);
      const into = this.nodeType === 9 ? this : this.ownerDocument;
      if (n.ownerDocument !== into) for (const x of [n, ...n._all()]) x.ownerDocument = into;
      const i = ref ? this.childNodes.indexOf(ref) : this.childNodes.length;
      this.childNodes.splice(i < 0 ? this.childNodes.length : i, 0, n);
      n.parentNode = this;
      note(this, { type: 'childList', addedNodes: [n], removedNodes: [], target: this });
      if (n.tagName === 'SCRIPT' && n.isConnected) this.ownerDocument._script?.(n);
      (this.ownerDocument ?? this)._layout?.();
      return n;
    }
    _take(n) {
      this.childNodes.splice(this.childNodes.indexOf(n), 1);
      n.parentNode = null;
      note(this, { type: 'childList', addedNodes: [], removedNodes: [n], target: this });
      (this.ownerDocument ?? this)._layout?.();
    }
    removeChild(n) {
      if (n.parentNode !== this) throw new Error('NotFoundError');
      this._take(n);
      return n;
    }
    remove() { this.parentNode?._take(this); }
    *_all() { for (const c of this.childNodes) { if (c.nodeType === 1) { yield c; yield* c._all(); } } }
    querySelectorAll(sel) { parseSelector(sel); return [...this._all()].filter((e) => matches(e, sel)); }
    querySelector(sel) { return this.querySelectorAll(sel)[0] ?? null; }
    dispatchEvent(ev) {
      const path = [];
      for (let n = this; n; n = n.parentNode) path.push(n);
      if (path.at(-1)?.nodeType === 9 && g.window) path.push(g._hub);
      ev.target = this;
      ev._path = path;
      for (const n of path.slice(1).reverse()) { n._run(ev, 'capture'); if (ev._stopProp) return !ev.defaultPrevented; }
      this._run(ev, 'target');
      if (ev.bubbles) for (const n of path.slice(1)) { if (ev._stopProp) break; n._run(ev, 'bubble'); }
      return !ev.defaultPrevented;
    }
  }
  Object.assign(Node, { ELEMENT_NODE: 1, TEXT_NODE: 3, DOCUMENT_NODE: 9, DOCUMENT_FRAGMENT_NODE: 11 });
  class Element extends Node {
    constructor(doc, tag) {
      super(doc);
      this.nodeType = 1;
      this.tagName = tag.toUpperCase();
      this._attr = new Map();
      this._text = '';
      const el = this;
      this.style = new Proxy({}, { set(o, k, v) { o[k] = v; note(el, { type: 'attributes', attributeName: 'style', addedNodes: [], removedNodes: [], target: el }); doc._layout?.(); return true; } });
      this._box = null; // {top,height}
    }
    get id() { return this._attr.get('id') ?? ''; }
    set id(v) { this.setAttribute('id', v); }
    get className() { return this._attr.get('class') ?? ''; }
    set className(v) { this.setAttribute('class', v); }
    get classList() { const el = this; const list = () => el.className.split(/\s+/).filter(Boolean); return { add: (...c) => { el.className = [...new Set([...list(), ...c])].join(' '); }, remove: (...c) => { el.className = list().filter((x) => !c.includes(x)).join(' '); }, contains: (c) => list().includes(c) }; }
    hasAttribute(k) { return this._attr.has(k); }
    getAttribute(k) { return this._attr.has(k) ? this._attr.get(k) : null; }
    setAttribute(k, v) {
      this._attr.set(k, String(v));
      note(this, { type: 'attributes', attributeName: k, addedNodes: [], removedNodes: [], target: this });
    }
    removeAttribute(k) { this._attr.delete(k); note(this, { type: 'attributes', attributeName: k, addedNodes: [], removedNodes: [], target: this }); }
    get textContent() { return this._text; }
    set textContent(v) { this._text = String(v); }
    get innerHTML() { return this._text; }
    set innerHTML(v) { this._text = String(v); }
    get src() { return this.getAttribute('src') ?? ''; }
    set src(v) { this.setAttribute('src', v); }
    matches(sel) { return matches(this, sel); }
    closest(sel) { parseSelector(sel); for (let n = this; n && n.nodeType === 1; n = n.parentNode) if (matches(n, sel)) return n; return null; }
    attachShadow() { const s = new Node(this.ownerDocument); s.nodeType = 11; s.adoptedStyleSheets = []; this.shadowRoot = s; return s; }
    focus() {}
    click() { this.dispatchEvent(new Ev('click', { bubbles: true, cancelable: true })); }
    getBoundingClientRect() { const b = this._box ?? { top: 0, height: 0 }; return { top: b.top - g.scrollY, height: b.height, bottom: b.top + b.height - g.scrollY, left: 0, right: 0, width: 0 }; }
  }
  class HTMLElement extends Element {}
  // the real HTMLElement has no own removeChild; the tag installs one
  class Document extends Node {
    constructor() {
      super(null);
      this.nodeType = 9;
      this.hidden = false;
      this.adoptedStyleSheets = [];
      this.referrer = '';
      this.readyState = 'complete';
    }
    createElement(tag) {
      const el = new HTMLElement(this, tag);
      if (el.tagName === 'IFRAME') el.contentWindow = { postMessage() {} };
      return el;
    }
    createTextNode(t) { const n = new Node(this); n.nodeType = 3; n.data = t; return n; }
    createDocumentFragment() { const n = new Node(this); n.nodeType = 11; return n; }
    getElementById(id) { for (const e of this._all()) if (e.id === id) return e; return null; }
    getElementsByTagName(t) { return this.querySelectorAll(t); }
    get visibilityState() { return this.hidden ? 'hidden' : 'visible'; }
    get defaultView() { return g; }
  }
  const document = new Document();
  const html = document.createElement('html');
  document.childNodes.push(html);
  html.parentNode = document;
  document.documentElement = html;
  document.head = html.appendChild(document.createElement('head'));
  document.body = html.appendChild(document.createElement('body'));
  html.scrollHeight = 0;

  class MutationObserver {
    constructor(cb) { this.cb = cb; this.targets = []; this.queue = []; this.armed = false; }
    observe(target, options = {}) { this.targets = this.targets.filter((t) => t.target !== target); this.targets.push({ target, options }); observers.add(this); }
    disconnect() { this.targets = []; this.queue = []; observers.delete(this); }
    takeRecords() { const q = this.queue; this.queue = []; return q; }
    _see(target, rec) {
      const t = this.targets.find(({ target: root, options: o }) =>
        (root === target || (o.subtree && root.contains(target))) &&
        (rec.type === 'childList' ? o.childList : o.attributes && (!o.attributeFilter || o.attributeFilter.includes(rec.attributeName))));
      if (!t) return;
      this.queue.push(rec);
      if (this.armed) return;
      this.armed = true;
      queueMicrotask(() => {
        this.armed = false;
        const q = this.takeRecords();
        if (q.length && g.alive !== false) { try { this.cb(q, this); } catch (e) { log('mutation observer', e); } }
      });
    }
  }
  const watchers = new Set();
  class IntersectionObserver {
    constructor(cb, { threshold = 0, rootMargin = '0px' } = {}) {
      this.cb = cb;
      this.thresholds = [].concat(threshold).sort((a, b) => a - b);
      const m = rootMargin.split(/\s+/).map((x) => parseFloat(x) || 0);
      this.bottom = m.length >= 3 ? m[2] : m[0];
      this.top = m[0];
      this.seen = new Map(); // target -> [threshold index, intersecting]
      watchers.add(this);
    }
    observe(el) { if (!this.seen.has(el)) { this.seen.set(el, [-1, false]); document._layout(); } }
    unobserve(el) { this.seen.delete(el); }
    disconnect() { this.seen.clear(); }
    takeRecords() { return []; }
    _measure() {
      const entries = [];
      for (const [el, [pi, pv]] of this.seen) {
        const shown = el._box && el.isConnected && !hiddenSelf(el);
        const lo = g.scrollY - this.top, hi = g.scrollY + g.innerHeight + this.bottom;
        const b = el._box ?? { top: 0, height: 0 };
        const isIntersecting = !!shown && b.top <= hi && b.top + b.height >= lo;
        const over = isIntersecting ? Math.max(0, Math.min(hi, b.top + b.height) - Math.max(lo, b.top)) : 0;
        const ratio = !isIntersecting ? 0 : b.height === 0 ? 1 : over / b.height;
        let ti = 0;
        if (isIntersecting) { ti = this.thresholds.findIndex((t) => t > ratio); if (ti < 0) ti = this.thresholds.length; }
        if (ti !== pi || isIntersecting !== pv) {
          this.seen.set(el, [ti, isIntersecting]);
          entries.push({ target: el, isIntersecting, intersectionRatio: ratio, time: g.clock.now });
        }
      }
      if (entries.length) { try { this.cb(entries, this); } catch (e) { log('intersection observer', e); } }
    }
  }
  const hiddenSelf = (el) => { for (let n = el; n && n.nodeType === 1; n = n.parentNode) if (n.style.display === 'none') return true; return false; };
  // intersections are measured once per frame, here right after the current task
  let due = false;
  document._layout = () => {
    if (due || !watchers.size) return;
    due = true;
    setImmediate(() => { due = false; if (g.alive !== false) for (const w of [...watchers]) w._measure(); });
  };
  class CSSStyleSheet { constructor() { this.css = ''; } replaceSync(css) { this.css = css; } }
  class DOMParser {
    parseFromString(text) {
      const doc = { body: { firstElementChild: null } };
      const m = /<([a-z]+)(?:\s+id="([^"]*)")?[^>]*>([^<]*)/i.exec(text);
      if (m) { const el = document.createElement(m[1]); if (m[2]) el._attr.set('id', m[2]); el._text = m[3]; doc.body.firstElementChild = el; }
      return doc;
    }
  }
  const getComputedStyle = (el) => {
    const none = hiddenSelf(el);
    let vis = 'visible';
    for (let n = el; n && n.nodeType === 1; n = n.parentNode) if (n.style.visibility) { vis = n.style.visibility; break; }
    // computed display of an element inside a hidden one is its own
    void none;
    return { display: el.style.display || 'block', visibility: vis };
  };
  return { document, Node, Element, HTMLElement, MutationObserver, IntersectionObserver, CSSStyleSheet, DOMParser, getComputedStyle };
}
